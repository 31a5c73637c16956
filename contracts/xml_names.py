from cxx2why import *
from xml_ranges import BASE_CHAR, IDEOGRAPHIC, DIGIT, COMBINING, EXTENDER
X = 'Arabica::XML::'
NI = 'Arabica::SimpleDOM::NodeImpl::'
Q = X + 'QualifiedName::'
M = X + 'impl::MapMapper::'
XQ = 'Arabica::XSLT::QName::'
TUS = [('tu_text.cpp', [X + '.*', XQ + '.*', NI + 'check(Name|Chars)'])]

def pred(name, ranges):
    return '  predicate %s (c: int) = %s\n' % (name, ' \\/ '.join('0x%x <= c <= 0x%x' % r if r[0] != r[1] else 'c = 0x%x' % r[0] for r in ranges))
def tab(name, vals):
    return '  function %s (i: int) : int = %s0\n' % (name, ''.join('if i = %d then 0x%x else ' % (i, v) for i, v in enumerate(vals)))

def make_unit():
    u = Unit()
    u.exceptions = {'DOMException': 'int', 'runtime_error': '', 'SAXException': ''}
    u.value_classes = {X + 'QualifiedName', X + 'impl::MapMapper', 'Arabica::XSLT::QName'}
    n = len(BASE_CHAR)
    u.spec = '  exception DOMException int\n  exception Runtime_error\n  exception SAXException\n' + tab('b_lo', [a for a, _ in BASE_CHAR]) + tab('b_hi', [b for _, b in BASE_CHAR]) + '''
  (* XML 1.0 appendix B *)
  predicate base_char (c: int) = exists i. 0 <= i < %d /\\ b_lo i <= c <= b_hi i
  let lemma b_step () ensures { forall i. 0 <= i < %d -> b_lo i <= b_hi i < b_lo (i + 1) } = ()
  let rec lemma b_sorted (i j: int) requires { 0 <= i < j < %d } ensures { b_hi i < b_lo j } variant { j - i }
  = if j > i + 1 then b_sorted i (j - 1)
''' % (n, n - 1, n) + pred('ideographic', IDEOGRAPHIC) + pred('digit', DIGIT) + pred('combining', COMBINING) + pred('extender', EXTENDER) + '''
  predicate letter (c: int) = base_char c \\/ ideographic c
  predicate ncname_char (c: int) = letter c \\/ digit c \\/ c = 0x2E \\/ c = 0x2D \\/ c = 0x5F \\/ combining c \\/ extender c
  predicate name_char (c: int) = ncname_char c \\/ c = 0x3A
  predicate xchar (c: int) = c = 9 \\/ c = 10 \\/ c = 13 \\/ 0x20 <= c <= 0xD7FF \\/ 0xE000 <= c <= 0xFFFD \\/ 0x10000 <= c <= 0x10FFFF
  predicate ncname (s: str) (a b: int) = a < b /\\ (letter s[a] \\/ s[a] = 0x5F) /\\ forall i. a < i < b -> ncname_char s[i]
  predicate qname (s: str) = ncname s 0 (length s) \\/ exists k. 0 < k < length s /\\ s[k] = 0x3A /\\ ncname s 0 k /\\ ncname s (k + 1) (length s)
'''
    u.spec += '''
  lemma match_one : forall s: str, c i: int [matches_at s (snoc empty c) i]. matches_at s (snoc empty c) i -> 0 <= i < length s /\\ s[i] = c
  lemma one_match : forall s: str, c i: int [snoc (empty : str) c, s[i]]. 0 <= i < length s -> s[i] = c -> s[i .. i + 1] == snoc empty c
  lemma one_match2 : forall s: str, c i: int [snoc (empty : str) c, s[i]]. 0 <= i < length s -> s[i] = c -> matches_at s (snoc empty c) i
  let lemma colon_no_name () ensures { not (ncname_char 0x3A) } = ()
  let lemma one_colon (s: str) (i j: int)
    requires { qname s /\\ 0 <= i < length s /\\ 0 <= j < length s /\\ s[i] = 0x3A /\\ s[j] = 0x3A } ensures { i = j } = ()
  lemma one_colon_t : forall s: str, i j: int [qname s, s[i], s[j]].
    qname s -> 0 <= i < length s -> 0 <= j < length s -> s[i] = 0x3A -> s[j] = 0x3A -> i = j
  function clark (ns l: str) : str = if length ns = 0 then l else snoc (cons 0x7B ns) 0x7D ++ l
  function bound (m: mp str str) (p: str) : str = match m p with None -> empty | Some n -> n end
  predicate parts (name prefix local: str) =
    ((forall i. 0 <= i < length name -> name[i] <> 0x3A) -> prefix = empty /\\ local = name) /\\
    (forall k. 0 <= k < length name -> name[k] = 0x3A -> prefix = name[0 .. k] /\\ local = name[k + 1 .. length name])
'''
    C = u.contracts.append
    T = 'tbl_base_char_ranges'
    C(Contract(X + 'is_base_char', 'is_base_char', ['c'], ensures=['result <-> base_char c'],
       loops=[Loop(inv=['0 <= i <= %d' % n, 'forall j. 0 <= j < i -> b_hi j < c'], var='%d - i' % n,
         ghost_pre='assert { forall k. 0 <= k < %d -> %s_0 k = b_lo k /\\ %s_1 k = b_hi k /\\ b_lo k <> 0 }; assert { %s_0 %d = 0 }' % (n, T, T, T, n))]))
    for f, p in (('is_char', 'xchar'), ('is_letter', 'letter'), ('is_ideographic', 'ideographic'), ('is_digit', 'digit'), ('is_combining_char', 'combining'),
                 ('is_extender', 'extender'), ('is_name_char', 'name_char'), ('is_ncname_char', 'ncname_char')):
        C(Contract(X + f, f, ['c'], ensures=['result <-> %s c' % p]))
    C(Contract(X + 'is_letter_or_digit', 'is_letter_or_digit', ['c'], ensures=['result <-> letter c \\/ digit c']))
    C(Contract(X + 'is_space', 'is_space', ['c'], ensures=['result <-> c = 0x20 \\/ c = 0x9 \\/ c = 0xD \\/ c = 0xA']))
    for w, sg in (('', r'<char'), ('_w', r'<wchar_t')):
        C(Contract(X + 'is_ncname', 'is_ncname_it' + w, ['b', 'e'], nparams=2, sig='basic_string%s,' % sg, requires=['b.it_c = e.it_c', '0 <= b.it_p <= e.it_p <= length b.it_c'],
           ensures=['result <-> ncname b.it_c b.it_p e.it_p'],
           loops=[Loop(inv=['s.it_c = e.it_c', 'b.it_p < s.it_p <= e.it_p', 'forall j. b.it_p < j < s.it_p -> ncname_char b.it_c[j]'], var='e.it_p - s.it_p')]))
        C(Contract(X + 'is_ncname', 'is_ncname' + w, ['s'], nparams=1, sig='basic_string%s,' % sg, ensures=['result <-> ncname s 0 (length s)']))
        C(Contract(X + 'is_qname', 'is_qname' + w, ['s'], sig='basic_string%s,' % sg, ensures=['result <-> qname s']))
    for f, p in (('checkName', 'name_char'), ('checkChars', 'xchar')):
        ok = ('length s > 0 /\\ ' if f == 'checkName' else '') + '(forall k. 0 <= k < length s -> %s s[k])' % p
        C(Contract(NI + f, f, ['this', 's'], ensures=[ok], raises=[('DOMException arg', 'arg = 5 /\\ not (%s)' % ok)],
           loops=[Loop(inv=['i.it_c = s', 'ie.it_c = s /\\ ie.it_p = length s', '0 <= i.it_p <= length s', 'forall j. 0 <= j < i.it_p -> %s s[j]' % p], var='length s - i.it_p')]))
    # qualified names
    qn = lambda r, p, l, n, w: '%s.qualifiedName_prefix_ = %s /\\ %s.qualifiedName_localName_ = %s /\\ %s.qualifiedName_namespaceUri_ = %s /\\ %s.qualifiedName_rawName_ = %s' % (r, p, r, l, r, n, r, w)
    rp = ['qname rawname', 'parts rawname result.qualifiedName_prefix_ result.qualifiedName_localName_', 'result.qualifiedName_rawName_ = rawname']
    for nm, sg, mp in (('parse_map', 'std::map<[^)]*std::map', 'namespaces'), ('parse_mapper', 'MapMapper', 'mapper.mapMapper_namespaces_')):
        C(Contract(Q + 'parseQName', nm, ['rawname', 'is_attribute', mp.split('.')[0]], nparams=3, sig='MapMapper' if nm == 'parse_mapper' else '^((?!MapMapper).)*$',
          ensures=rp + ['(forall i. 0 <= i < length rawname -> rawname[i] <> 0x3A) -> result.qualifiedName_namespaceUri_ = if is_attribute then empty else bound %s empty' % mp,
                        'forall k. 0 <= k < length rawname -> rawname[k] = 0x3A -> result.qualifiedName_namespaceUri_ = bound %s rawname[0 .. k]' % mp],
          raises=[('Runtime_error', 'not (qname rawname)')]))
    C(Contract(M + 'operator()', 'map_prefix', ['this', 'prefix'], ensures=['result = bound this.mapMapper_namespaces_ prefix']))
    C(Contract(Q + 'operator==', 'qn_eq', ['this', 'rhs'], ensures=['result <-> this.qualifiedName_localName_ = rhs.qualifiedName_localName_ /\\ this.qualifiedName_namespaceUri_ = rhs.qualifiedName_namespaceUri_']))
    C(Contract(Q + 'operator!=', 'qn_ne', ['this', 'rhs'], ensures=['result <-> not (this.qualifiedName_localName_ = rhs.qualifiedName_localName_ /\\ this.qualifiedName_namespaceUri_ = rhs.qualifiedName_namespaceUri_)']))
    C(Contract(Q + 'clarkName', 'qn_clark', ['this'], ensures=['result == clark this.qualifiedName_namespaceUri_ this.qualifiedName_localName_']))
    for g, f in (('prefix', 'prefix_'), ('localName', 'localName_'), ('namespaceUri', 'namespaceUri_'), ('rawName', 'rawName_')):
        C(Contract(Q + g, 'qn_' + lcf(g), ['this'], ensures=['result = this.qualifiedName_' + f]))
        if g != 'localName': C(Contract(Q + 'has_' + g, 'qn_has_' + lcf(g), ['this'], ensures=['result <-> length this.qualifiedName_%s > 0' % f]))
    C(Contract(Q + 'set_prefix', 'qn_set_prefix', ['this', 'p'], ensures=['!this = { (old !this) with qualifiedName_prefix_ = p }']))
    C(Contract(Q + 'operator=', 'qn_assign', ['this', 'rhs'], ensures=['!this = rhs']))
    # the stylesheet's own names
    xq = lambda r: ['%s.qName_namespaceURI = namespaceURI' % r]
    C(Contract(XQ + 'create', 'xq_create2', ['qName', 'namespaceURI'], nparams=2, ensures=['qname qName', 'result.qName_namespaceURI = namespaceURI', 'parts qName result.qName_prefix result.qName_localName', 'result.qName_qname == qName'],
       raises=[('SAXException', 'not (qname qName)')]))
    C(Contract(XQ + 'create', 'xq_create1', ['qName'], nparams=1, sig='^((?!QualifiedName).)*$', ensures=['qname qName', 'result.qName_namespaceURI = empty', 'parts qName result.qName_prefix result.qName_localName', 'result.qName_qname == qName'],
       raises=[('SAXException', 'not (qname qName)')]))
    C(Contract(XQ + 'create', 'xq_create_q', ['qName'], nparams=1, sig='QualifiedName', ensures=['result.qName_namespaceURI = qName.qualifiedName_namespaceUri_', 'result.qName_prefix = qName.qualifiedName_prefix_', 'result.qName_localName = qName.qualifiedName_localName_',
       'result.qName_qname == if length qName.qualifiedName_prefix_ = 0 then qName.qualifiedName_localName_ else snoc qName.qualifiedName_prefix_ 0x3A ++ qName.qualifiedName_localName_',
       'length qName.qualifiedName_prefix_ > 0 -> length qName.qualifiedName_namespaceUri_ > 0'],
       raises=[('SAXException', 'length qName.qualifiedName_prefix_ > 0 /\\ length qName.qualifiedName_namespaceUri_ = 0')]))
    C(Contract(XQ + 'operator==', 'xq_eq', ['this', 'rhs'], ensures=['result <-> this.qName_localName = rhs.qName_localName /\\ this.qName_namespaceURI = rhs.qName_namespaceURI']))
    return u
