from cxx2why import *
SX = 'Arabica::SAX::'
X = SX + 'XMLFilterImpl::'
T = SX + 'TextCoalescer::'
W = SX + 'WhitespaceStripper::'
TUS = [('tu_filter.cpp', [X + '.*', T + '.*', W + '.*', SX + '(ContentHandler|DTDHandler|ErrorHandler|DeclHandler|LexicalHandler|EntityResolver|XMLReaderInterface)::.*'])]
B = 'textCoalescer_buffer_'
HF = 'xMLFilterImpl_'
# handler class, field, calls: (name, parameters; o = object)
CALLS = [
 ('DTDHandler', 'dtdHandler_', [('notationDecl', 'sss'), ('unparsedEntityDecl', 'ssss')]),
 ('ContentHandler', 'contentHandler_', [('setDocumentLocator', 'o'), ('startDocument', ''), ('endDocument', ''), ('startPrefixMapping', 'ss'), ('endPrefixMapping', 's'),
   ('startElement', 'ssso'), ('endElement', 'sss'), ('characters', 's'), ('ignorableWhitespace', 's'), ('processingInstruction', 'ss'), ('skippedEntity', 's')]),
 ('ErrorHandler', 'errorHandler_', [('warning', 'o'), ('error', 'o'), ('fatalError', 'o')]),
 ('DeclHandler', 'declHandler_', [('elementDecl', 'ss'), ('attributeDecl', 'sssss'), ('internalEntityDecl', 'ss'), ('externalEntityDecl', 'sss')]),
 ('LexicalHandler', 'lexicalHandler_', [('startDTD', 'sss'), ('endDTD', ''), ('startEntity', 's'), ('endEntity', 's'), ('startCDATA', ''), ('endCDATA', ''), ('comment', 's')]),
]
KIND = {}
for _, _, cs in CALLS:
    for n, _ in cs: KIND[n] = len(KIND) + 1
def ev(n, to, ps):
    names = ['p%d' % i for i in range(len(ps))]
    st = [p for p, k in zip(names, ps) if k == 's']; ob = [p for p, k in zip(names, ps) if k == 'o']
    return '(Ev %d %s %s %s)' % (KIND[n], to, ' '.join(st + ['empty'] * (5 - len(st))), ob[0] if ob else '0')
OLD = '((old !sent) 0)'
FB = 'forall o. o <> this -> !%s o = (old !%s) o' % (B, B)
def make_unit():
    u = Unit()
    u.heap = {'sent': '(seq ev)', B: 'str'}
    for _, f, _ in CALLS: u.heap[HF + f] = 'loc'
    u.heap[HF + 'entityResolver_'] = 'loc'
    u.handle_classes = {SX + 'Locator': 'loc', SX + 'Attributes': 'loc', SX + 'SAXParseException': 'loc', SX + 'InputSource': 'loc'}
    u.types = '\n  (* one call on a handler: which call, whose handler, the strings and the object handed over *)\n  type ev = Ev int loc str str str str str loc\n'
    u.spec = r'''
  val function sub_XMLFilterImpl_defaultHandler_ (o: loc) : loc ensures { result <> 0 }
  function pend (b: str) (h: loc) (l: seq ev) : seq ev = if length b = 0 then l else snoc l (Ev %d h b empty empty empty empty 0)
''' % KIND['characters']
    CH, IW, SD = KIND['characters'], KIND['ignorableWhitespace'], KIND['startDocument']
    u.spec += r'''
  (* what a coalescer has held (hold) and delivered (dlv) after the first n of any sequence of events; c receives text, every call goes on to its own handler *)
  predicate is_text (e: ev) = match e with Ev k _ _ _ _ _ _ _ -> k = %d \/ k = %d end
  predicate is_start (e: ev) = match e with Ev k _ _ _ _ _ _ _ -> k = %d end
  function text (e: ev) : str = match e with Ev _ _ t _ _ _ _ _ -> t end
  function hold (es: seq ev) (n: int) : str
  axiom hold_0: forall es n [hold es n]. n <= 0 -> hold es n = empty
  axiom hold_s: forall es n [hold es n]. n > 0 -> hold es n = if is_text es[n - 1] then hold es (n - 1) ++ text es[n - 1] else empty
  function dlv (es: seq ev) (c: loc) (n: int) : seq ev
  axiom dlv_0: forall es c n [dlv es c n]. n <= 0 -> dlv es c n = empty
  axiom dlv_s: forall es c n [dlv es c n]. n > 0 -> dlv es c n = if is_text es[n - 1] then dlv es c (n - 1) else if is_start es[n - 1] then snoc (dlv es c (n - 1)) es[n - 1]
     else snoc (pend (hold es (n - 1)) c (dlv es c (n - 1))) es[n - 1]
  (* the events that are not text, in order *)
  function rest (l: seq ev) (n: int) : seq ev
  axiom rest_0: forall l n [rest l n]. n <= 0 -> rest l n = empty
  axiom rest_s: forall l n [rest l n]. n > 0 -> rest l n = if is_text l[n - 1] then rest l (n - 1) else snoc (rest l (n - 1)) l[n - 1]
  let rec lemma rest_pre (l m: seq ev) (n: int) requires { 0 <= n <= length l } requires { n <= length m } requires { forall i. 0 <= i < n -> l[i] = m[i] } ensures { rest l n = rest m n } variant { n }
    = if n > 0 then rest_pre l m (n - 1)
  let lemma rest_snoc (l: seq ev) (e: ev) ensures { rest (snoc l e) (length l + 1) = if is_text e then rest l (length l) else snoc (rest l (length l)) e } = rest_pre (snoc l e) l (length l)
  (* a run of text becomes one event, never empty, never next to another, and never the last *)
  let rec lemma runs (es: seq ev) (c: loc) (n: int) requires { 0 <= n <= length es }
    ensures { forall i. 0 <= i < length (dlv es c n) -> is_text (dlv es c n)[i] -> i + 1 < length (dlv es c n) /\ not is_text (dlv es c n)[i + 1] /\ length (text (dlv es c n)[i]) > 0 }
    variant { n } = if n > 0 then runs es c (n - 1)
  (* nothing else is lost, added or reordered *)
  let rec lemma others (es: seq ev) (c: loc) (n: int) requires { 0 <= n <= length es } ensures { rest (dlv es c n) (length (dlv es c n)) = rest es n } variant { n }
    = if n > 0 then (others es c (n - 1); let d = dlv es c (n - 1) in rest_snoc d es[n - 1];
        let p = Ev %d c (hold es (n - 1)) empty empty empty empty 0 in rest_snoc d p; rest_snoc (snoc d p) es[n - 1])
''' % (CH, IW, SD, CH)
    C = u.contracts.append
    for cl, f, cs in CALLS:
        for n, ps in cs:
            pn = ['p%d' % i for i in range(len(ps))]
            C(Contract(SX + cl + '::' + n, 'h_' + n, ['this'] + pn, nparams=len(ps), prove=False, writes=['sent'],
                       ensures=['!sent 0 = snoc %s %s' % (OLD, ev(n, 'this', ps))]))
            C(Contract(X + n, 'f_' + n, ['this'] + pn, nparams=len(ps), virt=False, requires=['!%s%s this <> 0' % (HF, f)],
                       ensures=['!sent 0 = snoc %s %s' % (OLD, ev(n, '(!%s%s this)' % (HF, f), ps))]))
            if n in ('notationDecl', 'unparsedEntityDecl', 'setDocumentLocator') or cl in ('ErrorHandler', 'DeclHandler') or n in ('startDTD', 'endDTD'): continue
            req = ['!%scontentHandler_ this <> 0' % HF, '!%slexicalHandler_ this <> 0' % HF]
            b = '((old !%s) this)' % B
            if n in ('characters', 'ignorableWhitespace'):
                C(Contract(T + n, 't_' + n, ['this'] + pn, ensures=['!sent = old !sent', '!%s this = %s ++ p0' % (B, b), FB]))
            elif n == 'startDocument':
                C(Contract(T + n, 't_' + n, ['this'], requires=req, ensures=['!sent 0 = snoc %s %s' % (OLD, ev(n, '(!%s%s this)' % (HF, f), ps)), '!%s this = empty' % B, FB]))
            else:
                C(Contract(T + n, 't_' + n, ['this'] + pn, requires=req,
                           ensures=['!sent 0 = snoc (pend %s (!%scontentHandler_ this) %s) %s' % (b, HF, OLD, ev(n, '(!%s%s this)' % (HF, f), ps)), '!%s this = empty' % B, FB]))
    C(Contract(T + 'flush', 't_flush', ['this'], requires=['!%scontentHandler_ this <> 0' % HF], ensures=['!sent 0 = pend ((old !%s) this) (!%scontentHandler_ this) %s' % (B, HF, OLD), '!%s this = empty' % B, FB]))
    for g, f in (('EntityResolver', 'entityResolver_'), ('DTDHandler', 'dtdHandler_'), ('ContentHandler', 'contentHandler_'), ('ErrorHandler', 'errorHandler_'), ('DeclHandler', 'declHandler_'), ('LexicalHandler', 'lexicalHandler_')):
        h = HF + f
        C(Contract(X + 'set' + g, 'set' + g, ['this', 'h'], requires=['h <> 0'], ensures=['!%s this = h' % h, 'forall o. o <> this -> !%s o = (old !%s) o' % (h, h)]))
        C(Contract(X + 'get' + g, 'get' + g, ['this'], ensures=['result = !%s this' % h]))
    return u
