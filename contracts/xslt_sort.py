from cxx2why import *
import floats
X = 'Arabica::XSLT::'
S = X + 'Sort::'
TUS = [('tu_sort.cpp', [S + '.*', 'Arabica::XPath::isNaN', X + 'AllowedValues::.*', X + 'ExecutionContext::(xpathContext|setPosition)', 'Arabica::XPath::XPathExpression.*'])]
F = 'sort_'
SEL, DT, ORD, CO, SUB, CTX, FN = [F + x for x in ('select_', 'datatype_', 'order_', 'caseorder_', 'sub_sort_', 'context_', 'sort_fn_')]
def make_unit():
    u = Unit()
    u.heap = {SEL: 'loc', DT: 'loc', ORD: 'loc', CO: 'loc', SUB: 'loc', CTX: 'loc', FN: 'int'}
    u.handle_classes = {'Arabica::DOM::Node': 'loc', 'Arabica::XPath::XPathExpressionPtr': 'loc'}
    u.types = floats.TYPE
    M = ['numberAscending', 'numberDescending', 'stringAscending', 'stringDescending']
    u.fnptrs = dict([(S + m, (i + 1, m)) for i, m in enumerate(M)] + [(S + 'nanAscending', (5, 'nanAscending')), (S + 'nanDescending', (6, 'nanDescending'))])
    u.fnptr_sel = lambda e: [S + m for m in M] if len(e['args']) == 2 and 'Node' in e['args'][0]['t'] else [S + 'nanAscending', S + 'nanDescending']
    u.spec = r'''
  exception SAXException
  (* the order of strings is a strict total order *)
  axiom str_lt_irr: forall a. not str_lt a a
  axiom str_lt_tra: forall a b c [str_lt a b, str_lt b c]. str_lt a b -> str_lt b c -> str_lt a c
  axiom str_lt_tot: forall a b [str_lt a b]. str_lt a b \/ str_lt b a \/ a = b
  (* what a select expression gives for a node; comparing changes nothing it depends on *)
  function text (e n: loc) : str
  function number (e n: loc) : fl
  function choice (e n: loc) : str
  (* number: NaN before every number *)
  predicate num_before (a b: fl) = if nan a then not nan b else flt a b
  predicate num_same (a b: fl) = nan a /\ nan b \/ feq a b
  function sub (s: loc) : loc
  function sel (s: loc) : loc
  function how (s: loc) : int   (* 1 number, 2 number descending, 3 text, 4 text descending *)
  axiom how_range: forall s [how s]. 1 <= how s <= 4
  function depth (s: loc) : int
  axiom depth_def: forall s [sub s]. s <> 0 -> 0 <= depth s /\ (sub s <> 0 -> depth (sub s) < depth s)
  predicate same (s a b: loc) = if how s <= 2 then num_same (number (sel s) a) (number (sel s) b) else text (sel s) a = text (sel s) b
  predicate key_before (s a b: loc) = if how s = 1 then num_before (number (sel s) a) (number (sel s) b) else if how s = 2 then num_before (number (sel s) b) (number (sel s) a)
    else if how s = 3 then str_lt (text (sel s) a) (text (sel s) b) else str_lt (text (sel s) b) (text (sel s) a)
  predicate before (s a b: loc)
  axiom before_def: forall s a b [before s a b]. before s a b <-> if same s a b then sub s <> 0 /\ before (sub s) a b else key_before s a b
  lemma num_tra: forall a b c. num_before a b -> num_before b c -> num_before a c
  lemma num_tra1: forall a b c. num_same a b -> num_before b c -> num_before a c
  lemma num_tra2: forall a b c. num_before a b -> num_same b c -> num_before a c
  lemma num_tot: forall a b. num_before a b \/ num_before b a \/ num_same a b
  lemma num_not: forall a b. num_same a b -> not num_before a b
  lemma num_same_tra: forall a b c. num_same a b -> num_same b c -> num_same a c
  lemma num_same_sym: forall a b. num_same a b -> num_same b a
  lemma key_tra: forall s a b c. key_before s a b -> key_before s b c -> key_before s a c
  lemma key_tra1: forall s a b c. same s a b -> key_before s b c -> key_before s a c
  lemma key_tra2: forall s a b c. key_before s a b -> same s b c -> key_before s a c
  lemma key_not: forall s a b. same s a b -> not key_before s a b
  lemma key_tot: forall s a b. key_before s a b \/ key_before s b a \/ same s a b
  (* std::stable_sort asks for a strict weak order *)
  let rec lemma irreflexive (s a: loc) requires { s <> 0 } ensures { not before s a a } variant { depth s } = if pure { sub s <> 0 } then irreflexive (any loc ensures { result = sub s }) a
  let rec lemma transitive (s a b c: loc) requires { s <> 0 } requires { before s a b } requires { before s b c } ensures { before s a c } variant { depth s }
    = if pure { sub s <> 0 /\ same s a b /\ same s b c } then transitive (any loc ensures { result = sub s }) a b c
  let rec lemma ties (s a b c: loc) requires { s <> 0 } requires { not before s a b /\ not before s b a } requires { not before s b c /\ not before s c b } ensures { not before s a c /\ not before s c a } variant { depth s }
    = if pure { sub s <> 0 } then ties (any loc ensures { result = sub s }) a b c
'''
    C = u.contracts.append
    OK = ['forall s. !%s s = sub s /\\ !%s s = sel s' % (SUB, SEL), 'this <> 0']
    HOW = 'forall s. !%s s = how s' % FN
    RNG = '1 <= how this <= 4'
    u.conv = None
    C(Contract('Arabica::XPath::isNaN', 'isNaN', ['value'], ensures=['result <-> nan value']))
    C(Contract(S + 'grabAsString', 'grabAsString', ['this', 'n'], requires=OK, ensures=['result = text (sel this) n'], prove=False))
    C(Contract(S + 'grabAsNumber', 'grabAsNumber', ['this', 'n'], requires=OK, ensures=['result = number (sel this) n'], prove=False))
    C(Contract(S + 'nanAscending', 'nanAscending', ['nan1', 'nan2'], ensures=['nan1 = True \\/ nan2 = True -> (result <-> nan1 = True /\\ nan2 = False)'], nparams=2))
    C(Contract(S + 'nanDescending', 'nanDescending', ['nan1', 'nan2'], ensures=['nan1 = True \\/ nan2 = True -> (result <-> nan2 = True /\\ nan1 = False)']))
    for i, m in enumerate(['numberAscending', 'numberDescending', 'stringAscending', 'stringDescending']):
        C(Contract(S + m, m, ['this', 'n1', 'n2'], requires=OK + [HOW, 'how this = %d' % (i + 1)], ensures=['result <-> before this n1 n2']))
    C(Contract(S + 'operator()', 'sort_call', ['this', 'n1', 'n2'], requires=OK + [HOW, 'forall s. 1 <= how s <= 4'], ensures=['result <-> before this n1 n2']))
    return u
