from cxx2why import *
import floats
X = 'Arabica::XPath::'
I = X + 'impl::'
FNS = 'areEqual areNotEqual isLessThan isLessThanEquals isGreaterThan isGreaterThanEquals compareNodeSetWith compareNodeSets minValue maxValue nodeSetAndValueEqual nodeSetAndValueNotEqual nodeSetsEqual nodeSetsNotEqual nodeSetsCompare nodeNumberValue nodeStringValue stringAsNumber'.split()
TUS = [('tu_xpath.cpp', [I + f for f in FNS] + [I + 'compareNodeWith::.*', I + 'value_of_node::.*', X + 'XPathValue::.*', X + 'XPathValue_impl::.*', X + 'NodeSet::.*', X + 'isNaN', I + '(Not)?EqualsOperator::evaluate', I + '(Less|Greater)Than(Equals)?Operator::evaluate', X + 'BinaryExpression::(lhs|rhs)', X + 'XPathExpression_impl::evaluate', X + 'BoolValue::createValue', 'Arabica::XPath::XPathExpression_impl::.*'])]
OPS = {'equal_to': 'eq', 'not_equal_to': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge'}
def which(t):
    m = re.search(r'std::(\w+)<(double|std::)', t)
    return OPS[m.group(1)] + ('_num' if m.group(2) == 'double' else '_str')
def make_unit():
    u = Unit()
    u.handle_classes = {'Arabica::DOM::Node': 'loc'}
    u.value_classes = {I + 'compareNodeWith', X + 'NodeSet', I + 'value_of_node', X + 'XPathValue'}
    u.poly_records = {I + 'compareNodeWith': (lambda t: '(r_compareNodeWith %s)' % ('fl' if '<double>' in t else 'str'), "type r_compareNodeWith 'a = { compareNodeWith_value_ : 'a }"),
                      I + 'value_of_node': (lambda t: 'unit', '')}
    u.functor_preds = {I + 'compareNodeWith': lambda ft: 'holds_' + which(ft)}
    u.exceptions = {'runtime_error': ''}
    u.types = floats.TYPE
    n = lambda f: f + ' a.compareNodeWith_value_'
    R = {'eq': 'feq x y', 'ne': 'not feq x y', 'lt': 'flt x y', 'le': 'flt x y \\/ feq x y', 'gt': 'flt y x', 'ge': 'flt y x \\/ feq x y'}
    u.spec = r'''
  exception Runtime_error
  (* a value: its kind, and what the conversions of XPath 1.0 give for it *)
  function kind (v: r_XPathValue) : int     (* 1 boolean 2 number 3 string 4 node-set *)
  function boolean (v: r_XPathValue) : bool
  function number (v: r_XPathValue) : fl
  function text (v: r_XPathValue) : str
  function nodes (v: r_XPathValue) : seq loc
  axiom kinds: forall v [kind v]. 1 <= kind v <= 4
  axiom boolean_of_nodes: forall v [boolean v]. kind v = 4 -> (boolean v = True <-> length (nodes v) > 0)
  axiom number_of_boolean: forall v [number v]. kind v = 1 -> number v = rnd (if boolean v then 1.0 else 0.0)
  function value_at (e c x: loc) : r_XPathValue   (* what an operand evaluates to *)
  (* string-value of a node, and the number it converts to *)
  function sv (n: loc) : str
  function to_num (s: str) : fl
  function nv (n: loc) : fl = to_num (sv n)
  function b2n (b: bool) : fl = rnd (if b then 1.0 else 0.0)
  predicate fle (x y: fl) = flt x y \/ feq x y
''' + ''.join('  predicate r_%s_num (x y: fl) = %s\n' % (k, v) for k, v in R.items()) + '''  predicate r_eq_str (x y: str) = x = y
  predicate r_ne_str (x y: str) = x <> y
''' + ''.join('  predicate holds_%s_num (f: r_compareNodeWith fl) (n: loc) = r_%s_num (nv n) f.compareNodeWith_value_\n' % (k, k) for k in R) + \
      ''.join('  predicate holds_%s_str (f: r_compareNodeWith str) (n: loc) = r_%s_str (sv n) f.compareNodeWith_value_\n' % (k, k) for k in ('eq', 'ne')) + r'''
  predicate inside (k: int) (s: seq loc) = 0 <= k < length s
  (* XPath 1.0, 3.4: = and != *)
''' + ''.join(r'''
  predicate nodes_with_%(o)s_num (s: seq loc) (y: fl) = exists k. inside k s /\ r_%(o)s_num (nv s[k]) y''' % dict(o=k) for k in R) + ''.join(r'''
  predicate nodes_with_%(o)s_str (s: seq loc) (y: str) = exists k. inside k s /\ r_%(o)s_str (sv s[k]) y
  predicate both_%(o)s (s t: seq loc) = exists k m. inside k s /\ inside m t /\ r_%(o)s_str (sv s[k]) (sv t[m])
  predicate one_%(o)s (a b: r_XPathValue) = if kind b = 1 then %(n)s (boolean a = boolean b) else if kind b = 2 then nodes_with_%(o)s_num (nodes a) (number b) else nodes_with_%(o)s_str (nodes a) (text b)
  predicate xp_%(o)s (a b: r_XPathValue) = if kind a = 4 /\ kind b = 4 then both_%(o)s (nodes a) (nodes b) else if kind a = 4 then one_%(o)s a b else if kind b = 4 then one_%(o)s b a
    else if kind a = 1 \/ kind b = 1 then %(n)s (boolean a = boolean b) else if kind a = 2 \/ kind b = 2 then %(n)s feq (number a) (number b) else %(n)s (text a = text b)''' % dict(o=o, n=n) for o, n in (('eq', ''), ('ne', 'not'))) + ''.join(r'''
  (* XPath 1.0, 3.4: relations *)
  predicate both_%(o)s (s t: seq loc) = exists k m. inside k s /\ inside m t /\ r_%(o)s_num (nv s[k]) (nv t[m])
  predicate xp_%(o)s (a b: r_XPathValue) = if kind a = 4 /\ kind b = 4 then both_%(o)s (nodes a) (nodes b)
    else if kind a = 4 then (if kind b = 1 then r_%(o)s_num (b2n (boolean a)) (b2n (boolean b)) else nodes_with_%(o)s_num (nodes a) (number b))
    else if kind b = 4 then (if kind a = 1 then r_%(o)s_num (b2n (boolean a)) (b2n (boolean b)) else nodes_with_%(c)s_num (nodes b) (number a))
    else r_%(o)s_num (number a) (number b)''' % dict(o=o, c=c) for o, c in (('lt', 'gt'), ('le', 'ge'))) + r'''
  predicate lowest (r: fl) (s: seq loc) (n: int) = (nan r -> forall k. 0 <= k < n -> nan (nv s[k])) /\ (not nan r -> (exists k. inside k s /\ r = nv s[k]) /\ forall k. 0 <= k < n -> nan (nv s[k]) \/ fle r (nv s[k]))
  predicate highest (r: fl) (s: seq loc) (n: int) = (nan r -> forall k. 0 <= k < n -> nan (nv s[k])) /\ (not nan r -> (exists k. inside k s /\ r = nv s[k]) /\ forall k. 0 <= k < n -> nan (nv s[k]) \/ fle (nv s[k]) r)
  lemma fl_tot: forall x y. nan x \/ nan y \/ flt x y \/ fle y x
  lemma fle_tra: forall x y z. fle x y -> fle y z -> fle x z
  lemma flt_tra: forall x y z. fle x y -> flt y z -> flt x z
  lemma flt_tra2: forall x y z. flt x y -> fle y z -> flt x z
'''
    C = u.contracts.append
    V = X + 'XPathValue_impl::'
    VAL = '{ xPathValue_ptr_ = this }'
    for g, f in (('type', 'kind'), ('asBool', 'boolean'), ('asNumber', 'number'), ('asString', 'text')):
        C(Contract(V + g, 'v_' + g, ['this'], prove=False, ensures=['result = %s %s' % (f, VAL)]))
    C(Contract(V + 'asNodeSet', 'v_nodes', ['this'], prove=False, ensures=['result.nodeSet_nodes_ = nodes %s' % VAL]))
    C(Contract(I + 'nodeStringValue', 'nodeStringValue', ['node'], prove=False, ensures=['result = sv node']))
    C(Contract(I + 'stringAsNumber', 'stringAsNumber', ['s'], prove=False, ensures=['result = to_num s']))
    C(Contract(X + 'isNaN', 'isNaN', ['value'], ensures=['result <-> nan value']))
    C(Contract(I + 'nodeNumberValue', 'nodeNumberValue', ['node'], ensures=['result = nv node']))
    N = 'ns.nodeSet_nodes_'
    for g, p, o in (('minValue', 'lowest', 'fle v (nv %s[k])'), ('maxValue', 'highest', 'fle (nv %s[k]) v')):
        C(Contract(I + g, g, ['ns'], requires=['length %s > 0' % N], ensures=['%s result %s (length %s)' % (p, N, N)],
            loops=[Loop(inv=['i.it_c = %s /\\ 0 <= i.it_p <= ie.it_p /\\ ie.it_p = length %s' % (N, N), '%s v %s i.it_p' % (p, N)], var='ie.it_p - i.it_p')]))
    C(Contract(I + 'nodeSetsCompare', 'compareEq', ['lhs', 'rhs'], targs=r'\|std::equal_to<std::basic', ensures=['result <-> both_eq (nodes lhs) (nodes rhs)'], loops=[
        Loop(inv=['r.it_c = nodes rhs /\\ rend.it_c = nodes rhs /\\ 0 <= r.it_p <= rend.it_p /\\ rend.it_p = length (nodes rhs)', 'forall s. values s <-> exists k. 0 <= k < r.it_p /\\ s = sv (nodes rhs)[k]', 'forall k. 0 <= k < r.it_p -> sv (nodes rhs)[k] <> lvalue'], var='rend.it_p - r.it_p'),
        Loop(inv=['l.it_c = nodes lhs /\\ lend.it_c = nodes lhs /\\ 1 <= l.it_p <= lend.it_p /\\ lend.it_p = length (nodes lhs)', 'forall k m. 0 <= k < l.it_p -> 0 <= m < length (nodes rhs) -> sv (nodes lhs)[k] <> sv (nodes rhs)[m]'], var='lend.it_p - l.it_p')]))
    C(Contract(I + 'nodeSetsCompare', 'compareNe', ['lhs', 'rhs'], targs=r'\|std::not_equal_to<std::basic', ensures=['result <-> both_ne (nodes lhs) (nodes rhs)'], loops=[
        Loop(inv=['r.it_c = nodes rhs /\\ rend.it_c = nodes rhs /\\ 0 <= r.it_p <= rend.it_p /\\ rend.it_p = length (nodes rhs)', 'forall s. values s <-> exists k. 0 <= k < r.it_p /\\ s = sv (nodes rhs)[k]', 'forall k. 0 <= k < r.it_p -> sv (nodes rhs)[k] = lvalue'], var='rend.it_p - r.it_p'),
        Loop(inv=['l.it_c = nodes lhs /\\ lend.it_c = nodes lhs /\\ 1 <= l.it_p <= lend.it_p /\\ lend.it_p = length (nodes lhs)', 'forall k m. 0 <= k < l.it_p -> 0 <= m < length (nodes rhs) -> sv (nodes lhs)[k] = sv (nodes rhs)[m]'], var='lend.it_p - l.it_p')]))
    C(Contract(I + 'nodeSetsEqual', 'nodeSetsEqual', ['lhs', 'rhs'], ensures=['result <-> both_eq (nodes lhs) (nodes rhs)']))
    C(Contract(I + 'nodeSetsNotEqual', 'nodeSetsNotEqual', ['lhs', 'rhs'], ensures=['result <-> both_ne (nodes lhs) (nodes rhs)']))
    for g, o in (('nodeSetAndValueEqual', 'eq'), ('nodeSetAndValueNotEqual', 'ne')):
        C(Contract(I + g, g, ['lhs', 'rhs'], requires=['kind lhs = 4', 'kind rhs <> 4'], ensures=['result <-> one_%s lhs rhs' % o], raises=[('Runtime_error', 'false')]))
    for op, o in OPS.items():
        if o in ('lt', 'le'): C(Contract(I + 'compareNodeSets', 'sets_' + o, ['lhs', 'rhs'], targs=r'^std::%s<' % op, ensures=['result <-> both_%s (nodes lhs) (nodes rhs)' % o]))
        if o in ('lt', 'le', 'gt', 'ge'): C(Contract(I + 'compareNodeSetWith', 'set_with_' + o, ['lhs', 'rhs'], targs=r'^std::%s<' % op, requires=['kind lhs = 4', 'kind rhs <> 4'],
            ensures=['result <-> if kind rhs = 1 then r_%s_num (b2n (boolean lhs)) (b2n (boolean rhs)) else nodes_with_%s_num (nodes lhs) (number rhs)' % (o, o)]))
    for g, o in (('areEqual', 'eq'), ('areNotEqual', 'ne'), ('isLessThan', 'lt'), ('isLessThanEquals', 'le')):
        C(Contract(I + g, g, ['lhs', 'rhs'], ensures=['result <-> xp_%s lhs rhs' % o]))
    for g, o in (('isGreaterThan', 'lt'), ('isGreaterThanEquals', 'le')):
        C(Contract(I + g, g, ['lhs', 'rhs'], ensures=['result <-> xp_%s rhs lhs' % o]))
    # the operators of the expression tree
    C(Contract(X + 'XPathExpression_impl::evaluate', 'evaluate', ['this', 'context', 'executionContext'], nparams=2, prove=False, ensures=['result = value_at this context executionContext']))
    C(Contract(X + 'BoolValue::createValue', 'make_boolean', ['value'], prove=False, ensures=['kind result = 1', 'boolean result = value']))
    u.heap = {'binaryExpression_lhs_': 'loc', 'binaryExpression_rhs_': 'loc'}
    A, B = ['(value_at (!binaryExpression_%s_ this) context executionContext)' % x for x in ('lhs', 'rhs')]
    for g, o, a, b in (('Equals', 'eq', A, B), ('NotEquals', 'ne', A, B), ('LessThan', 'lt', A, B), ('LessThanEquals', 'le', A, B), ('GreaterThan', 'lt', B, A), ('GreaterThanEquals', 'le', B, A)):
        C(Contract(I + g + 'Operator::evaluate', 'op_' + g, ['this', 'context', 'executionContext'], ensures=['kind result = 1', 'boolean result = True <-> xp_%s %s %s' % (o, a, b)]))
    return u
