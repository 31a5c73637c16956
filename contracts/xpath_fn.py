from cxx2why import *
import floats
X = 'Arabica::XPath::'
I = X + 'impl::'
FN = 'Last Position Count String Concat StartsWith Contains SubstringBefore SubstringAfter Substring StringLength NormalizeSpace Translate Boolean Not True False Number Sum Floor Ceiling Round'.split()
TUS = [('tu_xpathfn.cpp', [I + f + 'Fn::doEvaluate' for f in FN] + [I + g for g in ('roundNumber', 'stringAsNumber', 'nodeStringValue', 'nodeNumberValue', 'ArithmeticOperator::.*', 'NaN_aware_modulus::.*', 'UnaryNegative::evaluateAsNumber', '(Or|And)Operator::evaluateAsBool')] +
    [X + k + 'Value::(asBool|asNumber|asString|type|asNodeSet|decimal)' for k in ('Bool', 'Numeric', 'String', 'NodeSet')] +
    [X + g for g in ('is(NaN|Infinity|NegativeInfinity|Infinite)', 'XPathFunction::.*', 'NodeSet::.*', 'ExecutionContext::(position|last)', 'BinaryExpression::(lhs|rhs)', 'UnaryExpression::expr', 'XPathExpression_impl::.*', 'XPathValue::.*', 'XPathValue_impl::.*')] + ['Arabica::text::normalize_whitespace'])]
def make_unit():
    u = Unit()
    u.strlen = True
    u.handle_classes = {'Arabica::DOM::Node': 'loc'}
    u.value_classes = {X + 'NodeSet', X + 'StringValue', X + 'XPathValue'}
    u.exceptions = {'bad_lexical_cast': ''}
    u.types = floats.TYPE + floats.ARITH
    u.globals_ = {X + 'NaN': 'fl_nan_c', X + 'Infinity': 'fl_inf_c', X + 'Negative_Infinity': 'fl_ninf_c', X + 'Zero': 'fl_zero_c', X + 'Negative_Zero': 'fl_nzero_c'}
    def lexcast(tr, e):
        x = tr.rd(e['args'][0]); return Ex('(parse_double %s)' % atom(x.s), True)
    u.builtins += [('boost::lexical_cast', lexcast)]
    u.heap = {'boolValue_value_': 'bool', 'numericValue_value_': 'fl', 'nodeSetValue_set_': 'r_NodeSet', 'binaryExpression_lhs_': 'loc', 'binaryExpression_rhs_': 'loc', 'unaryExpression_expr_': 'loc'}
    u.spec = r'''
  exception Bad_lexical_cast
  predicate digit (c: int) = 48 <= c <= 57
  (* XPath Number with an optional minus: '-'? (Digits ('.' Digits?)? | '.' Digits) *)
  predicate shape (s: str) = (forall i. 0 <= i < length s -> digit s[i] \/ s[i] = 46 \/ s[i] = 45 /\ i = 0) /\ (exists i. 0 <= i < length s /\ digit s[i]) /\ (forall i j. 0 <= i < j < length s -> s[i] = 46 -> s[j] <> 46)
  function dec (s: str) : fl     (* the double nearest to what it says *)
  axiom dec_def: forall s [dec s]. not nan (dec s)
  val parse_double (s: str) : fl ensures { shape s -> result = dec s } raises { Bad_lexical_cast -> shape s -> if length s > 0 /\ s[0] = 45 then ninf (dec s) else pinf (dec s) }
  predicate same (a b: fl) = nan a /\ nan b \/ feq a b   (* the same number *)
  lemma same_refl: forall a [same a a]. fk a = 0 \/ fk a = 2 \/ nan a -> same a a
  predicate is_num_of (r: fl) (s: str) = if shape s then same r (dec s) else nan r
  function norm (s: str) : str   (* see P18 *)
  function to_num (s: str) : fl
  axiom to_num_def: forall s [to_num s]. is_num_of (to_num s) (norm s)
  function sv (n: loc) : str
  (* XPath 1.0, 4.4: round *)
  predicate rounded (v r: fl) = if not fin v \/ fv v = 0.0 then r = v else if -. 0.5 <=. fv v <. 0.0 then fin r /\ fv r = 0.0 /\ fneg r else fin r /\ fv r = itor (floor (fv v +. 0.5))
  (* the arguments of a function call *)
  function argc (f: loc) : int
  function a_num (f: loc) (i: int) (c x: loc) : fl
  function a_str (f: loc) (i: int) (c x: loc) : str
  function a_bool (f: loc) (i: int) (c x: loc) : bool
  function a_nodes (f: loc) (i: int) (c x: loc) : seq loc
  function e_num (e c x: loc) : fl
  function value_at (e c x: loc) : loc
  function vbool (v: loc) : bool
  function e_bool (e c x: loc) : bool = vbool (value_at e c x)
  function xr (v: fl) : fl
  axiom xr_def: forall v [xr v]. rounded v (xr v)
  lemma add_same: forall a b c d [fl_add a c, fl_add b d]. same a b -> same c d -> same (fl_add a c) (fl_add b d)
  lemma num_same: forall r t s [is_num_of r s, is_num_of t s]. is_num_of r s -> is_num_of t s -> same r t
  function clamp (i n: int) : int = if i < 1 then 1 else if i > n + 1 then n + 1 else i
  function from_pos (p: fl) (n: int) : int = if nan p \/ pinf p then n + 1 else if ninf p then 1 else clamp (floor (fv p)) n
  function to_pos (e: fl) (n: int) : int = if nan e \/ ninf e then 1 else if pinf e then n + 1 else clamp (floor (fv e)) n
  function cut (s: str) (p e: fl) : str = let a = from_pos p (length s) in let b = to_pos e (length s) in if a < b then s[a - 1 .. b - 1] else empty
  lemma floor_int: forall n [itor n]. floor (itor n) = n
  lemma from_same: forall p q n [from_pos p n, from_pos q n]. same p q -> from_pos p n = from_pos q n
  lemma to_same: forall p q n [to_pos p n, to_pos q n]. same p q -> to_pos p n = to_pos q n
  lemma cut_same: forall s p q e f [cut s p e, cut s q f]. same p q -> same e f -> cut s p e = cut s q f
  predicate integral (a: fl) = fin a -> fv a = itor (floor (fv a))
  lemma xr_int: forall v r [rounded v r]. rounded v r -> integral r
  lemma same_int: forall a b [same a b, integral a]. same a b -> integral a -> integral b
  let lemma int_sum (a b: fl) (m n: int) requires { fin a /\ fin b /\ fv a = itor m /\ fv b = itor n } ensures { fv a +. fv b = itor (m + n) } = ()
  lemma int_rnd: forall k [rnd (itor k)]. integral (rnd (itor k))
  lemma int_plus: forall a b [fl_add a b]. integral a -> integral b -> fin a -> fin b -> fv a +. fv b = itor (floor (fv a) + floor (fv b))
  let lemma add_int (a b: fl) requires { integral a /\ integral b /\ fin (fl_add a b) } ensures { integral (fl_add a b) }
  = assert { fin a /\ fin b }; assert { fv (fl_add a b) = fv (rnd (itor (floor (fv a) + floor (fv b)))) /\ fin (rnd (itor (floor (fv a) + floor (fv b)))) }; assert { integral (rnd (itor (floor (fv a) + floor (fv b)))) }
  lemma add_int_: forall a b [fl_add a b]. integral a -> integral b -> integral (fl_add a b)
  let lemma sub_exact (a b: fl) (m n: int) requires { fin a /\ fin b /\ fv a = itor m /\ fv b = itor n } requires { 0 <= n <= m <= 9007199254740992 }
    ensures { fin (fl_sub a b) /\ fv (fl_sub a b) = itor (m - n) }
  = assert { fv a +. fv (fl_neg b) = itor (m - n) }; assert { rep (itor (m - n)) }
  lemma sub_whole: forall a b [fl_sub a b]. fin a -> fin b -> integral a -> integral b -> 0.0 <=. fv b <=. fv a <=. 9007199254740992.0 -> fin (fl_sub a b) /\ fv (fl_sub a b) = fv a -. fv b
  lemma whole_floor: forall a [floor (fv a)]. fin a -> integral a -> itor (floor (fv a)) = fv a
  lemma int_exact: forall n [fl_of_int n]. -9007199254740992 <= n <= 9007199254740992 -> fin (fl_of_int n) /\ fv (fl_of_int n) = itor n
  lemma one: itor 1 = 1.0 /\ itor 0 = 0.0
  let lemma succ_exact (n: int) requires { 0 <= n < 9007199254740992 } ensures { fin (fl_add (fl_of_int n) (fl_of_int 1)) /\ fv (fl_add (fl_of_int n) (fl_of_int 1)) = itor n +. 1.0 } ensures { integral (fl_add (fl_of_int n) (fl_of_int 1)) } = assert { itor n +. itor 1 = itor (n + 1) }
  lemma half: forall v [fl_floor v]. fin v -> let f = floor (fv v) in let d = fv v -. itor f in
    (d <. 0.5 -> floor (fv v +. 0.5) = f) /\ (d >=. 0.5 -> floor (fv v +. 0.5) = f + 1 /\ - (floor (-. (fv v))) = f + 1)
  lemma frac: forall v [fl_sub v (fl_floor v)]. fin v -> fv v >=. 0.0 \/ fv v <=. -. 0.5 -> fin (fl_sub v (fl_floor v)) /\ fv (fl_sub v (fl_floor v)) = fv v -. itor (floor (fv v))
  lemma from_val: forall p n [from_pos p n]. n >= 0 -> fin p -> integral p -> itor (from_pos p n) = if fv p <. 1.0 then 1.0 else if fv p >. itor n +. 1.0 then itor n +. 1.0 else fv p
  lemma to_val: forall p n [to_pos p n]. n >= 0 -> fin p -> integral p -> itor (to_pos p n) = if fv p <. 1.0 then 1.0 else if fv p >. itor n +. 1.0 then itor n +. 1.0 else fv p
  (* translate: where a character of the second string first occurs *)
  predicate first_at (s: str) (c: int) (k: int) = 0 <= k < length s /\ s[k] = c /\ forall j. 0 <= j < k -> s[j] <> c
  predicate absent (s: str) (c: int) = forall j. 0 <= j < length s -> s[j] <> c
  function tran (s a b: str) (n: int) : str
  axiom tran0: forall s a b. tran s a b 0 = empty
  axiom tran_keep: forall s a b n [tran s a b n]. 0 <= n < length s -> absent a s[n] -> tran s a b (n + 1) = snoc (tran s a b n) s[n]
  axiom tran_map: forall s a b n k [tran s a b n, a[k]]. 0 <= n < length s -> first_at a s[n] k -> tran s a b (n + 1) = if k < length b then snoc (tran s a b n) b[k] else tran s a b n
  lemma set_prefix: forall s: str, p v. 0 <= p < length s -> (set s p v)[0 .. p + 1] == snoc s[0 .. p] v
  function joined (f: loc) (n: int) (c x: loc) : str
  axiom joined0: forall f c x. joined f 0 c x = empty
  axiom joined1: forall f c x n [joined f n c x, a_str f n c x]. n >= 0 -> joined f (n + 1) c x = joined f n c x ++ a_str f n c x
  function total (s: seq loc) (n: int) : fl
  axiom total0: forall s. total s 0 = rnd 0.0
  axiom total1: forall s n [total s (n + 1)]. n >= 0 -> total s (n + 1) = fl_add (total s n) (to_num (sv s[n]))
'''
    C = u.contracts.append
    PF = X + 'XPathFunction::'
    P = ['this', 'context', 'executionContext']; CX = 'context executionContext'
    C(Contract(X + 'isNaN', 'isNaN', ['value'], ensures=['result <-> nan value']))
    C(Contract(X + 'isInfinity', 'isInfinity', ['value'], ensures=['result <-> pinf value']))
    C(Contract(X + 'isNegativeInfinity', 'isNegativeInfinity', ['value'], ensures=['result <-> ninf value']))
    C(Contract(X + 'isInfinite', 'isInfinite', ['value'], ensures=['result <-> fk value = 2']))
    C(Contract(I + 'roundNumber', 'roundNumber', ['value'], ensures=['rounded value result', 'same (xr value) result']))
    C(Contract('Arabica::text::normalize_whitespace', 'normalize_whitespace', ['s'], prove=False, ensures=['result = norm s']))
    C(Contract(I + 'stringAsNumber', 'stringAsNumber', ['s'], ensures=['is_num_of result (norm s)'],
        loops=[Loop(inv=['i.it_c = n_str /\\ e.it_c = n_str /\\ b.it_c = n_str /\\ b.it_p = 0 /\\ e.it_p = length n_str /\\ 0 <= i.it_p <= e.it_p',
            'forall k. 0 <= k < i.it_p -> digit n_str[k] \\/ n_str[k] = 46 \\/ n_str[k] = 45 /\\ k = 0', 'digits <-> exists k. 0 <= k < i.it_p /\\ digit n_str[k]',
            'point <-> exists k. 0 <= k < i.it_p /\\ n_str[k] = 46', 'forall j k. 0 <= j < k < i.it_p -> n_str[j] = 46 -> n_str[k] <> 46'], var='e.it_p - i.it_p')]))
    C(Contract(I + 'nodeStringValue', 'nodeStringValue', ['node'], prove=False, ensures=['result = sv node']))
    C(Contract(I + 'nodeNumberValue', 'nodeNumberValue', ['node'], ensures=['is_num_of result (norm (sv node))']))
    C(Contract(PF + 'argCount', 'argCount', ['this'], prove=False, ensures=['result = argc this', '0 <= result < 0x7FFFFFFFFFFFFFFF']))
    for g, f in (('argAsNumber', 'a_num'), ('argAsString', 'a_str'), ('argAsBool', 'a_bool')):
        C(Contract(PF + g, g, ['this', 'index', 'context', 'executionContext'], prove=False, ensures=['result = %s this index %s' % (f, CX)]))
    C(Contract(PF + 'argAsNodeSet', 'argAsNodeSet', ['this', 'index', 'context', 'executionContext'], prove=False, ensures=['result.nodeSet_nodes_ = a_nodes this index ' + CX]))
    C(Contract(X + 'XPathExpression_impl::evaluateAsNumber', 'e_number', P, nparams=2, prove=False, ensures=['result = e_num this ' + CX]))
    C(Contract(X + 'XPathExpression_impl::evaluate', 'evaluate', P, nparams=2, prove=False, ensures=['result.xPathValue_ptr_ = value_at this ' + CX]))
    C(Contract(X + 'XPathValue_impl::asBool', 'v_bool', ['this'], prove=False, ensures=['result = vbool this']))
    a = lambda k, i: '(a_%s this %d %s)' % (k, i, CX)
    def F(n, ens, req=(), loops=(), **kw): C(Contract(I + n + 'Fn::doEvaluate', 'fn_' + n, P, requires=req, ensures=ens, loops=loops, **kw))
    s0, s1, s2, n0, n1, n2, b0, ns = a('str', 0), a('str', 1), a('str', 2), a('num', 0), a('num', 1), a('num', 2), a('bool', 0), a('nodes', 0)
    arg0 = '(if argc this > 0 then %s else sv context)' % s0
    F('Boolean', ['result = ' + b0]); F('Not', ['result <-> %s = False' % b0]); F('True', ['result = True']); F('False', ['result = False'])
    F('Floor', ['result = fl_floor ' + n0]); F('Ceiling', ['result = fl_ceil ' + n0]); F('Round', ['rounded %s result' % n0])
    F('String', ['result = ' + arg0]); F('StringLength', ['result = rnd (itor (length %s))' % arg0]); F('NormalizeSpace', ['result = norm ' + arg0])
    F('Number', ['if argc this > 0 then result = %s else is_num_of result (norm (sv context))' % n0])
    F('Count', ['result = rnd (itor (length %s))' % ns])
    F('Sum', ['same result (total %s (length %s))' % (ns, ns)], loops=[Loop(inv=['n.it_c = %s /\\ end_v.it_c = %s /\\ end_v.it_p = length %s /\\ 0 <= n.it_p <= end_v.it_p' % (ns, ns, ns), 'same sum (total %s n.it_p)' % ns], var='end_v.it_p - n.it_p')])
    F('Concat', ['result = joined this (argc this) ' + CX], loops=[Loop(inv=['0 <= a <= ae /\\ ae = argc this', 's = joined this a ' + CX], var='ae - a')])
    F('StartsWith', ['result <-> length %s <= length %s /\\ forall k. 0 <= k < length %s -> %s[k] = %s[k]' % (s1, s0, s1, s0, s1)], loops=[Loop(inv=['s.it_c = start /\\ e.it_c = start /\\ i.it_c = value /\\ e.it_p = length start /\\ 0 <= s.it_p = i.it_p <= e.it_p', 'forall k. 0 <= k < s.it_p -> value[k] = start[k]'], var='e.it_p - s.it_p')])
    F('Contains', ['result <-> exists k. matches_at %s %s k' % (s0, s1)])
    first = lambda k: '(matches_at %s %s %s /\\ forall j. 0 <= j < %s -> not matches_at %s %s j)' % (s0, s1, k, k, s0, s1)
    F('SubstringBefore', ['(forall k. not matches_at %s %s k) -> result = empty' % (s0, s1), 'forall k. %s -> result = %s[0 .. k]' % (first('k'), s0)])
    F('SubstringAfter', ['(forall k. not matches_at %s %s k) -> result = empty' % (s0, s1), 'forall k. %s -> result = %s[k + length %s .. length %s]' % (first('k'), s0, s1, s0)])
    F('Translate', ['result == tran %s %s %s (length %s)' % (s0, s1, s2, s0)], loops=[Loop(inv=['p.it_c = str /\\ i.it_c = str /\\ ie.it_c = str', '0 <= p.it_p <= i.it_p <= ie.it_p /\\ ie.it_p = length %s' % s0, 'length str = ie.it_p', 'forall k. i.it_p <= k < ie.it_p -> str[k] = %s[k]' % s0, 'str[0 .. p.it_p] == tran %s from to_v i.it_p' % s0], var='ie.it_p - i.it_p')])
    F('Substring', ['argc this = 3 -> flt (fl_add (fl_of_int (length %s)) (fl_of_int 1)) (fl_add (xr %s) (xr %s)) -> result == cut %s (xr %s) (fl_add (xr %s) (xr %s))' % (s0, n1, n2, s0, n1, n1, n2), 'argc this <> 3 -> forall e. pinf e -> result == cut %s (xr %s) e' % (s0, n1)],
        req=['length %s < 9007199254740991' % s0])
    for op in ('plus', 'minus', 'multiplies', 'divides'):
        C(Contract(I + 'ArithmeticOperator::doEvaluateAsNumber', 'ar_' + op, P, cls='std::%s<' % op, ensures=['result = fl_%s (e_num (!binaryExpression_lhs_ this) %s) (e_num (!binaryExpression_rhs_ this) %s)' % ({'plus': 'add', 'minus': 'sub', 'multiplies': 'mul', 'divides': 'div'}[op], CX, CX)]))
    C(Contract(I + 'NaN_aware_modulus::operator()', 'modulus', ['this', 'lhs', 'rhs'], ensures=['if nan lhs \\/ nan rhs then nan result else result = fl_fmod lhs rhs']))
    C(Contract(I + 'UnaryNegative::evaluateAsNumber', 'negate', P, ensures=['result = fl_neg (e_num (!unaryExpression_expr_ this) %s)' % CX]))
    L, R = ['(e_bool (!binaryExpression_%s_ this) %s)' % (k, CX) for k in ('lhs', 'rhs')]
    C(Contract(I + 'OrOperator::evaluateAsBool', 'op_or', P, ensures=['result <-> %s = True \\/ %s = True' % (L, R)]))
    C(Contract(I + 'AndOperator::evaluateAsBool', 'op_and', P, ensures=['result <-> %s = True /\\ %s = True' % (L, R)]))
    # conversions of the four kinds of value
    bv, nv, sv_, nsv = '(!boolValue_value_ this)', '(!numericValue_value_ this)', 'this.stringValue_value_', '(!nodeSetValue_set_ this).nodeSet_nodes_'
    def Vc(k, m, ens, **kw): C(Contract(X + k + 'Value::' + m, k[0].lower() + m, ['this'], ensures=ens, **kw))
    lit = lambda t: 'snoc ' * len(t)
    def text(t):
        r = 'empty'
        for ch in t: r = '(snoc %s %d)' % (r, ord(ch))
        return r
    Vc('Bool', 'asBool', ['result = ' + bv]); Vc('Bool', 'asNumber', ['result = rnd (if %s then 1.0 else 0.0)' % bv]); Vc('Bool', 'asString', ['result = if %s then %s else %s' % (bv, text('true'), text('false'))])
    Vc('Numeric', 'asBool', ['result <-> not nan %s /\\ not (fin %s /\\ fv %s = 0.0)' % (nv, nv, nv)]); Vc('Numeric', 'asNumber', ['result = ' + nv])
    Vc('String', 'asBool', ['result <-> length %s > 0' % sv_]); Vc('String', 'asNumber', ['is_num_of result (norm %s)' % sv_]); Vc('String', 'asString', ['result = ' + sv_])
    Vc('NodeSet', 'asBool', ['result <-> length %s > 0' % nsv])
    for i, k in enumerate(('Bool', 'Numeric', 'String', 'NodeSet')): Vc(k, 'type', ['result = %d' % (i + 1)])
    return u
