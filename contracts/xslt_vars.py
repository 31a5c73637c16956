from cxx2why import *
V = 'Arabica::XSLT::VariableStack::'
I = 'Arabica::XSLT::Variable_instance::'
TUS = [('tu_xslt.cpp', [V + '.*', I + '.*', 'Precedence::.*', 'operator[<>]', 'Arabica::XSLT::PassedParam::.*', 'Arabica::XPath::XPathValue::.*'])]
ST, PA, RS = 'variableStack_stack_', 'variableStack_params_', 'variableStack_resolutionStack_'
def new(f): return '(!%s this)' % f
def old(f): return '((old !%s) this)' % f
def fr(f): return 'forall o. o <> this -> !%s o = (old !%s) o' % (f, f)
def make_unit():
    u = Unit()
    u.heap = {ST: '(seq (mp str loc))', PA: '(seq (mp str loc))', RS: '(seq str)'}
    u.handle_classes['Arabica::XSLT::VariableStack'] = 'loc'
    u.exceptions = {'runtime_error': '', 'UnboundVariableException': ''}
    u.value_classes = {'Precedence', 'Arabica::XPath::XPathValue'}
    u.spec = r'''
  exception Runtime_error
  exception UnboundVariableException
  (* what a binding reports of itself; a passed parameter reports the precedence it was declared with *)
  function vi_name (o: loc) : str
  function vi_prec (o: loc) : r_Precedence
  function vi_value (o: loc) : r_XPathValue
  function clark (uri name: str) : str = if length uri = 0 then name else snoc (snoc empty 123 ++ uri) 125 ++ name
  (* the binding a name has in one scope *)
  function bound (s: mp str loc) (k: str) : r_XPathValue = match s k with None -> { xPathValue_ptr_ = 0 } | Some v -> vi_value v end
  (* import precedence: tree positions; the importer is above what it imports, a later import above an earlier one *)
  predicate prefix_of (a b: seq int) = length a <= length b /\ forall i. 0 <= i < length a -> a[i] = b[i]
  predicate below (a b: seq int) =
    (exists c. 0 <= c < length a /\ c < length b /\ (forall i. 0 <= i < c -> a[i] = b[i]) /\ a[c] < b[c]) \/ (prefix_of b a /\ length b < length a)
  predicate sized (a: seq int) = length a < 0x4000000000000000
  let rec lemma differ (a b: seq int) (k: int)
    requires { 0 <= k <= length a /\ k <= length b /\ forall i. 0 <= i < k -> a[i] = b[i] }
    ensures { prefix_of a b \/ prefix_of b a \/ exists c. 0 <= c < length a /\ c < length b /\ (forall i. 0 <= i < c -> a[i] = b[i]) /\ a[c] <> b[c] }
    variant { length a - k }
  = if k < length a && k < length b && a[k] = b[k] then differ a b (k + 1)
  let lemma same (a b: seq int) requires { prefix_of a b /\ length a = length b } ensures { a = b } = assert { a == b }
  let lemma total (a b: seq int) ensures { a = b \/ below a b \/ below b a } = differ a b 0
  let lemma asym (a b: seq int) requires { below a b } ensures { not below b a /\ a <> b } = ()
  let lemma trans (a b c: seq int) requires { below a b /\ below b c } ensures { below a c } = ()
'''
    C = u.contracts.append
    P = 'Precedence::'
    pl = 'lhs.precedence_precedence_'; pr = 'rhs.precedence_precedence_'
    C(Contract(P + 'operator==', 'prec_eq', ['this', 'rhs'], ensures=['result <-> this.precedence_precedence_ = ' + pr]))
    SZ = ['sized this.precedence_precedence_', 'sized other.precedence_precedence_']
    SZ2 = ['sized ' + pl, 'sized ' + pr]
    C(Contract(P + 'is_descendant', 'is_descendant', ['this', 'other'], requires=SZ,
        ensures=['result <-> prefix_of this.precedence_precedence_ other.precedence_precedence_ /\\ length this.precedence_precedence_ < length other.precedence_precedence_'],
        loops=[Loop(inv=['0 <= i <= length this.precedence_precedence_', 'forall j. 0 <= j < i -> this.precedence_precedence_[j] = other.precedence_precedence_[j]'], var='length this.precedence_precedence_ - i')]))
    C(Contract('operator<', 'prec_lt', ['lhs', 'rhs'], sig='Precedence', requires=SZ2, ensures=['result <-> below %s %s' % (pl, pr)],
        loops=[Loop(inv=['0 <= c <= len', 'forall i. 0 <= i < c -> %s[i] = %s[i]' % (pl, pr)], var='len - c')]))
    C(Contract('operator>', 'prec_gt', ['lhs', 'rhs'], sig='Precedence', requires=SZ2, ensures=['result <-> below %s %s' % (pr, pl)]))
    for n, m in (('pushScope', 'mp_empty'), ('chainScope', None)):
        C(Contract(V + n, n, ['this'], requires=[] if m else ['length %s > 0' % new(ST), 'length %s > 0' % new(PA)],
            ensures=['%s = snoc %s %s' % (new(f), old(f), m or '%s[length %s - 1]' % (old(f), old(f))) for f in (ST, PA)] + [fr(ST), fr(PA)]))
    C(Contract(V + 'popScope', 'popScope', ['this'], requires=['length %s > 0' % new(ST), 'length %s > 0' % new(PA)],
        ensures=['%s = %s[0 .. length %s - 1]' % (new(f), old(f), old(f)) for f in (ST, PA)] + [fr(ST), fr(PA)]))
    # the interface of a binding
    C(Contract(I + 'name', 'vi_name_', ['this'], prove=False, ensures=['result = vi_name this']))
    C(Contract(I + 'precedence', 'vi_prec_', ['this'], prove=False, ensures=['result = vi_prec this', 'sized (vi_prec this).precedence_precedence_']))
    C(Contract(I + 'value', 'vi_value_', ['this'], prove=False, ensures=['result = vi_value this'], raises=[('Runtime_error', 'true')]))
    def topset(f, at, k, v):
        n, o = new(f), old(f)
        return 'length {n} = length {o} /\\ (forall i. 0 <= i < length {o} -> i <> {at} -> {n}[i] = {o}[i]) /\\ {n}[{at}] = M.set {o}[{at}] {k} {v}'.format(n=n, o=o, at=at.replace('LAST', 'length %s - 1' % o), k=k, v=v)
    NE = ['length %s > 0' % new(ST), 'length %s > 0' % new(PA)]
    SAME = '!%s = old !%s' 
    C(Contract(V + 'topLevelParam', 'topLevelParam', ['this', 'param'], requires=NE + ['param <> 0'], ensures=[topset(PA, '0', '(vi_name param)', '(Some param)'), fr(PA)]))
    C(Contract(V + 'passParam', 'passParam', ['this', 'param'], requires=NE + ['param <> 0'],
        ensures=['result = vi_name param', topset(PA, 'LAST', '(vi_name param)', '(Some param)'), '{o}[length {o} - 1] (vi_name param) = None'.format(o=old(PA)), fr(PA)],
        raises=[('Runtime_error', '{o}[length {o} - 1] (vi_name param) <> None /\\ '.format(o=old(PA)) + SAME % (PA, PA))]))
    C(Contract(V + 'unpassParam', 'unpassParam', ['this', 'name'], requires=NE, ensures=[topset(PA, 'LAST', 'name', 'None'), fr(PA)]))
    PR = '.precedence_precedence_'
    C(Contract(P + 'FrozenPrecedence', 'frozen', [], prove=False, ensures=['length result%s = 0' % PR]))
    CUR = '{o}[length {o} - 1] (vi_name %s)'.format(o=old(ST))
    # a binding of higher precedence stays, one of lower precedence is replaced, one of the same precedence is an error
    def declared(v, pr):
        cur = CUR % v
        return ['forall c. %s = Some c -> (vi_prec c)%s <> %s' % (cur, PR, pr),
                'forall c. {cur} = Some c -> below {pr} (vi_prec c){PR} -> {n} = {o}'.format(cur=cur, pr=pr, PR=PR, n=new(ST), o=old(ST)),
                '(forall c. {cur} = Some c -> not below {pr} (vi_prec c){PR}) -> {s}'.format(cur=cur, pr=pr, PR=PR, s=topset(ST, 'LAST', '(vi_name %s)' % v, '(Some %s)' % v)), fr(ST)]
    for nm, v in (('declareVariable', 'var'), ('declareParam', 'param')):
        C(Contract(V + nm, nm, ['this', v], requires=NE + [v + ' <> 0', 'forall c k. %s[length %s - 1] k = Some c -> c <> 0' % (new(ST), new(ST))], ensures=declared(v, '(vi_prec %s)%s' % (v, PR)), raises=[('Runtime_error', SAME % (ST, ST))]))
    C(Contract(V + 'lookup', 'lookup', ['this', 'sc', 'name'], requires=['forall c k. sc k = Some c -> c <> 0'], ensures=['result = bound sc name'], raises=[('Runtime_error', 'true')]))
    C(Contract(V + 'make_clark_name', 'make_clark_name', ['this', 'namespace_uri', 'name'], ensures=['result == snoc (snoc empty 123 ++ namespace_uri) 125 ++ name']))
    C(Contract(V + 'injectGlobalScope', 'injectGlobalScope', ['this', 'sc'], requires=NE, ensures=['length {n} = length {o} /\\ {n}[0] = sc /\\ forall i. 0 < i < length {o} -> {n}[i] = {o}[i]'.format(n=new(ST), o=old(ST)), fr(ST)]))
    # the innermost binding, else the global one, else an error; the caller's scopes are untouched
    K = '(clark namespace_uri name)'
    TOP = '(bound {o}[length {o} - 1] {k})'.format(o=old(ST), k=K); GL = '(bound {o}[0] {k})'.format(o=old(ST), k=K)
    C(Contract(V + 'resolveVariable', 'resolveVariable', ['this', 'namespace_uri', 'name'], requires=NE + ['forall c k i. 0 <= i < length {n} -> {n}[i] k = Some c -> c <> 0'.format(n=new(ST))],
        ensures=['result = if {t}.xPathValue_ptr_ <> 0 then {t} else {g}'.format(t=TOP, g=GL), 'result.xPathValue_ptr_ <> 0', '!%s = old !%s' % (ST, ST), 'forall o. !%s o == (old !%s) o' % (RS, RS)],
        raises=[('Runtime_error', '!%s = old !%s' % (ST, ST)), ('UnboundVariableException', '{t}.xPathValue_ptr_ = 0 /\\ {g}.xPathValue_ptr_ = 0 /\\ !{s} = old !{s}'.format(t=TOP, g=GL, s=ST))]))
    # xsl:param: the value passed by the caller of this template, if any
    NP = Contract('Arabica::XSLT::PassedParam::PassedParam', 'new_PassedParam', ['param', 'precedence'], prove=False, ret='loc', sigtext='(param : loc) (precedence : r_Precedence)',
        ensures=['result <> 0', 'vi_name result = vi_name param', 'vi_prec result = precedence', 'vi_value result = vi_value param'])
    C(NP); u.new_contracts['PassedParam'] = NP
    PASSED = '{p}[length {p} - 2] name'.format(p=old(PA))
    C(Contract(V + 'findPassedParam', 'findPassedParam', ['this', 'name', 'precedence'], requires=['length %s > 1' % new(PA), NE[0], 'sized precedence' + PR, 'forall c k. %s[length %s - 1] k = Some c -> c <> 0' % (new(ST), new(ST)),
            'forall c k i. 0 <= i < length {n} -> {n}[i] k = Some c -> c <> 0 /\\ vi_name c = k'.format(n=new(PA))],
        ensures=['result <-> %s <> None' % PASSED, 'not result -> %s = %s' % (new(ST), old(ST)), '!%s = old !%s' % (PA, PA), fr(ST),
            'result -> {n} = {o} \\/ length {n} = length {o} /\\ (forall i. 0 <= i < length {o} - 1 -> {n}[i] = {o}[i]) /\\ exists v q. {p} = Some v /\\ vi_value q = vi_value v /\\ vi_prec q = precedence /\\ {n}[length {n} - 1] = M.set {o}[length {o} - 1] name (Some q)'.format(n=new(ST), o=old(ST), p=PASSED),
            'result -> {n} = {o} -> exists c. {o}[length {o} - 1] name = Some c /\\ (vi_prec c){PR} <> precedence{PR} /\\ below precedence{PR} (vi_prec c){PR}'.format(n=new(ST), o=old(ST), PR=PR)],
        raises=[('Runtime_error', SAME % (ST, ST))]))
    PP = 'Arabica::XSLT::PassedParam::'
    for nm, ens in (('name', 'result = vi_name (!passedParam_param_ this)'), ('precedence', 'result = !passedParam_precedence_ this'), ('value', 'result = vi_value (!passedParam_param_ this)')):
        C(Contract(PP + nm, 'pp_' + nm, ['this'], requires=['!passedParam_param_ this <> 0'], ensures=[ens], raises=[('Runtime_error', 'true')] if nm == 'value' else []))
    C(Contract(V + 'VariableStack', 'vs_copy', ['this', 'rhs'], nparams=1, requires=['length (!%s rhs) > 0' % PA, 'this <> rhs', 'rhs <> 0'],
        ensures=['%s = !%s rhs' % (new(ST), ST), 'length {n} = length {o} /\\ {n}[length {o} - 1] = mp_empty /\\ forall i. 0 <= i < length {o} - 1 -> {n}[i] = {o}[i]'.format(n=new(PA), o='(!%s rhs)' % PA)]))
    return u
