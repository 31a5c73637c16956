from cxx2why import *
N = 'Arabica::SAX::NamespaceSupport::'
X = 'Arabica::XSLT::NamespaceStack::'
TUS = [('tu_sax.cpp', [N + '.*', X + '.*'])]
CT = 'namespaceSupport_contexts_'
PS, US = 'namespaceStack_prefixStack_', 'namespaceStack_uriStack_'
def new(f): return '(!%s this)' % f
def old(f): return '((old !%s) this)' % f
def fr(f): return 'forall o. o <> this -> !%s o = (old !%s) o' % (f, f)
def make_unit():
    u = Unit()
    u.heap = {CT: '(seq (mp str str))', PS: '(seq (mp str str))', US: '(seq (mp str str))', 'namespaceStack_EMPTY_STRING': 'str'}
    u.globals_['Arabica::XSLT::StylesheetConstant::xmlns'] = 'sc_xmlns'
    u.spec = r'''
  val constant sc_xmlns : str
  val function sub_NamespaceSupport_nsc_ (o: loc) : loc ensures { result <> 0 }
  (* what the innermost of the first n scopes that declares p says *)
  function look (c: seq (mp str str)) (n: int) (p: str) : option str
  axiom look_0 : forall c n p [look c n p]. n <= 0 -> look c n p = None
  axiom look_in : forall c n p [look c n p]. n > 0 -> c[n - 1] p <> None -> look c n p = c[n - 1] p
  axiom look_out : forall c n p [look c n p]. n > 0 -> c[n - 1] p = None -> look c n p = look c (n - 1) p
  function or_empty (o: option str) : str = match o with None -> empty | Some s -> s end
  function resolve (c: seq (mp str str)) (p: str) : str = or_empty (look c (length c) p)
'''
    C = u.contracts.append
    SAMEBUTTOP = 'length (%s) = length (%s) /\\ forall i. 0 <= i < length (%s) - 1 -> (%s)[i] = (%s)[i]'
    # --- SAX helper
    C(Contract(N + 'pushContext', 'pushContext', ['this'], ensures=['%s = snoc %s mp_empty' % (new(CT), old(CT)), fr(CT)]))
    C(Contract(N + 'popContext', 'popContext', ['this'], requires=['length %s > 0' % new(CT)],
        ensures=['%s = %s[0 .. length %s - 1]' % (new(CT), old(CT), old(CT)), fr(CT)]))
    XN = '!namespaceConstants_xml (sub_NamespaceSupport_nsc_ this)'
    C(Contract(N + 'declarePrefix', 'declarePrefix', ['this', 'prefix', 'uri'], requires=['length %s > 0' % new(CT)],
        ensures=['result = not (prefix = %s \\/ prefix = %s)' % (XN, XN.replace('_xml', '_xmlns')), 'not result -> %s = %s' % (new(CT), old(CT)), fr(CT),
                 'result -> length {n} = length {o} /\\ (forall i. 0 <= i < length {o} - 1 -> {n}[i] = {o}[i]) /\\ {n}[length {o} - 1] = M.set {o}[length {o} - 1] prefix (Some uri)'.format(n=new(CT), o=old(CT)) ]))
    C(Contract(N + 'reset', 'reset', ['this'],
        ensures=['length {n} = 1 /\\ {n}[0] = M.set mp_empty {x} (Some ({y}))'.format(n=new(CT), x='(' + XN + ')', y=XN.replace('_xml', '_xml_uri')), fr(CT)]))
    def rl(i, c, p): return Loop(inv=['%s.rt_c = %s' % (i, c), '0 <= %s.rt_p <= length %s' % (i, c), 'look %s (length %s) %s = look %s (length %s - %s.rt_p) %s' % (c, c, p, c, c, i, p)], var='length %s - %s.rt_p' % (c, i))
    C(Contract(N + 'getURI', 'getURI', ['this', 'prefix'], ensures=['result = resolve %s prefix' % new(CT)], loops=[rl('i', new(CT), 'prefix')]))
    C(Contract(N + 'isInForce', 'isInForce', ['this', 'context', 'prefix'], requires=['context.rt_c = ' + new(CT), '0 <= context.rt_p < length ' + new(CT)],
        ensures=['result <-> forall j. 0 <= j < context.rt_p -> {c}[length {c} - 1 - j] prefix = None'.format(c=new(CT))],
        loops=[Loop(inv=['i.rt_c = ' + new(CT), '0 <= i.rt_p <= context.rt_p', 'forall j. 0 <= j < i.rt_p -> {c}[length {c} - 1 - j] prefix = None'.format(c=new(CT))], var='length %s - i.rt_p' % new(CT))]))
    # --- XSLT output's stack
    C(Contract(X + 'pushScope', 'pushScope', ['this'], ensures=['%s = snoc %s mp_empty' % (new(PS), old(PS)), '%s = snoc %s mp_empty' % (new(US), old(US)), fr(PS), fr(US)]))
    C(Contract(X + 'popScope', 'popScope', ['this'], requires=['length %s > 0' % new(PS), 'length %s > 0' % new(US)],
        ensures=['%s = %s[0 .. length %s - 1]' % (new(f), old(f), old(f)) for f in (PS, US)] + [fr(PS), fr(US)]))
    E0 = ['!namespaceStack_EMPTY_STRING this = empty']
    C(Contract(X + 'searchStack', 'searchStack', ['this', 'stack', 'key'], requires=E0, ensures=['result = resolve stack key'], loops=[rl('ss', 'stack', 'key').__class__(inv=rl('ss', 'stack', 'key').inv + ['se = { rt_c = stack; rt_p = length stack }'], var='length stack - ss.rt_p')]))
    U = new(US); P_ = new(PS)
    LIVE = '(match {u}[length {u} - 1 - %s] uri with None -> false | Some q -> resolve {p} q = uri end)'.format(u=U, p=P_)
    C(Contract(X + 'findPrefix', 'findPrefix', ['this', 'uri'], requires=E0,
        # the innermost prefix recorded for the namespace that still resolves to it
        ensures=['if (exists j. 0 <= j < length {u} /\\ {l}) then (exists j. 0 <= j < length {u} /\\ {l} /\\ (forall k. 0 <= k < j -> not {m}) /\\ {u}[length {u} - 1 - j] uri = Some result) else result = empty'.format(u=U, l=LIVE % 'j', m=LIVE % 'k'),
                 'result = empty \\/ resolve %s result = uri' % P_],
        loops=[Loop(inv=['ss.rt_c = ' + U, '0 <= ss.rt_p <= length ' + U, 'forall k. 0 <= k < ss.rt_p -> not ' + LIVE % 'k', 'se = { rt_c = {u}; rt_p = length {u} }'.replace('{u}', U)], var='length %s - ss.rt_p' % U)]))
    C(Contract(X + 'autoNamespacePrefix', 'autoNamespacePrefix', ['this'], prove=False, writes=['namespaceStack_autoNs_'], ensures=['result <> empty', 'resolve %s result = empty' % P_]))
    C(Contract(X + 'declareNamespace', 'declareNamespace', ['this', 'given_prefix', 'namespaceURI', 'attr'], requires=E0 + ['length %s = length %s' % (P_, U), 'length %s > 0' % P_],
        ensures=['length {n} = length {o} /\\ forall i. 0 <= i < length {o} - 1 -> {n}[i] = {o}[i]'.format(n=new(f), o=old(f)) for f in (PS, US)] + [fr(PS), fr(US),
          # either the namespace had a prefix already, or it now has one which resolves to it
          '({n} = {o} /\\ {m} = {p}) \\/ exists q. (not attr /\\ given_prefix <> sc_xmlns -> q = given_prefix) /\\ (attr -> q <> empty) /\\ (q = given_prefix -> attr -> resolve {o} q = empty \\/ resolve {o} q = namespaceURI \\/ given_prefix = sc_xmlns) /\\ {n}[length {n} - 1] = M.set {o}[length {o} - 1] q (Some namespaceURI) /\\ {m}[length {m} - 1] = M.set {p}[length {p} - 1] namespaceURI (Some q)'.format(n=P_, o=old(PS), m=U, p=old(US))]))
    C(Contract(X + 'findURI', 'findURI', ['this', 'prefix'], requires=E0, ensures=['result = resolve %s prefix' % new(PS)]))
    return u
