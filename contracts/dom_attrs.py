from cxx2why import *
N = 'Arabica::SimpleDOM::'
MP = N + 'NamedNodeMapImpl::'
AM = N + 'AttrMap::'
AI = N + 'AttrImpl::'
DN = 'Arabica::DOM::Node_impl::'
TUS = [('tu_dom.cpp', [MP + '.*', AM + '.*', AI + '.*', N + 'nameIs::.*', N + 'namespaceAndNameIs::.*', N + 'DocumentImpl::(orphaned|isOrphaned|adopted)', N + 'NodeImpl::.*'])]
ND, RO, OD, OE, AO, ORPH, OWN = ('namedNodeMapImpl_nodes_', 'namedNodeMapImpl_readOnly_', 'namedNodeMapImpl_ownerDoc_', 'attrMap_ownerElement_', 'attrImpl_ownerElement_', 'documentImpl_orphans_', 'nodeImpl_ownerDoc_')
def new(f, o='this'): return '(!%s %s)' % (f, o)
def old(f, o='this'): return '((old !%s) %s)' % (f, o)
def same(*fs): return r' /\ '.join('!%s = old !%s' % (f, f) for f in fs)
VAL = 'ghost_attr_value'
MADE = 'ghost_made'
STATE = (ND, AO, ORPH)
def make_unit():
    u = Unit()
    u.heap = {ND: '(seq loc)', RO: 'bool', OD: 'loc', OE: 'loc', AO: 'loc', ORPH: '(st loc)', OWN: 'loc', VAL: 'str', MADE: 'bool'}
    u.exceptions = {'DOMException': 'int'}
    u.value_classes = {N + 'nameIs', N + 'namespaceAndNameIs'}
    u.functor_preds = {N + 'nameIs': 'has_name', N + 'namespaceAndNameIs': 'has_ns_name'}
    u.spec = r'''
  exception DOMException int
  use map.Map as M
  function ntype (n: loc) : int
  (* the names of a node, which no operation of the map changes *)
  function nname (n: loc) : str
  function nns (n: loc) : str
  function nhas (n: loc) : bool
  function nlocal (n: loc) : str
  axiom no_ns_uri : forall n [nhas n]. not nhas n -> length (nns n) = 0
  val function dyncast_AttrImpl (n: loc) : loc ensures { result = if ntype n = 2 then n else 0 }
  val function dyncast_Attr_impl (n: loc) : loc ensures { result = if ntype n = 2 then n else 0 }
  let function dyncast_NodeImpl (n: loc) : loc = n
  predicate named (name: str) (x: loc) = nname x = name
  predicate ns_named (u l: str) (x: loc) =
    (length u = 0 /\ not nhas x /\ (nlocal x = l \/ length (nlocal x) = 0 /\ nname x = l)) \/ (nns x = u /\ nlocal x = l)
  predicate has_name (f: r_nameIs) (x: loc) = named f.nameIs_name_ x
  predicate has_ns_name (f: r_namespaceAndNameIs) (x: loc) = ns_named f.namespaceAndNameIs_namespaceURI_ f.namespaceAndNameIs_localName_ x
  (* at i is the first node of that name *)
  predicate first_named (n: str) (s: seq loc) (i: int) = 0 <= i < length s /\ named n s[i] /\ forall j. 0 <= j < i -> not named n s[j]
  predicate first_ns (u l: str) (s: seq loc) (i: int) = 0 <= i < length s /\ ns_named u l s[i] /\ forall j. 0 <= j < i -> not ns_named u l s[j]
  predicate no_named (n: str) (s: seq loc) = forall j. 0 <= j < length s -> not named n s[j]
  predicate no_ns (u l: str) (s: seq loc) = forall j. 0 <= j < length s -> not ns_named u l s[j]
  predicate uniq (s: seq loc) = forall i j. 0 <= i < j < length s -> nname s[i] <> nname s[j]
  predicate distinct (s: seq loc) = forall i j. 0 <= i < j < length s -> s[i] <> s[j]
  predicate full (s: seq loc) = forall i. 0 <= i < length s -> s[i] <> 0
  predicate cut (s: seq loc) (i: int) (t: seq loc) = t == s[0 .. i] ++ s[i + 1 .. length s]
  (* a node made by a DOM Level 1 call has no local name and goes by its name *)
  function lname (x: loc) : str = if length (nlocal x) = 0 then nname x else nlocal x
  (* putting x in, with r the node it replaced or 0 *)
  predicate put_named (s: seq loc) (x r: loc) (t: seq loc) =
    if r = 0 then no_named (nname x) s /\ t = snoc s x else exists i. first_named (nname x) s i /\ s[i] = r /\ t == set s i x
  predicate put_ns (s: seq loc) (x r: loc) (t: seq loc) =
    if r = 0 then no_ns (nns x) (lname x) s /\ t = snoc s x else exists i. first_ns (nns x) (lname x) s i /\ s[i] = r /\ t == set s i x
  (* the orphans of document d after x found an owner and r (unless 0) lost its own *)
  predicate orphans (o0 o1: loc -> loc -> bool) (d x r: loc) =
    (forall e. e <> d -> o1 e = o0 e) /\ (d <> 0 -> forall n. o1 d n = if n = r && r <> 0 then true else if n = x && x <> 0 then false else o0 d n) /\ (d = 0 -> o1 d = o0 d)
  predicate is_attr (a: loc) = ntype a = 2
  function owner (ao: loc -> loc) (orph: loc -> loc -> bool) (own: loc -> loc) (a: loc) : loc =
    if own a <> 0 && orph (own a) a then 0 else ao a
'''
    C = u.contracts.append
    # virtual accessors of a node
    for q, nm, f in ((DN, 'v', None), (N + 'NodeImpl::', 'n', None)):
        C(Contract(q + 'getNodeName', nm + '_getNodeName', ['this'], prove=False, ensures=['result = nname this']))
        C(Contract(q + 'getNamespaceURI', nm + '_getNamespaceURI', ['this'], prove=False, ensures=['result = nns this']))
        C(Contract(q + 'hasNamespaceURI', nm + '_hasNamespaceURI', ['this'], prove=False, ensures=['result = nhas this']))
        C(Contract(q + 'getLocalName', nm + '_getLocalName', ['this'], prove=False, ensures=['result = nlocal this']))
        C(Contract(q + 'getOwnerDocument', nm + '_getOwnerDocument', ['this'], prove=False, ensures=['result = ' + new(OWN)]))
    C(Contract(N + 'nameIs::operator()', 'nameIs_', ['this', 'node'], ensures=['result <-> has_name this node']))
    C(Contract(N + 'namespaceAndNameIs::operator()', 'nsNameIs_', ['this', 'node'], ensures=['result <-> has_ns_name this node']))
    s = new(ND); o = old(ND)
    MAPQ = ['this <> 0', 'full %s' % s]
    GET = '(result = 0 /\\ %s \\/ exists i. %s /\\ %s[i] = result /\\ result <> 0)'
    C(Contract(MP + 'getNamedItem', 'getNamedItem', ['this', 'name'], requires=MAPQ, ensures=[GET % ('no_named name ' + s, 'first_named name %s i' % s, s)]))
    C(Contract(MP + 'getNamedItemNS', 'getNamedItemNS', ['this', 'namespaceURI', 'localName'], requires=MAPQ, ensures=[GET % ('no_ns namespaceURI localName ' + s, 'first_ns namespaceURI localName %s i' % s, s)]))
    C(Contract(MP + 'do_item', 'do_item', ['this', 'index'], requires=MAPQ, ensures=['result = if index < length %s then %s[index] else 0' % (s, s)]))
    C(Contract(MP + 'item', 'item', ['this', 'index'], requires=MAPQ, ensures=['result = if index < length %s then %s[index] else 0' % (s, s)]))
    C(Contract(MP + 'getLength', 'getLength', ['this'], requires=MAPQ + ['length %s < 0x100000000' % s], ensures=['result = length %s' % s]))
    C(Contract(MP + 'throwIfReadOnly', 'throwIfReadOnly', ['this'], ensures=['not ' + new(RO)], raises=[('DOMException e', '%s /\\ e = 7' % new(RO))]))
    C(Contract(MP + 'checkOwnerDocument', 'checkOwnerDocument', ['this', 'arg'], ensures=['%s = 0 \\/ %s = %s' % (new(OD), new(OWN, 'arg'), new(OD))],
        raises=[('DOMException e', '%s <> 0 /\\ %s <> %s /\\ e = 4' % (new(OD), new(OWN, 'arg'), new(OD)))]))
    FR = ['forall m. m <> this -> !%s m = (old !%s) m' % (ND, ND)]
    D = new(OD)
    for v, p, args in (('', 'put_named', '(nname arg)'), ('NS', 'put_ns', '(nns arg) (nlocal arg)')):
        C(Contract(MP + 'setNamedItem' + v, 'base_setNamedItem' + v, ['this', 'arg'], requires=MAPQ + ['arg <> 0', D + ' <> 0'],
            ensures=['not ' + new(RO), '%s %s arg result %s' % (p, o, s), '%s arg = %s' % ('!' + OWN, D), 'orphans (old !%s) !%s %s arg result' % (ORPH, ORPH, D), 'full ' + s] + FR,
            raises=[('DOMException e', same(ND, ORPH) + ' /\\ (e = 7 /\\ %s \\/ e = 4 /\\ %s <> %s)' % (new(RO), new(OWN, 'arg'), D))], virt=False))
    REM = ['not ' + new(RO), 'exists i. %s /\\ %s[i] = result /\\ result <> 0 /\\ cut %s i %s', 'orphans (old !%s) !%s %s 0 result' % (ORPH, ORPH, D), 'full ' + s] + FR
    for v, ps, f, no in (('', ['name'], 'first_named name', 'no_named name'), ('NS', ['namespaceURI', 'localName'], 'first_ns namespaceURI localName', 'no_ns namespaceURI localName')):
        e = list(REM); e[1] = e[1] % ('%s %s i' % (f, o), o, o, s)
        C(Contract(MP + 'removeNamedItem' + v, 'base_removeNamedItem' + v, ['this'] + ps, requires=MAPQ + [D + ' <> 0'], ensures=e,
            raises=[('DOMException e', same(ND, ORPH) + ' /\\ (e = 7 /\\ %s \\/ e = 8 /\\ %s %s)' % (new(RO), no, s))], virt=False))
    e = list(REM); e[1] = 'exists i. 0 <= i < length {o} /\\ {o}[i] = node /\\ result = node /\\ cut {o} i {s} /\\ forall j. 0 <= j < i -> {o}[j] <> node'.format(o=o, s=s)
    C(Contract(MP + 'removeItem', 'removeItem', ['this', 'node'], requires=MAPQ + [D + ' <> 0'], ensures=e + ['result <> 0'],
            raises=[('DOMException e', same(ND, ORPH) + ' /\\ (e = 7 /\\ %s \\/ e = 8 /\\ forall i. 0 <= i < length %s -> %s[i] <> node)' % (new(RO), s, s))]))
    # --- attributes
    OWNER = 'owner !%s !%s !%s ' % (AO, ORPH, OWN)
    C(Contract(AI + 'isOrphaned', 'isOrphaned', ['this'], ensures=['result <-> %s this = 0' % OWNER]))
    C(Contract(AI + 'getOwnerElement', 'getOwnerElement', ['this'], ensures=['result = %s this' % OWNER], virt=False))
    for q, nm in ((AI, 'v_a'), ('Arabica::DOM::Attr_impl::', 'v_d')):
        C(Contract(q + 'getOwnerElement', nm + 'getOwnerElement', ['this'], ensures=['result = %s this' % OWNER], virt=True, prove=False))
    C(Contract(AI + 'setOwnerElement', 'setOwnerElement', ['this', 'element'], requires=['this <> 0'], writes=[AO, ORPH], prove=False,
        ensures=['!%s = M.set (old !%s) this element' % (AO, AO), 'orphans (old !%s) !%s %s this 0' % (ORPH, ORPH, new(OWN))]))
    C(Contract(AM + 'checkIsAttribute', 'checkIsAttribute', ['this', 'attr'], ensures=['attr <> 0'], raises=[('DOMException e', 'attr = 0 /\\ e = 3')]))
    # every node of the map is an attribute of its document which the map's element owns
    INV = 'forall i. 0 <= i < length %s -> !ghost_made %s[i] /\\ is_attr %s[i] /\\ !%s %s[i] = %s /\\ %s %s[i] = %s' % (s, s, s, OWN, s, D, OWNER, s, new(OE))
    DIST = 'distinct ' + s
    AMQ = [DIST] + MAPQ + [D + ' <> 0', new(OE) + ' <> 0', INV]
    C(Contract(AM + 'alreadyHere', 'alreadyHere', ['this', 'attr'], requires=['this <> 0', new(OE) + ' <> 0'], ensures=['result <-> %s attr = %s' % (OWNER, new(OE))]))
    C(Contract(AM + 'checkNotInUse', 'checkNotInUse', ['this', 'attr'], ensures=['%s attr = 0 \\/ %s attr = %s' % (OWNER, OWNER, new(OE))],
        raises=[('DOMException e', '%s attr <> 0 /\\ %s attr <> %s /\\ e = 10' % (OWNER, OWNER, new(OE)))]))
    OLDOWNER = 'owner (old !%s) (old !%s) !%s ' % (AO, ORPH, OWN)
    def setter(q, nm, p, par, **k):
        here = '%s %s = %s' % (OLDOWNER, par, new(OE))
        return Contract(q, nm, ['this', par], requires=AMQ + [par + ' <> 0', '!ghost_made ' + par],
            ensures=['is_attr ' + par, 'if {h} then {s} /\\ result = {a} else %s {o} {a} result {n}'.format(h=here, s=same(*STATE), a=par, o=o, n=s) % p, 'full ' + s, DIST, INV,
                     '%s <> %s -> result = 0 \\/ %s result = 0' % (OLDOWNER + par, new(OE), OWNER),
                     '%s %s = 0 \\/ %s' % (OLDOWNER, par, here),
                     'not (%s) -> not %s /\\ !%s = M.set (old !%s) %s %s /\\ orphans (old !%s) !%s %s %s result' % (here, new(RO), AO, AO, par, new(OE), ORPH, ORPH, D, par)] + FR +
                    (['uniq {o} -> uniq {n}'.format(o=o, n=s)] if p == 'put_named' else []),
            raises=[('DOMException e', same(*STATE) + ' /\\ (e = 3 /\\ not is_attr {a} \\/ e = 7 /\\ {ro} \\/ e = 4 /\\ {ow} <> {d} \\/ e = 10 /\\ {w} <> 0 /\\ {w} <> {oe})'.format(a=par, ro=new(RO), ow=new(OWN, par), d=D, w=OLDOWNER + par, oe=new(OE)))], **k)
    C(setter(AM + 'setNamedItem', 'am_setNamedItem', 'put_named', 'newAttr'))
    C(setter(AM + 'setNamedItemNS', 'am_setNamedItemNS', 'put_ns', 'newAttr'))
    C(setter(AM + 'setAttributeNode', 'setAttributeNode', 'put_named', 'newAttr'))
    C(setter(AM + 'setAttributeNodeNS', 'setAttributeNodeNS', 'put_ns', 'newAttr'))
    # --- lookups
    C(Contract(AM + 'getAttributeNode', 'getAttributeNode', ['this', 'name'], requires=AMQ, ensures=[GET % ('no_named name ' + s, 'first_named name %s i' % s, s)]))
    C(Contract(AM + 'getAttributeNodeNS', 'getAttributeNodeNS', ['this', 'namespaceURI', 'localName'], requires=AMQ, ensures=[GET % ('no_ns namespaceURI localName ' + s, 'first_ns namespaceURI localName %s i' % s, s)]))
    C(Contract(AM + 'hasAttribute', 'hasAttribute', ['this', 'name'], requires=AMQ, ensures=['result <-> not no_named name ' + s]))
    C(Contract(AM + 'hasAttributeNS', 'hasAttributeNS', ['this', 'namespaceURI', 'localName'], requires=AMQ, ensures=['result <-> not no_ns namespaceURI localName ' + s]))
    C(Contract(DN + 'getNodeValue', 'v_getNodeValue', ['this'], prove=False, ensures=['result = !%s this' % VAL]))
    C(Contract(N + 'DocumentImpl::empty_string', 'empty_string', ['this'], prove=False, ensures=['result = empty']))
    VALUE = '(%s -> result = empty) /\\ forall i. %s -> result = !%s %s[i]'
    C(Contract(AM + 'getAttribute', 'getAttribute', ['this', 'name'], requires=AMQ, ensures=[VALUE % ('no_named name ' + s, 'first_named name %s i' % s, VAL, s)]))
    C(Contract(AM + 'getAttributeNS', 'getAttributeNS', ['this', 'namespaceURI', 'localName'], requires=AMQ, ensures=[VALUE % ('no_ns namespaceURI localName ' + s, 'first_ns namespaceURI localName %s i' % s, VAL, s)]))
    # --- removal: the default a doctype declares, if any, comes back as a new attribute
    MK = 'not (old !%s) result /\\ !%s = M.set (old !%s) result true'.replace('\\\\', '\\') % (MADE, MADE, MADE)
    FRESH = 'ntype result = 2 /\\ result <> 0 /\\ !%s result = %%s /\\ (forall m i. 0 <= i < length (!%s m) -> (!%s m)[i] <> result) /\\ %s result = 0' % (OWN, ND, ND, OWNER)
    C(Contract(AM + 'getDefaultAttrs', 'getDefaultAttrs', ['this'], prove=False, ensures=['result = 0 \\/ result <> this /\\ full (!%s result) /\\ forall i. 0 <= i < length (!%s result) -> !%s (!%s result)[i] = %s' % (ND, ND, OWN, ND, D)]))
    C(Contract(DN + 'cloneNode', 'cloneNode', ['this', 'deep'], requires=['this <> 0'], prove=False, writes=[MADE], ensures=[MK, FRESH % new(OWN), 'nname result = nname this', 'nlocal result = nlocal this', 'nns result = nns this', 'nhas result = nhas this']))
    NNM = 'Arabica::DOM::NamedNodeMap_impl::'
    C(Contract(NNM + 'getNamedItem', 'v_getNamedItem', ['this', 'name'], requires=MAPQ, prove=False, ensures=[GET % ('no_named name ' + s, 'first_named name %s i' % s, s)]))
    C(Contract(NNM + 'getNamedItemNS', 'v_getNamedItemNS', ['this', 'namespaceURI', 'localName'], requires=MAPQ, prove=False, ensures=[GET % ('no_ns namespaceURI localName ' + s, 'first_ns namespaceURI localName %s i' % s, s)]))
    BACK = '{s} \\/ exists a. not (old !ghost_made) a /\\ %s a /\\ {n} = snoc {o0} a'.format(s=same(*STATE), o=OLDOWNER + 'a', n=s, o0=o)
    for np, ps, no, nm in ((1, ['name'], 'no_named name ', 'named name'), (2, ['namespaceURI', 'localName'], 'no_ns namespaceURI localName ', 'ns_named namespaceURI localName')):
        C(Contract(AM + 'createDefault', 'createDefault%d' % np, ['this'] + ps, nparams=np, requires=AMQ + ['not ' + new(RO), no + s] + (['length localName > 0'] if np == 2 else []),
            ensures=[BACK % nm, 'full ' + s, DIST, INV] + FR + ['forall x. ntype x = 2 -> %s x = 0 -> (exists i. 0 <= i < length %s /\\ %s[i] = x) \\/ %s x = 0' % (OLDOWNER, s, s, OWNER)],
            raises=[('DOMException e', 'false')]))
    # removal takes out the first of that name, which then has no owner; only a declared default may come back in its place
    GONE = '(forall x. ntype x = 2 -> x <> {r} -> {o} x <> {w} x -> {o} x = 0 /\\ {w} x = {e} /\\ %s x)'.format(o=OLDOWNER, w=OWNER, e=new(OE), r='result')
    LOST = ['exists i. {o}[i] = result /\\ %s', 'forall i. {o}[i] = result -> %s -> cut {o} i {s} \\/ exists a. {s} == snoc ({o}[0 .. i] ++ {o}[i + 1 .. length {o}]) a /\\ not (old !ghost_made) a /\\ %s a']
    def lost(q, nm): return [LOST[0].format(o=o) % q, LOST[1].format(o=o, s=s, old=OLDOWNER) % (q, nm)]
    for v, ps, no, nm, fst, uq in (('', ['name'], 'no_named name ', 'named name', 'first_named name', 'uniq'), ('NS', ['namespaceURI', 'localName'], 'no_ns namespaceURI localName ', 'ns_named namespaceURI localName', 'first_ns namespaceURI localName', None)):
        once = 'forall i j. 0 <= i < j < length {s} -> not (%s {s}[i] /\\ %s {s}[j])'.format(s=s) % (nm, nm)
        C(Contract(AM + 'removeNamedItem' + v, 'am_removeNamedItem' + v, ['this'] + ps, requires=AMQ + [once] + (['length localName > 0'] if v else []),
            ensures=['not ' + new(RO), *lost('%s %s i' % (fst, o), nm), 'result <> 0', 'full ' + s, DIST, INV, OWNER + ' result = 0'] + FR,
            raises=[('DOMException e', same(*STATE) + ' /\\ (e = 7 /\\ %s \\/ e = 8 /\\ %s %s)' % (new(RO), no, s))]))
    C(Contract(AM + 'removeAttributeNode', 'removeAttributeNode', ['this', 'oldAttr'], requires=AMQ + ['is_attr oldAttr', 'oldAttr <> 0', 'uniq ' + s,
            '%s oldAttr = %s -> %s oldAttr = %s /\\ exists i. 0 <= i < length %s /\\ %s[i] = oldAttr' % (OWNER, new(OE), '!' + OWN, D, s, s)],
        ensures=['not ' + new(RO), 'result = oldAttr', *lost('0 <= i < length ' + o, 'named (nname oldAttr)'), 'full ' + s, DIST, INV, OWNER + ' oldAttr = 0', OLDOWNER + ' oldAttr = ' + new(OE)] + FR,
        raises=[('DOMException e', same(*STATE) + ' /\\ (e = 7 /\\ %s \\/ e = 8 /\\ %s oldAttr <> %s)' % (new(RO), OLDOWNER, new(OE)))]))
    # --- by value
    C(Contract(DN + 'setNodeValue', 'v_setNodeValue', ['this', 'data'], requires=['this <> 0'], writes=[VAL], prove=False, ensures=['!%s = M.set (old !%s) this data' % (VAL, VAL)], raises=[('DOMException e', 'e = 7 /\\ ' + same(VAL))]))
    NA = Contract(AI + 'AttrImpl', 'new_AttrImpl', ['ownerDoc', 'name', 'value'], prove=False, ret='loc', sigtext='(ownerDoc : loc) (name : str) (value : str)', writes=[VAL, MADE],
        ensures=[MK, FRESH % 'ownerDoc', 'nname result = name', 'length (nlocal result) = 0', 'not nhas result', '!%s = M.set (old !%s) result value' % (VAL, VAL)])
    C(NA); u.new_contracts['AttrImpl'] = NA
    C(Contract(AM + 'setAttribute', 'am_setAttribute', ['this', 'name', 'value'], requires=AMQ,
        ensures=['not ' + new(RO), 'forall i. first_named name %s i -> %s /\\ !%s = M.set (old !%s) %s[i] value' % (o, same(*STATE), VAL, VAL, o),
            'no_named name {o} -> exists a. {s} = snoc {o} a /\\ nname a = name /\\ !{V} = M.set (old !{V}) a value /\\ (forall m i. 0 <= i < length ((old !{N}) m) -> ((old !{N}) m)[i] <> a)'.format(o=o, s=s, V=VAL, N=ND),
            'full ' + s, DIST, INV, 'uniq {o} -> uniq {s}'.format(o=o, s=s)] + FR,
        raises=[('DOMException e', 'e = 7 /\\ ' + same(*STATE, VAL))]))
    NA = Contract(N + 'AttrNSImpl::AttrNSImpl', 'new_AttrNSImpl', ['ownerDoc', 'namespaceURI', 'hasNamespaceURI', 'qualifiedName'], prove=False, ret='loc', sigtext='(ownerDoc : loc) (namespaceURI : str) (hasNamespaceURI : bool) (qualifiedName : str)', writes=[MADE],
        ensures=[MK, FRESH % 'ownerDoc', 'nname result = qualifiedName', 'nns result = namespaceURI', 'length (nlocal result) > 0'], raises=[('DOMException e', 'e = 14')])
    C(NA); u.new_contracts['AttrNSImpl'] = NA
    C(Contract(N + 'AttrImpl::setValue', 'a_setValue', ['this', 'data'], requires=['this <> 0'], writes=[VAL], prove=False, ensures=['!%s = M.set (old !%s) this data' % (VAL, VAL)], raises=[('DOMException e', 'e = 7 /\\ ' + same(VAL))]))
    C(Contract(AM + 'setAttributeNS', 'am_setAttributeNS', ['this', 'namespaceURI', 'qualifiedName', 'value'], requires=AMQ,
        ensures=['not ' + new(RO), 'exists a r. nns a = namespaceURI /\\ nname a = qualifiedName /\\ put_ns {o} a r {s} /\\ not (old !ghost_made) a /\\ !{v} a = value'.format(o=o, s=s, v=VAL), 'full ' + s, DIST, INV] + FR,
        raises=[('DOMException e', '(e = 7 \\/ e = 14) /\\ ' + same(ND))]))
    return u
