from domtree import *
DN = 'Arabica::DOM::Node_impl::'
DOC = N + 'DocumentImpl::'
TREEALL = (*TREE, ORPH, DE, DT, CHG)
def make_unit():
    u = base_unit()
    C = u.contracts.append
    # --- virtual calls, by the contract every override is checked against
    C(Contract(DN + 'getNodeType', 'vGetNodeType', ['this'], requires=['this <> 0'], ensures=['result = ntype this'], prove=False))
    C(Contract(NI + 'getNodeType', 'nGetNodeType', ['this'], requires=['this <> 0'], ensures=['result = ntype this'], prove=False))
    C(Contract(DN + 'getParentNode', 'vGetParentNode', ['this'], requires=['this <> 0', 'wf_root !%s' % PAR], ensures=['result = !%s this' % PAR], prove=False))
    C(Contract(DN + 'removeChild', 'vRemoveChild', ['this', 'oldChild'], **ckw(c_removeChild('', '')), prove=False))
    C(Contract(NI + 'getParentNode', 'nGetParentNode', ['this'], requires=['this <> 0', 'wf_root !%s' % PAR], ensures=['result = !%s this' % PAR], prove=False))
    C(Contract(NI + 'removeChild', 'nRemoveChild', ['this', 'oldChild'], **ckw(c_removeChild('', '')), prove=False))
    C(Contract(NI + 'getOwnerDocument', 'nGetOwnerDocument', ['this'], ensures=['result = !%s this' % OWN]))
    for base, pre in ((DN, 'v'), (NI, 'n')):
        C(Contract(base + 'getFirstChild', pre + 'GetFirstChild', ['this'], requires=['this <> 0'], prove=False,
            ensures=['result = (if length %s = 0 then 0 else %s[0])' % (new(KIDS), new(KIDS))]))
        C(Contract(base + 'getLastChild', pre + 'GetLastChild', ['this'], requires=['this <> 0'], prove=False,
            ensures=['result = (if length %s = 0 then 0 else %s[length %s - 1])' % ((new(KIDS),) * 3)]))
    C(Contract(DN + 'getNextSibling', 'vGetNextSibling', ['this'], requires=['this <> 0'], ensures=['result = !%s this' % NXT], prove=False))
    C(Contract(DN + 'getPreviousSibling', 'vGetPreviousSibling', ['this'], requires=['this <> 0'], ensures=['result = !%s this' % PRV], prove=False))
    mk = {'insertBefore': c_insert, 'replaceChild': c_replace, 'removeChild': c_removeChild, 'appendChild': lambda q, n, kd, **k: c_insert(q, n, kd, ref='0', **k)}
    for nm, f in mk.items():
        for base, pre in ((DN, 'v'), (NC, 'p')) + (((NI, 'n'),) if nm != 'removeChild' else ()):
            if nm == 'removeChild' and base == DN: continue
            C(f(base + nm, pre + '_' + nm, 'gen', prove=False, virt=True))
        C(f(NC + nm, 'nc_' + nm, 'plain', virt=False))
        C(f(NC + nm, 'nondoc_' + nm, 'nondoc', virt=False))
        C(f(DOC + nm, 'doc_' + nm, 'doc', virt=False, fine=nm == 'replaceChild'))
    C(Contract(DOC + 'checkChildType', 'docCheckChildType', ['this', 'child'], requires=['this <> 0', 'child <> 0', 'ntype this = 9'],
        ensures=['takes 9 (ntype child)'], raises=[('DOMException e', 'not takes 9 (ntype child) /\\ e = 3')]))
    C(c_insert(DOC + 'insertBefore', 'docv_insertBefore', 'doc', virt=True, prove=False))
    C(Contract(NC + 'checkChildType', 'vCheckChildType', ['this', 'child'], requires=['this <> 0', 'child <> 0'],
        ensures=['takes (ntype this) (ntype child)'], raises=[('DOMException e', 'not takes (ntype this) (ntype child) /\\ e = 3 \\/ !%s this /\\ e = 7' % RO)], prove=False))
    C(Contract(NI + 'setOwnerDoc', 'setOwnerDoc', ['this', 'ownerDoc'], requires=['this <> 0', 'length %s = 0' % new(KIDS)], writes=[OWN],
        ensures=['!%s this = ownerDoc' % OWN, 'forall o. o <> this -> live o -> !%s o = (old !%s) o' % (OWN, OWN)], prove=False))
    # --- the overrides the virtual contracts above stand for
    for cls in TYPES:
        t = TYPES[cls]
        C(Contract(N + cls + '::getNodeType', 'type_' + cls, ['this'], requires=['this <> 0', 'ntype this = %d' % t], ensures=['result = ntype this']))
        if cls in ('AttrImpl', 'EntityImpl', 'DocumentImpl', 'DocumentFragmentImpl', 'NotationImpl'):
            C(Contract(N + cls + '::getParentNode', 'parent_' + cls, ['this'], requires=['this <> 0', 'ntype this = %d' % t, 'wf_root !%s' % PAR], ensures=['result = !%s this' % PAR]))
        if cls in ('ElementImpl', 'AttrImpl', 'DocumentFragmentImpl', 'EntityReferenceImpl', 'EntityImpl'):
            C(Contract(N + cls + '::checkChildType', 'takes_' + cls, ['this', 'child'], requires=['this <> 0', 'child <> 0', 'ntype this = %d' % t],
                ensures=['takes (ntype this) (ntype child)'], raises=[('DOMException e', 'not takes (ntype this) (ntype child) /\\ e = 3 \\/ !%s this /\\ e = 7' % RO)]))
    for m, f in (('getPreviousSibling', PRV), ('getNextSibling', NXT)):
        C(Contract(NI + m, 'own_' + m, ['this'], requires=['this <> 0'], ensures=['result = !%s this' % f]))
        C(Contract(N + 'AttrImpl::' + m, 'attr_' + m, ['this'], requires=['this <> 0', 'ntype this = 2', WF], ensures=['result = !%s this' % f]))
    C(Contract(NI + 'getParentNode', 'own_getParentNode', ['this'], requires=['this <> 0'], ensures=['result = !%s this' % PAR], virt=False))
    C(Contract(NC + 'getFirstChild', 'own_getFirstChild', ['this'], requires=['this <> 0'], ensures=['result = (if length %s = 0 then 0 else %s[0])' % ((new(KIDS),) * 2)]))
    C(Contract(NC + 'getLastChild', 'own_getLastChild', ['this'], requires=['this <> 0'], ensures=['result = (if length %s = 0 then 0 else %s[length %s - 1])' % ((new(KIDS),) * 3)]))
    C(Contract(NC + 'hasChildNodes', 'own_hasChildNodes', ['this'], requires=['this <> 0'], ensures=['result = (length %s <> 0)' % new(KIDS)]))
    C(Contract(NC + 'item', 'own_item', ['this', 'index'], requires=['this <> 0'], ensures=['result = (if index < length %s then %s[index] else 0)' % ((new(KIDS),) * 2)]))
    C(Contract(NC + 'getLength', 'own_getLength', ['this'], requires=['this <> 0', 'length %s < 0x100000000' % new(KIDS)], ensures=['result = length %s' % new(KIDS)]))
    CH = N + 'ChildlessNodeImpl::'
    LEAF = ('leaf', '(ntype this = 3 \\/ ntype this = 4 \\/ ntype this = 7 \\/ ntype this = 8 \\/ ntype this = 10 \\/ ntype this = 12)')
    for nm, f in mk.items():
        C(f(CH + nm, 'leaf_' + nm, LEAF, virt=False))
        C(f(N + 'AttrImpl::' + nm, 'attr_' + nm, ('attr', 'ntype this = 2'), virt=False))
    for nm in ('getFirstChild', 'getLastChild'):
        C(Contract(CH + nm, 'leaf_' + nm, ['this'], requires=['this <> 0', WF, LEAF[1]], ensures=['result = 0', 'length %s = 0 by (forall c. not mem c %s)' % (new(KIDS), new(KIDS))]))
    C(Contract(CH + 'hasChildNodes', 'leaf_hasChildNodes', ['this'], requires=['this <> 0', WF, LEAF[1]], ensures=['result = (length %s <> 0)' % new(KIDS)]))
    # --- the building blocks
    C(Contract(NI + 'setParentNode', 'setParentNode', ['this', 'parent'], requires=['this <> 0'], writes=[PAR, ORPH],
        ensures=['!%s = M.set (old !%s) this parent' % (PAR, PAR),
                 '!%s = (let d = !%s this in if d = 0 \\/ (((old !%s) this = 0) = (parent = 0)) then old !%s else M.set (old !%s) d (M.set ((old !%s) d) this (parent = 0)))'
                 % (ORPH, OWN, PAR, ORPH, ORPH, ORPH)]))
    C(Contract(NC + 'markChanged', 'markChanged', ['this'], writes=[CHG], ensures=[CHANGED(), 'forall d. d <> !%s this -> !%s d = (old !%s) d' % (OWN, CHG, CHG)]))
    C(c_removeChild(NC + 'do_removeChild', 'do_removeChild', de='plain'))

    C(Contract(NC + 'checkNotAncestor', 'checkNotAncestor', ['this', 'child'], requires=[WF, 'this <> 0', 'child <> 0'],
        ensures=['not_above !%s child this' % PAR], raises=[('DOMException e', 'not not_above !%s child this /\\ e = 3' % PAR)],
        loops=[Loop(inv=['0 <= !k', 'n = up !%s !k this' % PAR, 'forall j. 0 <= j < !k -> up !%s j this <> child' % PAR],
                    ghost_pre='let ghost k = ref 0 in', var='ht !%s this - !k' % PAR, body_end='ghost (k := !k + 1)')]))
    C(Contract(NC + 'checkCanAdd', 'checkCanAdd', ['this', 'child'], requires=[WF, 'this <> 0', 'child <> 0', '!%s this <> 0' % OWN, 'live this', 'live child', dt0('child')],
        ensures=['takes (ntype this) (ntype child)', 'not_above !%s child this' % PAR, nd('child'), '!%s child = !%s this' % (OWN, OWN)],
        raises=[('DOMException e', '!%s = old !%s /\\ (e = 3 /\\ (not takes (ntype this) (ntype child) \\/ not not_above !%s child this) \\/ e = 4 /\\ (!%s child <> !%s this \\/ ntype child = 9) \\/ e = 7 /\\ !%s this)'
                 % (OWN, OWN, PAR, OWN, OWN, RO))]))

    C(Contract(NC + 'removeIfRequired', 'removeIfRequired', ['this', 'newNode'], requires=[WF, WFF[:-1] + '(if !%s newNode = 0 then newNode else 0)' % PAR, WFD, 'newNode <> 0', 'live newNode'],
        ensures=['detached (old !%s) !%s newNode' % (KIDS, KIDS), '(old !%s) newNode <> 0 -> %s' % (PAR, WFF), '!%s = M.set (old !%s) newNode 0' % (PAR, PAR)] + WFE + [WFF[:-1] + 'newNode', WFD, same(DT, OWN),
                 'forall d. !%s d = if (old !%s) d = newNode then 0 else (old !%s) d' % (DE, DE, DE),
                 '(old !%s) newNode = 0 -> %s' % (PAR, SAMEALL), '(old !%s) newNode <> 0 -> %s' % (PAR, CHANGED('newNode'))],
        raises=[('DOMException e', '!%s newNode <> 0 /\\ (e = 7 \\/ e = 3 /\\ ntype newNode = 10) /\\ %s' % (PAR, SAMEALL))]))
    C(c_insert(NC + 'do_insertBefore', 'do_insertBefore', 'plain'))
    C(c_replace(NC + 'do_replaceChild', 'do_replaceChild', 'plain'))
    C(c_insert(NC + 'do_appendChild', 'do_appendChild', 'plain', ref='0'))
    return u
