from cxx2why import *
N = 'Arabica::SimpleDOM::'
L = N + 'ElementByTagList::'
ND = 'Arabica::DOM::Node_impl::'
TUS = [('tu_dom.cpp', [L + '.*', N + 'DocumentImpl::changes', N + 'DocumentImpl::markChanged', ND + '.*'])]
F = 'elementByTagList_'
NO, RT, OD, NS, TG, UN, AS, AN, CH = [F + x for x in ('nodes_', 'rootNode_', 'ownerDoc_', 'namespaceURI_', 'tagName_', 'useNamespace_', 'allNamespaces_', 'allNames_', 'changes_')]
CC = 'documentImpl_changesCount_'
def make_unit():
    u = Unit()
    u.heap = {NO: '(seq loc)', RT: 'loc', OD: 'loc', NS: 'str', TG: 'str', UN: 'bool', AS: 'bool', AN: 'bool', CH: 'int', CC: 'int'}
    u.spec = r'''
  (* the tree as it stands while a list is asked; asking changes nothing in it *)
  function first (n: loc) : loc
  function nxt (n: loc) : loc
  function ntype (n: loc) : int
  function name (n: loc) : str
  function local (n: loc) : str
  function uri (n: loc) : str
  predicate has_uri (n: loc)
  (* siblings to go, and levels below: the tree is finite *)
  function after (n: loc) : int
  axiom after_def: forall n [nxt n]. n <> 0 -> after (nxt n) < after n /\ 0 <= after n
  (* what a list asks for *)
  type want = { by_ns: bool; any_ns: bool; any_name: bool; ns: str; tag: str }
  predicate matches (w: want) (n: loc) =
    if w.by_ns then (w.any_ns \/ has_uri n /\ w.ns = uri n) /\ (w.any_name \/ w.tag = local n) else w.any_name \/ w.tag = name n
  (* the matching elements below n, in document order *)
  function below (w: want) (n: loc) : seq loc
  (* those among k and its later siblings, and below them *)
  function from (w: want) (k: loc) : seq loc
  axiom below_def: forall w n [below w n]. below w n = from w (first n)
  axiom from_def: forall w k [from w k]. from w k = if k = 0 then empty else (if ntype k = 1 then (if matches w k then cons k (below w k) else below w k) else empty) ++ from w (nxt k)
  let lemma app_assoc (a b c: seq loc) ensures { (a ++ b) ++ c = a ++ (b ++ c) } = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  let lemma app_cons (a b: seq loc) (k: loc) ensures { snoc a k ++ b = a ++ cons k b } = assert { snoc a k ++ b == a ++ cons k b }
  let lemma app_nil (a: seq loc) ensures { a ++ empty = a } ensures { empty ++ a = a } = assert { a ++ empty == a }; assert { empty ++ a == a }
'''
    C = u.contracts.append
    for m, e in (('getFirstChild', 'result = first this'), ('getNextSibling', 'result = nxt this'), ('getNodeType', 'result = ntype this'), ('getNodeName', 'result = name this'), ('getLocalName', 'result = local this'), ('getNamespaceURI', 'result = uri this'), ('hasNamespaceURI', 'result <-> has_uri this')):
        C(Contract(ND + m, 'n_' + m, ['this'], requires=['this <> 0'], ensures=[e], prove=False))
    W = '{ by_ns = !%s this; any_ns = !%s this; any_name = !%s this; ns = !%s this; tag = !%s this }' % (UN, AS, AN, NS, TG)
    KEEP = ['forall o. o <> this -> !%s o = (old !%s) o' % (NO, NO)]
    C(Contract(L + 'checkChildren', 'checkChildren', ['this', 'node'], requires=['node <> 0'], ensures=['!%s this = (old !%s) this ++ below %s node' % (NO, NO, W)] + KEEP, writes=[NO],
       loops=[Loop(inv=['(old !%s) this ++ below %s node = !%s this ++ from %s child' % (NO, W, NO, W)] + KEEP, var='after child',
                   ghost_pre='app_nil (!%s this); let ghost w = %s in' % (NO, W))]))
    C(Contract(L + 'checkNode', 'checkNode', ['this', 'node'], requires=['node <> 0', 'ntype node = 1'], ensures=['!%s this = (old !%s) this ++ (if matches %s node then cons node (below %s node) else below %s node)' % (NO, NO, W, W, W)] + KEEP, writes=[NO]))
    ALL = 'below %s (!%s this)' % (W, RT)
    FRESH = '!%s this = !%s (!%s this) -> !%s this = %s' % (CH, CC, OD, NO, ALL)
    K2 = KEEP + ['forall o. o <> this -> !%s o = (old !%s) o' % (CH, CH)]
    RQ = ['!%s this <> 0' % RT, '!%s this <> 0' % OD, '0 <= !%s (!%s this) < 0x10000000000000000' % (CC, OD)]
    C(Contract(L + 'populate', 'populate', ['this'], requires=RQ, ensures=['!%s this = %s' % (NO, ALL)] + K2, writes=[NO, CH]))
    # the count tells any two moments apart that are fewer than 2^64 changes apart
    C(Contract(N + 'DocumentImpl::markChanged', 'markChanged', ['this'], requires=['0 <= !%s this < 0x10000000000000000' % CC], ensures=['!%s this = if (old !%s) this = 0xFFFFFFFFFFFFFFFF then 0 else (old !%s) this + 1' % (CC, CC, CC), 'forall o. o <> this -> !%s o = (old !%s) o' % (CC, CC)], writes=[CC]))
    # a list that has looked since the last change of its document holds the answer
    C(Contract(L + 'item', 'item', ['this', 'index'], requires=RQ + [FRESH, '0 <= index'], ensures=['result = if index < length (%s) then (%s)[index] else 0' % (ALL, ALL), FRESH] + K2, writes=[NO, CH]))
    C(Contract(L + 'getLength', 'getLength', ['this'], requires=RQ + [FRESH], ensures=['length (%s) < 0x100000000 -> result = length (%s)' % (ALL, ALL), FRESH] + K2, writes=[NO, CH]))
    return u
