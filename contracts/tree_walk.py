from cxx2why import *
T = 'Arabica::DOM::Traversal::'
W = T + 'TreeWalkerImpl::'
ND = 'Arabica::DOM::Node::'
TUS = [('tu_walk.cpp', [W + '.*', T + 'NodeFilter::.*', ND + '.*', 'Arabica::DOM::Proxy::.*'])]
F = 'treeWalkerImpl_'
R, C, WH, FI, EX = [F + x for x in ('root_', 'currentNode_', 'whatToShow_', 'nodeFilter_', 'expandEntityRef_')]
def make_unit():
    u = Unit()
    u.heap = {R: 'loc', C: 'loc', WH: 'int', FI: 'loc', EX: 'bool'}
    u.handle_classes = {'Arabica::DOM::Node': 'loc'}
    # a Node is a reference to a node: copying, assigning and comparing it are those of the reference
    def assign(tr, e):
        p, l = tr.lv(e['args'][0]); v = tr.fresh(); x = tr.expr(e['args'][1]) if not e['args'][1].get('lv') else tr.rd(e['args'][1])
        return Ex('(%s let %s = %s in %s)' % (' '.join(p), v, x.s, tr.write(l, v)), True)
    def compare(op):
        def f(tr, e):
            rd = lambda a: tr.rd(a) if a.get('lv') else tr.expr(a)
            a = e['args'] if e['k'] == 'CXXOperatorCallExpr' else [e['obj']] + e['args']
            if len(a) == 2 and all(tr.u.wty_safe(x['t']) in ('loc', 'int') for x in a): return tr.seq([rd(x) for x in a], lambda v: '(%s %s %s)' % (v[0], op, v[1]))
        return f
    u.builtins += [(ND + 'operator=', assign), (ND + 'operator==', compare('=')), (ND + 'operator!=', compare('<>'))]
    u.spec = r'''
  (* the tree a walker looks at, and what its filter says of a node; neither changes while the walker moves *)
  val function par (n: loc) : loc
  function first (n: loc) : loc
  function last (n: loc) : loc
  function nxt (n: loc) : loc
  function prv (n: loc) : loc
  function ntype (n: loc) : int
  axiom ntype_range: forall n [ntype n]. 1 <= ntype n <= 12
  (* siblings to go: the tree is finite *)
  function after (n: loc) : int
  axiom after_def: forall n [nxt n]. n <> 0 -> after (nxt n) < after n /\ 0 <= after n
  function before (n: loc) : int
  axiom before_def: forall n [prv n]. n <> 0 -> before (prv n) < before n /\ 0 <= before n
  function depth (n: loc) : int
  axiom depth_def: forall n [par n]. n <> 0 -> 0 <= depth n /\ (par n <> 0 -> depth (par n) < depth n)
  function filtered (f n: loc) : int
  axiom filtered_range: forall f n [filtered f n]. 1 <= filtered f n <= 3
  function bit (k: int) : int
  axiom bits: bit 1 = 1 /\ bit 2 = 2 /\ bit 3 = 4 /\ bit 4 = 8 /\ bit 5 = 16 /\ bit 6 = 32 /\ bit 7 = 64 /\ bit 8 = 128 /\ bit 9 = 256 /\ bit 10 = 512 /\ bit 11 = 1024 /\ bit 12 = 2048
  val function band_ (a b: int) : int
  val function shl_ (a b: int) : int
  axiom band_bit: forall a k [band_ a (bit k)]. 0 <= a -> 1 <= k <= 12 -> (band_ a (bit k) <> 0 <-> mod (div a (bit k)) 2 = 1)
  axiom shl_bit: forall k [shl_ 1 k]. 0 <= k <= 11 -> shl_ 1 k = bit (k + 1)
  (* what the walker holds: the root, the mask, the filter, and whether entity references are looked into *)
  predicate shown (what: int) (n: loc) = mod (div what (bit (ntype n))) 2 = 1
  type cfg = { root: loc; what: int; filt: loc; exp: bool }
  (* 1: accepted, 2: rejected with all below it, 3: skipped *)
  function acc (w: cfg) (n: loc) : int = if not shown w.what n then 3 else if w.filt = 0 then 1 else filtered w.filt n
  (* DOM Level 2 Traversal: the moves over the logical view *)
  function vparent (w: cfg) (n: loc) : loc
  axiom parent_def: forall w n [vparent w n]. vparent w n = if n = 0 || n = w.root then 0 else if par n = 0 then 0 else if acc w (par n) = 1 then par n else vparent w (par n)
  let rec lemma vparent_up (w: cfg) (n: loc) requires { n <> 0 } ensures { vparent w n <> 0 -> 0 <= depth (vparent w n) < depth n } variant { depth n }
    = if par n <> 0 && pure { acc w (par n) <> 1 } then vparent_up w (par n)
  function first_among (w: cfg) (k: loc) : loc   (* the first visible node at or after k among its siblings and what is below the skipped ones *)
  function vfirst (w: cfg) (n: loc) : loc = if not w.exp && ntype n = 5 then 0 else first_among w (first n)
  axiom first_among_def: forall w k [first_among w k]. first_among w k = if k = 0 then 0 else if acc w k = 1 then k else if acc w k = 3 && vfirst w k <> 0 then vfirst w k else first_among w (nxt k)
  function last_among (w: cfg) (k: loc) : loc
  function vlast (w: cfg) (n: loc) : loc = if not w.exp && ntype n = 5 then 0 else last_among w (last n)
  axiom last_among_def: forall w k [last_among w k]. last_among w k = if k = 0 then 0 else if acc w k = 1 then k else if acc w k = 3 && vlast w k <> 0 then vlast w k else last_among w (prv k)
  function next_sib (w: cfg) (n: loc) : loc
  axiom next_sib_def: forall w n [next_sib w n]. next_sib w n = if n = 0 || n = w.root then 0
    else if nxt n = 0 then (if par n = 0 || par n = w.root || acc w (par n) = 1 then 0 else next_sib w (par n))
    else if acc w (nxt n) = 1 then nxt n else if acc w (nxt n) = 3 && vfirst w (nxt n) <> 0 then vfirst w (nxt n) else next_sib w (nxt n)
  function prev_sib (w: cfg) (n: loc) : loc
  axiom prev_sib_def: forall w n [prev_sib w n]. prev_sib w n = if n = 0 || n = w.root then 0
    else if prv n = 0 then (if par n = 0 || par n = w.root || acc w (par n) = 1 then 0 else prev_sib w (par n))
    else if acc w (prv n) = 1 then prv n else if acc w (prv n) = 3 && vlast w (prv n) <> 0 then vlast w (prv n) else prev_sib w (prv n)
  (* last children end: the tree is finite *)
  function height (n: loc) : int
  axiom height_def: forall w n [vlast w n]. n <> 0 -> vlast w n <> 0 -> 0 <= height (vlast w n) < height n
  function deepest (w: cfg) (n: loc) : loc
  axiom deepest_def: forall w n [deepest w n]. deepest w n = if vlast w n = 0 then n else deepest w (vlast w n)
  function prev_node (w: cfg) (n: loc) : loc = if prev_sib w n <> 0 then deepest w (prev_sib w n) else vparent w n
  (* the next sibling of the nearest visible ancestor that has one *)
  function over (w: cfg) (p: loc) : loc
  axiom over_def: forall w p [over w p]. over w p = if p = 0 then 0 else if next_sib w p <> 0 then next_sib w p else over w (vparent w p)
  function next_node (w: cfg) (n: loc) : loc = if vfirst w n <> 0 then vfirst w n else if next_sib w n <> 0 then next_sib w n else over w (vparent w n)
'''
    CF = '{ root = !%s this; what = !%s this; filt = !%s this; exp = !%s this }' % (R, WH, FI, EX)
    Cc = u.contracts.append
    for m, f in (('getParentNode', 'par'), ('getFirstChild', 'first'), ('getLastChild', 'last'), ('getNextSibling', 'nxt'), ('getPreviousSibling', 'prv'), ('getNodeType', 'ntype')):
        Cc(Contract(ND + m, 'n_' + m, ['this'], requires=['this <> 0'], ensures=['result = %s this' % f], prove=False))
    Cc(Contract(ND + 'hasChildNodes', 'n_hasChildNodes', ['this'], requires=['this <> 0'], ensures=['result <-> first this <> 0'], prove=False))
    Cc(Contract(W + 'empty_node', 'empty_node', [], ensures=['result = 0'], prove=False))
    Cc(Contract(T + 'NodeFilter::acceptNode', 'f_accept', ['this', 'node'], requires=['this <> 0', 'node <> 0'], ensures=['result = filtered this node'], prove=False))
    REQ = ['0 <= !%s this < 0x10000000000000000' % WH]
    P = lambda n, w, args, ens, **k: Cc(Contract(W + n, w, ['this'] + args, requires=REQ + k.pop('req', []), ensures=ens, **k))
    P('acceptNode', 'acceptNode', ['node'], ['result = acc %s node' % CF], req=['node <> 0'])
    P('getParentNodeImpl', 'getParentNodeImpl', ['node'], ['result = vparent %s node' % CF])
    P('getNextSiblingImpl', 'getNextSiblingImpl', ['node'], ['result = next_sib %s node' % CF])
    P('getPreviousSiblingImpl', 'getPreviousSiblingImpl', ['node'], ['result = prev_sib %s node' % CF])
    P('getFirstChildImpl', 'getFirstChildImpl', ['node'], ['result = vfirst %s node' % CF], req=['node <> 0'],
      loops=[Loop(inv=['vfirst %s node = first_among %s new_node' % (CF, CF)], var='after new_node')])
    P('getLastChildImpl', 'getLastChildImpl', ['node'], ['result = vlast %s node' % CF], req=['node <> 0'],
      loops=[Loop(inv=['vlast %s node = last_among %s new_node' % (CF, CF)], var='before new_node')])
    def move(n, f, loops=(), **k):
        Cc(Contract(W + n, 'w_' + n, ['this'], requires=REQ + ['!%s this <> 0' % C],
           ensures=['result = %s %s ((old !%s) this)' % (f, CF, C), 'if result <> 0 then !%s this = result else !%s = old !%s' % (C, C, C), 'forall o. o <> this -> !%s o = (old !%s) o' % (C, C)], writes=[C], loops=list(loops), **k))
    move('parentNode', 'vparent'); move('firstChild', 'vfirst'); move('lastChild', 'vlast'); move('previousSibling', 'prev_sib'); move('nextSibling', 'next_sib')
    move('previousNode', 'prev_node', [Loop(inv=['n <> 0', 'last_child = vlast %s n' % CF, 'deepest %s n = deepest %s (prev_sib %s (!%s this))' % (CF, CF, CF, C)], var='height n')])
    move('nextNode', 'next_node', [Loop(inv=['next_node %s (!%s this) = over %s parent' % (CF, C, CF), '!%s = old !%s' % (C, C)], var='(if parent = 0 then 0 else 1 + depth parent)')])
    for g, f in (('getRoot', R), ('getWhatToShow', WH), ('getFilter', FI), ('getExpandEntityReferences', EX), ('getCurrentNode', C)):
        Cc(Contract(W + g, 'w_' + g, ['this'], ensures=['result = !%s this' % f]))
    Cc(Contract(W + 'setCurrentNode', 'w_setCurrentNode', ['this', 'currentNode'], ensures=['!%s this = currentNode' % C, 'forall o. o <> this -> !%s o = (old !%s) o' % (C, C)], writes=[C]))
    return u
