"""DOM tree structure: shared specification and the contracts of the child-list operations."""
from cxx2why import *
N = 'Arabica::SimpleDOM::'
NI = N + 'NodeImpl::'
NC = N + 'NodeImplWithChildren::'
TYPES = dict(ElementImpl=1, AttrImpl=2, TextImpl=3, CDATASectionImpl=4, EntityReferenceImpl=5, EntityImpl=6, ProcessingInstructionImpl=7,
   CommentImpl=8, DocumentImpl=9, DocumentFragmentImpl=11, NotationImpl=12)
TUS = [('tu_dom.cpp', [NC + '.*', NI + '.*', N + 'DocumentImpl::.*', N + 'ChildlessNodeImpl::.*'] +
        [N + c + '::' + m for c in TYPES for m in ('checkChildType', 'getNodeType', 'getParentNode')] +
        [N + 'AttrImpl::' + m for m in ('insertBefore', 'replaceChild', 'removeChild', 'appendChild', 'getPreviousSibling', 'getNextSibling')])]
PAR, NXT, PRV, KIDS, OWN, RO, ORPH, CHG = ('nodeImpl_parentNode_', 'nodeImpl_nextSibling_', 'nodeImpl_prevSibling_', 'nodeImplWithChildren_nodes_',
   'nodeImpl_ownerDoc_', 'nodeImpl_readOnly_', 'documentImpl_orphans_', 'documentImpl_changesCount_')
DE, DT = 'documentImpl_documentElement_', 'documentImpl_documentType_'
HEAP = {PAR: 'loc', NXT: 'loc', PRV: 'loc', KIDS: '(seq loc)', OWN: 'loc', RO: 'bool', ORPH: '(st loc)', CHG: 'int', DE: 'loc', DT: 'loc'}
def new(f, o='this'): return '(!%s %s)' % (f, o)
def old(f, o='this'): return '((old !%s) %s)' % (f, o)
def same(*fs): return r' /\ '.join('!%s = old !%s' % (f, f) for f in fs)
TREE = (PAR, NXT, PRV, KIDS)
WF = 'wf !%s !%s !%s !%s' % TREE
WFE = ['wf_par !%s !%s' % (PAR, KIDS), 'wf_dist !%s' % KIDS, 'wf_in !%s !%s' % (PAR, KIDS), 'wf_link !%s !%s !%s' % (NXT, PRV, KIDS),
       'wf_orph !%s !%s !%s' % (PAR, NXT, PRV), 'wf_root !%s' % PAR, 'wf_types !%s' % PAR, 'acyclic !%s' % PAR]
TREEO = tuple('(old !%s)' % f for f in TREE)
SPEC = r'''
  exception DOMException int
  use map.Map as M
  (* the type of a node never changes *)
  function ntype (n: loc) : int
  (* dynamic_cast within one object: null unless the object is of the class *)
  val function dyncast_DocumentImpl (n: loc) : loc ensures { result = if ntype n = 9 then n else 0 }
  val function dyncast_Element_impl (n: loc) : loc ensures { result = if ntype n = 1 then n else 0 }
  val function dyncast_DocumentType_impl (n: loc) : loc ensures { result = if ntype n = 10 then n else 0 }
  let function dyncast_NodeImpl (n: loc) : loc = n
@MEM@  (* child lists, parents and sibling links agree *)
  predicate wf_par (par: loc -> loc) (kids: loc -> seq loc) =
    forall p i [(kids p)[i]]. 0 <= i < length (kids p) -> (kids p)[i] <> 0 /\ p <> 0 /\ par (kids p)[i] = p
  predicate distinct (s: seq loc) = forall i j. 0 <= i < j < length s -> s[i] <> s[j]
  predicate wf_dist (kids: loc -> seq loc) = forall p [kids p]. distinct (kids p)
  predicate wf_in (par: loc -> loc) (kids: loc -> seq loc) =
    forall c [par c]. c <> 0 -> par c <> 0 -> mem c (kids (par c))
  predicate linked (s: seq loc) (nxt prv: loc -> loc) =
    (forall i. 0 <= i < length s - 1 -> nxt s[i] = s[i + 1]) &&
    (forall i. 0 < i < length s -> prv s[i] = s[i - 1]) &&
    (length s > 0 -> prv s[0] = 0 /\ nxt s[length s - 1] = 0)
  predicate wf_link (nxt prv: loc -> loc) (kids: loc -> seq loc) = forall p [kids p]. linked (kids p) nxt prv
  predicate wf_orph (par nxt prv: loc -> loc) = forall c. c <> 0 -> par c = 0 -> nxt c = 0 /\ prv c = 0
  function up (par: loc -> loc) (k: int) (n: loc) : loc
  axiom up_0 : forall par k n [up par k n]. k <= 0 \/ n = 0 -> up par k n = n
  axiom up_s : forall par k n [up par k n]. k > 0 -> n <> 0 -> up par k n = up par (k - 1) (par n)
  (* every chain of parents ends *)
  predicate acyclic (par: loc -> loc) = forall n. exists k. k >= 0 /\ up par k n = 0
  (* bumped 1 to n times, modulo 2^64 *)
  predicate ticked (a b: int) (n: int) = 0 <= a < 0x10000000000000000 -> 0 <= b < 0x10000000000000000 /\ (a + 1 <= b <= a + n \/ a + 1 - 0x10000000000000000 <= b <= a + n - 0x10000000000000000)
  (* names such a k (the choice function of the line above, a conservative definition) *)
  function ht (par: loc -> loc) (n: loc) : int
  axiom ht_def : forall par n [ht par n]. acyclic par -> ht par n >= 0 /\ up par (ht par n) n = 0
  (* a is not n or above n *)
  predicate not_above (par: loc -> loc) (a n: loc) = forall k. k >= 0 -> up par k n <> a
  (* documents, attributes and fragments are never children; nor are entities and notations *)
  predicate root_type (t: int) = t = 2 \/ t = 6 \/ t = 9 \/ t = 11 \/ t = 12
  predicate wf_root (par: loc -> loc) = forall n. root_type (ntype n) -> par n = 0
  (* which child types a parent of type t takes *)
  predicate takes (t c: int) =
    if t = 9 then c = 1 \/ c = 7 \/ c = 8 \/ c = 10
    else if t = 2 then c = 3 \/ c = 5
    else (t = 1 \/ t = 5 \/ t = 6 \/ t = 11) /\ (c = 1 \/ c = 3 \/ c = 4 \/ c = 5 \/ c = 7 \/ c = 8)
  predicate wf_types (par: loc -> loc) = forall n. n <> 0 -> par n <> 0 -> takes (ntype (par n)) (ntype n)
  predicate wf (par nxt prv: loc -> loc) (kids: loc -> seq loc) =
    wf_types par && wf_root par && wf_par par kids && wf_dist kids && wf_in par kids && wf_link nxt prv kids && wf_orph par nxt prv && acyclic par
  (* the element and doctype a document reports are its only children of these types, leaving out x *)
  predicate only (kids: seq loc) (e x t: int) =
    (e <> 0 -> mem e kids /\ ntype e = t) /\ (forall c. mem c kids -> ntype c = t -> c = x \/ c = e)
  predicate wf_doc (kids: loc -> seq loc) (de dt: loc -> loc) (d x: loc) =
    (ntype d <> 9 -> de d = 0 /\ dt d = 0) /\ (ntype d = 9 -> only (kids d) (de d) x 1 /\ only (kids d) (dt d) x 10)
  predicate wf_docs (kids: loc -> seq loc) (de dt: loc -> loc) = forall d [de d | dt d | kids d]. wf_doc kids de dt d 0
  (* live: allocated nodes outside doctype declarations. A document owns exactly its parentless nodes; a tree is in one document *)
  predicate live (n: loc)
  predicate wf_free (par own: loc -> loc) (orph: loc -> loc -> bool) (x: loc) =
    (forall d n [orph d n]. orph d n -> live n -> n <> 0 -> n <> x -> d <> 0 /\ par n = 0 /\ own n = d) /\
    (forall n [own n | par n]. live n -> n <> 0 -> n <> x -> ntype n <> 2 -> ntype n <> 9 -> own n <> 0 -> par n = 0 -> orph (own n) n) /\
    (forall n [par n]. live n -> n <> 0 -> par n <> 0 -> live (par n) /\ own n = own (par n))
  predicate removed (s: seq loc) (x: loc) (t: seq loc) =
    exists i. 0 <= i < length s /\ s[i] = x /\ t = s[0 .. i] ++ s[i + 1 .. length s]
  (* s without x, if it is there *)
  function minus (s: seq loc) (x: loc) : seq loc
@MINUS@  predicate replaced (s: seq loc) (x y: loc) (t: seq loc) = exists i. 0 <= i < length s /\ s[i] = x /\ t == set s i y
  predicate inserted (s: seq loc) (x r: loc) (t: seq loc) =
    if r = 0 then t == snoc s x
    else exists i. 0 <= i < length s /\ s[i] = r /\ t == snoc s[0 .. i] x ++ s[i .. length s]
'''
MINUS = r'''  predicate without (s: seq loc) (x: loc) (t: seq loc) = if mem x s then removed s x t else t = s
  (* the choice function of the line above: a conservative definition *)
  axiom minus_def : forall s x [minus s x]. without s x (minus s x)
  predicate detached (k0 k1: loc -> seq loc) (x: loc) = forall q. k1 q = minus (k0 q) x
'''
DETACH = r'''  predicate detached (k0 k1: loc -> seq loc) (x: loc)
  axiom detached_elim : forall k0 k1 x q [detached k0 k1 x, minus (k0 q) x | detached k0 k1 x, k1 q]. detached k0 k1 x -> k1 q = minus (k0 q) x
  axiom detached_intro : forall k0 k1 x [detached k0 k1 x]. (forall q. k1 q = minus (k0 q) x) -> detached k0 k1 x
'''
MEMDEF = r'''  predicate mem (x: loc) (s: seq loc) = exists i. 0 <= i < length s /\ s[i] = x
'''
MEMAX = r'''
  axiom mem_idx : forall x s [mem x s]. mem x s -> exists i. 0 <= i < length s /\ s[i] = x
  axiom mem_at : forall x s i [mem x s, s[i]]. 0 <= i < length s -> s[i] = x -> mem x s
  axiom mem_append : forall x s t [mem x (s ++ t)]. mem x (s ++ t) <-> mem x s \/ mem x t
  axiom mem_snoc : forall x s y [mem x (snoc s y)]. mem x (snoc s y) <-> mem x s \/ x = y
  axiom mem_empty : forall x [mem x (empty: seq loc)]. not mem x (empty: seq loc)
  axiom mem_split : forall x s i [mem x s, s[0 .. i]]. 0 <= i <= length s -> (mem x s <-> mem x s[0 .. i] \/ mem x s[i .. length s])
  axiom mem_split1 : forall x s i j k [mem x s, s[0 .. i], s[j .. k]]. 0 <= i < length s -> j = i + 1 -> k = length s ->
    (mem x s <-> mem x s[0 .. i] \/ x = s[i] \/ mem x s[j .. k])
'''
UPLEMMAS = r'''
  let rec lemma up_add (par: loc -> loc) (i j: int) (n: loc)
    requires { 0 <= i /\ 0 <= j } ensures { up par (i + j) n = up par j (up par i n) } variant { i }
  = if i > 0 && n <> 0 then up_add par (i - 1) j (par n)
  let rec lemma up_frame (par par2: loc -> loc) (c: loc) (k: int) (n: loc)
    requires { forall x. x <> c -> par2 x = par x } requires { c <> 0 /\ k >= 0 } requires { not_above par c n }
    ensures { up par2 k n = up par k n } variant { k }
  = assert { up par 0 n <> c };
    if k > 0 && n <> 0 then begin
      assert { forall j. j >= 0 -> up par (j + 1) n = up par j (par n) };
      assert { forall j. j >= 0 -> up par j (par n) <> c by up par (j + 1) n <> c };
      up_frame par par2 c (k - 1) (par n) end
  let rec lemma up_attach (par par2: loc -> loc) (c p: loc) (k: int) (n: loc)
    requires { c <> 0 /\ p <> 0 /\ k >= 0 } requires { par2 c = p /\ forall x. x <> c -> par2 x = par x }
    requires { not_above par c p } variant { k }
    ensures { up par2 k n = up par k n \/ exists j. 0 <= j < k /\ up par j n = c /\ up par2 k n = up par (k - 1 - j) p }
  = if k > 0 && n <> 0 then
      if n = c then begin up_frame par par2 c (k - 1) p; assert { up par 0 n = c /\ up par2 k n = up par (k - 1 - 0) p } end
      else begin up_attach par par2 c p (k - 1) (par n);
        assert { up par2 k n = up par2 (k - 1) (par n) }; assert { up par k n = up par (k - 1) (par n) };
        assert { forall j. 0 <= j -> up par (j + 1) n = up par j (par n) };
        assert { forall j. 0 <= j < k - 1 -> up par j (par n) = c -> up par2 (k - 1) (par n) = up par (k - 1 - 1 - j) p ->
                 (exists i. 0 <= i < k /\ up par i n = c /\ up par2 k n = up par (k - 1 - i) p
                  by let i = j + 1 in 0 <= i < k /\ up par i n = c /\ k - 1 - i = k - 1 - 1 - j) } end
  let lemma acyclic_attach (par par2: loc -> loc) (c p: loc)
    requires { c <> 0 /\ p <> 0 } requires { par2 c = p /\ forall x. x <> c -> par2 x = par x }
    requires { not_above par c p } requires { acyclic par } ensures { acyclic par2 }
  = let lemma one (n: loc) ensures { exists k. k >= 0 /\ up par2 k n = 0 }
    = let ghost k0 = ht par n in
      let ghost kp = ht par p in
      let k = k0 + kp + 1 in
      up_attach par par2 c p k n; up_add par k0 (kp + 1) n;
      let lemma far (j: int) requires { 0 <= j < k /\ up par j n = c } ensures { up par (k - 1 - j) p = 0 }
      = if j >= k0 then begin up_add par k0 (j - k0) n; assert { up par (j - k0) 0 = 0 }; assert { c = 0 } end; assert { j < k0 }; up_add par kp (k - 1 - j - kp) p in
      assert { up par2 k n = 0 } in ()
  let rec lemma up_detach (par par2: loc -> loc) (c: loc) (k: int) (n: loc)
    requires { c <> 0 /\ k >= 0 } requires { par2 c = 0 /\ forall x. x <> c -> par2 x = par x } variant { k }
    ensures { up par2 k n <> 0 -> up par2 k n = up par k n }
  = if k > 0 && n <> 0 then
      if n = c then assert { up par2 k n = up par2 (k - 1) 0 = 0 }
      else up_detach par par2 c (k - 1) (par n)
  let lemma acyclic_detach (par par2: loc -> loc) (c: loc)
    requires { c <> 0 } requires { par2 c = 0 /\ forall x. x <> c -> par2 x = par x }
    requires { acyclic par } ensures { acyclic par2 }
  = let lemma one (n: loc) ensures { exists k. k >= 0 /\ up par2 k n = 0 }
    = let ghost k = ht par n in up_detach par par2 c k n; assert { up par2 k n = 0 } in ()
  let rec lemma no_loop_m (par: loc -> loc) (n: loc) (k m: int)
    requires { n <> 0 /\ k > 0 /\ m >= 0 /\ up par k n = n } ensures { up par (m * k) n = n } variant { m }
  = if m > 0 then begin no_loop_m par n k (m - 1); up_add par ((m - 1) * k) k n; assert { (m - 1) * k + k = m * k } end
  let lemma no_loop (par: loc -> loc) (n: loc) (k: int) requires { acyclic par /\ n <> 0 /\ k > 0 } ensures { up par k n <> n }
  = let ghost m = ht par n in
    if up par k n = n then begin no_loop_m par n k m; assert { m * k >= m }; up_add par m (m * k - m) n; assert { up par (m * k - m) 0 = 0 } end
'''
USELEMMAS = r'''
  axiom link_insert : forall par0 par nxt prv nxt2 prv2 kids kids2 c q i [wf_link nxt2 prv2 kids2, wf_link nxt prv kids, wf_par par kids, not_above par0 c q, (kids q)[i]].
    wf_link nxt prv kids -> wf_par par kids -> wf_dist kids -> c <> 0 -> par c = 0 -> 0 <= i < length (kids q) ->
    (kids2 q) == (snoc (kids q)[0 .. i] c) ++ (kids q)[i .. length (kids q)] -> (forall o. o <> q -> kids2 o = kids o) ->
    (let r = (kids q)[i] in let p = prv r in
      (forall x. prv2 x = if x = r then c else if x = c then p else prv x) -> (forall x. nxt2 x = if x = c then r else if x = p && p <> 0 then c else nxt x) ->
      wf_link nxt2 prv2 kids2)
  axiom link_replace : forall par0 par nxt prv nxt2 prv2 kids kids2 c q i [wf_link nxt2 prv2 kids2, wf_link nxt prv kids, wf_par par kids, not_above par0 c q, (kids q)[i]].
    wf_link nxt prv kids -> wf_par par kids -> wf_dist kids -> c <> 0 -> par c = 0 -> 0 <= i < length (kids q) ->
    (kids2 q) == set (kids q) i c -> (forall o. o <> q -> kids2 o = kids o) ->
    (let r = (kids q)[i] in let p = prv r in let n = nxt r in
      (forall x. prv2 x = if x = r then 0 else if x = n && n <> 0 then c else if x = c then p else prv x) ->
      (forall x. nxt2 x = if x = r then 0 else if x = p && p <> 0 then c else if x = c then n else nxt x) ->
      wf_link nxt2 prv2 kids2)

  axiom acyclic_set : forall par c p [acyclic (M.set par c p)].
    c <> 0 -> p <> 0 -> not_above par c p -> acyclic par -> acyclic (M.set par c p)
  axiom up_next : forall par k n [par (up par k n)]. k >= 0 -> up par k n <> 0 -> up par (k + 1) n = par (up par k n)
  axiom up_end : forall par i j n [up par i n, up par j n]. 0 <= i <= j -> up par i n = 0 -> up par j n = 0
  axiom leaf_not_above : forall par kids a n [not_above par a n, kids a].
    a <> 0 -> n <> a -> length (kids a) = 0 -> wf_in par kids -> not_above par a n
  axiom minus_none : forall s x [minus s x]. not mem x s -> minus s x = s
  axiom removed_unique : forall s x t [removed s x t, minus s x]. distinct s -> removed s x t -> t = minus s x
  axiom minus_mem : forall s x y [mem y (minus s x)]. distinct s -> (mem y (minus s x) <-> mem y s /\ y <> x)
  axiom minus_keep : forall s x y [minus s x, mem y s]. distinct s -> mem y s -> y <> x -> mem y (minus s x)
  axiom removed_mem : forall s x t y [removed s x t, mem y t]. distinct s -> removed s x t -> (mem y t <-> mem y s /\ y <> x)
  axiom inserted_mem : forall s x r t y [inserted s x r t, mem y t]. inserted s x r t -> (mem y t <-> mem y s \/ y = x)
  axiom replaced_mem : forall s x y t z [replaced s x y t, mem z t]. distinct s -> replaced s x y t -> (mem z t <-> (mem z s /\ z <> x) \/ z = y)
  axiom acyclic_unset : forall par c [acyclic (M.set par c 0)]. c <> 0 -> acyclic par -> acyclic (M.set par c 0)
'''
UPLEMMAS += r'''
  let lemma up_nx (par: loc -> loc) (k: int) (n: loc) requires { k >= 0 /\ up par k n <> 0 } ensures { up par (k + 1) n = par (up par k n) }
  = up_add par k 1 n; assert { up par 1 (up par k n) = up par 0 (par (up par k n)) }
  let lemma up_en (par: loc -> loc) (i j: int) (n: loc) requires { 0 <= i <= j /\ up par i n = 0 } ensures { up par j n = 0 }
  = up_add par i (j - i) n
  let rec lemma leaf_na (par: loc -> loc) (kids: loc -> seq loc) (a: loc) (k: int) (n: loc)
    requires { a <> 0 /\ n <> a /\ length (kids a) = 0 /\ wf_in par kids /\ k >= 0 } ensures { up par k n <> a } variant { k }
  = if k > 0 && n <> 0 then begin assert { par n = a -> mem n (kids a) }; assert { par n <> a };
      leaf_na par kids a (k - 1) (par n) end
  let lemma mem_app (x: loc) (s t: seq loc) ensures { mem x (s ++ t) <-> mem x s \/ mem x t }
  = assert { forall i. 0 <= i < length s -> (s ++ t)[i] = s[i] }; assert { forall i. 0 <= i < length t -> (s ++ t)[length s + i] = t[i] };
    assert { mem x s -> mem x (s ++ t) }; assert { mem x t -> mem x (s ++ t) }
  let lemma mem_spl (x: loc) (s: seq loc) (i: int) requires { 0 <= i <= length s } ensures { mem x s <-> mem x s[0 .. i] \/ mem x s[i .. length s] }
  = assert { s == s[0 .. i] ++ s[i .. length s] }; mem_app x s[0 .. i] s[i .. length s]
  let lemma mem_spl1 (x: loc) (s: seq loc) (i: int) requires { 0 <= i < length s }
    ensures { mem x s <-> mem x s[0 .. i] \/ x = s[i] \/ mem x s[i + 1 .. length s] }
  = assert { s[i .. length s] == cons s[i] s[i + 1 .. length s] };
    assert { s == s[0 .. i] ++ (cons s[i] empty ++ s[i + 1 .. length s]) };
    mem_app x s[0 .. i] (cons s[i] empty ++ s[i + 1 .. length s]); mem_app x (cons s[i] empty) s[i + 1 .. length s];
    assert { mem x (cons s[i] empty) <-> x = s[i] by (cons s[i] empty)[0] = s[i] }
'''
UPLEMMAS += r'''
  let lemma rem_uniq (s t u: seq loc) (x: loc) requires { distinct s /\ removed s x t /\ removed s x u } ensures { t = u } = ()
  let lemma rem_mem (s t: seq loc) (x y: loc) requires { distinct s /\ removed s x t } ensures { mem y t <-> mem y s /\ y <> x }
  = let lemma wit (i: int) requires { 0 <= i < length s /\ s[i] = x /\ t = s[0 .. i] ++ s[i + 1 .. length s] } ensures { mem y t <-> mem y s /\ y <> x }
    = mem_spl1 y s i; mem_app y s[0 .. i] s[i + 1 .. length s];
      assert { forall j. 0 <= j < i -> s[0 .. i][j] = s[j] }; assert { forall j. 0 <= j < length s - i - 1 -> s[i + 1 .. length s][j] = s[i + 1 + j] };
      assert { not mem x s[0 .. i] }; assert { not mem x s[i + 1 .. length s] } in ()
  let lemma ins_mem (s t: seq loc) (x r y: loc) requires { inserted s x r t } ensures { mem y t <-> mem y s \/ y = x }
  = let lemma sn (u: seq loc) (v: loc) ensures { mem y (snoc u v) <-> mem y u \/ y = v }
    = assert { snoc u v == u ++ cons v empty }; mem_app y u (cons v empty); assert { (cons v empty)[0] = v } in
    let lemma wit (i: int) requires { 0 <= i < length s /\ s[i] = r /\ t = snoc s[0 .. i] x ++ s[i .. length s] } ensures { mem y t <-> mem y s \/ y = x }
    = mem_spl y s i; mem_app y (snoc s[0 .. i] x) s[i .. length s]; sn s[0 .. i] x in
    if r = 0 then sn s x
'''
UPLEMMAS += r'''
  let lemma repl_mem (s t: seq loc) (x y z: loc) requires { distinct s /\ replaced s x y t } ensures { mem z t <-> (mem z s /\ z <> x) \/ z = y }
  = let lemma wit (i: int) requires { 0 <= i < length s /\ s[i] = x /\ t = set s i y } ensures { mem z t <-> (mem z s /\ z <> x) \/ z = y }
    = assert { t[i] = y }; assert { forall j. 0 <= j < length s -> j <> i -> t[j] = s[j] /\ s[j] <> x } in ()
'''
UPLEMMAS += r'''
  let lemma mem_sn (x: loc) (s: seq loc) (y: loc) ensures { mem x (snoc s y) <-> mem x s \/ x = y }
  = assert { snoc s y == s ++ cons y empty }; mem_app x s (cons y empty); assert { (cons y empty)[0] = y }
'''
UPLEMMAS += r'''
  let lemma link_ins (par nxt prv nxt2 prv2: loc -> loc) (kids kids2: loc -> seq loc) (c q: loc) (i: int)
    requires { wf_link nxt prv kids /\ wf_par par kids /\ wf_dist kids /\ c <> 0 /\ par c = 0 /\ 0 <= i < length (kids q) }
    requires { kids2 q == (snoc (kids q)[0 .. i] c) ++ (kids q)[i .. length (kids q)] } requires { forall o. o <> q -> kids2 o = kids o }
    requires { forall x. prv2 x = if x = (kids q)[i] then c else if x = c then prv (kids q)[i] else prv x }
    requires { forall x. nxt2 x = if x = c then (kids q)[i] else if x = prv (kids q)[i] && prv (kids q)[i] <> 0 then c else nxt x }
    ensures { wf_link nxt2 prv2 kids2 }
  = let ghost s = kids q in let ghost t = kids2 q in let ghost r = s[i] in
    assert { linked s nxt prv /\ distinct s };
    assert { prv r = if i = 0 then 0 else s[i - 1] };
    assert { forall o j. 0 <= j < length (kids o) -> (kids o)[j] <> c };
    assert { forall j. 0 <= j < i -> t[j] = s[j] }; assert { t[i] = c }; assert { forall j. i < j <= length s -> t[j] = s[j - 1] }; assert { length t = length s + 1 };
    assert { linked t nxt2 prv2 };
    assert { forall o j k. o <> q -> 0 <= j < length (kids o) -> 0 <= k < length s -> (kids o)[j] <> s[k] by par s[k] = q /\ par (kids o)[j] = o };
    assert { forall o j. o <> q -> 0 <= j < length (kids o) -> (kids o)[j] <> r /\ (kids o)[j] <> prv r };
    assert { forall o. o <> q -> linked (kids2 o) nxt2 prv2 }
  let lemma link_rep (par nxt prv nxt2 prv2: loc -> loc) (kids kids2: loc -> seq loc) (c q: loc) (i: int)
    requires { wf_link nxt prv kids /\ wf_par par kids /\ wf_dist kids /\ c <> 0 /\ par c = 0 /\ 0 <= i < length (kids q) }
    requires { kids2 q == set (kids q) i c } requires { forall o. o <> q -> kids2 o = kids o }
    requires { let r = (kids q)[i] in let p = prv r in let n = nxt r in forall x. prv2 x = if x = r then 0 else if x = n && n <> 0 then c else if x = c then p else prv x }
    requires { let r = (kids q)[i] in let p = prv r in let n = nxt r in forall x. nxt2 x = if x = r then 0 else if x = p && p <> 0 then c else if x = c then n else nxt x }
    ensures { wf_link nxt2 prv2 kids2 }
  = let ghost s = kids q in let ghost t = kids2 q in let ghost r = s[i] in
    assert { linked s nxt prv /\ distinct s };
    assert { prv r = if i = 0 then 0 else s[i - 1] }; assert { nxt r = if i = length s - 1 then 0 else s[i + 1] };
    assert { forall o j. 0 <= j < length (kids o) -> (kids o)[j] <> c };
    assert { forall j. 0 <= j < length s -> j <> i -> t[j] = s[j] }; assert { t[i] = c }; assert { length t = length s };
    assert { linked t nxt2 prv2 };
    assert { forall o j k. o <> q -> 0 <= j < length (kids o) -> 0 <= k < length s -> (kids o)[j] <> s[k] by par s[k] = q /\ par (kids o)[j] = o };
    assert { forall o j. o <> q -> 0 <= j < length (kids o) -> (kids o)[j] <> r /\ (kids o)[j] <> prv r /\ (kids o)[j] <> nxt r };
    assert { forall o. o <> q -> linked (kids2 o) nxt2 prv2 }
'''
UPLEMMAS += (MEMAX + USELEMMAS + DETACH.split('\n', 1)[1]).replace('axiom', 'lemma') + r'''
  let rec ghost function up_def (par: loc -> loc) (k: int) (n: loc) : loc variant { k }
  = if k <= 0 || n = 0 then n else up_def par (k - 1) (par n)
  lemma up_0_ok : forall par k n. k <= 0 \/ n = 0 -> up_def par k n = n
  lemma up_s_ok : forall par k n. k > 0 -> n <> 0 -> up_def par k n = up_def par (k - 1) (par n)
'''
KF = 'forall o. o <> this -> !%s o = (old !%s) o' % (KIDS, KIDS)

def base_unit():
    u = Unit()
    u.heap = dict(HEAP)
    u.exceptions = {'DOMException': 'int'}
    u.spec = SPEC.replace('@MEM@', '  predicate mem (x: loc) (s: seq loc)\n').replace('@MINUS@', DETACH) + MEMAX + USELEMMAS
    return u

WFD = 'wf_docs !%s !%s !%s' % (KIDS, DE, DT)
WFDBY = ('((forall d. d <> this -> ntype d = 9 -> only (!K d) (!E d) 0 1) /\\ (forall d. d <> this -> ntype d = 9 -> only (!K d) (!T d) 0 10) /\\ '
  '(forall d. ntype d <> 9 -> !E d = 0 /\\ !T d = 0) /\\ only (!K this) (!E this) 0 1 /\\ only (!K this) (!T this) 0 10) && ').replace('!K', '!' + KIDS).replace('!E', '!' + DE).replace('!T', '!' + DT) + WFD
WFF = 'wf_free !%s !%s !%s 0' % (PAR, OWN, ORPH)
def CHANGED(o='this', n=1):
    """the change count of o's document was bumped 1 to n times (machine arithmetic)"""
    own = '(!%s %s)' % (OWN, o)
    return '%s <> 0 -> ticked ((old !%s) %s) (!%s %s) %d' % (own, CHG, own, CHG, own, n)
def c_removeChild(q, name, de='gen', **k):
    """de: 'gen' virtual, 'plain' NodeImplWithChildren's own (does not touch documentElement), 'doc' Document's"""
    ens = ['not !%s this' % RO, 'result = oldChild', 'removed %s oldChild %s' % (old(KIDS), new(KIDS)), KF,
           '!%s = M.set (old !%s) oldChild 0' % (PAR, PAR)] + WFE + [same(OWN, DT), WFF, CHANGED()]
    req = [WF, WFF, 'this <> 0', 'oldChild <> 0']
    codes = '(!%s this /\\ e = 7 \\/ not mem oldChild %s /\\ e = 8%s) /\\ %s'
    dtx = ''
    if de == 'plain':
        ens += [same(DE)]
    else:
        req += [WFD]; ens += [WFD, '!%s = (if (old !%s) this = oldChild then M.set (old !%s) this 0 else old !%s)' % (DE, DE, DE, DE),
                              '(old !%s) this <> oldChild' % DT]
        dtx = ' \\/ (old !%s) this = oldChild /\\ e = 3' % DT
    if de == 'doc': req += ['ntype this = 9']
    if de == 'nondoc': req += ['ntype this <> 9']
    if isinstance(de, tuple): req += [de[1]]
    return Contract(q, name, ['this', 'oldChild'], requires=req, ensures=ens,
        raises=[('DOMException e', codes % (RO, old(KIDS), dtx, same(*TREE, ORPH, OWN, DE, DT, CHG)))], **k)

def ckw(c): return dict(requires=c.requires, ensures=c.ensures, raises=c.raises)

ROOTARG = ['this <> 0', '!%s this <> 0' % OWN, 'root_type (ntype this) -> !%s this = 0' % PAR]
NEWDOC = 'if (old !%s) %%s <> 0 then !%s = old !%s else (!%s %%s = !%s this /\\ forall o. o <> %%s -> live o -> !%s o = (old !%s) o)' % (OWN, OWN, OWN, OWN, OWN, OWN, OWN)
DT0 = '!%s %%s = 0 -> ntype %%s = 10 /\\ !%s %%s = 0 /\\ length (!%s %%s) = 0' % (OWN, PAR, KIDS)
def nd(c): return NEWDOC % (c, c, c)
def dt0(c): return DT0 % ((c,) * 4)
SAMEALL = same(*TREE, ORPH, OWN, DE, DT, CHG)
def kids_ins(c, r):
    """the child lists after c was put before r (at the end when r is 0)"""
    return ['inserted (minus %s %s) %s %s %s' % (old(KIDS), c, c, r, new(KIDS)),
            'forall q. q <> this -> !%s q = minus ((old !%s) q) %s' % (KIDS, KIDS, c)]
def c_insert(q, name, kind, param='newChild', ref='refChild', **k):
    """kind: 'plain' NodeImplWithChildren's own, 'gen' virtual, 'doc' Document's"""
    c = param
    req = [WF, WFF, WFD, 'this <> 0', '!%s this <> 0' % OWN, c + ' <> 0', 'live ' + c, 'live this', dt0(c), 'ntype %s <> 11' % c]
    moved = ['takes (ntype this) (ntype %s)' % c, 'not_above (old !%s) %s this' % (PAR, c)] + kids_ins(c, ref) + \
            ['!%s = M.set (old !%s) %s this' % (PAR, PAR, c), nd(c), CHANGED(n=2)]
    ens = ['not !%s this' % RO, 'result = ' + c, '%s = 0 \\/ mem %s %s' % (ref, ref, old(KIDS))]
    ens += ['if %s = %s then %s else (%s)' % (c, ref, SAMEALL, m) for m in moved] + WFE + [WFF, '!%s %s = !%s this' % (OWN, c, OWN)]
    if kind == 'plain':
        dd = '(%s = %s \\/ (old !%s) %s = 0)' % (c, ref, PAR, c)
        ens += ['forall d. d <> this -> wf_doc !%s !%s !%s d 0' % (KIDS, DE, DT), 'wf_doc !%s !%s !%s this %s' % (KIDS, DE, DT, c), same(DT),
                'if %s = %s then %s else (forall d. !%s d = if (old !%s) d = %s then 0 else (old !%s) d)' % (c, ref, same(DE), DE, DE, c, DE)]
    else: ens += [WFD]
    rs = '%s /\\ (e = 7 \\/ e = 8 /\\ %s <> 0 /\\ not mem %s %s \\/ e = 4 /\\ (!%s %s <> !%s this \\/ ntype %s = 9) \\/ e = 3 /\\ (not takes (ntype this) (ntype %s) \\/ not not_above !%s %s this \\/ ntype %s = 10%s))' % (
        SAMEALL, ref, ref, old(KIDS), OWN, c, OWN, c, c, PAR, c, c,
        '' if kind == 'plain' else ' \\/ ntype %s = 1 /\\ !%s this <> 0 /\\ !%s this <> %s' % (c, DE, DE, c))
    if kind == 'doc': req += ['ntype this = 9']
    if kind == 'nondoc': req += ['ntype this <> 9']
    if isinstance(kind, tuple): req += [kind[1]]
    return Contract(q, name, ['this', param] + ([ref] if ref != '0' else []), requires=req, ensures=ens, raises=[('DOMException e', rs)], **k)

def c_replace(q, name, kind, **k):
    c = 'newChild'; o = 'oldChild'
    req = [WF, WFF, WFD, 'this <> 0', '!%s this <> 0' % OWN, 'newChild <> 0', 'oldChild <> 0', 'live newChild', 'live this', dt0(c), 'ntype newChild <> 11']
    if kind == 'doc': req.append('ntype this = 9')
    if kind == 'nondoc': req.append('ntype this <> 9')
    if isinstance(kind, tuple): req += [kind[1]]
    same_ = 'newChild = oldChild'
    ch = ['takes (ntype this) (ntype newChild)', 'not_above (old !%s) newChild this' % PAR,
          'replaced (minus %s newChild) oldChild newChild %s' % (old(KIDS), new(KIDS)),
          'forall q. q <> this -> !%s q = minus ((old !%s) q) newChild' % (KIDS, KIDS),
          '!%s = M.set (M.set (old !%s) newChild this) oldChild 0' % (PAR, PAR), nd(c), CHANGED(n=2)]
    ens = ['not !%s this' % RO, 'result = oldChild', 'mem oldChild %s' % old(KIDS)]
    ens += ['if %s then %s else (%s)' % (same_, SAMEALL, m) for m in ch] + WFE + [WFF, '!%s newChild = !%s this' % (OWN, OWN)]
    if kind == 'plain':
        ens += ['forall d. d <> this -> wf_doc !%s !%s !%s d 0' % (KIDS, DE, DT), same(DT),
                'if %s then %s else (forall d. !%s d = if (old !%s) d = newChild then 0 else (old !%s) d)' % (same_, same(DE), DE, DE, DE)]
    else: ens += [WFDBY if kind == 'doc' else WFD]
    extra = '' if kind == 'plain' else ' \\/ ntype newChild = 1 /\\ !%s this <> 0 /\\ !%s this <> newChild /\\ !%s this <> oldChild \\/ !%s this <> 0 /\\ !%s this = oldChild' % (DE, DE, DE, DT, DT)
    rs = '%s /\\ (e = 7 \\/ e = 8 /\\ not mem oldChild %s \\/ e = 4 /\\ (!%s newChild <> !%s this \\/ ntype newChild = 9) \\/ e = 3 /\\ (not takes (ntype this) (ntype newChild) \\/ not not_above !%s newChild this \\/ ntype newChild = 10%s))' % (
        SAMEALL, old(KIDS), OWN, OWN, PAR, extra)
    return Contract(q, name, ['this', 'newChild', 'oldChild'], requires=req, ensures=ens, raises=[('DOMException e', rs)], **k)
