from cxx2why import *
I = 'Arabica::XPath::impl::'; ND = 'Arabica::DOM::Node_impl::'; AT = 'Arabica::DOM::Attr_impl::'
TUS = [('tu_axes.cpp', [I + r'[A-Za-z]*AxisWalker::.*', ND + '.*', AT + '.*', 'Arabica::DOM::NamedNodeMap_impl::.*'])]
CUR = 'axisWalker_current_'
def make_unit():
    u = Unit()
    u.heap = {CUR: 'loc', 'descendantAxisWalker_origin_': 'loc', 'descendantOrSelfAxisWalker_origin_': 'loc', 'precedingAxisWalker_nextAncestor_': 'loc', 'attributeAxisWalker_attrs_': 'loc', 'attributeAxisWalker_index_': 'int', 'attributeAxisWalker_count_': 'int'}
    u.spec = r'''
  (* the tree as it stands while an axis is walked; walking changes nothing in it *)
  function par (n: loc) : loc
  function first (n: loc) : loc
  function nxt (n: loc) : loc
  function prv (n: loc) : loc
  function ntype (n: loc) : int
  function owner (n: loc) : loc
  function odoc (n: loc) : loc
  predicate text (n: loc) = ntype n = 3 \/ ntype n = 4
  val function dyncast_Attr_impl (n: loc) : loc ensures { result = if n <> 0 && ntype n = 2 then n else 0 }
  function xmlns_uri : str = (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 104) 116) 116) 112) 58) 47) 47) 119) 119) 119) 46) 119) 51) 46) 111) 114) 103) 47) 50) 48) 48) 48) 47) 120) 109) 108) 110) 115) 47)
  function item (m: loc) (i: int) : loc
  function uri (n: loc) : str
  (* how deep a node is, its place among its siblings, how many follow, how high the tree below it is *)
  function depth (n: loc) : int
  function place (n: loc) : int
  function after (n: loc) : int
  function height (n: loc) : int
  axiom null: par 0 = 0 /\ first 0 = 0 /\ nxt 0 = 0 /\ prv 0 = 0
  axiom par_def: forall n [par n]. n <> 0 -> 0 <= depth n /\ (par n <> 0 -> depth n = depth (par n) + 1 /\ height n < height (par n) /\ first (par n) <> 0 /\ not text (par n) /\ ntype (par n) <> 2)
  axiom hgt: forall n [height n]. 0 <= height n
  axiom nxt_def: forall n [nxt n]. nxt n <> 0 -> prv (nxt n) = n /\ par (nxt n) = par n /\ par n <> 0 /\ 0 <= after (nxt n) < after n /\ ntype (nxt n) <> 2
  axiom prv_def: forall n [prv n]. prv n <> 0 -> nxt (prv n) = n /\ par (prv n) = par n /\ par n <> 0 /\ 0 <= place (prv n) < place n
  axiom first_def: forall n [first n]. first n <> 0 /\ ntype n <> 2 -> prv (first n) = 0 /\ par (first n) = n /\ ntype (first n) <> 2
  axiom text_first: forall n [first n]. text n -> first n = 0
  axiom attr_alone: forall n [ntype n]. ntype n = 2 -> nxt n = 0 /\ prv n = 0 /\ par n = 0
  axiom owner_def: forall n [owner n]. ntype n = 2 -> owner n <> 0 /\ ntype (owner n) = 1
  (* a document stands alone at the top *)
  axiom odoc_def: forall n [odoc n]. par (odoc n) = 0 /\ nxt (odoc n) = 0 /\ prv (odoc n) = 0 /\ not text (odoc n)

  (* a run of text and CDATA sections is one node of the XPath tree: its first *)
  predicate head (n: loc) = not (text n /\ prv n <> 0 /\ text (prv n))
  function nexth (n: loc) : loc
  axiom nexth_def: forall n [nexth n]. nexth n = if nxt n = 0 then 0 else if head (nxt n) then nxt n else nexth (nxt n)
  function headof (n: loc) : loc
  axiom headof_def: forall n [headof n]. headof n = if head n then n else headof (prv n)
  function prevh (n: loc) : loc = if prv n = 0 then 0 else headof (prv n)

  (* document order: n and what is below it; k, its later siblings, and what is below them; what comes after all of n inside o *)
  function pre (n: loc) : seq loc
  function prek (k: loc) : seq loc
  function rest (o n: loc) : seq loc
  axiom pre_def: forall n [pre n]. pre n = cons n (prek (first n))
  axiom prek_def: forall k [prek k]. prek k = if k = 0 then empty else pre k ++ prek (nexth k)
  axiom rest_def: forall o n [rest o n]. rest o n = if n = 0 \/ n = o then empty else prek (nexth n) ++ rest o (par n)
  (* what is still to come, n being where the walk is *)
  function tail (o n: loc) : seq loc = prek (first n) ++ rest o n
  (* the walk goes on to r: r is the next of what is to come *)
  predicate steps (l: seq loc) (o r: loc) = if l = empty then r = 0 else r <> 0 /\ ntype r <> 2 /\ head r /\ l = cons r (tail o r)
  predicate top (o: loc) = o = 0 \/ par o = 0 /\ prv o = 0 /\ nxt o = 0
  predicate inside (o n: loc)
  axiom inside_def: forall o n [inside o n]. inside o n <-> n <> 0 /\ (n = o \/ inside o (par n))
  let rec lemma inside_depth (o n: loc) requires { inside o n } ensures { n <> o -> depth o < depth n } variant { depth n } = if n <> o then inside_depth o (par n)
  predicate within (o n: loc) = top o \/ inside o n
  let lemma app_assoc (a b c: seq loc) ensures { (a ++ b) ++ c = a ++ (b ++ c) } = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  let lemma app_cons (a b: seq loc) (k: loc) ensures { cons k a ++ b = cons k (a ++ b) } = assert { cons k a ++ b == cons k (a ++ b) }
  let lemma app_nil (a: seq loc) ensures { empty ++ a = a } ensures { a ++ empty = a } = assert { empty ++ a == a }; assert { a ++ empty == a }
  lemma cons_ne: forall k: loc, a: seq loc [cons k a]. cons k a <> empty
  lemma prek_ne: forall k [prek k]. k <> 0 -> prek k <> empty /\ prek k = cons k (prek (first k) ++ prek (nexth k))
  let rec lemma nexth_ok (n: loc) requires { nexth n <> 0 } ensures { head (nexth n) /\ par (nexth n) = par n /\ ntype (nexth n) <> 2 /\ prv (nexth n) <> 0 } variant { if nxt n = 0 then 0 else 1 + after (nxt n) }
  = if nxt n <> 0 && not head (nxt n) then nexth_ok (nxt n)
  let rec lemma nexth_after (n: loc) requires { nexth n <> 0 } ensures { 0 <= after (nexth n) < after n } variant { if nxt n = 0 then 0 else 1 + after (nxt n) }
  = if nxt n <> 0 && not head (nxt n) then nexth_after (nxt n)
  lemma nexth_plain: forall n. not text n -> nexth n = nxt n
  let lemma down_ok (o n: loc) requires { n <> 0 /\ first n <> 0 /\ ntype n <> 2 /\ within o n } ensures { first n <> o /\ within o (first n) /\ steps (tail o n) o (first n) }
  = assert { par (first n) = n }; assert { first n <> o }; assert { inside o n -> inside o (first n) };
    assert { tail o n = cons (first n) ((prek (first (first n)) ++ prek (nexth (first n))) ++ rest o n) };
    assert { rest o (first n) = prek (nexth (first n)) ++ rest o n }
  let lemma over_ok (o n: loc) requires { n <> 0 /\ n <> o /\ nexth n <> 0 /\ within o n } ensures { nexth n <> o /\ within o (nexth n) /\ steps (rest o n) o (nexth n) }
  = let ghost r = nexth n in nexth_ok n;
    assert { r <> o }; assert { inside o n -> inside o (par n) }; assert { inside o n -> inside o r };
    assert { rest o n = prek r ++ rest o (par n) };
    assert { rest o n = cons r ((prek (first r) ++ prek (nexth r)) ++ rest o (par n)) };
    assert { rest o r = prek (nexth r) ++ rest o (par n) }
  let lemma out_ok (o n: loc) requires { n <> 0 /\ n <> o /\ nexth n = 0 } ensures { rest o n = rest o (par n) } = assert { prek (nexth n) = empty }
  let lemma low_ok (o n: loc) requires { first n = 0 } ensures { tail o n = rest o n } = assert { prek (first n) = empty }
  (* a top with nothing beside or above it ends a walk as the edge of the world does *)
  let rec lemma rest_top (d n: loc) requires { par d = 0 /\ nxt d = 0 } ensures { rest d n = rest 0 n } variant { if n = 0 then 0 else 1 + depth n }
  = if n <> 0 && n <> d then rest_top d (par n)
  (* the other way: n after what is below it, last first; k, its earlier siblings, and what is below them *)
  function lastsib (k: loc) : loc
  axiom lastsib_def: forall k [lastsib k]. lastsib k = if nexth k = 0 then k else lastsib (nexth k)
  function lastd (n: loc) : loc
  axiom lastd_def: forall n [lastd n]. lastd n = if first n = 0 then n else lastd (lastsib (first n))
  function bk (n: loc) : seq loc
  function bkk (k: loc) : seq loc
  axiom bk_def: forall n [bk n]. bk n = (if first n = 0 then empty else bkk (lastsib (first n))) ++ cons n empty
  axiom bkk_def: forall k [bkk k]. bkk k = if k = 0 then empty else bk k ++ bkk (prevh k)
  (* what stands before n and is not above it: n's earlier siblings and what is below them, then what stands before its parent *)
  function before (n: loc) : seq loc
  axiom before_def: forall n [before n]. before n = if n = 0 then empty else bkk (prevh n) ++ before (par n)
  (* what is still to come after n on the way back, a being the nearest node above both n and the start *)
  function back (a n: loc) : seq loc
  axiom back_def: forall a n [back a n]. back a n = if n = 0 then empty else bkk (prevh n) ++ (if par n = a then before a else cons (par n) (back a (par n)))
  predicate walks (l: seq loc) (a r: loc) = if l = empty then r = 0 else r <> 0 /\ ntype r <> 2 /\ head r /\ l = cons r (back a r) /\ (a = 0 \/ inside a (par r))
  let rec lemma headof_ok (n: loc) requires { n <> 0 } ensures { let h = headof n in h <> 0 /\ head h /\ par h = par n /\ (ntype n <> 2 -> ntype h <> 2) } variant { place n }
  = if not head n then headof_ok (prv n)
  let rec lemma lastsib_ok (k: loc) requires { k <> 0 /\ head k /\ ntype k <> 2 } ensures { let l = lastsib k in l <> 0 /\ head l /\ par l = par k /\ ntype l <> 2 /\ nexth l = 0 } variant { if nexth k = 0 then 0 else after k }
  = if nexth k <> 0 then (nexth_ok k; nexth_after k; lastsib_ok (nexth k))
  let rec lemma lastd_ok (a k: loc) requires { k <> 0 /\ head k /\ ntype k <> 2 /\ (a = 0 \/ inside a (par k)) } ensures { bk k ++ back a k = cons (lastd k) (back a (lastd k)) } ensures { let r = lastd k in r <> 0 /\ ntype r <> 2 /\ head r /\ (a = 0 \/ inside a (par r)) } variant { height k }
  = if first k <> 0 then begin
      let ghost f = first k in let ghost l = lastsib f in
      lastsib_ok f; assert { par l = k }; assert { height l < height k }; assert { a <> k };
      assert { a <> 0 -> inside a k };
      lastd_ok a l;
      assert { bkk l = bk l ++ bkk (prevh l) };
      assert { back a l = bkk (prevh l) ++ cons k (back a k) };
      assert { bk k ++ back a k = (bkk l ++ cons k empty) ++ back a k };
      assert { (bkk l ++ cons k empty) ++ back a k == bk l ++ (bkk (prevh l) ++ cons k (back a k)) };
      assert { lastd k = lastd l }
    end else assert { bk k ++ back a k == cons k (back a k) }
'''
    C = u.contracts.append
    for m, e in (('getFirstChild', 'first this'), ('getNextSibling', 'nxt this'), ('getPreviousSibling', 'prv this'), ('getNodeType', 'ntype this'), ('getParentNode', 'par this'), ('getOwnerDocument', 'odoc this'), ('hasChildNodes', None)):
        C(Contract(ND + m, 'n_' + m, ['this'], requires=['this <> 0'], ensures=['result = ' + e if e else 'result <-> first this <> 0'], prove=False))
    C(Contract(AT + 'getOwnerElement', 'n_owner', ['this'], requires=['this <> 0'], ensures=['result = owner this'], prove=False))
    A = I + 'AxisWalker::'
    C(Contract(A + 'findNextSibling', 'nextSibling', ['node'], requires=['node <> 0'], ensures=['result = nexth node'],
       loops=[Loop(inv=['text node', 'next <> 0 -> prv next <> 0 /\\ text (prv next)', 'nexth node = (if next = 0 then 0 else if text next then nexth next else next)'], var='if next = 0 then 0 else 1 + after next')]))
    C(Contract(A + 'findPreviousSibling', 'previousSibling', ['node'], requires=['node <> 0'], ensures=['result = prevh node'],
       loops=[Loop(inv=['prev <> 0', 'text prev', 'prev_again = prv prev', 'prevh node = headof prev'], var='place prev')]))
    INN = ['next <> 0 -> rest origin context = prek next ++ rest origin parent /\\ head next /\\ par next = parent /\\ ntype next <> 2']
    C(Contract(A + 'walkDown', 'walkDown', ['context', 'origin'], requires=['context <> 0', 'head context', 'within origin context'], ensures=['ntype context = 2 -> result = 0', 'ntype context <> 2 -> steps (tail origin context) origin result', 'result <> 0 -> within origin result'],
       loops=[Loop(inv=['context <> origin', 'ntype context <> 2', 'first context = 0', 'next = 0 -> rest origin context = rest origin parent', 'next <> 0 -> steps (rest origin context) origin next', 'parent <> 0 -> ntype parent <> 2 /\\ not text parent /\\ nexth parent = nxt parent', 'parent <> 0 -> within origin parent', 'next <> 0 -> within origin next'], var='if parent = 0 then 0 else 1 + depth parent')]))
    D, DS = 'descendantAxisWalker_origin_', 'descendantOrSelfAxisWalker_origin_'
    C(Contract(I + 'DescendantAxisWalker::nextDescendant', 'nextDescendant', ['this'], requires=['!%s this <> 0' % CUR, 'head (!%s this)' % CUR, 'within (!%s this) (!%s this)' % (D, CUR), 'ntype (!%s this) <> 2' % CUR, '!%s this <> !%s this' % (CUR, D), ], ensures=['steps (tail (!%s this) (!%s this)) (!%s this) result' % (D, CUR, D), 'result <> 0 -> within (!%s this) result' % D],
       loops=[Loop(inv=['first (!%s this) = 0' % CUR, 'next = 0 -> rest (!%s this) (!%s this) = rest (!%s this) parent' % (D, CUR, D), 'next <> 0 -> steps (rest (!%s this) (!%s this)) (!%s this) next' % (D, CUR, D), 'parent <> 0 -> ntype parent <> 2 /\\ not text parent /\\ nexth parent = nxt parent', 'parent <> 0 -> within (!%s this) parent' % D, 'next <> 0 -> within (!%s this) next' % D], var='if parent = 0 then 0 else 1 + depth parent')]))
    OTH = 'forall o. o <> this -> !%s o = (old !%s) o' % (CUR, CUR)
    def adv(cls, req, ens): C(Contract(I + cls + 'AxisWalker::advance', cls + '_advance', ['this'], requires=req, ensures=ens + [OTH], writes=[CUR]))
    N, O = '!%s this' % CUR, '(old !%s) this' % CUR
    adv('Descendant', ['%s <> 0' % N, 'head (%s)' % N, 'within (!%s this) (%s)' % (D, N), 'ntype (%s) <> 2' % N, '%s <> !%s this' % (N, D)], ['steps (tail (!%s this) (%s)) (!%s this) (%s)' % (D, O, D, N)])
    adv('DescendantOrSelf', ['%s <> 0' % N, 'head (%s)' % N, 'within (!%s this) (%s)' % (DS, N)], ['ntype (%s) <> 2 -> steps (tail (!%s this) (%s)) (!%s this) (%s)' % (O, DS, O, DS, N), 'ntype (%s) = 2 -> %s = 0' % (O, N)])
    adv('Following', ['%s <> 0' % N, 'head (%s)' % N, 'ntype (%s) <> 2' % N], ['steps (tail 0 (%s)) 0 (%s)' % (O, N)])
    adv('Child', [], ['%s = if %s = 0 then 0 else nexth (%s)' % (N, O, O)])
    adv('FollowingSibling', [], ['%s = if %s = 0 then 0 else nexth (%s)' % (N, O, O)])
    adv('PrecedingSibling', [], ['%s = if %s = 0 then 0 else prevh (%s)' % (N, O, O)])
    adv('Ancestor', [], ['%s = par (%s)' % (N, O)])
    adv('AncestorOrSelf', [], ['%s = if ntype (%s) = 2 && %s <> 0 then owner (%s) else par (%s)' % (N, O, O, O, O)])
    adv('Parent', [], ['%s = 0' % N])
    adv('Self', [], ['%s = 0' % N])
    C(Contract(I + 'FollowingAxisWalker::firstFollowing', 'firstFollowing', ['this', 'context'], requires=['context <> 0', 'head context'],
       ensures=['ntype context <> 2 -> steps (rest 0 context) 0 result', 'ntype context = 2 -> steps (tail 0 (owner context)) 0 result'],
       loops=[Loop(inv=['ntype context <> 2', 'next = 0 -> rest 0 context = rest 0 parent', 'next <> 0 -> steps (rest 0 context) 0 next', 'parent <> 0 -> ntype parent <> 2 /\\ not text parent /\\ nexth parent = nxt parent'], var='if parent = 0 then 0 else 1 + depth parent')]))
    NA = 'precedingAxisWalker_nextAncestor_'; PW = I + 'PrecedingAxisWalker::'
    ON = 'forall o. o <> this -> !%s o = (old !%s) o' % (NA, NA)
    C(Contract(PW + 'getLastDescendant', 'lastDescendant', ['this', 'context'], requires=['context <> 0', 'head context', 'ntype context <> 2'], ensures=['result = lastd context'],
       loops=[Loop(inv=['c <> 0', 'next = nexth c', 'head c', 'ntype c <> 2', 'lastsib c = lastsib (first context)', 'first context <> 0'], var='if next = 0 then 0 else 1 + after next')]))
    A0 = '(old !%s) this' % NA
    C(Contract(PW + 'previousInDocument', 'previousInDocument', ['this', 'context'], requires=['context <> 0', 'head context', 'ntype context <> 2', '!%s this = 0 \\/ inside (!%s this) (par context)' % (NA, NA)],
       ensures=['walks (back (%s) context) (!%s this) result' % (A0, NA), ON], writes=[NA]))
    C(Contract(PW + 'firstPreceding', 'firstPreceding', ['this', 'context'], requires=['context <> 0', 'head context', 'ntype context <> 2'], ensures=['walks (before context) (!%s this) (!%s this)' % (NA, CUR), ON, OTH], writes=[NA, CUR]))
    C(Contract(PW + 'advance', 'Preceding_advance', ['this'], requires=['%s <> 0' % N, 'head (%s)' % N, 'ntype (%s) <> 2' % N, '!%s this = 0 \\/ inside (!%s this) (par (%s))' % (NA, NA, N)], ensures=['walks (back (%s) (%s)) (!%s this) (%s)' % (A0, O, NA, N), ON, OTH], writes=[NA, CUR]))
    X, CN, AM = ['attributeAxisWalker_%s_' % x for x in ('index', 'count', 'attrs')]
    C(Contract('Arabica::DOM::NamedNodeMap_impl::item', 'm_item', ['this', 'index'], requires=['0 <= index'], ensures=['result = item this index'], prove=False))
    C(Contract(ND + 'getNamespaceURI', 'n_uri', ['this'], requires=['this <> 0'], ensures=['result = uri this'], prove=False))
    DECL = ('uri (item (!%s this) k) = xmlns_uri' % AM)
    RQ = ['0 <= !%s this <= !%s this < 0xffffffff' % (X, CN), 'forall k. 0 <= k -> (item (!%s this) k <> 0 <-> k < !%s this)' % (AM, CN)]
    EN = ['%s = 0 -> forall k. (old !%s) this <= k < !%s this -> %s' % (N, X, CN, DECL),
          '%s <> 0 -> (old !%s) this < !%s this <= !%s this /\\ %s = item (!%s this) (!%s this - 1) /\\ uri (%s) <> xmlns_uri /\\ forall k. (old !%s) this <= k < !%s this - 1 -> %s' % (N, X, X, CN, N, AM, X, N, X, X, DECL)]
    OX = 'forall o. o <> this -> !%s o = (old !%s) o' % (X, X)
    C(Contract(I + 'AttributeAxisWalker::set_next', 'set_next', ['this'], requires=RQ, ensures=EN + [OTH, OX], writes=[CUR, X],
       loops=[Loop(inv=['(old !%s) this <= !%s this < !%s this + 1' % (X, X, CN), 'forall k. (old !%s) this <= k < !%s this -> %s' % (X, X, DECL), OX], var='!%s this + 1 - !%s this' % (CN, X))]))
    C(Contract(I + 'AttributeAxisWalker::advance', 'Attribute_advance', ['this'], requires=RQ, ensures=['%s = 0 -> %s = 0' % (O, N)] + ['%s <> 0 -> (%s)' % (O, e) for e in EN] + [OTH, OX], writes=[CUR, X]))
    return u
