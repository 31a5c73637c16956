from cxx2why import *
I = 'Arabica::XPath::impl::'; DM = 'Arabica::DOM::'
TUS = [('tu_axes.cpp', [I + '(node_parent_or_owner|node_attribute_index|node_child_position|ultimate_parent|resolve_different_subtrees|node_position|get_owner_document|compareNodes)', DM + '(Node|Attr|NamedNodeMap|Element|Document)::(get[A-Z].*|item)'])]
def make_unit():
    u = Unit()
    u.handle_classes = {DM + x: 'loc' for x in ('Node', 'Attr', 'NamedNodeMap', 'Element', 'Document', 'Node_impl')}
    # a node handle is the node it stands for
    u.builtins += [('Arabica::DOM::(Node|Proxy)::underlying_impl', lambda tr, e: tr.rd(e['obj'])), ('Arabica::DOM::(Node|Proxy)::operator=', lambda tr, e: tr.assign(e, e['args'][0], lambda: tr.rd(e['args'][1]))),
      ('Arabica::DOM::(Node|Proxy)::operator==', lambda tr, e: tr.seq([tr.rd(a) for a in e['args']], lambda v: '(%s = %s)' % (atom(v[0]), atom(v[1])))),
      ('Arabica::DOM::(Node|Proxy)::operator!=', lambda tr, e: tr.seq([tr.rd(a) for a in e['args']], lambda v: '(%s <> %s)' % (atom(v[0]), atom(v[1]))))]
    u.spec = r'''
  function par (n: loc) : loc
  function prv (n: loc) : loc
  function ntype (n: loc) : int
  function owner (n: loc) : loc
  function odoc (n: loc) : loc
  function amap (n: loc) : loc
  function alen (m: loc) : int
  function item (m: loc) (i: int) : loc
  function depth (n: loc) : int
  (* how many siblings stand before a node *)
  function place (n: loc) : int
  axiom place_def: forall n [place n]. place n = if n = 0 \/ prv n = 0 then 0 else place (prv n) + 1
  axiom place_nn: forall n [place n]. 0 <= place n < 2000000
  axiom alen_nn: forall m [alen m]. 0 <= alen m < 0x7ffffff0
  axiom owner_def: forall n [owner n]. n <> 0 /\ ntype n = 2 -> owner n <> 0 /\ amap (owner n) <> 0 /\ ntype (owner n) <> 2
  (* the parent, or the element an attribute belongs to *)
  function up (n: loc) : loc = if ntype n = 2 then owner n else par n
  axiom depth_def: forall n [depth n]. 0 <= depth n /\ (n <> 0 /\ up n <> 0 -> depth (up n) < depth n)
  (* the place of an attribute in the list of its element *)
  function aplace (n: loc) : int
  axiom aplace_def: forall n [aplace n]. 0 <= aplace n <= alen (amap (owner n)) /\ (forall k. 0 <= k < aplace n -> item (amap (owner n)) k <> n) /\ (aplace n < alen (amap (owner n)) -> item (amap (owner n)) (aplace n) = n)
  function pos1 (n: loc) : int = if ntype n = 2 then aplace n + 1 else 1000 * (place n + 1)
  function path (n: loc) : seq int
  axiom path_def: forall n [path n]. path n = if n = 0 then empty else cons (pos1 n) (path (up n))
  function dc (n: loc) : loc = if ntype n = 9 then n else odoc n
  (* paths read from the top down, from step i on: the first difference decides, and what is above comes first *)
  function lexlt (a b: seq int) (i: int) : bool
  axiom lexlt_def: forall a b i [lexlt a b i]. 0 <= i <= length a /\ i <= length b -> (lexlt a b i <-> (if i = length b then false else if i = length a then true else let x = a[length a - 1 - i] in let y = b[length b - 1 - i] in if x <> y then x < y else lexlt a b (i + 1)))
  let lemma app_cons (a b: seq int) (k: int) ensures { snoc a k ++ b = a ++ cons k b } = assert { snoc a k ++ b == a ++ cons k b }
  let lemma app_nil (a: seq int) ensures { empty ++ a = a } ensures { a ++ empty = a } = assert { empty ++ a == a }; assert { a ++ empty == a }
  function top (n: loc) : loc
  axiom top_def: forall n [top n]. top n = if up n = 0 then n else top (up n)
'''
    C = u.contracts.append
    for m, e in (('getNodeType', 'ntype this'), ('getParentNode', 'par this'), ('getPreviousSibling', 'prv this'), ('getOwnerDocument', 'odoc this'), ('getAttributes', 'amap this')):
        C(Contract(DM + 'Node::' + m, 'n_' + m, ['this'], requires=['this <> 0'], ensures=['result = ' + e], prove=False))
    C(Contract(DM + 'Attr::getOwnerElement', 'n_owner', ['this'], requires=['this <> 0'], ensures=['result = owner this'], prove=False))
    C(Contract(DM + 'NamedNodeMap::getLength', 'm_len', ['this'], requires=['this <> 0'], ensures=['result = alen this'], prove=False))
    C(Contract(DM + 'NamedNodeMap::item', 'm_item', ['this', 'index'], requires=['this <> 0'], ensures=['result = item this index'], prove=False))
    C(Contract(I + 'node_parent_or_owner', 'parent_or_owner', ['node'], requires=['node <> 0'], ensures=['result = up node']))
    C(Contract(I + 'node_attribute_index', 'attr_index', ['attr'], requires=['attr <> 0', 'ntype attr = 2'], ensures=['result = aplace attr + 1'],
       loops=[Loop(inv=['0 <= p <= pe', 'pe = alen (amap (owner attr))', 'forall k. 0 <= k < p -> item (amap (owner attr)) k <> attr'], var='pe - p')]))
    C(Contract(I + 'node_child_position', 'child_position', ['node'], requires=['node <> 0', 'ntype node <= 12'], ensures=['result = pos1 node'],
       loops=[Loop(inv=['n <> 0', 'pos + 1000 * (place n + 1) = 1000 * (place node + 1)', '0 <= pos', '0 <= place n'], var='place n')]))
    C(Contract(I + 'ultimate_parent', 'ultimate_parent', ['origin'], requires=['origin <> 0'], ensures=['result = top origin', 'result <> 0'],
       loops=[Loop(inv=['n <> 0', 'p = up n', 'top n = top origin'], var='depth n')]))
    C(Contract(I + 'node_position', 'node_position', ['node'], requires=['node <> 0', 'forall n. ntype n <= 12'], ensures=['result = path node', 'forall i. 0 <= i < length result -> 0 <= result[i] < 0x7fffffff'],
       loops=[Loop(inv=['n <> 0', 'path node = pos ++ path n', 'forall i. 0 <= i < length pos -> 0 <= pos[i] < 0x7fffffff'], var='depth n')]))
    C(Contract(I + 'get_owner_document', 'owner_document', ['node'], requires=['node <> 0'], ensures=['result = if ntype node = 9 then node else odoc node']))
    SAME = 'top lhs = top rhs'
    C(Contract(I + 'resolve_different_subtrees', 'different_subtrees', ['lhs', 'rhs'], requires=['lhs <> 0', 'rhs <> 0'], ensures=['ntype (top lhs) = 9 -> result = -1', 'ntype (top lhs) <> 9 /\\ ntype (top rhs) = 9 -> result = 1', 'ntype (top lhs) <> 9 /\\ ntype (top rhs) <> 9 -> result = if top lhs < top rhs then -1 else 1']))
    C(Contract(I + 'compareNodes', 'compareNodes', ['lhs', 'rhs'], requires=['lhs <> 0', 'rhs <> 0', 'forall n. ntype n <= 12'],
      ensures=['lhs = rhs -> result = 0', 'lhs <> rhs /\\ dc lhs = dc rhs /\\ top lhs = top rhs -> (result < 0 <-> lexlt (path lhs) (path rhs) 0) /\\ (result > 0 <-> lexlt (path rhs) (path lhs) 0)',
        'dc lhs = dc rhs /\\ top lhs <> top rhs /\\ ntype (top lhs) = 9 -> result = -1', 'dc lhs = dc rhs /\\ top lhs <> top rhs /\\ ntype (top lhs) <> 9 /\\ ntype (top rhs) = 9 -> result = 1', 'dc lhs = dc rhs /\\ top lhs <> top rhs /\\ ntype (top lhs) <> 9 /\\ ntype (top rhs) <> 9 -> result = if top lhs < top rhs then -1 else 1', 'lhs <> rhs /\\ dc lhs <> dc rhs -> result = if dc lhs < dc rhs then 1 else -1'],
      loops=[Loop(inv=['l.rt_c = path lhs', 'le = { rt_c = path lhs; rt_p = length (path lhs) }', 'r.rt_c = path rhs', 're = { rt_c = path rhs; rt_p = length (path rhs) }', '0 <= l.rt_p <= length (path lhs)', '0 <= r.rt_p <= length (path rhs)', 'l.rt_p = r.rt_p',
        'lexlt (path lhs) (path rhs) 0 <-> lexlt (path lhs) (path rhs) l.rt_p', 'lexlt (path rhs) (path lhs) 0 <-> lexlt (path rhs) (path lhs) l.rt_p'], var='length (path lhs) - l.rt_p')]))
    return u
