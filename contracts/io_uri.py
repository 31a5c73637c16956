from cxx2why import *
U = 'Arabica::io::URI::'
TUS = [('tu_uri.cpp', [U + '.*', 'fixSlashes', 'compatible_schemes', 'scheme_length', 'starts_authority', 'path_end', 'remove_dot_segments', 'wellKnownPort', 'is_alpha'])]
def f(x, o='this'): return '%s.uRI_%s_' % (o, x)
def make_unit():
    u = Unit()
    u.strlen = True
    u.value_classes = {'Arabica::io::URI'}
    u.spec = r'''
  predicate alpha (c: int) = 0x61 <= c <= 0x7A \/ 0x41 <= c <= 0x5A
  predicate digit (c: int) = 0x30 <= c <= 0x39
  predicate scheme_char (c: int) = alpha c \/ digit c \/ c = 0x2B \/ c = 0x2D \/ c = 0x2E
  (* RFC 3986 3.1: scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ), then ":" *)
  predicate has_scheme (s: str) (d: int) = 0 < d < length s /\ s[d] = 0x3A /\ alpha s[0] /\ forall i. 0 < i < d -> scheme_char s[i]
  function scheme_len (s: str) : int
  axiom scheme_len_some: forall s d [has_scheme s d]. has_scheme s d -> scheme_len s = d
  axiom scheme_len_none: forall s [scheme_len s]. (forall d. not has_scheme s d) -> scheme_len s = 0
  lemma one_scheme: forall s d e [has_scheme s d, has_scheme s e]. has_scheme s d -> has_scheme s e -> d = e
  predicate slashes (s: str) (i: int) = i + 1 < length s /\ s[i] = 0x2F /\ s[i + 1] = 0x2F
  predicate query_char (c: int) = c = 0x3F \/ c = 0x23
  predicate path_ends (s: str) (e: int) = 0 <= e <= length s /\ (forall i. 0 <= i < e -> not query_char s[i]) /\ (e < length s -> query_char s[e])
  predicate authority_ends (s: str) (b e: int) = b <= e <= length s /\ (forall i. b <= i < e -> not query_char s[i] /\ s[i] <> 0x2F) /\ (e < length s -> query_char s[e] \/ s[e] = 0x2F)
  (* the host and port of the authority s[b .. e]: the port is what digits follow its last colon *)
  predicate port_at (s: str) (b p e: int) = b <= p <= e /\ (forall i. p <= i < e -> digit s[i]) /\ (p > b -> not digit s[p - 1])
  predicate host_port (s: str) (b e: int) (host port: str) =
    exists p. port_at s b p e /\
      if p > b /\ s[p - 1] = 0x3A then host = s[b .. p - 1] /\ port = s[p .. e] else host = s[b .. e] /\ port = empty
  predicate file_scheme (s: str) = s = snoc (snoc (snoc (snoc empty 0x66) 0x69) 0x6C) 0x65
  predicate unbackslash (a b: str) = length a = length b /\ forall i. 0 <= i < length a -> b[i] = if a[i] = 0x5C then 0x2F else a[i]
  predicate authority (s: str) (b: int) (host port path: str) = exists e. authority_ends s b e /\ host_port s b e host port /\ path = s[e .. length s]
  predicate absolute_uri (scheme host path: str) = length scheme > 0 /\ length host > 0 \/ file_scheme scheme /\ length path > 0 /\ (path[0] = 0x2F \/ length path > 1 /\ path[1] = 0x3A)
  predicate parsed (s scheme host port path: str) =
    let d = scheme_len s in
    if d = 0 then scheme = empty /\ if slashes s 0 then authority s 2 host port path else host = empty /\ port = empty /\ unbackslash s path
    else if d = 1 then file_scheme scheme /\ host = empty /\ port = empty /\ unbackslash s path
    else scheme = s[0 .. d] /\ if slashes s (d + 1) then authority s (d + 3) host port path else host = empty /\ port = empty /\ path = s[d + 1 .. length s]
  predicate merged (base host rel out: str) =
    if length rel = 0 || rel[0] = 0x23 then exists h. 0 <= h <= length base /\ (forall i. 0 <= i < h -> base[i] <> 0x23) /\ (h < length base -> base[h] = 0x23) /\ out = base[0 .. h] ++ rel
    else exists e. path_ends base e /\ if rel[0] = 0x3F then out = base[0 .. e] ++ rel
      else exists k. 0 <= k <= e /\ (forall i. k <= i < e -> base[i] <> 0x2F) /\ (k > 0 -> base[k - 1] = 0x2F) /\ if k = 0 && length host > 0 then out == cons 0x2F rel else out = base[0 .. k] ++ rel
  constant http : str = snoc (snoc (snoc (snoc empty 0x68) 0x74) 0x74) 0x70
  function default_port (scheme: str) : str = if scheme = http then snoc (snoc empty 0x38) 0x30 else if scheme = snoc http 0x73 then snoc (snoc (snoc empty 0x34) 0x34) 0x33 else snoc empty 0x30
  function written (scheme host port path: str) (abs: bool) : str =
    (if length scheme > 0 then snoc scheme 0x3A else empty) ++ (if abs || length host > 0 then snoc (snoc empty 0x2F) 0x2F else empty) ++
    (if length host > 0 then host ++ (if length port > 0 then cons 0x3A port else empty) else empty) ++ path
  (* --- dot segments, as a stack of segments (RFC 3986 5.2.4; a relative path keeps what climbs above its start) *)
  function seg_end (p: str) (b: int) : int
  axiom seg_end_b: forall p b [seg_end p b]. 0 <= b <= length p -> b <= seg_end p b <= length p
  axiom seg_end_i: forall p b i [seg_end p b, p[i]]. 0 <= b <= i < seg_end p b -> p[i] <> 0x2F
  axiom seg_end_e: forall p b [seg_end p b]. 0 <= b <= length p -> seg_end p b < length p -> p[seg_end p b] = 0x2F
  function joined (root: str) (k: seq str) (n: int) : str
  axiom joined_0: forall r k n [joined r k n]. n <= 0 -> joined r k n = r
  axiom joined_s: forall r k n [joined r k n]. n > 0 -> joined r k n = snoc (joined r k (n - 1) ++ k[n - 1]) 0x2F
  constant dot : str = snoc empty 0x2E
  constant dotdot : str = snoc (snoc empty 0x2E) 0x2E
  function walk (root p: str) (b: int) (k: seq str) : str
  axiom walk_end: forall r p b k [walk r p b k]. b >= length p -> walk r p b k = joined r k (length k)
  axiom walk_seg: forall r p b k [walk r p b k]. 0 <= b < length p -> walk r p b k =
    let e = seg_end p b in let s = p[b .. e] in let last = (e = length p) in
    if s = dot then walk r p (e + 1) k
    else if s = dotdot /\ length k > 0 /\ k[length k - 1] <> dotdot then walk r p (e + 1) k[0 .. length k - 1]
    else if s = dotdot /\ length r > 0 then walk r p (e + 1) k
    else if last then joined r k (length k) ++ s
    else walk r p (e + 1) (snoc k s)
  let lemma seg_end_u (p: str) (b e: int) requires { 0 <= b <= e <= length p } requires { forall i. b <= i < e -> p[i] <> 0x2F } requires { e < length p -> p[e] = 0x2F } ensures { e = seg_end p b } = ()
  let rec lemma joined_frame (r: str) (k m: seq str) (n: int) requires { n <= length k /\ n <= length m } requires { forall i. 0 <= i < n -> k[i] = m[i] } ensures { joined r k n = joined r m n } variant { n }
    = if n > 0 then joined_frame r k m (n - 1)
  let rec lemma joined_len (r: str) (k: seq str) (n: int) requires { 0 <= n <= length k } ensures { length (joined r k n) >= length r + n } variant { n } = if n > 0 then joined_len r k (n - 1)
  let lemma joined_cut (r: str) (k: seq str) (n: int) requires { 0 < n <= length k }
    ensures { (joined r k n)[0 .. length (joined r k (n - 1))] = joined r k (n - 1) }
    ensures { (joined r k n)[length (joined r k (n - 1)) .. length (joined r k n)] = snoc k[n - 1] 0x2F }
    ensures { length (joined r k n) = length (joined r k (n - 1)) + length k[n - 1] + 1 }
    = assert { (joined r k n)[0 .. length (joined r k (n - 1))] == joined r k (n - 1) };
      assert { (joined r k n)[length (joined r k (n - 1)) .. length (joined r k n)] == snoc k[n - 1] 0x2F }
  let lemma joined_push (r: str) (k: seq str) (s: str) ensures { joined r (snoc k s) (length k + 1) = snoc (joined r k (length k) ++ s) 0x2F }
    = joined_frame r k (snoc k s) (length k); assert { (snoc k s)[length k] = s }
  let lemma joined_pop (r: str) (k: seq str) requires { length k > 0 } ensures { joined r k[0 .. length k - 1] (length k - 1) = joined r k (length k - 1) }
    = joined_frame r k k[0 .. length k - 1] (length k - 1)
  let lemma snoc_one (a b: str) (c: int) requires { snoc a c = snoc b c } ensures { a = b }
    = assert { forall i. 0 <= i < length a -> a[i] = (snoc a c)[i] }; assert { forall i. 0 <= i < length b -> b[i] = (snoc b c)[i] }; assert { length a = length (snoc a c) - 1 = length b }; assert { a == b }
  function undotted (p: str) : str = let n = if length p > 0 && p[0] = 0x2F then 1 else 0 in walk p[0 .. n] p n empty
  predicate normal (m p: str) = exists e. path_ends m e /\ p = undotted m[0 .. e] ++ m[e .. length m]
'''
    C = u.contracts.append
    C(Contract('is_alpha', 'is_alpha', ['c'], ensures=['result <-> alpha c']))
    C(Contract('scheme_length', 'scheme_length', ['uri'], ensures=['result > 0 -> has_scheme uri result', 'result = 0 -> forall d. not has_scheme uri d', '0 <= result < 0x7FFFFFFFFFFFFFFF', 'result = scheme_len uri'],
       loops=[Loop(inv=['d < 0x7FFFFFFFFFFFFFFF', '0 <= d <= length uri', 'd > 0 -> alpha uri[0]', 'forall i. 0 <= i < d -> scheme_char uri[i]'], var='length uri - d')]))
    C(Contract('starts_authority', 'starts_authority', ['uri', 'from'], requires=['0 <= from <= length uri'], ensures=['result <-> slashes uri from']))
    C(Contract('path_end', 'path_end', ['path'], ensures=['path_ends path result', 'result < 0x7FFFFFFFFFFFFFFF'],
       loops=[Loop(inv=['end_v < 0x7FFFFFFFFFFFFFFF', '0 <= end_v <= length path', 'forall i. 0 <= i < end_v -> not query_char path[i]'], var='length path - end_v')]))
    C(Contract('fixSlashes', 'fixSlashes', ['path'], ensures=['unbackslash (old !path) !path'],
       loops=[Loop(inv=['length path = length (old path)', '0 <= i', 'i = npos \\/ i < length path /\\ path[i] = 0x5C', 'forall j. 0 <= j < (if i = npos then length path else i) -> path[j] = if (old path)[j] = 0x5C then 0x2F else (old path)[j]',
                   'i <> npos -> forall j. i <= j < length path -> path[j] = (old path)[j]'], var='if i = npos then 0 else length path - i + 1')]))
    C(Contract('compatible_schemes', 'compatible_schemes', ['scheme', 'relative'], ensures=['result <-> (scheme = empty /\\ file_scheme relative) \\/ relative = empty \\/ scheme = relative']))
    R = 'path[0 .. root]'
    R = 'path[0 .. root]'
    C(Contract('remove_dot_segments', 'remove_dots', ['path'], ensures=['result = undotted path'], fine=True,
       loops=[Loop(ghost_pre='let ghost k = ref (empty: seq str) in let ghost k0 = ref (empty: seq str) in',
                inv=['0 <= root <= length path', 'root = if length path > 0 && path[0] = 0x2F then 1 else 0', 'root <= from <= length path + 1',
                     'from <= length path -> out = joined %s !k (length !k) /\\ undotted path = walk %s path from !k' % (R, R), 'from > length path -> out = undotted path',
                     'forall i j. 0 <= i < length !k -> 0 <= j < length !k[i] -> !k[i][j] <> 0x2F'],
                var='length path + 1 - from'),
              Loop(inv=['from <= end_v <= length path', 'end_v < 0x7FFFFFFFFFFFFFFF', 'forall j. from <= j < end_v -> path[j] <> 0x2F'], var='length path - end_v',
                after='''seg_end_u path from end_v; k0 := !k; joined_len path[0 .. root] !k (length !k); (if length !k > 0 then (joined_len path[0 .. root] !k (length !k - 1); joined_cut path[0 .. root] !k (length !k); joined_pop path[0 .. root] !k));
                  (let s = substr path from (end_v - from) in
                  if str_eq s (snoc (snoc empty 0x2E) 0x2E) && length !k > 0 && not (str_eq !k[length !k - 1] (snoc (snoc empty 0x2E) 0x2E)) then (k := !k[0 .. length !k - 1])
                  else if str_eq s (snoc empty 0x2E) || str_eq s (snoc (snoc empty 0x2E) 0x2E) && root > 0 || end_v = length path then () else (joined_push path[0 .. root] !k s; k := snoc !k s))'''),
              Loop(inv=['root <= last <= length out', 'length !k0 > 0 -> length (joined %s !k0 (length !k0 - 1)) <= last < length out' % R, 'length !k0 = 0 -> last = root', 'forall j. last <= j < length out - 1 -> out[j] <> 0x2F'], var='last',
                after='assert { length !k0 > 0 -> last = length (joined path[0 .. root] !k0 (length !k0 - 1)) }')]))
    H, PT, P, SC, AB = [f(x, '!this') for x in ('host', 'port', 'path', 'scheme', 'is_absolute')]
    oH, oPT, oP, oSC = [f(x, '(old !this)') for x in ('host', 'port', 'path', 'scheme')]
    KEEP = lambda *xs: ' /\\ '.join('%s = %s' % (f(x, '!this'), f(x, '(old !this)')) for x in xs)
    C(Contract(U + 'parseAuthority', 'parseAuthority', ['this', 'uri', 'from'], requires=['0 <= from <= length uri', f('port', '!this') + ' = empty'],
       ensures=['authority uri from %s %s %s' % (H, PT, P), KEEP('scheme', 'is_absolute')],
       loops=[Loop(inv=['from <= end_v <= length uri', 'forall i. from <= i < end_v -> not query_char uri[i] /\\ uri[i] <> 0x2F'], var='length uri - end_v'),
              Loop(inv=['from <= port <= end_v', 'forall i. port <= i < end_v -> digit uri[i]'], var='port', ghost_pre='assert { authority_ends uri from end_v }', after='assert { port_at uri from port end_v }')]))
    C(Contract(U + 'set_absolute', 'set_absolute', ['this'], ensures=['%s <-> absolute_uri %s %s %s' % (AB, SC, H, P), KEEP('scheme', 'host', 'port', 'path')]))
    EMPTY = ' /\\ '.join(f(x, '!this') + ' = empty' for x in ('scheme', 'host', 'port', 'path'))
    PARSED = 'parsed uri %s %s %s %s' % (SC, H, PT, P)
    C(Contract(U + 'parse_uri', 'parse_uri', ['this', 'uri'], requires=[EMPTY], ensures=[PARSED, KEEP('is_absolute')]))
    C(Contract(U + 'parse', 'parse', ['this', 'uri'], requires=[EMPTY], ensures=[PARSED, '%s <-> absolute_uri %s %s %s' % (AB, SC, H, P)]))
    C(Contract(U + 'combinePath', 'combinePath', ['this', 'relPath'], ensures=['merged %s %s relPath %s' % (oP, oH, P), KEEP('scheme', 'host', 'port', 'is_absolute')],
       loops=[Loop(inv=['0 <= keep < 0x7FFFFFFFFFFFFFFF', 'exists e. path_ends this.uRI_path_ e /\\ keep <= e /\\ forall i. keep <= i < e -> this.uRI_path_[i] <> 0x2F'], var='keep')]))
    R = lambda x: f(x, '(old !relative)')
    ABS = '(%s \\/ not (%s = empty /\\ file_scheme %s \\/ %s = empty \\/ %s = %s))' % (f('is_absolute', '(old !relative)'), oSC, R('scheme'), R('scheme'), oSC, R('scheme'))
    C(Contract(U + 'absolutise', 'absolutise', ['this', 'relative'], ensures=[
       'if %s then %s = %s /\\ %s = %s /\\ %s = %s /\\ normal %s %s else %s = %s /\\ if length %s > 0 then %s = %s /\\ %s = %s /\\ normal %s %s else %s = %s /\\ %s = %s /\\ if length %s > 0 && (%s)[0] = 0x2F then normal %s %s else exists m. merged %s %s %s m /\\ normal m %s'
         % (ABS, SC, R('scheme'), H, R('host'), PT, R('port'), R('path'), P, SC, oSC, R('host'), H, R('host'), PT, R('port'), R('path'), P, H, oH, PT, oPT, R('path'), R('path'), R('path'), P, oP, oH, R('path'), P),
       '%s <-> absolute_uri %s %s %s' % (AB, SC, H, P)]))
    t = lambda x: f(x)
    C(Contract('wellKnownPort', 'wellKnownPort', ['scheme'], ensures=['result = default_port scheme']))
    C(Contract(U + 'port', 'uri_port', ['this'], ensures=['result = if length %s = 0 then default_port %s else %s' % (t('port'), t('scheme'), t('port'))]))
    C(Contract(U + 'as_string', 'as_string', ['this'], ensures=['result == written %s' % ' '.join(t(x) for x in ('scheme', 'host', 'port', 'path', 'is_absolute'))]))
    for g in ('scheme', 'host', 'path'): C(Contract(U + g, 'uri_' + g, ['this'], ensures=['result = ' + t(g)]))
    C(Contract(U + 'is_absolute', 'uri_is_absolute', ['this'], ensures=['result = ' + t('is_absolute')]))
    C(Contract(U + 'operator==', 'uri_eq', ['this', 'rhs'], ensures=['result <-> this = rhs']))
    C(Contract(U + 'operator!=', 'uri_ne', ['this', 'rhs'], ensures=['result <-> this <> rhs']))
    C(Contract(U + 'operator=', 'uri_assign', ['this', 'rhs'], ensures=['!this = rhs']))
    C(Contract(U + 'swap', 'uri_swap', ['this', 'rhs'], ensures=['!this = old !rhs', '!rhs = old !this']))
    return u
