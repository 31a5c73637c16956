from cxx2why import *
XM = 'Arabica::XML::'; SX = 'Arabica::SAX::'; W = SX + 'Writer::'; DM = 'Arabica::DOM::'
TUS = [('tu_write.cpp', [XM + '(text|attribute|cdata)_escaper::.*', W + '(characters|ignorableWhitespace|writeAttributes|startElementClose|startElementOpen|startElement|endElement|startCDATA|endCDATA|doIndent|skippedEntity|isDtd|comment|processingInstruction)', DM + r'operator<<', DM + 'StreamImpl::(streamCDATA|streamElement|streamChildren|prefix_mapper|prefix_mapper_pop)',
   SX + '(Attributes|XMLFilterImpl|AttributesImpl)::.*', DM + 'Node::.*', DM + 'Node_impl::.*'])]
def lit(s): return '(' + ''.join('cons %d (' % ord(c) for c in s) + 'empty' + ')' * len(s) + ')'
def base(e):
    while e['k'] in ('ImplicitCastExpr', 'ExplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups') and e.get('c'): e = e['c'][0]
    return e
def qname(e): return (e.get('fn') or {}).get('q', '')
def put(tr, e):
    """stream << a << b ...: each is appended in turn"""
    xs = []; x = e
    while True:
        b = base(x)
        if qname(b) in ('std::operator<<', 'std::basic_ostream::operator<<') and len(b.get('args', [])) == 2: xs.append(b['args'][1]); x = b['args'][0]
        else: break
    if not xs: return None
    o = tr.objloc(base(x), False); t = tr.fresh(); r = 'let %s = %s in ' % (t, o.s)
    for a in reversed(xs):
        if 'std::endl' in repr(base(a)): r += 'out_char %s 10; ' % t; continue
        w = tr.u.wty_safe(a['t']); v = tr.rd(a)
        if w == 'int': r += 'out_char %s %s; ' % (t, atom(v.s))
        elif w == 'str': r += 'out_str %s %s; ' % (t, atom(v.s))
        else: raise Unsupported('stream of ' + str(w))
    return Ex('(' + r + t + ')', True)
def make_unit():
    u = Unit()
    ST, BR = 'escaper_stream_', 'cdata_escaper_brackets_'
    u.heap = {'out': 'str', 'text_escaper_stream_': 'loc', 'cdata_escaper_stream_': 'loc', 'cdata_escaper_brackets_': 'int', 'writer_stream_': 'loc', 'writer_inStartTag_': 'bool', 'writer_inCDATA_': 'bool'}
    u.handle_classes = {'std::basic_ostream': 'loc', DM + 'Node': 'loc', XM + 'cdata_escaper': 'loc'}
    u.local_new = {XM + 'cdata_escaper': 'new_cdata'}
    u.builtins += [('std::operator<<', put), ('std::basic_ostream::operator<<', put)]
    u.spec = r'''
  val out_char (o: loc) (c: int) : unit writes { out } ensures { !out o = snoc ((old !out) o) c } ensures { forall p. p <> o -> !out p = (old !out) p }
  val out_str (o: loc) (s: str) : unit writes { out } ensures { !out o = (old !out) o ++ s } ensures { forall p. p <> o -> !out p = (old !out) p }
  (* a local cdata_escaper: its constructor *)
  val new_cdata (o: loc) : loc writes { cdata_escaper_stream_, cdata_escaper_brackets_ } ensures { !cdata_escaper_stream_ result = o /\ !cdata_escaper_brackets_ result = 0 }
    ensures { forall p. p <> result -> !cdata_escaper_stream_ p = (old !cdata_escaper_stream_) p /\ !cdata_escaper_brackets_ p = (old !cdata_escaper_brackets_) p }
  (* how a character is written as text and in an attribute value *)
  function t1 (c: int) : str = if c = 60 then LT else if c = 62 then GT else if c = 38 then AMP else if c = 13 then CR else cons c empty
  function a1 (c: int) : str = if c = 34 then QUOT else if c = 9 then TAB else if c = 10 then LF else t1 c
  (* ... and in a CDATA section, b of the characters before being ] (two of them at most) *)
  function c1 (b c: int) : str = if c = 13 then CD_CR else if c = 62 && b = 2 then CD_GT else cons c empty
  function b1 (b c: int) : int = if c = 93 then (if b >= 2 then 2 else b + 1) else 0
  function t_n (s: str) (n: int) : str
  axiom t_0: forall s. t_n s 0 = empty
  axiom t_s: forall s n [t_n s (n + 1)]. 0 <= n < length s -> t_n s (n + 1) = t_n s n ++ t1 s[n]
  function a_n (s: str) (n: int) : str
  axiom a_0: forall s. a_n s 0 = empty
  axiom a_s: forall s n [a_n s (n + 1)]. 0 <= n < length s -> a_n s (n + 1) = a_n s n ++ a1 s[n]
  (* the ] so far and the characters written for the first n of s in a CDATA section, entered with b of them *)
  function cb_n (s: str) (b n: int) : int
  axiom cb_0: forall s b. cb_n s b 0 = b
  axiom cb_s: forall s b n [cb_n s b (n + 1)]. 0 <= n < length s -> cb_n s b (n + 1) = b1 (cb_n s b n) s[n]
  function c_n (s: str) (b n: int) : str
  axiom c_0: forall s b. c_n s b 0 = empty
  axiom c_s: forall s b n [c_n s b (n + 1)]. 0 <= n < length s -> c_n s b (n + 1) = c_n s b n ++ c1 (cb_n s b n) s[n]
  (* an attribute list is read through its interface *)
  function ntype (n: loc) : int
  function nvalue (n: loc) : str
  function nname (n: loc) : str
  function at_len (a: loc) : int
  axiom at_len_nn: forall a. 0 <= at_len a
  function at_qname (a: loc) (i: int) : str
  function at_local (a: loc) (i: int) : str
  function at_value (a: loc) (i: int) : str
  function at_one (a: loc) (i: int) : str = (((cons 32 empty ++ (if length (at_qname a i) > 0 then at_qname a i else at_local a i)) ++ cons 61 (cons 34 empty)) ++ a_n (at_value a i) (length (at_value a i))) ++ cons 34 empty
  function at_n (a: loc) (n: int) : str
  axiom at_0: forall a. at_n a 0 = empty
  axiom at_s: forall a n [at_n a (n + 1)]. 0 <= n < at_len a -> at_n a (n + 1) = at_n a n ++ at_one a n
  function esc_text (s: str) : str = t_n s (length s)
  function esc_attr (s: str) : str = a_n s (length s)
  let rec ghost t_pre (s: str) (n m: int) : unit requires { 0 <= n <= m <= length s } ensures { length (t_n s n) <= length (t_n s m) } ensures { forall i. 0 <= i < length (t_n s n) -> (t_n s m)[i] = (t_n s n)[i] } variant { m - n }
  = if n < m then (assert { t_n s ((m - 1) + 1) = t_n s (m - 1) ++ t1 s[m - 1] }; t_pre s n (m - 1))
  let rec ghost a_pre (s: str) (n m: int) : unit requires { 0 <= n <= m <= length s } ensures { length (a_n s n) <= length (a_n s m) } ensures { forall i. 0 <= i < length (a_n s n) -> (a_n s m)[i] = (a_n s n)[i] } variant { m - n }
  = if n < m then (assert { a_n s ((m - 1) + 1) = a_n s (m - 1) ++ a1 s[m - 1] }; a_pre s n (m - 1))
  (* an XML reader at position p of a run of text or of an attribute value: the character it reports (-1: the run ends here or is not
     well formed) and how far it goes on.  A carriage return is read as a line feed, white space in an attribute value as a space. *)
  predicate at1 (o: str) (p c: int) = p < length o /\ o[p] = c
  function rd_amp (o: str) (p: int) : (int, int) =
    if at1 o p 108 && at1 o (p + 1) 116 && at1 o (p + 2) 59 then (60, 4)
    else if at1 o p 103 && at1 o (p + 1) 116 && at1 o (p + 2) 59 then (62, 4)
    else if at1 o p 97 && at1 o (p + 1) 109 && at1 o (p + 2) 112 && at1 o (p + 3) 59 then (38, 5)
    else if at1 o p 113 && at1 o (p + 1) 117 && at1 o (p + 2) 111 && at1 o (p + 3) 116 && at1 o (p + 4) 59 then (34, 6)
    else if at1 o p 35 && at1 o (p + 1) 120 && at1 o (p + 2) 57 && at1 o (p + 3) 59 then (9, 5)
    else if at1 o p 35 && at1 o (p + 1) 120 && at1 o (p + 2) 65 && at1 o (p + 3) 59 then (10, 5)
    else if at1 o p 35 && at1 o (p + 1) 120 && at1 o (p + 2) 68 && at1 o (p + 3) 59 then (13, 5)
    else (-1, 1)
  function rd_text (o: str) (p: int) : (int, int) =
    if o[p] = 38 then rd_amp o (p + 1) else if o[p] = 60 then (-1, 1) else if o[p] = 62 then (-1, 1) else if o[p] = 13 then (10, 1) else (o[p], 1)
  function rd_attr (o: str) (p: int) : (int, int) =
    if o[p] = 38 then rd_amp o (p + 1) else if o[p] = 60 || o[p] = 34 then (-1, 1) else if o[p] = 13 || o[p] = 10 || o[p] = 9 then (32, 1) else (o[p], 1)
  (* reading what the escapers wrote: the n-th step reports the n-th character and ends where the next begins *)
  let ghost text_back (s: str) (n: int) : unit requires { 0 <= n < length s }
    ensures { let p = length (t_n s n) in rd_text (esc_text s) p = (s[n], length (t_n s (n + 1)) - p) }
  = t_pre s n (length s); t_pre s (n + 1) (length s); assert { t_n s (n + 1) = t_n s n ++ t1 s[n] };
    assert { forall k. 0 <= k < length (t1 s[n]) -> (esc_text s)[length (t_n s n) + k] = (t1 s[n])[k] };
    assert { length (t_n s (n + 1)) = length (t_n s n) + length (t1 s[n]) <= length (esc_text s) };
    let ghost o = esc_text s in let ghost p = length (t_n s n) in assert { o[p + 0] = (t1 s[n])[0] };
    if s[n] = 60 || s[n] = 62 then (assert { o[p + 1] = (t1 s[n])[1] }; assert { o[p + 2] = 116 }; assert { o[p + 3] = 59 })
    else if s[n] = 38 || s[n] = 13 then (assert { o[p + 1] = (t1 s[n])[1] }; assert { o[p + 2] = (t1 s[n])[2] }; assert { o[p + 3] = (t1 s[n])[3] }; assert { o[p + 4] = 59 })
  let ghost attr_back (s: str) (n: int) : unit requires { 0 <= n < length s }
    ensures { let p = length (a_n s n) in rd_attr (esc_attr s) p = (s[n], length (a_n s (n + 1)) - p) }
  = a_pre s n (length s); a_pre s (n + 1) (length s); assert { a_n s (n + 1) = a_n s n ++ a1 s[n] };
    assert { forall k. 0 <= k < length (a1 s[n]) -> (esc_attr s)[length (a_n s n) + k] = (a1 s[n])[k] };
    assert { length (a_n s n) + length (a1 s[n]) <= length (esc_attr s) }
  (* ... and in a CDATA section: sections that follow one another, with a character reference between them or not, are one run of text *)
  predicate close3 (o: str) (p: int) = at1 o p 93 /\ at1 o (p + 1) 93 /\ at1 o (p + 2) 62
  predicate open9 (o: str) (p: int) = at1 o p 60 /\ at1 o (p + 1) 33 /\ at1 o (p + 2) 91 /\ at1 o (p + 3) 67 /\ at1 o (p + 4) 68 /\ at1 o (p + 5) 65 /\ at1 o (p + 6) 84 /\ at1 o (p + 7) 65 /\ at1 o (p + 8) 91
  predicate ref5 (o: str) (p: int) = at1 o p 38 /\ at1 o (p + 1) 35 /\ at1 o (p + 2) 120 /\ at1 o (p + 3) 68 /\ at1 o (p + 4) 59
  function rd_cdata (o: str) (p: int) : (int, int) =
    if close3 o p then (if ref5 o (p + 3) && open9 o (p + 8) then (13, 17) else if open9 o (p + 3) && not close3 o (p + 12) then (o[p + 12], 13) else (-1, 3))
    else if o[p] = 13 then (10, 1) else (o[p], 1)
  function cd_out (s: str) : str = c_n s 0 (length s) ++ (cons 93 (cons 93 (cons 62 empty)))
  let rec ghost c_pre (s: str) (n m: int) : unit requires { 0 <= n <= m <= length s } ensures { length (c_n s 0 n) <= length (c_n s 0 m) } ensures { forall i. 0 <= i < length (c_n s 0 n) -> (c_n s 0 m)[i] = (c_n s 0 n)[i] } variant { m - n }
  = if n < m then (assert { c_n s 0 ((m - 1) + 1) = c_n s 0 (m - 1) ++ c1 (cb_n s 0 (m - 1)) s[m - 1] }; c_pre s n (m - 1))
  let rec ghost cb_range (s: str) (n: int) : unit requires { 0 <= n <= length s } ensures { 0 <= cb_n s 0 n <= 2 } variant { n }
  = if n > 0 then (cb_range s (n - 1); assert { cb_n s 0 ((n - 1) + 1) = b1 (cb_n s 0 (n - 1)) s[n - 1] })
  let ghost cb_step (s: str) (m: int) : unit requires { 0 <= m < length s } ensures { cb_n s 0 (m + 1) = b1 (cb_n s 0 m) s[m] } = assert { cb_n s 0 (m + 1) = b1 (cb_n s 0 m) s[m] }
  (* what stands where the n-th character is written *)
  let ghost cd_here (s: str) (n: int) : unit requires { 0 <= n < length s }
    ensures { c_n s 0 (n + 1) = c_n s 0 n ++ c1 (cb_n s 0 n) s[n] }
    ensures { length (c_n s 0 (n + 1)) = length (c_n s 0 n) + length (c1 (cb_n s 0 n) s[n]) <= length (c_n s 0 (length s)) }
    ensures { forall k. 0 <= k < length (c1 (cb_n s 0 n) s[n]) -> (cd_out s)[length (c_n s 0 n) + k] = (c1 (cb_n s 0 n) s[n])[k] }
  = assert { c_n s 0 (n + 1) = c_n s 0 n ++ c1 (cb_n s 0 n) s[n] }; c_pre s n (length s); c_pre s (n + 1) (length s);
    assert { length (c_n s 0 (n + 1)) = length (c_n s 0 n) + length (c1 (cb_n s 0 n) s[n]) };
    assert { forall k. 0 <= k < length (c1 (cb_n s 0 n) s[n]) -> (c_n s 0 (n + 1))[length (c_n s 0 n) + k] = (c1 (cb_n s 0 n) s[n])[k] };
    assert { forall k. 0 <= k < length (c_n s 0 (length s)) -> (cd_out s)[k] = (c_n s 0 (length s))[k] }
  let ghost lit_cr () : unit ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[0] = 93 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[1] = 93 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[2] = 62 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[3] = 38 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[4] = 35 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[5] = 120 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[6] = 68 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[7] = 59 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[8] = 60 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[9] = 33 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[10] = 91 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[11] = 67 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[12] = 68 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[13] = 65 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[14] = 84 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[15] = 65 } ensures { (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty))))))))))))))))))[16] = 91 } ensures { length (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty)))))))))))))))))) = 17 } = ()
  let ghost lit_gt () : unit ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[0] = 93 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[1] = 93 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[2] = 62 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[3] = 60 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[4] = 33 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[5] = 91 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[6] = 67 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[7] = 68 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[8] = 65 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[9] = 84 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[10] = 65 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[11] = 91 } ensures { (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty))))))))))))))[12] = 62 } ensures { length (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty)))))))))))))) = 13 } = ()
  let ghost cd_at (s: str) (n k: int) : unit requires { 0 <= n < length s } requires { 0 <= k < length (c1 (cb_n s 0 n) s[n]) } ensures { (cd_out s)[length (c_n s 0 n) + k] = (c1 (cb_n s 0 n) s[n])[k] } = cd_here s n
  let ghost cd_end (s: str) : unit ensures { close3 (cd_out s) (length (c_n s 0 (length s))) } ensures { length (cd_out s) = length (c_n s 0 (length s)) + 3 }
  = assert { forall k. 0 <= k < 3 -> (cd_out s)[length (c_n s 0 (length s)) + k] = ((cons 93 (cons 93 (cons 62 empty))))[k] }
  (* the first character written for the n-th, or for the end: a > never follows two ] *)
  let ghost cd_first (s: str) (n: int) : unit requires { 0 <= n <= length s }
    ensures { let c = (cd_out s)[length (c_n s 0 n)] in if n = length s || s[n] = 13 || (s[n] = 62 && cb_n s 0 n = 2) then c = 93 else c = s[n] }
    ensures { length (c_n s 0 n) < length (cd_out s) }
  = cd_end s; if n < length s then (cd_here s n; assert { (c1 (cb_n s 0 n) s[n])[0] = (cd_out s)[length (c_n s 0 n) + 0] })
  let ghost cdata_back (s: str) (n: int) : unit requires { 0 <= n < length s }
    ensures { let p = length (c_n s 0 n) in rd_cdata (cd_out s) p = (s[n], length (c_n s 0 (n + 1)) - p) }
  = let ghost p = length (c_n s 0 n) in
    cd_here s n; cd_end s; cb_range s n;
    if s[n] = 13 then (lit_cr (); assert { c1 (cb_n s 0 n) s[n] = (cons 93 (cons 93 (cons 62 (cons 38 (cons 35 (cons 120 (cons 68 (cons 59 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (empty)))))))))))))))))) }; cd_at s n 0; assert { (cd_out s)[p + 0] = 93 }; cd_at s n 1; assert { (cd_out s)[p + 1] = 93 }; cd_at s n 2; assert { (cd_out s)[p + 2] = 62 }; cd_at s n 3; assert { (cd_out s)[p + 3] = 38 }; cd_at s n 4; assert { (cd_out s)[p + 4] = 35 }; cd_at s n 5; assert { (cd_out s)[p + 5] = 120 }; cd_at s n 6; assert { (cd_out s)[p + 6] = 68 }; cd_at s n 7; assert { (cd_out s)[p + 7] = 59 }; cd_at s n 8; assert { (cd_out s)[p + 8] = 60 }; cd_at s n 9; assert { (cd_out s)[p + 9] = 33 }; cd_at s n 10; assert { (cd_out s)[p + 10] = 91 }; cd_at s n 11; assert { (cd_out s)[p + 11] = 67 }; cd_at s n 12; assert { (cd_out s)[p + 12] = 68 }; cd_at s n 13; assert { (cd_out s)[p + 13] = 65 }; cd_at s n 14; assert { (cd_out s)[p + 14] = 84 }; cd_at s n 15; assert { (cd_out s)[p + 15] = 65 }; cd_at s n 16; assert { (cd_out s)[p + 16] = 91 }; assert { close3 (cd_out s) p }; assert { ref5 (cd_out s) (p + 3) }; assert { open9 (cd_out s) (p + 8) })
    else if s[n] = 62 && cb_n s 0 n = 2 then (lit_gt (); assert { c1 (cb_n s 0 n) s[n] = (cons 93 (cons 93 (cons 62 (cons 60 (cons 33 (cons 91 (cons 67 (cons 68 (cons 65 (cons 84 (cons 65 (cons 91 (cons 62 (empty)))))))))))))) }; cd_at s n 0; assert { (cd_out s)[p + 0] = 93 }; cd_at s n 1; assert { (cd_out s)[p + 1] = 93 }; cd_at s n 2; assert { (cd_out s)[p + 2] = 62 }; cd_at s n 3; assert { (cd_out s)[p + 3] = 60 }; cd_at s n 4; assert { (cd_out s)[p + 4] = 33 }; cd_at s n 5; assert { (cd_out s)[p + 5] = 91 }; cd_at s n 6; assert { (cd_out s)[p + 6] = 67 }; cd_at s n 7; assert { (cd_out s)[p + 7] = 68 }; cd_at s n 8; assert { (cd_out s)[p + 8] = 65 }; cd_at s n 9; assert { (cd_out s)[p + 9] = 84 }; cd_at s n 10; assert { (cd_out s)[p + 10] = 65 }; cd_at s n 11; assert { (cd_out s)[p + 11] = 91 }; cd_at s n 12; assert { (cd_out s)[p + 12] = 62 }; assert { close3 (cd_out s) p }; assert { open9 (cd_out s) (p + 3) })
    else begin
      assert { (cd_out s)[p + 0] = s[n] };
      if s[n] = 93 then begin
        cd_first s (n + 1); assert { length (c_n s 0 (n + 1)) = p + 1 }; cb_step s n;
        if n + 1 < length s then (cd_here s (n + 1);
          if s[n + 1] = 93 then (cd_first s (n + 2); cb_step s (n + 1); assert { cb_n s 0 (n + 2) = 2 }; assert { length (c_n s 0 (n + 2)) = p + 2 })
          else if s[n + 1] = 13 then assert { (cd_out s)[(p + 1) + 1] = 93 }
          else if s[n + 1] = 62 && cb_n s 0 (n + 1) = 2 then assert { (cd_out s)[(p + 1) + 1] = 93 })
        else assert { (cd_out s)[p + 2] = 93 }
      end;
      assert { not close3 (cd_out s) p }
    end
  val each_text (o: loc) (s: str) : unit writes { out } ensures { !out o = (old !out) o ++ esc_text s } ensures { forall p. p <> o -> !out p = (old !out) p }
  val each_attr (o: loc) (s: str) : unit writes { out } ensures { !out o = (old !out) o ++ esc_attr s } ensures { forall p. p <> o -> !out p = (old !out) p }
'''
    for k, s in (('LT', '&lt;'), ('GT', '&gt;'), ('AMP', '&amp;'), ('QUOT', '&quot;'), ('TAB', '&#x9;'), ('LF', '&#xA;'), ('CR', '&#xD;'), ('CD_CR', ']]>&#xD;<![CDATA['), ('CD_GT', ']]><![CDATA[>')): u.spec = re.sub(r'\b%s\b' % k, lit(s), u.spec)

    def each(tr, e):
        # std::for_each over a whole string with one of the escapers
        if len(e['args']) != 3: return None
        def peel(a, t):
            a = base(a)
            while a['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(a.get('args', [])) == 1 and re.search(t, a.get('t', '')) and re.search(t, base(a['args'][0]).get('t', '')): a = base(a['args'][0])
            return a
        def over(a, n):
            b = peel(a, '__normal_iterator|iterator')
            if not qname(b).endswith(('::' + n, '::c' + n)): return None
            return b['args'][0] if b.get('args') else b.get('obj')
        x, y = over(e['args'][0], 'begin'), over(e['args'][1], 'end')
        if x is None or y is None: return None
        x, y = base(x), base(y)
        if x['k'] != 'DeclRefExpr' or x.get('id') != y.get('id'): return None
        f = peel(e['args'][2], '_escaper')
        if f['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') or len(f.get('args', [])) != 1: return None
        k = 'each_attr' if 'attribute_escaper' in f['t'] else 'each_text' if 'text_escaper' in f['t'] else None
        if k is None: return None
        o = tr.objloc(base(f['args'][0]), False); v = tr.rd(x)
        return Ex('(%s %s %s)' % (k, atom(o.s), atom(v.s)), True)
    u.builtins += [('std::for_each', each)]
    def C(*a, **k):
        k.setdefault('writes', ['out']); u.contracts.append(Contract(*a, **k))
    S = '(!text_escaper_stream_ this)'; CS = '(!cdata_escaper_stream_ this)'; BR = 'cdata_escaper_brackets_'
    def only(o): return 'forall p. p <> %s -> !out p = (old !out) p' % o
    C(XM + 'text_escaper::operator()', 'text_char', ['this', 'ch'], ensures=['!out %s == (old !out) %s ++ t1 ch' % (S, S), only(S)])
    C(XM + 'attribute_escaper::operator()', 'attr_char', ['this', 'ch'], ensures=['!out %s == (old !out) %s ++ a1 ch' % (S, S), only(S)])
    OB = 'forall p. p <> this -> !%s p = (old !%s) p' % (BR, BR)
    C(XM + 'cdata_escaper::start', 'cdata_start', ['this'], ensures=['!out %s == (old !out) %s ++ %s' % (CS, CS, lit('<![CDATA[')), '!%s this = 0' % BR, only(CS), OB], writes=['out', BR])
    C(XM + 'cdata_escaper::end', 'cdata_end', ['this'], ensures=['!out %s == (old !out) %s ++ %s' % (CS, CS, lit(']]>')), only(CS)])
    C(XM + 'cdata_escaper::operator()', 'cdata_char', ['this', 'ch'], requires=['0 <= !%s this <= 2' % BR], ensures=['!out %s == (old !out) %s ++ c1 ((old !%s) this) ch' % (CS, CS, BR), '!%s this = b1 ((old !%s) this) ch' % (BR, BR), only(CS), OB], writes=['out', BR])
    # the parent filter hands events on; it does not write on this stream
    for n in ('characters', 'ignorableWhitespace', 'startElement', 'endElement', 'startCDATA', 'endCDATA', 'skippedEntity', 'comment', 'processingInstruction'):
        C(SX + 'XMLFilterImpl::' + n, 'f_' + n, ['this'] + {'characters': ['ch'], 'ignorableWhitespace': ['ch'], 'startElement': ['u', 'l', 'q', 'a'], 'endElement': ['u', 'l', 'q'], 'skippedEntity': ['n'], 'comment': ['t'], 'processingInstruction': ['t', 'd']}.get(n, []), prove=False, writes=[])
    WS = '(!%s this)' % 'writer_stream_'
    T, IC, CD = 'writer_inStartTag_', 'writer_inCDATA_', '(!writer_cdata_ this)'
    OT = 'forall p. p <> this -> !%s p = (old !%s) p' % (T, T)
    CL = '(if (old !%s) this then (snoc ((old !out) %s) 62) else (old !out) %s)' % (T, WS, WS)
    C(W + 'startElementClose', 'w_close', ['this'], ensures=['!out %s == %s' % (WS, CL), 'not !%s this' % T, only(WS), OT], writes=['out', T])
    CB = '((old !%s) %s)' % (BR, CD)
    CS = '(!cdata_escaper_stream_ %s)' % CD
    OBC = 'forall p. p <> %s -> !%s p = (old !%s) p' % (CD, BR, BR)
    for n, f, r in (('getLength', 'at_len', []), ('getQName', 'at_qname', ['i']), ('getLocalName', 'at_local', ['i']), ('getValue', 'at_value', ['i'])):
        C(SX + 'Attributes::' + n, 'i_' + f, ['this'] + r, prove=False, writes=[], requires=['0 <= i < at_len this'] if r else [], ensures=['result = %s this%s' % (f, ' i' if r else '')] + ([] if r else ['0 <= result < 0x7fffffff']), **({'sig': r'\((int|const int|unsigned int)\)'} if r else {}))
    C(W + 'writeAttributes', 'w_attributes', ['this', 'atts'], ensures=['!out %s == (old !out) %s ++ at_n atts (at_len atts)' % (WS, WS), only(WS)], writes=['out'],
      loops=[Loop(inv=['0 <= i <= at_len atts', '!out %s == (old !out) %s ++ at_n atts i' % (WS, WS), only(WS)], var='at_len atts - i')])
    SAME = '%s = %s' % (CS, WS)
    C(W + 'startCDATA', 'w_startCDATA', ['this'], requires=[SAME], ensures=['!out %s == %s ++ %s' % (WS, CL, lit('<![CDATA[')), '!%s this' % IC, '!%s %s = 0' % (BR, CD), only(WS)], writes=['out', T, BR, IC])
    C(W + 'endCDATA', 'w_endCDATA', ['this'], requires=[SAME], ensures=['!out %s == %s ++ %s' % (WS, CL, lit(']]>')), 'not (!%s this)' % IC, only(WS)], writes=['out', T, IC])
    C(W + 'characters', 'w_characters', ['this', 'ch'], requires=[SAME, '0 <= !%s %s <= 2' % (BR, CD)],
      ensures=['not (!%s this) -> !out %s == %s ++ esc_text ch' % (IC, WS, CL), '!%s this -> !out %s == %s ++ c_n ch %s (length ch)' % (IC, WS, CL, CB), '!%s this -> !%s %s = cb_n ch %s (length ch)' % (IC, BR, CD, CB), only(WS), OBC], writes=['out', T, BR],
      loops=[Loop(inv=['i.it_c = ch', 'e.it_c = ch', 'e.it_p = length ch', '0 <= i.it_p <= length ch', '0 <= !%s %s <= 2' % (BR, CD), '!out %s == %s ++ c_n ch %s i.it_p' % (WS, CL, CB), '!%s %s = cb_n ch %s i.it_p' % (BR, CD, CB), only(WS), OBC], var='length ch - i.it_p')])
    # the DOM side: a text node
    for n, e in (('getNodeType', 'result = ntype this'), ('getNodeValue', 'result = nvalue this'), ('getNodeName', 'result = nname this')):
        C(DM + 'Node::' + n, 'n_' + n, ['this'], prove=False, writes=[], ensures=[e])
    for n in ('streamElement', 'streamChildren'):
        C(DM + 'StreamImpl::' + n, n, ['stream', 'node'], prove=False, writes=['out', BR, 'cdata_escaper_stream_'])
    C(DM + 'StreamImpl::streamCDATA', 'streamCDATA', ['stream', 'node'], writes=['out', BR, 'cdata_escaper_stream_'], ensures=['!out stream == (((old !out) stream ++ %s) ++ c_n (nvalue node) 0 (length (nvalue node))) ++ %s' % (lit('<![CDATA['), lit(']]>')), only('stream')],
      loops=[Loop(inv=['i.it_c = nvalue node', 'e.it_c = nvalue node', 'e.it_p = length (nvalue node)', '0 <= i.it_p <= length (nvalue node)', '!cdata_escaper_stream_ cdata = stream', '0 <= !%s cdata <= 2' % BR, '!%s cdata = cb_n (nvalue node) 0 i.it_p' % BR, '!out stream == ((old !out) stream ++ %s) ++ c_n (nvalue node) 0 i.it_p' % lit('<![CDATA['), only('stream')], var='length (nvalue node) - i.it_p')])
    def wr(t, *xs): return 'ntype node = %d -> !out stream == ' % t + '(' * len(xs) + '(old !out) stream' + ''.join(' ++ %s)' % x for x in xs)
    C(DM + 'operator<<', 'dom_node', ['stream', 'node'], sig=r'const (Arabica::)?(DOM::)?Node<', writes=['out', BR, 'cdata_escaper_stream_'], ensures=[wr(3, 'esc_text (nvalue node)'), wr(5, lit('&'), 'nname node', lit(';')),
      wr(7, lit('<?'), 'nname node', lit(' '), 'nvalue node', lit('?>')), wr(8, lit('<!--'), 'nvalue node', lit('-->')), '(ntype node = 3 \\/ ntype node = 5 \\/ ntype node = 7 \\/ ntype node = 8) -> ' + only('stream')])
    return u
