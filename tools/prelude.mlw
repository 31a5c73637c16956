(* Sequences: a small triggered theory.  Every axiom below is proved of Why3's own
   seq.Seq by the refinement obligations in prelude_sound.mlw. *)
module Sq
  use export int.Int
  type seq 'a
  val function length (s: seq 'a) : int
  val function ([]) (s: seq 'a) (i: int) : 'a requires { 0 <= i < length s }
  val constant empty : seq 'a
  val function singleton (x: 'a) : seq 'a
  val function snoc (s: seq 'a) (x: 'a) : seq 'a
  val function cons (x: 'a) (s: seq 'a) : seq 'a
  val function (++) (s t: seq 'a) : seq 'a
  val function ([..]) (s: seq 'a) (i j: int) : seq 'a requires { 0 <= i <= j <= length s }
  val function set (s: seq 'a) (i: int) (v: 'a) : seq 'a requires { 0 <= i < length s }
  predicate (==) (s t: seq 'a)
  axiom length_nonneg : forall s: seq 'a [length s]. 0 <= length s
  axiom empty_length : length (empty : seq 'a) = 0
  axiom empty_unique : forall s: seq 'a [length s]. length s = 0 -> s = empty
  axiom eq_ext : forall s t: seq 'a [s == t]. s == t -> s = t
  axiom eq_def : forall s t: seq 'a [s == t].
    length s = length t -> (forall i. 0 <= i < length s -> s[i] = t[i]) -> s == t
  axiom singleton_length : forall x: 'a [singleton x]. length (singleton x) = 1
  axiom singleton_get : forall x: 'a [singleton x]. (singleton x)[0] = x
  axiom snoc_length : forall s: seq 'a, x: 'a [snoc s x]. length (snoc s x) = length s + 1
  axiom snoc_get : forall s: seq 'a, x: 'a, i: int [(snoc s x)[i]].
    (0 <= i < length s -> (snoc s x)[i] = s[i]) /\ (i = length s -> (snoc s x)[i] = x)
  axiom snoc_last : forall s: seq 'a, x: 'a [snoc s x]. (snoc s x)[length s] = x
  axiom cons_length : forall s: seq 'a, x: 'a [cons x s]. length (cons x s) = length s + 1
  axiom cons_get : forall s: seq 'a, x: 'a, i: int [(cons x s)[i]].
    (0 < i <= length s -> (cons x s)[i] = s[i - 1]) /\ (i = 0 -> (cons x s)[i] = x)
  axiom app_length : forall s t: seq 'a [s ++ t]. length (s ++ t) = length s + length t
  axiom app_get : forall s t: seq 'a, i: int [(s ++ t)[i]].
    (0 <= i < length s -> (s ++ t)[i] = s[i]) /\
    (length s <= i < length s + length t -> (s ++ t)[i] = t[i - length s])
  axiom app_empty_r : forall s: seq 'a [s ++ empty]. s ++ empty = s
  axiom app_empty_l : forall s: seq 'a [empty ++ s]. empty ++ s = s
  axiom slice_length : forall s: seq 'a, i j: int [s[i .. j]].
    0 <= i <= j <= length s -> length s[i .. j] = j - i
  axiom slice_get : forall s: seq 'a, i j k: int [s[i .. j][k]].
    0 <= i <= j <= length s -> 0 <= k < j - i -> s[i .. j][k] = s[i + k]
  axiom slice_all : forall s: seq 'a [s[0 .. length s]]. s[0 .. length s] = s
  axiom set_length : forall s: seq 'a, i: int, v: 'a [set s i v]. 0 <= i < length s -> length (set s i v) = length s
  axiom set_get : forall s: seq 'a, i j: int, v: 'a [(set s i v)[j]].
    0 <= i < length s -> 0 <= j < length s -> (set s i v)[j] = if i = j then v else s[j]
end

(* truncating division and remainder, for positive divisors and the signs C++ uses *)
module CDiv
  use int.Int
  use int.ComputerDivision as CD
  let function c_div (x y: int) : int requires { y <> 0 } = CD.div x y
  let function c_mod (x y: int) : int requires { y <> 0 } = CD.mod x y
end

(* shifts and masks by constants are emitted as div and mod *)
module Bits
  use export int.EuclideanDivision
end

module Prelude
  use export Sq
  use export ref.Ref
  use export option.Option
  use map.Map as M

  type loc = int
  type str = seq int

  (* ---- machine integers: signed overflow is an obligation, unsigned wraps
     (the wrap of values more than one period out of range is left unspecified) *)
  val chk_s8 (x: int) : int requires { -128 <= x <= 127 } ensures { result = x }
  val chk_s16 (x: int) : int requires { -32768 <= x <= 32767 } ensures { result = x }
  val chk_s32 (x: int) : int requires { -2147483648 <= x <= 2147483647 } ensures { result = x }
  val chk_s64 (x: int) : int requires { -9223372036854775808 <= x <= 9223372036854775807 } ensures { result = x }
  val wrap_u8 (x: int) : int ensures { 0 <= result < 256 }
    ensures { 0 <= x < 256 -> result = x } ensures { -256 <= x < 0 -> result = x + 256 } ensures { 256 <= x < 512 -> result = x - 256 }
  val wrap_u16 (x: int) : int ensures { 0 <= result < 65536 }
    ensures { 0 <= x < 65536 -> result = x } ensures { -65536 <= x < 0 -> result = x + 65536 } ensures { 65536 <= x < 131072 -> result = x - 65536 }
  val wrap_u32 (x: int) : int ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x < 4294967296 -> result = x } ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
    ensures { 4294967296 <= x < 8589934592 -> result = x - 4294967296 }
  val wrap_u64 (x: int) : int ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x < 18446744073709551616 -> result = x } ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
    ensures { 18446744073709551616 <= x < 36893488147419103232 -> result = x - 18446744073709551616 }
  val conv_u8 (x: int) : int ensures { 0 <= result < 256 }
    ensures { 0 <= x < 256 -> result = x } ensures { -256 <= x < 0 -> result = x + 256 } ensures { 256 <= x < 512 -> result = x - 256 }
  val conv_s8 (x: int) : int ensures { -128 <= result < 128 }
    ensures { -128 <= x < 128 -> result = x } ensures { 128 <= x < 256 -> result = x - 256 } ensures { -256 <= x < -128 -> result = x + 256 }
  val conv_u16 (x: int) : int ensures { 0 <= result < 65536 }
    ensures { 0 <= x < 65536 -> result = x } ensures { -65536 <= x < 0 -> result = x + 65536 } ensures { 65536 <= x < 131072 -> result = x - 65536 }
  val conv_s16 (x: int) : int ensures { -32768 <= result < 32768 }
    ensures { -32768 <= x < 32768 -> result = x } ensures { 32768 <= x < 65536 -> result = x - 65536 }
  val conv_u32 (x: int) : int ensures { 0 <= result < 4294967296 }
    ensures { 0 <= x < 4294967296 -> result = x } ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
  val conv_s32 (x: int) : int ensures { -2147483648 <= result < 2147483648 }
    ensures { -2147483648 <= x < 2147483648 -> result = x } ensures { 2147483648 <= x < 4294967296 -> result = x - 4294967296 }
  val conv_u64 (x: int) : int ensures { 0 <= result < 18446744073709551616 }
    ensures { 0 <= x < 18446744073709551616 -> result = x } ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
  val conv_s64 (x: int) : int ensures { -9223372036854775808 <= result < 9223372036854775808 }
    ensures { -9223372036854775808 <= x < 9223372036854775808 -> result = x }
    ensures { 9223372036854775808 <= x < 18446744073709551616 -> result = x - 18446744073709551616 }
  (* a value read from an object of the given machine type is in that type's range *)
  val rd_s8 (x: int) : int ensures { result = x /\ -128 <= x <= 127 }
  val rd_u8 (x: int) : int ensures { result = x /\ 0 <= x <= 255 }
  val rd_s16 (x: int) : int ensures { result = x /\ -32768 <= x <= 32767 }
  val rd_u16 (x: int) : int ensures { result = x /\ 0 <= x <= 65535 }
  val rd_s32 (x: int) : int ensures { result = x /\ -2147483648 <= x <= 2147483647 }
  val rd_u32 (x: int) : int ensures { result = x /\ 0 <= x <= 4294967295 }
  val rd_s64 (x: int) : int ensures { result = x /\ -9223372036854775808 <= x <= 9223372036854775807 }
  val rd_u64 (x: int) : int ensures { result = x /\ 0 <= x <= 18446744073709551615 }
  let beq (a b: bool) : bool ensures { result <-> a = b } = if a then b else not b
  val any_int () : int
  val any_bool () : bool
  constant npos : int = 18446744073709551615
  let constant npos_ : int = 18446744073709551615

  let nonnull (x: loc) : loc requires { x <> 0 } ensures { result = x } = x
  let nonnull_ (x: loc) : unit requires { x <> 0 } = ()

  (* ---- heap maps *)
  val mset (m: loc -> 'a) (k: loc) (v: 'a) : loc -> 'a ensures { result = M.set m k v }

  (* ---- sequences: std::string, vector, deque, stack *)
  let sq_set (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { 0 <= i < length s } ensures { result = set s i v } = set s i v
  val str_eq (a b: str) : bool ensures { result <-> a = b }
  val function str_lt (a b: str) : bool
  let sq_pop (s: seq 'a) : seq 'a
    requires { length s > 0 } ensures { result = s[0 .. length s - 1] } = s[0 .. length s - 1]
  val seq_eq (a b: seq 'a) : bool ensures { result <-> a = b }
  val str_len (s: str) : int ensures { result = length s /\ result < 0x7FFFFFFFFFFFFFFF }
  let sq_last (s: seq 'a) : 'a requires { length s > 0 } ensures { result = s[length s - 1] } = s[length s - 1]
  let substr (s: str) (o n: int) : str
    requires { 0 <= o <= length s } requires { n >= 0 }
    ensures { n <= length s - o -> n <> 0xFFFFFFFFFFFFFFFF -> result = s[o .. o + n] }
    ensures { n > length s - o \/ n = 0xFFFFFFFFFFFFFFFF -> result = s[o .. length s] }
  = if n <= length s - o && n <> 0xFFFFFFFFFFFFFFFF then s[o .. o + n] else s[o .. length s]
  val str_find (s: str) (c: int) (from: int) : int
    requires { 0 <= from }
    ensures { result = npos \/ from <= result < length s /\ s[result] = c /\ result < 0x7FFFFFFFFFFFFFFF }
    ensures { result = npos -> forall i. from <= i < length s -> s[i] <> c }
    ensures { result <> npos -> forall i. from <= i < result -> s[i] <> c }
  predicate matches_at (s w: str) (i: int) =
    0 <= i /\ i + length w <= length s /\ s[i .. i + length w] = w
  val str_findstr (s w: str) (from: int) : int
    requires { 0 <= from }
    ensures { result = npos \/ from <= result < 0x7FFFFFFFFFFFFFFF /\ matches_at s w result }
    ensures { result = npos -> forall i. from <= i -> not matches_at s w i }
    ensures { result <> npos -> forall i. from <= i < result -> not matches_at s w i }
  val str_rfind (s: str) (c: int) : int
    ensures { result = npos \/ 0 <= result < length s /\ s[result] = c }
    ensures { result = npos -> forall i. 0 <= i < length s -> s[i] <> c }
    ensures { result <> npos -> forall i. result < i < length s -> s[i] <> c }
  let str_erase (s: str) (o n: int) : str
    requires { 0 <= o <= length s } requires { n >= 0 }
    ensures { o + n <= length s -> result = s[0 .. o] ++ s[o + n .. length s] }
    ensures { o + n > length s -> result = s[0 .. o] }
  = if n <= length s - o then s[0 .. o] ++ s[o + n .. length s] else s[0 .. o]
  let str_insert (s: str) (o: int) (t: str) : str
    requires { 0 <= o <= length s } ensures { result = s[0 .. o] ++ (t ++ s[o .. length s]) }
  = s[0 .. o] ++ (t ++ s[o .. length s])
  let str_replace (s: str) (o n: int) (t: str) : str
    requires { 0 <= o <= length s } requires { n >= 0 }
    ensures { o + n <= length s -> result = s[0 .. o] ++ (t ++ s[o + n .. length s]) }
    ensures { o + n > length s -> result = s[0 .. o] ++ t }
  = if n <= length s - o then s[0 .. o] ++ (t ++ s[o + n .. length s]) else s[0 .. o] ++ t
  val str_fill (n c: int) : str requires { n >= 0 }
    ensures { length result = n } ensures { forall i. 0 <= i < n -> result[i] = c }

  (* ---- iterators: a snapshot of the container and a position *)
  type iter 'a = { it_c : seq 'a; it_p : int }
  let it_get (i: iter 'a) : 'a requires { 0 <= i.it_p < length i.it_c } ensures { result = i.it_c[i.it_p] } = i.it_c[i.it_p]
  let it_begin (s: seq 'a) : iter 'a ensures { result = { it_c = s; it_p = 0 } } = { it_c = s; it_p = 0 }
  let it_end (s: seq 'a) : iter 'a ensures { result = { it_c = s; it_p = length s } } = { it_c = s; it_p = length s }
  let it_add (i: iter 'a) (n: int) : iter 'a requires { 0 <= i.it_p + n <= length i.it_c }
    ensures { result = { it_c = i.it_c; it_p = i.it_p + n } } = { it_c = i.it_c; it_p = i.it_p + n }
  let it_eq (a b: iter 'a) : bool requires { a.it_c = b.it_c } ensures { result <-> a.it_p = b.it_p } = a.it_p = b.it_p
  let it_lt (a b: iter 'a) : bool requires { a.it_c = b.it_c } ensures { result <-> a.it_p < b.it_p } = a.it_p < b.it_p
  let it_diff (a b: iter 'a) : int requires { a.it_c = b.it_c } ensures { result = a.it_p - b.it_p } = a.it_p - b.it_p
  val it_find (a b: iter 'a) (x: 'a) : iter 'a
    requires { a.it_c = b.it_c /\ 0 <= a.it_p <= b.it_p <= length a.it_c }
    ensures { result.it_c = a.it_c /\ a.it_p <= result.it_p <= b.it_p }
    ensures { result.it_p < b.it_p -> a.it_c[result.it_p] = x }
    ensures { forall i. a.it_p <= i < result.it_p -> a.it_c[i] <> x }
  type riter 'a = { rt_c : seq 'a; rt_p : int }
  let rit_get (i: riter 'a) : 'a requires { 0 <= i.rt_p < length i.rt_c } ensures { result = i.rt_c[length i.rt_c - 1 - i.rt_p] } = i.rt_c[length i.rt_c - 1 - i.rt_p]
  let rit_begin (s: seq 'a) : riter 'a ensures { result = { rt_c = s; rt_p = 0 } } = { rt_c = s; rt_p = 0 }
  let rit_end (s: seq 'a) : riter 'a ensures { result = { rt_c = s; rt_p = length s } } = { rt_c = s; rt_p = length s }
  let rit_add (i: riter 'a) (n: int) : riter 'a requires { 0 <= i.rt_p + n <= length i.rt_c }
    ensures { result = { rt_c = i.rt_c; rt_p = i.rt_p + n } } = { rt_c = i.rt_c; rt_p = i.rt_p + n }
  let rit_diff (a b: riter 'a) : int requires { a.rt_c = b.rt_c } ensures { result = a.rt_p - b.rt_p } = a.rt_p - b.rt_p
  let rit_eq (a b: riter 'a) : bool requires { a.rt_c = b.rt_c } ensures { result <-> a.rt_p = b.rt_p } = a.rt_p = b.rt_p
  let sq_range (a b: iter 'a) : seq 'a
    requires { a.it_c = b.it_c /\ 0 <= a.it_p <= b.it_p <= length a.it_c } ensures { result = a.it_c[a.it_p .. b.it_p] }
  = a.it_c[a.it_p .. b.it_p]
  let sq_erase (s: seq 'a) (i: iter 'a) : seq 'a
    requires { i.it_c = s } requires { 0 <= i.it_p < length s }
    ensures { result = s[0 .. i.it_p] ++ s[i.it_p + 1 .. length s] }
  = s[0 .. i.it_p] ++ s[i.it_p + 1 .. length s]
  let sq_erase2 (s: seq 'a) (i j: iter 'a) : seq 'a
    requires { i.it_c = s /\ j.it_c = s } requires { 0 <= i.it_p <= j.it_p <= length s }
    ensures { result = s[0 .. i.it_p] ++ s[j.it_p .. length s] }
  = s[0 .. i.it_p] ++ s[j.it_p .. length s]
  let sq_insert (s: seq 'a) (i: iter 'a) (x: 'a) : seq 'a
    requires { i.it_c = s } requires { 0 <= i.it_p <= length s }
    ensures { result = snoc s[0 .. i.it_p] x ++ s[i.it_p .. length s] }
  = snoc s[0 .. i.it_p] x ++ s[i.it_p .. length s]
end

(* ---- std::map: a finite map seen as a total function to option *)
module Maps
  use Prelude
  use map.Map as M
  type mp 'k 'v = 'k -> option 'v
  let constant mp_empty : mp 'k 'v = fun _ -> None
  let mp_mem (m: mp 'k 'v) (k: 'k) : bool ensures { result <-> m k <> None } = match m k with None -> false | Some _ -> true end
  let mp_get (m: mp 'k 'v) (k: 'k) : 'v requires { m k <> None } ensures { m k = Some result }
  = match m k with None -> absurd | Some v -> v end
  val mp_set (m: mp 'k 'v) (k: 'k) (v: 'v) : mp 'k 'v ensures { result = M.set m k (Some v) }
  val mp_erase (m: mp 'k 'v) (k: 'k) : mp 'k 'v ensures { result = M.set m k None }
  type miter 'k 'v = { mi_m : mp 'k 'v; mi_k : option 'k }
  let mi_find (m: mp 'k 'v) (k: 'k) : miter 'k 'v
    ensures { result.mi_m = m } ensures { result.mi_k = if m k = None then None else Some k }
  = match m k with None -> { mi_m = m; mi_k = None } | Some _ -> { mi_m = m; mi_k = Some k } end
  let mi_end (m: mp 'k 'v) : miter 'k 'v ensures { result = { mi_m = m; mi_k = None } } = { mi_m = m; mi_k = None }
  let mi_iseq (a b: miter 'k 'v) : bool requires { b.mi_k = None } ensures { result <-> a.mi_k = None }
  = match a.mi_k with None -> true | Some _ -> false end
  let mi_get (i: miter 'k 'v) : ('k, 'v)
    requires { match i.mi_k with None -> false | Some k -> i.mi_m k <> None end }
    ensures { match i.mi_k with None -> false | Some k -> let (a, b) = result in a = k /\ i.mi_m k = Some b end }
  = match i.mi_k with None -> absurd | Some k -> match i.mi_m k with None -> absurd | Some v -> (k, v) end end
  val mp_insert (m: mp 'k 'v) (k: 'k) (v: 'v) : mp 'k 'v
    ensures { result = if m k = None then M.set m k (Some v) else m }
  val mp_erase_it (m: mp 'k 'v) (i: miter 'k 'v) : mp 'k 'v
    requires { i.mi_m = m /\ match i.mi_k with None -> false | Some k -> m k <> None end }
    ensures { match i.mi_k with None -> false | Some k -> result = M.set m k None end }
  (* std::multimap: the values of each key in insertion order *)
  type mmp 'k 'v = 'k -> seq 'v
  let constant mmp_empty : mmp 'k 'v = fun _ -> empty
  val mmp_insert (m: mmp 'k 'v) (k: 'k) (v: 'v) : mmp 'k 'v ensures { result = M.set m k (snoc (m k) v) }
  type mmiter 'k 'v = { mm_m : mmp 'k 'v; mm_k : option 'k }
  (* lower_bound semantics of find: the first equal element (libstdc++) *)
  val mmi_find (m: mmp 'k 'v) (k: 'k) : mmiter 'k 'v
    ensures { result.mm_m = m } ensures { result.mm_k = if length (m k) = 0 then None else Some k }
  let mmi_end (m: mmp 'k 'v) : mmiter 'k 'v ensures { result = { mm_m = m; mm_k = None } } = { mm_m = m; mm_k = None }
  let mmi_iseq (a b: mmiter 'k 'v) : bool requires { b.mm_k = None } ensures { result <-> a.mm_k = None }
  = match a.mm_k with None -> true | Some _ -> false end
  let mmi_get (i: mmiter 'k 'v) : ('k, 'v)
    requires { match i.mm_k with None -> false | Some k -> length (i.mm_m k) > 0 end }
    ensures { match i.mm_k with None -> false | Some k -> result = (k, (i.mm_m k)[0]) end }
  = match i.mm_k with None -> absurd | Some k -> (k, (i.mm_m k)[0]) end
  (* std::set *)
  type st 'a = 'a -> bool
  let constant st_empty : st 'a = fun _ -> false
  val st_insert (s: st 'a) (x: 'a) : st 'a ensures { result = M.set s x true }
  val st_erase (s: st 'a) (x: 'a) : st 'a ensures { result = M.set s x false }
  type siter 'a = { si_s : st 'a; si_k : option 'a }
  let si_find (m: st 'a) (k: 'a) : siter 'a
    ensures { result.si_s = m } ensures { result.si_k = if m k then Some k else None }
  = if m k then { si_s = m; si_k = Some k } else { si_s = m; si_k = None }
  let si_end (m: st 'a) : siter 'a ensures { result = { si_s = m; si_k = None } } = { si_s = m; si_k = None }
  let si_iseq (a b: siter 'a) : bool requires { b.si_k = None } ensures { result <-> a.si_k = None }
  = match a.si_k with None -> true | Some _ -> false end
  val st_erase_it (s: st 'a) (i: siter 'a) : st 'a
    requires { i.si_s = s /\ match i.si_k with None -> false | Some k -> s k end }
    ensures { match i.si_k with None -> false | Some k -> result = M.set s k false end }
end
