(* The axioms of prelude.Sq hold of Why3's seq.Seq *)
module Sound
  use int.Int
  use seq.Seq as S
  use seq.FreeMonoid as FM
  function get_ (s: S.seq 'a) (i: int) : 'a = S.get s i
  predicate eq_ (s t: S.seq 'a) = S.(==) s t
  clone prelude.Sq with type seq = S.seq, val length = S.length, val ([]) = S.([]), val empty = S.empty,
    val singleton = S.singleton, val snoc = S.snoc, val cons = S.cons, val (++) = S.(++), val ([..]) = S.([..]), val set = S.set,
    predicate (==) = S.(==)
end
