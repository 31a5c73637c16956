"""IEEE 754 doubles: not a number, the infinities, and the finite values with their sign of zero.
Comparison, sign, floor and ceil are exact; other operations round (rnd) as IEEE 754 says: to a double itself
when the exact result is one, monotonically otherwise."""
TYPE = r'''
  use real.RealInfix
  use real.FromInt as FI
  type fl
  function fk fl : int    (* 0 finite, 2 infinite, otherwise NaN *)
  function fv fl : real
  function fneg fl : bool
  predicate fin (a: fl) = fk a = 0
  predicate nan (a: fl) = fk a <> 0 /\ fk a <> 2
  predicate pinf (a: fl) = fk a = 2 /\ not fneg a
  predicate ninf (a: fl) = fk a = 2 /\ fneg a
  predicate flt (a b: fl) = fin a /\ fin b /\ fv a <. fv b \/ ninf a /\ (fin b \/ pinf b) \/ fin a /\ pinf b
  predicate feq (a b: fl) = fin a /\ fin b /\ fv a = fv b \/ pinf a /\ pinf b \/ ninf a /\ ninf b
  val fl_lt (a b: fl) : bool ensures { result <-> flt a b }
  val fl_gt (a b: fl) : bool ensures { result <-> flt b a }
  val fl_le (a b: fl) : bool ensures { result <-> flt a b \/ feq a b }
  val fl_ge (a b: fl) : bool ensures { result <-> flt b a \/ feq a b }
  val fl_eq (a b: fl) : bool ensures { result <-> feq a b }
  val fl_isnan (a: fl) : bool ensures { result <-> nan a }
  predicate rep real      (* the reals that are doubles *)
  function rnd real : fl  (* to the nearest *)
  axiom rnd_kind: forall x [rnd x]. not nan (rnd x)
  axiom rnd_rep: forall x [rnd x]. rep x -> fin (rnd x) /\ fv (rnd x) = x
  val function fl_lit (x: real) : fl requires { rep x } ensures { result = rnd x } ensures { fin result /\ fv result = x }
  axiom rep_01: rep 0.0 /\ rep 1.0 /\ rep 0.5
  axiom sign_01: not fneg (rnd 0.0) /\ not fneg (rnd 1.0)
'''
ARITH = r'''
  axiom rep_fin: forall a [fv a]. fin a -> rep (fv a)
  axiom sign_fin: forall a [fneg a]. fin a -> (fv a <. 0.0 -> fneg a) /\ (fv a >. 0.0 -> not fneg a)
  function itor (n: int) : real
  axiom itor_def: forall n [itor n]. itor n = FI.from_int n
  axiom rep_int: forall n [itor n]. -9007199254740992 <= n <= 9007199254740992 -> rep (itor n)
  axiom rnd_mono: forall x y [rnd x, rnd y]. x <=. y -> flt (rnd x) (rnd y) \/ feq (rnd x) (rnd y)
  axiom rnd_int: forall n [rnd (itor n)]. fin (rnd (itor n)) -> exists m. fv (rnd (itor n)) = itor m
  (* the whole part of a real *)
  function floor real : int
  axiom floor_def: forall x [floor x]. itor (floor x) <=. x <. itor (floor x) +. 1.0
  axiom floor_rep: forall x [floor x]. rep x -> rep (itor (floor x)) /\ rep (itor (- (floor (-. x))))
  (* the fraction of a double is a double, but for the small negative ones *)
  axiom frac_rep: forall x [floor x]. rep x -> x >=. 0.0 \/ x <=. -. 0.5 -> rep (x -. itor (floor x))
  val function fl_neg (a: fl) : fl ensures { fk result = fk a /\ fv result = -. (fv a) /\ fneg result <> fneg a }
  axiom fl_neg_def: forall a [fl_neg a]. fk (fl_neg a) = fk a /\ fv (fl_neg a) = -. (fv a) /\ fneg (fl_neg a) <> fneg a
  val function fl_add (a b: fl) : fl
  axiom fl_add_def: forall a b [fl_add a b]. let r = fl_add a b in
    (nan a \/ nan b \/ pinf a /\ ninf b \/ ninf a /\ pinf b -> nan r) /\ (pinf a /\ not nan b /\ not ninf b \/ pinf b /\ not nan a /\ not ninf a -> pinf r) /\
    (ninf a /\ not nan b /\ not pinf b \/ ninf b /\ not nan a /\ not pinf a -> ninf r) /\ (fin a /\ fin b -> fk r = fk (rnd (fv a +. fv b)) /\ fv r = fv (rnd (fv a +. fv b)) /\ (pinf r -> pinf (rnd (fv a +. fv b))) /\ (ninf r -> ninf (rnd (fv a +. fv b))))
  val function fl_sub (a b: fl) : fl
  axiom fl_sub_def: forall a b [fl_sub a b]. fl_sub a b = fl_add a (fl_neg b)
  val function fl_mul (a b: fl) : fl
  val function fl_div (a b: fl) : fl
  val function fl_fmod (a b: fl) : fl
  val function fl_floor (a: fl) : fl
  axiom fl_floor_def: forall a [fl_floor a]. let r = fl_floor a in fk r = fk a /\ fneg r = fneg a /\ (fin a -> fv r = itor (floor (fv a)))
  val function fl_ceil (a: fl) : fl
  axiom fl_ceil_def: forall a [fl_ceil a]. let r = fl_ceil a in fk r = fk a /\ fneg r = fneg a /\ (fin a -> fv r = itor (- (floor (-. (fv a)))))
  val function fl_fabs (a: fl) : fl
  axiom fl_fabs_def: forall a [fl_fabs a]. let r = fl_fabs a in fk r = fk a /\ not fneg r /\ (fin a -> fv r = if fv a <. 0.0 then -. (fv a) else fv a)
  val function fl_of_int (n: int) : fl
  axiom fl_of_int_def: forall n [fl_of_int n]. fl_of_int n = rnd (itor n)
  axiom sign_rnd: forall n [rnd (itor n)]. n >= 0 -> not fneg (rnd (itor n))
  val fl_to_u64 (a: fl) : int requires { fin a } requires { -. 1.0 <. fv a <. 18446744073709551616.0 } ensures { fv a >=. 0.0 -> result = floor (fv a) } ensures { fv a <. 0.0 -> result = 0 }
  val fl_to_i32 (a: fl) : int requires { fin a } requires { -. 2147483649.0 <. fv a <. 2147483648.0 } ensures { fv a >=. 0.0 -> result = floor (fv a) } ensures { fv a <. 0.0 -> result = - (floor (-. (fv a))) }
  val fl_to_i64 (a: fl) : int requires { fin a } requires { -. 9223372036854775808.0 <=. fv a <. 9223372036854775808.0 } ensures { fv a >=. 0.0 -> result = floor (fv a) } ensures { fv a <. 0.0 -> result = - (floor (-. (fv a))) }
  val constant fl_nan_c : fl ensures { nan result }
  val constant fl_inf_c : fl ensures { pinf result }
  val constant fl_ninf_c : fl ensures { ninf result }
  val constant fl_nzero_c : fl ensures { fin result /\ fv result = 0.0 /\ fneg result }
  val constant fl_zero_c : fl ensures { result = rnd 0.0 }
'''
