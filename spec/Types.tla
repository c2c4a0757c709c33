------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* What safe types say about themselves; literals; which types may meet in *)
(* an expression.                                                          *)
(***************************************************************************)
EXTENDS Bits

(* std::numeric_limits of a type with representation r declared lo..hi *)
Traits(r, lo, hi) ==
  [min |-> lo, max |-> hi, lowest |-> lo, digits |-> Digits(r), digits10 |-> (Digits(r) * 30103) \div 100000, radix |-> 2,
   is_specialized |-> 1, is_signed |-> IF r.s THEN 1 ELSE 0, is_integer |-> 1, is_exact |-> 1, is_bounded |-> 1]

(* a literal of value v: the smallest type of its signedness holding it; one value *)
LitType(sg, v) == [s |-> IF sg THEN 1 ELSE 0, b |-> StoredBits(sg, v, v), lo |-> v, hi |-> v]
SameT(L, R) == L.s = R.s /\ L.b = R.b /\ L.lo = R.lo /\ L.hi = R.hi
(* -literal and ~literal are literals of the same underlying type *)
LitUn(op, L) == LET w == CASE op = "neg" -> ZNeg(L.lo) [] op = "not" -> ZNot(L.lo) [] op = "pos" -> L.lo
                IN  [L EXCEPT !.lo = w, !.hi = w]

(***************************************************************************)
(* Policies.  An operand is [p |-> promotion policy, e |-> exception       *)
(* policy]; built-in integers and plain literals have none ("-").          *)
(***************************************************************************)
None == "-"
Agree(a, b) == (a = b \/ a = None \/ b = None) /\ ~(a = None /\ b = None)
MayMeet(x, y) == Agree(x.p, y.p) /\ Agree(x.e, y.e)
=============================================================================
