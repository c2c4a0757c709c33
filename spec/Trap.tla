-------------------------------- MODULE Trap --------------------------------
(***************************************************************************)
(* Can an operation fail?  Decided from the declared ranges of its         *)
(* operands alone, as a trap policy has to at compile time.                *)
(*   "yes"    some operands make it fail                                   *)
(*   "no"     none does                                                    *)
(*   "maybe"  the specification leaves the answer to the library: no       *)
(*            operands make it fail, but only because of a special case    *)
(*            (a factor which is always zero, nothing but zero shifted,    *)
(*            ranges which settle a comparison, -x through an int zero)    *)
(* MC_Trap checks the answers against enumeration on the toy machine.      *)
(***************************************************************************)
EXTENDS Promotion

Has(T, x) == ZIn(x, T.lo, T.hi)
FitRep(T, r) == ZLe(RLo(r), T.lo) /\ ZLe(T.hi, RHi(r))
Rng(lo, hi) == [lo |-> lo, hi |-> hi]
Inside(g, T) == ZLe(T.lo, g.lo) /\ ZLe(g.hi, T.hi)
Settled(T, U) == ZLe(T.hi, U.lo) \/ ZLe(U.hi, T.lo)

(* amounts which matter are small; larger ones fail anyway *)
Amt(u) == IF SmallAmount(u) THEN ZToInt(u) ELSE 250

(* the range of results when no operand makes the operation fail *)
OpRange(op, R, T, U) ==
  CASE op \in {"+", "-", "*", "/", "%"} ->
         LET g == ResultRange(op, T, U) IN IF g = <<>> THEN Rng(ZZero, ZZero) ELSE Rng(g[1], g[2])
    [] op = "<<" -> Rng(ZShl(T.lo, Amt(ZMax(ZZero, U.lo))), ZShl(T.hi, Amt(ZMax(ZZero, U.hi))))
    [] op = ">>" -> Rng(ZShr(T.lo, Amt(ZMax(ZZero, U.hi))), ZShr(T.hi, Amt(ZMax(ZZero, U.lo))))
ExactRange(op) == op \in {"+", "-", "*", "/", "<<", ">>"}

ShiftCan(op, r, T, U) ==
  IF ZSign(U.lo) < 0 THEN "yes"
  ELSE IF op = ">>" THEN (IF ZSign(T.lo) < 0 \/ ZLe(Zi(r.b), U.hi) THEN "yes" ELSE "no")
  ELSE IF U.hi = ZZero THEN (IF ZSign(T.lo) < 0 THEN "maybe" ELSE "no")
  ELSE IF \/ ZSign(T.lo) < 0 \/ ZLe(Zi(r.b), U.hi)
          \/ ZSign(T.hi) > 0 /\ ZLt(Zi(Digits(r) - SigBits(T.hi)), U.hi) THEN "yes"
  ELSE IF T.hi = ZZero /\ ZLt(Zi(Digits(r) - 1), U.hi) THEN "maybe"
  ELSE "no"

(* T op U in result representation R *)
BinCan(op, R, T, U) ==
  IF op \in BitOps THEN "no"
  ELSE LET W == WorkRep(op, R, T, U) IN
    IF ~FitRep(T, W) \/ ~FitRep(U, W) THEN (IF AlwaysZero(op, T, U) THEN "maybe" ELSE "yes")
    ELSE LET p == CASE op \in ShiftOps -> ShiftCan(op, W, T, U)
                    [] op \in {"/", "%"} -> IF Has(U, ZZero) THEN "yes" ELSE "no"
                    [] OTHER -> "no"
         IN  IF p = "yes" THEN "yes"
             ELSE LET g == OpRange(op, R, T, U) IN
                  IF FitRep(g, W) /\ FitRep(g, R) THEN p
                  ELSE IF ExactRange(op) /\ p = "no" THEN "yes" ELSE "maybe"

CmpCan(Rc, T, U) ==
  IF FitRep(T, Rc) /\ FitRep(U, Rc) THEN "no" ELSE IF Settled(T, U) THEN "maybe" ELSE "yes"

(* value of type S to type D *)
ConvCan(S, D) == IF Inside(S, D) THEN "no" ELSE "yes"

(* x op= u  with the operation in static range E (representation R) *)
AsgCan(op, R, E, T, U) ==
  LET c == BinCan(op, R, T, U) IN
  IF c = "yes" THEN "yes"
  ELSE IF ExactRange(op)
       THEN (IF Inside(OpRange(op, R, T, U), T) THEN c ELSE IF c = "no" THEN "yes" ELSE "maybe")
       ELSE (IF Inside(E, T) THEN c ELSE "maybe")

(* -x is 0 - x with an int; ++x and --x leave the range from its end *)
UnCan(op, R, T) ==
  CASE op \in {"pos", "not"} -> "no"
    [] op = "neg" -> LET Z0 == [IntT EXCEPT !.lo = ZZero, !.hi = ZZero]
                         c == BinCan("-", R, Z0, T)
                     IN  IF c = "yes" THEN "yes" ELSE IF BinCan("-", R, IntT, T) = "no" THEN "no" ELSE "maybe"
    [] op \in Steps -> "yes"

(* under a policy which traps arithmetic errors only and ignores the others *)
LooseBin(op, R, T, U) ==
  LET c == BinCan(op, R, T, U)  W == WorkRep(op, R, T, U) IN
  IF op \in ShiftOps /\ c = "yes" /\ FitRep(T, W) /\ FitRep(U, W) THEN "maybe" ELSE c
LooseAsg(op, R, E, T, U) ==
  LET c == AsgCan(op, R, E, T, U) IN
  IF op \in ShiftOps /\ c = "yes" /\ BinCan(op, R, T, U) = "yes" /\ LooseBin(op, R, T, U) # "yes" THEN "maybe" ELSE c
=============================================================================
