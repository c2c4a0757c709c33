------------------------------ MODULE MC_Trap ------------------------------
(***************************************************************************)
(* The answers of Trap against enumeration of every pair of operands, for  *)
(* every pair of declared ranges of a toy machine (2..5 bit integers).     *)
(***************************************************************************)
EXTENDS Trap
CONSTANT Points
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 5]
ToyPoints == {-16, -8, -3, -1, 0, 1, 2, 4, 5, 7, 15}
QuickPoints == {-8, -1, 0, 1, 4, 7}
VARIABLES op, T, U
Names == {"sc", "uc", "s", "us", "i", "ui", "l", "ul"}
MkT(n, lo, hi) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), lo |-> Zi(lo), hi |-> Zi(hi), sf |-> 1]
Types == {t \in {MkT(n, lo, hi) : n \in Names, lo \in Points, hi \in Points} :
            /\ ZLe(t.lo, t.hi) /\ Fits(t.lo, Rp(t)) /\ Fits(t.hi, Rp(t))
            /\ \A n \in Names : Signed(n) = Signed(t.n) /\ Bits(n) < Bits(t.n) => ~(Fits(t.lo, Rep(n)) /\ Fits(t.hi, Rep(n)))}
Init == op \in ArithOps \cup ShiftOps \cup {"<"} /\ T \in Types /\ U \in Types
Next == UNCHANGED <<op, T, U>>
Elems(t) == {Zi(i) : i \in ZToInt(t.lo)..ZToInt(t.hi)}
Fail(R) == \E x \in Elems(T), y \in Elems(U) : BinErr(op, R, T, U, x, y) # {}
FailArith(R) == \E x \in Elems(T), y \in Elems(U) : BinErr(op, R, T, U, x, y) \cap ArithErrors # {}
(* yes: something fails.  no: nothing does.  maybe: nothing does, or only a product with a zero factor *)
Agree(R) == LET c == BinCan(op, R, T, U) IN
  /\ (c = "yes" => Fail(R))
  /\ (c = "no" => ~Fail(R))
  /\ (c = "maybe" => ~Fail(R) \/ AlwaysZero(op, T, U))
AgreeLoose(R) == LET c == LooseBin(op, R, T, U) IN
  /\ (c = "yes" => FailArith(R))
  /\ (c = "no" => ~FailArith(R))
Rn == NativeRep(op, T, U)
Ra == IF op \in ShiftOps THEN MaxRep(T.s = 1) ELSE AutoRep(op, T, U)
BinOK == op # "<" => Agree(Rn) /\ Agree(Ra) /\ AgreeLoose(Rn) /\ AgreeLoose(Ra)
AsgFail(R) == \E x \in Elems(T), y \in Elems(U) : AsgErr(op, R, T, U, x, y) # {}
AsgAgree(R) ==
  LET E == OpRange(op, R, T, U)  c == AsgCan(op, R, E, T, U) IN
  /\ (c = "yes" => AsgFail(R))
  /\ (c = "no" => ~AsgFail(R))
AsgsOK == op # "<" => AsgAgree(Rn) /\ AsgAgree(Ra)
CmpsOK == op = "<" =>
  \A R \in {CmpRep("n", <<>>, T, U), CmpRep("a", <<>>, T, U)} :
    LET c == CmpCan(R, T, U)
        f == \E x \in Elems(T), y \in Elems(U) : CmpErr(R, T, U, x, y) # {}
    IN  (c # "no" => f) /\ (c = "no" => ~f)
ConvsOK == (ConvCan(T, U) = "yes") = (\E x \in Elems(T) : ConvErr(x, T, U) # {})
UnsOK == op = "-" =>
  /\ \A R \in {NativeRep("-", IntT, T), AutoRep("-", IntT, T)} :
       LET c == UnCan("neg", R, T)  f == \E x \in Elems(T) : UnErr("neg", R, T, x) # {} IN
       (c = "yes" => f) /\ (c # "yes" => ~f)
  /\ \A s \in Steps : \E x \in Elems(T) : UnErr(s, NativeRep("+", T, IntT), T, x) # {}
=============================================================================
