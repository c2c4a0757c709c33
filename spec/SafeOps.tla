------------------------------ MODULE SafeOps ------------------------------
(***************************************************************************)
(* Operators on safe integers.                                             *)
(*                                                                         *)
(* An operand type is a record                                             *)
(*   [n |-> type name of the underlying integer, s, b |-> representation,  *)
(*    lo, hi |-> declared range, sf |-> 1 for safe, 0 for a built-in]      *)
(* Values are unbounded integers (ZInt).                                   *)
(***************************************************************************)
EXTENDS Checked

Rp(T) == [s |-> T.s = 1, b |-> T.b]

ArithOps == {"+", "-", "*", "/", "%"}
ShiftOps == {"<<", ">>"}
BitOps == {"&", "|", "^"}
CmpOps == {"<", "<=", ">", ">=", "==", "!="}

(***************************************************************************)
(* The built-in type in which the operation is carried out once the result *)
(* type R is known: at least as wide as the result and both operands (the  *)
(* automatic policy can choose an R narrower than an operand).  Left       *)
(* shifts never shrink and are carried out in R itself.                    *)
(***************************************************************************)
Widths == {ArchBits.c, ArchBits.s, ArchBits.i, ArchBits.l, ArchBits.ll}
WidthAtLeast(k) == CHOOSE w \in Widths : w >= k /\ \A x \in Widths : x >= k => w <= x
WidestBits == CHOOSE w \in Widths : \A x \in Widths : x <= w

WorkRep(op, R, T, U) ==
  IF op # "<<"
  THEN LET d == Max2(Digits(R), Max2(Digits(Rp(T)), Digits(Rp(U)))) + (IF R.s THEN 1 ELSE 0)
       IN  [s |-> R.s, b |-> WidthAtLeast(IF d > WidestBits THEN WidestBits ELSE d)]
  ELSE R

(***************************************************************************)
(* Arithmetic and shifts:  errors justified for  t op u  with result       *)
(* representation R, and the value otherwise.                              *)
(***************************************************************************)
BinErr(op, R, T, U, t, u) ==
  IF op \in BitOps THEN {}
  ELSE LET W  == WorkRep(op, R, T, U)
           c1 == CastFull(t, Rp(T), W)
           c2 == CastFull(u, Rp(U), W)
       IN  IF c1 \cup c2 # {}
           THEN c1 \cup c2
                \cup (IF op \in ShiftOps
                      THEN (IF ZSign(u) < 0 THEN {"ns"} ELSE {})
                           \cup (IF ZLe(Zi(W.b), u) THEN {"stl"} ELSE {})
                           \cup (IF ZSign(t) < 0 THEN {"ns", "nvs"} ELSE {})
                      ELSE {})
           ELSE LET e == PrimErr(op, W, t, u)
                IN  IF e # {} \/ W = R THEN e ELSE OutOfRange(PrimVal(op, W, t, u), R)

BinVal(op, R, t, u) ==
  CASE op \in ArithOps -> ArithVal(op, t, u)
    [] op = "<<" -> IF SmallAmount(u) THEN ZShl(t, ZToInt(u)) ELSE ZZero
    [] op = ">>" -> IF SmallAmount(u) THEN ZShr(t, ZToInt(u)) ELSE ZZero
    [] op = "&" -> Wrap(ZAnd(t, u), R)
    [] op = "|" -> Wrap(ZOr(t, u), R)
    [] op = "^" -> Wrap(ZXor(t, u), R)

BinMayRefuse(op, R, T, U, t, u) == PrimMayRefuse(op, WorkRep(op, R, T, U), t, u)

(* C01: a value that is returned is the exact one *)
BinValueOK(op, R, t, u, k, v) == k = "ok" => v = BinVal(op, R, t, u) /\ ~(op \in {"/", "%"} /\ u = ZZero)

(* a factor declared to be zero settles the product, whatever the other is *)
AlwaysZero(op, T, U) == op = "*" /\ (<<T.lo, T.hi>> = <<ZZero, ZZero>> \/ <<U.lo, U.hi>> = <<ZZero, ZZero>>)

(* C02: error exactly when justified, with a justified code *)
BinErrorOK(op, R, T, U, t, u, k) ==
  LET e == BinErr(op, R, T, U, t, u)
  IN  IF k = "ok" THEN e = {} \/ AlwaysZero(op, T, U) ELSE k \in e \/ k \in BinMayRefuse(op, R, T, U, t, u)

(***************************************************************************)
(* Conversion of a value x of type S to the (possibly ranged) type D       *)
(***************************************************************************)
ConvErr(x, S, D) == CastErr(x, Rp(S), Rp(D), D.lo, D.hi)
ConvOK(x, S, D, k, v) ==
  LET e == ConvErr(x, S, D) IN IF k = "ok" THEN e = {} /\ v = x ELSE k \in e

(***************************************************************************)
(* x op= u  is  x = T(x op u): the operation in result representation R    *)
(* followed by a conversion to the type of x.                              *)
(***************************************************************************)
AsgBase(o) == CASE o = "+=" -> "+"  [] o = "-=" -> "-"  [] o = "*=" -> "*"  [] o = "/=" -> "/"
                [] o = "%=" -> "%"  [] o = "<<=" -> "<<" [] o = ">>=" -> ">>"
                [] o = "&=" -> "&"  [] o = "|=" -> "|"  [] o = "^=" -> "^"
AsgErr(op, R, T, U, t, u) ==
  LET e == BinErr(op, R, T, U, t, u)
  IN  IF e # {} THEN e ELSE CastErr(BinVal(op, R, t, u), R, Rp(T), T.lo, T.hi)
(* outcome k, value v of the target afterwards *)
AsgOK(op, R, T, U, t, u, k, v) ==
  LET e == AsgErr(op, R, T, U, t, u) IN
  IF k = "ok" THEN (e = {} \/ AlwaysZero(op, T, U)) /\ v = BinVal(op, R, t, u)
  ELSE k \in e \/ k \in BinMayRefuse(op, R, T, U, t, u)

(***************************************************************************)
(* Unary operators.  -x is 0 - x, ~x is (all ones) ^ x, ++x is x += 1;     *)
(* the constants are of type int.                                          *)
(***************************************************************************)
IntT == [n |-> "i", s |-> 1, b |-> Bits("i"), lo |-> RLo(Rep("i")), hi |-> RHi(Rep("i")), sf |-> 0]
StepOf(op) == IF op \in {"++x", "x++"} THEN "+" ELSE "-"
Steps == {"++x", "--x", "x++", "x--"}
UnErr(op, R, T, t) ==
  CASE op = "pos" -> {}
    [] op = "not" -> {}
    [] op = "neg" -> BinErr("-", R, IntT, T, ZZero, t)
    [] op \in Steps -> AsgErr(StepOf(op), R, T, IntT, t, ZOne)
UnVal(op, R, t) ==
  CASE op = "pos" -> t
    [] op = "not" -> Wrap(ZNot(t), R)
    [] op = "neg" -> ZNeg(t)
    [] op \in {"++x"} -> ZAdd(t, ZOne)
    [] op \in {"--x"} -> ZSub(t, ZOne)
    [] op \in {"x++", "x--"} -> t
UnAfter(op, t) == CASE op \in {"++x", "x++"} -> ZAdd(t, ZOne)
                    [] op \in {"--x", "x--"} -> ZSub(t, ZOne)
                    [] OTHER -> t
UnOK(op, R, T, t, k, v, a) ==
  LET e == UnErr(op, R, T, t) IN
  IF k = "ok" THEN e = {} /\ v = UnVal(op, R, t) /\ a = UnAfter(op, t) ELSE k \in e

(***************************************************************************)
(* Comparison: the truth, or an error when the comparison type Rc cannot   *)
(* represent an operand                                                    *)
(***************************************************************************)
CmpTruth(op, t, u) ==
  CASE op = "<" -> ZLt(t, u)  [] op = "<=" -> ZLe(t, u)
    [] op = ">" -> ZLt(u, t)  [] op = ">=" -> ZLe(u, t)
    [] op = "==" -> t = u     [] op = "!=" -> t # u
CmpErr(Rc, T, U, t, u) == CastFull(t, Rp(T), Rc) \cup CastFull(u, Rp(U), Rc)
CmpOK(op, Rc, T, U, t, u, k, v) ==
  IF k = "ok" THEN v = (IF CmpTruth(op, t, u) THEN ZOne ELSE ZZero)
  ELSE k \in CmpErr(Rc, T, U, t, u)
=============================================================================
