------------------------------- MODULE MC_ZInt -------------------------------
(***************************************************************************)
(* ZInt against an independent oracle: every row is an evaluation computed *)
(* by another big-integer implementation (Python's).  Run twice, with and  *)
(* without the Java overrides, so that the pure TLA+ definitions, the Java *)
(* code and the oracle all agree.  Small numbers are compared with TLC's   *)
(* own integers.                                                           *)
(***************************************************************************)
EXTENDS ZInt, Json, IOUtils, TLC
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

Eval(op, a, b, k) ==
  CASE op = "add" -> ZAdd(a, b) [] op = "sub" -> ZSub(a, b) [] op = "mul" -> ZMul(a, b)
    [] op = "quot" -> ZQuot(a, b) [] op = "rem" -> ZRem(a, b)
    [] op = "and" -> ZAnd(a, b) [] op = "or" -> ZOr(a, b) [] op = "xor" -> ZXor(a, b) [] op = "not" -> ZNot(a)
    [] op = "shl" -> ZShl(a, k) [] op = "shr" -> ZShr(a, k) [] op = "low" -> ZLow(a, k) [] op = "pow2" -> ZPow2(k)
    [] op = "cmp" -> ZOfInt(ZCmp(a, b)) [] op = "bits" -> ZOfInt(ZBits(a)) [] op = "neg" -> ZNeg(a)
    [] op = "min" -> ZMin(a, b) [] op = "max" -> ZMax(a, b) [] op = "abs" -> ZAbs(a)
Bad(x) == {i \in 1..Len(x.c) : Eval(x.op, x.c[i][1], x.c[i][2], x.c[i][3]) # x.c[i][4]}

N == 40
TQuot(a, b) == LET q == (IF a < 0 THEN 0 - a ELSE a) \div (IF b < 0 THEN 0 - b ELSE b)
               IN  IF (a < 0) # (b < 0) THEN 0 - q ELSE q
SmallOK == \A a, b \in (0-N)..N :
  LET x == ZOfInt(a)  y == ZOfInt(b) IN
  /\ ZToInt(x) = a
  /\ ZAdd(x, y) = ZOfInt(a + b) /\ ZSub(x, y) = ZOfInt(a - b) /\ ZMul(x, y) = ZOfInt(a * b)
  /\ (b # 0 => ZQuot(x, y) = ZOfInt(TQuot(a, b)) /\ ZRem(x, y) = ZOfInt(a - b * TQuot(a, b)))
  /\ (ZLt(x, y) <=> a < b) /\ (ZLe(x, y) <=> a <= b) /\ ((x = y) <=> (a = b))

Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ UNCHANGED row
        /\ (row = 1 => IF SmallOK THEN TRUE ELSE PrintT("REJ 1 {}"))
        /\ LET n == Bad(Rows[row]) IN IF n # {} THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(n)) ELSE TRUE
=============================================================================
