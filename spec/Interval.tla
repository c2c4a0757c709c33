------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Closed intervals << lo, hi >> of integers.                              *)
(*                                                                         *)
(* Attained(op, ..) is a set of results that values of the operands really *)
(* reach: an interval computed by the library has to contain all of them.  *)
(* MC_Interval shows on small integers that the extreme results are among  *)
(* them, so that containing Attained is the same as containing every       *)
(* result.                                                                 *)
(***************************************************************************)
EXTENDS ExtInt

ISample(a) == {a[1], a[2]} \cup {x \in {ZZero, ZOne, ZNeg(ZOne)} : ZIn(x, a[1], a[2])}

(* dividends leaving the largest remainders *)
RemSample(a, y) ==
  LET n == ZAbs(y)  m == ZSub(n, ZOne)
      p == ZSub(a[2], ZRem(ZAdd(a[2], ZOne), n))             \* last with remainder n-1, for a[2] >= 0
      q == ZNeg(ZSub(ZNeg(a[1]), ZRem(ZAdd(ZNeg(a[1]), ZOne), n)))
  IN  {x \in {a[1], a[2], ZZero, m, ZNeg(m), p, q} : ZIn(x, a[1], a[2])}

(* sem: "x" shifts truncate and take negative amounts (checked_result), "b" built-in shifts *)
IShift(up, sem, v, n) ==
  LET k == IF up THEN n ELSE ZNeg(n) IN
  IF ZSign(k) >= 0 THEN (IF v = ZZero THEN ZZero ELSE ZShl(v, IF SmallAmount(k) THEN ZToInt(k) ELSE 250))
  ELSE LET d == IF SmallAmount(ZNeg(k)) THEN ZToInt(ZNeg(k)) ELSE 250
       IN  IF sem = "b" THEN ZShr(v, d) ELSE ZQuot(v, ZPow2(d))

Attained(op, sem, a, b) ==
  CASE op \in {"+", "-", "*"} -> {ArithVal(op, x, y) : x \in ISample(a), y \in ISample(b)}
    [] op = "/" -> {ZQuot(x, y) : x \in ISample(a), y \in ISample(b) \ {ZZero}}
    [] op = "%" -> UNION {{ZRem(x, y) : x \in RemSample(a, y)} :
                         y \in (ISample(b) \cup {z \in {a[1], a[2], ZNeg(a[1]), ZNeg(a[2])} : ZIn(z, b[1], b[2])}) \ {ZZero}}
    [] op = "<<" -> {IShift(TRUE, sem, x, y) : x \in ISample(a), y \in ISample(b)}
    [] op = ">>" -> {IShift(FALSE, sem, x, y) : x \in ISample(a), y \in ISample(b)}

(* bounds are extended integers of type r: an overflow as a bound stands for "beyond every value of r" *)
BelowOK(r, k, v, x) == CASE k = "ok" -> ZLe(v, x) [] k = "neg" -> TRUE [] k = "pos" -> ZLt(RHi(r), x) [] OTHER -> FALSE
AboveOK(r, k, v, x) == CASE k = "ok" -> ZLe(x, v) [] k = "pos" -> TRUE [] k = "neg" -> ZLt(x, RLo(r)) [] OTHER -> FALSE

IvlOK(op, sem, r, a, b, kl, vl, ku, vu) ==
  CASE op = "|" -> kl = "ok" /\ ku = "ok" /\ vl = ZMin(a[1], b[1]) /\ vu = ZMax(a[2], b[2])
    [] op = "&" -> kl = "ok" /\ ku = "ok" /\ vl = ZMax(a[1], b[1]) /\ vu = ZMin(a[2], b[2])
    [] OTHER -> \A x \in Attained(op, sem, a, b) : BelowOK(r, kl, vl, x) /\ AboveOK(r, ku, vu, x)

(* predicates *)
ILess(a, b) == IF ZLt(a[2], b[1]) THEN "true" ELSE IF ZLt(b[2], a[1]) THEN "false" ELSE "indet"
IPred(op, a, b) ==
  CASE op = "includes" -> Tri(ZLe(a[1], b[1]) /\ ZLe(b[2], a[2]))
    [] op = "excludes" -> Tri(ZLt(b[2], a[1]) \/ ZLt(a[2], b[1]))
    [] op = "includes_point" -> Tri(ZIn(b[1], a[1], a[2]))
    [] op = "excludes_point" -> Tri(~ZIn(b[1], a[1], a[2]))
    [] op = "intersect" -> Tri(ZLe(b[1], a[2]) /\ ZLe(a[1], b[2]))
    [] op = "<" -> ILess(a, b)
    [] op = ">" -> ILess(b, a)
    [] op = "<=" -> TriNot(ILess(b, a))
    [] op = ">=" -> TriNot(ILess(a, b))
    [] op = "==" -> Tri(a = b)
    [] op = "!=" -> Tri(a # b)
=============================================================================
