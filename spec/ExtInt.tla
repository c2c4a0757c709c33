------------------------------- MODULE ExtInt -------------------------------
(***************************************************************************)
(* Extended integers: the value of a checked_result<T>.                    *)
(*                                                                         *)
(* A value is << k, v >>:  k = "ok" and v a value of T, or k an error code *)
(* (v is then meaningless).  Errors are read as                            *)
(*    "neg"       below every value of T                                   *)
(*    "pos"       above every value of T                                   *)
(*    any other   unknown                                                  *)
(* The operators follow the tables of checked_result_operations.hpp.       *)
(***************************************************************************)
EXTENDS Checked

XClass(x) == CASE x[1] = "ok" -> "val" [] x[1] = "neg" -> "neg" [] x[1] = "pos" -> "pos" [] OTHER -> "unk"
XVal(v) == <<"ok", v>>
XErr(k) == <<k, ZZero>>
XNeg == XErr("neg")  XPos == XErr("pos")  XUnk == XErr("range")

(* sign of an extended integer; not for unknown *)
XSign(x) == CASE XClass(x) = "neg" -> -1 [] XClass(x) = "pos" -> 1 [] OTHER -> ZSign(x[2])
XOfSign(s) == IF s < 0 THEN XNeg ELSE XPos
XInf(x) == XClass(x) \in {"neg", "pos"}

(* a mathematical result in type r *)
XClip(v, r) == IF ZLt(RHi(r), v) THEN XPos ELSE IF ZLt(v, RLo(r)) THEN XNeg ELSE XVal(v)

XMinus(x) == CASE XClass(x) = "neg" -> XPos [] XClass(x) = "pos" -> XNeg [] OTHER -> x

XAdd(r, x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> XUnk
    [] a = "val" /\ b = "val" -> XClip(ZAdd(x[2], y[2]), r)
    [] a = "val" -> XErr(b)
    [] b = "val" -> XErr(a)
    [] OTHER -> IF a = b THEN XErr(a) ELSE XUnk
XSub(r, x, y) ==
  IF XClass(x) = "val" /\ XClass(y) = "val" THEN XClip(ZSub(x[2], y[2]), r)
  ELSE XAdd(r, x, XMinus(y))
XMul(r, x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> XUnk
    [] a = "val" /\ b = "val" -> XClip(ZMul(x[2], y[2]), r)
    [] XSign(x) = 0 \/ XSign(y) = 0 -> XVal(ZZero)
    [] OTHER -> XOfSign(XSign(x) * XSign(y))
(* a zero divisor pushes a quotient out of range in the direction of the dividend *)
XDiv(r, x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> XUnk
    [] b = "val" /\ y[2] = ZZero -> IF XSign(x) = 0 THEN XUnk ELSE XOfSign(XSign(x))
    [] a = "val" /\ b = "val" -> XClip(ZQuot(x[2], y[2]), r)
    [] a = "val" -> XVal(ZZero)
    [] b = "val" -> XOfSign(XSign(x) * XSign(y))
    [] OTHER -> IF a = b THEN XUnk ELSE XNeg
(* an overflowed dividend leaves the bound of the remainder *)
XMod(r, x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> XUnk
    [] b = "val" /\ y[2] = ZZero -> XUnk
    [] a = "val" /\ b = "val" -> XVal(ZRem(x[2], y[2]))
    [] a = "val" -> x
    [] b = "val" -> IF a = "pos" THEN XClip(ZSub(y[2], ZOne), r) ELSE XClip(ZSub(ZOne, y[2]), r)
    [] OTHER -> XUnk

(* x * 2^n for an integer n of either sign, truncating *)
XScale(r, v, n) ==
  IF v = ZZero THEN XVal(ZZero)
  ELSE IF ZSign(n) >= 0
       THEN IF SmallAmount(n) THEN XClip(ZShl(v, ZToInt(n)), r) ELSE XOfSign(ZSign(v))
       ELSE IF SmallAmount(ZNeg(n)) THEN XVal(ZQuot(v, ZPow2(ZToInt(ZNeg(n))))) ELSE XVal(ZZero)
(* up: does the shift enlarge for a positive amount *)
XShift(r, x, y, up) ==
  LET a == XClass(x)  b == XClass(y)
      big == IF up THEN "pos" ELSE "neg"                \* amounts that enlarge without bound
  IN
  CASE a = "unk" -> XUnk
    [] a = "val" /\ x[2] = ZZero -> XVal(ZZero)
    [] b = "unk" -> XUnk
    [] a = "val" /\ b = "val" -> XScale(r, x[2], IF up THEN y[2] ELSE ZNeg(y[2]))
    [] a = "val" -> IF b = big THEN XOfSign(ZSign(x[2])) ELSE XVal(ZZero)
    [] b = "val" -> x                                   \* stays out of range
    [] OTHER -> IF b = big THEN x ELSE XUnk
XShl(r, x, y) == XShift(r, x, y, TRUE)
XShr(r, x, y) == XShift(r, x, y, FALSE)

XBit(op, r, x, y) ==
  IF XClass(x) # "val" \/ XClass(y) # "val" THEN XUnk
  ELSE XVal(Wrap(CASE op = "&" -> ZAnd(x[2], y[2]) [] op = "|" -> ZOr(x[2], y[2]) [] op = "^" -> ZXor(x[2], y[2]), r))

XOp(op, r, x, y) ==
  CASE op = "+" -> XAdd(r, x, y)  [] op = "-" -> XSub(r, x, y)  [] op = "*" -> XMul(r, x, y)
    [] op = "/" -> XDiv(r, x, y)  [] op = "%" -> XMod(r, x, y)
    [] op = "<<" -> XShl(r, x, y) [] op = ">>" -> XShr(r, x, y)
    [] op \in {"&", "|", "^"} -> XBit(op, r, x, y)
    [] op = "neg" -> XSub(r, XVal(ZZero), x)
    [] op = "not" -> IF XClass(x) = "val" THEN XVal(Wrap(ZNot(x[2]), r)) ELSE XUnk

(* comparison: "true", "false" or "indet" *)
Tri(b) == IF b THEN "true" ELSE "false"
TriNot(t) == CASE t = "true" -> "false" [] t = "false" -> "true" [] OTHER -> t
XLess(x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> "indet"
    [] a = "val" /\ b = "val" -> Tri(ZLt(x[2], y[2]))
    [] a = b -> "indet"
    [] OTHER -> Tri(a = "neg" \/ b = "pos")
XEqual(x, y) ==
  LET a == XClass(x)  b == XClass(y) IN
  CASE a = "unk" \/ b = "unk" -> "indet"
    [] a = "val" /\ b = "val" -> Tri(x[2] = y[2])
    [] a = b -> "indet"
    [] OTHER -> "false"
XCmp(op, x, y) ==
  CASE op = "<" -> XLess(x, y)             [] op = ">" -> XLess(y, x)
    [] op = ">=" -> TriNot(XLess(x, y))    [] op = "<=" -> TriNot(XLess(y, x))
    [] op = "==" -> XEqual(x, y)           [] op = "!=" -> TriNot(XEqual(x, y))

XCmpOps == {"<", ">", "<=", ">=", "==", "!="}

(* outcome << k, v >> of an operator *)
XOK(op, r, x, y, k, v) ==
  IF op \in XCmpOps THEN k = XCmp(op, x, y)
  ELSE LET e == XOp(op, r, x, y) IN IF k = "ok" THEN e = <<k, v>> ELSE k = e[1]
=============================================================================
