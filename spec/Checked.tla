------------------------------ MODULE Checked ------------------------------
(***************************************************************************)
(* Checked primitives on built-in integers.                                *)
(*                                                                         *)
(* A primitive is specified by                                             *)
(*   - the set of error codes that are justified for given arguments       *)
(*     (empty: the operation must succeed), and                            *)
(*   - the exact value it must produce when that set is empty.             *)
(* Where two reasons apply at once (say, a negative value shifted by too   *)
(* many bits) either code is a correct report.                             *)
(*                                                                         *)
(* Error codes:  "pos" positive_overflow  "neg" negative_overflow          *)
(*   "dom" domain  "range" range  "prec" precision  "under" underflow      *)
(*   "nvs" negative_value_shift  "ns" negative_shift  "stl" shift_too_large*)
(*   "uninit" uninitialized_value   "ok" success                           *)
(***************************************************************************)
EXTENDS CxxInt

ArithErrors == {"pos", "neg", "dom", "range", "prec", "under"}
ShiftErrors == {"nvs", "ns", "stl"}

(* exact conversion of x, coming from a type with representation src, into
   destination representation dst restricted to lo..hi *)
CastErr(x, src, dst, lo, hi) ==
  IF ZLt(hi, x) THEN {"pos"}
  ELSE IF ZLt(x, lo)
       THEN (IF ~dst.s /\ src.s THEN {"dom"} ELSE {"neg"})
  ELSE {}
CastFull(x, src, dst) == CastErr(x, src, dst, RLo(dst), RHi(dst))

(* out-of-range report for a mathematical result v and a result type r *)
OutOfRange(v, r) == IF ZLt(RHi(r), v) THEN {"pos"} ELSE IF ZLt(v, RLo(r)) THEN {"neg"} ELSE {}

(* bits needed for the magnitude of x; 0 counts as one significant bit *)
SigBits(x) == Max2(1, ZBits(IF ZSign(x) < 0 THEN ZNot(x) ELSE x))

Zi(n) == ZOfInt(n)

ArithVal(op, a, b) ==
  CASE op = "+" -> ZAdd(a, b)
    [] op = "-" -> ZSub(a, b)
    [] op = "*" -> ZMul(a, b)
    [] op = "/" -> IF b = ZZero THEN ZZero ELSE ZQuot(a, b)
    [] op = "%" -> IF b = ZZero THEN ZZero ELSE ZRem(a, b)

(* is the shift amount usable as a TLC integer *)
SmallAmount(b) == ZIn(b, ZZero, Zi(250))

(* PrimErr(op, r, a, b): a, b are values of representation r *)
PrimErr(op, r, a, b) ==
  CASE op \in {"+", "-", "*"} -> OutOfRange(ArithVal(op, a, b), r)
    [] op \in {"/", "%"} ->
         IF b = ZZero THEN {"dom"} ELSE OutOfRange(ArithVal(op, a, b), r)
    [] op = "neg" -> OutOfRange(ZNeg(a), r)
    [] op = "<<" ->
         IF b = ZZero THEN {}
         ELSE (IF ZSign(b) < 0 THEN {"ns"} ELSE {})
              \cup (IF ZSign(a) < 0 THEN {"ns", "nvs"} ELSE {})
              \cup (IF ZSign(b) > 0 /\ (ZLt(Zi(r.b - 1), b)
                           \/ (ZSign(a) > 0 /\ ZLt(Zi(Digits(r) - SigBits(a)), b)))
                    THEN {"stl"} ELSE {})
    [] op = ">>" ->
         (IF ZSign(b) < 0 THEN {"ns"} ELSE {})
         \cup (IF ZSign(a) < 0 THEN {"nvs"} ELSE {})
         \cup (IF ZLe(Zi(r.b), b) THEN {"stl"} ELSE {})
    [] OTHER -> {}

PrimVal(op, r, a, b) ==
  CASE op \in {"+", "-", "*", "/", "%"} -> ArithVal(op, a, b)
    [] op = "neg" -> ZNeg(a)
    [] op = "<<" -> IF SmallAmount(b) THEN ZShl(a, ZToInt(b)) ELSE ZZero
    [] op = ">>" -> IF SmallAmount(b) THEN ZShr(a, ZToInt(b)) ELSE ZZero
    [] op = "&" -> Wrap(ZAnd(a, b), r)
    [] op = "|" -> Wrap(ZOr(a, b), r)
    [] op = "^" -> Wrap(ZXor(a, b), r)
    [] op = "not" -> Wrap(ZNot(a), r)

(* "0 << digits" of a signed type loses nothing but is refused because zero is
   counted as one significant bit; both answers are acceptable *)
PrimMayRefuse(op, r, a, b) ==
  IF op = "<<" /\ a = ZZero /\ ZSign(b) > 0 /\ ZLt(Zi(Digits(r) - 1), b) THEN {"stl"} ELSE {}

(* an outcome (k, v) of a primitive is correct *)
PrimOK(op, r, a, b, k, v) ==
  LET e == PrimErr(op, r, a, b) IN
  IF k = "ok" THEN e = {} /\ v = PrimVal(op, r, a, b)
  ELSE k \in e \/ k \in PrimMayRefuse(op, r, a, b)
=============================================================================
