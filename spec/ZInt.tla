-------------------------------- MODULE ZInt --------------------------------
(***************************************************************************)
(* Unbounded integers.                                                     *)
(*                                                                         *)
(* TLC's own integers are 32 bits wide; the library under study is about   *)
(* what happens at the edges of 8..64 bit integers, so every mathematical  *)
(* integer in the specification is represented canonically as a tuple      *)
(*        << sign, limb_1, ..., limb_n >>      base 2^15, little endian    *)
(* with sign in {-1,0,1} and no leading zero limb; zero is << 0 >>.        *)
(* Equal numbers are equal tuples, so = and # mean what they should.       *)
(*                                                                         *)
(* The definitions below are complete TLA+.  When java/ZInt.java is on the *)
(* class path TLC evaluates the operators of the same names with           *)
(* java.math.BigInteger instead; MC_ZInt checks that the two agree.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB == 15
LBASE == 32768

ZZero == <<0>>

(* magnitudes: little endian limb sequences without leading zeros *)
RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m
            ELSE MTrim(SubSeq(m, 1, Len(m) - 1))

MLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE MAddFrom(_, _, _, _)
MAddFrom(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == MLimb(a, i) + MLimb(b, i) + c
       IN  <<s % LBASE>> \o MAddFrom(a, b, i + 1, s \div LBASE)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_, _, _, _)              \* a >= b
MSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - MLimb(b, i) - c
       IN  <<(s + LBASE) % LBASE>> \o MSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == MTrim(MSubFrom(a, b, 1, 0))

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MScale(_, _, _, _)
MScale(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c
       IN  <<s % LBASE>> \o MScale(a, d, i + 1, s \div LBASE)

RECURSIVE MMulFrom(_, _, _)
MMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE MAdd(MScale(a, b[i], 1, 0),
            LET r == MMulFrom(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MMul(a, b) == MTrim(MMulFrom(a, b, 1))

(* binary long division, most significant bit first *)
MBit(a, k) == (MLimb(a, (k \div LB) + 1) \div (2 ^ (k % LB))) % 2
MDouble(a, bit) == MTrim(MAdd(MAdd(a, a), IF bit = 0 THEN <<>> ELSE <<bit>>))
RECURSIVE MDivMod(_, _, _, _, _)
MDivMod(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r1 == MDouble(r, MBit(a, k))
       IN  IF MCmp(r1, b) >= 0
           THEN MDivMod(a, b, k - 1, MDouble(q, 1), MSub(r1, b))
           ELSE MDivMod(a, b, k - 1, MDouble(q, 0), r1)

ZMag(a) == Tail(a)
ZMk(s, m) == IF m = <<>> THEN ZZero ELSE <<s>> \o m

ZSign(a) == a[1]
ZNeg(a) == <<0 - a[1]>> \o Tail(a)

ZAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN ZMk(a[1], MAdd(ZMag(a), ZMag(b)))
  ELSE LET c == MCmp(ZMag(a), ZMag(b))
       IN  IF c = 0 THEN ZZero
           ELSE IF c > 0 THEN ZMk(a[1], MSub(ZMag(a), ZMag(b)))
           ELSE ZMk(b[1], MSub(ZMag(b), ZMag(a)))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN ZZero
              ELSE ZMk(a[1] * b[1], MMul(ZMag(a), ZMag(b)))

(* truncated quotient and remainder; b must not be zero *)
ZQuot(a, b) == ZMk(a[1] * b[1], MDivMod(ZMag(a), ZMag(b), LB * (Len(a) - 1) - 1, <<>>, <<>>)[1])
ZRem(a, b)  == ZMk(a[1], MDivMod(ZMag(a), ZMag(b), LB * (Len(a) - 1) - 1, <<>>, <<>>)[2])

ZCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] >= 0 THEN MCmp(ZMag(a), ZMag(b)) ELSE MCmp(ZMag(b), ZMag(a))
ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0

RECURSIVE MOfInt(_)
MOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % LBASE>> \o MOfInt(n \div LBASE)
ZOfInt(n) == IF n = 0 THEN ZZero ELSE IF n > 0 THEN <<1>> \o MOfInt(n) ELSE <<-1>> \o MOfInt(0 - n)

RECURSIVE MToInt(_)
MToInt(m) == IF m = <<>> THEN 0 ELSE Head(m) + LBASE * MToInt(Tail(m))
ZToInt(a) == a[1] * MToInt(ZMag(a))         \* only for |a| < 2^30

RECURSIVE ZPow2(_)
ZPow2(k) == IF k < LB THEN <<1, 2 ^ k>> ELSE <<1, 0>> \o ZMag(ZPow2(k - LB))

ZShl(a, k) == ZMul(a, ZPow2(k))
(* floor(a / 2^k) *)
ZShr(a, k) == IF a[1] >= 0 THEN ZQuot(a, ZPow2(k))
              ELSE ZNeg(ZQuot(ZAdd(ZNeg(a), ZSub(ZPow2(k), <<1, 1>>)), ZPow2(k)))
(* a mod 2^k, in 0 .. 2^k-1 *)
ZLow(a, k) == ZSub(a, ZShl(ZShr(a, k), k))

(* number of bits of |a| *)
RECURSIVE BitLenInt(_)
BitLenInt(n) == IF n = 0 THEN 0 ELSE 1 + BitLenInt(n \div 2)
ZBits(a) == IF a[1] = 0 THEN 0 ELSE LB * (Len(a) - 2) + BitLenInt(a[Len(a)])

(* two's complement bit operations on infinite-precision integers *)
RECURSIVE BitOp(_, _, _, _)
BitOp(op, x, y, k) ==                        \* on 0 .. 2^k - 1
  IF k = 0 THEN 0
  ELSE LET p == x % 2  q == y % 2
           r == CASE op = "&" -> p * q
                  [] op = "|" -> IF p + q > 0 THEN 1 ELSE 0
                  [] op = "^" -> (p + q) % 2
       IN  r + 2 * BitOp(op, x \div 2, y \div 2, k - 1)
RECURSIVE MBitOp(_, _, _, _, _)
MBitOp(op, a, b, i, n) ==
  IF i > n THEN <<>>
  ELSE <<BitOp(op, MLimb(a, i), MLimb(b, i), LB)>> \o MBitOp(op, a, b, i + 1, n)
ZBitwise(op, a, b) ==
  LET n == Max2(Len(a), Len(b))              \* one limb more than needed: holds the sign
      w == LB * n
      x == ZMag(ZLow(a, w))   y == ZMag(ZLow(b, w))
      m == MTrim(MBitOp(op, x, y, 1, n))
      u == ZMk(1, m)
  IN  IF Len(m) = n /\ m[n] >= LBASE \div 2 THEN ZSub(u, ZPow2(w)) ELSE u
ZAnd(a, b) == ZBitwise("&", a, b)
ZOr(a, b)  == ZBitwise("|", a, b)
ZXor(a, b) == ZBitwise("^", a, b)
ZNot(a)    == ZSub(ZNeg(a), <<1, 1>>)

(* convenience *)
a \oplus b  == ZAdd(a, b)
a \ominus b == ZSub(a, b)
a \otimes b == ZMul(a, b)
a \prec b   == ZLt(a, b)
a \preceq b == ZLe(a, b)
a \succ b   == ZLt(b, a)
a \succeq b == ZLe(b, a)
ZMin(a, b) == IF ZLe(a, b) THEN a ELSE b
ZMax(a, b) == IF ZLe(a, b) THEN b ELSE a
ZAbs(a) == IF a[1] < 0 THEN ZNeg(a) ELSE a
ZOne == <<1, 1>>
ZIn(x, lo, hi) == ZLe(lo, x) /\ ZLe(x, hi)
=============================================================================
