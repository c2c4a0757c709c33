------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Text of integers,          and what reading text into a safe integer     *)
(* does.  Texts are sequences of character codes.                          *)
(***************************************************************************)
EXTENDS SafeOps

Zero9 == 48..57
IsDigit(c) == c \in Zero9
IsSpace(c) == c = 32 \/ c \in 9..13
Minus == 45
Plus == 43

Ten == <<1, 10>>
RECURSIVE Digits10(_)
Digits10(x) ==                                       \* x >= 0
  IF ZLt(x, Ten) THEN <<48 + ZToInt(x)>>
  ELSE Append(Digits10(ZQuot(x, Ten)), 48 + ZToInt(ZRem(x, Ten)))
Render(x) == IF ZSign(x) < 0 THEN <<Minus>> \o Digits10(ZNeg(x)) ELSE Digits10(x)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE RenderBase(_, _)
RenderBase(x, k) ==                                  \* x >= 0, base 2^k
  LET lowd == ZToInt(ZLow(x, k))  hi == ZShr(x, k)
  IN  IF hi = ZZero THEN <<HexDigit(lowd)>> ELSE Append(RenderBase(hi, k), HexDigit(lowd))

RECURSIVE SkipWs(_, _)
SkipWs(t, p) == IF p <= Len(t) /\ IsSpace(t[p]) THEN SkipWs(t, p + 1) ELSE p
(* the digit a character stands for, 99 if none *)
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE DigitsEnd(_, _, _)
DigitsEnd(t, p, k) == IF p <= Len(t) /\ DigitVal(t[p]) < k THEN DigitsEnd(t, p + 1, k) ELSE p
RECURSIVE NumFrom(_, _, _, _, _)
NumFrom(t, p, q, k, acc) == IF p = q THEN acc
                            ELSE NumFrom(t, p + 1, q, k, ZAdd(ZMul(acc, ZOfInt(k)), ZOfInt(DigitVal(t[p]))))

(* the number of base k (8, 10, 16) at the start of t: [num |-> is there one, v |-> its value,
   neg |-> is there a minus sign, next |-> position behind it]             *)
ScanBase(t, k) ==
  LET p == SkipWs(t, 1)
      sg == p <= Len(t) /\ t[p] \in {Minus, Plus}
      ng == p <= Len(t) /\ t[p] = Minus
      d0 == IF sg THEN p + 1 ELSE p
      d == IF k = 16 /\ d0 < Len(t) /\ t[d0] = 48 /\ t[d0 + 1] \in {88, 120} THEN d0 + 2 ELSE d0   \* 0x
      q == DigitsEnd(t, d, k)
  IN  IF q = d THEN [num |-> FALSE, v |-> ZZero, neg |-> ng, next |-> d]
      ELSE LET m == NumFrom(t, d, q, k, ZZero)
           IN  [num |-> TRUE, v |-> IF ng THEN ZNeg(m) ELSE m, neg |-> ng, next |-> q]
Scan(t) == ScanBase(t, 10)

(***************************************************************************)
(* Reading text t into a safe integer of type T: the justified errors.     *)
(* Text without a number is a domain error; a number outside the range of  *)
(* T is an error - a domain error when it is beyond every number a stream  *)
(* delivers for T, otherwise the error of the conversion.                  *)
(***************************************************************************)
InErrBase(T, t, k) ==
  LET s == ScanBase(t, k) IN
  IF ~s.num THEN {"dom"}
  ELSE IF ZIn(s.v, T.lo, T.hi) /\ ~(s.neg /\ s.v = ZZero /\ T.s = 0) THEN {}
  ELSE IF ZIn(s.v, T.lo, T.hi) THEN {"ok", "dom"}       \* "-0" into an unsigned type: either
  ELSE {"dom"} \cup (IF ZLt(T.hi, s.v) THEN {"pos"} ELSE {"neg"})
InErrsBase(T, t, k) == InErrBase(T, t, k) \ {"ok"}
InMayOkBase(T, t, k) == LET e == InErrBase(T, t, k) IN e = {} \/ "ok" \in e
InErrs(T, t) == InErrsBase(T, t, 10)
InMayOk(T, t) == InMayOkBase(T, t, 10)

(***************************************************************************)
(* A stream over text t: position p (characters consumed) and whether it   *)
(* has failed.  Reading into a variable of type T that holds old: the      *)
(* admissible <<outcome, value after, position after, failed after>>;      *)
(* position -1 where it does not matter any more.                          *)
(***************************************************************************)
StreamOpen(broken) == [p |-> 0, bad |-> broken]
ReadOutcomes(T, t, z, old) ==
  IF z.bad THEN {<<"dom", old, -1, TRUE>>}
  ELSE LET rest == SubSeq(t, z.p + 1, Len(t))  s == Scan(rest)  q == z.p + s.next - 1
       IN  (IF InMayOk(T, rest) THEN {<<"ok", s.v, q, FALSE>>} ELSE {})
           \cup {<<e, old, -1, TRUE>> : e \in InErrs(T, rest)}
           \cup {<<e, old, q, FALSE>> : e \in IF s.num THEN InErrs(T, rest) ELSE {}}
StreamAfter(o) == [p |-> o[3], bad |-> o[4]]

(* An interval is written as its limits, a value with its range as the range and the value *)
RenderInterval(l, h) == <<91>> \o Render(l) \o <<44>> \o Render(h) \o <<93>>
=============================================================================
