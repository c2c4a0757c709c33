------------------------------- MODULE CxxInt -------------------------------
(***************************************************************************)
(* The integer types of C++: representation, conversion ranks, integral    *)
(* promotions and the usual arithmetic conversions ([conv.prom],           *)
(* [expr.arith.conv]).                                                     *)
(*                                                                         *)
(* The architecture is a parameter: ArchBits gives the width of every rank *)
(* so that the same rules are model-checked exhaustively on a toy machine  *)
(* (2..6 bit integers) and bound to the real code on LP64.                 *)
(*                                                                         *)
(* A type is named by a string:  "sc" "uc" "c" (signed char, unsigned char,*)
(* char) "s" "us" "i" "ui" "l" "ul" "ll" "ull" "wc" "c16" "c32".           *)
(* A representation is a record [s |-> BOOLEAN, b |-> width].              *)
(***************************************************************************)
EXTENDS ZInt

CONSTANT ArchBits      \* [c |-> .., s |-> .., i |-> .., l |-> .., ll |-> ..]

Bits(n) == CASE n \in {"sc", "uc", "c"} -> ArchBits.c
             [] n \in {"s", "us", "c16"} -> ArchBits.s
             [] n \in {"i", "ui", "wc", "c32"} -> ArchBits.i
             [] n \in {"l", "ul"} -> ArchBits.l
             [] n \in {"ll", "ull"} -> ArchBits.ll

(* plain char and wchar_t are signed on the platform under study *)
Signed(n) == n \in {"sc", "c", "s", "i", "l", "ll", "wc"}

Rep(n) == [s |-> Signed(n), b |-> Bits(n)]

Rank(n) == CASE n \in {"sc", "uc", "c"} -> 1
             [] n \in {"s", "us", "c16"} -> 2
             [] n \in {"i", "ui", "wc", "c32"} -> 3
             [] n \in {"l", "ul"} -> 4
             [] n \in {"ll", "ull"} -> 5

ToUnsigned(n) == CASE n = "i" -> "ui" [] n = "l" -> "ul" [] n = "ll" -> "ull"
                   [] n = "s" -> "us" [] n = "sc" -> "uc" [] OTHER -> n

(* value ranges *)
RLo(r) == IF r.s THEN ZNeg(ZPow2(r.b - 1)) ELSE ZZero
RHi(r) == ZSub(ZPow2(IF r.s THEN r.b - 1 ELSE r.b), ZOne)
Fits(x, r) == ZIn(x, RLo(r), RHi(r))
Digits(r) == IF r.s THEN r.b - 1 ELSE r.b

(* conversion to r as the hardware does it: modulo 2^b *)
Wrap(x, r) == LET u == ZLow(x, r.b)
              IN  IF r.s /\ ZLe(ZPow2(r.b - 1), u) THEN ZSub(u, ZPow2(r.b)) ELSE u

(* [conv.prom] *)
FirstHolding(n, cands) ==
  cands[CHOOSE k \in 1..Len(cands) :
          /\ ZLe(RLo(Rep(cands[k])), RLo(Rep(n))) /\ ZLe(RHi(Rep(n)), RHi(Rep(cands[k])))
          /\ \A j \in 1..(k-1) : ~( /\ ZLe(RLo(Rep(cands[j])), RLo(Rep(n)))
                                   /\ ZLe(RHi(Rep(n)), RHi(Rep(cands[j]))))]
Promote(n) ==
  IF n \in {"wc", "c16", "c32"} THEN FirstHolding(n, <<"i", "ui", "l", "ul", "ll", "ull">>)
  ELSE IF Rank(n) < Rank("i") THEN FirstHolding(n, <<"i", "ui">>)
  ELSE n

(* [expr.arith.conv] *)
UsualConv(m, n) ==
  LET a == Promote(m)  b == Promote(n) IN
  IF a = b THEN a
  ELSE IF Signed(a) = Signed(b) THEN (IF Rank(a) >= Rank(b) THEN a ELSE b)
  ELSE LET sg == IF Signed(a) THEN a ELSE b
           us == IF Signed(a) THEN b ELSE a
       IN  IF Rank(us) >= Rank(sg) THEN us
           ELSE IF ZLe(RHi(Rep(us)), RHi(Rep(sg))) THEN sg
           ELSE ToUnsigned(sg)

(* type of  m op n  on built-in integers *)
NativeType(op, m, n) == IF op \in {"<<", ">>"} THEN Promote(m) ELSE UsualConv(m, n)

LP64 == [c |-> 8, s |-> 16, i |-> 32, l |-> 64, ll |-> 64]
=============================================================================
