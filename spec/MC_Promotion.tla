---------------------------- MODULE MC_Promotion ----------------------------
(***************************************************************************)
(* Result types and static ranges on a toy machine (2..5 bit integers),    *)
(* for every pair of declared ranges.                                      *)
(***************************************************************************)
EXTENDS Promotion
CONSTANT Points                                  \* end points of declared ranges
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 5]
ToyPoints == {-16, -8, -3, -1, 0, 1, 2, 7, 15}
QuickPoints == {-8, -3, -1, 0, 2, 7}
VARIABLES op, T, U
Names == {"sc", "uc", "s", "us", "i", "ui", "l", "ul"}
MkT(n, lo, hi) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), lo |-> Zi(lo), hi |-> Zi(hi), sf |-> 1]
Types == {t \in {MkT(n, lo, hi) : n \in Names, lo \in Points, hi \in Points} :
            /\ ZLe(t.lo, t.hi) /\ Fits(t.lo, Rp(t)) /\ Fits(t.hi, Rp(t))
            \* the smallest name holding the range, so that ranges are not repeated under every name
            /\ \A n \in Names : Signed(n) = Signed(t.n) /\ Bits(n) < Bits(t.n) => ~(Fits(t.lo, Rep(n)) /\ Fits(t.hi, Rep(n)))}
Init == op \in ArithOps /\ T \in Types /\ U \in Types
Next == UNCHANGED <<op, T, U>>
Elems(t) == {Zi(i) : i \in ZToInt(t.lo)..ZToInt(t.hi)}
Results == IF op \in {"/", "%"} THEN {ArithVal(op, x, y) : x \in Elems(T), y \in Elems(U) \ {ZZero}}
           ELSE {ArithVal(op, x, y) : x \in Elems(T), y \in Elems(U)}
Lo(S) == CHOOSE x \in S : \A y \in S : ZLe(x, y)
Hi(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)
RangeOK == LET g == ResultRange(op, T, U) IN
  IF g = <<>> THEN Results = {}
  ELSE /\ \A v \in Results : ZIn(v, g[1], g[2])
       /\ (op # "%" /\ Results # {} => g[1] = Lo(Results) /\ g[2] = Hi(Results))
(* automatic: signedness as stated, holds every result when a type can, smallest *)
AutoOK ==
  LET R == AutoRep(op, T, U)  g == ResultRange(op, T, U) IN
  /\ (~R.s) = (T.s = 0 /\ U.s = 0 /\ op # "-")
  /\ R.b \in Widths
  /\ (g # <<>> =>
        /\ (ZLe(RLo(MaxRep(R.s)), g[1]) /\ ZLe(g[2], RHi(MaxRep(R.s))) => \A v \in Results : Fits(v, R))
        /\ \A w \in Widths : w < R.b => LET q == [s |-> R.s, b |-> w] IN
              ~(ZLe(RLo(q), Clamp(g[1], MaxRep(R.s))) /\ ZLe(Clamp(g[2], MaxRep(R.s)), RHi(q))))
(* native: the usual arithmetic conversions give a type not narrower than int or either operand, unsigned only when
   an operand of at least its rank is *)
NativeOK ==
  LET n == NativeType(op, T.n, U.n) IN
  /\ Rank(n) >= Rank("i") /\ Rank(n) >= Rank(T.n) /\ Rank(n) >= Rank(U.n)
  /\ NativeType(op, T.n, U.n) = NativeType(op, U.n, T.n)
  /\ (~Signed(n) => \E m \in {T.n, U.n} : ~Signed(m) /\ Rank(m) >= Rank("i"))
(* cpp<> with the widths of this machine agrees with native on types at least as wide as int *)
CppOK == LET w == <<2, 3, 4, 5, 5>> IN
  (Rank(T.n) >= 3 /\ Rank(U.n) >= 3) => CppRep(op, w, T, U) = NativeRep(op, T, U)
(* whatever the result type: no error means that the exact value is there, an error is justified *)
OpOK(R) == \A x \in Elems(T), y \in Elems(U) :
  LET e == BinErr(op, R, T, U, x, y)  v == BinVal(op, R, x, y)  W == WorkRep(op, R, T, U) IN
  /\ (e = {} => Fits(v, W) /\ ~(op \in {"/", "%"} /\ y = ZZero))
  /\ ("pos" \in e => ZLt(RHi(W), v) \/ ZLt(RHi(W), x) \/ ZLt(RHi(W), y))
  /\ ("neg" \in e => ZLt(v, RLo(W)) \/ ZLt(x, RLo(W)) \/ ZLt(y, RLo(W)))
  /\ ("dom" \in e => (op \in {"/", "%"} /\ y = ZZero) \/ (~W.s /\ (ZSign(x) < 0 \/ ZSign(y) < 0)))
OpsOK == OpOK(NativeRep(op, T, U)) /\ OpOK(AutoRep(op, T, U))
(* comparison types of the automatic policy hold both operands unless none does *)
CmpOKs == LET R == CmpRep("a", <<>>, T, U) IN
  \A x \in Elems(T), y \in Elems(U) : Fits(x, MaxRep(R.s)) /\ Fits(y, MaxRep(R.s)) => CmpErr(R, T, U, x, y) = {}
=============================================================================
