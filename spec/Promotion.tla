----------------------------- MODULE Promotion -----------------------------
(***************************************************************************)
(* Result types: which built-in type a safe expression is based on.        *)
(***************************************************************************)
EXTENDS SafeOps

(***************************************************************************)
(* native: what C++ says                                                   *)
(***************************************************************************)
NativeRep(op, T, U) == Rep(NativeType(IF op \in CmpOps THEN "+" ELSE op, T.n, U.n))

(***************************************************************************)
(* automatic: the smallest type of the right signedness holding every      *)
(* result.  Extreme results are reached at "corners": the ends of the      *)
(* operand ranges and, for divisors and dividends, the values next to 0.   *)
(***************************************************************************)
MaxRep(sg) == [s |-> sg, b |-> WidestBits]
AutoSigned(op, T, U) ==
  CASE op = "-" -> TRUE
    [] op \in ShiftOps -> T.s = 1
    [] OTHER -> T.s = 1 \/ U.s = 1

SmallestRep(lo, hi, sg) ==
  LET ok(w) == ZLe(RLo([s |-> sg, b |-> w]), lo) /\ ZLe(hi, RHi([s |-> sg, b |-> w]))
      cands == {w \in Widths : ok(w)}
  IN  IF cands = {} THEN MaxRep(sg)
      ELSE [s |-> sg, b |-> CHOOSE w \in cands : \A x \in cands : w <= x]

SetMin(S) == CHOOSE x \in S : \A y \in S : ZLe(x, y)
SetMax(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)
Within(S, T) == {x \in S : ZIn(x, T.lo, T.hi)}
Corners(T) == {T.lo, T.hi} \cup Within({ZZero, ZOne, ZNeg(ZOne)}, T)

(* mathematical range of t op u over the declared ranges, ignoring operand
   pairs for which there is no result; <<lo, hi>>, or <<>> when no pair has one.
   (MC_Promotion checks it against enumeration on the toy machine.)            *)
RemRange(T, U) ==
  IF U.lo = ZZero /\ U.hi = ZZero THEN <<>>
  ELSE LET m == ZSub(ZMax(ZAbs(U.lo), ZAbs(U.hi)), ZOne) \* largest |remainder|
       IN  << IF ZSign(T.lo) < 0 THEN ZMax(T.lo, ZNeg(m)) ELSE ZZero,
                   IF ZSign(T.hi) > 0 THEN ZMin(T.hi, m) ELSE ZZero >>
ResultRange(op, T, U) ==
  CASE op \in {"+", "-", "*"} ->
         LET S == {ArithVal(op, a, b) : a \in {T.lo, T.hi}, b \in {U.lo, U.hi}}
         IN  <<SetMin(S), SetMax(S)>>
    [] op = "/" ->
         LET S == {ZQuot(a, b) : a \in {T.lo, T.hi}, b \in Corners(U) \ {ZZero}}
         IN  IF S = {} THEN <<>> ELSE <<SetMin(S), SetMax(S)>>
    [] op = "%" -> RemRange(T, U)

Clamp(x, r) == ZMax(RLo(r), ZMin(RHi(r), x))
AutoRep(op, T, U) ==
  LET sg == AutoSigned(op, T, U)
      m == MaxRep(sg)
      rg == ResultRange(op, T, U)
  IN  IF rg = <<>> THEN SmallestRep(ZZero, ZZero, sg)
      ELSE SmallestRep(Clamp(rg[1], m), Clamp(rg[2], m), sg)

(***************************************************************************)
(* cpp<char, short, int, long, long long>: the C++ rules for a machine     *)
(* with these widths.  Operands narrower than int are widened to int       *)
(* keeping their signedness.  w is the tuple of five widths.  A type which *)
(* is none of these ranks with the narrowest which can hold it.            *)
(***************************************************************************)
CppRank(w, b) == IF \E i \in 1..5 : b <= w[i]
                 THEN CHOOSE i \in 1..5 : b <= w[i] /\ \A j \in 1..(i-1) : b > w[j]
                 ELSE 6
CppPromote(w, r) == IF CppRank(w, w[3]) < CppRank(w, r.b) THEN r ELSE [s |-> r.s, b |-> w[3]]
CppConv(w, p, q) ==
  LET a == CppPromote(w, p)  c == CppPromote(w, q) IN
  IF a = c THEN a
  ELSE IF a.s = c.s THEN (IF CppRank(w, a.b) < CppRank(w, c.b) THEN c ELSE a)
  ELSE LET sg == IF a.s THEN a ELSE c   us == IF a.s THEN c ELSE a
       IN  IF CppRank(w, us.b) >= CppRank(w, sg.b) THEN us
           ELSE IF Digits(sg) >= Digits(us) THEN sg
           ELSE [s |-> FALSE, b |-> sg.b]
CppRep(op, w, T, U) == IF op \in ShiftOps THEN CppPromote(w, Rp(T)) ELSE CppConv(w, Rp(T), Rp(U))

(***************************************************************************)
(* The type in which a comparison is carried out                           *)
(***************************************************************************)
CmpRep(pp, w, T, U) ==
  CASE pp = "n" -> NativeRep("+", T, U)
    [] pp = "c" -> CppConv(w, Rp(T), Rp(U))
    [] pp = "a" -> LET sg == T.s = 1 \/ U.s = 1  m == MaxRep(sg)
                   IN  SmallestRep(Clamp(ZMin(T.lo, U.lo), m), Clamp(ZMax(T.hi, U.hi), m), sg)

(* C06: the underlying type R of  T op U *)
TypeOK(op, pp, w, T, U, R) ==
  CASE pp = "n" -> Rp(R) = NativeRep(op, T, U) /\ R.n = NativeType(op, T.n, U.n)
    [] pp = "c" -> Rp(R) = CppRep(op, w, T, U)
    [] pp = "a" -> IF op \in BitOps THEN Rp(R) = NativeRep(op, T, U)
                   ELSE IF op \in ShiftOps THEN TRUE
                   ELSE \/ Rp(R) = AutoRep(op, T, U)
                        \* no result, or operands the widest type cannot hold: only the signedness is fixed
                        \/ /\ R.s = 1 <=> AutoSigned(op, T, U)
                           /\ \/ ResultRange(op, T, U) = <<>>
                              \/ op \in {"/", "%"} /\ Rp(R) = MaxRep(R.s = 1)
                                 /\ (ZLt(RHi(Rp(R)), T.hi) \/ ZLt(RHi(Rp(R)), U.hi))
=============================================================================
