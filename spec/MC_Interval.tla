---------------------------- MODULE MC_Interval ----------------------------
(***************************************************************************)
(* The extreme results over two intervals are among the attained samples.  *)
(***************************************************************************)
EXTENDS Interval
CONSTANT M
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 6]
VARIABLES a, b
Ivls == {<<Zi(i), Zi(j)>> : i \in (0 - M)..M, j \in (0 - M)..M}
Init == a \in {v \in Ivls : ZLe(v[1], v[2])} /\ b \in {v \in Ivls : ZLe(v[1], v[2])}
Next == UNCHANGED <<a, b>>
Elems(v) == {Zi(i) : i \in ZToInt(v[1])..ZToInt(v[2])}
Enum(op, sem) ==
  CASE op \in {"+", "-", "*"} -> {ArithVal(op, x, y) : x \in Elems(a), y \in Elems(b)}
    [] op = "/" -> {ZQuot(x, y) : x \in Elems(a), y \in Elems(b) \ {ZZero}}
    [] op = "%" -> {ZRem(x, y) : x \in Elems(a), y \in Elems(b) \ {ZZero}}
    [] op = "<<" -> {IShift(TRUE, sem, x, y) : x \in Elems(a), y \in Elems(b)}
    [] op = ">>" -> {IShift(FALSE, sem, x, y) : x \in Elems(a), y \in Elems(b)}
Lo(S) == CHOOSE x \in S : \A y \in S : ZLe(x, y)
Hi(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)
Reached == \A op \in {"+", "-", "*", "/", "%", "<<", ">>"}, sem \in {"x", "b"} :
  ((op \in {"/", "%"} => ~ZIn(ZZero, b[1], b[2])) /\ (sem = "b" /\ op \in {"<<", ">>"} => ZSign(b[1]) >= 0)) =>
    LET S == Attained(op, sem, a, b)  E == Enum(op, sem) IN
    /\ S \subseteq E
    /\ (op # "%" => Lo(S) = Lo(E) /\ Hi(S) = Hi(E))
    /\ (op = "%" /\ ZIn(ZZero, a[1], a[2]) => Lo(S) = Lo(E) /\ Hi(S) = Hi(E))
(* predicates and set operations against the sets of members *)
Preds ==
  LET A == Elems(a)  B == Elems(b) IN
  /\ IPred("includes", a, b) = Tri(B \subseteq A)
  /\ IPred("excludes", a, b) = Tri(A \cap B = {})
  /\ IPred("intersect", a, b) = Tri(A \cap B # {})
  /\ IPred("includes_point", a, b) = Tri(b[1] \in A)
  /\ IPred("excludes_point", a, b) = Tri(b[1] \notin A)
  /\ IPred("==", a, b) = Tri(A = B)
  /\ (IPred("<", a, b) = "true") = (\A x \in A, y \in B : ZLt(x, y))
  /\ (IPred("<", a, b) = "false" => \A x \in A, y \in B : ~ZLt(x, y))
  /\ (IPred("<=", a, b) = "true" => \A x \in A, y \in B : ZLe(x, y))
  /\ (IPred("<=", a, b) = "false" => \A x \in A, y \in B : ~ZLe(x, y))
Sets == LET A == Elems(a)  B == Elems(b)
            un == <<ZMin(a[1], b[1]), ZMax(a[2], b[2])>>  it == <<ZMax(a[1], b[1]), ZMin(a[2], b[2])>>
        IN  /\ A \cup B \subseteq Elems(un) /\ un[1] \in A \cup B /\ un[2] \in A \cup B
            /\ A \cap B = Elems(it)
=============================================================================
