------------------------------ MODULE MC_Reader ------------------------------
(***************************************************************************)
(* A program that reads one stream again and again into a variable of a    *)
(* toy type, whatever the stream holds: the variable keeps to its range,   *)
(* changes only on success, the stream never goes back, a failed stream    *)
(* stays failed, and what was written is what is read.                     *)
(***************************************************************************)
EXTENDS Streams, TLC
CONSTANT MaxTok
ToyArch == [c |-> 4, s |-> 5, i |-> 6, l |-> 8, ll |-> 8]
VARIABLES T, t, plain, z, v, out
Mk(n, lo, hi) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), lo |-> Zi(lo), hi |-> Zi(hi), sf |-> 1]
Types == {Mk("i", -20, 29), Mk("ui", 2, 29), Mk("sc", -8, 7), Mk("us", 0, 20)}
Good(A) == {Render(Zi(i)) : i \in {ZToInt(A.lo), ZToInt(A.lo) + 1, ZToInt(A.hi)}}
Bads == {<<45>>, <<120>>, <<50, 120>>, <<57, 57>>, <<45, 57>>, <<45, 48>>, <<43, 50>>, <<>>}
RECURSIVE Joins(_, _)
Joins(S, n) == IF n = 0 THEN {<<>>} ELSE {a \o <<32>> \o b : a \in S, b \in Joins(S, n - 1)}
Init == /\ T \in Types
        /\ \/ plain \in Joins(Good(T), MaxTok) /\ t = plain /\ z = StreamOpen(FALSE)
           \/ plain = <<>> /\ t \in Joins(Good(T) \cup Bads, MaxTok) /\ z \in {StreamOpen(FALSE), StreamOpen(TRUE)}
        /\ v \in {T.lo, T.hi}
        /\ out = <<>>
Next == /\ Len(out) <= MaxTok
        /\ \E o \in ReadOutcomes(T, t, z, v) :
             /\ v' = o[2]
             /\ z' = StreamAfter(o)
             /\ out' = Append(out, <<o[1], o[2]>>)
             /\ Assert(o[1] # "ok" => o[2] = v, <<t, o>>)
             /\ Assert(~o[4] => o[3] > z.p /\ o[3] <= Len(t), <<t, z, o>>)
             /\ Assert(z.bad => o[4] /\ o[1] # "ok", <<t, o>>)
        /\ UNCHANGED <<T, t, plain>>
Held == ZIn(v, T.lo, T.hi)
Answers == ENABLED Next \/ Len(out) > MaxTok                \* every stream gives some answer
(* values written with blanks in between all come back, then the stream is at its end *)
RECURSIVE AllOk(_)
AllOk(s) == s = <<>> \/ (Head(s)[1] = "ok" /\ AllOk(Tail(s)))
RECURSIVE Texts(_)
Texts(s) == IF s = <<>> THEN <<>> ELSE Render(Head(s)[2]) \o <<32>> \o Texts(Tail(s))
Returned == plain # <<>> =>
  IF Len(out) <= MaxTok THEN AllOk(out) /\ (Len(out) = MaxTok => Texts(out) = plain) ELSE out[Len(out)][1] = "dom"
=============================================================================
