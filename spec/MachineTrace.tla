---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Recorded histories of real safe variables against SafeMachine.          *)
(* A line is  [pool, init, h |-> << << step number, argument, outcome,     *)
(* value of the expression, values of all variables afterwards >>, ... >>].*)
(* The machine follows the recorded values; a step it does not admit is    *)
(* printed and the history is followed on from what was recorded.          *)
(***************************************************************************)
EXTENDS SafeMachine, Json, IOUtils, TLC

CONSTANTS Prop, KnownDeviations
ASSUME ArchBits = LP64
Pools == ndJsonDeserialize(IOEnv.POOLS)
Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, n, vals

(* steps whose own value is recorded *)
Valued == {"cmp", "cmpb", "ccmp", "get", "un"}
Zeros(P) == [i \in 1..Len(P.T) |-> ZZero]
Uses(st, Ops) == st.a \in {"asg", "asgb", "bin", "binb", "bbin", "chain"} /\ (st.op \in Ops \/ (st.a = "chain" /\ st.op2 \in Ops))
Accepts(P, before, st, c) ==
  LET k == c[3]  v == c[4]  a == c[5] IN
  CASE Prop = "C03" -> InRange(P, a)
    [] Prop = "C04" -> \A i \in 1..Len(P.T) : a[i] # before[i] => k = "ok" /\ i \in Targets(st)
    \* the value of everything that completes is exact
    [] Prop = "C01" -> k = "ok" => \E o \in Outcomes(P, before, st, c[2]) :
                          o[1] = "ok" /\ a = o[2] /\ (st.a \in Valued => v = o[3])
    \* errors exactly when justified, with a justified code
    [] Prop = "C02" -> \E o \in Outcomes(P, before, st, c[2]) : k = o[1]
    [] OTHER -> \/ Prop = "C08" /\ st.a \notin {"setb", "set", "ctor", "get"}
                \/ Prop = "C09" /\ ~Uses(st, ShiftOps)
                \/ Prop = "C10" /\ st.a # "not" /\ ~Uses(st, BitOps)
                \/ Prop = "C07" /\ st.a \notin {"cmp", "cmpb", "ccmp"}
                \/ Prop = "C17" /\ st.a \notin {"in", "trip"}
                \/ \E o \in Outcomes(P, before, st, c[2]) :
                       k = o[1] /\ a = o[2] /\ (k = "ok" /\ st.a \in Valued => v = o[3])

Init == h \in 1..Len(Hist) /\ n = 1 /\ vals = Hist[h].init
Next == /\ n <= Len(Hist[h].h)
        /\ LET P == Pools[Hist[h].pool]
               c == Hist[h].h[n]
           IN  /\ IF Accepts(P, vals, P.steps[c[1]], c) THEN TRUE
                  ELSE PrintT("REJ " \o ToString(h) \o " {" \o ToString(n) \o "}")
               /\ vals' = c[5]
        /\ n' = n + 1 /\ UNCHANGED h
=============================================================================
