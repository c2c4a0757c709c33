----------------------------- MODULE PrimsTrace -----------------------------
(***************************************************************************)
(* Conformance of the building blocks: recorded evaluations of checked::   *)
(* primitives (prim, cast), operators on checked_result (ext), interval    *)
(* operators and predicates (ivl, ivp), safe_compare (scmp), bit utilities *)
(* (util) and stored types (stored).  One transition validates one row.    *)
(***************************************************************************)
EXTENDS Interval, Bits, Json, IOUtils, TLC, FiniteSets

CONSTANTS Prop, KnownDeviations
ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

Sem(x) == IF x.ck = 1 THEN "x" ELSE "b"

CaseOK(x, c) ==
  CASE x.k = "prim" -> PrimOK(x.op, Rp(x.R), c[1], c[2], c[3], c[4])
    [] x.k = "cast" -> ConvOK(c[1], x.T, x.R, c[3], c[4])
    [] x.k = "ext" -> XOK(x.op, Rp(x.R), <<c[1], c[2]>>, <<c[3], c[4]>>, c[5], c[6])
    [] x.k = "ivl" -> IvlOK(x.op, Sem(x), Rp(x.R), <<c[1], c[2]>>, <<c[3], c[4]>>, c[5], c[6], c[7], c[8])
    [] x.k = "ivp" -> c[5] = IPred(x.op, <<c[1], c[2]>>, <<c[3], c[4]>>)
    [] x.k = "scmp" -> c[3] = "ok" /\ c[4] = (IF CmpTruth(x.op, c[1], c[2]) THEN ZOne ELSE ZZero)
    [] x.k = "util" -> c[3] = "ok" /\ c[4] = UtilVal(x.op, x.R, c[1])
    [] x.k = "stored" -> x.s = x.R.s /\ x.R.b = StoredBits(x.s = 1, c[1], c[2]) /\ x.R.sf = 0
    [] x.k = "pick" -> c[3] = "ok" /\ c[4] = (IF x.op = "max" THEN ZMax(c[1], c[2]) ELSE ZMin(c[1], c[2]))

Bad(x) == {i \in 1..Len(x.c) : ~CaseOK(x, x.c[i])}

Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo"
        /\ st' = "done"
        /\ UNCHANGED row
        /\ LET x == Rows[row]  n == Bad(x)
           IN  IF n # {} THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(n)) ELSE TRUE
=============================================================================
