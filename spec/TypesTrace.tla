----------------------------- MODULE TypesTrace -----------------------------
(***************************************************************************)
(* Conformance: what the library's types say about themselves (traits,     *)
(* pol), literals (lit, litconv) and programs mixing policies (mix).       *)
(***************************************************************************)
EXTENDS Types, Streams, Json, IOUtils, TLC, FiniteSets

CONSTANTS KnownDeviations
ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

TraitsBad(x) ==
  LET want == Traits(Rp(x.B), x.l, x.h)
      r == Rp(x.R)
  IN  {f \in DOMAIN want : x[f] # want[f]}
      \cup {f \in {"same", "limits_type", "align", "array", "base", "is_safe", "numeric", "integer", "notnum", "trivial", "novoid"} : x[f] # 1}
      \cup (IF x.size * 8 # x.B.b THEN {"size"} ELSE {})
      \cup (IF r # Rp(x.B) \/ x.R.n # x.B.n THEN {"underlying type"} ELSE {})
      \cup (CASE x.op = "safe" -> IF x.l = RLo(r) /\ x.h = RHi(r) THEN {} ELSE {"whole range"}
              [] x.op = "range" -> IF r.b = StoredBits(r.s, x.l, x.h) THEN {} ELSE {"stored type"}
              [] OTHER -> {})

LitBad(x) ==
  LET L == LitType(x.sg = 1, x.v) IN
  (IF SameT(L, x.R) /\ x.R.sf = 1 THEN {} ELSE {"type or limits"})
  \cup (IF x.lowest = x.v /\ x.base = x.v THEN {} ELSE {"lowest or base value"})
  \cup (IF x.o = Render(x.v) THEN {} ELSE {"text"})
  \cup (IF \A i \in DOMAIN x.u : SameT(LitUn(x.u[i].op, L), x.u[i].R) /\ x.u[i].R.sf = 1 THEN {} ELSE {"unary operator"})
  \cup (IF \A i \in DOMAIN x.c : LET c == x.c[i] IN ZIn(x.v, c[1], c[2]) => c[3] = x.v /\ c[4] = x.v THEN {} ELSE {"conversion"})

Bad(x) ==
  CASE x.k = "traits" -> TraitsBad(x)
    [] x.k = "lit" -> LitBad(x)
    [] x.k = "pol" -> IF x.p = 1 /\ x.e = 1 THEN {} ELSE {"policy"}
    \* a negative literal for an unsigned safe type may also be left to fail at run time (OpsTrace has those)
    [] x.k = "litconv" -> IF ZSign(x.v) < 0 /\ x.D.s = 0 /\ x.D.sf = 1 THEN {} ELSE
                          IF (x.acc = 1) = ZIn(x.v, x.D.lo, x.D.hi) THEN {} ELSE {"conversion accepted or not"}
    [] x.k = "litun" -> IF (x.acc = 1) = (ZIn(LitUn(x.op, LitType(x.sg = 1, x.v)).lo, RLo(x.r), RHi(x.r)))
                        THEN {} ELSE {"unary operator accepted or not"}
    [] x.k = "mix" -> IF (x.acc = 1) = MayMeet(x.x, x.y) THEN {} ELSE {"mixed policies"}
    [] x.k = "move" -> IF x.acc = 1 THEN {} ELSE {"conversion between policies"}

Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ UNCHANGED row
        /\ LET b == Bad(Rows[row]) IN
           IF b # {} THEN PrintT("REJ " \o ToString(row) \o " {}")
                          /\ PrintT("WHY " \o ToString(row) \o " wrong " \o ToString(b))
           ELSE TRUE
=============================================================================
