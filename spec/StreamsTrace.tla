---------------------------- MODULE StreamsTrace ----------------------------
(***************************************************************************)
(* Recorded stream output (sout) and input (sin) of safe integers against  *)
(* Streams.                                                                *)
(*   sout  << value, text, outcome >>                 f: formatting        *)
(*   sin   << text, old value, outcome, value after, characters consumed,  *)
(*            stream failed >>     f: "e" when the stream throws on failure,*)
(*            "x" and "o" when it reads hexadecimal and octal numbers      *)
(*   ivout << lower limit, upper limit, text, outcome >>  an interval      *)
(*   rvout << value, text, outcome >>       a value with its static range  *)
(*   seq   << text, stream broken at first, << old value, outcome, value   *)
(*            after, position, stream failed >>... >>  one stream read again *)
(*   trip  << values written, outcome, values read >>                      *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils, TLC

CONSTANTS Prop, KnownDeviations
ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

Stars(n) == [i \in 1..n |-> 42]
Pad(t, w) == IF Len(t) >= w THEN <<>> ELSE Stars(w - Len(t))
OutText(f, v) ==
  LET t == Render(v) IN
  CASE f = "d" -> t
    [] f = "r" -> Pad(t, 24) \o t
    [] f = "l" -> t \o Pad(t, 24)
    [] f = "i" -> IF ZSign(v) < 0 THEN <<Minus>> \o Pad(t, 24) \o Tail(t) ELSE Pad(t, 24) \o t
    [] f = "t" -> Pad(t, 24) \o t \o <<124>> \o t
    [] f = "x" -> IF ZSign(v) < 0 THEN <<>> ELSE RenderBase(v, 4)
    [] f = "o" -> IF ZSign(v) < 0 THEN <<>> ELSE RenderBase(v, 3)

Base(f) == IF f = "x" THEN 16 ELSE IF f = "o" THEN 8 ELSE 10
InOK(x, c) ==
  LET T == x.R  t == c[1]  old == c[2]  k == c[3]  a == c[4]  n == Base(x.f)  s == ScanBase(t, n) IN
  IF k = "ok" THEN InMayOkBase(T, t, n) /\ a = s.v /\ c[5] = s.next - 1 /\ c[6] = 0
  ELSE /\ a = old
       /\ k \in InErrsBase(T, t, n) \/ (x.f = "e" /\ k = "system_error" /\ "dom" \in InErrsBase(T, t, n))
       /\ (~s.num => c[6] = 1)

RECURSIVE SeqOK(_, _, _, _)
SeqOK(T, t, z, steps) ==
  IF steps = <<>> THEN TRUE
  ELSE LET s == Head(steps)
           m == {o \in ReadOutcomes(T, t, z, s[1]) :
                   /\ o[1] = s[2]
                   /\ o[2] = s[3]
                   /\ o[3] \in {-1, s[4]}
                   /\ o[4] = (s[5] = 1)}
       IN  \E o \in m : SeqOK(T, t, StreamAfter(o), Tail(steps))

CaseOK(x, c) ==
  CASE x.k = "sout" -> c[3] = "ok" /\ c[2] = OutText(x.f, c[1])
    [] x.k = "sin" -> InOK(x, c)
    [] x.k = "seq" -> SeqOK(x.R, c[1], StreamOpen(c[2] = 1), c[3])
    [] x.k = "ivout" -> c[4] = "ok" /\ c[3] = RenderInterval(c[1], c[2])
    [] x.k = "rvout" -> c[3] = "ok" /\ c[2] = RenderInterval(x.R.lo, x.R.hi) \o Render(c[1])
    [] x.k = "trip" -> c[2] = "ok" /\ c[3] = c[1]

Bad(x) == {i \in 1..Len(x.c) : ~CaseOK(x, x.c[i])}
Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo"
        /\ st' = "done"
        /\ UNCHANGED row
        /\ LET x == Rows[row]  n == Bad(x)
           IN  IF n # {} THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(n)) ELSE TRUE
=============================================================================
