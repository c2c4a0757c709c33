---------------------------- MODULE DispatchTrace ----------------------------
(***************************************************************************)
(* Recorded deliveries of errors.  Kinds of rows                           *)
(*  lbin lasg lun lconv  operators and conversions under a policy whose    *)
(*        handlers log and return: << t, u, outcome, log >>                *)
(*  lin   stream input, same policy:  << text, old, outcome, log, after >> *)
(*  pbin pconv  under a predefined policy p: << t, u, outcome, code >>     *)
(*  disp  dispatch<> of every code:  << code, outcome, code thrown, log >> *)
(*  dflt  default construction: << outcome, log >>                         *)
(*  err   the error_code of a code: << code, number, category, message,    *)
(*        name, action, equal across translation units >>                  *)
(*  cond  << code or "x" for a foreign one, action, equivalent >>          *)
(***************************************************************************)
EXTENDS Dispatch, Json, IOUtils, TLC, FiniteSets

CONSTANTS Prop, KnownDeviations
ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

W(x) == IF x.pp = "c" THEN x.w ELSE <<>>
(* built-in division by zero and overflowing division have no value to go on with *)
MayCrash(op, R, T, U, t, u) ==
  LET V == WorkRep(op, R, T, U) IN op \in {"/", "%"} /\ PrimErr(op, V, Wrap(t, V), Wrap(u, V)) # {}

BinOK(x, c) ==
  LET op == x.op  R == Rp(x.R)  t == c[1]  u == c[2] IN
  IF op \in CmpOps THEN c[3] = "ok" /\ CmpListOK(CmpRep(x.pp, W(x), x.T, x.U), x.T, x.U, t, u, c[4])
  ELSE /\ BinListOK(op, R, x.T, x.U, t, u, c[4])
       /\ c[3] = "ok" \/ (c[3] = "crash" /\ MayCrash(op, R, x.T, x.U, t, u))
AsgOK2(x, c) ==
  LET op == AsgBase(x.op)  R == Rp(x.R)  t == c[1]  u == c[2] IN
  /\ IF c[3] = "crash" THEN MayCrash(op, R, x.T, x.U, t, u) /\ BinListOK(op, R, x.T, x.U, t, u, c[4])
     ELSE c[3] = "ok" /\ AsgListOK(op, R, x.T, x.U, t, u, c[4])
UnListOK(x, c) ==
  LET R == Rp(x.R)  t == c[1] IN
  /\ c[3] = "ok"
  /\ CASE x.op \in Steps -> AsgListOK(StepOf(x.op), R, x.T, IntT, t, ZOne, c[4])
       [] x.op = "neg" -> BinListOK("-", R, IntT, x.T, ZZero, t, c[4])
       [] OTHER -> c[4] = <<>>
EffectOK(p, D, k, code) ==
  LET e == Effect(p, D) IN IF e[1] = "ok" THEN k = "ok" ELSE k = "throw" /\ code \in e[2]

CodeAt(i) == Codes[i + 1]
CaseOK(x, c) ==
  CASE x.k = "lbin" -> BinOK(x, c)
    [] x.k = "lasg" -> AsgOK2(x, c)
    [] x.k = "lun" -> UnListOK(x, c)
    [] x.k = "lconv" -> c[3] = "ok" /\ Matches(ConvDeliveries(c[1], x.T, x.R), c[4])
    [] x.k = "lin" -> /\ c[3] = "ok"
                      /\ IF c[4] = <<>> THEN InMayOk(x.R, c[1]) /\ c[5] = Scan(c[1]).v
                         ELSE Matches(<<InErrs(x.R, c[1])>>, c[4]) /\ (~Scan(c[1]).num => c[5] = c[2])
    [] x.k = "pbin" ->
         LET R == Rp(x.R)  D == BinDeliveries(x.op, R, x.T, x.U, c[1], c[2])
         IN  \/ EffectOK(x.p, D, c[3], c[4])
             \/ Optional(x.op, R, x.T, x.U, c[1], c[2]) /\ EffectOK(x.p, Front(D), c[3], c[4])
             \/ c[3] = "crash" /\ Effect(x.p, D)[1] = "ok" /\ MayCrash(x.op, R, x.T, x.U, c[1], c[2])
    [] x.k = "pconv" -> EffectOK(x.p, ConvDeliveries(c[1], x.T, x.R), c[3], c[4])
    [] x.k = "disp" -> IF x.p = "log" THEN c[2] = "ok" /\ Matches(<<{c[1]}>>, c[4])
                       ELSE IF Reaction(x.p, c[1]) = "throw" THEN c[2] = "throw" /\ c[3] = c[1] ELSE c[2] = "ok"
    [] x.k = "dflt" -> IF x.p = "log" THEN c[1] = "ok" /\ Matches(<<{"uninit"}>>, c[2])
                       ELSE IF Reaction(x.p, "uninit") = "throw" THEN c[1] = "throw" ELSE c[1] = "ok"
    [] x.k = "err" -> LET k == CodeAt(c[1]) IN
         c[2] = c[1] /\ c[3] = "safe numerics error" /\ c[4] = Message(k) /\ c[5] = Name(k)
         /\ c[6] \in 0..(Len(Actions) - 1) /\ Actions[c[6] + 1] = Action(k) /\ c[7] = 1
    [] x.k = "cond" -> c[3] = (IF c[1] # -1 /\ Action(CodeAt(c[1])) = Actions[c[2] + 1] THEN 1 ELSE 0)
    [] x.k = "act" -> c[1] \in 0..(Len(Actions) - 1) /\ c[2] = GroupName /\ c[3] = GroupName /\ c[4] = 1
    \* the codes a conversion can have come first
    [] x.k = "cnt" -> c[1] = Cardinality(ConversionCodes) /\ c[2] = Len(Codes) /\ {Codes[i] : i \in 1..c[1]} = ConversionCodes

Bad(x) == {i \in 1..Len(x.c) : ~CaseOK(x, x.c[i])}
Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo"
        /\ st' = "done"
        /\ UNCHANGED row
        /\ LET x == Rows[row]  n == Bad(x)
           IN  IF n # {} THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(n)) ELSE TRUE
=============================================================================
