------------------------------ MODULE OpsTrace ------------------------------
(***************************************************************************)
(* Conformance: recorded evaluations of the real operators against         *)
(* SafeOps/Promotion.  Each row is one operator instantiated for one pair  *)
(* of operand types and one policy, with a batch of evaluations            *)
(*     << t, u, outcome code, value, handler >>.                           *)
(* Validating a row is one transition; rejected evaluations are printed.   *)
(***************************************************************************)
EXTENDS Trap, Json, IOUtils, TLC, FiniteSets

CONSTANTS Prop, KnownDeviations

ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES row, st

W(x) == IF x.pp = "c" THEN x.w ELSE <<>>

BinCase(x, c) ==
  LET op == x.op  T == x.T  U == x.U  R == Rp(x.R)  t == c[1]  u == c[2]  k == c[3]  v == c[4]
  IN  CASE Prop = "C01" -> BinValueOK(op, R, t, u, k, v)
        [] Prop = "C02" -> BinErrorOK(op, R, T, U, t, u, k)
        [] Prop = "C05" -> k = "ok" => ZIn(v, x.R.lo, x.R.hi)
        [] Prop = "C06" -> TRUE
        [] Prop = "C07" -> CmpOK(op, CmpRep(x.pp, W(x), T, U), T, U, t, u, k, v)
        [] Prop = "C18" -> IF op \in CmpOps THEN CmpOK(op, CmpRep(x.pp, W(x), T, U), T, U, t, u, k, v)
                           ELSE /\ BinValueOK(op, R, t, u, k, v)
                                /\ BinErrorOK(op, R, T, U, t, u, k)
                                /\ k = "ok" => ZIn(v, x.R.lo, x.R.hi)
        [] Prop \in {"C09", "C10"} -> /\ BinValueOK(op, R, t, u, k, v)
                                      /\ BinErrorOK(op, R, T, U, t, u, k)

(* compound assignment: << t, u, outcome, value, handler, target afterwards >> *)
AsgCase(x, c) ==
  LET op == AsgBase(x.op)  T == x.T  U == x.U  R == Rp(x.R)  t == c[1]  u == c[2]  k == c[3]  a == c[6]
      v == BinVal(op, R, t, u)
  IN  CASE Prop = "C01" -> k = "ok" => a = v /\ c[4] = v      \* so is the value of the expression
        [] Prop = "C02" -> IF k = "ok" THEN AsgErr(op, R, T, U, t, u) = {} \/ AlwaysZero(op, T, U)
                           ELSE k \in AsgErr(op, R, T, U, t, u) \cup BinMayRefuse(op, R, T, U, t, u)
        [] Prop = "C03" -> ZIn(a, T.lo, T.hi)
        [] Prop = "C04" -> k # "ok" => a = t
        [] Prop \in {"C09", "C10", "C18"} -> AsgOK(op, R, T, U, t, u, k, a)
(* unary: << t, -, outcome, value, handler, operand afterwards >> *)
UnCase(x, c) ==
  LET op == x.op  T == x.T  R == Rp(x.R)  t == c[1]  k == c[3]  v == c[4]  a == c[6]
  IN  CASE Prop = "C06" -> TRUE
        [] Prop = "C01" -> k = "ok" => v = UnVal(op, R, t) /\ a = UnAfter(op, t)
        [] Prop = "C02" -> LET e == UnErr(op, R, T, t) IN IF k = "ok" THEN e = {} ELSE k \in e
        [] Prop = "C03" -> ZIn(a, T.lo, T.hi)
        [] Prop = "C04" -> k # "ok" => a = t
        [] Prop = "C05" -> k = "ok" => IF op \in Steps THEN ZIn(v, T.lo, T.hi) ELSE ZIn(v, x.R.lo, x.R.hi)
        [] Prop = "C10" -> UnOK(op, R, T, t, k, v, a)

(* conversion of c[1] to x.R: << x, old value of the target, outcome, value, handler, target afterwards >> *)
ConvCase(x, c) ==
  CASE Prop \in {"C08", "C18"} ->
         /\ ConvOK(c[1], x.T, x.R, c[3], c[4])
         /\ (x.op = "set" => c[6] = (IF c[3] = "ok" THEN c[1] ELSE c[2]))
    [] Prop = "C03" -> x.op \in {"set", "ctor"} =>
         /\ (x.op = "set" => ZIn(c[6], x.R.lo, x.R.hi))
         /\ (c[3] = "ok" => ZIn(c[4], x.R.lo, x.R.hi))
    [] Prop = "C04" -> x.op = "set" /\ c[3] # "ok" => c[6] = c[2]

(***************************************************************************)
(* C16, constant evaluation:                                               *)
(*   << t, u, "ok" or "rej", value, -, target afterwards,                  *)
(*      outcome, value and target of the same operation at run time >>     *)
(* Accepted exactly when it succeeds at run time, with the same value, and *)
(* both as specified.                                                      *)
(***************************************************************************)
ConstCase(x, c) ==
  LET t == c[1]  u == c[2]  k == c[3]  v == c[4]  a == c[6]
      R == Rp(x.R)
      o == IF x.k = "asg" THEN AsgBase(x.op) ELSE x.op
      spared == x.k \in {"bin", "asg"} /\ AlwaysZero(o, x.T, x.U)
      errs == CASE x.k = "bin" -> IF x.op \in CmpOps THEN CmpErr(CmpRep(x.pp, W(x), x.T, x.U), x.T, x.U, t, u)
                                  ELSE BinErr(x.op, R, x.T, x.U, t, u)
                [] x.k = "asg" -> AsgErr(o, R, x.T, x.U, t, u)
                [] x.k = "un" -> UnErr(x.op, R, x.T, t)
                [] x.k = "conv" -> ConvErr(t, x.T, x.R)
      refuse == IF x.k \in {"bin", "asg"} /\ o \notin CmpOps THEN BinMayRefuse(o, R, x.T, x.U, t, u) ELSE {}
      settled == x.k = "bin" /\ x.op \in CmpOps
      val == CASE x.k = "bin" -> IF x.op \in CmpOps THEN (IF CmpTruth(x.op, t, u) THEN ZOne ELSE ZZero)
                                 ELSE BinVal(x.op, R, t, u)
               [] x.k = "asg" -> BinVal(o, R, t, u)
               [] x.k = "un" -> UnVal(x.op, R, t)
               [] x.k = "conv" -> t
  IN  /\ (k = "ok") = (c[7] = "ok")
      /\ IF k = "ok"
         THEN /\ errs = {} \/ spared \/ settled
              /\ v = val /\ c[8] = v
              /\ (x.k = "asg" => a = val) /\ (x.k = "un" => a = UnAfter(x.op, t) /\ c[9] = a)
         ELSE errs # {} \/ refuse # {}

CaseOK(x, c) ==
  CASE Prop = "C16" -> ConstCase(x, c)
    [] x.k = "conv" -> ConvCase(x, c)
    [] x.k = "bin" -> BinCase(x, c)
    [] x.k = "asg" -> AsgCase(x, c)
    [] x.k = "un" -> UnCase(x, c)

(* C18: where nothing can fail the static range of the result is the range of the results *)
Tight(x) ==
  LET g == OpRange(x.op, Rp(x.R), x.T, x.U) IN
  ExactRange(x.op) /\ BinCan(x.op, Rp(x.R), x.T, x.U) = "no" => x.R.lo = g.lo /\ x.R.hi = g.hi

RowOK(x) ==
  CASE x.k = "bin" /\ Prop = "C18" -> x.op \in CmpOps \/ (Tight(x) /\ TypeOK(x.op, x.pp, W(x), x.T, x.U, x.R))
    [] x.k = "bin" -> (Prop = "C06" => TypeOK(x.op, x.pp, W(x), x.T, x.U, x.R))
    \* the type of -x is that of 0 - x with an int 0 (where the emulated machine has that int), the type of ~x that of x ^ x
    [] x.k = "un" /\ Prop = "C06" ->
         /\ (x.op = "not" => TypeOK("^", x.pp, W(x), x.T, x.T, x.R))
         /\ (x.op = "neg" /\ (x.pp = "c" => Bits("i") \in {x.w[i] : i \in 1..5})
               => TypeOK("-", x.pp, W(x), IntT, x.T, x.R))
    [] OTHER -> TRUE

Deviation(x, c) == ""
KnownCase(x, c) == LET d == Deviation(x, c) IN d # "" /\ d \in KnownDeviations

Bad(x) == {i \in 1..Len(x.c) : ~CaseOK(x, x.c[i])}

Init == row \in 1..Len(Rows) /\ st = "todo"
Next == /\ st = "todo"
        /\ st' = "done"
        /\ UNCHANGED row
        /\ LET x == Rows[row]
               b == Bad(x)
               d == {i \in b : KnownCase(x, x.c[i])}
               n == b \ d
               ds == {Deviation(x, x.c[i]) : i \in d}
           IN  /\ IF n # {} \/ ~RowOK(x)
                  THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(n)) ELSE TRUE
               /\ \A e \in ds : PrintT("DEV " \o e \o " " \o ToString(row) \o " "
                                   \o ToString(Cardinality({i \in d : Deviation(x, x.c[i]) = e})))
=============================================================================
