----------------------------- MODULE TrapTrace -----------------------------
(***************************************************************************)
(* Conformance of trap policies: each row is one operation on two operand  *)
(* types, with the compiler's answer (acc: 1 accepted under a policy that  *)
(* traps everything, loose: the same for arithmetic errors only, 2 not     *)
(* asked) and the outcomes the same operation had at run time under a      *)
(* throwing policy.                                                        *)
(***************************************************************************)
EXTENDS Trap, Json, IOUtils, TLC

CONSTANTS KnownDeviations
ASSUME ArchBits = LP64
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES row, st

W(x) == IF x.pp = "c" THEN x.w ELSE <<>>
R(x) == Rp(x.R)

(* uses of a safe type which are not operators *)
FixCan(what) == CASE what = "default" -> "yes"      \* an uninitialized variable is an error
                  [] what = "input" -> "yes"        \* the text may be anything
                  [] what = "output" -> "no"
                  [] what = "copy" -> "no"
FixLoose(what) == IF what = "default" THEN "no" ELSE FixCan(what)

Can(x) == CASE x.k = "bin" -> IF x.op \in CmpOps THEN CmpCan(CmpRep(x.pp, W(x), x.T, x.U), x.T, x.U)
                              ELSE BinCan(x.op, R(x), x.T, x.U)
            [] x.k = "asg" -> AsgCan(AsgBase(x.op), R(x), x.R, x.T, x.U)
            [] x.k = "un" -> UnCan(x.op, R(x), x.T)
            [] x.k = "conv" -> ConvCan(x.T, x.R)
            [] x.k = "fix" -> FixCan(x.op)
Loose(x) == CASE x.k = "bin" /\ x.op \in ShiftOps -> LooseBin(x.op, R(x), x.T, x.U)
              [] x.k = "asg" -> LooseAsg(AsgBase(x.op), R(x), x.R, x.T, x.U)
              [] x.k = "fix" -> FixLoose(x.op)
              [] OTHER -> Can(x)

Failed(x) == {i \in DOMAIN x.c : x.c[i][3] # "ok"}
FailedArith(x) == {i \in DOMAIN x.c : x.c[i][3] # "ok" /\ x.c[i][5] \notin {"i", "u", "v"}}

Wrong(x) ==
  (IF x.acc = 1 /\ Can(x) = "yes" THEN {"accepted although it can fail"} ELSE {})
  \cup (IF x.acc = 1 /\ Failed(x) # {} THEN {"accepted although it failed"} ELSE {})
  \cup (IF x.acc = 0 /\ Can(x) = "no" THEN {"refused although it cannot fail"} ELSE {})
  \cup (IF x.loose = 1 /\ Loose(x) = "yes" THEN {"accepted (arithmetic errors trapped) although it can fail"} ELSE {})
  \cup (IF x.loose = 1 /\ FailedArith(x) # {} THEN {"accepted (arithmetic errors trapped) although it failed"} ELSE {})
  \cup (IF x.loose = 0 /\ Loose(x) = "no" THEN {"refused (arithmetic errors trapped) although it cannot fail"} ELSE {})

Init == row \in 1..Len(Rows) /\ st = "new"
Next == /\ st = "new" /\ st' = "done" /\ UNCHANGED row
        /\ LET x == Rows[row]  w == Wrong(x)
           IN  IF w # {}
               THEN PrintT("REJ " \o ToString(row) \o " " \o ToString(Failed(x)))
                    /\ PrintT("WHY " \o ToString(row) \o " " \o (CHOOSE z \in w : TRUE) \o "; spec says " \o Can(x))
               ELSE PrintT("CAN " \o Can(x))
=============================================================================
