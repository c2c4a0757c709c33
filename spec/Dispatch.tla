------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which errors are delivered to which handler.                            *)
(***************************************************************************)
EXTENDS Promotion, Streams

(* the error codes in numerical order, their classes, names and messages *)
Codes == <<"ok", "pos", "neg", "dom", "range", "prec", "under", "nvs", "ns", "stl", "uninit">>
Name(k) == CASE k = "ok" -> "success" [] k = "pos" -> "positive_overflow_error" [] k = "neg" -> "negative_overflow_error"
             [] k = "dom" -> "domain_error" [] k = "range" -> "range_error" [] k = "prec" -> "precision_overflow_error"
             [] k = "under" -> "underflow_error" [] k = "nvs" -> "negative_value_shift" [] k = "ns" -> "negative_shift"
             [] k = "stl" -> "shift_too_large" [] k = "uninit" -> "uninitialized_value" [] OTHER -> "?"
Message(k) == CASE k = "ok" -> "success" [] k = "pos" -> "positive overflow error" [] k = "neg" -> "negative overflow error"
             [] k = "dom" -> "domain error" [] k = "range" -> "range error" [] k = "prec" -> "precision_overflow_error"
             [] k = "under" -> "underflow error" [] k = "nvs" -> "negative value shift" [] k = "ns" -> "negative shift"
             [] k = "stl" -> "shift too large" [] k = "uninit" -> "uninitialized value" [] OTHER -> "?"
ConversionCodes == {"ok", "pos", "neg", "dom"}
GroupName == "safe numerics error group"
(* actions in numerical order *)
Actions == <<"none", "uninitialized", "arithmetic", "implementation", "undefined">>
Action(k) == CASE k = "ok" -> "none"
               [] k \in ArithErrors -> "arithmetic"
               [] k \in ShiftErrors -> "implementation"
               [] k = "uninit" -> "uninitialized"
               [] OTHER -> "?"
(* the handler of a policy that is responsible *)
Handler(k) == CASE Action(k) = "arithmetic" -> "a" [] Action(k) = "implementation" -> "i"
                [] Action(k) = "undefined" -> "u" [] Action(k) = "uninitialized" -> "v" [] OTHER -> "-"

(* what the predefined policies do in the four handlers *)
PolicyOf(p) ==
  CASE p = "loose" -> [a |-> "throw", i |-> "ignore", u |-> "ignore", v |-> "ignore"]
    [] p \in {"strict", "default"} -> [a |-> "throw", i |-> "throw", u |-> "throw", v |-> "ignore"]
    [] p = "loose_trap" -> [a |-> "trap", i |-> "ignore", u |-> "ignore", v |-> "ignore"]
    [] p = "strict_trap" -> [a |-> "trap", i |-> "trap", u |-> "trap", v |-> "trap"]
Reaction(p, k) == IF Handler(k) = "-" THEN "?" ELSE PolicyOf(p)[Handler(k)]

(***************************************************************************)
(* The deliveries of one operation when handlers return: the operands are  *)
(* brought to the type of the operation (left, then right), the operation  *)
(* is carried out on what that gives, its result is brought to the result  *)
(* type.  Each of these steps delivers at most one error.  A delivery list *)
(* is a sequence of sets of justified codes.                               *)
(***************************************************************************)
Opt(S) == IF S = {} THEN <<>> ELSE <<S>>
BinDeliveries(op, R, T, U, t, u) ==
  IF op \in BitOps THEN <<>>
  ELSE LET W == WorkRep(op, R, T, U)
           tw == Wrap(t, W)  uw == Wrap(u, W)
           e == PrimErr(op, W, tw, uw) \cup PrimMayRefuse(op, W, tw, uw)
       IN  Opt(CastFull(t, Rp(T), W)) \o Opt(CastFull(u, Rp(U), W))
           \o (IF e # {} THEN <<e>> ELSE IF W = R THEN <<>> ELSE Opt(OutOfRange(PrimVal(op, W, tw, uw), R)))
(* a recorded list << <<handler, code>>, ... >> matches *)
Matches(D, L) == /\ Len(L) = Len(D)
                 /\ \A i \in 1..Len(D) : L[i][2] \in D[i] /\ L[i][1] = Handler(L[i][2])
WellRouted(L) == \A i \in 1..Len(L) : L[i][1] = Handler(L[i][2])
(* 0 << digits may be refused or not *)
Optional(op, R, T, U, t, u) ==
  LET W == WorkRep(op, R, T, U) IN op = "<<" /\ PrimErr(op, W, Wrap(t, W), Wrap(u, W)) = {} /\ PrimMayRefuse(op, W, Wrap(t, W), Wrap(u, W)) # {}
Front(s) == SubSeq(s, 1, Len(s) - 1)
BinListOK(op, R, T, U, t, u, L) ==
  LET D == BinDeliveries(op, R, T, U, t, u)
  IN  Matches(D, L) \/ (Optional(op, R, T, U, t, u) /\ Matches(Front(D), L))
ConvDeliveries(x, S, D) == Opt(ConvErr(x, S, D))
(* x op= u: the deliveries of the operation, then those of storing the result; when the operation has
   failed the value to be stored is arbitrary *)
AsgListOK(op, R, T, U, t, u, L) ==
  LET D == BinDeliveries(op, R, T, U, t, u) IN
  IF D = <<>> \/ (Optional(op, R, T, U, t, u) /\ L = <<>>)
  THEN Matches(Opt(CastErr(BinVal(op, R, t, u), R, Rp(T), T.lo, T.hi)), L)
  ELSE \/ Matches(D, L)
       \/ Len(L) = Len(D) + 1 /\ Matches(D, Front(L)) /\ WellRouted(L)
CmpListOK(Rc, T, U, t, u, L) ==
  L = <<>> \/ Matches(Opt(CastFull(t, Rp(T), Rc)) \o Opt(CastFull(u, Rp(U), Rc)), L)
(* what a predefined policy makes of a delivery list: << "throw", codes >> or << "ok", {} >> *)
RECURSIVE Effect(_, _)
Effect(p, D) == IF D = <<>> THEN <<"ok", {}>>
                ELSE IF \E k \in D[1] : Reaction(p, k) = "throw" THEN <<"throw", D[1]>> ELSE Effect(p, Tail(D))
=============================================================================
