-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit utilities and minimal types.                                        *)
(***************************************************************************)
EXTENDS SafeOps

ILog2(x) == ZBits(x) - 1                                   \* x > 0
RoundOut(x) == LET m == ZSub(ZPow2(SigBits(x)), ZOne) IN IF ZSign(x) >= 0 THEN m ELSE ZNot(m)

UtilVal(fn, T, x) ==
  CASE fn = "significant_bits" -> Zi(SigBits(x))
    [] fn = "ilog2" -> Zi(ILog2(x))
    [] fn = "round_out" -> RoundOut(x)
    [] fn = "bits_type" -> Zi(T.b)

(* the smallest type of the given signedness holding lo .. hi *)
StoredBits(sg, lo, hi) ==
  LET ok == {w \in Widths : ZLe(RLo([s |-> sg, b |-> w]), lo) /\ ZLe(hi, RHi([s |-> sg, b |-> w]))}
  IN  CHOOSE w \in ok : \A x \in ok : w <= x
=============================================================================
