----------------------------- MODULE MC_Streams -----------------------------
(***************************************************************************)
(* Every short text over a small alphabet, read into every toy type, and   *)
(* every value written and read back.                                      *)
(***************************************************************************)
EXTENDS Streams, TLC
CONSTANT MaxLen
ToyArch == [c |-> 4, s |-> 5, i |-> 6, l |-> 8, ll |-> 8]
Alphabet == {32, 43, 45, 48, 50, 57, 120}
VARIABLE t
Mk(n, lo, hi) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), lo |-> Zi(lo), hi |-> Zi(hi), sf |-> 1]
Types == {Mk("i", -20, 29), Mk("ui", 2, 29), Mk("sc", -8, 7), Mk("us", 0, 20), Mk("l", -128, 127)}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
(* reading back what was written, with anything not a digit behind it *)
Faithful == \A v \in {Zi(i) : i \in -130..130} :
  LET s == Scan(Render(v) \o <<32>> \o t) IN s.num /\ s.v = v /\ s.next = Len(Render(v)) + 1
FaithfulBases == \A v \in {Zi(i) : i \in 0..70} : \A k \in {3, 4} :
  LET b == IF k = 4 THEN 16 ELSE 8
      s == ScanBase(RenderBase(v, k) \o <<32>> \o t, b)
  IN  /\ s.num /\ s.v = v /\ s.next = Len(RenderBase(v, k)) + 1
      /\ (k = 4 => ScanBase(<<48, 120>> \o RenderBase(v, k) \o <<32>> \o t, b).v = v)
(* a decimal number is the same number of octal digits or ends earlier *)
Nested == \A b \in {8, 16} : LET s == ScanBase(t, b)  d == Scan(t) IN
  (s.num /\ d.num) => IF b = 8 THEN s.next <= d.next ELSE s.next >= d.next
Canonical == \A i \in 0..130 : LET r == Render(Zi(i)) IN r[1] # 48 \/ i = 0
(* what is accepted is in range and consists of blanks, a sign, digits *)
Accepted == \A T \in Types : LET s == Scan(t) IN
  InMayOk(T, t) => /\ ZIn(s.v, T.lo, T.hi)
                   /\ s.next > 1 /\ IsDigit(t[s.next - 1])
                   /\ (s.next <= Len(t) => ~IsDigit(t[s.next]))
                   /\ \A p \in 1..(s.next - 1) : IsDigit(t[p]) \/ IsSpace(t[p]) \/ t[p] \in {Plus, Minus}
(* never both fine and an error, except for "-0" *)
Decided == \A T \in Types : (InErrs(T, t) # {} /\ InMayOk(T, t)) => T.s = 0 /\ Scan(t).neg
=============================================================================
