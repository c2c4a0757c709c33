----------------------------- MODULE MC_Checked -----------------------------
(***************************************************************************)
(* The error classification and values of Checked, exhaustively on small   *)
(* representations: one initial state per (op, representation, a, b).      *)
(***************************************************************************)
EXTENDS Checked
CONSTANT MaxBits
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 6]
VARIABLES op, r, a, b
Ops == {"+", "-", "*", "/", "%", "neg", "<<", ">>", "&", "|", "^", "not"}
Vals(q) == {Zi(x) : x \in (0 - 2^MaxBits)..(2^MaxBits)} \cap {x \in {Zi(y) : y \in (0 - 2^MaxBits)..(2^MaxBits)} : Fits(x, q)}
Init == /\ op \in Ops
        /\ r \in [s : BOOLEAN, b : 2..MaxBits]
        /\ a \in Vals(r) /\ b \in Vals(r)
Next == UNCHANGED <<op, r, a, b>>

Exists_ == CASE op \in {"/", "%"} -> b # ZZero
             [] op = "<<" -> ZSign(b) >= 0 /\ (ZSign(a) >= 0 \/ b = ZZero) /\ (b = ZZero \/ ZLt(b, Zi(r.b)))
             [] op = ">>" -> ZSign(b) >= 0 /\ ZSign(a) >= 0 /\ ZLt(b, Zi(r.b))
             [] OTHER -> TRUE
(* an error is justified exactly when there is no representable result *)
Justified == (PrimErr(op, r, a, b) # {}) = ~(Exists_ /\ Fits(PrimVal(op, r, a, b), r))
             \/ (op = "<<" /\ a = ZZero)
(* the codes say what is wrong *)
Codes == LET e == PrimErr(op, r, a, b)  v == PrimVal(op, r, a, b) IN
  /\ ("pos" \in e => ZLt(RHi(r), v)) /\ ("neg" \in e => ZLt(v, RLo(r)))
  /\ ("dom" \in e => op \in {"/", "%"} /\ b = ZZero)
  /\ ("ns" \in e => ZSign(b) < 0 \/ ZSign(a) < 0) /\ ("nvs" \in e => ZSign(a) < 0)
  /\ ("stl" \in e => ZSign(b) > 0)
  /\ e \subseteq {"pos", "neg", "dom", "ns", "nvs", "stl"}
(* division and remainder fit together *)
DivMod == op = "/" /\ b # ZZero =>
  /\ ZAdd(ZMul(ZQuot(a, b), b), ZRem(a, b)) = a
  /\ ZLt(ZAbs(ZRem(a, b)), ZAbs(b))
  /\ (ZSign(ZRem(a, b)) = 0 \/ ZSign(ZRem(a, b)) = ZSign(a))
(* bit operations work bit by bit *)
Bit(x, k) == ZSub(ZShr(x, k), ZMul(Zi(2), ZShr(x, k + 1)))
Bitwise == /\ (op = "&" => \A k \in 0..(r.b - 1) : Bit(PrimVal(op, r, a, b), k) = ZMul(Bit(a, k), Bit(b, k)))
           /\ (op = "^" => \A k \in 0..(r.b - 1) : (Bit(PrimVal(op, r, a, b), k) = ZOne) = (Bit(a, k) # Bit(b, k)))
           /\ (op = "|" => \A k \in 0..(r.b - 1) : (Bit(PrimVal(op, r, a, b), k) = ZZero) = (Bit(a, k) = ZZero /\ Bit(b, k) = ZZero))
           /\ (op = "not" => \A k \in 0..(r.b - 1) : Bit(PrimVal(op, r, a, b), k) # Bit(a, k))
           /\ (op \in {"&", "|", "^", "not"} => Fits(PrimVal(op, r, a, b), r))
(* a conversion that fits is free, one that does not says in which direction *)
Conversions == op = "+" => \A d \in [s : BOOLEAN, b : 2..MaxBits] :
  LET e == CastFull(a, r, d) IN
  /\ (e = {}) = Fits(a, d)
  /\ ("pos" \in e => ZLt(RHi(d), a)) /\ (e \cap {"neg", "dom"} # {} => ZLt(a, RLo(d)))
=============================================================================
