------------------------------ MODULE MC_ExtInt ------------------------------
(***************************************************************************)
(* The tables of ExtInt against all completions: "neg" stands for any      *)
(* integer below the type, "pos" for any above, "unknown" for any.         *)
(***************************************************************************)
EXTENDS ExtInt, FiniteSets
CONSTANTS ToyBits, Far
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 6]
VARIABLES r, x, y
Ints == {Zi(i) : i \in (0 - Far)..Far}
Vals(q) == {i \in Ints : Fits(i, q)}
States(q) == {XVal(v) : v \in Vals(q)} \cup {XNeg, XPos, XUnk}
Init == r \in [s : BOOLEAN, b : {ToyBits}] /\ x \in States(r) /\ y \in States(r)
Next == UNCHANGED <<r, x, y>>
CmpT(op, i, j) == CASE op = "<" -> ZLt(i, j) [] op = "<=" -> ZLe(i, j) [] op = ">" -> ZLt(j, i) [] op = ">=" -> ZLe(j, i)
                     [] op = "==" -> i = j [] op = "!=" -> i # j
Compl(e) == CASE XClass(e) = "val" -> {e[2]}
              [] XClass(e) = "neg" -> {i \in Ints : ZLt(i, RLo(r))}
              [] XClass(e) = "pos" -> {i \in Ints : ZLt(RHi(r), i)}
              [] OTHER -> Ints
(* decided comparisons hold for every completion; undecided ones really are *)
CmpSound == \A op \in XCmpOps :
  LET t == XCmp(op, x, y)  tr == {CmpT(op, i, j) : i \in Compl(x), j \in Compl(y)}
  IN  CASE t = "true" -> tr = {TRUE} [] t = "false" -> tr = {FALSE} [] t = "indet" -> tr = {TRUE, FALSE}
Trichotomy == XClass(x) = "val" /\ XClass(y) = "val" =>
  Cardinality({op \in {"<", "==", ">"} : XCmp(op, x, y) = "true"}) = 1
(* values are exact, errors between values have the right direction *)
Exact == XClass(x) = "val" /\ XClass(y) = "val" => \A op \in {"+", "-", "*"} :
  LET e == XOp(op, r, x, y)  v == ArithVal(op, x[2], y[2]) IN
  CASE e[1] = "ok" -> e[2] = v /\ Fits(v, r) [] e[1] = "pos" -> ZLt(RHi(r), v) [] e[1] = "neg" -> ZLt(v, RLo(r)) [] OTHER -> FALSE
(* sums and differences of two overflows of one direction: every completion agrees *)
SumDir == \A op \in {"+", "-"} : XInf(x) /\ XInf(y) /\ r.s =>
  LET e == XOp(op, r, x, y) IN
  e[1] \in {"pos", "neg"} => \A i \in Compl(x), j \in Compl(y) :
     IF e[1] = "pos" THEN ZLt(RHi(r), ArithVal(op, i, j)) ELSE ZLt(ArithVal(op, i, j), RLo(r))
(* products and quotients: the sign is that of every completion *)
SignLaw == \A op \in {"*", "/"} :
  LET e == XOp(op, r, x, y) IN
  (e[1] \in {"pos", "neg"} /\ XSign(y) # 0) =>
    \A i \in Compl(x), j \in Compl(y) : (r.s /\ j # ZZero) =>
       ZSign(i) * ZSign(j) = (IF e[1] = "pos" THEN 1 ELSE -1)
Commute == XAdd(r, x, y) = XAdd(r, y, x) /\ XMul(r, x, y) = XMul(r, y, x)
UnknownStays == XClass(x) = "unk" => \A op \in {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "not", "neg"} : XClass(XOp(op, r, x, y)) = "unk"
ShiftInverse == XClass(x) = "val" /\ XClass(y) = "val" => XShl(r, x, y) = XShr(r, x, XVal(ZNeg(y[2])))
=============================================================================
