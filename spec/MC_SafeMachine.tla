-------------------------- MODULE MC_SafeMachine --------------------------
(***************************************************************************)
(* Every history of a program with NV safe variables on a toy machine.  *)
(***************************************************************************)
EXTENDS SafeMachine, TLC, FiniteSets
ToyArch == [c |-> 2, s |-> 3, i |-> 4, l |-> 5, ll |-> 5]
CONSTANT Pp, NV             \* promotion policy, number of variables (2 or 3)
Full == NV = 2
VARIABLES tys, vals, out
Mk(n, lo, hi) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), lo |-> Zi(lo), hi |-> Zi(hi), sf |-> 1]
TypesQ == {Mk("sc", -2, 1), Mk("i", -3, 6), Mk("ui", 0, 15), Mk("us", 0, 5)}
TypesF == TypesQ \cup {Mk("s", -4, 3), Mk("uc", 0, 3), Mk("i", -8, 7), Mk("l", -9, 12)}
Types == IF Full THEN TypesF ELSE TypesQ
P == [pp |-> Pp, w |-> <<2, 3, 4, 5, 5>>, T |-> tys]
Builtins == IF Full THEN {"sc", "us", "i", "ui", "l"} ELSE {"i", "us"}
Ops == ArithOps \cup (IF Pp = "a" THEN {"&", "^"} ELSE {"&", "^", "<<", ">>"})
V == 1..NV
Elems(n) == {Zi(x) : x \in ZToInt(RLo(Rep(n)))..ZToInt(RHi(Rep(n)))}
S(a, op, i, j, k, n) == [a |-> a, op |-> op, i |-> i, j |-> j, k |-> k, n |-> n, op2 |-> "", l |-> 0]
S2(a, op, op2) == [S(a, op, 1, 2, NV, "") EXCEPT !.op2 = op2, !.l = 1]
Texts == { <<45, 57>>, <<32, 51>>, <<120>>, <<54, 120>>, <<45, 48>>, <<43, 49>>, <<>>, <<49, 48, 48>> }
\* variables 1 and 2 are operands, the last one is the destination of expressions
Moves ==
  {<<S("setb", "", i, 0, 0, n), z>> : i \in V, n \in Builtins, z \in {Zi(x) : x \in -16..15}}
  \cup {<<S("set", "", i, j, 0, ""), ZZero>> : i \in V, j \in V}
  \cup {<<S("asg", o, i, j, 0, ""), ZZero>> : o \in Ops, i \in {1}, j \in {1, 2}}
  \cup {<<S("bin", o, 1, 2, NV, ""), ZZero>> : o \in Ops}
  \cup {<<S("un", o, i, 0, 0, ""), ZZero>> : o \in {"++x", "x--"}, i \in {1, 2}}
  \cup {<<S("neg", "", i, 0, NV, ""), ZZero>> : i \in {1, 2}}
  \cup {<<S("get", "", i, 0, 0, n), ZZero>> : i \in {1, 2}, n \in Builtins}
  \cup {<<S("cmp", "<", i, j, 0, ""), ZZero>> : i \in {1}, j \in {2}}
  \cup {<<S("cmpb", o, 1, 0, 0, n), Zi(3)>> : o \in {"<", "=="}, n \in Builtins}
  \cup {<<S("trip", "", 1, 0, NV, ""), ZZero>>}
  \cup (IF Pp = "a" THEN {} ELSE {<<S2("chain", o[1], o[2]), ZZero>> : o \in {<<"+", "-">>, <<"*", "/">>, <<"-", "%">>, <<"&", "*">>}}
                                  \cup {<<S2("ccmp", o, "<="), ZZero>> : o \in {"+", "-"}})
  \cup {<<S("in", "", i, 0, 0, ""), t>> : i \in {1, 2}, t \in Texts}
Legal(p) == p[1].a = "setb" => Fits(p[2], Rep(p[1].n))
Init == /\ tys \in [V -> Types] /\ vals = [i \in V |-> ZZero] /\ out = "ok"
Next == \E p \in {q \in Moves : Legal(q)} : \E o \in Outcomes(P, vals, p[1], p[2]) :
          /\ vals' = o[2] /\ out' = o[1] /\ UNCHANGED tys
          \* nothing but the target changes, and nothing at all on failure
          /\ Assert(\A i \in V : o[2][i] # vals[i] => o[1] = "ok" /\ i \in Targets(p[1]), <<p, vals, o>>)
          \* the outcome is determined: success and failure are never both admissible, except for a shift of zero
          /\ Assert(Cardinality({x[2] : x \in Outcomes(P, vals, p[1], p[2])}) = 1
                    \/ p[1].a = "in" \/ p[1].op = "<<" \/ p[1].a \in {"cmp", "cmpb", "ccmp", "trip"} \/ p[1].op2 = "*", <<p, vals>>)
InV == InRange(P, vals)
=============================================================================
