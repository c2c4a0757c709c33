---------------------------- MODULE SafeMachine ----------------------------
(***************************************************************************)
(* A program holding safe variables: the state is the value of every       *)
(* variable, a step is one operation on them, and a step either completes  *)
(* or reports an error and leaves every variable as it was.                *)
(*                                                                         *)
(* A pool is  [pp |-> promotion policy, w |-> widths for cpp<...>,         *)
(*             T |-> types of the variables].                              *)
(* A step is a record  [a |-> kind, op, i, j, k |-> variables,             *)
(*                      n |-> name of a built-in type]                     *)
(* together with an argument: a value or a text.                           *)
(*   setb   v[i] = (n) arg          set    v[i] = v[j]                     *)
(*   ctor   v[i] = T[i](v[j])       swap   swap(v[i], v[j])                *)
(*   asg    v[i] op= v[j]           asgb   v[i] op= (n) arg                *)
(*   bin    v[k] = v[i] op v[j]     binb   v[k] = v[i] op (n) arg          *)
(*   bbin   v[k] = (n) arg op v[i]  un     op v[i]  (++ and --)            *)
(*   neg    v[k] = -v[i]            not    v[k] = ~v[i]                    *)
(*   get    (n) v[i]                cmp    v[i] op v[j]                    *)
(*   in     stream >> v[i]                                                 *)
(*   cmpb   v[i] op (n) arg         trip   write v[i], read v[k]           *)
(*   chain  v[k] = (v[i] op v[j]) op2 v[l]                                 *)
(*   ccmp   (v[i] op v[j]) op2 v[l], a comparison                          *)
(* The last two are steps of the native and cpp policies only: the type of *)
(* an intermediate result under automatic depends on its static range,     *)
(* which the specification leaves open (it is judged by OpsTrace).         *)
(***************************************************************************)
EXTENDS Promotion, Streams

BType(n) == [n |-> n, s |-> IF Signed(n) THEN 1 ELSE 0, b |-> Bits(n), sf |-> 0,
             lo |-> RLo(Rep(n)), hi |-> RHi(Rep(n))]

(* representation of the result of  A op B *)
ResRep(P, op, A, B) ==
  CASE P.pp = "n" -> NativeRep(op, A, B)
    [] P.pp = "c" -> CppRep(op, P.w, A, B)
    [] P.pp = "a" -> IF op \in BitOps THEN NativeRep(op, A, B) ELSE AutoRep(op, A, B)

Fail(vals, E) == {<<k, vals, ZZero>> : k \in E}
Keep(vals, v) == {<<"ok", vals, v>>}
Store(P, vals, i, r, v) ==
  LET D == P.T[i]  e == CastErr(v, r, Rp(D), D.lo, D.hi)
  IN  IF e = {} THEN {<<"ok", [vals EXCEPT ![i] = v], v>>} ELSE Fail(vals, e)

Compute(P, vals, i, op, A, B, a, b) ==
  LET r == ResRep(P, op, A, B)
      e == BinErr(op, r, A, B, a, b)
  IN  (IF e = {} \/ AlwaysZero(op, A, B) THEN Store(P, vals, i, r, BinVal(op, r, a, b)) ELSE {})
      \cup Fail(vals, e)
      \cup Fail(vals, BinMayRefuse(op, r, A, B, a, b))

(* A op B as an operand: its underlying type, any static range *)
ResType(P, op, A, B) ==
  LET r == ResRep(P, op, A, B)
  IN  [n |-> IF P.pp = "n" THEN NativeType(op, A.n, B.n) ELSE "?", s |-> IF r.s THEN 1 ELSE 0, b |-> r.b,
       lo |-> RLo(r), hi |-> RHi(r), sf |-> 1]
(* the intermediate value of  v[i] op v[j]  handed to Then(X, x) *)
Inner(P, vals, st, Then(_, _)) ==
  LET A == P.T[st.i]  B == P.T[st.j]  a == vals[st.i]  b == vals[st.j]
      r == ResRep(P, st.op, A, B)
      e == BinErr(st.op, r, A, B, a, b)
  IN  (IF e = {} \/ AlwaysZero(st.op, A, B) THEN Then(ResType(P, st.op, A, B), BinVal(st.op, r, a, b)) ELSE {})
      \cup Fail(vals, e)
      \cup Fail(vals, BinMayRefuse(st.op, r, A, B, a, b))
Compare(P, vals, op, A, B, a, b) ==
  Keep(vals, IF CmpTruth(op, a, b) THEN ZOne ELSE ZZero) \cup Fail(vals, CmpErr(CmpRep(P.pp, P.w, A, B), A, B, a, b))
Read(P, vals, i, t) ==
  Fail(vals, InErrs(P.T[i], t))
  \cup (IF InMayOk(P.T[i], t) THEN {<<"ok", [vals EXCEPT ![i] = Scan(t).v], Scan(t).v>>} ELSE {})

(* every admissible << outcome, values afterwards, value of the expression >> *)
Outcomes(P, vals, st, arg) ==
  CASE st.a = "setb" -> Store(P, vals, st.i, Rep(st.n), arg)
    [] st.a \in {"set", "ctor"} -> Store(P, vals, st.i, Rp(P.T[st.j]), vals[st.j])
    [] st.a = "swap" -> Keep([vals EXCEPT ![st.i] = vals[st.j], ![st.j] = vals[st.i]], ZZero)
    [] st.a = "asg" -> Compute(P, vals, st.i, st.op, P.T[st.i], P.T[st.j], vals[st.i], vals[st.j])
    [] st.a = "asgb" -> Compute(P, vals, st.i, st.op, P.T[st.i], BType(st.n), vals[st.i], arg)
    [] st.a = "bin" -> Compute(P, vals, st.k, st.op, P.T[st.i], P.T[st.j], vals[st.i], vals[st.j])
    [] st.a = "binb" -> Compute(P, vals, st.k, st.op, P.T[st.i], BType(st.n), vals[st.i], arg)
    [] st.a = "bbin" -> Compute(P, vals, st.k, st.op, BType(st.n), P.T[st.i], arg, vals[st.i])
    [] st.a = "un" ->
         LET o == Compute(P, vals, st.i, StepOf(st.op), P.T[st.i], IntT, vals[st.i], ZOne)
         IN  {<<x[1], x[2], IF x[1] # "ok" THEN ZZero
                            ELSE IF st.op \in {"x++", "x--"} THEN vals[st.i] ELSE x[3]>> : x \in o}
    [] st.a = "neg" -> Compute(P, vals, st.k, "-", IntT, P.T[st.i], ZZero, vals[st.i])
    [] st.a = "not" ->      \* all ones of the operand's own type, ^ operand
         LET r == ResRep(P, "^", BType(Promote(P.T[st.i].n)), P.T[st.i])
         IN  Store(P, vals, st.k, r, Wrap(ZNot(vals[st.i]), r))
    [] st.a = "get" -> LET e == ConvErr(vals[st.i], P.T[st.i], BType(st.n))
                       IN  IF e = {} THEN Keep(vals, vals[st.i]) ELSE Fail(vals, e)
    [] st.a = "cmp" -> Compare(P, vals, st.op, P.T[st.i], P.T[st.j], vals[st.i], vals[st.j])
    [] st.a = "cmpb" -> Compare(P, vals, st.op, P.T[st.i], BType(st.n), vals[st.i], arg)
    [] st.a = "in" -> Read(P, vals, st.i, arg)
    [] st.a = "trip" -> Read(P, vals, st.k, Render(vals[st.i]))
    [] st.a = "chain" ->
         LET Last(X, x) == Compute(P, vals, st.k, st.op2, X, P.T[st.l], x, vals[st.l])
                           \* the static range of the factor may be just zero
                           \cup (IF st.op2 = "*" /\ x = ZZero
                                  THEN Store(P, vals, st.k, ResRep(P, "*", X, P.T[st.l]), ZZero) ELSE {})
         IN  Inner(P, vals, st, Last)
    [] st.a = "ccmp" ->
         LET Last(X, x) == Compare(P, vals, st.op2, X, P.T[st.l], x, vals[st.l])
         IN  Inner(P, vals, st, Last)

InRange(P, vals) == \A i \in 1..Len(P.T) : ZIn(vals[i], P.T[i].lo, P.T[i].hi)
(* the variables a step may change *)
Targets(st) == CASE st.a \in {"setb", "set", "ctor", "asg", "asgb", "un", "in"} -> {st.i}
                 [] st.a = "swap" -> {st.i, st.j}
                 [] st.a \in {"bin", "binb", "bbin", "neg", "not", "chain", "trip"} -> {st.k}
                 [] OTHER -> {}
=============================================================================
