----------------------------- MODULE MachineGen -----------------------------
(***************************************************************************)
(* Behaviours of SafeMachine as stimuli for the real library.  A behaviour *)
(* is chosen by a pseudo random sequence that is part of the state, so the *)
(* state graph is one path per behaviour; arguments are aimed at the edges *)
(* of the ranges involved, given the current values.                       *)
(***************************************************************************)
EXTENDS SafeMachine, Json, IOUtils, TLC

CONSTANTS Behaviours, Depth, Seed
ASSUME ArchBits = LP64
Pools == ndJsonDeserialize(IOEnv.POOLS)

VARIABLES pool, beh, n, vals, g1, g2
vars == <<pool, beh, n, vals, g1, g2>>

(* two congruential generators, combined; all products stay below 2^31 *)
N1(x) == (x * 7561 + 4321) % 65521
N2(x) == (x * 30011 + 2222) % 46337
RECURSIVE A1(_, _)
A1(x, k) == IF k = 0 THEN x ELSE A1(N1(x), k - 1)
RECURSIVE A2(_, _)
A2(x, k) == IF k = 0 THEN x ELSE A2(N2(x), k - 1)
Draw(k) == (A1(g1, k) + 37 * A2(g2, k)) % 1000003          \* the k-th draw of this step
Pick(k, seq) == seq[1 + (Draw(k) % Len(seq))]

Big(k) == ZMk(1, MTrim(<<Draw(k) % 32768, Draw(k + 1) % 32768, Draw(k + 2) % 32768, Draw(k + 3) % 32768, Draw(k + 4) % 16>>))
RandomBits(k) == LET x == ZLow(Big(k + 2), 1 + (Draw(k) % 64)) IN IF Draw(k + 1) % 2 = 0 THEN x ELSE ZNeg(x)

(* values near the edges of type D, and random ones *)
Edge(k, D) ==
  Pick(k, << D.lo, D.hi, ZSub(D.lo, ZOne), ZAdd(D.hi, ZOne), ZZero, ZOne, ZNeg(ZOne), RandomBits(k + 1), RandomBits(k + 1),
             ZQuot(D.hi, <<1, 2>>), ZZero, ZAdd(D.lo, ZOne), ZSub(D.hi, ZOne) >>)

(* an argument that takes  v op arg  to an edge of type D *)
Aim(k, op, v, D) ==
  LET b == IF Draw(k) % 2 = 0 THEN D.hi ELSE D.lo
      d == ZOfInt((Draw(k + 1) % 3) - 1)
  IN  CASE op = "+" -> ZAdd(ZSub(b, v), d)
        [] op = "-" -> ZAdd(ZSub(v, b), d)
        [] op = "*" -> IF v = ZZero THEN d ELSE ZAdd(ZQuot(b, v), d)
        [] op \in {"/", "%"} -> d
        [] op \in {"<<", ">>"} -> ZOfInt(Draw(k + 2) % 34)
        [] OTHER -> ZAdd(b, d)

Bins == {"asgb", "binb"}
ArgOf(P, st, k) ==
  LET D == P.T[IF st.a \in {"binb", "bbin"} THEN st.k ELSE st.i]
      z == IF st.a = "cmpb" /\ Draw(k) % 2 = 0 THEN ZAdd(vals[st.i], ZOfInt((Draw(k + 1) % 3) - 1))
           ELSE IF st.a \in Bins /\ Draw(k) % 3 # 0 THEN Aim(k + 1, st.op, vals[st.i], D) ELSE Edge(k + 1, D)
  IN  Wrap(z, Rep(st.n))

Blank == << <<>>, <<32>>, <<9, 32>>, <<10>>, <<Plus>>, <<32, Plus>>, <<Minus>>, <<48>>, <<48, 48>>, <<>>, <<>> >>
Tail9 == << <<>>, <<32, 55>>, <<120>>, <<46, 53>>, <<44>>, <<10>>, <<>>, <<>> >>
Junk == << <<>>, <<32>>, <<97, 98>>, <<Minus>>, <<Plus>>, <<Minus, Minus, 53>>, <<Minus, 32, 53>>, <<Plus, Minus, 49>>,
           <<120, 49>>, <<48, 120, 49, 48>>, <<49, 101, 53>>, <<46, 53>> >>
TextOf(D, k) == IF Draw(k) % 5 = 0 THEN Pick(k + 1, Junk)
                ELSE Pick(k + 1, Blank) \o Render(Edge(k + 4, D)) \o Pick(k + 2, Tail9)

Init == /\ pool \in 1..Len(Pools) /\ beh \in 1..Behaviours /\ n = 0
        /\ vals = [i \in 1..Len(Pools[pool].T) |-> ZZero]
        /\ g1 = (Seed * 811 + pool * 4099 + beh * 127) % 65521
        /\ g2 = (Seed * 577 + pool * 389 + beh * 8191) % 46337

Next ==
  LET P == Pools[pool]
      si == 1 + (Draw(1) % Len(P.steps))
      st == P.steps[si]
      arg == IF st.a = "in" THEN TextOf(P.T[st.i], 2) ELSE IF st.n = "" THEN ZZero ELSE IF st.a = "get" THEN ZZero ELSE ArgOf(P, st, 2)
  IN  /\ n < Depth
      /\ \E o \in {CHOOSE x \in Outcomes(P, vals, st, arg) : TRUE} :
            /\ vals' = o[2]
            /\ PrintT("GEN " \o ToString(pool) \o " " \o ToString(beh) \o " " \o ToString(n) \o " " \o ToString(si) \o " "
                      \o o[1] \o " " \o ToString(arg))
      /\ n' = n + 1
      /\ g1' = A1(g1, 11) /\ g2' = A2(g2, 13)
      /\ UNCHANGED <<pool, beh>>
=============================================================================
