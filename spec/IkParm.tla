------------------------------- MODULE IkParm -------------------------------
(* The options object of the kinematic solver (what it copies, takes over and *)
(* borrows), the Jacobian step it parameterises, the limits of a scene as      *)
(* trajectory states, and joint paths that follow workspace trajectories.      *)
(* pm.ref[i] is the rational <<n, d>>, pm.gain[i] is <<n, d, p>>: n/d, times   *)
(* 2 pi when p = 1.                                                            *)
EXTENDS SE3, FiniteSets
Scn == INSTANCE Scene
None == [set |-> FALSE, how |-> "none", v |-> <<>>]
Fresh == [ref |-> None, gain |-> None, seed |-> None]
InitS == [g |-> <<>>, sub |-> <<>>, pm |-> Fresh]
Ops == {"kpnew", "kpdel", "kptake", "kppoke", "kpcenter", "kpseed", "kpstep", "kplim", "kppts", "kpath", "mem"}
Quarters(v) == [i \in 1..Len(v) |-> <<v[i], 4, 0>>]
PosOf(g, u, i) == Scn!LimOf(g, g.cids[u.configs[i] + 1]).pos
CRef(g, u) == [i \in 1..Len(u.configs) |-> LET l == PosOf(g, u, i) IN IF l = <<>> THEN <<0, 1, 0>> ELSE <<l[1] + l[2], 2, 0>>]
CGain(g, u, k) == [i \in 1..Len(u.configs) |-> LET l == PosOf(g, u, i) IN IF l = <<>> \/ (l # <<>> /\ l[1] = l[2]) THEN <<0, 1, 0>> ELSE <<k[1], k[2] * (l[2] - l[1]), 1>>]
Step(s, e) ==
    IF e.op \notin Ops THEN Scn!Step(s, e)
    ELSE CASE e.op \in {"kpnew", "kpdel"} -> [s EXCEPT !.pm = Fresh]
           [] e.op = "kptake" -> [s EXCEPT !.pm[e.kind] = [set |-> TRUE, how |-> e.how, v |-> Quarters(e.v)]]
           \* the caller's writes show exactly where the array was borrowed
           [] e.op = "kppoke" -> IF s.pm[e.kind].how = "borrow" THEN [s EXCEPT !.pm[e.kind].v = Quarters(e.v)] ELSE s
           [] e.op = "kpcenter" -> LET g == s.g[e.g]
                                       u == s.sub[e.k] IN
                                   [s EXCEPT !.pm.ref = [set |-> TRUE, how |-> "steal", v |-> CRef(g, u)], !.pm.gain = [set |-> TRUE, how |-> "steal", v |-> CGain(g, u, e.gain)]]
           [] e.op = "kpseed" -> [s EXCEPT !.pm.seed = [set |-> TRUE, how |-> "steal", v |-> <<>>]]
           [] OTHER -> s
RECURSIVE SumI(_, _, _)
SumI(Op(_), i, n) == IF i > n THEN 0 ELSE Op(i) + SumI(Op, i + 1, n)
\* ---- the Jacobian step, in 1/1000
Want(e) == [r \in 1..6 |->
    (IF e.null = 1 THEN 0 ELSE e.dx[r] * 1000) +
    (IF r <= 3 THEN Div(e.gt * (e.vr[r] - e.va[r]) * 250, e.vd)
     ELSE IF r - 3 = e.ax THEN Div(e.ga * e.k * 785398, 2000) ELSE 0)]
NullV(pm, q, i) == LET r == pm.ref.v[i]
                       g == pm.gain.v[i]
                       A == g[1] * (q[i] * r[2] - 2 * r[1])
                       B == g[2] * 2 * r[2]
                   IN IF g[3] = 1 THEN -Div(A * 6283185, B * 1000) ELSE -Div(A * 1000, B)
StepOk(pm, e) ==
    LET n == Len(e.J)
        W == Want(e)
        Jq(r) == LET T(i) == e.J[i][r] * e.dq[i] IN SumI(T, 1, n)
        R == [r \in 1..6 |-> W[r] - Jq(r)]
        AR(r) == LET T(i) == Abs(e.J[i][r]) IN SumI(T, 1, n)
        Col(i) == LET T(r) == e.J[i][r] * R[r] IN SumI(T, 1, 6)
        ACol(i) == LET T(r) == Abs(e.J[i][r]) * (2 + AR(r)) IN SumI(T, 1, 6)
        InNull(z) == \A r \in 1..6 : LET T(i) == e.J[i][r] * z[i] IN SumI(T, 1, n) = 0
        Along(z) == LET T(i) == z[i] * e.dq[i] IN SumI(T, 1, n)
        Wish(z) == LET T(i) == z[i] * (IF pm.ref.set THEN NullV(pm, e.q, i) ELSE 0) IN SumI(T, 1, n)
        AZ(z) == LET T(i) == Abs(z[i]) IN SumI(T, 1, n)
    IN /\ e.rc = 0 /\ e.bal = 1 /\ e.pad = 1 /\ Len(e.dq) = n
       \* the command realises the workspace velocity in the least-squares sense
       /\ \A i \in 1..n : Abs(Col(i)) <= 3 + ACol(i)
       \* and moves along the null space as the reference configuration asks
       /\ \A k \in 1..Len(e.z) : InNull(e.z[k]) => Abs(Along(e.z[k]) - Wish(e.z[k])) <= 2 + 3 * AZ(e.z[k])
\* ---- limits
Ext(l, k, o) == IF l = <<>> THEN o[1] = (IF k = 1 THEN -1 ELSE 1) ELSE o[1] = 0 /\ o[2] = l[k] * 10000
LimsOk(g, e) ==
    LET n == Len(g.cids) IN
    /\ e.n = <<n, n>>
    /\ \A f \in {"pos", "vel", "acc", "eff"} : Len(e[f]) = n /\ \A i \in 1..n : LET l == Scn!LimOf(g, g.cids[i])[f] IN Ext(l, 1, e[f][i][1]) /\ Ext(l, 2, e[f][i][2])
\* ---- following a workspace trajectory with a gantry and a wrist, in 1e-4
Half == 5000
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
PathOk(e) ==
    LET N == Len(e.p)
        At(i) == IF i - 1 > e.D THEN e.D ELSE i - 1                                  \* time, in steps
        \* the reference is at rest at both ends, which costs a sixth of a step at each
        Late(i, d) == (IF i - 1 >= e.D THEN Abs(d) \div (2 * e.D) ELSE Abs(d) \div (5 * e.D)) + 6 + (IF e.wk = 0 THEN 0 ELSE 200)
        Start(c) == e.q0[c] * Half
        Ref(c, i) == (e.q0[c] + e.off[c]) * Half + Div(e.del[c] * Half * At(i), e.D)
        Err(c, i) == Ref(c, i) - e.p[i][c]
        Lo(c) == IF e.s[c] > 0 THEN e.lo[c] * Half ELSE -e.hi[c] * Half
        Hi(c) == IF e.s[c] > 0 THEN e.hi[c] * Half ELSE -e.lo[c] * Half
        Off(c) == e.off[c] * Half
        sg(c) == IF Off(c) < 0 THEN -1 ELSE 1
    IN /\ e.rc = 0 /\ e.kept = 1 /\ e.ns = 4 /\ N \in {e.D + 1, e.D + 2}
       /\ \A i \in 1..N : Abs(e.p[i][4] - e.w0 * 15708 - Div(e.wk * 15708 * At(i), e.D)) <= Late(i, e.wk * 15708) + 2
       /\ \A c \in 1..3 :
            /\ Abs(e.p[1][c] - (IF e.lim = 1 THEN Clamp(Start(c), Lo(c), Hi(c)) ELSE Start(c))) <= 1
            /\ e.lim = 1 => \A i \in 1..N : e.p[i][c] >= Lo(c) - 1 /\ e.p[i][c] <= Hi(c) + 1
            \* from a start on the trajectory the path stays on it, as far as the limits allow
            /\ e.off = <<0, 0, 0>> => \A i \in 1..N : LET x == Ref(c, i) IN Abs(e.p[i][c] - (IF e.lim = 1 THEN Clamp(x, Lo(c), Hi(c)) ELSE x)) <= Late(i, e.del[c] * Half)
            \* from elsewhere it approaches it: exp(-x) lies between 1 - x and 1 / (1 + x)
            /\ e.lim = 0 => /\ \A i \in 2..N : LET a == sg(c) * Err(c, i - 1)
                                                   b == sg(c) * Err(c, i) IN b <= a + 5 + Late(i, e.del[c] * Half) /\ b >= -5 - Late(i, e.del[c] * Half)
                            /\ LET b == sg(c) * Err(c, e.D + 1) IN (4 + e.gt) * b <= 4 * Abs(Off(c)) + (4 + e.gt) * Late(e.D + 1, e.del[c] * Half)
                                                                /\ 4 * b >= (4 - e.gt) * Abs(Off(c)) - 4 * Late(e.D + 1, e.del[c] * Half)
\* repeated way points are one point
PtAt(e, i) == SubSeq(e.v, e.nq * (i - 1) + 1, e.nq * i)
Distinct(e) == 1 + Cardinality({ i \in 2..e.np : PtAt(e, i) # PtAt(e, i - 1) })
Ok(s, e, n) ==
    IF e.op \notin Ops THEN Scn!Ok(s, e, n)
    ELSE CASE e.op = "kpstep" -> StepOk(s.pm, e)
           [] e.op = "kplim" -> LimsOk(s.g[e.g], e)
           [] e.op = "kppts" -> /\ e.size = Distinct(e) /\ e.cnt = <<e.nq, e.nq>>
                                /\ e.a = SubSeq(e.v, 1, e.nq) /\ e.b = SubSeq(e.v, e.nq * (e.np - 1) + 1, e.nq * e.np)
           [] e.op = "kpath" -> PathOk(e)
           [] e.op = "kppoke" -> (e.did = 1) = (s.pm[e.kind].how \in {"copy", "borrow"})
           [] e.op = "mem" -> e.left = 0 /\ e.top = 1          \* everything copied or taken over is released, nothing borrowed is
           [] OTHER -> TRUE
=============================================================================
