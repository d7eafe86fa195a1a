--------------------------------- MODULE WK ---------------------------------
(* Workspace control: pose error feedback, (damped) inverse kinematics of     *)
(* velocities with null-space projection, joint centering and the linearly    *)
(* constrained controller, over the scenes of Scene.                          *)
EXTENDS SE3, FiniteSets
Scn == INSTANCE Scene
Sc5 == 100000
InitS == Scn!InitS
WkOps == {"wkpos", "wkcenter", "wkls", "wknp", "wksym", "wklc3"}
Step(s, e) == IF e.op \in WkOps THEN s ELSE Scn!Step(s, e)
\* ---- the exact Jacobian: column i is [lin, ang], rational vectors
Jac(g, u, q) ==
    LET P == Scn!Poses(g, q)
        js == Scn!JointsOf(g, u.frames)
        pe == P[u.frames[Len(u.frames)] + 1].t
        W(i) == LET f == g.fr[g.ids[js[i] + 1]] IN RRot(P[js[i] + 1].q, RVec(f.axis, f.axd))
        O(i) == P[js[i] + 1].t
    IN [i \in 1..Len(js) |-> IF g.fr[g.ids[js[i] + 1]].type = "prismatic" THEN [lin |-> W(i), ang |-> RZero]
                             ELSE [lin |-> RCross(W(i), RSub(pe, O(i))), ang |-> W(i)]]
Num(J, i, r) == IF r <= 3 THEN J[i].lin.n[r] ELSE J[i].ang.n[r - 3]
Den(J, i, r) == IF r <= 3 THEN J[i].lin.d ELSE J[i].ang.d
RECURSIVE SumI(_, _, _)
SumI(Op(_), i, n) == IF i > n THEN 0 ELSE Op(i) + SumI(Op, i + 1, n)
\* row r of J times the observed vector v (in its units)
Row(J, v, r) == LET T(i) == Div(Num(J, i, r) * v[i], Den(J, i, r)) IN SumI(T, 1, Len(J))
AbsRow(J, r) == LET T(i) == 1 + Abs(Div(Num(J, i, r), Den(J, i, r))) IN SumI(T, 1, Len(J))
\* column i of J times a workspace vector
Col(J, w, i) == LET T(r) == Div(Num(J, i, r) * w[r], Den(J, i, r)) IN SumI(T, 1, 6)
AbsCol(J, i) == LET T(r) == 1 + Abs(Div(Num(J, i, r), Den(J, i, r))) IN SumI(T, 1, 6)
RECURSIVE MaxRow(_, _)
MaxRow(J, r) == IF r = 0 THEN 0 ELSE Max(AbsRow(J, r), MaxRow(J, r - 1))
Small(v, m) == \A i \in 1..Len(v) : Abs(v[i]) <= m
\* J'(dx - J dq) = k dq, residuals in 1/1000
LsOk(J, e) ==
    LET R == [r \in 1..6 |-> e.dx[r] * 1000 - Div(Row(J, e.dq, r), 100)]
    IN ~Small(e.dq, 3000000) \/
       \A i \in 1..Len(J) : Abs(Col(J, R, i) - (IF e.mode = "dls" THEN Div(e.kd * e.dq[i], 200) ELSE 0)) <= 6 + AbsCol(J, i) * (2 + MaxRow(J, 6) \div 50)
NpOk(J, e) ==
    /\ \A i \in 1..Len(J) : Abs(e.np[i] - e.x[i] * Sc5) <= 20
    /\ \A i \in 1..Len(J) : Abs(e.row[i] + e.nul[i] - e.x[i] * Sc5) <= 20
    \* the null-space motion does not move the end effector
    /\ e.mode = "dls" \/ \A r \in 1..6 : Abs(Row(J, e.nul, r)) <= 20 + 4 * AbsRow(J, r)
SymOk(J, e) ==
    LET n == Len(J) IN
    /\ Len(e.P) = n /\ \A i \in 1..n : Len(e.P[i]) = n
    /\ \A i, j \in 1..n : Abs(e.P[i][j] - e.P[j][i]) <= 4
    /\ e.mode = "dls" \/ \A i \in 1..n : \A r \in 1..6 : Abs(Row(J, e.P[i], r) - Div(Num(J, i, r) * Sc5, Den(J, i, r))) <= 4 + 2 * AbsRow(J, r)
\* ---- pose feedback
PosOk(e) ==
    /\ e.pad = 1 /\ NearPose(e.got, [q |-> e.rq, t |-> RVec(e.rv, e.rd)])       \* two units of time with unit gains (the logarithm is that of the half angle) reach the reference
    /\ e.th <= 314160                                                          \* along the shorter rotation
    /\ \A i \in 1..6 : Abs(2 * (e.r[i] - e.d0[i] * Sc5) - (IF i <= 3 THEN e.gt ELSE e.ga) * e.b[i]) <= 12
\* ---- joint centering: gain (c - q) / (max - min)
CenterOk(g, u, e) ==
    /\ e.pad = 1 /\ Len(e.d) = Len(u.configs)
    /\ \A i \in 1..Len(u.configs) :
         LET l == Scn!LimOf(g, g.cids[u.configs[i] + 1]).pos IN
         IF l = <<>> \/ (l # <<>> /\ l[1] = l[2]) THEN e.d[i] = 0
         ELSE NearK(e.d[i], e.gain * (l[1] + l[2] - e.q2[i]), 4 * (l[2] - l[1]), 5, 2)
\* ---- the linearly constrained controller; bounds on dq in 1e-5: <<>> where absent
MaxB(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Max(a[1], b[1])>>
MinB(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<-Max(-a[1], -b[1])>>
Bnd(g, u, e, i) ==
    LET L == Scn!LimOf(g, g.cids[u.configs[i] + 1])
        H == Sc5 \div 2
        v == e.dqa[i] * H
        alo == IF L.acc = <<>> THEN <<>> ELSE <<v + (L.acc[1] * Sc5) \div e.D>>
        ahi == IF L.acc = <<>> THEN <<>> ELSE <<v + (L.acc[2] * Sc5) \div e.D>>
        vlo == IF L.vel = <<>> THEN <<>> ELSE <<L.vel[1] * Sc5>>
        vhi == IF L.vel = <<>> THEN <<>> ELSE <<L.vel[2] * Sc5>>
        plo == IF L.pos = <<>> \/ L.acc = <<>> THEN <<>> ELSE <<(2 * L.pos[1] - e.qa[i]) * e.D * H - (L.acc[2] * H) \div e.D>>
        phi == IF L.pos = <<>> \/ L.acc = <<>> THEN <<>> ELSE <<(2 * L.pos[2] - e.qa[i]) * e.D * H - (L.acc[1] * H) \div e.D>>
    IN [lo |-> MaxB(MaxB(alo, vlo), plo), hi |-> MinB(MinB(ahi, vhi), phi)]
InB(b, x, t) == (b.lo = <<>> \/ x >= b.lo[1] - t) /\ (b.hi = <<>> \/ x <= b.hi[1] + t)
Lc3Ok(g, u, e) ==
    LET n == Len(u.configs)
        B == [i \in 1..n |-> Bnd(g, u, e, i)]
    IN /\ e.bad = 1 /\ e.neg = 1 /\ e.n = n
       \* keeping the velocity is allowed: there is a solution
       /\ (\A i \in 1..n : InB(B[i], e.dqa[i] * (Sc5 \div 2), -3)) => e.rc = 0
       /\ e.rc = 0 => /\ \A i \in 1..n : InB(B[i], e.dq[i], 5)
                      \* the unconstrained command, wherever it is allowed
                      /\ (\A i \in 1..n : InB(B[i], e.free[i], -3)) => \A i \in 1..n : Abs(e.dq[i] - e.free[i]) <= 20
Ok(s, e, n) ==
    IF e.op \notin WkOps THEN Scn!Ok(s, e, n)
    ELSE IF e.op = "wkpos" THEN PosOk(e)
    ELSE LET g == s.g[e.g]
             u == s.sub[e.k] IN
         CASE e.op = "wkcenter" -> CenterOk(g, u, e)
           [] e.op = "wkls" -> e.rc = 0 /\ e.pad = 1 /\ e.bal = 1 /\ LsOk(Jac(g, u, e.q), e)
           [] e.op = "wknp" -> e.rc = 0 /\ e.pad = 1 /\ e.bal = 1 /\ NpOk(Jac(g, u, e.q), e)
           [] e.op = "wksym" -> e.rc = 0 /\ e.pad = 1 /\ e.bal = 1 /\ SymOk(Jac(g, u, e.q), e)
           [] e.op = "wklc3" -> e.pad = 1 /\ e.bal = 1 /\ Lc3Ok(g, u, e)
=============================================================================
