--------------------------------- MODULE IK ---------------------------------
(* Inverse kinematics over the scenes of Scene: a context is a target frame,  *)
(* a start configuration of the whole scene, a seed of the chain and          *)
(* tolerances; verdicts are decided exactly on rational poses.                *)
EXTENDS SE3, FiniteSets
Scn == INSTANCE Scene
Sc5 == 100000
InitS == [sc |-> Scn!InitS, ik |-> <<>>]
IkOps == {"ikcx", "ikstart", "ikseed", "ikcenter", "ikrand", "ikframe", "ikcheck", "iksolve", "ikbad", "ikobj", "ikrestart"}
G(s) == s.sc.g[s.ik.g]
U(s) == s.sc.sub[s.ik.k]
Step(s, e) ==
    CASE e.op \notin IkOps -> [s EXCEPT !.sc = Scn!Step(@, e)]
      [] e.op = "ikcx" -> [s EXCEPT !.ik = [g |-> e.g, k |-> e.k, algo |-> e.algo, frame |-> IF e.frame >= 0 THEN e.frame ELSE s.sc.sub[e.k].tips[1],
                                           tol |-> e.tol, q |-> [i \in 1..Len(s.sc.g[e.g].cids) |-> <<0, 1>>], start |-> e.start, seed |-> e.seed]]
      [] e.op = "ikstart" -> [s EXCEPT !.ik.q = e.q, !.ik.start = e.obs]
      [] e.op = "ikseed" -> [s EXCEPT !.ik.seed = e.obs]
      [] e.op \in {"ikcenter", "ikrand"} -> [s EXCEPT !.ik.seed = e.seed]
      [] e.op = "ikframe" -> [s EXCEPT !.ik.frame = e.frame]
      [] OTHER -> s
\* ---- configurations
Lim(g, u, i) == Scn!LimOf(g, g.cids[u.configs[i] + 1]).pos
InLim(g, u, x, t) == /\ Len(x) = Len(u.configs)
                     /\ \A i \in 1..Len(x) : LET l == Lim(g, u, i) IN l = <<>> \/ (x[i] >= l[1] * Sc5 - t /\ x[i] <= l[2] * Sc5 + t)
\* one unit inside, so that rounding cannot matter
SafeIn(g, u, x) == InLim(g, u, x, 0)
Centered(g, u, x) == /\ Len(x) = Len(u.configs)
                     /\ \A i \in 1..Len(x) : LET l == Lim(g, u, i) IN 2 * x[i] = (IF l = <<>> THEN 0 ELSE (l[1] + l[2]) * Sc5)
Zeros(n) == [i \in 1..n |-> 0]
Mix(s, q) == [c \in 1..Len(q) |-> IF \E i \in 1..Len(U(s).configs) : U(s).configs[i] = c - 1 THEN q[c] ELSE s.ik.q[c]]
\* the pose of a frame with the chain at q and everything else at the start
PoseAt(s, q, f) == Scn!SubPoses(G(s), U(s), Scn!Poses(G(s), s.ik.q), Mix(s, q), 1, <<>>)[f + 1]
\* ---- verdicts: [w2, N] relative half-angle cosine, [n2, d2] squared distance
Rel(p, tq) == QM(QConj(p.q), tq)
Dist(p, tv, td) == RSub(p.t, RVec(tv, td))
AngCmp(p, tq, tol) == LET r == Rel(p, tq) IN r[4] * r[4] * tol[2] - tol[1] * QNorm(r)           \* > 0 inside
TrCmp(p, tv, td, tol) == LET d == Dist(p, tv, td) IN tol[3] * tol[3] * d.d * d.d - Dot(d.n, d.n) * tol[4] * tol[4]   \* > 0 inside
CheckOk(s, e) ==
    LET p == PoseAt(s, e.q, s.ik.frame)
        a == AngCmp(p, e.tq, s.ik.tol)
        x == TrCmp(p, e.tv, e.td, s.ik.tol)
    IN IF a > 0 /\ x > 0 THEN e.r = 0 ELSE IF a < 0 \/ x < 0 THEN e.r # 0 ELSE TRUE
Unchanged(s, e) == e.same = 1 /\ e.start = s.ik.start /\ e.seed = s.ik.seed
SolveOk(s, e) ==
    LET g == G(s)
        u == U(s) IN
    /\ e.bal = 1 /\ e.kept = 1 /\ Unchanged(s, e) /\ e.frame = s.ik.frame
    /\ NearPose(e.target, PoseAt(s, e.q, e.frame))
    /\ e.r = 0 => /\ e.thok = 1 /\ e.xok = 1 /\ e.chk = 0          \* within both tolerances, measured on the real scene
                  /\ InLim(g, u, e.x, 1)
    \* a seed that already reaches the target is a solution
    /\ (e.tobs = s.ik.seed /\ SafeIn(g, u, s.ik.seed)) => e.r = 0
\* ---- objective functions
RECURSIVE SumI(_, _, _)
SumI(Op(_), i, n) == IF i > n THEN 0 ELSE Op(i) + SumI(Op, i + 1, n)
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 12 + Abs(b[i]) \div 1000
ObjOk(s, e) ==
    LET g == G(s)
        u == U(s)
        p == PoseAt(s, e.q, e.frame)
        r == Rel(p, e.tq)
        d == Dist(p, e.tv, e.td)
        C2(i) == LET l == Lim(g, u, i) IN IF l = <<>> THEN 0 ELSE l[1] + l[2]
        D(i) == 2 * e.at[i] - C2(i) * Sc5
        Dh(i) == Div(D(i), 2000)
        DhA(i) == Abs(Dh(i))
        DhS(i) == Dh(i) * Dh(i)
    IN /\ e.probed = 1 /\ InLim(g, u, e.at, 1)
       /\ SafeIn(g, u, e.obs) =>
            /\ e.at = e.obs /\ e.fdv = 1 /\ e.nullv = 1
            /\ NearK(e.trans, Dot(d.n, d.n), d.d * d.d, 4, 3)
            /\ NearK(e.cos2, r[4] * r[4], QNorm(r), 5, 6)
            /\ Abs(2 * e.jc - SumI(DhS, 1, Len(u.configs))) <= 4 + 4 * SumI(DhA, 1, Len(u.configs)) + 4 * Len(u.configs)
            /\ \A i \in 1..Len(u.configs) : Abs(20 * e.grad[4][i] * 1 - D(i)) <= 40
            /\ Close(e.grad[1], e.fd[1]) /\ Close(e.fdg[1], e.fd[1])
            \* the shortest rotation is not differentiable at half a turn
            /\ r[4] # 0 => \A k \in 2..3 : Close(e.grad[k], e.fd[k]) /\ Close(e.fdg[k], e.fd[k])
Ok(s, e, n) ==
    CASE e.op \notin IkOps -> Scn!Ok(s.sc, e, n)
      [] e.op = "ikcx" -> e.same = 1 /\ e.start = Zeros(Len(s.sc.g[e.g].cids)) /\ Centered(s.sc.g[e.g], s.sc.sub[e.k], e.seed)
      [] e.op = "ikstart" -> e.same = 1 /\ e.start = e.obs /\ e.seed = s.ik.seed
      [] e.op = "ikseed" -> e.same = 1 /\ e.start = s.ik.start /\ e.seed = e.obs
      [] e.op = "ikcenter" -> e.same = 1 /\ e.start = s.ik.start /\ Centered(G(s), U(s), e.seed)
      [] e.op = "ikrand" -> e.same = 1 /\ e.start = s.ik.start /\ InLim(G(s), U(s), e.seed, 1)
      [] e.op = "ikframe" -> TRUE
      [] e.op = "ikcheck" -> e.bal = 1 /\ Unchanged(s, e) /\ CheckOk(s, e)
      [] e.op = "iksolve" -> SolveOk(s, e)
      [] e.op = "ikbad" -> e.inv = 1 /\ e.bal = 1 /\ e.kept = 1
      [] e.op = "ikobj" -> ObjOk(s, e)
      [] e.op = "ikrestart" -> e.first = 1 /\ e.r = 0 /\ e.ok = 1
      [] OTHER -> FALSE
=============================================================================
