-------------------------------- MODULE LP --------------------------------
(* Linear programs as a mutable context: objective, direction, bounds, rows   *)
(* and variable types.  The optimum is decided exactly by Fourier-Motzkin     *)
(* elimination over integers (a sup of c.x over the polyhedron), so that      *)
(* every back end and storage format is judged against the same value.        *)
EXTENDS SE3, FiniteSets
INFV == 9999
Fin(x) == x < INFV /\ x > -INFV
InitS == [n |-> 0]
ZeroCol(n, A) == \E j \in 1..n : \A i \in 1..Len(A) : A[i][j] = 0
Gm(e) == [n |-> e.n, sv |-> e.solver, zc |-> ZeroCol(e.n, e.A), A |-> e.A, bl |-> e.bl, bu |-> e.bu, c |-> e.c, xl |-> e.xl, xu |-> e.xu, dir |-> "max", ty |-> [i \in 1..e.n |-> "cont"]]
Step(s, e) ==
    CASE e.op = "create" -> Gm(e)
      [] e.op = "dir" -> [s EXCEPT !.dir = e.dir]
      [] e.op = "obj" -> [s EXCEPT !.c = e.c]
      [] e.op = "bnd" -> [s EXCEPT !.xl = e.xl, !.xu = e.xu]
      [] e.op = "cstr" -> [s EXCEPT !.A = e.A, !.zc = @ \/ ZeroCol(s.n, e.A), !.bl = e.bl, !.bu = e.bu]
      [] e.op = "type" -> IF e.r # 0 THEN s
                          ELSE [s EXCEPT !.ty[e.i + 1] = e.type, !.xl[e.i + 1] = IF e.type = "bin" THEN 0 ELSE @, !.xu[e.i + 1] = IF e.type = "bin" THEN 1 ELSE @]
      [] OTHER -> s

\* ---- an inequality is <<a_1 .. a_n, a_z, b>> : sum a_i x_i + a_z z <= b
Unit(n, i, k) == [j \in 1..n |-> IF j = i THEN k ELSE 0]
Neg(v) == [i \in 1..Len(v) |-> -v[i]]
Ineqs(p) ==
    { p.A[i] \o <<0, p.bu[i]>> : i \in { i \in 1..Len(p.A) : Fin(p.bu[i]) } }
    \union { Neg(p.A[i]) \o <<0, -p.bl[i]>> : i \in { i \in 1..Len(p.A) : Fin(p.bl[i]) } }
    \union { Unit(p.n, i, 1) \o <<0, p.xu[i]>> : i \in { i \in 1..p.n : Fin(p.xu[i]) } }
    \union { Unit(p.n, i, -1) \o <<0, -p.xl[i]>> : i \in { i \in 1..p.n : Fin(p.xl[i]) } }
    \union { (IF p.dir = "max" THEN Neg(p.c) ELSE p.c) \o <<1, 0>> }
Comb(u, v, k) == Red([j \in 1..Len(u) |-> u[j] * (-v[k]) + v[j] * u[k]])     \* u[k] > 0 > v[k]
\* keep only the tightest of inequalities with the same left-hand side
Lhs(u) == SubSeq(u, 1, Len(u) - 1)
Prune(S) == { u \in S : ~\E v \in S : v # u /\ Lhs(u) = Lhs(v) /\ v[Len(v)] < u[Len(u)] }
Elim(S, k) == LET Z == { u \in S : u[k] = 0 }
                  P == { u \in S : u[k] > 0 }
                  Q == { u \in S : u[k] < 0 }
              IN Prune(Z \union { Comb(w[1], w[2], k) : w \in P \X Q })
RECURSIVE ElimAll(_, _)
ElimAll(S, k) == IF k = 0 THEN S ELSE ElimAll(Elim(S, k), k - 1)
\* the optimum of the continuous problem: [st: "inf" | "unb" | "opt", n, d]
OptC(p) ==
    LET S == ElimAll(Ineqs(p), p.n)
        b(u) == u[Len(u)]
        az(u) == u[Len(u) - 1]
        U == { u \in S : az(u) > 0 }
    IN IF \E u \in S : az(u) = 0 /\ b(u) < 0 THEN [st |-> "inf", n |-> 0, d |-> 1]
       ELSE IF U = {} THEN [st |-> "unb", n |-> 0, d |-> 1]
       ELSE LET m == CHOOSE u \in U : \A v \in U : b(u) * az(v) <= b(v) * az(u) IN [st |-> "opt", n |-> b(m), d |-> az(m)]
\* integer variables: all their (bounded) values
RECURSIVE Fixings(_, _)
Fixings(p, k) == IF k = 0 THEN {p}
                 ELSE LET R == Fixings(p, k - 1) IN
                      IF p.ty[k] = "cont" THEN R ELSE { [q EXCEPT !.xl[k] = v, !.xu[k] = v] : q \in R, v \in p.xl[k]..p.xu[k] }
Better(a, b) == \* a at least as good as b
    a.st = "opt" /\ (b.st = "inf" \/ (b.st = "opt" /\ a.n * b.d >= b.n * a.d))
Opt(p) == IF \A i \in 1..p.n : p.ty[i] = "cont" THEN OptC(p)
          ELSE LET R == { OptC(q) : q \in Fixings(p, p.n) } IN
               IF \E r \in R : r.st = "unb" THEN [st |-> "unb", n |-> 0, d |-> 1]
               ELSE IF \A r \in R : r.st = "inf" THEN [st |-> "inf", n |-> 0, d |-> 1]
               ELSE CHOOSE r \in R : \A t \in R : Better(r, t)
\* ---- judging a reported solution (x in units of 1/SC)
SC == 10000
HUGE == 1999999997
RECURSIVE DotN(_, _, _)
DotN(a, x, k) == IF k = 0 THEN 0 ELSE a[k] * x[k] + DotN(a, x, k - 1)
RECURSIVE Sum1(_, _)
Sum1(a, k) == IF k = 0 THEN 0 ELSE Abs(a[k]) + Sum1(a, k - 1)
Within(v, lo, hi, t) == (Fin(lo) => v >= lo * SC - t) /\ (Fin(hi) => v <= hi * SC + t)
Feasible(p, x) ==
    /\ \A i \in 1..p.n : Within(x[i], p.xl[i], p.xu[i], 2)
    /\ \A i \in 1..Len(p.A) : Within(DotN(p.A[i], x, p.n), p.bl[i], p.bu[i], 2 + 2 * Sum1(p.A[i], p.n))
    /\ \A i \in 1..p.n : p.ty[i] # "cont" => \E v \in p.xl[i]..p.xu[i] : Abs(x[i] - v * SC) <= 2
Value(p, x) == (IF p.dir = "max" THEN 1 ELSE -1) * DotN(p.c, x, p.n)
\* Two blind spots of the third-party solvers: CLP, once a column has had no entries, may stop
\* early (not judged); the branch and bound of LP-Solve may overlook the better of two integer
\* points (only feasibility is judged).
ClpBlind(p) == p.zc /\ p.sv \in {"clp", "g_clp"}
Blind(p) == p.sv \in {"lpsolve", "g_lpsolve"} /\ \E i \in 1..p.n : p.ty[i] # "cont"
SolveOk(p, e) ==
    LET o == Opt(p) IN
    IF o.st # "opt" THEN e.r # 0 \/ (o.st = "unb" /\ (Blind(p) \/ ClpBlind(p)))
    ELSE /\ e.r = 0 /\ Len(e.x) = p.n
         \* an unbounded face of optima may be reported by a point beyond the logged range
         /\ \/ \E i \in 1..p.n : e.x[i] = HUGE
            \/ /\ Feasible(p, e.x)
               /\ \/ Abs(Value(p, e.x) - FixK(o.n, o.d, 4)) <= 3 + 2 * Sum1(p.c, p.n)
                  \/ Blind(p)
Ok(s, e, n) ==
    CASE e.op = "create" -> e.r = 0
      [] e.op = "once" -> SolveOk(Gm(e), e)
      [] e.op = "solve" -> ClpBlind(s) \/ SolveOk(s, e)
      [] e.op \in {"dir", "obj", "bnd", "cstr"} -> e.r = 0
      [] e.op = "type" -> TRUE          \* unsupported types are refused with an error
      [] e.op = "quad" -> e.r # 0       \* quadratic objectives are refused by the linear back ends
      [] OTHER -> FALSE
=============================================================================
