------------------------------- MODULE LPMC -------------------------------
(* Sanity of the oracle: for every small two-variable program in a box the    *)
(* Fourier-Motzkin optimum is feasible exactly when a vertex of the           *)
(* arrangement is, and equals the best vertex.                                 *)
EXTENDS LP
VARIABLE p
\* candidate vertices: intersections of two tight boundary lines <<a1, a2, b>> (rational <<x, y, d>>)
Lines(q) == { <<u[1], u[2], u[4]>> : u \in { v \in Ineqs(q) : v[3] = 0 } }
Det(l, m) == l[1] * m[2] - l[2] * m[1]
Sg(d) == IF d < 0 THEN -1 ELSE 1
Pt(l, m) == LET d == Det(l, m) IN <<Sg(d) * (l[3] * m[2] - l[2] * m[3]), Sg(d) * (l[1] * m[3] - l[3] * m[1]), Sg(d) * d>>
Verts(q) == { Pt(w[1], w[2]) : w \in { w \in Lines(q) \X Lines(q) : Det(w[1], w[2]) # 0 } }
FeasV(q) == { v \in Verts(q) : \A l \in Lines(q) : l[1] * v[1] + l[2] * v[2] <= l[3] * v[3] }
ValN(q, v) == (IF q.dir = "max" THEN 1 ELSE -1) * (q.c[1] * v[1] + q.c[2] * v[2])
CONSTANT B
Init == \E a \in [1..2 -> -B..B], b \in [1..2 -> -B..B], c \in [1..2 -> -1..1], lo \in {-9999, -2, 0}, hi \in {-1, 1, 2, 9999}, dr \in {"max", "min"} :
        p = [n |-> 2, A |-> <<a, b>>, bl |-> <<lo, -9999>>, bu |-> <<hi, 1>>, c |-> c, xl |-> <<0, -1>>, xu |-> <<2, 2>>, dir |-> dr, ty |-> <<"cont", "cont">>]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
\* the box makes the polyhedron bounded, so the optimum is attained at a vertex
Exact == LET o == OptC(p)
             F == FeasV(p) IN
         IF F = {} THEN o.st = "inf"
         ELSE o.st = "opt" /\ (\A v \in F : ValN(p, v) * o.d <= o.n * v[3]) /\ (\E v \in F : ValN(p, v) * o.d = o.n * v[3])
=============================================================================
