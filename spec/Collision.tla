------------------------------ MODULE Collision ------------------------------
(* Collision checking: sets of frame pairs, allowed collisions at the scene and *)
(* checker level, and collision and distance queries against exact geometry.    *)
(* Lengths are integers in eighths of a unit (K = 8).  Frames are turned by the *)
(* 24 rotations of the cube, so boxes stay aligned with the axes and cylinders  *)
(* with one axis.                                                               *)
EXTENDS SE3, FiniteSets, TLC
K == 8
InitS == [fr |-> <<>>, geoms |-> <<>>, allow |-> {}, ready |-> FALSE, cl |-> FALSE, clallow |-> {}, sets |-> <<>>]
Put(f, k, v) == [x \in (DOMAIN f) \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Range(q) == { q[i] : i \in 1..Len(q) }
PairsOf(q) == { {q[i][1], q[i][2]} : i \in 1..Len(q) }
Mark(S, a, b, v) == IF v = 0 THEN S \ {{a, b}} ELSE S \union {{a, b}}

\* ---- exact poses
CfgVal(e, n) == LET i == CHOOSE i \in 1..Len(e.q) : e.q[i].c = n IN e.q[i].v
Joint(f, n, e) ==
    CASE f.type = "fixed" -> PId
      [] f.type = "revolute" -> LET c == CfgVal(e, n) IN [q |-> Red(<<c[1]*f.axis[1], c[1]*f.axis[2], c[1]*f.axis[3], c[2]>>), t |-> RZero]
      [] f.type = "prismatic" -> LET c == CfgVal(e, n) IN [q |-> QId, t |-> RVec(VScale(c[1], f.axis), c[2])]
RECURSIVE Pose(_, _, _)
Pose(fr, e, n) == IF n = "" THEN PId
    ELSE PMul(PMul(Pose(fr, e, fr[n].parent), [q |-> fr[n].q, t |-> RVec(SubSeq(fr[n].v, 1, 3), fr[n].v[4])]), Joint(fr[n], n, e))
Pt(r) == [i \in 1..3 |-> Div(K * r.n[i], r.d)]             \* a rational point in eighths
Rot(q, v) == LET m == MatVec(RotN(q), v)
                 N == QNorm(q) IN [i \in 1..3 |-> Div(m[i], N)]
AbsV(v) == [i \in 1..3 |-> Abs(v[i])]
SolidOf(g, p) ==                                            \* a geometry placed at pose p
    LET c == Pt(p.t)
        D(i) == g.d[i] * g.sc IN
    CASE g.shape \in {"box", "mesh"} -> LET h == AbsV(Rot(p.q, <<D(1), D(2), D(3)>>)) IN
            [k |-> g.shape, lo |-> VSub(c, h), hi |-> VAdd(c, h), c |-> c, r |-> 0, ax |-> 0]
      [] g.shape = "sphere" -> LET r == 2 * D(1) IN
            [k |-> "sphere", c |-> c, r |-> r, ax |-> 0, lo |-> VSub(c, <<r, r, r>>), hi |-> VAdd(c, <<r, r, r>>)]
      [] g.shape = "cylinder" ->                             \* from the frame origin along +Z
            LET a == Rot(p.q, <<0, 0, 1>>)
                ax == CHOOSE i \in 1..3 : a[i] # 0
                e2 == VAdd(c, VScale(2 * D(1), a))
                r == 2 * D(2)
                Lo(i) == IF i = ax THEN (IF e2[i] < c[i] THEN e2[i] ELSE c[i]) ELSE c[i] - r
                Hi(i) == IF i = ax THEN Max(e2[i], c[i]) ELSE c[i] + r IN
            [k |-> "cylinder", c |-> c, r |-> r, ax |-> ax, lo |-> <<Lo(1), Lo(2), Lo(3)>>, hi |-> <<Hi(1), Hi(2), Hi(3)>>]

\* ---- distances, in hundredths of an eighth
RECURSIVE SqrtB(_, _, _)
SqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtB(n, m, hi) ELSE SqrtB(n, lo, m)
ISqrt(n) == SqrtB(n, 0, 46340)
Gap(a, b, i) == Max(a.lo[i] - b.hi[i], b.lo[i] - a.hi[i])    \* negative: overlap
Pos(x) == IF x > 0 THEN x ELSE 0
Sq(x) == x * x
Others(ax) == {1, 2, 3} \ {ax}
Sum(S, Op(_)) == LET RECURSIVE F(_)
                     F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Op(x) + F(T \ {x}) IN F(S)
PGap(p, b, i) == Max(b.lo[i] - p[i], p[i] - b.hi[i])
\* Result: [s |-> "in" | "out" | "touch" | "any", d |-> distance]
Res(s, d) == [s |-> s, d |-> d]
Cmp(x, y, d) == IF x < y THEN Res("in", 0) ELSE IF x > y THEN Res("out", d) ELSE Res("touch", 0)
BoxBox(a, b) == LET g == [i \in 1..3 |-> Gap(a, b, i)] IN
    IF \A i \in 1..3 : g[i] < 0 THEN Res("in", 0)
    ELSE IF \E i \in 1..3 : g[i] > 0 THEN Res("out", ISqrt(10000 * (Sq(Pos(g[1])) + Sq(Pos(g[2])) + Sq(Pos(g[3])))))
    ELSE Res("touch", 0)
SphereBox(a, b) == LET D2 == Sum({1, 2, 3}, LAMBDA i : Sq(Pos(PGap(a.c, b, i)))) IN Cmp(D2, Sq(a.r), ISqrt(10000 * D2) - 100 * a.r)
SphereSphere(a, b) == LET D2 == Sum({1, 2, 3}, LAMBDA i : Sq(a.c[i] - b.c[i])) IN Cmp(D2, Sq(a.r + b.r), ISqrt(10000 * D2) - 100 * (a.r + b.r))
\* axial gap g and radial (squared) core distance R2 against radius r
Prod(g, R2, r) == LET t == Pos(ISqrt(10000 * R2) - 100 * r)
                      d == ISqrt(Sq(100 * Pos(g)) + Sq(t)) IN
    IF g < 0 /\ R2 < Sq(r) THEN Res("in", 0) ELSE IF g > 0 \/ R2 > Sq(r) THEN Res("out", d) ELSE Res("touch", 0)
CylBox(a, b) == Prod(Gap(a, b, a.ax), Sum(Others(a.ax), LAMBDA i : Sq(Pos(PGap(a.c, b, i)))), a.r)
CylSphere(a, b) == LET g == Pos(PGap(b.c, a, a.ax))
                       R2 == Sum(Others(a.ax), LAMBDA i : Sq(b.c[i] - a.c[i]))
                       d == ISqrt(Sq(100 * g) + Sq(Pos(ISqrt(10000 * R2) - 100 * a.r))) - 100 * b.r
                       X == Sq(b.r) - Sq(g)
                       L == R2 - Sq(a.r) - X IN
    IF X < 0 THEN Res("out", d)
    ELSE IF R2 <= Sq(a.r) THEN (IF X > 0 THEN Res("in", 0) ELSE Res("touch", 0))
    ELSE IF L < 0 THEN Res("in", 0) ELSE IF L > 30000 THEN Res("out", d) ELSE Cmp(Sq(L), 4 * Sq(a.r) * X, d)
CylCyl(a, b) == IF a.ax = b.ax THEN Prod(Gap(a, b, a.ax), Sum(Others(a.ax), LAMBDA i : Sq(a.c[i] - b.c[i])), a.r + b.r)
    ELSE LET o == CHOOSE i \in 1..3 : i # a.ax /\ i # b.ax IN
         \* boxes around the cylinders apart: no collision; axes cross within reach: collision
         IF \E i \in 1..3 : Gap(a, b, i) > 0 THEN Res("out", -1)
         ELSE IF PGap(a.c, b, b.ax) < 0 /\ PGap(b.c, a, a.ax) < 0 /\ Abs(a.c[o] - b.c[o]) < Max(a.r, b.r) THEN Res("in", 0) ELSE Res("any", 0)
Solid(a, b) ==
    CASE a.k \in {"box", "mesh"} /\ b.k \in {"box", "mesh"} -> BoxBox(a, b)
      [] a.k = "sphere" /\ b.k = "sphere" -> SphereSphere(a, b)
      [] a.k = "sphere" /\ b.k \in {"box", "mesh"} -> SphereBox(a, b)
      [] b.k = "sphere" /\ a.k \in {"box", "mesh"} -> SphereBox(b, a)
      [] a.k = "cylinder" /\ b.k \in {"box", "mesh"} -> CylBox(a, b)
      [] b.k = "cylinder" /\ a.k \in {"box", "mesh"} -> CylBox(b, a)
      [] a.k = "cylinder" /\ b.k = "sphere" -> CylSphere(a, b)
      [] b.k = "cylinder" /\ a.k = "sphere" -> CylSphere(b, a)
      [] OTHER -> CylCyl(a, b)
Strict(a, b) == \A i \in 1..3 : a.lo[i] > b.lo[i] /\ a.hi[i] < b.hi[i]
Within(a, b) == \A i \in 1..3 : a.lo[i] >= b.lo[i] /\ a.hi[i] <= b.hi[i]
\* a mesh is a hollow surface
Test(a, b) == LET r == Solid(a, b) IN
    IF a.k # "mesh" /\ b.k # "mesh" THEN r
    ELSE IF r.s # "in" THEN r
    ELSE IF (b.k = "mesh" /\ Strict(a, b)) \/ (a.k = "mesh" /\ Strict(b, a)) THEN Res("out", -1)
    ELSE IF (b.k = "mesh" /\ Within(a, b)) \/ (a.k = "mesh" /\ Within(b, a)) THEN Res("any", 0)
    ELSE IF a.k = "mesh" /\ b.k = "mesh" /\ \E i \in 1..3 : a.lo[i] = b.lo[i] \/ a.hi[i] = b.hi[i] THEN Res("any", 0) ELSE r

\* ---- whole scenes
Placed(s, e) == [n \in DOMAIN s.fr |-> LET p == Pose(s.fr, e, n)
                                           gs == SelectSeq(s.geoms, LAMBDA g : g.f = n /\ g.coll = 1) IN
                                       [i \in 1..Len(gs) |-> SolidOf(gs[i], p)]]
\* verdict for two frames: the geometries of a frame are one object
Tests(P, a, b) == { Test(P[a][i], P[b][j]) : i \in 1..Len(P[a]), j \in 1..Len(P[b]) }
Must(P, a, b) == \E r \in Tests(P, a, b) : r.s = "in"
May(P, a, b) == \E r \in Tests(P, a, b) : r.s # "out"
Names(s) == DOMAIN s.fr
AllPairs(s) == { {a, b} : a \in Names(s), b \in Names(s) } \ { {a} : a \in Names(s) }
El(p) == CHOOSE x \in p : TRUE
El2(p) == CHOOSE x \in p : x # El(p)
MustSet(s, P, allow) == { p \in AllPairs(s) : p \notin allow /\ Must(P, El(p), El2(p)) }
MaySet(s, P, allow) == { p \in AllPairs(s) : p \notin allow /\ May(P, El(p), El2(p)) }
SetOk(s, P, allow, old, new) == /\ old \union MustSet(s, P, allow) \subseteq new
                                /\ new \subseteq old \union MaySet(s, P, allow)
CheckOk(s, e) == LET P == Placed(s, e)
                     M == MustSet(s, P, s.clallow)
                     Y == MaySet(s, P, s.clallow) IN
    /\ (M # {} => e.r = 1) /\ (Y = {} => e.r = 0)
    /\ e.k > 0 => /\ e.sym = 1 /\ SetOk(s, P, s.clallow, s.sets[e.k], PairsOf(e.set))
                  /\ (e.r = 1) = (\E p \in PairsOf(e.set) : p \in Y /\ (p \notin s.sets[e.k] \/ p \in M)) \/ M = {}

\* ---- distances: e.pairs over all ordered pairs, observed in hundredths of an eighth
DTOL == 3
InBox(p, g) == \A i \in 1..3 : p[i] >= 100 * g.lo[i] - DTOL /\ p[i] <= 100 * g.hi[i] + DTOL
OnFrame(P, n, p) == \E i \in 1..Len(P[n]) : InBox(p, P[n][i])
HasMesh(P, n) == \E i \in 1..Len(P[n]) : P[n][i].k = "mesh"
\* FCL itself misses penetrations of spheres into triangle meshes in distance queries
HasSphere(P, n) == \E i \in 1..Len(P[n]) : P[n][i].k = "sphere"
FclBlind(P, a, b) == (HasMesh(P, a) /\ HasSphere(P, b)) \/ (HasMesh(P, b) /\ HasSphere(P, a))
Pair(e, a, b) == LET i == CHOOSE i \in 1..Len(e.pairs) : e.pairs[i].a = a /\ e.pairs[i].b = b IN e.pairs[i]
PairOk(s, P, x, e) ==
    LET T == Tests(P, x.a, x.b)
        y == Pair(e, x.b, x.a) IN
    /\ x.same = 1 /\ y.big = x.big /\ y.d = x.d
    /\ x.big = 0 => y.p0 = x.p1 /\ y.p1 = x.p0                  \* the two orders agree, points swapped
    /\ IF {x.a, x.b} \in s.clallow \/ T = {} THEN x.big = 1
       ELSE /\ x.big = 0
            /\ IF \E r \in T : r.s = "in" THEN x.d <= 0 \/ FclBlind(P, x.a, x.b)
               ELSE IF FclBlind(P, x.a, x.b) /\ \E r \in T : r.s # "out" THEN TRUE
               ELSE IF \E r \in T : r.s # "out" THEN x.d <= DTOL \/ \A r \in T : r.s \in {"any", "out"}
               ELSE IF \E r \in T : r.d < 0 THEN x.d > 0       \* apart, amount not modelled
               ELSE LET m == CHOOSE r \in T : \A r2 \in T : r.d <= r2.d IN
                    /\ x.d >= m.d - DTOL /\ x.d <= m.d + DTOL
                    /\ \/ HasMesh(P, x.a) \/ HasMesh(P, x.b)         \* FCL gives no usable witness points for meshes
                       \/ /\ LET D2 == Sum({1, 2, 3}, LAMBDA i : Sq(x.p0[i] - x.p1[i]))
                                 l == ISqrt(D2) IN l >= x.d - 2 * DTOL /\ l <= x.d + 2 * DTOL
                          /\ OnFrame(P, x.a, x.p0) /\ OnFrame(P, x.b, x.p1)
DistOk(s, e) ==
    LET P == Placed(s, e)
        n == Cardinality(Names(s)) IN
    /\ Len(e.pairs) = n * (n - 1)
    /\ \A i \in 1..Len(e.pairs) : PairOk(s, P, e.pairs[i], e)
    /\ (e.r = 1) = (\E i \in 1..Len(e.pairs) : e.pairs[i].big = 0 /\ e.pairs[i].d <= 0) \/ (\E i \in 1..Len(e.pairs) : e.pairs[i].big = 0 /\ Abs(e.pairs[i].d) <= DTOL)
    /\ Len(e.min) = n
    /\ \A i \in 1..n : LET x == e.min[i]
                           Q == { j \in 1..Len(e.pairs) : e.pairs[j].a = x.a /\ e.pairs[j].big = 0 } IN
         IF Q = {} THEN x.big = 1
         ELSE x.big = 0 /\ x.e = 0 /\ (\A j \in Q : x.d <= e.pairs[j].d) /\ (\E j \in Q : e.pairs[j].b = x.b /\ e.pairs[j].d = x.d)

Step(s, e) ==
    CASE e.op = "frame" -> [s EXCEPT !.fr = Put(@, e.name, [parent |-> e.parent, type |-> e.type, q |-> e.q, v |-> e.v, axis |-> e.axis]),
                                     !.geoms = SelectSeq(@, LAMBDA g : g.f # e.name), !.ready = FALSE]
      [] e.op = "geom" -> [s EXCEPT !.geoms = @ \o [i \in 1..Len(e.fr) |-> [f |-> e.fr[i], shape |-> e.shape, d |-> e.d, sc |-> e.sc, coll |-> e.coll]]]
      [] e.op = "rm" -> [s EXCEPT !.fr = Del(@, e.name), !.geoms = SelectSeq(@, LAMBDA g : g.f # e.name),
                                  !.allow = { p \in @ : e.name \notin p }, !.ready = FALSE, !.cl = FALSE, !.sets = <<>>]
      [] e.op = "init" -> [s EXCEPT !.ready = TRUE, !.cl = FALSE, !.sets = <<>>]
      [] e.op = "sgallow" -> [s EXCEPT !.allow = Mark(@, e.a, e.b, e.v)]
      [] e.op = "allowconfig" -> [s EXCEPT !.allow = PairsOf(e.set)]
      [] e.op = "clnew" -> [s EXCEPT !.cl = TRUE, !.clallow = s.allow]
      [] e.op = "clallow" -> [s EXCEPT !.clallow = Mark(@, e.a, e.b, e.v)]
      [] e.op = "clallowset" -> [s EXCEPT !.clallow = @ \union s.sets[e.k]]
      [] e.op = "setnew" -> [s EXCEPT !.sets = Append(@, {})]
      [] e.op = "setset" -> [s EXCEPT !.sets[e.k] = Mark(@, e.a, e.b, e.v)]
      [] e.op = "setclear" -> [s EXCEPT !.sets[e.k] = {}]
      [] e.op = "setfill" -> [s EXCEPT !.sets[e.k] = @ \union s.sets[e.l]]
      [] e.op = "setmerge" -> [s EXCEPT !.sets[e.k] = @ \union { p \in s.sets[e.l] : Cardinality(p) = 2 }]
      [] e.op = "check" -> IF e.k > 0 THEN [s EXCEPT !.sets[e.k] = PairsOf(e.set)] ELSE s
      [] OTHER -> s
NoDup(q) == Cardinality(PairsOf(q)) = Len(q)
Ok(s, e, n) ==
    CASE e.op \in {"frame", "geom", "rm", "clnew", "clallow", "sgallow"} -> TRUE
      [] e.op = "init" -> e.r = 0 /\ e.n = Cardinality(Names(s))
      [] e.op = "allowconfig" -> e.sym = 1 /\ SetOk(s, Placed(s, e), s.allow, s.allow, PairsOf(e.set))
      [] e.op = "sgset" -> e.sym = 1 /\ PairsOf(e.set) = s.allow
      [] e.op = "getcoll" -> e.sym = 1 /\ SetOk(s, Placed(s, e), s.allow, {}, PairsOf(e.set))
      [] e.op \in {"setnew", "setset", "setclear", "setfill", "setmerge", "clallowset"} -> e.sym = 1 /\ PairsOf(e.set) = (IF e.op = "setnew" THEN {} ELSE n.sets[e.k])
      [] e.op = "check" -> CheckOk(s, e)
      [] e.op = "dist" -> DistOk(s, e)
      [] OTHER -> FALSE
=============================================================================
