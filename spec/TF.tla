--------------------------------- MODULE TF ---------------------------------
(* Rigid motions in every representation Amino offers.  The state is the list  *)
(* of motions computed so far, each one an exact element of SE(3) (an integer  *)
(* quaternion and a rational translation); representations differ only in how  *)
(* the implementation stores them, so every representation of a motion must be *)
(* observed as the same rotation matrix and translation.                       *)
EXTENDS SE3, FiniteSets

InitS == [r |-> << >>]
Push(s, p) == [s EXCEPT !.r = Append(@, p)]
RotOnly == {"quat", "rotmat", "axang", "rotvec"}
Unit(i) == [k \in 1..3 |-> IF k = i THEN 1 ELSE 0]
\* the rotation by 2 atan2(e[1], e[2]) about an axis a of integer length n
QAxis(a, n, e) == Red(<<e[1] * a[1], e[1] * a[2], e[1] * a[3], e[2] * n>>)
QAx(i, e) == QAxis(Unit(i), 1, e)
Pose(q, t) == [q |-> q, t |-> t]
V4(v) == RVec(<<v[1], v[2], v[3]>>, v[4])
RECURSIVE QPow(_, _)
QPow(q, k) == IF k = 0 THEN QId ELSE QM(QPow(q, k - 1), q)
\* Denavit-Hartenberg, proximal and distal conventions
RX(e) == Pose(QAx(1, e), RZero)
RZ(e) == Pose(QAx(3, e), RZero)
TX(a) == Pose(QId, RVec(<<a[1], 0, 0>>, a[2]))
TZ(a) == Pose(QId, RVec(<<0, 0, a[1]>>, a[2]))
DH(e) == IF e.prox = 1 THEN PMul(PMul(RX(e.alpha), TX(e.a)), PMul(RZ(e.phi), TZ(e.d)))
         ELSE PMul(PMul(RZ(e.phi), TZ(e.d)), PMul(TX(e.a), RX(e.alpha)))
\* I - R, over QNorm(q)
IRN(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
    << 2*(y*y + z*z), -2*(x*y + w*z), -2*(x*z - w*y), -2*(x*y - w*z), 2*(x*x + z*z), -2*(y*z + w*x), -2*(x*z + w*y), -2*(y*z - w*x), 2*(x*x + y*y) >>
\* screw: turn about the axis through p, advance h along it
Screw(e) == LET q == QAxis(e.ax, e.an, e.e)
                p == IF e.rot = 1 THEN RZero ELSE V4(e.p)
                h == IF e.rot = 1 THEN RZero ELSE RVec(VScale(e.h[1], e.ax), e.h[2] * e.an)
            IN Pose(q, RAdd(RVec(MatVec(IRN(q), p.n), p.d * QNorm(q)), h))

Step(s, e) ==
  CASE e.op = "mk"    -> Push(s, Pose(Red(e.q), IF e.rep \in RotOnly THEN RZero ELSE V4(e.v)))
    [] e.op = "conv"  -> Push(s, s.r[e.a])
    [] e.op = "mul"   -> Push(s, PMul(s.r[e.a], s.r[e.b]))
    [] e.op = "imul"  -> Push(s, PMul(PInv(s.r[e.a]), s.r[e.b]))
    [] e.op = "muli"  -> Push(s, PMul(s.r[e.a], PInv(s.r[e.b])))
    [] e.op = "inv"   -> Push(s, PInv(s.r[e.a]))
    [] e.op = "euler" -> Push(s, Pose(QM(QM(QAx(e.ax[1], e.e[1]), QAx(e.ax[2], e.e[2])), QAx(e.ax[3], e.e[3])), RZero))
    [] e.op = "angle" -> Push(s, Pose(QAx(e.ax, e.e), V4(e.p)))
    [] e.op = "dh"    -> Push(s, DH(e))
    [] e.op = "screw" -> Push(s, IF e.a = 0 THEN Screw(e) ELSE PMul(Screw(e), s.r[e.a]))
    [] e.op = "slerp" -> Push(s, Pose(QM(Red(e.q), QPow(Red(e.u), e.k)), RZero))
    [] e.op = "avg"   -> Push(s, Pose(Red(e.q), RZero))
    [] OTHER -> s

\* ---- observations
RTOL == 15
TTOL == 5
SeesRot(e, q) == LET m == RotN(q)
                     N == QNorm(q) IN \A i \in 1..9 : NearK(e.r[i], m[i], N, 8, RTOL)
SeesT(e, t) == \A i \in 1..3 : NearK(e.t[i], t.n[i], t.d, 6, TTOL)
Sees(e, p) == /\ SeesRot(e, p.q) /\ SeesT(e, p.t) /\ Abs(e.aux) <= 2
\* column c of an observed matrix (scale 10^4) points along the integer vector v
Col(x, c) == <<x[3 * c - 2], x[3 * c - 1], x[3 * c]>>
Along(o, v) == /\ LET c == Cross(o, v) IN \A i \in 1..3 : Abs(c[i]) <= 2 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3]))
               /\ Dot(o, v) > 0
               /\ LET n == Dot(o, o) IN n > 100000000 - 50000 /\ n < 100000000 + 50000
Same(o, v, m) == \A i \in 1..3 : o[i] = m * v[i]
\* velocities
QDot(w, q) == QMul(<<w[1], w[2], w[3], 0>>, q)             \* twice the derivative of q
ISqrt(n) == CHOOSE k \in 0..n : k * k = n
VDiffOk(e, p) ==
  LET q == p.q
      n == ISqrt(QNorm(q))
      h == QDot(e.w, q)
      m == RotN(q)
      wx == [c \in 1..3 |-> Cross(e.w, <<m[3*c-2], m[3*c-1], m[3*c]>>)]
      dd == [i \in 1..4 |-> 2 * p.t.d * QDot(e.dv, q)[i] + QMul(<<p.t.n[1], p.t.n[2], p.t.n[3], 0>>, h)[i]]
      Q4(o) == \A i \in 1..4 : Near(e.d[o + i], h[i], 2 * n)
      V3(o) == Same(<<e.d[o+1], e.d[o+2], e.d[o+3]>>, e.dv, SCALE)
      R9 == \A i \in 1..9 : Near(e.d[i], wx[((i - 1) \div 3) + 1][((i - 1) % 3) + 1], n * n)
  IN /\ CASE e.rep = "quat" -> Q4(0)
          [] e.rep = "rotmat" -> R9
          [] e.rep = "qutr" -> Q4(0) /\ V3(4)
          [] e.rep = "tfmat" -> R9 /\ V3(9)
          [] e.rep = "duqu" -> Q4(0) /\ \A i \in 1..4 : Near(e.d[4 + i], dd[i], 4 * n * p.t.d)
     /\ \A i \in 1..3 : Abs(e.back[i] - SCALE * e.dv[i]) <= 1 /\ Abs(e.back[3 + i] - SCALE * e.w[i]) <= 1
\* the middle element(s) of a sorted list; the mean of both for an even number
Ins(x, l) == LET RECURSIVE I(_)
                 I(k) == IF k = 0 THEN <<x>> \o l ELSE IF l[k] <= x THEN SubSeq(l, 1, k) \o <<x>> \o SubSeq(l, k + 1, Len(l)) ELSE I(k - 1)
             IN I(Len(l))
RECURSIVE SortSeq1(_)
SortSeq1(l) == IF l = << >> THEN << >> ELSE Ins(Head(l), SortSeq1(Tail(l)))
RECURSIVE SumS(_)
SumS(l) == IF l = << >> THEN 0 ELSE Head(l) + SumS(Tail(l))
RelxOk(e) ==
  LET m == RotN(e.q)
      N == QNorm(e.q)
      d(j) == LET p == e.pts[j] IN VSub(VScale(N, <<p[4], p[5], p[6]>>), MatVec(m, <<p[1], p[2], p[3]>>))   \* over N
      k == Len(e.pts)
      comp(i) == [j \in 1..k |-> d(j)[i]]
  IN \A i \in 1..3 :
       IF e.med = 0 THEN Near(e.x[i], SumS(comp(i)), N * k)
       ELSE LET t == SortSeq1(comp(i)) IN
            IF k % 2 = 1 THEN Near(e.x[i], t[(k + 1) \div 2], N) ELSE Near(e.x[i], t[k \div 2] + t[k \div 2 + 1], 2 * N)

Ok(s, e, n) ==
  CASE e.op \in {"mk", "mul", "imul", "muli", "inv", "euler", "angle", "dh", "screw", "avg"} -> Sees(e, n.r[Len(n.r)])
    [] e.op = "slerp" -> Sees(e, n.r[Len(n.r)]) /\ e.err <= 2
    [] e.op = "conv"  -> Sees(e, n.r[Len(n.r)]) /\ e.range = 1
    [] e.op = "pt"    -> LET v == PApply(s.r[e.a], V4(e.p)) IN \A i \in 1..3 : NearK(e.x[i], v.n[i], v.d, 6, TTOL)
    [] e.op = "look"  -> LET z == VSub(e.eye, e.tgt)
                             x == Cross(e.up, z) IN
                         /\ Along(Col(e.x, 3), z) /\ Along(Col(e.x, 1), x) /\ Along(Col(e.x, 2), Cross(z, x))
                         /\ IF e.hast = 1 THEN \A i \in 1..3 : e.x[9 + i] = 10000 * e.eye[i] ELSE \A i \in 1..3 : e.x[9 + i] = 0
    [] e.op = "axes"  -> LET nx(c) == (c % 3) + 1 IN
                         /\ Along(Col(e.x, e.first), e.u) /\ Along(Col(e.x, nx(e.first)), e.v) /\ Along(Col(e.x, nx(nx(e.first))), Cross(e.u, e.v))
                         /\ e.isrot = 1
    [] e.op = "vecs"  -> \* the rotation takes u to v (both of the same length); it moves in the plane of u and v only
                         /\ \A i \in 1..3 : Abs(e.x[i] * e.u[1] + e.x[3 + i] * e.u[2] + e.x[6 + i] * e.u[3] - SCALE * e.v[i]) <= 2 * (Abs(e.u[1]) + Abs(e.u[2]) + Abs(e.u[3]))
                         /\ LET c == Red(Cross(e.u, e.v)) IN
                            (\A i \in 1..3 : Abs(c[i]) <= 6000) => \A i \in 1..3 : Abs(e.x[i] * c[1] + e.x[3 + i] * c[2] + e.x[6 + i] * c[3] - SCALE * c[i]) <= 2 * (Abs(c[1]) + Abs(c[2]) + Abs(c[3]))
    [] e.op = "isrot" -> e.r = (IF e.kind = 0 THEN 1 ELSE 0)
    [] e.op = "vdiff" -> VDiffOk(e, s.r[e.a])
    [] e.op = "twist" -> LET v == s.r[e.a].t
                             c == Cross(v.n, e.w) IN
                         /\ e.z = 0
                         /\ \A i \in 1..3 : Near(e.t[i], v.d * e.dv[i] + c[i], v.d) /\ Abs(e.t[3 + i] - SCALE * e.w[i]) <= 1
                         /\ \A i \in 1..3 : Abs(e.back[i] - SCALE * e.dv[i]) <= 1 /\ Abs(e.back[3 + i] - SCALE * e.w[i]) <= 1
    [] e.op = "vec"   -> LET c == Cross(e.u, e.v)
                             d == Dot(e.u, e.v) IN
                         /\ e.c = c /\ e.ml = c /\ e.mr = c /\ e.cf = c /\ e.ca = VAdd(<<1, 2, 3>>, c)
                         /\ e.sc = <<d, d, Dot(e.u, e.u), Dot(VSub(e.u, e.v), VSub(e.u, e.v))>>
                         \* projection of u on v and its orthogonal complement
                         /\ \A i \in 1..3 : Near(e.pr[i], d * e.v[i], Dot(e.v, e.v)) /\ Near(e.po[i], Dot(e.v, e.v) * e.u[i] - d * e.v[i], Dot(e.v, e.v))
    [] e.op = "qalg"  -> /\ e.mul = QMul(e.a, e.b) /\ e.cmul = QMul(QConj(e.a), e.b) /\ e.mulc = QMul(e.a, QConj(e.b))
                         /\ e.qv = QMul(e.a, <<e.b[1], e.b[2], e.b[3], 0>>) /\ e.vq = QMul(<<e.a[1], e.a[2], e.a[3], 0>>, e.b)
                         /\ \A i \in 1..4 : e.add[i] = e.a[i] + e.b[i] /\ e.sub[i] = e.a[i] - e.b[i] /\ e.iadd[i] = e.a[i] + e.b[i] /\ e.isub[i] = e.a[i] - e.b[i]
                         /\ e.sc = <<Dot(e.a, e.b) + e.a[4] * e.b[4], QNorm(e.a), QNorm([i \in 1..4 |-> e.a[i] - e.b[i]])>>
    [] e.op = "dlog"  -> \A i \in 1..Len(e.er) : e.er[i] <= 2
    [] e.op = "relx"  -> RelxOk(e)
    [] OTHER -> FALSE
=============================================================================
