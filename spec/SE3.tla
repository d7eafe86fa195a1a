-------------------------------- MODULE SE3 --------------------------------
(* Exact rigid-body algebra over integers.                                     *)
(* A rotation is an integer quaternion <<x, y, z, w>> (not normalised), a      *)
(* displacement is an integer vector over a positive common denominator.       *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))   \* b may be negative
GcdN(q) == LET RECURSIVE G(_, _)
               G(i, acc) == IF i > Len(q) THEN acc ELSE G(i + 1, IF q[i] = 0 THEN acc ELSE Gcd(acc, q[i]))
           IN G(1, 0)
Map(q, Op(_)) == [i \in 1..Len(q) |-> Op(q[i])]
Div(a, g) == IF a >= 0 THEN a \div g ELSE -((-a) \div g)
Red(q) == LET g == GcdN(q) IN IF g <= 1 THEN q ELSE [i \in 1..Len(q) |-> Div(q[i], g)]

\* ---- integer vectors
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

\* ---- quaternions <<x, y, z, w>>
QId == <<0, 0, 0, 1>>
QMul(a, b) == <<a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2],
                a[4]*b[2] + a[2]*b[4] + a[3]*b[1] - a[1]*b[3],
                a[4]*b[3] + a[3]*b[4] + a[1]*b[2] - a[2]*b[1],
                a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3]>>
QConj(a) == <<-a[1], -a[2], -a[3], a[4]>>
QNorm(a) == a[1]*a[1] + a[2]*a[2] + a[3]*a[3] + a[4]*a[4]
QM(a, b) == Red(QMul(a, b))
\* rotation matrix numerators, column major, over QNorm(q)
RotN(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
    << w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y),
       2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x),
       2*(x*z + w*y), 2*(y*z - w*x), w*w - x*x - y*y + z*z >>
MatVec(m, v) == << m[1]*v[1] + m[4]*v[2] + m[7]*v[3], m[2]*v[1] + m[5]*v[2] + m[8]*v[3], m[3]*v[1] + m[6]*v[2] + m[9]*v[3] >>
\* the rotated vector is MatVec(RotN(q), v) / QNorm(q)

\* ---- rational vectors [n : integer vector, d : positive denominator]
RVec(n, d) == LET g == GcdN(<<n[1], n[2], n[3], d>>) IN [n |-> <<Div(n[1], g), Div(n[2], g), Div(n[3], g)>>, d |-> d \div g]
RZero == [n |-> <<0, 0, 0>>, d |-> 1]
RAdd(a, b) == LET g == Gcd(a.d, b.d) IN RVec(VAdd(VScale(b.d \div g, a.n), VScale(a.d \div g, b.n)), (a.d \div g) * b.d)
RNeg(a) == [n |-> VScale(-1, a.n), d |-> a.d]
RSub(a, b) == RAdd(a, RNeg(b))
RRot(q, a) == RVec(MatVec(RotN(q), a.n), a.d * QNorm(q))
RScale(k, a) == RVec(VScale(k, a.n), a.d)
RCross(a, b) == RVec(Cross(a.n, b.n), a.d * b.d)

\* ---- rigid transforms [q, t]
PId == [q |-> QId, t |-> RZero]
PMul(a, b) == [q |-> QM(a.q, b.q), t |-> RAdd(a.t, RRot(a.q, b.t))]
PInv(a) == [q |-> QConj(a.q), t |-> RNeg(RRot(QConj(a.q), a.t))]
PApply(a, v) == RAdd(a.t, RRot(a.q, v))

\* ---- comparison with observations, which are integers round(x * SCALE)
SCALE == 100000
\* floor(n * SCALE / d) without leaving 32 bits (|n|/d < 20000, d < 20000)
Fix(n, d) == (n \div d) * SCALE + ((n % d) * SCALE) \div d
TOL == 3
Near(obs, n, d) == LET v == Fix(n, d) IN obs >= v - TOL /\ obs <= v + TOL + 1
NearVec(obs, a) == \A i \in 1..3 : Near(obs[i], a.n[i], a.d)
\* obs: the nine rotation-matrix elements, column major
NearRot(obs, q) == LET m == RotN(q)
                       N == QNorm(q) IN \A i \in 1..9 : Near(obs[i], m[i], N)
\* obs: nine rotation elements followed by three translation elements
NearPose(obs, p) == /\ Len(obs) = 12 /\ NearRot(SubSeq(obs, 1, 9), p.q) /\ NearVec(SubSeq(obs, 10, 12), p.t)

\* ---- finer comparison: observations round(x * 10^k), any |n/d| * 10^k and 5 * d within 32 bits
RECURSIVE FixR(_, _, _, _)
FixR(acc, r, d, k) == IF k = 0 THEN acc ELSE LET m == (r * 5) % d IN FixR(acc * 10 + 2 * ((r * 5) \div d) + (m * 2) \div d, (m * 2) % d, d, k - 1)
FixK(n, d, k) == FixR(n \div d, n % d, d, k)
NearK(obs, n, d, k, tol) == LET v == FixK(n, d, k) IN obs >= v - tol /\ obs <= v + tol + 1
=============================================================================
