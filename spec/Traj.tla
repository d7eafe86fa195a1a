---------------------------------- MODULE Traj ---------------------------------
(* Way-point lists are deques that drop a point equal to the neighbour it is    *)
(* added next to and own copies of their points.  Trajectories through them:    *)
(* piecewise linear, trapezoidal velocity, parabolic blends, SLERP.             *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Near(x, y, t) == Abs(x - y) <= t
Sub(a, k, n) == [i \in 1..n |-> a[k + i - 1]]
RDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
RECURSIVE MaxN(_, _)
MaxN(F(_), n) == IF n = 1 THEN F(1) ELSE Max(MaxN(F, n - 1), F(n))
RECURSIVE SumN(_, _)
SumN(F(_), n) == IF n = 0 THEN 0 ELSE SumN(F, n - 1) + F(n)
ISqrt(x) == LET RECURSIVE R(_, _)
                R(lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN R(m, hi) ELSE R(lo, m - 1)
            IN R(0, 46340)
InitS == [n |-> 0, pts |-> <<>>, lim |-> <<>>, kind |-> -1]
\* a point is [q, dq, eff]; effort is not part of a point's identity
SameP(a, b) == a.q = b.q /\ a.dq = b.dq
PushBack(l, p) == IF l # <<>> /\ SameP(l[Len(l)], p) THEN l ELSE Append(l, p)
PushFront(l, p) == IF l # <<>> /\ SameP(l[1], p) THEN l ELSE <<p>> \o l
Pt(s, a) == LET how == a[1] IN [q |-> Sub(a, 2, s.n), dq |-> IF (how \div 2) % 2 = 1 THEN Sub(a, 2 + s.n, s.n) ELSE <<>>, eff |-> IF (how \div 4) % 2 = 1 THEN [i \in 1..s.n |-> how + i - 1] ELSE <<>>]
Step(s, e) == CASE e.op = "list" -> [s EXCEPT !.n = e.a[1]]
    [] e.op = "add" -> [s EXCEPT !.pts = IF e.a[1] % 2 = 1 THEN PushFront(@, Pt(s, e.a)) ELSE PushBack(@, Pt(s, e.a))]
    [] e.op = "addX" -> [s EXCEPT !.pts = PushBack(@, [q |-> e.a, dq |-> <<>>, eff |-> <<>>])]
    [] e.op = "path" -> LET n == e.a[1] RECURSIVE R(_, _)
                            R(l, i) == IF i > e.a[2] THEN l ELSE R(PushBack(l, [q |-> Sub(e.a, 3 + (i - 1) * n, n), dq |-> <<>>, eff |-> <<>>]), i + 1)
                        IN [s EXCEPT !.n = n, !.pts = R(<<>>, 1)]
    [] e.op = "lim" -> [s EXCEPT !.lim = e.a]
    [] e.op = "gen" -> [s EXCEPT !.kind = e.a[1]]
    [] OTHER -> s
\* ---- limits of joint i: at most this fast / strong in the direction of d
LV(s, i, d) == LET n == Len(s.lim) \div 4 IN IF d < 0 THEN -s.lim[i] ELSE s.lim[n + i]
LA(s, i, d) == LET n == Len(s.lim) \div 4 IN IF d < 0 THEN -s.lim[2 * n + i] ELSE s.lim[3 * n + i]
M(s) == Len(s.pts) - 1                                     \* number of segments
D(s, k, i) == s.pts[k + 1].q[i] - s.pts[k].q[i]
\* ---- linear: 12 * duration of segment k (all velocity limits divide 12)
Lin12(s, k) == MaxN(LAMBDA i : (12 * Abs(D(s, k, i))) \div LV(s, i, D(s, k, i)), s.n)
LinT(s, k) == SumN(LAMBDA j : Lin12(s, j), k)              \* end of segment k
\* ---- trapezoid, in thousandths: common ramp and common cruise-plus-ramp time
Ramp(s, k, i) == LET d == D(s, k, i) v == LV(s, i, d) a == LA(s, i, d) IN IF Abs(d) * a <= v * v THEN ISqrt((1000000 * Abs(d)) \div a) ELSE (1000 * v) \div a
Cruise(s, k, i) == LET d == D(s, k, i) v == LV(s, i, d) a == LA(s, i, d) IN IF Abs(d) * a <= v * v THEN ISqrt((1000000 * Abs(d)) \div a) ELSE (1000 * Abs(d)) \div v
TrapDt(s, k) == MaxN(LAMBDA i : Ramp(s, k, i), s.n) + MaxN(LAMBDA i : Cruise(s, k, i), s.n)
TrapT(s, k) == SumN(LAMBDA j : TrapDt(s, j), k)
\* ---- parabolic blends, in thousandths, while the blends at full speed do not overlap
PbDt(s, k) == MaxN(LAMBDA i : (1000 * Abs(D(s, k, i))) \div LV(s, i, D(s, k, i)), s.n)
PbV(s, k, i) == IF k < 1 \/ k > M(s) \/ Lin12(s, k) = 0 THEN 0 ELSE RDiv(12000 * D(s, k, i), Lin12(s, k))
PbB(s, k) == MaxN(LAMBDA i : LET d == PbV(s, k, i) - PbV(s, k - 1, i) IN Abs(d) \div LA(s, i, d), s.n)     \* blend around point k
PbFits(s) == \A k \in 1..M(s) : PbB(s, k) + 10 < PbDt(s, k) /\ PbB(s, k + 1) + 10 < PbDt(s, k)
PbAt(s, k) == (PbB(s, 1) \div 2) + SumN(LAMBDA j : PbDt(s, j), k - 1)         \* time of point k
PbT(s) == PbAt(s, M(s) + 1) + (PbB(s, M(s) + 1) \div 2)
Kind(s) == s.kind
Fits(s) == CASE Kind(s) = 0 -> TRUE [] Kind(s) = 1 -> TRUE [] OTHER -> PbFits(s)
TolT(s) == 2 + 3 * Len(s.pts)
GenOk(s, e) == LET kd == e.a[1] st == Step(s, e) m == M(s) IN
    IF kd = 3 THEN e.null = (IF Len(s.pts) = 2 THEN 0 ELSE 1) /\ (e.null = 0 => e.T = 1000)
    ELSE IF kd = 4 THEN e.null = 0 /\ e.nq = 6
    ELSE /\ e.null = 0 /\ e.nq = s.n
         /\ Len(e.pre) = m /\ e.pre[m] = e.T
         /\ kd = 0 => e.T12 = 1000 * LinT(s, m) /\ \A k \in 1..m : Near(12 * e.pre[k], 1000 * LinT(s, k), 12)
         \* not slower than the limits require
         /\ kd = 1 => \A k \in 1..m : e.pre[k] <= TrapT(s, k) + TolT(s)
         /\ (kd = 2 /\ PbFits(s)) => Near(e.T, PbT(s), TolT(s))
         \* linear and trapezoidal trajectories pass every way-point, after the time of the trajectory ending there
         /\ kd <= 1 => \A k \in 1..m, i \in 1..s.n : Near(e.w[(k - 1) * s.n + i], 1000 * s.pts[k + 1].q[i], 1)
         /\ kd = 2 => \A i \in 1..s.n : Near(e.w[(m - 1) * s.n + i], 1000 * s.pts[m + 1].q[i], 1)
\* position and velocity at a/64 of the duration
LinAt(s, a, i) == LET m == M(s) TT == LinT(s, m)
                      k == CHOOSE j \in 1..m : Lin12(s, j) > 0 /\ a * TT <= 64 * LinT(s, j) /\ (LinT(s, j - 1) = 0 \/ a * TT > 64 * LinT(s, j - 1))
                      c == a * TT - 64 * (IF k = 1 THEN 0 ELSE LinT(s, k - 1))
                  IN [q |-> 1000 * s.pts[k].q[i] + RDiv(1000 * D(s, k, i) * c, 64 * Lin12(s, k)), v |-> RDiv(12000 * D(s, k, i), Lin12(s, k)),
                      edge |-> \E j \in 1..m : a * TT = 64 * LinT(s, j)]
\* on the straight segment k, in thousandths (components up to 10, so products stay small)
OnSeg(s, k, q) == /\ \A i \in 1..s.n : LET x == q[i] - 1000 * s.pts[k].q[i] d == 1000 * D(s, k, i) IN (IF d >= 0 THEN -2 <= x /\ x <= d + 2 ELSE d - 2 <= x /\ x <= 2)
                  /\ \A i, j \in 1..s.n : Near((q[i] - 1000 * s.pts[k].q[i]) * D(s, k, j), (q[j] - 1000 * s.pts[k].q[j]) * D(s, k, i), 25)
\* blends: time t in thousandths
PbQ(s, t, i) == LET k == CHOOSE j \in 1..M(s) + 1 : (j = M(s) + 1 \/ t < PbAt(s, j + 1) - (PbB(s, j + 1) \div 2)) /\ (j = 1 \/ t >= PbAt(s, j) - (PbB(s, j) \div 2))
                    b == PbB(s, k) u == t - PbAt(s, k) + (b \div 2) v == PbV(s, k - 1, i) w == PbV(s, k, i)
                IN IF u <= b THEN [q |-> 1000 * s.pts[k].q[i] + RDiv(v * (u - (b \div 2)), 1000) + (IF b = 0 THEN 0 ELSE RDiv(RDiv((w - v) * u, b) * u, 2000)), v |-> v + (IF b = 0 THEN 0 ELSE RDiv((w - v) * u, b))]
                   ELSE [q |-> 1000 * s.pts[k].q[i] + RDiv(w * (t - PbAt(s, k)), 1000), v |-> w]
EvOk(s, e) == LET a == e.a[1] IN
    /\ e.r = (IF a >= 0 /\ a <= 64 THEN 1 ELSE 0)
    /\ (e.r = 1 /\ Kind(s) = 0) => \A i \in 1..s.n : LET x == LinAt(s, a, i) IN Near(e.q[i], x.q, 1) /\ (~x.edge => Near(e.dq[i], x.v, 1))
    /\ (e.r = 1 /\ Kind(s) = 1) => \E k \in 1..M(s) : OnSeg(s, k, e.q)
    /\ (e.r = 1 /\ Kind(s) = 2 /\ PbFits(s)) => \A i \in 1..s.n : LET x == PbQ(s, (a * PbT(s)) \div 64, i) IN Near(e.q[i], x.q, 30 + 5 * Len(s.pts)) /\ Near(e.dq[i], x.v, 60 + 15 * Len(s.pts))
FineOk(s, e) == LET m == M(s) IN \A i \in 1..s.n :
    /\ Near(e.q0[i], 1000 * s.pts[1].q[i], 1) /\ Near(e.qT[i], 1000 * s.pts[m + 1].q[i], 1)
    \* within the velocity limits, and velocities are those of the motion
    /\ e.fdx[i] <= 1000 * LV(s, i, 1) + 2 /\ e.fdn[i] >= -1000 * LV(s, i, -1) - 2
    /\ e.vx[i] <= 1000 * LV(s, i, 1) + 2 /\ e.vn[i] >= -1000 * LV(s, i, -1) - 2
    /\ Kind(s) >= 1 => /\ Near(e.d0[i], 0, 1) /\ Near(e.dT[i], 0, 1)
                       /\ LET A == Max(LA(s, i, 1), LA(s, i, -1)) IN e.er[i] <= 1000 * A
                       /\ e.ax[i] <= 1000 * (IF Kind(s) = 1 THEN Max(LA(s, i, 1), LA(s, i, -1)) ELSE LA(s, i, 1)) + 3
                       /\ e.an[i] >= -1000 * (IF Kind(s) = 1 THEN Max(LA(s, i, 1), LA(s, i, -1)) ELSE LA(s, i, -1)) - 3
CheckOk(e) == /\ e.same = 1
              /\ IF e.a[2] > 0 /\ e.n = e.a[2] THEN e.r = e.a[3] ELSE e.r = 0 /\ e.n \in {e.exp[1], e.exp[2]}
              /\ (e.a[2] > 0 /\ e.a[2] <= e.exp[1]) => e.n = e.a[2]
\* continuity: no two samples dt apart differ by more than the velocity limits allow
C0Ok(s, e) == LET bound == SumN(LAMBDA i : (1000 * e.a[1] * Max(LV(s, i, 1), LV(s, i, -1))) \div 48 + 1, s.n) IN
    /\ e.a[2] >= bound => e.r = 0
    /\ e.r \in {0, 1}
\* ---- poses: rotation vectors relative to the first (w) and last (u) point, in thousandths
EvXOk(s, e) == LET a == e.a[1] IN
    /\ e.r = (IF a >= 0 /\ a <= 64 THEN 1 ELSE 0)
    /\ e.r = 1 => LET P(k) == Sub(s.pts[k].q, 5, 3) m == Len(s.pts) IN
        /\ a = 0 => (\A i \in 1..3 : Near(e.w[i], 0, 1) /\ Near(e.p[i], 1000 * P(1)[i], 1))
        /\ a = 64 => (\A i \in 1..3 : Near(e.u[i], 0, 1) /\ Near(e.p[i], 1000 * P(m)[i], 1))
        /\ Kind(s) = 3 => /\ \A i \in 1..3 : Near(64 * e.p[i], 1000 * (P(1)[i] * (64 - a) + P(2)[i] * a), 64)
                          \* the path to the last pose is the shortest geodesic: parts in the ratio of the times, along one axis
                          /\ \A i \in 1..3 : Near((64 - a) * e.w[i], -a * e.u[i], 64)
                          /\ (a > 0 /\ a < 64) => /\ \A i \in 1..6 : Near(e.dX[i], e.fd[i], 2)
                                                  /\ \A i \in 1..3 : Near(e.dX[i], 1000 * (P(2)[i] - P(1)[i]), 1)
                                                  /\ \A i \in 1..3 : Near(e.dX[3 + i], e.w[i] - e.u[i], 2)
                                                  \* no more than half a turn
                                                  /\ (e.dX[4] \div 10) * (e.dX[4] \div 10) + (e.dX[5] \div 10) * (e.dX[5] \div 10) + (e.dX[6] \div 10) * (e.dX[6] \div 10) <= 99500
FineXOk(s, e) == /\ e.z[1] <= 1 /\ e.z[2] <= 1 /\ \A i \in 1..3 : e.m[i] <= 1000 * Max(LV(s, i, 1), LV(s, i, -1)) + 2
    \* the rotation cannot turn faster than its rotation vector moves, within the limits
    /\ e.m[4] <= SumN(LAMBDA j : 1000 * Max(LV(s, j + 3, 1), LV(s, j + 3, -1)), 3) + 10
LimsOk(e) == LET n == e.a[2] IN \A j \in 1..n, f \in 0..3 : LET b == 3 + (j - 1) * 9 IN
    Sub(e.x, (j - 1) * 8 + 2 * f + 1, 2) = IF (e.a[b] \div (2 ^ f)) % 2 = 1 THEN Sub(e.a, b + 1 + 2 * f, 2) ELSE <<-99999, 99999>>
StateOk(e) == LET nq == e.a[1] nt == e.a[2] mk == e.a[3] z == <<nq, nq, nq, nq, 7, 6, 6, 7 * nt, 7 * nt>>
                  gone(j) == (j = 1 /\ mk % 2 = 1) \/ (j = 4 /\ (mk \div 2) % 2 = 1) \/ (j = 7 /\ (mk \div 4) % 2 = 1) \/ (j = 9 /\ (mk \div 8) % 2 = 1)
                  F(j) == IF gone(j) THEN <<-1>> ELSE [i \in 1..z[j] |-> 100 * j + i - 1]
                  Out(j) == IF gone(j) THEN <<>> ELSE <<F(j)>> IN
    /\ e.eq = 1 /\ e.nn = <<nq, nt>> /\ e.x = [j \in 1..9 |-> F(j)] /\ e.E = <<1, 2, 3, 4, 5, 6, 7>>
    /\ e.q = Out(1) /\ e.dq = Out(2) /\ e.ddq = Out(3) /\ e.eff = Out(4) /\ e.X = Out(5) /\ e.dX = Out(6) /\ e.ddX = Out(7)
Bit(m, f) == (m \div (2 ^ f)) % 2
EqOk(e) == LET a == e.a IN e.r = (IF a[2] = a[3] /\ (Bit(a[2], a[4]) = 0 \/ Abs(a[6]) <= 3 \/ a[5] >= (IF a[4] <= 2 THEN a[1] ELSE IF a[4] = 3 THEN 7 ELSE 6)) THEN 1 ELSE 0)
DumpOk(s, e) == /\ e.n = Len(s.pts) /\ e.q = [k \in 1..Len(s.pts) |-> s.pts[k].q]
                /\ e.s = s.pts[1].q /\ e.f = s.pts[Len(s.pts)].q
                /\ LET F == SelectSeq(s.pts, LAMBDA p : p.dq # <<>>) G == SelectSeq(s.pts, LAMBDA p : p.eff # <<>>) IN e.dq = [k \in 1..Len(F) |-> F[k].dq] /\ e.eff = [k \in 1..Len(G) |-> G[k].eff]
Ok(s, e, n) == /\ e.g = 1 /\ e.rg = 1
    /\ CASE e.op \in {"list", "add", "addX", "path"} -> e.n = Len(n.pts) [] e.op = "lim" -> TRUE [] e.op = "dump" -> DumpOk(s, e) [] e.op = "gen" -> GenOk(s, e)
         [] e.op = "ev" -> EvOk(s, e) [] e.op = "fine" -> FineOk(s, e) [] e.op = "check" -> CheckOk(e) [] e.op = "c0" -> C0Ok(s, e) [] e.op = "evX" -> EvXOk(s, e)
         [] e.op = "fineX" -> FineXOk(s, e) [] e.op = "lims" -> LimsOk(e) [] e.op = "state" -> StateOk(e) [] e.op = "eq" -> EqOk(e)
===============================================================================
