---------------------------------- MODULE LA ----------------------------------
(* Linear algebra algorithms: what each result has to satisfy for the integer   *)
(* inputs of the call.  Matrices are column-major sequences; real results come  *)
(* scaled by SC.  f = 1: single precision (wider tolerance).                    *)
EXTENDS Integers, Sequences, FiniteSets
SC == 10000
InitS == 0
Step(s, e) == s
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sum(n, F(_)) == LET RECURSIVE G(_)
                    G(i) == IF i > n THEN 0 ELSE F(i) + G(i + 1) IN G(1)
At(M, r, i, j) == M[(j - 1) * r + i]
Sub(a, k, n) == [i \in 1..n |-> a[k + i - 1]]
\* |x - num/den| <= tol (scaled units), with den > 0 or < 0
NearQ(x, num, den, tol) == LET d == Abs(den) nn == IF den < 0 THEN -num ELSE num IN
    \* compare without forming SC*num when it is large
    Abs((nn \div d) * SC + ((nn % d) * SC) \div d - x) <= tol + 1
Near(x, y, tol) == Abs(x - y) <= tol

\* determinant and Cramer's rule over the integers (M: n x n column major)
Minor(M, n, ri, cj) == [k \in 1..((n - 1) * (n - 1)) |->
    LET i == ((k - 1) % (n - 1)) + 1 j == ((k - 1) \div (n - 1)) + 1 IN At(M, n, IF i >= ri THEN i + 1 ELSE i, IF j >= cj THEN j + 1 ELSE j)]
RECURSIVE Det(_, _)
Det(M, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN M[1]
             ELSE Sum(n, LAMBDA j : (IF j % 2 = 1 THEN 1 ELSE -1) * At(M, n, 1, j) * Det(Minor(M, n, 1, j), n - 1))
ReplCol(M, n, c, b) == [k \in 1..(n * n) |-> IF ((k - 1) \div n) + 1 = c THEN b[((k - 1) % n) + 1] ELSE M[k]]
\* numerators of the solution of M x = b; denominator Det
Cramer(M, n, b) == [i \in 1..n |-> Det(ReplCol(M, n, i, b), n)]
Tr(A, m, n) == [k \in 1..(m * n) |-> LET i == ((k - 1) % n) + 1 j == ((k - 1) \div n) + 1 IN At(A, m, j, i)]
Mul(A, m, n, B, p) == [k \in 1..(m * p) |-> LET i == ((k - 1) % m) + 1 j == ((k - 1) \div m) + 1 IN Sum(n, LAMBDA q : At(A, m, i, q) * At(B, n, q, j))]
AddI(A, n, d) == [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN A[k] + d ELSE A[k]]

\* ---- minimum assignment
MinCost(A, m, n) ==   \* m <= n after transposition: best total of an injective choice of columns
    LET RECURSIVE Best(_, _)
        Best(i, free) == IF i > m THEN 0
                         ELSE LET c == { At(A, m, i, j) + Best(i + 1, free \ {j}) : j \in free } IN CHOOSE x \in c : \A y \in c : x <= y
    IN Best(1, 1..n)
AssignOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n)
                   R == {i \in 1..m : e.ra[i] # -1} C == {j \in 1..n : e.ca[j] # -1} IN
    /\ \A i \in R : e.ra[i] \in 0..(n - 1) /\ e.ca[e.ra[i] + 1] = i - 1
    /\ \A j \in C : e.ca[j] \in 0..(m - 1) /\ e.ra[e.ca[j] + 1] = j - 1
    /\ Cardinality(R) = Min(m, n) /\ Cardinality(C) = Min(m, n)
    /\ Sum(m, LAMBDA i : IF e.ra[i] = -1 THEN 0 ELSE At(A, m, i, e.ra[i] + 1)) = (IF m <= n THEN MinCost(A, m, n) ELSE MinCost(Tr(A, m, n), n, m))
Max2MinOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n) mx == CHOOSE x \in {A[i] : i \in 1..(m * n)} : \A i \in 1..(m * n) : A[i] <= x IN
    \A i \in 1..(m * n) : e.x[i] = SC * (mx - A[i])

\* ---- least squares: x = (A'A)^-1 A'b, or the minimum norm solution A'(AA')^-1 b
Tol(e) == IF e.f = 1 THEN 60 ELSE 2
LlsOk(e) == LET a == e.a m == a[1] n == a[2] p == a[3] A == Sub(a, 7, m * n) B == Sub(a, 7 + m * n, m * p) At_ == Tr(A, m, n) IN
    /\ e.r = 0
    /\ IF m >= n
       THEN LET M == Mul(At_, n, m, A, n) d == Det(M, n) IN d # 0 =>
            \A q \in 1..p : LET x == Cramer(M, n, Mul(At_, n, m, Sub(B, (q - 1) * m + 1, m), 1)) IN \A i \in 1..n : NearQ(e.x[(q - 1) * n + i], x[i], d, Tol(e))
       ELSE LET M == Mul(A, m, n, At_, m) d == Det(M, m) IN d # 0 =>
            \A q \in 1..p : LET y == Cramer(M, m, Sub(B, (q - 1) * m + 1, m)) IN \A i \in 1..n : NearQ(e.x[(q - 1) * n + i], Sum(m, LAMBDA j : At(A, m, j, i) * y[j]), d, Tol(e))
\* damped least squares A'(AA' + kI)^-1 b
Damped(A, m, n, k, b) == LET M == AddI(Mul(A, m, n, Tr(A, m, n), m), m, k) IN
    [num |-> Mul(Tr(A, m, n), n, m, Cramer(M, m, b), 1), den |-> Det(M, m)]
DlsOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n) x == Damped(A, m, n, a[3], Sub(a, 4 + m * n, m)) IN
    x.den # 0 => \A i \in 1..n : NearQ(e.x[i], x.num[i], x.den, 2)
DlsnpOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n) b == Sub(a, 4 + m * n, m) yp == Sub(a, 4 + m * n + m, n)
                  r == Mul(A, m, n, yp, 1) x == Damped(A, m, n, a[3], [i \in 1..m |-> b[i] - r[i]]) IN
    x.den # 0 => \A i \in 1..n : NearQ(e.x[i] - SC * yp[i], x.num[i], x.den, 2)
NpOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 3, m * n) P == Sub(a, 3 + m * n, m * n) x == Sub(a, 3 + 2 * m * n, m) yp == Sub(a, 3 + 2 * m * n + m, n)
               PA == Mul(P, n, m, A, n) Px == Mul(P, n, m, x, 1) PAy == Mul(PA, n, n, yp, 1) IN
    /\ e.n = AddI(PA, n, -1)
    /\ \A i \in 1..n : e.x[i] = Px[i] - (PAy[i] - yp[i])

\* ---- factorisations; products of two scaled factors carry SC*SC
QS == 1000
QQ == QS * QS
Down(M) == [i \in DOMAIN M |-> (M[i] + 5) \div 10]
\* tolerances: rounding of the factors (half a unit of QS each) times the magnitude of the other factor
Orth(Q, n, tol) == \A i, j \in 1..n : i <= j => Near(Sum(n, LAMBDA k : At(Q, n, k, i) * At(Q, n, k, j)), IF i = j THEN QQ ELSE 0, tol)
SumAbs(A) == Sum(Len(A), LAMBDA i : Abs(A[i]))
QrOk(e) == LET a == e.a m == a[1] n == a[2] w == a[6] A == Sub(a, 7, m * n) q == Down(e.q) R == Down(e.x) t == IF e.f = 1 THEN 2 * QS ELSE QS big == Max(1, SumAbs(A)) IN
    /\ e.r = 0
    /\ w % 2 = 1 => Orth(q, m, t * 3)
    /\ w \div 2 = 1 => /\ \A i \in 1..m, j \in 1..n : i > j => At(e.x, m, i, j) = 0
                       /\ \A i, j \in 1..n : i <= j => Near(Sum(m, LAMBDA k : At(R, m, k, i) * At(R, m, k, j)), QQ * Sum(m, LAMBDA k : At(A, m, k, i) * At(A, m, k, j)), t * big)
    /\ w = 3 => \A i \in 1..m, j \in 1..n : Near(Sum(m, LAMBDA k : At(q, m, i, k) * At(R, m, k, j)), QQ * At(A, m, i, j), t * big)
SvdOk(e) == LET a == e.a m == a[1] n == a[2] w == a[6] A == Sub(a, 7, m * n) k == Min(m, n) t == IF e.f = 1 THEN 2 * QS ELSE QS big == Max(1, SumAbs(A))
                G == Mul(Tr(A, m, n), n, m, A, n) H == Mul(A, m, n, Tr(A, m, n), m) U == Down(e.u) V == Down(e.v)
                s100 == [i \in 1..k |-> (e.s[i] + 50) \div 100]
                s2(c) == IF c <= k THEN s100[c] * s100[c] ELSE 0 IN       \* scaled 10^4
    /\ e.r = 0
    /\ \A i \in 1..k : e.s[i] >= 0 /\ (i > 1 => e.s[i] <= e.s[i - 1])
    \* sum of squares and of fourth powers of the singular values
    /\ Near(Sum(k, LAMBDA i : s2(i)), 10000 * Sum(m * n, LAMBDA i : A[i] * A[i]), 150 * big)
    /\ LET q == [i \in 1..k |-> (s2(i) + 50) \div 100] IN Near(Sum(k, LAMBDA i : q[i] * q[i]), 10000 * SumAbs([i \in 1..(n * n) |-> G[i] * G[i]]), 400 * (1 + SumAbs(G)) * (1 + big \div 4))
    \* columns of U are eigenvectors of AA', rows of V of A'A
    /\ w % 2 = 1 => /\ Orth(U, m, t * 3)
                    /\ \A c, i \in 1..m : Near(10 * Sum(m, LAMBDA j : At(H, m, i, j) * At(U, m, j, c)), ((s2(c) \div 100) * At(U, m, i, c)) \div 10, 400 * (1 + big))
    /\ w \div 2 = 1 => /\ Orth(V, n, t * 3)
                       /\ \A c, i \in 1..n : Near(10 * Sum(n, LAMBDA j : At(G, n, i, j) * At(V, n, c, j)), ((s2(c) \div 100) * At(V, n, c, i)) \div 10, 400 * (1 + big))
    /\ w = 3 => \A i \in 1..m, j \in 1..n : Near(Sum(k, LAMBDA q : ((At(U, m, i, q) * s100[q]) \div 100) * At(V, n, q, j)), QQ * At(A, m, i, j), t * 4 * big)
EevOk(e) == LET a == e.a n == a[1] w == a[5] A == Sub(a, 6, n * n) t == IF e.f = 1 THEN 3 * QS ELSE QS wr == Down(e.wr) wi == Down(e.wi) big == Max(1, SumAbs(A))
                \* A v = (wr + i wi) v for the eigenvector built from columns (re, im)
                EqR(V, re, im, c, TT(_, _)) ==
                   \A i \in 1..n : LET vr(j) == At(V, n, j, re) vi(j) == IF im = 0 THEN 0 ELSE At(V, n, j, im) IN
                      /\ Near(QS * Sum(n, LAMBDA j : TT(i, j) * vr(j)), wr[c] * vr(i) - wi[c] * vi(i), t * (2 + big))
                      /\ Near(QS * Sum(n, LAMBDA j : TT(i, j) * vi(j)), wr[c] * vi(i) + wi[c] * vr(i), t * (2 + big))
                Unit(V, re, im) == Near(Sum(n, LAMBDA j : At(V, n, j, re) * At(V, n, j, re) + (IF im = 0 THEN 0 ELSE At(V, n, j, im) * At(V, n, j, im))), QQ, t * 4)
                R(V, c, d, TT(_, _)) == IF e.pr[c] = 0 THEN EqR(V, c, 0, c, TT) /\ Unit(V, c, 0) ELSE EqR(V, c, c + 1, d, TT) /\ Unit(V, c, c + 1)
                \* complex eigenvalues come in consecutive conjugate pairs
                First(c) == Cardinality({d \in 1..c : e.pr[d] # 0}) % 2 = 1 IN
    /\ e.r = 0
    /\ Near(Sum(n, LAMBDA i : e.wr[i]), SC * Sum(n, LAMBDA i : At(A, n, i, i)), IF e.f = 1 THEN 200 ELSE 20)
    /\ \A c \in 1..n : (e.pr[c] # 0 /\ First(c)) => c < n /\ e.wr[c + 1] = e.wr[c] /\ e.wi[c + 1] = -e.wi[c]
    /\ w \div 2 = 1 => \A c \in 1..n : (e.pr[c] = 0 \/ First(c)) => R(Down(e.v), c, c, LAMBDA i, j : At(A, n, i, j))
    \* left vectors: u^H A = w u^H, i.e. A' u = conj(w) u
    /\ w % 2 = 1 => \A c \in 1..n : (e.pr[c] = 0 \/ First(c)) => R(Down(e.u), c, c + 1, LAMBDA i, j : At(A, n, j, i))
SysvOk(e) == LET a == e.a n == a[2] p == a[3] A == Sub(a, 6, n * n) B == Sub(a, 6 + n * n, n * p) d == Det(A, n) IN
    d # 0 => /\ e.r = 0
             /\ \A q \in 1..p : LET x == Cramer(A, n, Sub(B, (q - 1) * n + 1, n)) IN \A i \in 1..n : NearQ(e.x[(q - 1) * n + i], x[i], d, Tol(e))
InvOk(e) == LET a == e.a n == a[1] A == Sub(a, 2, n * n) d == Det(A, n) IN
    IF d = 0 THEN e.r # 0 ELSE e.r = 0 /\ \A c \in 1..n : LET x == Cramer(A, n, [i \in 1..n |-> IF i = c THEN 1 ELSE 0]) IN \A i \in 1..n : NearQ(At(e.x, n, i, c), x[i], d, 2)
\* A'X + XA - X BB' X + C'C = 0 (B and C given as the products when square), X symmetric
CareOk(e) == LET a == e.a m == a[1] n == a[2] p == a[3] A == Sub(a, 4, m * m) B == Sub(a, 4 + m * m, m * n) C == Sub(a, 4 + m * m + m * n, p * m)
                 G == IF n = m THEN B ELSE Mul(B, m, n, Tr(B, m, n), m)
                 Q == IF p = m THEN C ELSE Mul(Tr(C, p, m), m, p, C, m)
                 X == e.x XG == Mul(X, m, m, G, m) XA == Mul(X, m, m, A, m) mx == CHOOSE v \in {Abs(X[i]) : i \in 1..(m * m)} : \A i \in 1..(m * m) : Abs(X[i]) <= v
                 L == [i \in 1..(m * m) |-> (X[i] + 5) \div 10] LG == [i \in 1..(m * m) |-> (XG[i] + 5) \div 10] IN
    /\ e.r = 0
    /\ \A i, j \in 1..m : Near(At(X, m, i, j), At(X, m, j, i), 3)
    /\ \A i, j \in 1..m : Near(100 * (At(XA, m, i, j) + At(XA, m, j, i) + SC * At(Q, m, i, j)), Sum(m, LAMBDA k : At(LG, m, i, k) * At(L, m, k, j)), 600 + (mx \div 10) * 20)

\* ---- statistics
StatsOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 5, m * n) mu == [i \in 1..m |-> Sum(n, LAMBDA j : At(A, m, i, j))] IN
    /\ \A i \in 1..m : NearQ(e.x[i], mu[i], n, Tol(e))
    /\ \A j \in 1..n : NearQ(e.y[j], Sum(m, LAMBDA i : At(A, m, i, j)), m, Tol(e))
    /\ n > 1 => \A i, j \in 1..m : NearQ(At(e.e, m, i, j), Sum(n, LAMBDA k : (n * At(A, m, i, k) - mu[i]) * (n * At(A, m, j, k) - mu[j])), n * n * (n - 1), Tol(e))
\* twice the median of a sequence of integers
Med2(x) == LET n == Len(x)
               Rank(i) == Cardinality({j \in 1..n : x[j] < x[i] \/ (x[j] = x[i] /\ j < i)})
               K(k) == x[CHOOSE i \in 1..n : Rank(i) = k] IN
           IF n = 0 THEN 0 ELSE IF n % 2 = 1 THEN 2 * K(n \div 2) ELSE K(n \div 2) + K(n \div 2 - 1)
OrderOk(e) == LET a == e.a n == a[1] u == a[3] x == Sub(a, 4, n) IN
    /\ 2 * e.med[1] = SC * Med2(x) /\ e.nmed = e.med
    /\ 2 * e.mad[1] = SC * Med2([i \in 1..n |-> Abs(x[i] - u)])
    /\ e.lo \in 0..(n - 1) /\ e.hi \in 0..(n - 1) /\ \A i \in 1..n : x[e.lo + 1] <= x[i] /\ x[i] <= x[e.hi + 1]
    /\ n > 1 => NearQ(e.var[1], Sum(n, LAMBDA i : (x[i] - u) * (x[i] - u)), n - 1, IF e.f = 1 THEN 300 ELSE 2)
ISqrtLe(v, b) == v * v <= b
ColsOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n) u == Sub(a, 4 + m * n, m)
                 d == [j \in 1..n |-> Sum(m, LAMBDA i : (At(A, m, i, j) - u[i]) * (At(A, m, i, j) - u[i]))]
                 Rank(i) == Cardinality({j \in 1..n : d[j] < d[i] \/ (d[j] = d[i] /\ j < i)})
                 K(k) == d[CHOOSE i \in 1..n : Rank(i) = k] IN
    \* odd count: median distance squared; even: ((sqrt p + sqrt q)/2)^2 lies between p and q and 4x - p - q = 2 sqrt(pq)
    /\ IF n % 2 = 1 THEN Near(e.x[1], SC * K(n \div 2), 2 + (IF e.f = 1 THEN K(n \div 2) + 5 ELSE 0))
       ELSE LET p == K(n \div 2 - 1) q == K(n \div 2) v == (2 * e.x[1] - (p + q) * (SC \div 2)) \div 100 IN Near(v * v, p * q * 10000, 400 + 600 * (p + q))
    /\ \A i \in 1..(m * n) : SC * A[i] <= e.y[1]
    /\ e.y[1] = SC * At(A, m, e.i + 1, e.j + 1)
    /\ e.t = [k \in 1..(m * n) |-> SC * Tr(A, m, n)[k]]
PairOk(e) == LET a == e.a n == a[1] x == Sub(a, 7, n) y == Sub(a, 7 + n, n) dot == Sum(n, LAMBDA i : x[i] * y[i]) nx == Sum(n, LAMBDA i : x[i] * x[i]) ny == Sum(n, LAMBDA i : y[i] * y[i])
                 c == (e.c[1] + 5) \div 10 s == (e.s[1] + 5) \div 10 IN
    /\ \A i \in 1..n : NearQ(e.x[i], a[6] * x[i] + a[5] * (y[i] - x[i]), a[6], Tol(e))
    /\ e.d[1] = SC * Sum(n, LAMBDA i : (x[i] - y[i]) * (x[i] - y[i]))
    /\ e.rng = 1
    /\ (nx > 0 /\ ny > 0) => /\ Near(((c * c) \div 100) * nx * ny, 10000 * dot * dot, 60 * nx * ny) /\ (dot > 0 => c > 0) /\ (dot < 0 => c < 0) /\ (dot = 0 => Abs(c) <= 1)
                             /\ Near(((s * s) \div 100) * nx * ny, 10000 * (nx * ny - dot * dot), 60 * nx * ny)
\* a hyperplane through given points (not through the origin): every point on it, unit normal, positive offset
PlaneOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 4, m * n) IN
    /\ Near(Sum(m, LAMBDA i : ((e.x[i] + 5) \div 10) * ((e.x[i] + 5) \div 10)), 1000000, 3000)
    /\ e.x[m + 1] > 0
    /\ \A j \in 1..n : Near(Sum(m, LAMBDA i : At(A, m, i, j) * e.x[i]) + e.x[m + 1], 0, IF e.f = 1 THEN 100 ELSE 30)
PdistOk(e) == LET a == e.a n == a[1] p == Sub(a, 2, n) q == Sub(a, 2 + n, n + 1) nn == Sum(n, LAMBDA i : q[i] * q[i]) d == Sum(n, LAMBDA i : p[i] * q[i]) + q[n + 1]
                  Sg(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
                  R(v, w) == LET v100 == (v + 50) \div 100 IN Near(v100 * v100 * nn, 10000 * w * w, 250 * (1 + Abs(w)) * nn) /\ (w = 0 => v = 0) /\ (w > 0 => v > 0) /\ (w < 0 => v < 0) IN
    R(e.d[1], d) /\ \A i \in 1..(n + 1) : R(e.x[i], q[i])

\* ---- vectors
VecOk(e) == LET a == e.a n == a[1] al == a[2] x == Sub(a, 3, n) y == Sub(a, 3 + n, n) D == Sum(n, LAMBDA i : (x[i] - y[i]) * (x[i] - y[i])) IN
    /\ \A i \in 1..n : e.s[1] <= x[i] /\ x[i] <= e.s[2]
    /\ (\E i \in 1..n : x[i] = e.s[1]) /\ (\E i \in 1..n : x[i] = e.s[2])
    /\ e.s[3] = Sum(n, LAMBDA i : x[i] * y[i]) /\ e.s[4] = Sum(n, LAMBDA i : x[i] * x[i]) /\ e.s[5] = D /\ e.s[6] = D
    /\ \A i \in 1..n : /\ e.v[1][i] = y[i] + al /\ e.v[2][i] = y[i] + x[i] /\ e.v[3][i] = y[i] + al * x[i] /\ e.v[4][i] = al * x[i] + y[i]
                       /\ e.v[5][i] = al * y[i] /\ e.v[6][i] = al + x[i] /\ e.v[7][i] = al * x[i] /\ e.v[8][i] = al - x[i]
                       /\ e.v[9][i] = x[i] + y[i] /\ e.v[10][i] = x[i] - y[i] /\ e.v[11][i] = x[i] * y[i] /\ e.v[12][i] = y[i]
                       /\ e.dz = 1 => NearQ(e.sd[i], al, x[i], 1) /\ NearQ(e.vd[i], y[i], x[i], 1)
MatOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 3, m * n) x == Sub(a, 3 + m * n, n) y == Sub(a, 3 + m * n + n, n) IN
    /\ e.t = Tr(A, m, n) /\ e.mv = Mul(A, m, n, x, 1)
    /\ m = n => /\ e.tr[1] = Sum(n, LAMBDA i : At(A, n, i, i)) /\ e.u = Tr(A, n, n)
                /\ e.wd[1] = Sum(n, LAMBDA i : x[i] * Sum(n, LAMBDA j : At(A, n, i, j) * y[j]))
CrossOk(e) == LET a == e.a IN e.x = <<a[2] * a[6] - a[3] * a[5], a[3] * a[4] - a[1] * a[6], a[1] * a[5] - a[2] * a[4]>>
\* ---- interpolation; ti in halves
TerpOk(e) == LET a == e.a n == a[1] t == a[5] IN
    \A i \in 1..n : LET c0 == a[6 + 3 * (i - 1)] c1 == a[7 + 3 * (i - 1)] c2 == a[8 + 3 * (i - 1)] IN
        /\ NearQ(e.l[i], 2 * c0 + c1 * t, 2, 1)
        /\ NearQ(e.q[i], 4 * c0 + 2 * c1 * t + c2 * t * t, 4, 1)
        /\ NearQ(e.d[i], c1 + c2 * t, 1, 1)
\* polynomial of order o from its end conditions; t in quarters
SplineOk(e) == LET a == e.a o == a[1] n == a[2] t == a[5]
                   P4(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 4 ELSE IF k = 2 THEN 16 ELSE IF k = 3 THEN 64 ELSE IF k = 4 THEN 256 ELSE 1024
                   RECURSIVE Pw(_)
                   Pw(k) == IF k = 0 THEN 1 ELSE t * Pw(k - 1)
                   tl == IF e.f = 1 THEN 400 ELSE 3 IN
    \A i \in 1..n : LET c(k) == a[6 + (i - 1) * (o + 1) + k] IN
        /\ NearQ(e.x[i], Sum(o + 1, LAMBDA k : c(k - 1) * Pw(k - 1) * (1024 \div P4(k - 1))), 1024, tl)
        /\ NearQ(e.y[i], Sum(o, LAMBDA k : k * c(k) * Pw(k - 1) * (1024 \div P4(k - 1))), 1024, tl)
        /\ NearQ(e.z[i], Sum(o - 1, LAMBDA k : (k + 1) * k * c(k + 1) * Pw(k - 1) * (1024 \div P4(k - 1))), 1024, tl)

Ok(s, e, n) == /\ e.g = 1 /\ e.rg = 1
    /\ CASE e.op = "assign" -> AssignOk(e) [] e.op = "max2min" -> Max2MinOk(e) [] e.op = "lls" -> LlsOk(e) [] e.op = "qr" -> QrOk(e)
         [] e.op = "svd" -> SvdOk(e) [] e.op = "eev" -> EevOk(e) [] e.op = "sysv" -> SysvOk(e) [] e.op = "inv" -> InvOk(e)
         [] e.op = "det3" -> e.d[1] = Det(e.a, 3) [] e.op = "dls" -> DlsOk(e) [] e.op = "dlsnp" -> DlsnpOk(e) [] e.op = "np" -> NpOk(e)
         [] e.op = "stats" -> StatsOk(e) [] e.op = "order" -> OrderOk(e) [] e.op = "cols" -> ColsOk(e) [] e.op = "pair" -> PairOk(e)
         [] e.op = "plane" -> PlaneOk(e) [] e.op = "pdist" -> PdistOk(e) [] e.op = "vec" -> VecOk(e) [] e.op = "mat" -> MatOk(e)
         [] e.op = "cross" -> CrossOk(e) [] e.op = "terp" -> TerpOk(e) [] e.op = "spline" -> SplineOk(e) [] e.op = "care" -> CareOk(e)
===============================================================================
