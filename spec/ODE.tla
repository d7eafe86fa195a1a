---------------------------------- MODULE ODE ----------------------------------
(* Initial value problems whose exact solution is a polynomial: the state is    *)
(* <<P^(n-1), ..., P', P>> for a polynomial P with integer coefficients, and    *)
(* the system is dx1 = P^(n)(t), dx[i+1] = x[i].  A Runge-Kutta step of order p *)
(* is exact when the degree of P is at most p, in whatever way it is programmed.*)
EXTENDS Integers, Sequences
InitS == 0
Step(s, e) == s
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Sum(n, F(_)) == LET RECURSIVE G(_)
                    G(i) == IF i > n THEN 0 ELSE F(i) + G(i + 1) IN G(1)
Sub(a, k, n) == [i \in 1..n |-> a[k + i - 1]]
RECURSIVE Fall(_, _)
Fall(k, d) == IF d = 0 THEN 1 ELSE k * Fall(k - 1, d - 1)
\* d-th derivative at t/1024, scaled 1000, by Horner's rule with rounding towards zero error below D+1 units
Pd(c, DD, d, t) == LET RECURSIVE H(_)
                       H(k) == IF k > DD THEN 0 ELSE (IF k < d THEN 0 ELSE c[k + 1] * Fall(k, d) * 1000) + (IF k < d THEN H(k + 1) ELSE (H(k + 1) * t) \div 1024)
                   IN IF d > DD THEN 0 ELSE H(d)
\* order up to which a method's results are exact (the lower one of an embedded pair)
Order(me) == <<1, 2, 4, 4, 4, 4, 2, 1>>[me + 1]
Fixed(me) == me <= 2
StepOk(e) == LET a == e.a me == a[1] n == a[2] DD == a[3] t == 256 * (a[4] + a[5]) c == Sub(a, 6, DD + 1) IN
    /\ DD <= Order(me) => \A i \in 1..n : Near(e.x[i], Pd(c, DD, n - i, t), 12)
    /\ (DD <= Order(me) /\ me \in 3..6) => \A i \in 1..n : Near(e.y[i], Pd(c, DD, n - i, t), 12)
    \* one of the two results of an embedded pair has the higher order
    /\ (DD = Order(me) + 1 /\ me \in 3..6) => \/ (\A i \in 1..n : Near(e.x[i], Pd(c, DD, n - i, t), 20))
                                              \/ (\A i \in 1..n : Near(e.y[i], Pd(c, DD, n - i, t), 20))
\* the callbacks of a solution: times advance, every state and derivative belongs to its time
SolSeq(e) == LET a == e.a me == a[1] n == a[2] DD == a[3] t0 == 256 * a[4] dt == 256 * a[5] inc == a[10] mv == a[11] c == Sub(a, 12, DD + 1)
                 exact == DD <= Order(me)
                 \* local errors are held below tol_dec (squared) by the step control
                 tl(i) == IF exact \/ Fixed(me) THEN 12 + 3 * i ELSE 60 + 10 * i
                 RECURSIVE T(_, _, _)
                 T(i, t, h) == IF i = 0 THEN t ELSE T(i - 1, t + h, IF Fixed(me) THEN h ELSE (h * inc) \div 100) IN
    /\ e.n = a[6]
    /\ \A i \in 1..e.n : e.t[i] > (IF i = 1 THEN t0 ELSE e.t[i - 1])
    /\ (exact \/ Fixed(me)) => \A i \in 1..e.n : e.t[i] = T(i, t0, dt)
    /\ (exact \/ ~Fixed(me)) => \A i \in 1..e.n, j \in 1..n :
        \* moved i-1 times by mv in every component: adds mv*(elapsed)^k/k! terms; only n = 1 systems are moved
        /\ Near(e.x[(i - 1) * n + j], Pd(c, DD, n - j, e.t[i]) + 1000 * mv * (i - 1), tl(i))
        /\ Near(e.y[(i - 1) * n + j], IF j = 1 THEN Pd(c, DD, n, e.t[i]) ELSE e.x[(i - 1) * n + j - 1], tl(i))
Ret(e) == e.r = IF e.a[7] > 0 THEN 0 ELSE e.a[7]
Last(e) == LET n == e.a[2] IN Sub(e.x, (e.n - 1) * n + 1, n)
SolOk(e) == Ret(e) /\ SolSeq(e) /\ \A i \in 1..e.a[2] : Near(e.z[i], Last(e)[i] + 1000 * e.a[11], 1)
PathOk(e) == LET a == e.a n == a[2] c == Sub(a, 12, a[3] + 1) IN
    /\ Ret(e) /\ SolSeq(e) /\ e.np = e.n + 1
    /\ \A i \in 1..n : Near(e.z[i], Pd(c, a[3], n - i, 256 * a[4]), 12)
    /\ Sub(e.z, n + 1, n * e.n) = e.x
LsimOk(e) == LET a == e.a m == a[1] n == a[2] A == Sub(a, 3, m * m) B == Sub(a, 3 + m * m, m * n) x == Sub(a, 3 + m * m + m * n, m) u == Sub(a, 3 + m * m + m * n + m, n)
                 MulA(v) == [i \in 1..m |-> Sum(m, LAMBDA j : A[(j - 1) * m + i] * v[j])]
                 y == [i \in 1..m |-> MulA(x)[i] + Sum(n, LAMBDA j : B[(j - 1) * m + i] * u[j])]
                 y2 == MulA(y) y3 == MulA(y2) y4 == MulA(y3) IN
    /\ e.d = y /\ e.e = [i \in 1..m |-> 2 * x[i] + y[i]]
    /\ e.x = [i \in 1..m |-> 384 * x[i] + 192 * y[i] + 48 * y2[i] + 8 * y3[i] + y4[i]]
    /\ e.f = [i \in 1..m |-> MulA(x)[i] + x[i]]
\* central differences of quadratic functions b'x + x'Mx are exact
Grad(b, M, x, n) == [i \in 1..n |-> b[i] + Sum(n, LAMBDA j : (M[(i - 1) * n + j] + M[(j - 1) * n + i]) * x[j])]
GradOk(e) == LET a == e.a n == a[1] IN e.x = Grad(Sub(a, 4, n), Sub(a, 4 + n, n * n), Sub(a, 4 + n + n * n, n), n)
JacOk(e) == LET a == e.a n == a[1] m == a[2] q == n + n * n x == Sub(a, 5 + m * q, n) IN
    \A i \in 1..m : LET gr == Grad(Sub(a, 5 + (i - 1) * q, n), Sub(a, 5 + (i - 1) * q + n, n * n), x, n) IN \A j \in 1..n : e.x[(j - 1) * m + i] = gr[j]
\* two-link arm: the target is reachable iff (l1 - l2)^2 <= |x|^2 <= (l1 + l2)^2
ArmOk(e) == LET a == e.a l1 == a[1] l2 == a[2] r2 == a[3] * a[3] + a[4] * a[4]
                Hit(k) == Near(l1 * e.x[k] + l2 * e.x[k + 2], 10000 * a[3], 15) /\ Near(l1 * e.x[k + 1] + l2 * e.x[k + 3], 10000 * a[4], 15)
                inside == (l1 - l2) * (l1 - l2) < r2 /\ r2 < (l1 + l2) * (l1 + l2)
                outside == r2 < (l1 - l2) * (l1 - l2) \/ r2 > (l1 + l2) * (l1 + l2) IN
    /\ e.r = 0 => Hit(1) /\ Hit(5)
    /\ (inside /\ r2 > 0) => e.r = 0 /\ \E i \in 1..2 : Abs(e.x[i] - e.x[i + 4]) > 20
    /\ outside => e.r = 1
Ok(s, e, n) == /\ e.g = 1 /\ e.rg = 1
    /\ CASE e.op = "step" -> StepOk(e) [] e.op = "sol" -> SolOk(e) [] e.op = "path" -> PathOk(e) [] e.op = "lsim" -> LsimOk(e)
         [] e.op = "grad" -> GradOk(e) [] e.op = "jac" -> JacOk(e) [] e.op = "arm" -> ArmOk(e)
===============================================================================
