-------------------------------- MODULE Util ---------------------------------
(* Small numeric helpers as arithmetic: times are pairs of seconds and        *)
(* nanoseconds in [0, 10^9) under a lexicographic order and a carry; modulo   *)
(* is of the sign of the divisor; angles are residues modulo 360 degrees;     *)
(* statistics are sums over sequences of integers; byte order is reversal.    *)
EXTENDS Integers, Sequences
G == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Near(x, y, t) == Abs(x - y) <= t
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Cut(q, k, n) == [i \in 1..n |-> q[k + i - 1]]
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE SumF(F, n - 1) + F(n)
\* ---- time
Norm(s, n) == <<s + (n \div G), n % G>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
TSub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Cmp(a, b) == IF a[1] # b[1] THEN Sgn(a[1] - b[1]) ELSE Sgn(a[2] - b[2])
TMin(a, b) == IF Cmp(a, b) <= 0 THEN a ELSE b
TMax(a, b) == IF Cmp(a, b) >= 0 THEN a ELSE b
\* ---- the residue of the sign of the divisor, and the remainder of the sign of the dividend
Mod(a, b) == IF b > 0 THEN a % b ELSE -((-a) % (-b))
Rem(a, b) == Sgn(a) * (Abs(a) % Abs(b))
\* ---- angles in thousandths of degrees
Circ(x, y, t) == LET d == (x - y) % 360000 IN d <= t \/ d >= 360000 - t
\* ---- statistics
Sum(x) == SumF(LAMBDA i : x[i], Len(x))
Dot(x, y) == SumF(LAMBDA i : x[i] * y[i], Len(x))
Var(x) == Len(x) * Dot(x, x) - Sum(x) * Sum(x)             \* times n (n - 1)
\* unit vectors in fifths
UC == <<5, 4, 3, 0, -3, -4, -5, -4, -3, 0, 3, 4>>
US == <<0, 3, 4, 5, 4, 3, 0, -3, -4, -5, -4, -3>>
CC(q) == SumF(LAMBDA i : UC[(q[i] % 100) + 1], Len(q))
CS(q) == SumF(LAMBDA i : US[(q[i] % 100) + 1], Len(q))
\* (c, s) / 10^4 points along (x, y)
Along(c, s, x, y) == LET m == Max(1, Max(Abs(x), Abs(y))) IN (x = 0 /\ y = 0) \/ (Near(c * y, s * x, 3 * m) /\ c * x + s * y > 0 /\ Near(c * (c \div 4) + s * (s \div 4), 25000000, 60000))
\* which elements a round of exclusion keeps: certainly, and perhaps (near ties), given mean m and deviation d of the last round; all in units of 1 / u
Kept(x, m, d, lo, hi, u, slack, wrap(_)) == {i \in 1..Len(x) : LET t == 2 * wrap(u * x[i] - m) IN t >= lo * d + slack /\ t <= hi * d - slack}
Maybe(x, m, d, lo, hi, u, slack, wrap(_)) == {i \in 1..Len(x) : LET t == 2 * wrap(u * x[i] - m) IN t >= lo * d - slack /\ t <= hi * d + slack}
RECURSIVE SumS(_, _)
SumS(F(_), S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN F(i) + SumS(F, S \ {i})
RECURSIVE Card(_)
Card(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 1 + Card(S \ {i})
Id(x) == x
Wrap(x) == LET d == (x + 31416) % 62832 IN d - 31416
\* round k of the exclusion follows from what round k - 1 reported
ExclOk(e) == LET lo == e.a[1] hi == e.a[2] n == e.a[4] x == Cut(e.a, 5, n) N == Len(e.mu)
                 K == [k \in 2..N |-> Kept(x, e.mu[k - 1], e.sd[k - 1], lo, hi, 1000, 40, Id)]
                 Sure == [k \in 2..N |-> K[k] = Maybe(x, e.mu[k - 1], e.sd[k - 1], lo, hi, 1000, 40, Id)] IN
    \A k \in 2..N : LET j == Card(K[k]) IN
        /\ e.it[k] \in 0..(k - 1)
        /\ \/ ~Sure[k]
           \/ Near(j * e.mu[k], 1000 * SumS(LAMBDA i : x[i], K[k]), j)
           \* finished: a round that keeps as many as the one before is the last
           \/ e.mu[k] = e.mu[k - 1] /\ e.sd[k] = e.sd[k - 1] /\ \E r \in 3..(k - 1) : ~Sure[r] \/ ~Sure[r - 1] \/ Card(K[r]) = Card(K[r - 1])
        \* deviation of what the first round keeps about the mean of all, in tenths
        /\ (k = 2 /\ Sure[2] /\ j > 1 /\ e.sd[2] < 60000) => LET s == Sum(x) v == SumS(LAMBDA i : (n * x[i] - s) * (n * x[i] - s), K[2]) d == e.sd[2] \div 10 IN
               Near((d * d) \div 100, (100 * (v \div (n * n))) \div (j - 1), 110 + (e.sd[2] \div 300))
\* ---- planar arm with two links
ArmOk(e) == LET l1 == 4 * e.a[1] l2 == 4 * e.a[2] x == e.a[3] y == e.a[4] r2 == x * x + y * y out == r2 > (l1 + l2) * (l1 + l2) \/ r2 < (l1 - l2) * (l1 - l2)
                in == r2 < (l1 + l2) * (l1 + l2) /\ r2 > (l1 - l2) * (l1 - l2) k == r2 + l1 * l1 - l2 * l2 IN
    r2 = 0 \/ (/\ out => e.r = 1
               /\ in => e.r = 0
               /\ e.r = 0 => \A q \in {e.a_, e.b} : Near(q[3], 250 * x, 2) /\ Near(q[4], 250 * y, 2)
               \* the two elbows mirror each other in the line to the target
               /\ in => Near(r2 * (e.a_[1] + e.b[1]), 250 * k * x, 3 * r2) /\ Near(r2 * (e.a_[2] + e.b[2]), 250 * k * y, 3 * r2)
                        /\ (LET c(q) == q[1] * y - q[2] * x IN Near(c(e.a_), -c(e.b), 4 * (Abs(x) + Abs(y))) /\ Abs(c(e.a_) \div 250) >= 0))
InitS == <<>>
Step(s, e) == s
Ok(s, e, n_) ==
    CASE e.op = "norm" -> e.r = Norm(e.a[1] + e.a[2], e.a[3])
      [] e.op = "time2" -> LET a == <<e.a[1], e.a[2]>> b == <<e.a[3], e.a[4]>> IN
            /\ e.add = Add(a, b) /\ e.sub = TSub(a, b) /\ e.cmp = Cmp(a, b) /\ e.min = TMin(a, b) /\ e.max = TMax(a, b)
            /\ e.us = <<a[1], a[2] \div 1000>> /\ e.ms = <<a[1], a[2] \div 1000000>> /\ Near(e.frac, a[2] \div 1000, 2)
      [] e.op = "far" -> LET a == e.a c == IF a[1] # a[4] THEN Sgn(a[1] - a[4]) ELSE Cmp(<<a[2], a[3]>>, <<a[5], a[6]>>) IN e.cmp = c /\ e.mm = (CASE c < 0 -> 1 [] c > 0 -> 2 [] OTHER -> 3) /\ e.inv = 1 /\ e.us = <<0, a[3] \div 1000>> /\ e.ush = a[1]
      [] e.op = "sec" -> e.r = <<e.a[1] \div 512, (e.a[1] % 512) * 1953125>> /\ e.back = e.a[1]
      [] e.op = "clock" -> e.ok = 1 /\ e.after = (IF e.a[1] < 0 THEN 1 ELSE 0)
      [] e.op = "sleep" -> e.ok = 1
      [] e.op = "mod" -> LET a == e.a[1] b == e.a[2] IN e.i = Mod(a, b) /\ e.l = e.i /\ e.j = e.i /\ e.r = Rem(a, b) /\ e.f = e.i /\ e.g = e.r
      [] e.op = "ang" -> LET a == e.a[1] b == e.a[2] IN e.in = 1 /\ Circ(e.u, 1000 * a, 1) /\ Circ(e.p, 1000 * a, 1) /\ Circ(e.d, 1000 * (a - b), 1) /\ e.deg = a /\ e.rad = a /\ e.trig = 1
      [] e.op = "tiny" -> e.in = 1 /\ e.near = 1
      [] e.op = "scalar" -> LET v == e.a[1] lo == e.a[2] hi == e.a[3] d == e.a[4] IN
            /\ (lo <= hi => e.clamp = Max(lo, Min(hi, v))) /\ e.dead = (IF lo < v /\ v < hi THEN d ELSE v) /\ e.sign = 8 * Sgn(v) /\ e.sq = v * v /\ e.max = Max(v, d) /\ e.min = Min(v, d)
            /\ e.feq = (IF Abs(v - d) <= Abs(lo) THEN 1 ELSE 0) /\ e.h3 = 64 * lo + 8 * v * hi + v * v * d /\ e.z2x = v * d + 8 * lo /\ (d # 0 => e.x2z = v - lo) /\ e.ok = 1
      [] e.op = "vec" -> LET n == e.a[4] x == Cut(e.a, 5, n) y == Cut(e.a, 5 + n, n) IN
            /\ e.veq = (IF \A i \in 1..n : Abs(x[i] - y[i]) <= e.a[3] THEN 1 ELSE 0) /\ e.guard = 1 /\ (e.a[1] <= e.a[2] => e.c = [i \in 1..n |-> Max(e.a[1], Min(e.a[2], x[i]))])
            /\ n > 0 => e.minloc \in 0..(n - 1) /\ e.maxloc \in 0..(n - 1) /\ \A i \in 1..n : x[e.minloc + 1] <= x[i] /\ x[e.maxloc + 1] >= x[i]
      [] e.op = "rand" -> e.ok = 1
      [] e.op = "stat" -> LET x == Cut(e.a, 2, e.a[1]) IN e.mean = Sum(x) /\ e.var = Var(x)
      [] e.op = "cov" -> LET m == e.a[1] n == e.a[2] R(i) == [k \in 1..n |-> e.a[2 + (k - 1) * m + i]] IN
            /\ e.vm = [i \in 1..m |-> Sum(R(i))] /\ e.mu = e.vm /\ e.guard = 1
            /\ e.e = [p \in 1..(m * m) |-> LET x == R(((p - 1) % m) + 1) y == R(((p - 1) \div m) + 1) IN n * Dot(x, y) - Sum(x) * Sum(y)]
      [] e.op = "maha" -> LET m == e.a[1] d == [i \in 1..m |-> e.a[1 + i] - e.a[1 + m + i]] A == Cut(e.a, 2 + 2 * m, m * m) IN e.kept = 1 /\ e.d2 = SumF(LAMBDA p : A[p] * d[((p - 1) % m) + 1] * d[((p - 1) \div m) + 1], m * m)
      [] e.op = "excl" -> ExclOk(e)
      [] e.op = "circ" -> LET q == Cut(e.a, 2, e.a[1]) x == CC(q) y == CS(q) IN
            /\ Along(e.c, e.s, x, y) /\ Along(e.c2, e.s2, x, y) /\ Near(e.r2, x * x + y * y, 1) /\ Near(e.e2, x * x + y * y, 1) /\ e.pos = 1
      [] e.op = "cexcl" -> LET n == e.a[3] q == Cut(e.a, 4, n) K == Kept(e.x, e.m0, e.s0, e.a[1], e.a[2], 1, 8, Wrap) M == Maybe(e.x, e.m0, e.s0, e.a[1], e.a[2], 1, 8, Wrap) edge == \E i \in 1..n : Abs(Wrap(e.x[i] - e.m0)) > 31400
                               x == SumS(LAMBDA i : UC[(q[i] % 100) + 1], K) y == SumS(LAMBDA i : US[(q[i] % 100) + 1], K) j == Card(K) IN
            (K = M /\ ~edge /\ e.s0 < 99999999) => Along(e.c, e.s, x, y) /\ Near((e.r2 \div 100) * j * j, 400 * (x * x + y * y), 2 * j * j + 2)
      [] e.op = "gauss" -> e.x1 = e.a[1] /\ (e.a[1] < 1024 => LET d == (e.x2 - e.a[2]) % 1024 IN d <= 1 \/ d >= 1023)
      [] e.op = "endian" -> LET b == Cut(e.a, 2, Len(e.a) - 1) r == Rev(b) IN
            /\ e.ldbe = b /\ e.ldle = r /\ e.stbe = b /\ e.stle = r /\ e.guard = 1
            /\ e.a[1] < 6 => e.h2be = b /\ e.h2le = r /\ e.be2h = b /\ e.le2h = r
      [] e.op = "arm" -> ArmOk(e)
      [] e.op = "hsv" -> LET r == e.a[1] g == e.a[2] b == e.a[3] IN e.v = Max(r, Max(g, b)) /\ e.sat = 1 /\ Near(e.x, 1000 * (2 * r - g - b), 2) /\ Near(e.y, 1000 * (g - b), 2) /\ (e.gray = 1) = (r = g /\ g = b)
      [] e.op = "mem" -> e.left = 0 /\ e.top = 1 /\ e.fds = 0
      [] OTHER -> FALSE
=============================================================================
