---------------------------------- MODULE TrajMC --------------------------------
(* (1) Evaluation through a cached segment equals stateless evaluation for every *)
(* order of times.  (2) Sharing the longest ramp and the longest cruise-plus-    *)
(* ramp among joints keeps every joint within its velocity and acceleration      *)
(* limits; sharing the longest total time instead does not.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NS, MaxOps, Emit
VARIABLES it, res, hist
vars == <<it, res, hist>>
\* segment k covers the times 2(k-1)..2k; time -1 and 2NS+1 are outside
In(k, t) == 2 * (k - 1) <= t /\ t <= 2 * k
Find(from, t) == IF \E k \in from..NS : In(k, t) THEN CHOOSE k \in from..NS : In(k, t) /\ \A j \in from..k - 1 : ~In(j, t) ELSE 0
Eval(t) == LET a == IF it = 0 THEN 0 ELSE Find(it, t) b == IF a # 0 THEN a ELSE Find(1, t) IN
           it' = b /\ res' = <<t, b>> /\ hist' = Append(hist, t)
Init == it = 0 /\ res = <<-1, 0>> /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E t \in 0..2 * NS + 2 : Eval(t - 1)
Spec == Init /\ [][Next]_vars
\* the position at a shared boundary is the same in both segments, so only membership matters
Stateless == (res[2] = 0) <=> ~(\E k \in 1..NS : In(k, res[1]))
Correct == res[2] # 0 => In(res[2], res[1])
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<it, res>>
\* ---- trapezoids with rational ramps, over the common denominator 12
Max(a, b) == IF a > b THEN a ELSE b
Sq(x) == \E r \in 0..8 : r * r = x
Rt(x) == CHOOSE r \in 0..8 : r * r = x
Ok1(d, v, a) == d * a <= v * v => Sq(d * a)
R12(d, v, a) == IF d * a <= v * v THEN (12 * Rt(d * a)) \div a ELSE (12 * v) \div a
C12(d, v, a) == IF d * a <= v * v THEN (12 * Rt(d * a)) \div a ELSE (12 * d) \div v
Cases == { c \in (1..9) \X (1..4) \X {1, 2, 3, 4, 6} : Ok1(c[1], c[2], c[3]) }
ASSUME \A x, y \in Cases : LET ta == Max(R12(x[1], x[2], x[3]), R12(y[1], y[2], y[3])) tc == Max(C12(x[1], x[2], x[3]), C12(y[1], y[2], y[3])) IN
    /\ 12 * x[1] <= x[2] * tc /\ 144 * x[1] <= x[3] * ta * tc       \* peak velocity d/tc, acceleration d/(ta tc)
    /\ tc >= ta
ASSUME \E x, y \in Cases : LET ta == Max(R12(x[1], x[2], x[3]), R12(y[1], y[2], y[3]))
                               dt == Max(R12(x[1], x[2], x[3]) + C12(x[1], x[2], x[3]), R12(y[1], y[2], y[3]) + C12(y[1], y[2], y[3]))
                           IN dt - ta < C12(x[1], x[2], x[3]) /\ 12 * x[1] > x[2] * (dt - ta)
================================================================================
