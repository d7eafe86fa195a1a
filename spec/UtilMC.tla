------------------------------- MODULE UtilMC -------------------------------
(* The helpers' laws over small ranges: clocks advance as one counter would,  *)
(* modulo and remainder are the two division rules, a residue's distance is a *)
(* metric on the circle, variance is shift-invariant and non-negative, byte   *)
(* order conversions are inverse, the arm's two elbows are its only ones.     *)
EXTENDS Util, TLC
CONSTANTS B, Base          \* bound, and the base used for the carry in place of 10^9
VARIABLES s, n, t          \* a clock of (s, n) and a counter t
vars == <<s, n, t>>
NormB(a, b) == <<a + (b \div Base), b % Base>>
Init == s = 0 /\ n = 0 /\ t = 0
Tick(d, e) == /\ LET r == NormB(s + d, n + e) IN s' = r[1] /\ n' = r[2]
              /\ t' = t + d * Base + e
Next == \E d \in -2..2, e \in -(2 * Base)..(2 * Base) : Abs(t + d * Base + e) <= B /\ Tick(d, e)
Spec == Init /\ [][Next]_vars
Carry == n \in 0..(Base - 1) /\ t = s * Base + n
\* the order of clocks is the order of counters
Order == \A u \in -B..B : LET a == NormB(0, u) IN Cmp(<<s, n>>, a) = Sgn(t - u)
R == -7..7
ModLaw == \A a \in R, b \in R \ {0} : /\ (a - Mod(a, b)) % Abs(b) = 0 /\ Abs(Mod(a, b)) < Abs(b) /\ Sgn(Mod(a, b)) \in {0, Sgn(b)}
                                       /\ (a - Rem(a, b)) % Abs(b) = 0 /\ Abs(Rem(a, b)) < Abs(b) /\ Sgn(Rem(a, b)) \in {0, Sgn(a)}
CircLaw == \A a, b \in {0, 90000, 180000, 270000, 359999, -1, 720001} : Circ(a, b, 1) = Circ(b, a, 1) /\ Circ(a, a + 360000, 0)
X3 == [1..3 -> -2..2]
VarLaw == \A x \in X3 : Var(x) >= 0 /\ (Var(x) = 0) = (x[1] = x[2] /\ x[2] = x[3]) /\ Var([i \in 1..3 |-> x[i] + 5]) = Var(x) /\ Var(Rev(x)) = Var(x)
RevLaw == \A x \in X3 : Rev(Rev(x)) = x
UnitLaw == \A i \in 1..12 : UC[i] * UC[i] + US[i] * US[i] = 25
ASSUME ModLaw /\ CircLaw /\ VarLaw /\ RevLaw /\ UnitLaw
=============================================================================
