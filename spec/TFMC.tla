-------------------------------- MODULE TFMC --------------------------------
(* The exact rigid-body algebra satisfies the group laws, for every triple of  *)
(* motions drawn from generators of the octahedral group and small shifts.     *)
EXTENDS TF
Qs == {QId, <<1,0,0,1>>, <<0,0,1,1>>, <<0,1,0,0>>, <<1,1,1,1>>, <<0,-1,0,2>>}
Ts == {RZero, [n |-> <<1,0,0>>, d |-> 1], [n |-> <<1,-2,3>>, d |-> 2]}
Ps == {Pose(q, t) : q \in Qs, t \in Ts}
VARIABLES a, b, c
Init == a \in Ps /\ b \in Ps /\ c \in Ps
Next == UNCHANGED <<a, b, c>>
\* q and -q denote the same rotation
SameRot(p, q) == QNorm(p) = QNorm(q) /\ RotN(p) = RotN(q)
Eq(x, y) == SameRot(x.q, y.q) /\ x.t = y.t
Assoc == Eq(PMul(PMul(a, b), c), PMul(a, PMul(b, c)))
Inverse == Eq(PMul(a, PInv(a)), PId) /\ Eq(PMul(PInv(a), a), PId) /\ Eq(PInv(PMul(a, b)), PMul(PInv(b), PInv(a)))
Identity == Eq(PMul(a, PId), a) /\ Eq(PMul(PId, a), a)
Action == PApply(PMul(a, b), c.t) = PApply(a, PApply(b, c.t))
Rigid == LET d == RSub(PApply(a, b.t), PApply(a, c.t))
             o == RSub(b.t, c.t) IN Dot(d.n, d.n) * o.d * o.d = Dot(o.n, o.n) * d.d * d.d
=============================================================================
