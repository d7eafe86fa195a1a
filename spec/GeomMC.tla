------------------------------- MODULE GeomMC -------------------------------
(* The reference counts as they are kept: one counter per handle, stepped by   *)
(* every operation, the memory released when it reaches zero.  Checked against *)
(* Geom.tla, where the count is what actually refers to the handle.           *)
EXTENDS Geom, TLC, Json
CONSTANTS MaxOps, Emit, CountFrameCopies
VARIABLES s, rc, mrc, freed, mfreed, hist
vars == <<s, rc, mrc, freed, mfreed, hist>>
F == {"a", "b"}
Init == /\ s = [InitS EXCEPT !.m = <<[user |-> 1, v |-> <<>>, ix |-> <<>>]>>, !.sg[1] = [up |-> TRUE, fr |-> <<[f |-> "a", gs |-> <<>>], [f |-> "b", gs |-> <<>>]>>]]
        /\ rc = <<>> /\ mrc = <<1>> /\ freed = {} /\ mfreed = {} /\ hist = <<>>
\* counters: add d(g) to every geometry, freeing at zero; a freed mesh geometry lets go of its mesh
Apply(e, d) ==
    LET n == Step(s, e)
        r0 == [g \in 1..Len(n.g) |-> IF g <= Len(rc) THEN rc[g] ELSE 0]
        r == [g \in 1..Len(n.g) |-> r0[g] + d[g]]
        dead == { g \in 1..Len(n.g) : g \notin freed /\ r[g] = 0 }
        newm == { g \in 1..Len(n.g) : g > Len(rc) /\ n.g[g].mesh > 0 }
        um == IF e.op = "mdestroy" THEN 0 - 1 ELSE 0
        mr == [m \in 1..1 |-> mrc[m] + um + Cardinality(newm) - Cardinality({ g \in dead : n.g[g].mesh = m })]
    IN /\ s' = n /\ rc' = r /\ freed' = freed \union dead /\ mrc' = mr
       /\ mfreed' = mfreed \union { m \in 1..1 : mr[m] = 0 }
       /\ hist' = Append(hist, e)
N(n) == [g \in 1..n |-> 0]
D1(n, x, v) == [g \in 1..n |-> IF g = x THEN v ELSE 0]
FrD(n, q, v) == [g \in 1..n |-> v * Count(q, g)]
SgD(n, sg, v) == [g \in 1..n |-> v * InSg(sg, g)]
L == Len(s.g)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in {"box", "mesh"} : L < 3 /\ (k = "mesh" => MLive(s, 1)) /\ Apply([op |-> "geom", k |-> k, s |-> 0, x |-> <<1>>], D1(L + 1, L + 1, 1))
           \/ \E g \in 1..L : \/ Live(s, g) /\ L < 3 /\ Apply([op |-> "modopt", g |-> g, s |-> 1], D1(L + 1, L + 1, 1))
                              \/ Live(s, g) /\ Rc(s, g) < 4 /\ Apply([op |-> "copy", g |-> g], D1(L, g, 1))
                              \/ s.g[g].user > 0 /\ Apply([op |-> "destroy", g |-> g], D1(L, g, 0 - 1))
                              \/ s.g[g].user > 0 /\ \E i \in 1..2, f \in F : s.sg[i].up /\ HasFr(s.sg[i], f) /\ Apply([op |-> "attach", i |-> i, f |-> f, g |-> g], N(L))
           \/ s.m[1].user > 0 /\ Apply([op |-> "mdestroy", m |-> 1], N(L))
           \/ \E i \in 1..2, f \in F : s.sg[i].up /\ \/ Apply([op |-> "frame", i |-> i, f |-> f], FrD(L, IF HasFr(s.sg[i], f) THEN FrOf(s.sg[i], f) ELSE <<>>, 0 - 1))
                                                     \/ HasFr(s.sg[i], f) /\ Apply([op |-> "rmframe", i |-> i, f |-> f], FrD(L, FrOf(s.sg[i], f), 0 - 1))
                                                     \/ \E t \in F \ {f} : HasFr(s.sg[i], f) /\ HasFr(s.sg[i], t) /\ FrOf(s.sg[i], f) # <<>> /\ Len(FrOf(s.sg[i], t)) < 3
                                                                          /\ Apply([op |-> "cpframe", i |-> i, f |-> f, t |-> t], FrD(L, FrOf(s.sg[i], f), IF CountFrameCopies THEN 1 ELSE 0))
           \/ \E i, j \in 1..2 : s.sg[i].up /\ ~s.sg[j].up /\ Apply([op |-> "sgcopy", i |-> i, j |-> j], SgD(L, s.sg[i], 1))
           \/ \E i \in 1..2 : s.sg[i].up /\ Apply([op |-> "sgdel", i |-> i], SgD(L, s.sg[i], 0 - 1))
Spec == Init /\ [][Next]_vars
\* what refers to it is what is counted; memory is released exactly when nothing refers to it
Counted == \A g \in 1..L : IF g \in freed THEN Rc(s, g) = 0 ELSE rc[g] = Rc(s, g) /\ Live(s, g)
MCounted == IF 1 \in mfreed THEN MRc(s, 1) = 0 ELSE mrc[1] = MRc(s, 1) /\ MLive(s, 1)
NoDangle == \A i \in 1..3 : \A k \in 1..Len(s.sg[i].fr) : \A j \in 1..Len(s.sg[i].fr[k].gs) : s.sg[i].fr[k].gs[j] \notin freed
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<s, rc, mrc, freed, mfreed, hist = <<>>, Len(hist)>>
=============================================================================
