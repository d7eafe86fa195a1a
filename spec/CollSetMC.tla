----------------------------- MODULE CollSetMC -----------------------------
(* Design model of allowed collisions: frames are known by name at the scene   *)
(* level and by index in a triangular bit matrix at the checker level; removing *)
(* and adding frames renumbers the indices.  The abstract value is a set of     *)
(* unordered pairs of names.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, MaxOps, Emit
VARIABLES order,      \* frame names by id
          allowed,    \* name pairs stored by the scene: <<smaller, larger>>
          abs,        \* the abstract allowed set
          mat, mabs,  \* bit matrix of a checker (n*n) and its abstract value
          has, ops, hist
vars == <<order, allowed, abs, mat, mabs, has, ops, hist>>
Range(q) == { q[i] : i \in 1..Len(q) }
Rank(a) == CASE a = "a" -> 1 [] a = "b" -> 2 [] a = "c" -> 3 [] a = "d" -> 4
N == Len(order)
Idx(i, j) == IF i < j THEN N * (j - 1) + i ELSE N * (i - 1) + j
IdOf(a) == CHOOSE i \in 1..N : order[i] = a
Key(a, b) == IF Rank(a) < Rank(b) THEN <<a, b>> ELSE <<b, a>>
MatFrom(al) == [k \in 1..N*N |-> \E p \in al : p[1] \in Range(order) /\ p[2] \in Range(order) /\ Idx(IdOf(p[1]), IdOf(p[2])) = k]
Do(x) == ops' = ops + 1 /\ hist' = Append(hist, x)
Init == /\ order = <<"a", "b", "c">> /\ allowed = {} /\ abs = {} /\ mat = <<>> /\ mabs = {} /\ has = FALSE /\ ops = 0 /\ hist = <<>>
SgAllow(a, b, v) == /\ a # b
    /\ allowed' = (IF v = 1 THEN allowed \union {Key(a, b)} ELSE allowed \ {Key(a, b)})
    /\ abs' = (IF v = 1 THEN abs \union {{a, b}} ELSE abs \ {{a, b}})
    /\ UNCHANGED <<order, mat, mabs, has>> /\ Do(<<"sgallow", a, b, v>>)
ClNew == /\ mat' = MatFrom(allowed) /\ mabs' = abs /\ has' = TRUE /\ UNCHANGED <<order, allowed, abs>> /\ Do(<<"clnew", "", "", 0>>)
ClAllow(a, b, v) == /\ has /\ a # b /\ mat' = [mat EXCEPT ![Idx(IdOf(a), IdOf(b))] = (v = 1)]
    /\ mabs' = (IF v = 1 THEN mabs \union {{a, b}} ELSE mabs \ {{a, b}}) /\ UNCHANGED <<order, allowed, abs, has>> /\ Do(<<"clallow", a, b, v>>)
Rm(a) == /\ N > 2 /\ order' = SelectSeq(order, LAMBDA x : x # a) /\ allowed' = { p \in allowed : p[1] # a /\ p[2] # a }
    /\ abs' = { p \in abs : a \notin p } /\ mat' = <<>> /\ mabs' = {} /\ has' = FALSE /\ Do(<<"rm", a, "", 0>>)
Add(a) == /\ a \notin Range(order) /\ \E k \in 1..N + 1 : order' = SubSeq(order, 1, k - 1) \o <<a>> \o SubSeq(order, k, N)
    /\ UNCHANGED <<allowed, abs>> /\ mat' = <<>> /\ mabs' = {} /\ has' = FALSE /\ Do(<<"add", a, "", 0>>)
Next == /\ ops < MaxOps
        /\ \/ ClNew \/ (\E a \in Range(order) : Rm(a)) \/ (\E a \in Names : Add(a))
           \/ \E a, b \in Range(order), v \in {0, 1} : SgAllow(a, b, v) \/ ClAllow(a, b, v)
Spec == Init /\ [][Next]_vars
NameRefines == { {p[1], p[2]} : p \in allowed } = abs
MatRefines == has => \A i, j \in 1..N : i # j => (mat[Idx(i, j)] <=> {order[i], order[j]} \in mabs)
Dangling == \A p \in allowed : p[1] \in Range(order) /\ p[2] \in Range(order)
Emitted == (Emit /\ ops = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<order, allowed, abs, mat, mabs, has, ops>>
=============================================================================
