------------------------------ MODULE SceneMC ------------------------------
(* The index algorithm (depth-first over a name-ordered map, parents first,    *)
(* then a position check) against the declarative definition of a well-formed  *)
(* frame tree, for every edit history over a few names.  Also the generator of *)
(* edit histories for conformance.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, MaxOps, Emit
VARIABLES par, ready, order, res, ops, hist
vars == <<par, ready, order, res, ops, hist>>
\* par: function from existing frame to its parent ("" is the root; a missing parent is allowed until init)
NameSeq == CHOOSE q \in [1..Cardinality(Names) -> Names] : \A i, j \in 1..Cardinality(Names) : i # j => q[i] # q[j]
Put(f, k, v) == [x \in (DOMAIN f) \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Init == par = <<>> /\ ready = TRUE /\ order = <<>> /\ res = "none" /\ ops = 0 /\ hist = <<>>
Do(x) == ops' = ops + 1 /\ hist' = Append(hist, x)
Add(n, p) == par' = Put(par, n, p) /\ ready' = FALSE /\ res' = "none" /\ UNCHANGED order /\ Do(<<"add", n, p>>)
Rm(n) == n \in DOMAIN par /\ par' = Del(par, n) /\ ready' = FALSE /\ res' = "none" /\ UNCHANGED order /\ Do(<<"rm", n, "">>)
Rep(n, p) == n \in DOMAIN par /\ par' = Put(par, n, p) /\ ready' = FALSE /\ res' = "none" /\ UNCHANGED order /\ Do(<<"reparent", n, p>>)

\* visit: depth-first with a visited set, parent before child
RECURSIVE Visit(_, _, _)
Visit(n, vis, lst) == IF n = "" \/ n \in vis THEN <<vis, lst>>
                      ELSE LET r == Visit(par[n], vis \union {n}, lst) IN <<r[1], Append(r[2], n)>>
RECURSIVE Sort(_, _, _)
Sort(i, vis, lst) == IF i > Len(NameSeq) THEN lst
                     ELSE IF NameSeq[i] \notin DOMAIN par THEN Sort(i + 1, vis, lst)
                     ELSE LET r == Visit(NameSeq[i], vis, lst) IN Sort(i + 1, r[1], r[2])
ParentsExist == \A n \in DOMAIN par : par[n] = "" \/ par[n] \in DOMAIN par
Placed(q) == \A i \in 1..Len(q) : par[q[i]] = "" \/ \E j \in 1..(i - 1) : q[j] = par[q[i]]
Index == /\ UNCHANGED par /\ Do(<<"init", "", "">>)
         /\ IF ready THEN res' = "ok" /\ UNCHANGED <<ready, order>>
            ELSE IF ~ParentsExist \/ ~Placed(Sort(1, {}, <<>>)) THEN res' = "error" /\ UNCHANGED <<ready, order>>
            ELSE res' = "ok" /\ ready' = TRUE /\ order' = Sort(1, {}, <<>>)
Next == /\ ops < MaxOps
        /\ \/ \E n \in Names, p \in Names \union {""} : Add(n, p)
           \/ \E n \in Names : Rm(n)
           \/ \E n \in Names, p \in Names \union {""} : Rep(n, p)
           \/ (res # "ok" /\ Index)
Spec == Init /\ [][Next]_vars
RECURSIVE Reaches(_, _)
Reaches(n, k) == IF n = "" THEN TRUE ELSE IF k = 0 \/ n \notin DOMAIN par THEN FALSE ELSE Reaches(par[n], k - 1)
WellFormed == \A n \in DOMAIN par : Reaches(n, Cardinality(DOMAIN par) + 1)
\* init succeeds exactly on well-formed trees, and its order is a topological bijection
InitExact == /\ (res = "ok" => WellFormed) /\ (res = "error" => ~WellFormed)
OrderOk == ready => /\ Len(order) = Cardinality(DOMAIN par) /\ { order[i] : i \in 1..Len(order) } = DOMAIN par /\ Placed(order)
Emitted == (Emit /\ ops = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<par, ready, order, res, ops>>
=============================================================================
