---------------------------- MODULE ContainersMC ----------------------------
(* Design models checked against the abstract containers:                      *)
(*  - the rlist: cells linked by next, a tail pointer (cell whose next is the  *)
(*    insertion point; 0 = the list head itself);                              *)
(*  - the pool: an intrusive LIFO list of freed slots over a bump allocator.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, MaxVal, Emit
VARIABLES next, head, tailp, ncell, abs, free, bump, live, ops, hist
vars == <<next, head, tailp, ncell, abs, free, bump, live, ops, hist>>
Init == /\ next = <<>> /\ head = 0 /\ tailp = 0 /\ ncell = 0 /\ abs = <<>>
        /\ free = <<>> /\ bump = 0 /\ live = {} /\ ops = 0 /\ hist = <<>>
Do(x) == ops' = ops + 1 /\ hist' = Append(hist, x)
ListUn == UNCHANGED <<next, head, tailp, ncell, abs>>
PoolUn == UNCHANGED <<free, bump, live>>
\* cell i is created by the i-th put and carries value i
Push == LET c == ncell + 1 IN
        /\ next' = Append(next, head) /\ head' = c /\ ncell' = c
        /\ tailp' = IF tailp = 0 THEN c ELSE tailp
        /\ abs' = <<c>> \o abs /\ PoolUn /\ Do(<<"push", c>>)
Enq == LET c == ncell + 1
           nx == Append(next, 0) IN
       /\ next' = IF tailp = 0 THEN nx ELSE [nx EXCEPT ![tailp] = c]
       /\ head' = IF tailp = 0 THEN c ELSE head
       /\ tailp' = c /\ ncell' = c /\ abs' = Append(abs, c) /\ PoolUn /\ Do(<<"enq", c>>)
LPop == /\ IF head = 0 THEN UNCHANGED <<head, tailp, abs>>
           ELSE head' = next[head] /\ tailp' = (IF next[head] = 0 THEN 0 ELSE tailp) /\ abs' = Tail(abs)
        /\ UNCHANGED <<next, ncell>> /\ PoolUn /\ Do(<<"lpop", 0>>)
PAlloc == /\ IF free = <<>> THEN live' = live \union {bump + 1} /\ bump' = bump + 1 /\ UNCHANGED free
             ELSE live' = live \union {Head(free)} /\ free' = Tail(free) /\ UNCHANGED bump
          /\ ListUn /\ Do(<<"palloc", 0>>)
PFree(x) == /\ x \in live /\ live' = live \ {x} /\ free' = <<x>> \o free /\ UNCHANGED bump /\ ListUn /\ Do(<<"pfree", x>>)
PRel == /\ free' = <<>> /\ bump' = 0 /\ live' = {} /\ ListUn /\ Do(<<"prelease", 0>>)
Next == /\ ops < MaxOps
        /\ \/ (ncell < MaxVal /\ (Push \/ Enq)) \/ LPop \/ PAlloc \/ PRel \/ \E x \in live : PFree(x)
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_)
Walk(c) == IF c = 0 THEN <<>> ELSE <<c>> \o Walk(next[c])
ListRefines == Walk(head) = abs
TailOk == tailp = (IF abs = <<>> THEN 0 ELSE abs[Len(abs)])
PoolSafe == /\ \A i \in 1..Len(free) : free[i] \notin live /\ free[i] <= bump
            /\ \A i, j \in 1..Len(free) : i /= j => free[i] /= free[j]
            /\ \A x \in live : x <= bump
Emitted == (Emit /\ ops = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<next, head, tailp, ncell, abs, free, bump, live, ops>>
=============================================================================
