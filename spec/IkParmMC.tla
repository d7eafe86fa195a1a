------------------------------ MODULE IkParmMC ------------------------------
(* The arrays behind the options as they are kept: a pointer the solver reads *)
(* through and a pointer to what must be released, over a heap of arrays that  *)
(* the caller or the object owns.  Checked against IkParm.tla, where an option *)
(* is a value that follows the caller's writes only where it was borrowed.     *)
EXTENDS IkParm, TLC, Json
CONSTANTS MaxOps, Emit, BorrowKeepsData
VARIABLES s, heap, slot, mine, up, bad, hist
vars == <<s, heap, slot, mine, up, bad, hist>>
Kinds == {"ref", "gain"}
\* heap[a] = [live, v]; slot[k] = [ptr, data] (0: NULL); mine[k]: the array the caller passed last and still owns
Init == /\ s = InitS /\ heap = <<>> /\ slot = [k \in Kinds |-> [ptr |-> 0, data |-> 0]] /\ mine = [k \in Kinds |-> 0]
        /\ up = FALSE /\ bad = FALSE /\ hist = <<>>
Free(h, a) == IF a = 0 THEN h ELSE [h EXCEPT ![a].live = FALSE]
Twice(h, a) == a # 0 /\ ~h[a].live
Do(e) == s' = Step(s, e) /\ hist' = Append(hist, e)
Del == LET h1 == Free(heap, slot["ref"].data)
           h2 == Free(h1, slot["gain"].data)
           h3 == Free(h2, mine["ref"]) IN
       /\ heap' = Free(h3, mine["gain"])
       /\ bad' = (bad \/ Twice(heap, slot["ref"].data) \/ Twice(h1, slot["gain"].data) \/ Twice(h2, mine["ref"]) \/ Twice(h3, mine["gain"]))
       /\ slot' = [k \in Kinds |-> [ptr |-> 0, data |-> 0]] /\ mine' = [k \in Kinds |-> 0]
Take(k, how, v) ==
    LET h0 == Free(heap, slot[k].data)                          \* the object lets go of what it held
        h1 == Append(h0, [live |-> TRUE, v |-> <<v>>])          \* the caller's new array
        a == Len(h1)
        h2 == IF how = "copy" THEN Append(h1, [live |-> TRUE, v |-> <<v>>]) ELSE h1
        h3 == Free(h2, mine[k])                                 \* the caller releases the array it passed before
    IN /\ heap' = h3 /\ bad' = (bad \/ Twice(heap, slot[k].data) \/ Twice(h2, mine[k]))
       /\ slot' = [slot EXCEPT ![k] = CASE how = "copy" -> [ptr |-> Len(h2), data |-> Len(h2)]
                                        [] how = "steal" -> [ptr |-> a, data |-> a]
                                        [] how = "borrow" -> [ptr |-> a, data |-> IF BorrowKeepsData THEN a ELSE 0]]
       /\ mine' = [mine EXCEPT ![k] = IF how = "steal" THEN 0 ELSE a]
       /\ Do([op |-> "kptake", kind |-> k, how |-> how, v |-> <<v>>]) /\ UNCHANGED up
Next == /\ Len(hist) < MaxOps
        /\ \/ ~up /\ up' = TRUE /\ Do([op |-> "kpnew"]) /\ UNCHANGED <<heap, slot, mine, bad>>
           \/ up /\ up' = FALSE /\ Do([op |-> "kpdel"]) /\ Del
           \/ up /\ \E k \in Kinds, how \in {"copy", "steal", "borrow"}, v \in {1, 2} : Take(k, how, v)
           \/ up /\ \E k \in Kinds : mine[k] # 0 /\ heap' = [heap EXCEPT ![mine[k]].v = <<3>>]
                                     /\ Do([op |-> "kppoke", kind |-> k, did |-> 1, v |-> <<3>>]) /\ UNCHANGED <<slot, mine, bad, up>>
Spec == Init /\ [][Next]_vars
\* nothing is released twice, what is read is live and has the value the specification says, and nothing is left at the end
Sound == ~bad
Reads == \A k \in Kinds : (slot[k].ptr # 0) = s.pm[k].set /\ (s.pm[k].set => heap[slot[k].ptr].live /\ Quarters(heap[slot[k].ptr].v) = s.pm[k].v)
NoLeak == ~up => \A a \in 1..Len(heap) : ~heap[a].live
Held == \A a \in 1..Len(heap) : heap[a].live => \E k \in Kinds : a \in {slot[k].ptr, mine[k]}
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<s, heap, slot, mine, up, bad, Len(hist)>>
=============================================================================
