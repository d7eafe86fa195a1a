------------------------------- MODULE LifeMC -------------------------------
(* The discipline that keeps the balance: calls nest; each remembers where   *)
(* the scratch region stands, takes scratch and heap memory, may hand a heap *)
(* object to its caller, and returns normally or early with an error.        *)
EXTENDS Life, FiniteSets
CONSTANTS MaxDepth, MaxTop, PopOnError, FreeOnError
VARIABLES stack, top, heap, user
vars == <<stack, top, heap, user>>
\* a frame: the mark of the region, the heap blocks the call owns
Init == stack = <<>> /\ top = 0 /\ heap = {} /\ user = {}
D == Len(stack)
Fresh == CHOOSE x \in 1..6 : x \notin heap
Enter == /\ D < MaxDepth /\ stack' = Append(stack, [mark |-> top, own |-> {}]) /\ UNCHANGED <<top, heap, user>>
Scratch == D > 0 /\ top < MaxTop /\ top' = top + 1 /\ UNCHANGED <<stack, heap, user>>
Heap == /\ D > 0 /\ Cardinality(heap) < 3 /\ heap' = heap \union {Fresh}
        /\ stack' = [stack EXCEPT ![D].own = @ \union {Fresh}] /\ UNCHANGED <<top, user>>
Parent(r) == IF D = 1 THEN <<>> ELSE [SubSeq(stack, 1, D - 1) EXCEPT ![D - 1].own = @ \union r]
\* normal return: scratch popped; at most one object is handed out, the others are freed
Return == /\ D > 0 /\ top' = stack[D].mark
          /\ \E r \in {{}} \union { {x} : x \in stack[D].own } :
                /\ heap' = heap \ (stack[D].own \ r)
                /\ user' = (IF D = 1 THEN user \union r ELSE user)
                /\ stack' = Parent(r)
Error == /\ D > 0 /\ top' = (IF PopOnError THEN stack[D].mark ELSE top)
         /\ heap' = (IF FreeOnError THEN heap \ stack[D].own ELSE heap)
         /\ stack' = SubSeq(stack, 1, D - 1) /\ UNCHANGED <<user>>
\* the user gives an object back
Destroy == D = 0 /\ \E x \in user : user' = user \ {x} /\ heap' = heap \ {x} /\ UNCHANGED <<stack, top>>
Next == Enter \/ Scratch \/ Heap \/ Return \/ Error \/ Destroy
Spec == Init /\ [][Next]_vars
\* between calls the scratch region is where it was, and the heap holds exactly what the user holds
Rest == D = 0 => (top = 0 /\ heap = user)
End == (D = 0 /\ user = {}) => Balanced([left |-> Cardinality(heap), top |-> (IF top = 0 THEN 1 ELSE 0), fds |-> 0])
Owned == \A i, j \in 1..D : i # j => stack[i].own \intersect stack[j].own = {}
=============================================================================
