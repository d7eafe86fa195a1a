------------------------------- MODULE PureMC -------------------------------
(* Threads that each work on their own objects with the library.  A call      *)
(* takes a cell of scratch memory (whatever it holds), writes its argument    *)
(* there, continues, reads the cell and returns a function of its argument    *)
(* and its own object.  What each thread observes has to be what it would     *)
(* observe alone, whatever the memory held and however the threads interleave.*)
EXTENDS Pure, FiniteSets
CONSTANTS Threads, Calls, Vals, InitBeforeUse, PrivateScratch
VARIABLES pc, obj, arg, cell, scratch, mem, log
vars == <<pc, obj, arg, cell, scratch, mem, log>>
\* the scratch stack of a thread (a depth), and the memory behind it
Own(t) == IF PrivateScratch THEN t ELSE CHOOSE u \in Threads : TRUE
Init == /\ pc = [t \in Threads |-> "idle"] /\ obj = [t \in Threads |-> 0] /\ arg = [t \in Threads |-> 0]
        /\ cell = [t \in Threads |-> 0] /\ scratch = [t \in Threads |-> 0]
        /\ mem \in [Threads \X (1..2) -> Vals] /\ log = [t \in Threads |-> <<>>]
F(a, o) == (a + o) % 3
\* a thread's script: the i-th call's argument
Arg(t, i) == i % 2
Enter(t) == /\ pc[t] = "idle" /\ Len(log[t]) < Calls /\ scratch[Own(t)] < 2
            /\ pc' = [pc EXCEPT ![t] = "took"] /\ arg' = [arg EXCEPT ![t] = Arg(t, Len(log[t]) + 1)]
            /\ scratch' = [scratch EXCEPT ![Own(t)] = @ + 1] /\ cell' = [cell EXCEPT ![t] = scratch[Own(t)] + 1]
            /\ UNCHANGED <<obj, mem, log>>
Write(t) == /\ pc[t] = "took" /\ pc' = [pc EXCEPT ![t] = "wrote"]
            /\ mem' = (IF InitBeforeUse THEN [mem EXCEPT ![<<Own(t), cell[t]>>] = arg[t]] ELSE mem)
            /\ UNCHANGED <<obj, arg, cell, scratch, log>>
Return(t) == /\ pc[t] = "wrote" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ LET r == F(mem[<<Own(t), cell[t]>>], obj[t]) IN log' = [log EXCEPT ![t] = Append(@, r)] /\ obj' = [obj EXCEPT ![t] = r]
             /\ scratch' = [scratch EXCEPT ![Own(t)] = cell[t] - 1] /\ UNCHANGED <<arg, cell, mem>>
Next == \E t \in Threads : Enter(t) \/ Write(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Alone(_, _)
Alone(t, i) == IF i = 0 THEN 0 ELSE F(Arg(t, i), Alone(t, i - 1))
\* what is observed is what the thread would observe alone
AsAlone == \A t \in Threads : \A i \in 1..Len(log[t]) : Ok(InitS, [op |-> "call", obs |-> <<log[t][i], Alone(t, i)>>], 0)
=============================================================================
