-------------------------------- MODULE Life --------------------------------
(* Memory discipline of the whole library.  A trace is a sequence of calls   *)
(* that ends by giving every object back; then nothing may be left: no heap  *)
(* memory, no scratch memory of the thread, no open file.                    *)
EXTENDS Integers, Sequences
InitS == [open |-> FALSE]
Step(s, e) == IF e.op = "use" THEN [open |-> TRUE] ELSE IF e.op = "mem" THEN InitS ELSE s
Balanced(e) == e.left = 0 /\ e.top = 1 /\ e.fds = 0
Ok(s, e, n) == \/ e.op = "use"
               \/ e.op = "mem" /\ s.open /\ Balanced(e)
=============================================================================
