-------------------------------- MODULE Pure --------------------------------
(* A script is a sequence of calls; what the calls return is a function of    *)
(* the script.  The same script is executed in several worlds: with different *)
(* contents of fresh memory, after different earlier scripts, ...             *)
(* An event holds what each world observed for one call.                      *)
EXTENDS Integers, Sequences
InitS == [calls |-> 0]
Step(s, e) == IF e.op = "call" THEN [calls |-> s.calls + 1] ELSE s
Ok(s, e, n) == e.op = "call" /\ \A i, j \in 1..Len(e.obs) : e.obs[i] = e.obs[j]
=============================================================================
