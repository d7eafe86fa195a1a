----------------------------- MODULE WavefrontMC -----------------------------
(* The scanner as it is built: start conditions advanced token by token, with *)
(* values pushed into the object as soon as they are read.  Checked against   *)
(* the line grammar: whatever the scanner accepts is exactly what the lines   *)
(* mean, and it accepts exactly the files all of whose lines are statements.  *)
(* Newline = FALSE is a scanner that lets a statement run on over the line    *)
(* end; Eof = FALSE one that lets it end with the file.                       *)
EXTENDS Wavefront, TLC, Json
CONSTANTS MaxToks, Emit, Newline, Eof
VARIABLES q, st, o
vars == <<q, st, o>>
Toks == {"v", "u", "f", "1", "1//1", "m", "NL"}
Init == q = <<>> /\ st = "INITIAL" /\ o = [ok |-> TRUE, v |-> 0, f |-> 0, mats |-> <<>>]
Bad == st' = "ERR" /\ o' = [o EXCEPT !.ok = FALSE]
To(s) == st' = s /\ o' = o
Name(t) == IF t = "u" THEN "usemtl" ELSE t
Next == /\ Len(q) < MaxToks
        /\ \E t \in Toks :
             /\ q' = Append(q, t)
             /\ CASE st = "ERR" -> UNCHANGED <<st, o>>
                  [] st = "INITIAL" /\ t = "NL" -> To("INITIAL")
                  [] st = "INITIAL" /\ t = "v" -> To("V0")
                  [] st = "INITIAL" /\ t = "f" -> To("F0")
                  [] st = "INITIAL" /\ t = "u" -> To("U")
                  [] st = "EOL" /\ t = "NL" -> To("INITIAL")
                  [] st = "U" /\ t # "NL" -> st' = "EOL" /\ o' = [o EXCEPT !.mats = IF IndexOf(@, Name(t)) > 0 THEN @ ELSE Append(@, Name(t))]
                  [] st \in {"V0", "V1", "V2"} /\ t = "1" -> st' = (CASE st = "V0" -> "V1" [] st = "V1" -> "V2" [] OTHER -> "EOL") /\ o' = [o EXCEPT !.v = @ + 1]
                  [] st \in {"F0", "F1"} /\ t = "1//1" -> To(IF st = "F0" THEN "F1" ELSE "F2")
                  [] st = "F2" /\ t = "1//1" -> st' = "EOL" /\ o' = [o EXCEPT !.f = @ + 1]
                  [] st \in {"V0", "V1", "V2", "F0", "F1", "F2", "U"} /\ t = "NL" /\ ~Newline -> To(st)
                  [] OTHER -> Bad
Spec == Init /\ [][Next]_vars
Accept == o.ok /\ (Eof => st \in {"INITIAL", "EOL"})
Refines == LET g == TokObj(q) IN
           /\ Accept = g.ok
           /\ g.ok => 3 * Len(g.mi) = 3 * o.f /\ Len(g.v) = o.v /\ g.mats = o.mats
\* what a file means does not depend on a trailing newline, and a bad line cannot be healed by what follows
Trailing == TokObj(Append(q, "NL")) = TokObj(q)
Whole == LET g == TokObj(q) IN
         g.ok => /\ Len(g.v) % 3 = 0 /\ Len(g.vi) = 3 * Len(g.mi) /\ Len(g.ni) = Len(g.vi) /\ Len(g.ui) = Len(g.vi)
                 /\ \A i \in 1..Len(g.mi) : g.mi[i] < Len(g.mats)
                 /\ \A i, j \in 1..Len(g.mats) : i # j => g.mats[i] # g.mats[j]
Emitted == (Emit /\ Len(q) = MaxToks) => PrintT("GEN" \o ToJson(q))
=============================================================================
