------------------------------ MODULE TextIOMC ------------------------------
(* All files of a few lines, read in every order.  The fixed-size reader is   *)
(* so many vector readers; the growing reader is what a reader by single      *)
(* lines, skipping blank and comment lines and stopping at the first short    *)
(* one, collects; a written matrix reads back as itself.  Strict = FALSE is a *)
(* growing reader that takes a comment line for an empty column.              *)
EXTENDS TextIO, TLC, Json
CONSTANTS MaxLines, MaxOps, Emit, Strict
VARIABLES s, h
vars == <<s, h>>
L(x, t) == [Line0 EXCEPT !.x = x, !.t = t]
Alphabet == {L(<<>>, "n"), L(<<>>, "c"), L(<<1>>, "n"), L(<<2, 3>>, "n"), L(<<4, 5>>, "c"), L(<<6>>, "j")}
Ev == {[op |-> "getvec", n |-> 1], [op |-> "getvec", n |-> 2], [op |-> "fix", m |-> 2, n |-> 2], [op |-> "heap", n |-> 2], [op |-> "heap", n |-> 1], [op |-> "rewind"], [op |-> "getline"]}
Init == s = [InitS EXCEPT !.open = FALSE] /\ h = <<>>
Line == ~s.open /\ Len(s.lines) < MaxLines /\ \E l \in Alphabet : s' = [s EXCEPT !.lines = Append(@, l)] /\ h' = Append(h, [op |-> "line", x |-> l.x, t |-> l.t])
Open == ~s.open /\ s' = Step(s, [op |-> "open", d |-> ""]) /\ h' = Append(h, [op |-> "open"])
Use == s.open /\ Len(h) < MaxOps /\ \E e \in Ev : s' = [Step(s, e) EXCEPT !.kept = <<>>] /\ h' = Append(h, e)
Next == Line \/ Open \/ Use
Spec == Init /\ [][Next]_vars
Pos == s.pos \in 0..Len(s.lines)
\* fixed = vectors one by one
Vec(t, n) == [x |-> Firsts(At(t, t.pos).x, n), s |-> [t EXCEPT !.pos = Adv(t, 1)]]
FixIsVecs == s.open => LET a == Vec(s, 2) b == Vec(a.s, 2) IN
     /\ FixCount(s, 2, 2) = Len(a.x) + Len(b.x) /\ Step(s, [op |-> "fix", m |-> 2, n |-> 2]).pos = b.s.pos
     /\ SubSeq(FixRows(s, 2, 2)[1], 1, Len(a.x)) = a.x /\ SubSeq(FixRows(s, 2, 2)[2], 1, Len(b.x)) = b.x
\* the growing reader as a loop: lines read, columns so far, verdict
RECURSIVE Loop(_, _, _, _)
Loop(t, n, k, acc) == IF t.pos = Len(t.lines) THEN [r |-> Len(acc), x |-> acc, pos |-> t.pos]
                      ELSE LET l == At(t, t.pos) u == [t EXCEPT !.pos = @ + 1] IN
                           IF l.x = <<>> /\ (l.t = "n" \/ (l.t = "c" /\ Strict)) THEN Loop(u, n, k + 1, acc)
                           ELSE IF Len(l.x) < n THEN [r |-> 0 - (k + 1), x |-> acc, pos |-> u.pos]
                           ELSE Loop(u, n, k + 1, Append(acc, Firsts(l.x, n)))
HeapIsLoop == s.open => \A n \in {1, 2} : LET r == Loop(s, n, 0, <<>>) IN
     r.r = HeapR(s, n) /\ (r.r >= 0 => r.x = Cols(s, n)) /\ r.pos = Step(s, [op |-> "heap", n |-> n]).pos
\* a written matrix reads back as itself, by rows and by columns
Back(a, m) == LET w(c) == Step(s, [op |-> "write", col |-> c, m |-> m, n |-> Len(a), a |-> a]) IN
     /\ Cols(w(1), m) = a
     /\ FixRows(w(0), m, Len(a)) = [i \in 1..m |-> Col(a, i)] /\ FixCount(w(0), m, Len(a)) = m * Len(a)
RoundTrip == Back(<<<<1, 2>>, <<3, 4>>, <<5, 6>>>>, 2) /\ Back(<<<<7>>>>, 1) /\ Back(<<<<1, 2, 3>>>>, 3)
Emitted == (Emit /\ s.open /\ Len(h) = MaxOps) => PrintT("GEN" \o ToJson(h))
V == s
=============================================================================
