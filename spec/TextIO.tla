------------------------------- MODULE TextIO -------------------------------
(* Text files of numbers.  A file is a sequence of lines; a line is numbers   *)
(* (in thousandths) and then its end ("n"), a comment ("c"), or something     *)
(* else ("j").  Readers consume lines; what they return depends only on the   *)
(* lines, not on layout, line length, or the chunks of the memory region.     *)
EXTENDS Integers, Sequences
Fill == -77125
Line0 == [d |-> "0:811c9dc5", skip |-> 0, end |-> 0, t |-> "n", x |-> <<>>]
InitS == [lines |-> <<>>, pos |-> 0, open |-> FALSE, all |-> "", kept |-> <<>>]
\* past the end there are only empty lines
At(s, p) == IF p < Len(s.lines) THEN s.lines[p + 1] ELSE Line0
Min(a, b) == IF a < b THEN a ELSE b
Adv(s, k) == Min(Len(s.lines), s.pos + k)
Firsts(x, n) == SubSeq(x, 1, Min(n, Len(x)))
Void(l) == l.x = <<>> /\ l.t # "j"
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* ---- a matrix of fixed size: each of the next m lines gives (the start of) a row
FixRows(s, m, n) == [i \in 1..m |-> LET x == Firsts(At(s, s.pos + i - 1).x, n) IN [j \in 1..n |-> IF j <= Len(x) THEN x[j] ELSE Fill]]
FixCount(s, m, n) == Sum([i \in 1..m |-> Min(n, Len(At(s, s.pos + i - 1).x))])
\* ---- a matrix of unknown size: every line that is neither blank nor a comment gives a column; a line that is too short is an error
Rest(s) == SubSeq(s.lines, s.pos + 1, Len(s.lines))
Short(l, n) == ~Void(l) /\ Len(l.x) < n
Bad(s, n) == LET q == Rest(s) IN IF \E i \in 1..Len(q) : Short(q[i], n) THEN CHOOSE i \in 1..Len(q) : Short(q[i], n) /\ \A j \in 1..(i - 1) : ~Short(q[j], n) ELSE 0
Cols(s, n) == LET q == SelectSeq(Rest(s), LAMBDA l : ~Void(l)) IN [i \in 1..Len(q) |-> Firsts(q[i].x, n)]
HeapR(s, n) == IF Bad(s, n) > 0 THEN 0 - Bad(s, n) ELSE Len(Cols(s, n))
\* ---- written files
Col(a, i) == [j \in 1..Len(a) |-> a[j][i]]
Written(e) == IF e.op = "print" THEN <<e.a>> ELSE IF e.col = 1 THEN e.a ELSE [i \in 1..e.m |-> Col(e.a, i)]
Lines(q) == [i \in 1..Len(q) |-> [Line0 EXCEPT !.x = q[i], !.d = "?"]]
\* entries that were not given are unspecified
GivenEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \A j \in 1..Len(b[i]) : b[i][j] = Fill \/ a[i][j] = b[i][j]
Step(s, e) ==
    CASE e.op = "file" -> [InitS EXCEPT !.kept = s.kept]
      [] e.op = "region" -> [s EXCEPT !.kept = <<>>]
      [] e.op = "popall" -> [s EXCEPT !.kept = <<>>]
      [] e.op = "line" -> [s EXCEPT !.lines = Append(@, [d |-> e.d, skip |-> e.skip, end |-> e.end, t |-> e.t, x |-> e.x])]
      [] e.op = "open" -> [s EXCEPT !.open = TRUE, !.pos = 0, !.all = e.d]
      [] e.op \in {"rewind", "slurp"} -> [s EXCEPT !.pos = 0]
      [] e.op = "getline" -> [s EXCEPT !.pos = Adv(s, 1), !.kept = Append(@, At(s, s.pos).d)]
      [] e.op = "getvec" -> [s EXCEPT !.pos = Adv(s, 1)]
      [] e.op = "fix" -> [s EXCEPT !.pos = Adv(s, e.m)]
      [] e.op = "heap" -> [s EXCEPT !.pos = IF Bad(s, e.n) > 0 THEN s.pos + Bad(s, e.n) ELSE Len(s.lines)]
      [] e.op \in {"write", "print"} -> [s EXCEPT !.lines = Lines(Written(e)), !.pos = 0, !.open = TRUE, !.all = "?"]
      [] e.op = "mem" -> InitS
      [] OTHER -> s
Ok(s, e, n) ==
    CASE e.op \in {"file", "line", "open", "rewind", "region", "popall"} -> TRUE
      [] e.op = "getline" -> e.kept = n.kept
      [] e.op = "getvec" -> /\ e.x = Firsts(At(s, s.pos).x, e.n) /\ e.r = Len(e.x) /\ e.bal = 1 /\ e.clean = 1
      [] e.op = "fix" -> e.r = FixCount(s, e.m, e.n) /\ GivenEq(e.a, FixRows(s, e.m, e.n)) /\ e.bal = 1 /\ e.clean = 1
      [] e.op = "heap" -> e.r = HeapR(s, e.n) /\ (e.r >= 0 => e.x = Flat(Cols(s, e.n))) /\ e.bal = 1 /\ e.big = 1
      [] e.op = "dparse" -> LET l == s.lines[e.k + 1] IN e.x = l.x /\ e.r = Len(l.x) /\ e.held = 1 /\ e.end \in {-1, l.end}
      [] e.op = "parse" -> LET l == s.lines[e.k + 1] IN e.x = Firsts(l.x, e.n) /\ e.r = Len(e.x) /\ e.clean = 1 /\ (Len(l.x) <= e.n => e.end \in {-1, l.end})
      [] e.op = "skip" -> e.at = s.lines[e.k + 1].skip
      [] e.op = "slurp" -> e.ok = 1 /\ e.d = s.all
      [] e.op \in {"write", "print"} -> e.r = 0 /\ e.text = Written(e) /\ (e.nl = 1 \/ Written(e) = <<>>)
      [] e.op = "mem" -> e.left = 0 /\ e.top = 1 /\ e.fds = 0
      [] OTHER -> FALSE
=============================================================================
