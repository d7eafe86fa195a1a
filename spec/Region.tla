------------------------------- MODULE Region -------------------------------
(* What a client of aa_mem_region may rely on.  A region is a stack of live    *)
(* blocks; only pop (of a block or of a mark) and release end a block's life.  *)
(* State s: live blocks (id, size, address), marks (number of blocks below),   *)
(* the last observed chunk count, free size and head address.                  *)
EXTENDS Integers, Sequences

ALIGN == 16
MB == 1048576
Up(n) == ((n + ALIGN - 1) \div ALIGN) * ALIGN
Max(a, b) == IF a > b THEN a ELSE b

InitS == [live |-> <<>>, marks |-> <<>>, cc |-> 0, fs |-> 0, head |-> <<0, 0>>, up |-> FALSE]

\* addresses are pairs <<addr / 2^20, addr % 2^20>>
\* block at a of n bytes and block at b of m bytes share no byte
Disjoint(a, n, b, m) ==
    LET d == b[1] - a[1] IN
    IF d > 1000 \/ d < -1000 THEN TRUE
    ELSE LET off == d * MB + (b[2] - a[2]) IN n = 0 \/ m = 0 \/ off >= n \/ off + m <= 0

RECURSIVE SumN(_)
SumN(q) == IF q = <<>> THEN 0 ELSE Head(q).n + SumN(Tail(q))

Keep(ms, k) == SelectSeq(ms, LAMBDA m : m <= k)

Step(s, e) ==
    LET o(x) == [x EXCEPT !.cc = e.cc, !.fs = e.fs, !.head = e.head] IN
    CASE e.op = "init"  -> [o(s) EXCEPT !.up = TRUE]
      [] e.op = "alloc" -> [o(s) EXCEPT !.live = Append(s.live, [id |-> e.id, n |-> e.n, a |-> e.a])]
      [] e.op \in {"tmpalloc", "tmprealloc"} -> o(s)
      [] e.op = "mark"  -> [o(s) EXCEPT !.marks = Append(s.marks, Len(s.live))]
      [] e.op = "pop"   -> [o(s) EXCEPT !.live = SubSeq(s.live, 1, e.k - 1), !.marks = Keep(s.marks, e.k - 1)]
      [] e.op = "popmark" -> [o(s) EXCEPT !.live = SubSeq(s.live, 1, s.marks[e.k]), !.marks = SubSeq(s.marks, 1, e.k - 1)]
      [] e.op = "release" -> [o(s) EXCEPT !.live = <<>>, !.marks = <<>>]

\* exactly the blocks the history left alive are alive, each with its content intact
Preserved(n, e) ==
    /\ Len(e.live) = Len(n.live)
    /\ \A i \in 1..Len(n.live) : e.live[i] = <<n.live[i].id, 1>>

Aligned(a) == a[2] % ALIGN = 0
Fresh(s, a, n) == \A i \in 1..Len(s.live) : Disjoint(s.live[i].a, s.live[i].n, a, n)

Freed(s, n) == SumN(SubSeq(s.live, Len(n.live) + 1, Len(s.live)))

Ok(s, e, n) ==
    /\ Preserved(n, e)
    /\ Aligned(e.head)
    /\ \A i \in 1..Len(n.live) : Disjoint(n.live[i].a, n.live[i].n, e.head, e.fs)
    /\ e.cc >= 1
    /\ CASE e.op = "init" -> e.cc = 1 /\ e.fs >= e.n
         [] e.op = "alloc" -> /\ e.cont = 1 /\ Aligned(e.a) /\ Fresh(s, e.a, e.n)
                              /\ (0 < e.n /\ e.n <= s.fs /\ e.k /= "printf") =>
                                     (e.a = s.head /\ e.cc = s.cc /\ e.fs = Max(0, s.fs - Up(e.n)))
         [] e.op \in {"tmpalloc", "tmprealloc"} ->
                              /\ e.kept = 1 /\ Aligned(e.a) /\ Fresh(s, e.a, e.n)
                              /\ e.a = e.head /\ e.fs >= e.n
                              /\ (0 < e.n /\ e.n <= s.fs) => (e.a = s.head /\ e.cc = s.cc)
         [] e.op = "mark" -> e.cc = s.cc /\ e.fs = s.fs /\ e.head = s.head
         [] e.op = "pop" -> /\ e.cc <= s.cc /\ e.fs >= Freed(s, n)
         [] e.op = "popmark" -> e.cc <= s.cc
         [] e.op = "release" -> /\ e.cc = 1 /\ e.fs >= Freed(s, n)
=============================================================================
