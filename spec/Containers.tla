----------------------------- MODULE Containers -----------------------------
(* Object pools, region-allocated lists, bit vectors and the in-place sort.    *)
EXTENDS Integers, Sequences, FiniteSets

MB == 1048576
InitS == [live |-> <<>>, psize |-> 0, lists |-> <<>>, bits |-> <<>>]

Disjoint(a, n, b, m) ==
    LET d == b[1] - a[1] IN
    IF d > 1000 \/ d < -1000 THEN TRUE
    ELSE LET off == d * MB + (b[2] - a[2]) IN off >= n \/ off + m <= 0

Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Zeros(n) == [i \in 1..n |-> 0]

Step(s, e) ==
    CASE e.op = "pinit"    -> [s EXCEPT !.live = <<>>, !.psize = e.size]
      [] e.op = "palloc"   -> [s EXCEPT !.live = Append(s.live, [id |-> e.id, a |-> e.a])]
      [] e.op = "pfree"    -> [s EXCEPT !.live = Without(s.live, e.k)]
      [] e.op = "prelease" -> [s EXCEPT !.live = <<>>]
      [] e.op = "lnew"     -> [s EXCEPT !.lists = Append(s.lists, <<>>)]
      [] e.op = "lput"     -> [s EXCEPT !.lists[e.l] = IF e.push = 1 THEN <<e.v>> \o s.lists[e.l] ELSE Append(s.lists[e.l], e.v)]
      [] e.op = "lpop"     -> [s EXCEPT !.lists[e.l] = IF s.lists[e.l] = <<>> THEN <<>> ELSE Tail(s.lists[e.l])]
      [] e.op = "binit"    -> [s EXCEPT !.bits = <<Zeros(e.n), Zeros(e.n)>>]
      [] e.op = "bset"     -> [s EXCEPT !.bits[e.v][e.i + 1] = e.b]
      [] e.op = "band"     -> [s EXCEPT !.bits[1] = [i \in DOMAIN s.bits[1] |-> s.bits[1][i] * s.bits[2][i]]]
      [] e.op = "bor"      -> [s EXCEPT !.bits[1] = [i \in DOMAIN s.bits[1] |-> IF s.bits[1][i] + s.bits[2][i] > 0 THEN 1 ELSE 0]]
      [] e.op = "bxor"     -> [s EXCEPT !.bits[1] = [i \in DOMAIN s.bits[1] |-> (s.bits[1][i] + s.bits[2][i]) % 2]]
      [] OTHER -> s

PoolOk(n, e) == /\ Len(e.live) = Len(n.live) /\ \A i \in 1..Len(n.live) : e.live[i] = <<n.live[i].id, 1>>
ListOk(n, e) == e.lists = n.lists
BitsOk(n, e) == e.bits = n.bits

Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
SortOk(e) ==
    /\ e.ok = 1 /\ Len(e.out) = Len(e.in)
    /\ \A i \in 1..(Len(e.out) - 1) : e.out[i][1] <= e.out[i + 1][1]
    /\ IF e.sz = 1 THEN \A i \in 1..Len(e.in) : Count(e.in, e.in[i]) = Count([j \in 1..Len(e.out) |-> e.out[j][1]], e.in[i])
       ELSE /\ \A i \in 1..Len(e.out) : e.out[i][2] + 1 \in 1..Len(e.in) /\ e.in[e.out[i][2] + 1] = e.out[i][1]
            /\ \A i, j \in 1..Len(e.out) : i /= j => e.out[i][2] /= e.out[j][2]

Ok(s, e, n) ==
    CASE e.op \in {"pinit", "prelease"} -> PoolOk(n, e)
      [] e.op = "pfree" -> PoolOk(n, e) /\ s.live[e.k].id = e.id
      [] e.op = "palloc" -> /\ PoolOk(n, e) /\ e.a[2] % 16 = 0
                            /\ \A i \in 1..Len(s.live) : Disjoint(s.live[i].a, s.psize, e.a, s.psize)
      [] e.op \in {"lnew", "lput"} -> ListOk(n, e)
      [] e.op = "lpop" -> /\ ListOk(n, e) /\ e.r = (IF s.lists[e.l] = <<>> THEN -1 ELSE Head(s.lists[e.l]))
      [] e.op = "binit" -> BitsOk(n, e) /\ e.sz * 8 >= e.n /\ e.sz * 8 < e.n + 32
      [] e.op \in {"bset", "band", "bor", "bxor"} -> BitsOk(n, e)
      [] e.op = "bgetn" -> BitsOk(n, e) /\ e.r = (IF e.i < Len(s.bits[e.v]) THEN s.bits[e.v][e.i + 1] ELSE 0)
      [] e.op = "sort" -> SortOk(e)
      [] OTHER -> FALSE
=============================================================================
