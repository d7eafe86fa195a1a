------------------------------ MODULE RegionMC ------------------------------
(* Design model of the chunked allocator behind aa_mem_region: a stack of      *)
(* chunks, a head offset in the top chunk.  Units are alignment units except   *)
(* that a block may end in the middle of a unit (halves).  Checked against the *)
(* abstract stack-of-blocks view: no live block is ever in a freed chunk, two  *)
(* live blocks never overlap, and the head never covers a live block.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, TmpSizes, InitSize, MaxOps, Emit
VARIABLES chunks, head, live, marks, next, ops, hist
vars == <<chunks, head, live, marks, next, ops, hist>>
\* chunks: sequence (bottom..top) of [c, size, alias]; blocks/marks: [c, off, n]
Up2(n) == ((n + 1) \div 2) * 2     \* two half-units per alignment unit
Top == chunks[Len(chunks)]
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ chunks = <<[c |-> 1, size |-> InitSize, al |-> 0]>> /\ head = 0 /\ live = <<>> /\ marks = <<>>
        /\ next = 2 /\ ops = 0 /\ hist = <<>>

\* A chunk put on top replaces an unused chunk; when older chunks lie below, callers may still pop to
\* the start of the discarded chunk, so the new chunk remembers it (alias "al"; 0 = none).
Replace(cs, k, off, n) ==        \* chunks 1..k stay candidates, chunk k is unused when off = 0
    IF k = 0 THEN <<[c |-> next, size |-> n, al |-> 0]>>
    ELSE IF off = 0 /\ k = 1 THEN <<[c |-> next, size |-> n, al |-> 0]>>
    ELSE IF off = 0 /\ cs[k].al = 0 THEN Append(SubSeq(cs, 1, k - 1), [c |-> next, size |-> n, al |-> cs[k].c])
    ELSE Append(SubSeq(cs, 1, k), [c |-> next, size |-> n, al |-> 0])
GrowTo(n) == Replace(chunks, Len(chunks), head, Max(2 * Top.size, n))

Do(o, arg) == ops' = ops + 1 /\ hist' = Append(hist, <<o, arg>>)

Alloc(n) ==
    /\ IF head + n <= Top.size
       THEN /\ live' = Append(live, [c |-> Top.c, off |-> head, n |-> n]) /\ head' = head + Up2(n)
            /\ UNCHANGED <<chunks, next>>
       ELSE /\ chunks' = GrowTo(n) /\ live' = Append(live, [c |-> next, off |-> 0, n |-> n])
            /\ head' = Up2(n) /\ next' = next + 1
    /\ UNCHANGED marks /\ Do("alloc", n)

Tmp(n) ==
    /\ IF head + n <= Top.size THEN UNCHANGED <<chunks, head, next>>
       ELSE chunks' = GrowTo(n) /\ head' = 0 /\ next' = next + 1
    /\ UNCHANGED <<live, marks>> /\ Do("tmpalloc", n)

Mark == /\ Len(marks) < 2
        /\ marks' = Append(marks, [c |-> Top.c, off |-> head, nb |-> Len(live)])
        /\ UNCHANGED <<chunks, head, live, next>> /\ Do("mark", 0)

\* Offsets up to the rounded chunk end belong to the chunk: a head may sit exactly there.
InNode(ch, c, off) == (ch.c = c /\ off <= Up2(ch.size)) \/ (off = 0 /\ ch.al = c /\ c /= 0)
PopTo(c, off0) ==
    IF InNode(Top, c, off0) THEN /\ head' = (IF Top.c = c THEN off0 ELSE 0) /\ UNCHANGED <<chunks, next>>
    ELSE LET idx == { i \in 1..Len(chunks) : InNode(chunks[i], c, off0) }
             k == IF idx = {} THEN 0 ELSE CHOOSE i \in idx : \A j \in idx : j <= i
             off == IF k > 0 /\ chunks[k].c /= c THEN 0 ELSE off0
             RECURSIVE Tot(_)
             Tot(i) == IF i > Len(chunks) THEN 0 ELSE chunks[i].size + Tot(i + 1)
             popsz == IF k = 0 THEN 0 ELSE Max(0, chunks[k].size - off)
         IN /\ chunks' = Replace(chunks, k, off, Tot(k + 1) + popsz)
            /\ head' = 0 /\ next' = next + 1

Pop(k) == /\ k \in 1..Len(live) /\ PopTo(live[k].c, live[k].off)
          /\ live' = SubSeq(live, 1, k - 1) /\ marks' = SelectSeq(marks, LAMBDA m : m.nb <= k - 1) /\ Do("pop", k)
PopMark(k) == /\ k \in 1..Len(marks) /\ PopTo(marks[k].c, marks[k].off)
              /\ live' = SubSeq(live, 1, marks[k].nb) /\ marks' = SubSeq(marks, 1, k - 1) /\ Do("popmark", k)
RECURSIVE All(_)
All(q) == IF q = <<>> THEN 0 ELSE Head(q).size + All(Tail(q))
Release == /\ IF Len(chunks) > 1 THEN chunks' = <<[c |-> next, size |-> All(chunks), al |-> 0]>> /\ next' = next + 1
              ELSE UNCHANGED <<chunks, next>>
           /\ head' = 0 /\ live' = <<>> /\ marks' = <<>> /\ Do("release", 0)

Next == /\ ops < MaxOps
        /\ \/ \E n \in Sizes : Alloc(n)
           \/ \E n \in TmpSizes : Tmp(n)
           \/ Mark
           \/ \E k \in 1..Len(live) : Pop(k)
           \/ \E k \in 1..Len(marks) : PopMark(k)
           \/ Release
Spec == Init /\ [][Next]_vars

InChunk(b) == \E i \in 1..Len(chunks) : chunks[i].c = b.c /\ b.off + b.n <= chunks[i].size
LiveSafe == \A i \in 1..Len(live) : InChunk(live[i])
NoOverlap == \A i, j \in 1..Len(live) : i < j =>
    \/ live[i].c /= live[j].c \/ live[i].off + live[i].n <= live[j].off \/ live[j].off + live[j].n <= live[i].off
HeadClear == \A i \in 1..Len(live) : live[i].c = Top.c => live[i].off + live[i].n <= head
\* emission of complete behaviours
Emitted == (Emit /\ ops = MaxOps) => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<chunks, head, live, marks, next, ops>>
=============================================================================
