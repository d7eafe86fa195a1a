-------------------------------- MODULE MatMC --------------------------------
(* Laws of views: derived views address exactly the elements their definition   *)
(* names, composition included, and writes through a view touch nothing else.   *)
EXTENDS Mat, TLC
CONSTANT MaxDim
VARIABLES w, k
Views == { [b |-> 1, off |-> o, r |-> r, c |-> c, ld |-> r + p] : o \in {0, 3}, r \in 1..MaxDim, c \in 1..MaxDim, p \in 0..1 }
M0 == [b \in 1..3 |-> [p \in 1..NN |-> 100 * b + p]]
Init == w \in Views /\ k = 0
Next == /\ k < 2 /\ k' = k + 1
        /\ \E r0 \in 0..w.r - 1, c0 \in 0..w.c - 1 : \E r1 \in r0 + 1..w.r, c1 \in c0 + 1..w.c : w' = Block(w, r0, c0, r1, c1)
Spec == Init /\ [][Next]_<<w, k>>
RowCol == /\ \A i \in 1..w.r, j \in 1..w.c : VAt(M0, Row(w, i - 1), j) = MAt(M0, w, i, j) /\ VAt(M0, Col(w, j - 1), i) = MAt(M0, w, i, j)
          /\ \A i \in 1..Diag(w).len : VAt(M0, Diag(w), i) = MAt(M0, w, i, i)
BlockAt == \A r0 \in 0..w.r - 1, c0 \in 0..w.c - 1 : LET u == Block(w, r0, c0, w.r, w.c) IN
             \A i \in 1..u.r, j \in 1..u.c : MAt(M0, u, i, j) = MAt(M0, w, i + r0, j + c0)
PutGet == LET m == MPut(M0, w, LAMBDA i, j : -(10 * i + j)) IN
            /\ \A i \in 1..w.r, j \in 1..w.c : MAt(m, w, i, j) = -(10 * i + j)
            /\ \A p \in 1..NN : m[1][p] < 0 => \E i \in 1..w.r, j \in 1..w.c : m[1][p] = -(10 * i + j)
            /\ LET neg == { p \in 1..NN : m[1][p] < 0 } IN \A i \in 1..w.r, j \in 1..w.c : w.off + (j - 1) * w.ld + i \in neg
            /\ \A p \in 1..NN : m[1][p] >= 0 => m[1][p] = M0[1][p]
SliceAt == LET v == Col(w, 0) IN \A a \in 0..v.len, st \in 1..3 : LET u == Slice(v, a, a + st * ((v.len - a) \div st), st) IN
             \A i \in 1..u.len : VAt(M0, u, i) = VAt(M0, v, a + (i - 1) * st + 1)
==============================================================================
