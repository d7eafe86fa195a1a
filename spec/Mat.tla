--------------------------------- MODULE Mat ---------------------------------
(* Dense matrix and vector views over shared memory (column major, leading      *)
(* dimension, strides).  Every operation is a function of the whole memory:     *)
(* elements outside the destination view keep their value, and mismatched       *)
(* sizes raise an error and change nothing.                                     *)
EXTENDS Integers, Sequences
NN == 48
Zero == [i \in 1..NN |-> 0]
NoVec == [b |-> 1, off |-> 0, len |-> 0, inc |-> 1]
NoMat == [b |-> 1, off |-> 0, r |-> 0, c |-> 0, ld |-> 1]
InitS == [mem |-> <<Zero, Zero, Zero>>, v |-> [k \in 0..7 |-> NoVec], m |-> [k \in 0..7 |-> NoMat]]
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Sum(n, F(_)) == LET RECURSIVE G(_)
                    G(i) == IF i > n THEN 0 ELSE F(i) + G(i + 1) IN G(1)

\* ---- element access, 1-based indices; positions are 0-based
VAt(mem, w, i) == mem[w.b][w.off + (i - 1) * w.inc + 1]
MAt(mem, w, i, j) == mem[w.b][w.off + (j - 1) * w.ld + (i - 1) + 1]
\* memory after assigning F(i) to the elements of a vector view / F(i, j) to those of a matrix view
VPut(mem, w, F(_)) == [mem EXCEPT ![w.b] = [p \in 1..NN |->
    LET o == p - 1 - w.off IN IF o >= 0 /\ o % w.inc = 0 /\ o \div w.inc < w.len THEN F(o \div w.inc + 1) ELSE @[p]]]
MPut(mem, w, F(_, _)) == [mem EXCEPT ![w.b] = [p \in 1..NN |->
    LET o == p - 1 - w.off IN IF o >= 0 /\ o % w.ld < w.r /\ o \div w.ld < w.c THEN F((o % w.ld) + 1, o \div w.ld + 1) ELSE @[p]]]

\* ---- derived views
Slice(w, a, z, st) == [b |-> w.b, off |-> w.off + a * w.inc, len |-> (z - a) \div st, inc |-> w.inc * st]
Row(w, i) == [b |-> w.b, off |-> w.off + i, len |-> w.c, inc |-> w.ld]
Col(w, j) == [b |-> w.b, off |-> w.off + j * w.ld, len |-> w.r, inc |-> 1]
Diag(w) == [b |-> w.b, off |-> w.off, len |-> Min(w.r, w.c), inc |-> w.ld + 1]
Block(w, r0, c0, r1, c1) == [b |-> w.b, off |-> w.off + c0 * w.ld + r0, r |-> r1 - r0, c |-> c1 - c0, ld |-> w.ld]

VV(s, k) == s.v[k]
MM(s, k) == s.m[k]
\* op(A)
OpR(w, t) == IF t = 0 THEN w.r ELSE w.c
OpC(w, t) == IF t = 0 THEN w.c ELSE w.r
OpAt(mem, w, t, i, j) == IF t = 0 THEN MAt(mem, w, i, j) ELSE MAt(mem, w, j, i)

ViewOp(e) == e.op \in {"vec", "slice", "row", "col", "diag", "mat", "block"}
NewView(s, e) == LET a == e.a IN
    CASE e.op = "vec" -> [b |-> a[2] + 1, off |-> a[3], len |-> a[4], inc |-> a[5]]
      [] e.op = "slice" -> Slice(VV(s, a[2]), a[3], a[4], a[5])
      [] e.op = "row" -> Row(MM(s, a[2]), a[3])
      [] e.op = "col" -> Col(MM(s, a[2]), a[3])
      [] e.op = "diag" -> Diag(MM(s, a[2]))
      [] e.op = "mat" -> [b |-> a[2] + 1, off |-> a[3], r |-> a[4], c |-> a[5], ld |-> a[6]]
      [] e.op = "block" -> Block(MM(s, a[2]), a[3], a[4], a[5], a[6])
ViewErr(s, e) == LET a == e.a IN
    CASE e.op = "slice" -> a[4] > VV(s, a[2]).len \/ a[4] < a[3]
      [] e.op = "row" -> a[3] >= MM(s, a[2]).r
      [] e.op = "col" -> a[3] >= MM(s, a[2]).c
      [] e.op = "block" -> LET w == MM(s, a[2]) IN a[5] > w.r \/ a[6] > w.c \/ a[3] >= a[5] \/ a[4] >= a[6]
      [] OTHER -> FALSE

\* ---- does the operation fail on mismatched sizes?
Err(s, e) == LET a == e.a
                 LenNe(x, y) == VV(s, x).len # VV(s, y).len
                 DimNe(x, y) == MM(s, x).r # MM(s, y).r \/ MM(s, x).c # MM(s, y).c
                 TDimNe(x, y) == MM(s, x).r # MM(s, y).c \/ MM(s, x).c # MM(s, y).r IN
    CASE e.op \in {"vswap", "vcopy", "vaxpy", "vdot", "vssd"} -> LenNe(a[1], a[2])
      [] e.op \in {"mcopy", "mssd", "maxpy"} -> DimNe(a[1], a[2])
      [] e.op = "lacpy" -> DimNe(a[2], a[3])
      [] e.op \in {"trans", "pinv", "dpinv", "dzdpinv"} -> TDimNe(a[1], a[2])
      [] e.op = "inv" -> MM(s, a[1]).r # MM(s, a[1]).c
      [] e.op = "gemv" -> OpR(MM(s, a[3]), a[1]) # VV(s, a[6]).len \/ OpC(MM(s, a[3]), a[1]) # VV(s, a[4]).len
      [] e.op = "gemm" -> \/ OpR(MM(s, a[4]), a[1]) # MM(s, a[7]).r \/ OpC(MM(s, a[5]), a[2]) # MM(s, a[7]).c
                          \/ OpC(MM(s, a[4]), a[1]) # OpR(MM(s, a[5]), a[2])
      [] OTHER -> FALSE

After(s, e) == LET a == e.a
                   m == s.mem IN
    CASE e.op = "vzero" -> VPut(m, VV(s, a[1]), LAMBDA i : 0)
      [] e.op = "vset" -> VPut(m, VV(s, a[1]), LAMBDA i : a[2])
      [] e.op = "mzero" -> MPut(m, MM(s, a[1]), LAMBDA i, j : 0)
      [] e.op = "mset" -> MPut(m, MM(s, a[1]), LAMBDA i, j : IF i = j THEN a[3] ELSE a[2])
      [] e.op = "vswap" -> LET x == VV(s, a[1])
                               y == VV(s, a[2])
                               m1 == VPut(m, x, LAMBDA i : VAt(m, y, i)) IN VPut(m1, y, LAMBDA i : VAt(m, x, i))
      [] e.op = "vscal" -> VPut(m, VV(s, a[1]), LAMBDA i : a[2] * VAt(m, VV(s, a[1]), i))
      [] e.op = "vinc" -> VPut(m, VV(s, a[1]), LAMBDA i : a[2] + VAt(m, VV(s, a[1]), i))
      [] e.op = "vcopy" -> VPut(m, VV(s, a[2]), LAMBDA i : VAt(m, VV(s, a[1]), i))
      [] e.op = "vaxpy" -> VPut(m, VV(s, a[2]), LAMBDA i : a[3] * VAt(m, VV(s, a[1]), i) + VAt(m, VV(s, a[2]), i))
      [] e.op = "gemv" -> LET A == MM(s, a[3])
                              x == VV(s, a[4])
                              y == VV(s, a[6]) IN
            VPut(m, y, LAMBDA i : a[2] * Sum(x.len, LAMBDA k : OpAt(m, A, a[1], i, k) * VAt(m, x, k)) + a[5] * VAt(m, y, i))
      [] e.op = "gemm" -> LET A == MM(s, a[4])
                              B == MM(s, a[5])
                              C == MM(s, a[7]) IN
            MPut(m, C, LAMBDA i, j : a[3] * Sum(OpC(A, a[1]), LAMBDA k : OpAt(m, A, a[1], i, k) * OpAt(m, B, a[2], k, j)) + a[6] * MAt(m, C, i, j))
      [] e.op = "lacpy" -> LET A == MM(s, a[2]) IN
            MPut(m, MM(s, a[3]), LAMBDA i, j : IF a[1] = 0 \/ (a[1] = 1 /\ i <= j) \/ (a[1] = 2 /\ i >= j) THEN MAt(m, A, i, j) ELSE MAt(m, MM(s, a[3]), i, j))
      [] e.op = "mcopy" -> MPut(m, MM(s, a[2]), LAMBDA i, j : MAt(m, MM(s, a[1]), i, j))
      [] e.op = "mscal" -> MPut(m, MM(s, a[1]), LAMBDA i, j : a[2] * MAt(m, MM(s, a[1]), i, j))
      [] e.op = "minc" -> MPut(m, MM(s, a[1]), LAMBDA i, j : a[2] + MAt(m, MM(s, a[1]), i, j))
      [] e.op = "maxpy" -> MPut(m, MM(s, a[2]), LAMBDA i, j : a[3] * MAt(m, MM(s, a[1]), i, j) + MAt(m, MM(s, a[2]), i, j))
      [] e.op = "trans" -> MPut(m, MM(s, a[2]), LAMBDA i, j : MAt(m, MM(s, a[1]), j, i))
      \* the driver clears the result of an inverse after reporting it
      [] e.op = "inv" -> MPut(m, MM(s, a[1]), LAMBDA i, j : 0)
      [] e.op \in {"pinv", "dpinv", "dzdpinv"} -> MPut(m, MM(s, a[2]), LAMBDA i, j : 0)
      [] OTHER -> m

Step(s, e) ==
    CASE e.op \in {"fill", "poke"} -> [s EXCEPT !.mem = e.mem]
      [] ViewOp(e) -> IF e.err = 1 THEN s ELSE IF e.op \in {"mat", "block"} THEN [s EXCEPT !.m[e.a[1]] = NewView(s, e)] ELSE [s EXCEPT !.v[e.a[1]] = NewView(s, e)]
      [] OTHER -> IF Err(s, e) THEN s ELSE [s EXCEPT !.mem = After(s, e)]

\* ---- scalar results
Ret(s, e) == LET a == e.a
                 m == s.mem IN
    CASE e.op = "vdot" -> Sum(VV(s, a[1]).len, LAMBDA i : VAt(m, VV(s, a[1]), i) * VAt(m, VV(s, a[2]), i))
      [] e.op = "vnrm2" -> Sum(VV(s, a[1]).len, LAMBDA i : VAt(m, VV(s, a[1]), i) * VAt(m, VV(s, a[1]), i))       \* squared
      [] e.op = "vssd" -> Sum(VV(s, a[1]).len, LAMBDA i : (VAt(m, VV(s, a[1]), i) - VAt(m, VV(s, a[2]), i)) * (VAt(m, VV(s, a[1]), i) - VAt(m, VV(s, a[2]), i)))
      [] e.op = "mnrm2" -> LET A == MM(s, a[1]) IN Sum(A.c, LAMBDA j : Sum(A.r, LAMBDA i : MAt(m, A, i, j) * MAt(m, A, i, j)))
      [] e.op = "mssd" -> LET A == MM(s, a[1])
                              B == MM(s, a[2]) IN Sum(A.c, LAMBDA j : Sum(A.r, LAMBDA i : (MAt(m, A, i, j) - MAt(m, B, i, j)) * (MAt(m, A, i, j) - MAt(m, B, i, j))))
      [] OTHER -> 0

\* ---- inverses: X observed at 10^5, by columns
SC == 100000
XAt(e, i, j) == e.X[j][i]
NearI(x, y, tol) == Abs(x - y) <= tol
\* exact determinant, to tell singular matrices
RECURSIVE Det(_, _, _, _)
Det(mem, A, row, cols) == IF cols = <<>> THEN 1 ELSE
    Sum(Len(cols), LAMBDA k : (IF k % 2 = 1 THEN 1 ELSE -1) * MAt(mem, A, row, cols[k]) * Det(mem, A, row + 1, SubSeq(cols, 1, k - 1) \o SubSeq(cols, k + 1, Len(cols))))
InvOk(s, e) == LET A == MM(s, e.a[1])
                   m == s.mem
                   n == A.r
                   d == Det(m, A, 1, [i \in 1..n |-> i]) IN
    IF d = 0 THEN TRUE      \* rounding decides whether a pivot is exactly zero
    ELSE e.info = 0 /\ \A i, j \in 1..n : NearI(Sum(n, LAMBDA k : MAt(m, A, i, k) * XAt(e, k, j)), IF i = j THEN SC ELSE 0, 4 * n)
Flat(e, A) == Len(e.X) = A.r /\ \A j \in 1..A.r : Len(e.X[j]) = A.c
\* Moore-Penrose conditions
PinvOk(s, e) == LET A == MM(s, e.a[1])
                    m == s.mem
                    AX(i, j) == Sum(A.c, LAMBDA k : MAt(m, A, i, k) * XAt(e, k, j))
                    XA(i, j) == Sum(A.r, LAMBDA k : XAt(e, i, k) * MAt(m, A, k, j)) IN
    /\ Flat(e, A) /\ e.info = 0
    /\ \A i, j \in 1..A.r : NearI(AX(i, j), AX(j, i), 20)
    /\ \A i, j \in 1..A.c : NearI(XA(i, j), XA(j, i), 20)
    /\ \A i \in 1..A.r, j \in 1..A.c : NearI(Sum(A.c, LAMBDA k : MAt(m, A, i, k) * XA(k, j)), SC * MAt(m, A, i, j), 200)
    /\ \A i \in 1..A.c, j \in 1..A.r : NearI(Sum(A.r, LAMBDA k : (XAt(e, i, k) \div 100) * (AX(k, j) \div 100)), XAt(e, i, j) * 10, 9000)
\* damped: (A'A + kI) X = A'
DpinvOk(s, e) == LET A == MM(s, e.a[1])
                     m == s.mem IN
    /\ Flat(e, A) /\ e.info = 0
    /\ \A i \in 1..A.c, j \in 1..A.r : NearI(Sum(A.r, LAMBDA l : MAt(m, A, l, i) * Sum(A.c, LAMBDA k : MAt(m, A, l, k) * XAt(e, k, j))) + e.a[3] * XAt(e, i, j), SC * MAt(m, A, j, i), 200)
\* damping of small singular values, for matrices with at most one nonzero per row and column (singular values = entries)
Sparse(s, A) == /\ \A i \in 1..A.r : \A j, k \in 1..A.c : j # k => MAt(s.mem, A, i, j) = 0 \/ MAt(s.mem, A, i, k) = 0
                /\ \A j \in 1..A.c : \A i, k \in 1..A.r : i # k => MAt(s.mem, A, i, j) = 0 \/ MAt(s.mem, A, k, j) = 0
DzOk(s, e) == LET A == MM(s, e.a[1])
                  m == s.mem
                  n == e.a[3]
                  d == e.a[4]                                  \* s_min = n / d
                  X(v) == IF v = 0 THEN 0 ELSE IF Abs(v) * d >= n THEN SC \div v ELSE (SC * v * d * d) \div (n * n) IN
    /\ Flat(e, A) /\ e.info = 0
    /\ IF Sparse(s, A) THEN \A i \in 1..A.r, j \in 1..A.c : NearI(XAt(e, j, i), X(MAt(m, A, i, j)), 2)
       ELSE IF n >= 20 * d THEN \A i \in 1..A.r, j \in 1..A.c : NearI(XAt(e, j, i), (SC * MAt(m, A, i, j) * d * d) \div (n * n), 2)   \* all damped
       ELSE n * 10 < d => PinvOk(s, e)                         \* none damped (full rank, unit determinant minors)

Ok(s, e, n) ==
    CASE e.op = "fill" -> TRUE
      [] e.op = "poke" -> e.mem = MPut(s.mem, MM(s, e.a[1]), LAMBDA i, j : e.a[1 + (j - 1) * MM(s, e.a[1]).r + i])
      [] ViewOp(e) -> LET w == NewView(s, e) IN
            /\ (e.err = 1) = ViewErr(s, e)
            /\ e.err = 0 => e.v = (IF e.op \in {"mat", "block"} THEN <<w.b - 1, w.off, w.r, w.c, w.ld>> ELSE <<w.b - 1, w.off, w.len, w.inc>>)
      [] OTHER -> /\ (e.err = 1) = Err(s, e) /\ e.mem = n.mem /\ e.bal = 1
                  /\ e.err = 0 => CASE e.op = "inv" -> InvOk(s, e)
                                    [] e.op = "pinv" -> PinvOk(s, e)
                                    [] e.op = "dpinv" -> DpinvOk(s, e)
                                    [] e.op = "dzdpinv" -> DzOk(s, e)
                                    [] e.op = "dup" -> LET A == MM(s, e.a[2])
                                                           x == VV(s, e.a[3]) IN
                                         /\ e.shape = <<x.len, A.r, A.c>>
                                         /\ \A i \in 1..x.len : e.dv[i] = VAt(s.mem, x, i)
                                         /\ \A i \in 1..A.r, j \in 1..A.c : e.dm[j][i] = MAt(s.mem, A, i, j)
                                    [] OTHER -> e.r = Ret(s, e)
=============================================================================
