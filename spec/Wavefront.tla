------------------------------ MODULE Wavefront ------------------------------
(* Wavefront OBJ and MTL files.  A file is a sequence of statements; what the *)
(* parser returns is a function of the statements alone: not of layout,       *)
(* comments, number notation, or whether the last line ends in a newline.     *)
EXTENDS Integers, Sequences
Obj0 == [t |-> "o", ok |-> TRUE, v |-> <<>>, vn |-> <<>>, vi |-> <<>>, ni |-> <<>>, ui |-> <<>>, mi |-> <<>>, mats |-> <<>>, cur |-> -1, libs |-> <<>>]
Mtl0 == [t |-> "m", ok |-> TRUE, m |-> <<>>]
Mat0(n) == [name |-> n, Ka |-> <<>>, Kd |-> <<>>, Ks |-> <<>>, Ke |-> <<>>, Ns |-> <<>>, Ni |-> <<>>, d |-> <<>>]
InitS == [files |-> <<>>, cur |-> <<0, "">>]
\* ---- numbers: <<negative, integer part, fraction digits, how many, power of ten>>, in millionths
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
Micro(x) == LET u == x[2] * 1000000 + x[3] * P10(6 - x[4])
                w == IF x[5] >= 0 THEN u * P10(x[5]) ELSE u \div P10(0 - x[5])
            IN IF x[1] = 1 THEN 0 - w ELSE w
Nums(xs) == [i \in 1..Len(xs) |-> Micro(xs[i])]
IndexOf(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i-1) : q[j] # x ELSE 0
\* ---- one statement of an object file
ObjStmt(o, s) ==
    CASE ~o.ok -> o
      [] s.k = "v" -> [o EXCEPT !.v = @ \o Nums(s.x)]
      [] s.k = "vn" -> [o EXCEPT !.vn = @ \o Nums(s.x)]
      [] s.k \in {"vt", "o", "skip"} -> o
      [] s.k = "f" -> [o EXCEPT !.vi = @ \o [i \in 1..3 |-> s.v[i] - 1], !.ni = @ \o [i \in 1..3 |-> s.n[i] - 1], !.ui = @ \o [i \in 1..3 |-> s.t[i] - 1], !.mi = Append(@, o.cur)]
      [] s.k = "usemtl" -> LET i == IndexOf(o.mats, s.n) IN IF i > 0 THEN [o EXCEPT !.cur = i - 1] ELSE [o EXCEPT !.mats = Append(@, s.n), !.cur = Len(o.mats)]
      [] s.k = "mtllib" -> [o EXCEPT !.libs = Append(@, s)]
      [] OTHER -> [o EXCEPT !.ok = FALSE]
\* ---- one statement of a material file; properties belong to the material named last
MtlStmt(o, s) ==
    CASE ~o.ok -> o
      [] s.k = "newmtl" -> [o EXCEPT !.m = Append(@, Mat0(s.n))]
      [] s.k = "skip" -> o
      [] s.k = "p" /\ o.m # <<>> -> [o EXCEPT !.m[Len(o.m)] = [@ EXCEPT ![s.p] = Nums(s.x)]]
      [] OTHER -> [o EXCEPT !.ok = FALSE]
\* ---- the line grammar over tokens: "v", "u"(semtl), "f", "1" (a number), "1//1" (a corner), "m" (a name), "NL"
RECURSIVE Lines(_)
Lines(q) == IF \A i \in 1..Len(q) : q[i] # "NL" THEN <<q>>
            ELSE LET i == CHOOSE i \in 1..Len(q) : q[i] = "NL" /\ \A j \in 1..(i-1) : q[j] # "NL" IN <<SubSeq(q, 1, i - 1)>> \o Lines(SubSeq(q, i + 1, Len(q)))
N1 == <<0, 1, 0, 0, 0>>
LineStmt(l) == IF l = <<>> THEN [k |-> "skip"]
               ELSE IF l = <<"v", "1", "1", "1">> THEN [k |-> "v", x |-> <<N1, N1, N1>>]
               ELSE IF l = <<"f", "1//1", "1//1", "1//1">> THEN [k |-> "f", v |-> <<1, 1, 1>>, t |-> <<0, 0, 0>>, n |-> <<1, 1, 1>>]
               ELSE IF Len(l) = 2 /\ l[1] = "u" THEN [k |-> "usemtl", n |-> (IF l[2] = "u" THEN "usemtl" ELSE l[2])]
               ELSE [k |-> "bad"]
RECURSIVE Fold(_, _)
Fold(o, ls) == IF ls = <<>> THEN o ELSE Fold(ObjStmt(o, LineStmt(Head(ls))), Tail(ls))
TokObj(q) == Fold(Obj0, Lines(q))
Has(s, f) == \E i \in 1..Len(s.files) : s.files[i].id = f
File(s, f) == s.files[CHOOSE i \in 1..Len(s.files) : s.files[i].id = f].c
Put(s, f, c) == IF Has(s, f) THEN [i \in 1..Len(s.files) |-> IF s.files[i].id = f THEN [id |-> f, c |-> c] ELSE s.files[i]] ELSE Append(s.files, [id |-> f, c |-> c])
Step(s, e) ==
    CASE e.op = "file" -> [files |-> Put(s, <<e.d, e.n>>, IF e.t = "o" THEN Obj0 ELSE Mtl0), cur |-> <<e.d, e.n>>]
      [] e.op = "toks" -> [files |-> Put(s, <<0, "b.obj">>, TokObj(e.toks)), cur |-> <<0, "b.obj">>]
      [] e.op = "line" -> LET c == File(s, s.cur) IN [s EXCEPT !.files = Put(s, s.cur, IF c.t = "o" THEN ObjStmt(c, e.s) ELSE MtlStmt(c, e.s))]
      [] OTHER -> s
\* ---- the whole: libraries are looked up beside the object file
LibOf(d, l) == IF l.up = 1 THEN (IF d = 1 THEN <<0, l.n>> ELSE <<9, "">>) ELSE IF l.d = 1 THEN (IF d = 0 THEN <<1, l.n>> ELSE <<9, "">>) ELSE <<d, l.n>>
LibOk(s, f) == Has(s, f) /\ File(s, f).ok
MtlAccept(s, f) == Has(s, f) /\ File(s, f).ok
ObjAccept(s, f) == /\ Has(s, f) /\ File(s, f).ok
                   /\ \A i \in 1..Len(File(s, f).libs) : MtlAccept(s, LibOf(f[1], File(s, f).libs[i]))
\* ---- observations
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] <= 1 /\ b[i] - a[i] <= 1
MatNear(a, b) == a.name = b.name /\ \A p \in {"Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d"} : Near(a[p], b[p])
MtlNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : MatNear(a[i], b[i])
ObjSame(s, d, c, e) ==
    /\ Near(e.v, c.v) /\ Near(e.vn, c.vn) /\ e.vi = c.vi /\ e.ni = c.ni /\ e.ui = c.ui /\ e.mats = c.mats /\ e.over = 1
    /\ Len(e.mi) = Len(c.mi) /\ \A i \in 1..Len(c.mi) : c.mi[i] >= 0 => e.mi[i] = c.mi[i]
    /\ Len(e.libs) = Len(c.libs)
    /\ \A i \in 1..Len(c.libs) : e.libs[i].f = c.libs[i].txt /\ MtlNear(e.libs[i].m, File(s, LibOf(d, c.libs[i])).m)
Ok(s, e, n) ==
    CASE e.op \in {"file", "line", "done", "toks"} -> TRUE
      [] e.op = "obj" -> LET f == <<e.d, e.n>> IN /\ e.leak = 0 /\ (e.ok = 1) = ObjAccept(s, f) /\ (e.ok = 1 => ObjSame(s, e.d, File(s, f), e))
      [] e.op = "mtl" -> LET f == <<e.d, e.n>> IN /\ e.leak = 0 /\ (e.ok = 1) = MtlAccept(s, f) /\ (e.ok = 1 => MtlNear(e.m, File(s, f).m) /\ e.over = 1)
      [] OTHER -> FALSE
=============================================================================
