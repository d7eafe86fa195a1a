-------------------------------- MODULE Geom --------------------------------
(* Geometry handles.  A handle is a shape, a copy of the options it was made   *)
(* with and a number of references: those the user holds and those scene      *)
(* frames hold.  A mesh is held by its user and by the geometries showing it. *)
(* Options are red, green, blue, alpha, specular r g b, scale, no_shadow,     *)
(* visual, collision.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
Opt0 == <<500, 500, 500, 1000, 0, 0, 0, 1000, 0, 1, 1>>
NoSg == [up |-> FALSE, fr |-> <<>>]
InitS == [opt |-> [i \in 1..4 |-> Opt0], g |-> <<>>, m |-> <<>>, sg |-> <<NoSg, NoSg, NoSg>>]
Bool(x) == IF x = 0 THEN 0 ELSE 1
SetOpt(o, f, x) ==
    CASE f = "color" -> [o EXCEPT ![1] = x[1], ![2] = x[2], ![3] = x[3]]
      [] f = "specular" -> [o EXCEPT ![5] = x[1], ![6] = x[2], ![7] = x[3]]
      [] f = "alpha" -> [o EXCEPT ![4] = x[1]]
      [] f = "scale" -> [o EXCEPT ![8] = x[1]]
      [] f = "no_shadow" -> [o EXCEPT ![9] = Bool(x[1])]
      [] f = "visual" -> [o EXCEPT ![10] = Bool(x[1])]
      [] f = "collision" -> [o EXCEPT ![11] = Bool(x[1])]
      [] OTHER -> o
\* ---- references
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
InSg(sg, g) == Sum([i \in 1..Len(sg.fr) |-> Count(sg.fr[i].gs, g)])
Rc(s, g) == s.g[g].user + Sum([i \in 1..3 |-> InSg(s.sg[i], g)])
Live(s, g) == Rc(s, g) > 0
MRc(s, m) == s.m[m].user + Cardinality({ g \in 1..Len(s.g) : s.g[g].mesh = m /\ Live(s, g) })
MLive(s, m) == MRc(s, m) > 0
\* ---- frames
HasFr(sg, f) == \E i \in 1..Len(sg.fr) : sg.fr[i].f = f
FrOf(sg, f) == sg.fr[CHOOSE i \in 1..Len(sg.fr) : sg.fr[i].f = f].gs
PutFr(sg, f, gs) == IF HasFr(sg, f) THEN [sg EXCEPT !.fr = [i \in 1..Len(sg.fr) |-> IF sg.fr[i].f = f THEN [f |-> f, gs |-> gs] ELSE sg.fr[i]]]
                    ELSE [sg EXCEPT !.fr = Append(@, [f |-> f, gs |-> gs])]
RmFr(sg, f) == [sg EXCEPT !.fr = SelectSeq(@, LAMBDA r : r.f # f)]
NewG(s, k, x, o, m) == [s EXCEPT !.g = Append(@, [k |-> k, x |-> x, o |-> o, mesh |-> m, user |-> 1, cl |-> 0])]
Collidable(g) == g.o[11] = 1 /\ g.k \in {"box", "sphere", "cylinder", "mesh"}
Nums(n, off) == [i \in 1..(3 * n) |-> off + i - 1]
\* references to geometries that are gone do not keep their meshes: recount collision marks only for the living
RECURSIVE Drops(_, _)
Drops(s, x) == IF x = <<>> THEN s ELSE LET k == Head(x) IN Drops(IF k > 0 THEN [s EXCEPT !.g[k].user = @ - 1] ELSE [s EXCEPT !.m[0 - k].user = @ - 1], Tail(x))
Step(s, e) ==
    CASE e.op = "opt" -> [s EXCEPT !.opt[e.s + 1] = SetOpt(@, e.f, e.x)]
      [] e.op = "geom" -> NewG(s, e.k, e.x, s.opt[e.s + 1], IF e.k = "mesh" THEN e.x[1] ELSE 0)
      [] e.op = "modopt" -> NewG(s, s.g[e.g].k, s.g[e.g].x, s.opt[e.s + 1], s.g[e.g].mesh)
      [] e.op = "copy" -> [s EXCEPT !.g[e.g].user = @ + 1]
      [] e.op = "destroy" -> [s EXCEPT !.g[e.g].user = @ - 1]
      [] e.op = "mesh" -> [s EXCEPT !.m = Append(@, [user |-> 1, v |-> <<>>, ix |-> <<>>])]
      [] e.op = "mset" -> CASE e.w = "vertices" -> [s EXCEPT !.m[e.m].v = Nums(e.n, e.off)] [] e.w = "indices" -> [s EXCEPT !.m[e.m].ix = Nums(e.n, e.off)] [] OTHER -> s
      [] e.op = "mdestroy" -> [s EXCEPT !.m[e.m].user = @ - 1]
      [] e.op = "sgnew" -> [s EXCEPT !.sg[e.i] = [up |-> TRUE, fr |-> <<>>]]
      [] e.op = "frame" -> [s EXCEPT !.sg[e.i] = PutFr(@, e.f, <<>>)]
      [] e.op = "rmframe" -> [s EXCEPT !.sg[e.i] = RmFr(@, e.f)]
      [] e.op = "attach" -> [s EXCEPT !.sg[e.i] = PutFr(@, e.f, Append(FrOf(@, e.f), e.g)), !.g[e.g].user = @ - 1]
      [] e.op = "cpframe" -> [s EXCEPT !.sg[e.i] = PutFr(@, e.t, FrOf(@, e.t) \o FrOf(@, e.f))]
      [] e.op = "sgcopy" -> [s EXCEPT !.sg[e.j] = s.sg[e.i]]
      [] e.op = "sgdel" -> [s EXCEPT !.sg[e.i] = NoSg]
      [] e.op = "cl" -> [s EXCEPT !.g = [k \in 1..Len(s.g) |-> IF InSg(s.sg[e.i], k) > 0 /\ Collidable(s.g[k]) THEN [s.g[k] EXCEPT !.cl = 1] ELSE s.g[k]]]
      [] e.op = "pdrop" -> Drops(s, e.x)
      [] e.op = "mem" -> InitS
      [] OTHER -> s
\* ---- observations
LiveIds(s) == SelectSeq([i \in 1..Len(s.g) |-> i], LAMBDA i : Live(s, i))
MLiveIds(s) == SelectSeq([i \in 1..Len(s.m) |-> i], LAMBDA i : MLive(s, i))
GeomsOk(s, e) == LET L == LiveIds(s) IN
    /\ Len(e.geoms) = Len(L)
    /\ \A i \in 1..Len(L) : LET o == e.geoms[i] g == s.g[L[i]] IN
        /\ o[1] = L[i] /\ o[2] = Rc(s, L[i]) /\ o[3] = g.k /\ (g.k # "octree" => o[4] = g.x) /\ (g.k = "octree" => o[4] = <<1>>) /\ o[5] = g.o /\ o[6] = g.cl
MeshesOk(s, e) == LET L == MLiveIds(s) IN
    /\ Len(e.meshes) = Len(L)
    /\ \A i \in 1..Len(L) : LET o == e.meshes[i] m == s.m[L[i]] IN o[1] = L[i] /\ o[2] = MRc(s, L[i]) /\ o[3] = m.v /\ o[4] = m.ix
SgOk(sg, q) == /\ Len(q) = Sum([i \in 1..Len(sg.fr) |-> Len(sg.fr[i].gs)])
               /\ \A i \in 1..Len(sg.fr) : LET f == sg.fr[i].f p == SelectSeq(q, LAMBDA x : x[1] = f) IN [j \in 1..Len(p) |-> p[j][2]] = sg.fr[i].gs
All(s, e) == GeomsOk(s, e) /\ MeshesOk(s, e) /\ \A i \in 1..3 : SgOk(s.sg[i], e.sgs[i])
\* ---- an octree becomes boxes: disjoint, and together exactly the occupied voxels.  A box is <<2x, 2y, 2z, how many geometries, sizes>> in voxels
Cells(b, sz) == { <<x, y, z>> : x \in ((b[1] - sz) \div 2)..((b[1] + sz) \div 2 - 1), y \in ((b[2] - sz) \div 2)..((b[2] + sz) \div 2 - 1), z \in ((b[3] - sz) \div 2)..((b[3] + sz) \div 2 - 1) }
Occ(e) == { <<e.in[i][1], e.in[i][2], e.in[i][3]>> : i \in { j \in 1..Len(e.in) : e.in[j][4] = 1 } }
Cube(n) == n * n * n
OctoOk(e) ==
    /\ e.names = Len(e.boxes) /\ e.par = Len(e.boxes)
    /\ IF e.o < 0 THEN \A i \in 1..Len(e.boxes) : e.boxes[i][4] = 0
       ELSE /\ \A i \in 1..Len(e.boxes) : LET b == e.boxes[i] IN b[4] = 1 /\ b[5] = b[6] /\ b[6] = b[7] /\ b[5] >= 1 /\ b[5] <= 64
            /\ Sum([i \in 1..Len(e.boxes) |-> Cube(e.boxes[i][5])]) = Cardinality(Occ(e))
            /\ UNION { Cells(e.boxes[i], e.boxes[i][5]) : i \in 1..Len(e.boxes) } = Occ(e)
Ok(s, e, n) ==
    CASE e.op = "mem" -> e.left = 0
      [] e.op = "opt" -> All(n, e) /\ e.o = n.opt[e.s + 1]
      [] e.op = "copy" -> All(n, e) /\ e.same = 1
      [] e.op = "octfile" -> All(n, e) /\ e.got = (IF e.k = "good" THEN e.n ELSE -1)
      [] e.op = "octo" -> All(n, e) /\ OctoOk(e)
      [] e.op \in {"geom", "modopt", "destroy", "mesh", "mset", "mdestroy", "sgnew", "frame", "rmframe", "attach", "cpframe", "sgcopy", "sgdel", "cl", "par", "pdrop"} -> All(n, e)
      [] OTHER -> FALSE
=============================================================================
