------------------------------- MODULE Scene -------------------------------
(* Scene graphs under arbitrary edit histories: frames, configurations, the    *)
(* index built by aa_rx_sg_init, forward kinematics in every representation,   *)
(* limits, inertial parameters, copies.                                        *)
(* s.g[h] is the h-th scene graph created.                                     *)
EXTENDS SE3, FiniteSets

InitS == [g |-> <<>>, sub |-> <<>>]
NoGraph == [alive |-> FALSE]
EmptyGraph == [alive |-> TRUE, fr |-> <<>>, lim |-> <<>>, ready |-> TRUE, ids |-> <<>>, cids |-> <<>>]

Put(f, k, v) == [x \in (DOMAIN f) \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Range(q) == { q[i] : i \in 1..Len(q) }
IndexOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x

\* ---- well-formedness of the frame tree
RECURSIVE Reaches(_, _, _)
Reaches(fr, n, k) == \* the root is reached from frame n in at most k steps
    IF n = "" THEN TRUE ELSE IF k = 0 \/ n \notin DOMAIN fr THEN FALSE ELSE Reaches(fr, fr[n].parent, k - 1)
WellFormed(fr) == \A n \in DOMAIN fr : Reaches(fr, n, Cardinality(DOMAIN fr) + 1)
Joints(fr) == { n \in DOMAIN fr : fr[n].type /= "fixed" }
Configs(fr) == { fr[n].cfg : n \in Joints(fr) }

FrameOf(e) == [type |-> e.type, parent |-> e.parent, cfg |-> e.cfg, q |-> e.q, t |-> RVec(e.v, e.vd), axis |-> e.axis, axd |-> e.axd,
               off |-> e.off, hasmass |-> FALSE, mass |-> 0, inertia |-> <<>>]

NoLim == [pos |-> <<>>, vel |-> <<>>, acc |-> <<>>, eff |-> <<>>]
LimOf(g, c) == IF c \in DOMAIN g.lim THEN g.lim[c] ELSE NoLim

Upd(s, h, r) == [s EXCEPT !.g[h] = r]
Step(s, e) ==
    CASE e.op = "create" -> [s EXCEPT !.g = Append(s.g, EmptyGraph)]
      [] e.op = "copy"   -> [s EXCEPT !.g = Append(s.g, s.g[e.g])]
      [] e.op = "destroy" -> Upd(s, e.g, NoGraph)
      [] e.op = "add"    -> Upd(s, e.g, [s.g[e.g] EXCEPT !.fr = Put(@, e.name, FrameOf(e)), !.ready = FALSE])
      [] e.op = "rm"     -> Upd(s, e.g, [s.g[e.g] EXCEPT !.fr = Del(@, e.name), !.ready = FALSE])
      [] e.op = "reparent" -> Upd(s, e.g, [s.g[e.g] EXCEPT !.fr[e.name].parent = e.parent, !.fr[e.name].q = e.q,
                                                            !.fr[e.name].t = RVec(e.v, e.vd), !.ready = FALSE])
      [] e.op = "init"   -> IF e.r = 0 THEN Upd(s, e.g, [s.g[e.g] EXCEPT !.ready = TRUE, !.ids = e.names, !.cids = e.cnames]) ELSE s
      [] e.op = "limit"  -> Upd(s, e.g, [s.g[e.g] EXCEPT !.lim = Put(@, e.cfg, [LimOf(s.g[e.g], e.cfg) EXCEPT ![e.kind] = <<e.lo, e.hi>>])])
      [] e.op = "inertial" -> Upd(s, e.g, [s.g[e.g] EXCEPT !.fr[e.name].hasmass = TRUE, !.fr[e.name].mass = e.mass, !.fr[e.name].inertia = e.inertia])
      [] e.op = "sub" -> [s EXCEPT !.sub = Append(@, [frames |-> e.frames, configs |-> e.configs, tips |-> e.tips])]
      [] OTHER -> s

\* ---- the index
TypeCode(t) == CASE t = "fixed" -> 0 [] t = "revolute" -> 1 [] t = "prismatic" -> 2
IndexOk(g, e) ==
    LET fr == g.fr
        n == Cardinality(DOMAIN fr) IN
    /\ e.nf = n /\ Len(e.names) = n /\ Range(e.names) = DOMAIN fr           \* a bijection between ids and frames
    /\ \A i \in 1..n :
         /\ e.fid[i] = i - 1                                                \* name lookup inverts id lookup
         /\ e.types[i] = TypeCode(fr[e.names[i]].type)
         /\ e.parents[i] = (IF fr[e.names[i]].parent = "" THEN -1 ELSE IndexOf(e.names, fr[e.names[i]].parent) - 1)
         /\ e.parents[i] < i - 1                                            \* parents precede children
         /\ e.fcfg[i] = (IF fr[e.names[i]].type = "fixed" THEN -1 ELSE IndexOf(e.cnames, fr[e.names[i]].cfg) - 1)
    /\ e.nc = Cardinality(Configs(fr)) /\ Len(e.cnames) = e.nc /\ Range(e.cnames) = Configs(fr)
    /\ \A i \in 1..e.nc : e.cid[i] = i - 1
    /\ \A i \in 1..Len(e.flook) : LET x == e.flook[i] IN x[2] = (IF x[1] \in DOMAIN fr THEN IndexOf(e.names, x[1]) - 1 ELSE -2)
    /\ \A i \in 1..Len(e.clook) : LET x == e.clook[i] IN x[2] = (IF x[1] \in Configs(fr) THEN IndexOf(e.cnames, x[1]) - 1 ELSE -1)
    /\ e.badf = -2 /\ e.badc = -1 /\ e.rootid = -1                          \* unknown names
    /\ e.badname = 1                                                        \* out-of-range ids have placeholder names

\* ---- forward kinematics
\* configuration values: revolute <<n, d>> means the angle 2*atan2(n, d); prismatic <<n, d>> means the length n/d
\* a revolute joint turns about axis/axd, a prismatic joint moves along it
JointPose(f, c) ==
    CASE f.type = "fixed" -> PId
      [] f.type = "revolute" ->
           LET H(a) == Red(<<a[1] * f.axis[1], a[1] * f.axis[2], a[1] * f.axis[3], a[2] * f.axd>>)
           IN [q |-> QM(H(c), H(f.off)), t |-> RZero]
      [] f.type = "prismatic" ->
           [q |-> QId, t |-> RVec(VScale(c[1] * f.off[2] + f.off[1] * c[2], f.axis), c[2] * f.off[2] * f.axd)]
RelPose(g, n, qv) ==
    LET f == g.fr[n]
        c == IF f.type = "fixed" THEN <<0, 1>> ELSE qv[IndexOf(g.cids, f.cfg)]
    IN PMul([q |-> f.q, t |-> f.t], JointPose(f, c))
\* absolute poses of all frames, in id order
RECURSIVE AbsPoses(_, _, _, _)
AbsPoses(g, qv, i, acc) ==
    IF i > Len(g.ids) THEN acc
    ELSE LET n == g.ids[i]
             p == g.fr[n].parent
             rel == RelPose(g, n, qv)
             ab == IF p = "" THEN rel ELSE PMul(acc[IndexOf(g.ids, p)], rel)
         IN AbsPoses(g, qv, i + 1, Append(acc, ab))
Poses(g, qv) == AbsPoses(g, qv, 1, <<>>)

FkOk(g, e) ==
    LET P == Poses(g, e.q) IN
    /\ Len(e.abs) = Len(g.ids) /\ e.pad = 1                  \* padding between columns untouched
    /\ \A i \in 1..Len(P) : NearPose(e.abs[i], P[i])
    /\ \A i \in 1..Len(e.rel) : NearPose(e.rel[i], RelPose(g, g.ids[i], e.q))
RelOk(g, e) ==
    LET P == Poses(g, e.q)
        At(i) == IF i = -1 THEN PId ELSE P[i + 1]
    IN NearPose(e.x, PMul(PInv(At(e.a)), At(e.b)))

LimitOk(g, e) ==
    LET l == LimOf(g, g.cids[e.c + 1])[e.kind] IN
    IF l = <<>> THEN e.r # 0 ELSE e.r = 0 /\ e.lo = l[1] /\ e.hi = l[2]
\* twice the centre of each configuration
CentersOk(g, e) ==
    /\ Len(e.c2) = Len(g.cids) /\ e.same = 1
    /\ \A i \in 1..Len(e.c2) : LET l == LimOf(g, g.cids[i]).pos IN e.c2[i] = (IF l = <<>> THEN 0 ELSE l[1] + l[2])

\* ---- sub-scenegraphs
ParentId(g, i) == LET p == g.fr[g.ids[i + 1]].parent IN IF p = "" THEN -1 ELSE IndexOf(g.ids, p) - 1
\* ids from the frame below root down to tip (from the global root when root is not an ancestor)
RECURSIVE Chain(_, _, _)
Chain(g, root, tip) == IF tip = root \/ tip = -1 THEN <<>> ELSE Append(Chain(g, root, ParentId(g, tip)), tip)
CfgOfFrame(g, i) == IndexOf(g.cids, g.fr[g.ids[i + 1]].cfg) - 1
IsJoint(g, i) == g.fr[g.ids[i + 1]].type # "fixed"
JointsOf(g, frames) == SelectSeq(frames, LAMBDA i : IsJoint(g, i))
SubOk(g, e) ==
    /\ e.same = 1 /\ e.ees = e.tips
    /\ IF Len(e.tips) = 1 THEN e.frames = Chain(g, e.root, e.tips[1])
       ELSE /\ Range(e.frames) = UNION { Range(Chain(g, e.root, e.tips[i])) : i \in 1..Len(e.tips) }
            /\ \A i, j \in 1..Len(e.frames) : i < j => e.frames[i] < e.frames[j]
    /\ e.configs = [i \in 1..Len(JointsOf(g, e.frames)) |-> CfgOfFrame(g, JointsOf(g, e.frames)[i])]
SubCfgOk(g, u, e) ==
    LET na == Len(g.cids)
        ns == Len(u.configs)
        A0 == [i \in 1..na |-> e.base + i - 1]
        S0 == [i \in 1..ns |-> 100 + i - 1]
        Pos(c) == { i \in 1..ns : u.configs[i] = c - 1 }          \* where config c occurs in the subset
        Scat(a, v) == \A c \in 1..na : IF Pos(c) = {} THEN a[c] = e.base + c - 1 ELSE \E i \in Pos(c) : a[c] = v + i
        Gath(v) == \A i \in 1..ns : v[i] = e.base + u.configs[i]
    IN CASE e.api \in {"gather", "get"} -> e.all = A0 /\ Gath(e.sub)
         [] e.api \in {"scatter", "set"} -> e.sub = S0 /\ Scat(e.all, 99)
         [] e.api = "path" -> Len(e.path) = 2 * na /\ Scat(SubSeq(e.path, 1, na), 99) /\ Scat(SubSeq(e.path, na + 1, 2 * na), 99 + ns)
         [] e.api = "center" -> \A i \in 1..ns : LET l == LimOf(g, g.cids[u.configs[i] + 1]).pos IN e.sub[i] = (IF l = <<>> THEN 0 ELSE l[1] + l[2])
\* FK of a subset: only its frames move; they move relative to their parents' current pose
RECURSIVE SubPoses(_, _, _, _, _, _)
SubPoses(g, u, P, qv, i, acc) ==
    IF i > Len(g.ids) THEN acc
    ELSE LET n == g.ids[i]
             p == g.fr[n].parent
             ab == IF (i - 1) \notin Range(u.frames) THEN P[i]
                   ELSE IF p = "" THEN RelPose(g, n, qv) ELSE PMul(acc[IndexOf(g.ids, p)], RelPose(g, n, qv))
         IN SubPoses(g, u, P, qv, i + 1, Append(acc, ab))
SubFkOk(g, u, e) == LET P == SubPoses(g, u, Poses(g, e.q), e.q2, 1, <<>>) IN
    Len(e.abs) = Len(P) /\ \A i \in 1..Len(P) : NearPose(e.abs[i], P[i])
\* geometric Jacobian: column i is the i-th joint of the subset; rows: translation then rotation
JacOk(g, u, e) ==
    LET P == Poses(g, e.q)
        js == JointsOf(g, u.frames)
        pe == P[u.frames[Len(u.frames)] + 1].t
        W(i) == LET f == g.fr[g.ids[js[i] + 1]] IN RRot(P[js[i] + 1].q, RVec(f.axis, f.axd))
        O(i) == P[js[i] + 1].t
    IN /\ e.ok = 1 /\ Len(e.J) = Len(js)
       /\ \A i \in 1..Len(js) :
            IF g.fr[g.ids[js[i] + 1]].type = "prismatic"
            THEN NearVec(SubSeq(e.J[i], 1, 3), W(i)) /\ SubSeq(e.J[i], 4, 6) = <<0, 0, 0>>
            ELSE /\ NearVec(SubSeq(e.J[i], 4, 6), W(i))
                 /\ NearVec(SubSeq(e.J[i], 1, 3), IF e.kind = "vel" THEN RCross(W(i), RSub(pe, O(i))) ELSE RCross(O(i), W(i)))
RandOk(g, u, e) == \A i \in 1..Len(u.configs) : LET l == LimOf(g, g.cids[u.configs[i] + 1]).pos IN
    Len(e.x) = Len(u.configs) /\ (IF l = <<>> THEN e.x[i] >= -314160 /\ e.x[i] <= 314160 ELSE e.x[i] >= l[1] * SCALE /\ e.x[i] <= l[2] * SCALE)

Ok(s, e, n) ==
    CASE e.op \in {"create", "destroy"} -> TRUE
      [] e.op = "copy" -> s.g[e.g].ready
      [] e.op \in {"add", "rm", "reparent", "limit", "inertial"} -> s.g[e.g].alive
      [] e.op = "init" -> IF s.g[e.g].ready THEN e.r = 0 /\ IndexOk(s.g[e.g], e) /\ (e.names = s.g[e.g].ids /\ e.cnames = s.g[e.g].cids)
                          ELSE IF WellFormed(s.g[e.g].fr) THEN e.r = 0 /\ IndexOk(s.g[e.g], e) ELSE e.r # 0
      [] e.op = "fk" -> s.g[e.g].ready /\ FkOk(s.g[e.g], e)
      [] e.op = "fkrel" -> s.g[e.g].ready /\ RelOk(s.g[e.g], e)
      [] e.op = "getlim" -> LimitOk(s.g[e.g], e)
      [] e.op = "centers" -> CentersOk(s.g[e.g], e)
      [] e.op = "getmass" -> LET f == s.g[e.g].fr[s.g[e.g].ids[e.f + 1]] IN
                             IF f.hasmass THEN e.has = 1 /\ e.mass = f.mass /\ e.inertia = f.inertia ELSE e.has = 0
      [] e.op = "sub" -> s.g[e.g].ready /\ SubOk(s.g[e.g], e)
      [] e.op = "subcfg" -> SubCfgOk(s.g[e.g], s.sub[e.k], e)
      [] e.op = "subfk" -> SubFkOk(s.g[e.g], s.sub[e.k], e)
      [] e.op = "jac" -> JacOk(s.g[e.g], s.sub[e.k], e)
      [] e.op = "randcfg" -> RandOk(s.g[e.g], s.sub[e.k], e)
      [] OTHER -> FALSE
=============================================================================
