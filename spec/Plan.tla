-------------------------------- MODULE Plan --------------------------------
(* Motion planning as a context: allowed collisions, start, goal, planner.    *)
(* The free space of the gantry is known exactly; whatever a planner returns  *)
(* is judged against it, and where a coarse grid search finds a roomy way,    *)
(* the planner has to find one as well.                                       *)
EXTENDS SE3, FiniteSets
NoGoal == [k |-> "none"]
InitS == [w |-> 0]
Names(w) == {"y", "d"} \union { w.on[i] : i \in 1..Len(w.obs) }
World(e) == [sg |-> { {e.sg[i][1], e.sg[i][2]} : i \in 1..Len(e.sg) }, mount |-> e.mount # 0, xlo |-> e.xlo, xhi |-> e.xhi, ylo |-> e.ylo, yhi |-> e.yhi, rx |-> e.rx, ry |-> e.ry, door |-> e.door, obs |-> e.obs,
             on |-> [i \in 1..Len(e.obs) |-> <<"o1", "o2", "o3", "o4", "o5">>[i]]]
\* boxes at a configuration c = <<x, y, d>> in thousandths: <<cx, cy, hx, hy>>
Base(w, d) == IF w.mount THEN <<500 * w.door[1], 500 * w.door[2] + d>> ELSE <<0, 0>>   \* where the gantry stands
Box(w, c, n) == IF n = "y" THEN LET b == Base(w, c[3]) IN <<b[1] + c[1], b[2] + c[2], 500 * w.rx, 500 * w.ry>>
                ELSE IF n = "d" THEN <<500 * w.door[1], 500 * w.door[2] + c[3], 500 * w.door[3], 500 * w.door[4]>>
                ELSE LET i == CHOOSE i \in 1..Len(w.obs) : w.on[i] = n IN [j \in 1..4 |-> 500 * w.obs[i][j]]
Over(a, b, m) == Abs(a[1] - b[1]) < a[3] + b[3] - m /\ Abs(a[2] - b[2]) < a[4] + b[4] - m
AllPairs(w) == { {a, b} : a \in Names(w), b \in Names(w) } \ { {a} : a \in Names(w) }
El(p) == CHOOSE x \in p : TRUE
El2(p) == CHOOSE x \in p : x # El(p)
Hit(w, c, p, m) == Over(Box(w, c, El(p)), Box(w, c, El2(p)), m)
Hits(w, c, m) == { p \in AllPairs(w) : Hit(w, c, p, m) }
PairsOf(s) == { {s[i][1], s[i][2]} : i \in 1..Len(s) }
\* the robot against everything else
RHits(w, c, m) == { p \in { {"y", n} : n \in Names(w) \ {"y"} } : Hit(w, c, p, m) }
K(v) == [i \in 1..Len(v) |-> 1000 * v[i]]
Step(s, e) ==
    CASE e.op = "world" -> [w |-> World(e), allow |-> PairsOf(e.allowed), start |-> <<>>, goal |-> NoGoal, track |-> FALSE, simp |-> FALSE, seq |-> <<>>]
      [] e.op = "start" -> [s EXCEPT !.start = K(e.c), !.allow = PairsOf(e.allowed)]
      [] e.op \in {"allowcfg", "allow"} -> [s EXCEPT !.allow = PairsOf(e.allowed)]
      [] e.op = "goal" -> IF e.r = 0 THEN [s EXCEPT !.goal = [k |-> "q", p |-> K(<<e.x, e.y>>)]] ELSE s
      [] e.op = "wsgoal" -> [s EXCEPT !.goal = [k |-> "ws", p |-> <<500 * e.x, 500 * e.y>>]]
      [] e.op = "simplify" -> [s EXCEPT !.simp = (e.v # 0)]
      [] e.op = "track" -> [s EXCEPT !.track = (e.v # 0)]
      [] e.op = "seqadd" -> [s EXCEPT !.seq = Append(@, e.v)]
      [] OTHER -> s
\* ---- a coarse search: cells with three quarters of a unit to spare
CellFree(s, x, y) == LET c == <<1000 * x, 1000 * y, s.start[3]>> IN \A p \in { {"y", n} : n \in Names(s.w) \ {"y"} } \ s.allow : ~Hit(s.w, c, p, -750)
Inside(w, x, y) == x >= w.xlo /\ x <= w.xhi /\ y >= w.ylo /\ y <= w.yhi
RECURSIVE Grow(_, _, _)
Grow(F, R, f) == \* reachable R, frontier f
    LET n == { q \in F \ R : \E p \in f : Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1 } IN IF n = {} THEN R ELSE Grow(F, R \union n, n)
GoalQ(s) == IF s.goal.k = "q" THEN s.goal.p ELSE LET b == Base(s.w, s.start[3]) IN <<s.goal.p[1] - b[1], s.goal.p[2] - b[2]>>
Reach(s) ==
    LET a == <<s.start[1] \div 1000, s.start[2] \div 1000>>
        g == GoalQ(s) b == <<g[1] \div 1000, g[2] \div 1000>>
    IN /\ Inside(s.w, a[1], a[2]) /\ Inside(s.w, b[1], b[2]) /\ g[1] <= 1000 * s.w.xhi /\ g[2] <= 1000 * s.w.yhi /\ CellFree(s, a[1], a[2]) /\ CellFree(s, b[1], b[2])
       /\ { p \in Hits(s.w, s.start, -1) : "y" \notin p } \subseteq s.allow
       /\ LET F == { p \in (s.w.xlo..s.w.xhi) \X (s.w.ylo..s.w.yhi) : CellFree(s, p[1], p[2]) } IN b \in Grow(F, {a}, {a})
\* ---- what a path has to be
PtOk(s, p, m) == /\ p[1] >= 1000 * s.w.xlo - 1 /\ p[1] <= 1000 * s.w.xhi + 1 /\ p[2] >= 1000 * s.w.ylo - 1 /\ p[2] <= 1000 * s.w.yhi + 1
                 /\ p[3] = s.start[3] /\ p[4] >= -1 /\ p[4] <= 1001
                 /\ Hits(s.w, p, m) \subseteq s.allow
Mid(p, q, k, n) == <<p[1] + ((q[1] - p[1]) * k) \div n, p[2] + ((q[2] - p[2]) * k) \div n, p[3], p[4]>>
SegOk(s, p, q) == LET n == 1 + Max(Abs(p[1] - q[1]), Abs(p[2] - q[2])) \div 250 IN \A k \in 1..(n-1) : PtOk(s, Mid(p, q, k, n), 400)
Close(p, q, t) == Abs(p[1] - q[1]) <= t /\ Abs(p[2] - q[2]) <= t
PathOk(s, P) ==
    /\ Len(P) >= 1
    /\ Close(P[1], s.start, 1) /\ Abs(P[1][4]) <= 1
    /\ Close(P[Len(P)], GoalQ(s), IF s.goal.k = "q" THEN 1 ELSE 12) /\ Abs(P[Len(P)][4]) <= 12
    \* a simplifier adds points between the states it has checked
    /\ \A i \in 1..Len(P) : PtOk(s, P[i], IF s.simp THEN 400 ELSE 3)
    /\ \A i \in 1..(Len(P)-1) : SegOk(s, P[i], P[i+1])
PlanOk(s, e) ==
    /\ IF e.r = 0 THEN s.start # <<>> /\ s.goal # NoGoal /\ e.n = Len(e.path) /\ PathOk(s, e.path)
       ELSE /\ e.n = 0 /\ e.null = 1 /\ e.path = <<>>
            /\ s.start # <<>> /\ s.goal # NoGoal /\ e.ms > 1000 => ~Reach(s)
    \* tracked collisions were not allowed ones
    /\ IF s.track THEN PairsOf(e.hits) \intersect s.allow = {} /\ \A p \in PairsOf(e.hits) : "y" \in p \/ Hit(s.w, s.start, p, -3) ELSE e.hits = <<>>
\* collisions the scene itself allows are not looked for
AllowOk(s, c, old, new) == old \union (Hits(s.w, c, 1) \ s.w.sg) \subseteq new /\ new \subseteq old \union Hits(s.w, c, -1)
RECURSIVE Pts(_, _)
Pts(q, i) == IF i = 0 THEN 0 ELSE Len(q[i]) \div 4 + Pts(q, i - 1)
Ok(s, e, n) ==
    CASE e.op = "world" -> PairsOf(e.allowed) = PairsOf(e.sg)
      [] e.op \in {"start", "allowcfg"} -> AllowOk(s, K(e.c), s.allow, PairsOf(e.allowed))
      [] e.op = "allow" -> PairsOf(e.allowed) = IF e.v # 0 THEN s.allow \union {{e.a, e.b}} ELSE s.allow \ {{e.a, e.b}}
      [] e.op = "goal" -> s.start # <<>> => LET c == K(<<e.x, e.y>>) \o <<s.start[3]>> IN
                          /\ e.r = 0 => Hits(s.w, c, 1) \subseteq s.allow /\ Inside(s.w, e.x, e.y)
                          /\ e.r # 0 => ~(Hits(s.w, c, -1) \subseteq s.allow /\ Inside(s.w, e.x, e.y))
      [] e.op = "wsgoal" -> e.r = 0
      [] e.op = "track" -> (e.none = 1) = (e.v = 0)
      [] e.op \in {"planner", "simplify", "seqadd"} -> TRUE
      [] e.op = "plan" -> PlanOk(s, e)
      [] e.op = "seqget" -> /\ e.k = Len(s.seq) /\ e.pts = Pts(s.seq, Len(s.seq)) /\ Len(e.elts) = e.k + 1
                            /\ \A i \in 1..e.k : e.elts[i].own = 1 /\ 4 * e.elts[i].n = Len(s.seq[i]) /\ e.elts[i].v = s.seq[i]
                            /\ e.elts[e.k + 1].null = 1 /\ e.elts[e.k + 1].n = 0
=============================================================================
