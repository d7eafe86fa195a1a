--------------------------------- MODULE PlanMC ---------------------------------
(* A planning context over one wall with a door: two places A (left) and B       *)
(* (right).  The context caches the allowed pairs in its validity checker, keeps *)
(* an old solution and an old search tree; each plan has to answer the problem   *)
(* as it stands.  The histories are replayed on the real planners.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Emit, Sync, Forget
VARIABLES start, door, goal, allow, copy, sol, ans, hist
vars == <<start, door, goal, allow, copy, sol, ans, hist>>
Places == {"A", "B"}
NoSol == [from |-> "-", to |-> "-"]
Init == start = "-" /\ door = "-" /\ goal = "-" /\ allow = FALSE /\ copy = FALSE /\ sol = NoSol /\ ans = "-" /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
\* starting in the door frame with the door shut allows the pair
Start(p, d) == /\ start' = p /\ door' = d /\ copy' = (IF Sync THEN allow ELSE copy \/ allow) /\ ans' = "-" /\ Log(<<"start", p, d>>) /\ UNCHANGED <<goal, allow, sol>>
AllowAt == /\ start # "-" /\ allow' = TRUE /\ copy' = TRUE /\ ans' = "-" /\ Log(<<"allowcfg">>) /\ UNCHANGED <<start, door, goal, sol>>
Allow(v) == /\ allow' = v /\ copy' = (IF Sync THEN v ELSE copy \/ v) /\ ans' = "-" /\ Log(<<"allow", IF v THEN "1" ELSE "0">>) /\ UNCHANGED <<start, door, goal, sol>>
Goal(k, p) == /\ start # "-" /\ goal' = p /\ ans' = "-" /\ Log(<<k, p>>) /\ UNCHANGED <<start, door, allow, copy, sol>>
Pick(p) == /\ Log(<<"planner", p>>) /\ ans' = "-" /\ UNCHANGED <<start, door, goal, allow, copy, sol>>
Way(a, b, op, al) == a = b \/ op = "open" \/ al
Plan == /\ start # "-" /\ goal # "-"
        /\ LET old == IF Forget THEN NoSol ELSE sol
               new == IF Way(start, goal, door, copy) THEN [from |-> start, to |-> goal] ELSE old IN
           /\ sol' = new /\ ans' = (IF new = NoSol THEN "no" ELSE IF old # NoSol THEN old.from \o old.to ELSE new.from \o new.to)
        /\ Log(<<"plan">>) /\ UNCHANGED <<start, door, goal, allow, copy>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E p \in Places, d \in {"open", "shut"} : Start(p, d)
           \/ AllowAt \/ \E v \in BOOLEAN : Allow(v)
           \/ \E k \in {"goal", "wsgoal"}, p \in Places : Goal(k, p)
           \/ \E p \in {"rrtc", "rrt", "sbl", "kpiece"} : Pick(p)
           \/ Plan
Spec == Init /\ [][Next]_vars
Current == ans # "-" => ans = IF Way(start, goal, door, allow) THEN start \o goal ELSE "no"
Synced == copy = allow
Emitted == (Emit /\ Len(hist) = MaxOps /\ hist[MaxOps][1] = "plan") => PrintT("GEN" \o ToJson(hist))
View == IF Emit THEN vars ELSE <<start, door, goal, allow, copy, sol, ans>>
=================================================================================
