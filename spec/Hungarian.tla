------------------------------ MODULE Hungarian ------------------------------
(* The assignment algorithm of aa_la_assign_hungarian as a state machine, for   *)
(* every N x N cost matrix over Costs - Shift (negative costs included): it terminates, *)
(* its stars are always independent zeros, reduced costs never get negative,    *)
(* and the final stars are a minimum assignment of the original costs.          *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Costs, Shift
I == 1..N
VARIABLES C, A, star, prime, rows, cols, zero, step, work
vars == <<C, A, star, prime, rows, cols, zero, step, work>>
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Reduce(M) == LET R == [i \in I |-> [j \in I |-> M[i][j] - MinS({M[k][j] : k \in I})]] IN [i \in I |-> [j \in I |-> R[i][j] - MinS({R[i][k] : k \in I})]]
\* greedy initial stars, column by column, lowest row first
Greedy(M) == LET RECURSIVE G(_, _)
                 G(j, S) == IF j > N THEN S
                            ELSE LET Z == {i \in I : M[i][j] = 0 /\ \A p \in S : p[1] # i} IN G(j + 1, IF Z = {} THEN S ELSE S \cup {<<MinS(Z), j>>})
             IN G(1, {})
Init == /\ C \in [I -> [I -> {x - Shift : x \in Costs}]] /\ A = Reduce(C) /\ star = Greedy(A) /\ prime = {} /\ rows = {} /\ cols = {} /\ zero = <<0, 0>> /\ step = 3 /\ work = 0
Step3 == /\ step = 3 /\ cols' = cols \cup {p[2] : p \in star} /\ step' = IF Cardinality(cols') = N THEN 7 ELSE 4
         /\ UNCHANGED <<C, A, star, prime, rows, zero>>
Uncovered == {p \in I \X I : p[1] \notin rows /\ p[2] \notin cols}
Step4 == /\ step = 4
         /\ LET Z == {p \in Uncovered : A[p[1]][p[2]] = 0} IN
            IF Z = {} THEN step' = 6 /\ UNCHANGED <<prime, rows, cols, zero>>
            ELSE \E p \in Z : (LET s == {q \in star : q[1] = p[1]} IN       \* any uncovered zero will do
                /\ prime' = prime \cup {p}
                /\ IF s = {} THEN zero' = p /\ step' = 5 /\ UNCHANGED <<rows, cols>>
                   ELSE rows' = rows \cup {p[1]} /\ cols' = cols \ {q[2] : q \in s} /\ UNCHANGED <<zero, step>>)
         /\ UNCHANGED <<C, A, star>>
\* alternating path: prime, star in its column, prime in that star's row, ...
RECURSIVE Path(_)
Path(p) == LET s == {q \in star : q[2] = p[2]} IN
           IF s = {} THEN {p} ELSE LET q == CHOOSE q \in s : TRUE r == CHOOSE r \in prime : r[1] = q[1] IN {p, q} \cup Path(r)
Step5 == /\ step = 5 /\ star' = (star \ Path(zero)) \cup (Path(zero) \ star) /\ prime' = {} /\ rows' = {} /\ cols' = {} /\ step' = 3
         /\ UNCHANGED <<C, A, zero>>
Step6 == /\ step = 6
         /\ LET v == MinS({A[p[1]][p[2]] : p \in Uncovered}) IN
            A' = [i \in I |-> [j \in I |-> A[i][j] + (IF i \in rows THEN v ELSE 0) - (IF j \notin cols THEN v ELSE 0)]]
         /\ step' = 4 /\ UNCHANGED <<C, star, prime, rows, cols, zero>>
Next == (Step3 \/ Step4 \/ Step5 \/ Step6) /\ work' = work + 1
Spec == Init /\ [][Next]_vars
Independent == \A p, q \in star : p # q => p[1] # q[1] /\ p[2] # q[2]
ZeroStars == \A p \in star \cup prime : A[p[1]][p[2]] = 0
NonNeg == \A i, j \in I : A[i][j] >= 0
Perms == {f \in [I -> I] : \A i, j \in I : i # j => f[i] # f[j]}
RECURSIVE Tot(_, _)
Tot(f, i) == IF i > N THEN 0 ELSE C[i][f[i]] + Tot(f, i + 1)
Optimal == step = 7 => /\ Cardinality(star) = N
                       /\ LET f == [i \in I |-> (CHOOSE p \in star : p[1] = i)[2]] IN \A g \in Perms : Tot(f, 1) <= Tot(g, 1)
Terminates == work <= 4 * N * N * N /\ (step # 7 => ENABLED Next)
===============================================================================
