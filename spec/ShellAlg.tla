------------------------------ MODULE ShellAlg ------------------------------
(* Search for the closest vectors in growing parallelepipeds: the number of     *)
(* shells l grows until the n-th distance is less than (2 l - 1) times the       *)
(* radius of the sphere inscribed in the unit cell.  Exact planar model.         *)
EXTENDS Lattice
CONSTANTS S, Q, Count
VARIABLES b, t, n, c, l, done
vars == <<b, t, n, c, l, done>>
G == IGram(b)
Init == /\ b \in [1..2 -> [1..2 -> (-S)..S]] /\ IDet(b) # 0
        /\ t \in [1..2 -> 0..(Q - 1)]
        /\ n \in 1..Count
        /\ c \in {x \in [1..2 -> 0..1] : \A i \in 1..2 : 2 * IAbs(Q * x[i] - t[i]) <= Q}    \* rounded
        /\ l = 1 /\ done = FALSE
Pts == {<<x, y>> : x \in (c[1] - l)..(c[1] + l), y \in (c[2] - l)..(c[2] + l)}
(* squared distance (times Q^2) of the n-th closest point of the shells          *)
Dist(p) == Dist2(G, p, t, Q)
Nth == LET ds == [p \in Pts |-> Dist(p)]
           dv == {ds[p] : p \in Pts}
       IN CHOOSE D \in dv : Cardinality({p \in Pts : ds[p] < D}) < n /\ Cardinality({p \in Pts : ds[p] <= D}) >= n
Stop == 4 * IMax(G[1][1], G[2][2]) * Nth < (2 * l - 1) * (2 * l - 1) * IDet(G) * Q * Q
Next == /\ ~done
        /\ IF Stop THEN done' = TRUE /\ l' = l ELSE l' = l + 1 /\ done' = FALSE
        /\ UNCHANGED <<b, t, n, c>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* when the search stops no closer vector is outside                             *)
Complete == done => \A p \in Within(G, t, Q, Nth) : p \in Pts
Terminates == <>done
=============================================================================
