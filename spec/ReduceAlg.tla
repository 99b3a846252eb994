----------------------------- MODULE ReduceAlg -----------------------------
(* The reduction algorithm as a state machine over exact rational arithmetic,   *)
(* explored from every basis with entries in -S..S: M vectors of length M.      *)
(* Gram-Schmidt coefficients are quotients of minors: u_ij = lam(i,j) / d_j.    *)
EXTENDS Lattice
CONSTANTS S, M, CN, CD
VARIABLES b, u, k, pc, b0
vars == <<b, u, k, pc, b0>>

Vec == [1..M -> (-S)..S]
d(B, i) == IF i = 0 THEN 1 ELSE IDet(Lead(IGram(B), i))
(* minor of the Gram matrix with rows 1..j and columns 1..j-1, i                 *)
lam(B, i, j) == LET G == IGram(B) IN IDet([x \in 1..j |-> [y \in 1..j |-> G[x][IF y = j THEN i ELSE y]]])
(* nearest integers to p/q, both of them at a tie                                *)
Near(p, q) == {n \in {p \div q, (p \div q) + 1} : 2 * IAbs(n * q - p) <= q}
SubRow(A, i, j, c) == [A EXCEPT ![i] = TLCEval([x \in 1..M |-> A[i][x] - c * A[j][x]])]
Swap(A, i, j) == [A EXCEPT ![i] = A[j], ![j] = A[i]]

Init == /\ b0 \in [1..M -> Vec]
        /\ IDet(b0) # 0
        /\ b = b0 /\ u = [i \in 1..M |-> [j \in 1..M |-> IF i = j THEN 1 ELSE 0]]
        /\ k = 1 /\ pc = <<"size", 2, 1>>
(* initially all vectors are made short, row i against i-1, ..., 1               *)
Size == /\ pc[1] \in {"size", "resize"}
        /\ LET i == pc[2] j == pc[3] IN
           /\ \E c \in Near(lam(b, i, j), d(b, j)) : b' = SubRow(b, i, j, c) /\ u' = SubRow(u, i, j, c)
           /\ pc' = IF j > 1 THEN <<pc[1], i, j - 1>>
                    ELSE IF pc[1] = "size" /\ i < M THEN <<"size", i + 1, i>> ELSE <<"test", 0, 0>>
           /\ k' = IF j = 1 /\ pc[1] = "resize" THEN IMax(k - 1, 1) ELSE k
        /\ b0' = b0
Good(B, i) == CD * d(B, i) * d(B, i) < CN * d(B, i - 1) * d(B, i + 1)
Test == /\ pc[1] = "test"
        /\ \/ k = M /\ pc' = <<"done", 0, 0>> /\ UNCHANGED <<b, u, k>>
           \/ k < M /\ Good(b, k) /\ k' = k + 1 /\ UNCHANGED <<b, u, pc>>
           \/ /\ k < M /\ ~Good(b, k)
              /\ b' = Swap(b, k, k + 1) /\ u' = Swap(u, k, k + 1)
              (* the vector k+1 is shortened only if it has to be               *)
              /\ IF 2 * IAbs(lam(b', k + 1, k)) > d(b', k) THEN pc' = <<"resize", k + 1, k>> /\ k' = k
                 ELSE k' = IMax(k - 1, 1) /\ pc' = pc
        /\ b0' = b0
Next == Size \/ Test
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameLattice == IMulM(u, b0) = b /\ IAbs(IDet(u)) = 1
Reduced == pc[1] = "done" => \A i \in 1..(M - 1) : Good(b, i)
(* every swap makes the product of the minors smaller                            *)
Terminates == <>(pc[1] = "done")
=============================================================================
