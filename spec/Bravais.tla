------------------------------ MODULE Bravais ------------------------------
(* Point group of a lattice: all integer matrices M with M G M^T = G for the  *)
(* Gram matrix G of a basis.  The rows of M are lattice vectors with the same *)
(* lengths and angles as the basis, and the components of a vector v of       *)
(* length G_ii are bounded by v_k^2 det(G) <= G_ii adj(G)_kk.                 *)
EXTENDS Frame

BDet(G) == CASE Len(G) = 1 -> G[1][1]
             [] Len(G) = 2 -> G[1][1] * G[2][2] - G[1][2] * G[2][1]
             [] Len(G) = 3 -> G[1][1] * (G[2][2] * G[3][3] - G[2][3] * G[3][2]) - G[1][2] * (G[2][1] * G[3][3] - G[2][3] * G[3][1])
                              + G[1][3] * (G[2][1] * G[3][2] - G[2][2] * G[3][1])
BAdj(G, k) == CASE Len(G) = 1 -> 1
                [] Len(G) = 2 -> G[3 - k][3 - k]
                [] Len(G) = 3 -> LET i == CHOOSE x \in 1..3 : x # k
                                     j == CHOOSE x \in 1..3 : x # k /\ x # i
                                 IN G[i][i] * G[j][j] - G[i][j] * G[j][i]
RECURSIVE BDotJ(_, _, _, _, _)
BDotJ(v, G, w, i, j) == IF j = 0 THEN 0 ELSE BDotJ(v, G, w, i, j - 1) + v[i] * G[i][j] * w[j]
RECURSIVE BDotI(_, _, _, _)
BDotI(v, G, w, i) == IF i = 0 THEN 0 ELSE BDotI(v, G, w, i - 1) + BDotJ(v, G, w, i, Len(G))
BDot(v, G, w) == BDotI(v, G, w, Len(G))
(* large entries are scaled down before cubes are taken (32 bit integers)      *)
RECURSIVE BMax(_, _)
BMax(G, i) == IF i = 0 THEN 1 ELSE LET m == BMax(G, i - 1) IN IF G[i][i] > m THEN G[i][i] ELSE m
BScale(G) == IF Len(G) < 3 THEN 1 ELSE BMax(G, Len(G)) \div 1000 + 1
BCoarse(G) == LET K == BScale(G) IN IF K = 1 THEN G ELSE TLCEval([i \in 1..Len(G) |-> TLCEval([j \in 1..Len(G) |-> G[i][j] \div K])])
BPosDef(G) == /\ \A i, j \in 1..Len(G) : G[i][j] = G[j][i]
              /\ G[1][1] > 0 /\ BDet(BCoarse(G)) > 0
              /\ Len(G) = 3 => G[1][1] * G[2][2] - G[1][2] * G[1][2] > 0
(* components that vectors of squared length L may have                      *)
(* (one more where the entries were scaled)                                    *)
Comps(G, L, k) == LET H == BCoarse(G)
                      K == BScale(G)
                      D == BDet(H)
                      X == (IF K = 1 THEN L ELSE L \div K + 1) * BAdj(H, k)
                      RECURSIVE B(_) B(b) == IF b + 1 > 46340 \/ (b + 1) * (b + 1) > X \div D THEN b ELSE B(b + 1)
                      m == B(0) + (IF K = 1 THEN 0 ELSE 1) IN (-m)..m
VecsOf(G, L) == CASE Len(G) = 1 -> {v \in {<<x>> : x \in Comps(G, L, 1)} : BDot(v, G, v) = L}
                  [] Len(G) = 2 -> {v \in Comps(G, L, 1) \X Comps(G, L, 2) : BDot(v, G, v) = L}
                  [] Len(G) = 3 -> {v \in Comps(G, L, 1) \X Comps(G, L, 2) \X Comps(G, L, 3) : BDot(v, G, v) = L}
RECURSIVE Extend(_, _, _)
(* partial isometries: sequences of i images                                 *)
Extend(G, S, i) == IF i > Len(G) THEN S
                   ELSE LET V == TLCEval(VecsOf(G, G[i][i]))
                        IN Extend(G, TLCEval(UNION {{Append(m, v) : v \in {w \in V : \A j \in 1..(i - 1) : BDot(m[j], G, w) = G[j][i]}} : m \in S}), i + 1)
Isometries(G) == Extend(G, {<<>>}, 1)

BMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + A[i][k] * B[k][j] IN S(Len(B))])])
BT(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> A[j][i]])])
BGMul(g, k) == <<BMul(g[1], k[1]), g[2] # k[2], g[3] # k[3]>>
RECURSIVE BClose(_, _, _)
BClose(all, front, gens) == IF front = {} THEN all
  ELSE LET new == TLCEval({BGMul(x, y) : x \in front, y \in gens} \ all) IN BClose(all \cup new, new, gens)
BUnit(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])

(* ev.G0 Gram matrix of a basis, ev.res, ev.gens: elements [M, c, a] in that basis *)
JBravais(ev, h) ==
  LET G == ev.G0
      n == Len(G)
      iso == Isometries(G)
      flags == {<<FALSE, FALSE>>} \cup (IF ev.tr THEN {<<TRUE, FALSE>>} ELSE {}) \cup (IF ev.ph THEN {<<TRUE, TRUE>>} ELSE {})
                \cup (IF ev.tr /\ ev.ph THEN {<<FALSE, TRUE>>} ELSE {})
      want == TLCEval({<<m, f[1], f[2]>> : m \in iso, f \in flags})
      res == TLCEval({<<ev.res[i].M, ev.res[i].c, ev.res[i].a>> : i \in 1..Len(ev.res)})
      gens == TLCEval({<<ev.gens[i].M, ev.gens[i].c, ev.gens[i].a>> : i \in 1..Len(ev.gens)})
  IN Clauses(<< <<"input-not-a-gram-matrix", BPosDef(G)>>,
                <<"elements-repeated", Cardinality(res) = Len(ev.res)>>,
                <<"not-an-isometry", res \subseteq want>>,
                <<"isometry-missed", want \subseteq res>>,
                <<"has-unitary-part", ~ev.unitary>>,
                <<"generator-not-in-group", gens \subseteq want>>,
                <<"generators-do-not-generate", BClose(gens, gens, gens) = want>> >>, h)
=============================================================================
