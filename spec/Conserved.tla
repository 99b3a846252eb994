----------------------------- MODULE Conserved -----------------------------
(* Continuous symmetries of an integer model (see Finder): onsite conserved   *)
(* quantities (the traceless Hermitian commutant) and rotation generators     *)
(* (r, U) with  [H, U] + i sum_ij (dH/dx_i) r_ij x_j = 0, where r is           *)
(* antisymmetric with respect to the metric of the lattice coordinates.       *)
(* Reported generators are fixed point numbers (scale 10^5), the number of    *)
(* generators is decided by exact linear algebra modulo P.                    *)
EXTENDS Finder

TermsOf(M) == SeqOf({t \in Idx(M) : \E a, b \in 1..M.N : M.re[t[1]][t[2]][a][b] # 0 \/ M.im[t[1]][t[2]][a][b] # 0})
Herm(Ur, Ui) == \A a, b \in 1..Len(Ur) : Abs(Ur[a][b] - Ur[b][a]) <= 3 /\ Abs(Ui[a][b] + Ui[b][a]) <= 3
RECURSIVE FTrace(_, _)
FTrace(U, k) == IF k = 0 THEN 0 ELSE FTrace(U, k - 1) + U[k][k]
Traceless(Ur, Ui) == Abs(FTrace(Ur, Len(Ur))) <= 2 * Len(Ur) + 2 /\ Abs(FTrace(Ui, Len(Ui))) <= 2 * Len(Ui) + 2
Shape(U, n) == Len(U) = n /\ \A i \in 1..n : Len(U[i]) = n
Bounded(U) == \A a \in 1..Len(U) : \A b \in 1..Len(U[a]) : Abs(U[a][b]) <= 100001

(* ev.L matrices, ev.rank number of linearly independent ones among them,    *)
(* ev.pure whether none of them has a real space part                        *)
JConserved(ev, h) ==
  LET M == ev.M  n == Len(ev.L) IN
  Clauses(<< <<"shape", \A i \in 1..n : Shape(ev.L[i].Ur, M.N) /\ Shape(ev.L[i].Ui, M.N) /\ Bounded(ev.L[i].Ur) /\ Bounded(ev.L[i].Ui)>>,
             <<"has-real-space-part", ev.pure>>,
             <<"not-hermitian", \A i \in 1..n : Herm(ev.L[i].Ur, ev.L[i].Ui)>>,
             <<"not-traceless", \A i \in 1..n : Traceless(ev.L[i].Ur, ev.L[i].Ui)>>,
             <<"does-not-commute", \A i \in 1..n : Solves(M, GId(M.dim), ev.L[i].Ur, ev.L[i].Ui)>>,
             (* the requested number of digits is kept: ev.resid is the largest entry of *)
             (* [L, H_t] / max|H_t| in units of the last digit                            *)
             <<"less-precise-than-requested", ev.resid <= 20 * (M.N + 1)>>,
             <<"linearly-dependent", ev.rank = n>>,
             <<"not-all-conserved-quantities", n = CommDim(M, TermsOf(M)) - 1>> >>, h)

(* ---- rotations ----------------------------------------------------------- *)
(* function reached from m by d/dx_i then x_j; 0 if the exponent vanishes     *)
Tgt(M, m, i, j) ==
  IF M.ex[m][i] = 0 THEN 0
  ELSE LET e == TLCEval([k \in 1..M.dim |-> M.ex[m][k] - (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)])
       IN CHOOSE n \in 1..M.n : M.ex[n] = e
TgtTable(M) == TLCEval([m \in 1..M.n |-> TLCEval([i \in 1..M.dim |-> TLCEval([j \in 1..M.dim |-> Tgt(M, m, i, j)])])])

(* (H U - U H + i dH r x), coefficient of function n of parameter p           *)
GenSolves(M, T, r, Ur, Ui) ==
  LET N == M.N  d == M.dim
      RECURSIVE CRe(_, _, _, _, _)
      CRe(p, n, a, b, k) == IF k = 0 THEN 0 ELSE CRe(p, n, a, b, k - 1)
         + M.re[p][n][a][k] * Ur[k][b] - M.im[p][n][a][k] * Ui[k][b] - Ur[a][k] * M.re[p][n][k][b] + Ui[a][k] * M.im[p][n][k][b]
      RECURSIVE CIm(_, _, _, _, _)
      CIm(p, n, a, b, k) == IF k = 0 THEN 0 ELSE CIm(p, n, a, b, k - 1)
         + M.re[p][n][a][k] * Ui[k][b] + M.im[p][n][a][k] * Ur[k][b] - Ur[a][k] * M.im[p][n][k][b] - Ui[a][k] * M.re[p][n][k][b]
      (* coefficient with which function m contributes to function n        *)
      RECURSIVE W(_, _, _)
      W(m, n, k) == IF k = 0 THEN 0
                    ELSE LET i == ((k - 1) \div d) + 1  j == ((k - 1) % d) + 1
                         IN W(m, n, k - 1) + (IF T[m][i][j] = n THEN M.ex[m][i] * r[i][j] ELSE 0)
      WT == TLCEval([m \in 1..M.n |-> TLCEval([n \in 1..M.n |-> IF M.deg[m] # M.deg[n] THEN 0 ELSE W(m, n, d * d)])])
      RECURSIVE DS(_, _, _, _, _)
      DS(X, n, a, b, m) == IF m = 0 THEN 0 ELSE DS(X, n, a, b, m - 1) + (IF WT[m][n] = 0 THEN 0 ELSE WT[m][n] * X[m][a][b])
      big == MaxAbs4(M.re) + MaxAbs4(M.im)
      tol == 8 * (N + d * d * 4) * (big + 1)
  IN \A p \in 1..Len(M.re) : \A n \in 1..M.n : \A a, b \in 1..N :
        /\ Abs(CRe(p, n, a, b, N) - DS(M.im[p], n, a, b, M.n)) <= tol
        /\ Abs(CIm(p, n, a, b, N) + DS(M.re[p], n, a, b, M.n)) <= tol

(* plane waves: a generator must leave every hopping with a nonzero matrix    *)
(* alone (r^T d = 0) and commute with all terms                               *)
HopFixed(M, r) == \A t \in {TermsOf(M)[i] : i \in 1..Len(TermsOf(M))} :
                     \A j \in 1..M.dim : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + r[i][j] * M.hop[t[2]][i]
                                          IN Abs(S(M.dim)) <= 20

(* antisymmetry with respect to the metric: G r = -(G r)^T                    *)
AntiSym(G, r) ==
  LET d == Len(r)
      RECURSIVE S(_, _, _) S(i, j, k) == IF k = 0 THEN 0 ELSE S(i, j, k - 1) + G[i][k] * r[k][j]
  IN \A i, j \in 1..d : Abs(S(i, j, d) + S(j, i, d)) <= 40

(* unknowns: r_ij (d*d), then U_ab (N*N), modulo P, first embedding            *)
AntiRows(G, d, N) ==
  TLCEval([q \in 1..(d * d) |->
     LET i == ((q - 1) \div d) + 1  j == ((q - 1) % d) + 1
     IN TLCEval([x \in 1..(d * d + N * N) |->
          IF x > d * d THEN 0
          ELSE LET k == ((x - 1) \div d) + 1  l == ((x - 1) % d) + 1
               IN ((IF l = j THEN G[i][k] ELSE 0) + (IF l = i THEN G[j][k] ELSE 0)) % P])])
(* equations of parameter p, function n                                      *)
RotRows(M, T, A, p, n) ==
  LET d == M.dim  N == M.N IN
  TLCEval([q \in 1..(N * N) |->
     LET a == ((q - 1) \div N) + 1  b == ((q - 1) % N) + 1
     IN TLCEval([x \in 1..(d * d + N * N) |->
          IF x <= d * d
          THEN LET i == ((x - 1) \div d) + 1  j == ((x - 1) % d) + 1
                   RECURSIVE S(_)
                   S(m) == IF m = 0 THEN 0 ELSE (S(m - 1) + (IF T[m][i][j] = n THEN M.ex[m][i] * A[p][m][a][b] ELSE 0)) % P
               IN (RI * S(M.n)) % P
          ELSE LET k == ((x - d * d - 1) \div N) + 1  l == ((x - d * d - 1) % N) + 1
               IN ((IF l = b THEN A[p][n][a][k] ELSE 0) - (IF k = a THEN A[p][n][l][b] ELSE 0)) % P])])
RECURSIVE RotElim(_, _, _, _, _)
RotElim(M, T, A, ix, done) ==
  IF ix = <<>> THEN done
  ELSE RotElim(M, T, A, Tail(ix), TLCEval(RREF(done \o SelectSeq(RotRows(M, T, A, Head(ix)[1], Head(ix)[2]),
                                                   LAMBDA r : \E x \in 1..Len(r) : r[x] # 0))))
(* dimension of the space of solutions (r, U)                                *)
RotDim(M, T, A) ==
  LET d == M.dim  N == M.N
      ix == SeqOf(Idx(M))
  IN d * d + N * N - Len(RotElim(M, T, A, ix, RREF(SelectSeq(AntiRows(M.G, d, N), LAMBDA r : \E x \in 1..Len(r) : r[x] # 0))))
(* plane waves                                                               *)
HopRotDim(M) ==
  LET d == M.dim
      ts == TermsOf(M)
      rows == TLCEval([q \in 1..(Len(ts) * d) |->
                 LET t == ts[((q - 1) \div d) + 1]  j == ((q - 1) % d) + 1
                 IN TLCEval([x \in 1..(d * d) |-> IF ((x - 1) % d) + 1 = j THEN M.hop[t[2]][((x - 1) \div d) + 1] % P ELSE 0])])
  IN d * d - Len(RREF(SelectSeq(AntiRows(M.G, d, 0) \o rows, LAMBDA r : \E x \in 1..Len(r) : r[x] # 0)))

(* ev.g generators [r, Ur, Ui], ev.rank rank of the real space parts, ev.bloch *)
JRotations(ev, h) ==
  LET M == ev.M  n == Len(ev.g)
      T == IF M.mode = "poly" THEN TgtTable(M) ELSE <<>>
  IN Clauses(<< <<"shape", \A i \in 1..n : Shape(ev.g[i].r, M.dim) /\ Shape(ev.g[i].Ur, M.N) /\ Shape(ev.g[i].Ui, M.N)
                               /\ Bounded(ev.g[i].r) /\ Bounded(ev.g[i].Ur) /\ Bounded(ev.g[i].Ui)>>,
             <<"rotation-of-one-dimensional-or-bloch-model", (M.dim <= 1 \/ ev.bloch) => n = 0>>,
             <<"not-hermitian", \A i \in 1..n : Herm(ev.g[i].Ur, ev.g[i].Ui)>>,
             <<"not-antisymmetric", \A i \in 1..n : AntiSym(M.G, ev.g[i].r)>>,
             <<"not-a-symmetry", \A i \in 1..n : IF M.mode = "poly" THEN GenSolves(M, T, ev.g[i].r, ev.g[i].Ur, ev.g[i].Ui)
                                    ELSE HopFixed(M, ev.g[i].r) /\ Solves(M, GId(M.dim), ev.g[i].Ur, ev.g[i].Ui)>>,
             <<"linearly-dependent", ev.rank = n>>,
             <<"rotations-missed", M.dim <= 1 \/ ev.bloch \/
                  n = IF M.mode = "poly" THEN RotDim(M, T, Fam(M.re, M.im, 1)) - CommDim(M, TermsOf(M)) ELSE HopRotDim(M)>> >>, h)
=============================================================================
