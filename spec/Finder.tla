------------------------------ MODULE Finder ------------------------------
(* Symmetry finding.  A model is an integer object: terms (parameter p,       *)
(* function m) with Gaussian integer matrices.  The functions are either the *)
(* monomials up to some degree in lattice coordinates ("poly") or plane      *)
(* waves with integer hopping vectors ("hop").  A candidate is (R, c, a) with *)
(* an integer matrix R; it is a symmetry with the unitary U iff              *)
(*   U cc(H_m) = (+/-) (H o sR)_m U   for all terms,                         *)
(* where cc conjugates if c, s = -1 if c and the sign is - if a.             *)
(* Existence of a unitary is decided exactly: the families A (left) and B    *)
(* (right) are closed under adjoints, so they are unitarily equivalent iff   *)
(* all multiplicities agree iff dim Hom(A,B) = dim Hom(A,A) (= dim Hom(B,B),  *)
(* since B spans the same algebra as A up to conjugation).                   *)
EXTENDS Frame

(* ---- integer symmetry elements -------------------------------------------*)
El(o) == <<o.R, o.c, o.a>>
IMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + A[i][k] * B[k][j] IN S(Len(B))])])
Xor(x, y) == x # y
GMul(g, k) == <<IMul(g[1], k[1]), Xor(g[2], k[2]), Xor(g[3], k[3])>>
IId(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])
GId(n) == <<IId(n), FALSE, FALSE>>
RECURSIVE GClose(_, _, _)
GClose(all, front, gens) ==
  IF front = {} THEN all
  ELSE LET new == TLCEval({GMul(x, y) : x \in front, y \in gens} \ all)
       IN GClose(all \cup new, new, gens)
GGroup(gens, n) == LET s == gens \cup {GId(n)} IN GClose(s, s, s)

(* ---- action on the functions ------------------------------------------- *)
(* Q[m][n]: coefficient of function n in (function m) o R                    *)
RECURSIVE MonoAcc(_, _, _, _)
MonoAcc(M, R, m, acc) ==
  (* monomials are ordered such that par[m] precedes m; acc holds the rows so far *)
  IF m > M.n THEN acc
  ELSE LET row == IF M.deg[m] = 0 THEN [n \in 1..M.n |-> IF n = m THEN 1 ELSE 0]
                  ELSE LET i == M.par[m][1] prev == acc[M.par[m][2]]
                       IN [n \in 1..M.n |->
                            LET RECURSIVE S(_)
                                S(j) == IF j = 0 THEN 0
                                        ELSE S(j - 1) + (IF M.down[n][j] = 0 \/ M.deg[n] # M.deg[m] THEN 0 ELSE R[i][j] * prev[M.down[n][j]])
                            IN S(Len(R))]
       IN MonoAcc(M, R, m + 1, Append(acc, TLCEval(row)))
(* d -> R^T d                                                                *)
HopIm(M, R, m) == [j \in 1..Len(R) |-> LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + R[i][j] * M.hop[m][i] IN S(Len(R))]
HopMat(M, R) ==
  TLCEval([m \in 1..M.n |-> LET v == TLCEval(HopIm(M, R, m)) IN TLCEval([n \in 1..M.n |-> IF M.hop[n] = v THEN 1 ELSE 0])])
Act(M, R) == IF M.mode = "poly" THEN MonoAcc(M, R, 1, <<>>) ELSE HopMat(M, R)
(* hoppings whose image is not listed carry a nonzero matrix: no symmetry    *)
HopClosed(M, Q) == M.mode = "poly" \/ \A m \in 1..M.n : (\E n \in 1..M.n : Q[m][n] = 1) \/
                     \A p \in 1..Len(M.re) : \A a, b \in 1..M.N : M.re[p][m][a][b] = 0 /\ M.im[p][m][a][b] = 0
Sgn(M, g, m) == (IF g[3] THEN -1 ELSE 1) * (IF g[2] /\ M.mode = "poly" /\ M.deg[m] % 2 = 1 THEN -1 ELSE 1)
(* integer matrices of (+/-)(H o sR), [p][m][a][b]                          *)
RECURSIVE SumQ(_, _, _, _, _, _)
SumQ(X, Q, n, a, b, m) == IF m = 0 THEN 0
                          ELSE SumQ(X, Q, n, a, b, m - 1) + (IF Q[m][n] = 0 THEN 0 ELSE Q[m][n] * X[m][a][b])
Right(M, g, Q, X) ==
  TLCEval([p \in 1..Len(X) |-> TLCEval([n \in 1..M.n |-> TLCEval([a \in 1..M.N |-> TLCEval([b \in 1..M.N |->
      Sgn(M, g, n) * SumQ(X[p], Q, n, a, b, M.n)])])])])
ConjIm(M, g) == IF g[2] THEN -1 ELSE 1

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE MaxAbs4(_)
MaxAbs4(X) == LET S == {Abs(X[p][m][a][b]) : p \in DOMAIN X, m \in DOMAIN X[1], a \in DOMAIN X[1][1], b \in DOMAIN X[1][1]}
              IN CHOOSE x \in S \cup {1} : \A y \in S : y <= x

(* ---- a given U solves the equations (fixed point, scale 10^5) ------------ *)
(* (U A - B U)[a][b], complex                                               *)
Solves(M, g, Ur, Ui) ==
  LET Q == TLCEval(Act(M, g[1]))
      Br == Right(M, g, Q, M.re)  Bi == Right(M, g, Q, M.im)
      sg == ConjIm(M, g)  N == M.N
      big == MaxAbs4(Br) + MaxAbs4(Bi)
      tol == 4 * N * (big + 1)
      RECURSIVE Re(_, _, _, _, _)
      Re(p, m, a, b, k) == IF k = 0 THEN 0 ELSE Re(p, m, a, b, k - 1)
            + Ur[a][k] * M.re[p][m][k][b] - sg * Ui[a][k] * M.im[p][m][k][b]
            - Br[p][m][a][k] * Ur[k][b] + Bi[p][m][a][k] * Ui[k][b]
      RECURSIVE Im(_, _, _, _, _)
      Im(p, m, a, b, k) == IF k = 0 THEN 0 ELSE Im(p, m, a, b, k - 1)
            + Ui[a][k] * M.re[p][m][k][b] + sg * Ur[a][k] * M.im[p][m][k][b]
            - Br[p][m][a][k] * Ui[k][b] - Bi[p][m][a][k] * Ur[k][b]
  IN /\ HopClosed(M, Q)
     /\ \A p \in 1..Len(M.re) : \A m \in 1..M.n : \A a, b \in 1..N :
           Abs(Re(p, m, a, b, N)) <= tol /\ Abs(Im(p, m, a, b, N)) <= tol
Unitary(M, Ur, Ui) ==
  LET N == M.N
      V(x) == IF x >= 0 THEN (x + 5) \div 10 ELSE -((5 - x) \div 10)
      R4 == TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> V(Ur[a][b])])])
      I4 == TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> V(Ui[a][b])])])
      RECURSIVE Re(_, _, _)
      Re(a, b, k) == IF k = 0 THEN 0 ELSE Re(a, b, k - 1) + R4[a][k] * R4[b][k] + I4[a][k] * I4[b][k]
      RECURSIVE Im(_, _, _)
      Im(a, b, k) == IF k = 0 THEN 0 ELSE Im(a, b, k - 1) + I4[a][k] * R4[b][k] - R4[a][k] * I4[b][k]
      tol == 40000 * N
  IN /\ \A a, b \in 1..N : Abs(Ur[a][b]) <= 101000 /\ Abs(Ui[a][b]) <= 101000
     /\ \A a, b \in 1..N : Abs(Re(a, b, N) - (IF a = b THEN 100000000 ELSE 0)) <= tol /\ Abs(Im(a, b, N)) <= tol

(* ---- existence of a unitary, modulo P, first embedding ------------------- *)
ModMat(Xr, Xi, s) == TLCEval([a \in 1..Len(Xr) |-> TLCEval([b \in 1..Len(Xr) |-> (Xr[a][b] + RI * ((s * Xi[a][b]) % P)) % P])])
Fam(Xr, Xi, s) == TLCEval([p \in 1..Len(Xr) |-> TLCEval([m \in 1..Len(Xr[p]) |-> ModMat(Xr[p][m], Xi[p][m], s)])])
Idx(M) == {<<p, m>> : p \in 1..Len(M.re), m \in 1..M.n}
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
(* rows of the linear system X A_t - B_t X = 0 in the N*N unknowns           *)
EqRows(At, Bt, N) ==
  [r \in 1..(N * N) |->
     LET a == ((r - 1) \div N) + 1  c == ((r - 1) % N) + 1
     IN TLCEval([x \in 1..(N * N) |->
          LET i == ((x - 1) \div N) + 1  j == ((x - 1) % N) + 1
          IN ((IF i = a THEN At[j][c] ELSE 0) - (IF j = c THEN Bt[a][i] ELSE 0)) % P])]
RECURSIVE HomElim(_, _, _, _, _)
HomElim(A, B, N, ts, done) ==
  IF ts = <<>> THEN done
  ELSE LET t == Head(ts)
           rows == TLCEval(EqRows(A[t[1]][t[2]], B[t[1]][t[2]], N))
       IN HomElim(A, B, N, Tail(ts), TLCEval(RREF(done \o rows)))
DimHom(A, B, N, ts) == N * N - Len(HomElim(A, B, N, ts, <<>>))
NonZero(A, t) == \E a, b \in 1..Len(A[t[1]][t[2]]) : A[t[1]][t[2]][a][b] # 0
(* quick disproof: traces of products of two terms                           *)
TrP(X, Y, N) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0
                      ELSE (S(k - 1) + X[((k - 1) \div N) + 1][((k - 1) % N) + 1] * Y[((k - 1) % N) + 1][((k - 1) \div N) + 1]) % P
                IN S(N * N)
TracesAgree(A, B, N, ts) ==
  /\ \A i \in 1..Len(ts) : pTr(A[ts[i][1]][ts[i][2]]) = pTr(B[ts[i][1]][ts[i][2]])
  /\ \A i \in 1..Len(ts) : \A j \in i..Len(ts) :
        TrP(A[ts[i][1]][ts[i][2]], A[ts[j][1]][ts[j][2]], N) = TrP(B[ts[i][1]][ts[i][2]], B[ts[j][1]][ts[j][2]], N)
(* M.comm = dim Hom(H, H)                                                   *)
IsSym(M, comm, ts, g) ==
  LET Q == TLCEval(Act(M, g[1]))
  IN HopClosed(M, Q) /\
     LET B == Fam(Right(M, g, Q, M.re), Right(M, g, Q, M.im), 1)
         A == Fam(M.re, M.im, ConjIm(M, g))
     IN /\ \A t \in Idx(M) : NonZero(B, t) => \E i \in 1..Len(ts) : ts[i] = t
        /\ TracesAgree(A, B, M.N, ts)
        /\ DimHom(A, B, M.N, ts) = comm
CommDim(M, ts) == LET A == Fam(M.re, M.im, 1) IN DimHom(A, A, M.N, ts)

(* elements of cands that are symmetries, given a set S of proven ones: test *)
(* one element of each double coset                                         *)
RECURSIVE SymsOf(_, _, _, _, _)
SymsOf(M, comm, ts, S, todo) ==
  IF todo = {} THEN S
  ELSE LET g == CHOOSE x \in todo : TRUE
           coset == TLCEval({GMul(GMul(s, g), u) : s \in S, u \in S})
       IN IF IsSym(M, comm, ts, g) THEN LET S2 == TLCEval(GClose(S \cup {g}, S \cup {g}, S \cup {g})) IN SymsOf(M, comm, ts, S2, todo \ S2)
          ELSE SymsOf(M, comm, ts, S, todo \ coset)

(* ---- events ---------------------------------------------------------------*)
(* ev.M model, ev.cand candidates, ev.res results [R,c,a,Ur,Ui], ev.gen whether *)
(* generators were requested, ev.tests whether completeness is judged        *)
JFind(ev, h) ==
  LET M == IF ev.op = "find" THEN ev.M ELSE h
      dim == M.dim
      cand == TLCEval({El(ev.cand[i]) : i \in 1..Len(ev.cand)})
      G == TLCEval(GGroup(cand, dim))
      n == Len(ev.res)
      res == TLCEval({El(ev.res[i]) : i \in 1..n})
      cl == TLCEval(GGroup(res, dim))
  IN Clauses(<< <<"not-in-candidate-group", res \subseteq G>>,
                <<"element-reported-twice", Cardinality(res) = n>>,
                <<"unitary-part-is-not-unitary", \A i \in 1..n : Len(ev.res[i].Ur) = M.N /\ Unitary(M, ev.res[i].Ur, ev.res[i].Ui)>>,
                <<"not-a-symmetry", \A i \in 1..n : Solves(M, El(ev.res[i]), ev.res[i].Ur, ev.res[i].Ui)>>,
                <<"not-closed", ev.gen \/ n = 0 \/ cl = res>>,
                <<"generators-and-group-differ", "full" \notin DOMAIN ev \/
                     cl = {El(ev.full[i]) : i \in 1..Len(ev.full)}>>,
                <<"symmetry-missed", ~ev.tests \/
                     LET ts == TLCEval(SeqOf({t \in Idx(M) : \E a, b \in 1..M.N : M.re[t[1]][t[2]][a][b] # 0 \/ M.im[t[1]][t[2]][a][b] # 0}))
                         comm == CommDim(M, ts)
                         found == SymsOf(M, comm, ts, cl, cand \ cl)
                     IN found = cl>>,
                <<"known-symmetry-missed", \A i \in 1..Len(ev.known) : El(ev.known[i]) \in cl>> >>, h)
==========================================================================
