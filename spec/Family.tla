------------------------------ MODULE Family ------------------------------
(* Families of Hamiltonians.  A function space M (see Finder: monomials in    *)
(* lattice coordinates or plane waves, with integer rotations), symmetries    *)
(* g with R integer, flags c, a and a unitary given twice: W = ws * U as      *)
(* integers (ws arbitrary scale, we = rounding error of W times two) and z    *)
(* as residues; continuous generators with integer r and U alike.            *)
(* Members of a family are fixed point numbers (scale xs): they are checked    *)
(* against the equations with the tolerance of the rounding.  The number of    *)
(* linearly independent members is decided exactly: Hermitian solutions form   *)
(* a real space whose complexification consists of the complex matrices that  *)
(* solve the same equations with X* replaced by X^T.                          *)
EXTENDS Conserved

NegIdx(M, m) == IF M.mode = "poly" THEN m ELSE CHOOSE n \in 1..M.n : \A i \in 1..M.dim : M.hop[n][i] = -M.hop[m][i]
NegTable(M) == TLCEval([m \in 1..M.n |-> NegIdx(M, m)])

(* sum of absolute values of the action                                     *)
RECURSIVE QSum(_, _, _)
QSum(Q, m, n) == IF n = 0 THEN 0 ELSE QSum(Q, m, n - 1) + Abs(Q[n][m])
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
WMax(W) == MaxS({Abs(W[i][j]) : i, j \in 1..Len(W)} \cup {0})

(* U cc(X)_m = +/- (X o sR)_m U                                              *)
SymSolves(M, Q, g, X, xs) ==
  LET N == M.N
      G3 == <<g.R, g.c, g.a>>
      sg == IF g.c THEN -1 ELSE 1
      RECURSIVE QX(_, _, _, _, _)
      QX(Y, m, a, b, n) == IF n = 0 THEN 0 ELSE QX(Y, m, a, b, n - 1) + (IF Q[n][m] = 0 THEN 0 ELSE Q[n][m] * Y[n][a][b])
      B(Y) == TLCEval([m \in 1..M.n |-> TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> Sgn(M, G3, m) * QX(Y, m, a, b, M.n)])])])
      Br == B(X.re)  Bi == B(X.im)
      RECURSIVE Re(_, _, _, _)
      Re(m, a, b, k) == IF k = 0 THEN 0 ELSE Re(m, a, b, k - 1)
          + g.Wr[a][k] * X.re[m][k][b] - sg * g.Wi[a][k] * X.im[m][k][b] - Br[m][a][k] * g.Wr[k][b] + Bi[m][a][k] * g.Wi[k][b]
      RECURSIVE Im(_, _, _, _)
      Im(m, a, b, k) == IF k = 0 THEN 0 ELSE Im(m, a, b, k - 1)
          + g.Wi[a][k] * X.re[m][k][b] + sg * g.Wr[a][k] * X.im[m][k][b] - Br[m][a][k] * g.Wi[k][b] - Bi[m][a][k] * g.Wr[k][b]
      wm == WMax(g.Wr) + WMax(g.Wi)
  IN \A m \in 1..M.n :
        LET tol == N * (1 + QSum(Q, m, M.n)) * (wm + (g.we * xs) \div 2 + 1)
        IN \A a, b \in 1..N : Abs(Re(m, a, b, N)) <= tol /\ Abs(Im(m, a, b, N)) <= tol
(* X U - U X + i dX r x                                                      *)
ContSolves(M, T, g, X, xs) ==
  LET N == M.N  d == M.dim
      RECURSIVE W(_, _, _)
      W(m, n, k) == IF k = 0 THEN 0
                    ELSE LET i == ((k - 1) \div d) + 1  j == ((k - 1) % d) + 1
                         IN W(m, n, k - 1) + (IF T[m][i][j] = n THEN M.ex[m][i] * g.r[i][j] ELSE 0)
      WT == TLCEval([m \in 1..M.n |-> TLCEval([n \in 1..M.n |-> IF M.mode # "poly" \/ M.deg[m] # M.deg[n] THEN 0 ELSE W(m, n, d * d)])])
      RECURSIVE DS(_, _, _, _, _)
      DS(Y, n, a, b, m) == IF m = 0 THEN 0 ELSE DS(Y, n, a, b, m - 1) + (IF WT[m][n] = 0 THEN 0 ELSE WT[m][n] * Y[m][a][b])
      RECURSIVE Re(_, _, _, _)
      Re(m, a, b, k) == IF k = 0 THEN 0 ELSE Re(m, a, b, k - 1)
          + X.re[m][a][k] * g.Wr[k][b] - X.im[m][a][k] * g.Wi[k][b] - g.Wr[a][k] * X.re[m][k][b] + g.Wi[a][k] * X.im[m][k][b]
      RECURSIVE Im(_, _, _, _)
      Im(m, a, b, k) == IF k = 0 THEN 0 ELSE Im(m, a, b, k - 1)
          + X.re[m][a][k] * g.Wi[k][b] + X.im[m][a][k] * g.Wr[k][b] - g.Wr[a][k] * X.im[m][k][b] - g.Wi[a][k] * X.re[m][k][b]
      wm == WMax(g.Wr) + WMax(g.Wi)
  IN \A m \in 1..M.n :
        LET tol == 2 * N * (wm + (g.we * xs) \div 2 + 1) + QSum(WT, m, M.n) + 2
        IN \A a, b \in 1..N :
             /\ Abs(Re(m, a, b, N) - DS(X.im, m, a, b, M.n)) <= tol
             /\ Abs(Im(m, a, b, N) + DS(X.re, m, a, b, M.n)) <= tol
Satisfies(M, Qs, T, syms, X, xs) ==
  \A s \in 1..Len(syms) : IF syms[s].kind = "pg" THEN SymSolves(M, Qs[s], syms[s], X, xs) ELSE ContSolves(M, T, syms[s], X, xs)
HermX(M, Ng, X) == \A m \in 1..M.n : \A a, b \in 1..M.N :
                     Abs(X.re[m][a][b] - X.re[Ng[m]][b][a]) <= 2 /\ Abs(X.im[m][a][b] + X.im[Ng[m]][b][a]) <= 2
Support(M, ok, X) == \A m \in 1..M.n : \A a, b \in 1..M.N : (X.re[m][a][b] # 0 \/ X.im[m][a][b] # 0) => <<m, a, b>> \in ok

(* ---- dimension of the solution space, modulo P ----------------------------- *)
(* uv: sequence of unknowns <<n, i, j>>                                     *)
PgRow(M, Q, Ng, g, uv, m, a, b) ==
  LET sg == Sgn(M, <<g.R, g.c, g.a>>, m)
      mm == IF g.c THEN Ng[m] ELSE m
  IN TLCEval([x \in 1..Len(uv) |->
       LET n == uv[x][1]  i == uv[x][2]  j == uv[x][3]
       IN ((IF n # mm THEN 0 ELSE IF g.c THEN (IF i = b THEN g.z[1][a][j] ELSE 0) ELSE (IF j = b THEN g.z[1][a][i] ELSE 0))
           - (IF i = a /\ Q[n][m] # 0 THEN sg * ((Q[n][m] * g.z[1][j][b]) % P) ELSE 0)) % P])
ContRow(M, T, g, uv, m, a, b) ==
  LET d == M.dim IN
  TLCEval([x \in 1..Len(uv) |->
    LET n == uv[x][1]  i == uv[x][2]  j == uv[x][3]
        RECURSIVE W(_)
        W(k) == IF k = 0 THEN 0
                ELSE LET p == ((k - 1) \div d) + 1  q == ((k - 1) % d) + 1
                     IN W(k - 1) + (IF T[n][p][q] = m THEN M.ex[n][p] * g.rz[p][q] ELSE 0)
    IN ((IF n = m /\ i = a THEN g.z[1][j][b] ELSE 0) - (IF n = m /\ j = b THEN g.z[1][a][i] ELSE 0)
        + (IF M.mode = "poly" /\ i = a /\ j = b THEN RI * (W(d * d) % P) ELSE 0)) % P])
NonzeroRows(rows) == SelectSeq(rows, LAMBDA r : \E x \in 1..Len(r) : r[x] # 0)
KeyRows(M, Qs, T, Ng, syms, uv, s, m) ==
  NonzeroRows(TLCEval([q \in 1..(M.N * M.N) |->
     LET a == ((q - 1) \div M.N) + 1  b == ((q - 1) % M.N) + 1
     IN IF syms[s].kind = "pg" THEN PgRow(M, Qs[s], Ng, syms[s], uv, m, a, b) ELSE ContRow(M, T, syms[s], uv, m, a, b)]))
RECURSIVE SymElim(_, _, _, _, _, _, _, _, _)
SymElim(M, Qs, T, Ng, syms, uv, s, m, done) ==
  IF s > Len(syms) THEN done
  ELSE IF m > M.n THEN SymElim(M, Qs, T, Ng, syms, uv, s + 1, 1, done)
  ELSE SymElim(M, Qs, T, Ng, syms, uv, s, m + 1,
               LET r == KeyRows(M, Qs, T, Ng, syms, uv, s, m) IN IF r = <<>> THEN done ELSE TLCEval(RREF(done \o r)))
SolDim(M, Qs, T, Ng, syms, uv) == Len(uv) - Len(SymElim(M, Qs, T, Ng, syms, uv, 1, 1, <<>>))

Actions(M, syms) == TLCEval([s \in 1..Len(syms) |-> IF syms[s].kind = "pg" THEN TLCEval(Act(M, syms[s].R)) ELSE <<>>])

(* ev.M, ev.syms, ev.vars allowed entries, ev.mem members, ev.extra: terms that *)
(* do not fit in the function space, ev.rank numerical rank over the reals     *)
FamClauses(M, syms, uv, ev) ==
  LET Qs == Actions(M, syms)
      T == IF M.mode = "poly" THEN TgtTable(M) ELSE <<>>
      Ng == NegTable(M)
      ok == TLCEval({uv[i] : i \in 1..Len(uv)})
      n == Len(ev.mem)
  IN << <<"term-outside-of-function-space", ~ev.extra>>,
        <<"wrong-momenta", ev.momenta>>,
        <<"not-hermitian", \A i \in 1..n : HermX(M, Ng, ev.mem[i])>>,
        <<"term-not-allowed", \A i \in 1..n : Support(M, ok, ev.mem[i])>>,
        <<"symmetry-not-satisfied", \A i \in 1..n : Satisfies(M, Qs, T, syms, ev.mem[i], ev.xs)>>,
        <<"linearly-dependent", ev.rank = n>>,
        <<"family-incomplete", ~ev.complete \/ n = SolDim(M, Qs, T, Ng, syms, uv)>> >>
JFamily(ev, h) == Clauses(FamClauses(ev.M, ev.syms, ev.vars, ev), h)

(* two presentations of the same family: equal numbers of members follow from *)
(* completeness                                                             *)

(* ---- pairing: off-diagonal blocks in particle-hole space ------------------- *)
ExtW(X, Y) == LET n == Len(X) IN TLCEval([a \in 1..(2 * n) |-> TLCEval([b \in 1..(2 * n) |->
                 IF a <= n /\ b <= n THEN X[a][b] ELSE IF a > n /\ b > n THEN Y[a - n][b - n] ELSE 0])])
IScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> c * A[i][j]])])
IAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> A[i][j] + B[i][j]])])
ISub(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> A[i][j] - B[i][j]])])
(* phase factor (pc + i psn)/ps of the hole block (zph as residues); additive *)
(* integer phase for generators                                             *)
ExtSym(g) ==
  LET n == Len(g.Wr) IN
  IF g.kind = "pg"
  THEN LET (* (pc + i psn)(Wr - i Wi)                                       *)
           Hr == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> g.pc * g.Wr[a][b] + g.psn * g.Wi[a][b]])])
           Hi == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> g.psn * g.Wr[a][b] - g.pc * g.Wi[a][b]])])
           zc == MScale(g.zph, MConj(g.z))
       IN [g EXCEPT !.Wr = ExtW(IScale(g.ps, g.Wr), Hr), !.Wi = ExtW(IScale(g.ps, g.Wi), Hi),
                    !.we = IF g.ps = 1 THEN g.we ELSE g.ps * g.we + 2 * (WMax(g.Wr) + WMax(g.Wi)) + 1,
                    !.z = <<ExtW(g.z[1], zc[1]), ExtW(g.z[2], zc[2])>>]
  ELSE LET ph == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a = b THEN g.ph * g.ws ELSE 0])])
           phz == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> IF a = b THEN g.phz % P ELSE 0])])
           zc == MConj(g.z)
       IN [g EXCEPT !.Wr = ExtW(g.Wr, ISub(ph, g.Wr)), !.Wi = ExtW(g.Wi, g.Wi),
                    !.z = <<ExtW(g.z[1], pSub(phz, zc[1])), ExtW(g.z[2], pSub(phz, zc[2]))>>]
PhSym(M, n, sq) ==
  LET B(s) == TLCEval([a \in 1..(2 * n) |-> TLCEval([b \in 1..(2 * n) |->
                 IF a <= n /\ b = a + n THEN 1 ELSE IF a > n /\ b = a - n THEN s ELSE 0])])
      Z == TLCEval([a \in 1..(2 * n) |-> TLCEval([b \in 1..(2 * n) |-> 0])])
  IN [kind |-> "pg", R |-> IId(M.dim), c |-> TRUE, a |-> TRUE, Wr |-> B(sq), Wi |-> Z, we |-> 0, z |-> <<B(sq % P), B(sq % P)>>]
JPairing(ev, h) ==
  LET n == Len(ev.syms[1].Wr)
      syms == TLCEval([s \in 1..(Len(ev.syms) + 1) |-> IF s <= Len(ev.syms) THEN ExtSym(ev.syms[s]) ELSE PhSym(ev.M, n, ev.square)])
  IN Clauses(FamClauses(ev.M, syms, ev.vars, ev), h)
=============================================================================
