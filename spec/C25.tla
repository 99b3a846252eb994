-------------------------------- MODULE C25 --------------------------------
(* Linear solvers.  Inputs are (Gaussian) integer matrices; the dimensions of  *)
(* the solution spaces are decided exactly (modulo P).  Results are fixed point *)
(* numbers (scale xs) that have to solve the equations up to rounding.  Complex *)
(* unknowns count as two real ones.                                            *)
EXTENDS Family

RankP(vs) == Len(RREF(SelectSeq(TLCEval([i \in 1..Len(vs) |-> TLCEval([k \in 1..Len(vs[i]) |-> vs[i][k] % P])]), LAMBDA r : \E x \in 1..Len(r) : r[x] # 0)))
D(f, v) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + (IF f[k] = 0 THEN 0 ELSE f[k] * v[k]) IN S(Len(f))
A1(f) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Abs(f[k]) IN S(Len(f))
SolvesAll(rows, x) == \A i \in 1..Len(rows) : Abs(D(rows[i], x)) <= A1(rows[i]) + 1
Negv(v) == [i \in 1..Len(v) |-> -v[i]]
(* real rows of a complex system (ar + i ai)(x + i y) = 0                       *)
CRows(ar, ai) == [i \in 1..Len(ar) |-> ar[i] \o Negv(ai[i])] \o [i \in 1..Len(ar) |-> ai[i] \o ar[i]]
JNull(ev, h) ==
  LET rows == CRows(ev.re, ev.im)
      n == ev.cols
      rk == RankP(rows) \div 2
      out == ev.out
      sz(x) == Len(x) = 2 * n
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"shape", \A i \in 1..Len(out) : sz(out[i])>>,
                <<"not-in-the-null-space", \A i \in 1..Len(out) : SolvesAll(rows, out[i])>>,
                <<"linearly-dependent", ev.rank = Len(out)>>,
                <<"wrong-dimension", Len(out) = IF ev.kmax > 0 /\ ev.kmax < n - rk THEN ev.kmax ELSE n - rk>>,
                <<"complement-dimension", ev.hasc => Len(ev.comp) = rk>>,
                (* orthonormal, orthogonal to the null space                     *)
                <<"complement-not-orthonormal", ev.hasc => \A i, j \in 1..Len(ev.comp) :
                     /\ Abs(D(ev.comp[i], ev.comp[j]) - (IF i = j THEN ev.xs * ev.xs ELSE 0)) <= A1(ev.comp[i]) + A1(ev.comp[j]) + 2 * n
                     /\ Abs(D(ev.comp[i], SubSeq(ev.comp[j], n + 1, 2 * n) \o Negv(SubSeq(ev.comp[j], 1, n)))) <= A1(ev.comp[i]) + A1(ev.comp[j]) + 2 * n>>,
                <<"complement-not-orthogonal", ev.hasc => \A i \in 1..Len(ev.comp) : \A j \in 1..Len(out) :
                     /\ Abs(D(ev.comp[i], out[j])) <= A1(ev.comp[i]) + A1(out[j]) + 2 * n
                     /\ Abs(D(ev.comp[i], SubSeq(out[j], n + 1, 2 * n) \o Negv(SubSeq(out[j], 1, n)))) <= A1(ev.comp[i]) + A1(out[j]) + 2 * n>> >>, h)

(* rows of the equations X L = R X, or X L = R X* if cj                         *)
SylRows(n, L, R, cj) ==
  LET s == IF cj THEN -1 ELSE 1
      p(k) == ((k - 1) \div n) + 1
      q(k) == ((k - 1) % n) + 1
      Re(i, j) == TLCEval([k \in 1..(n * n) |-> (IF p(k) = i THEN L.re[q(k)][j] ELSE 0) - (IF q(k) = j THEN R.re[i][p(k)] ELSE 0)])
                  \o TLCEval([k \in 1..(n * n) |-> -(IF p(k) = i THEN L.im[q(k)][j] ELSE 0) + s * (IF q(k) = j THEN R.im[i][p(k)] ELSE 0)])
      Im(i, j) == TLCEval([k \in 1..(n * n) |-> (IF p(k) = i THEN L.im[q(k)][j] ELSE 0) - (IF q(k) = j THEN R.im[i][p(k)] ELSE 0)])
                  \o TLCEval([k \in 1..(n * n) |-> (IF p(k) = i THEN L.re[q(k)][j] ELSE 0) - s * (IF q(k) = j THEN R.re[i][p(k)] ELSE 0)])
  IN [m \in 1..(n * n) |-> Re(p(m), q(m))] \o [m \in 1..(n * n) |-> Im(p(m), q(m))]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
HermRows(n) ==
  LET p(k) == ((k - 1) \div n) + 1
      q(k) == ((k - 1) % n) + 1
      t(k) == (q(k) - 1) * n + p(k)
      e(k, l, s) == TLCEval([i \in 1..(2 * n * n) |-> (IF i = k THEN 1 ELSE 0) + (IF i = l THEN s ELSE 0)])
  IN [k \in 1..(n * n) |-> e(k, t(k), -1)] \o [k \in 1..(n * n) |-> e(n * n + k, n * n + t(k), 1)]
TraceRows(n) == LET d(o) == TLCEval([i \in 1..(2 * n * n) |-> IF i > o /\ i <= o + n * n /\ (i - o - 1) % (n + 1) = 0 THEN 1 ELSE 0])
                IN << d(0), d(n * n) >>
RECURSIVE AllEq(_, _)
AllEq(ev, k) == IF k = 0 THEN <<>> ELSE AllEq(ev, k - 1) \o SylRows(ev.n, ev.L[k], ev.R[k], ev.conj[k])
JSolve(ev, h) ==
  LET rows == AllEq(ev, Len(ev.L)) \o (IF ev.herm THEN HermRows(ev.n) ELSE <<>>) \o (IF ev.traceless THEN TraceRows(ev.n) ELSE <<>>)
      dim == (2 * ev.n * ev.n - RankP(rows)) \div (IF ev.realspace THEN 1 ELSE 2)
      out == ev.out
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"not-a-solution", \A i \in 1..Len(out) : SolvesAll(rows, out[i])>>,
                <<"linearly-dependent", ev.rank = Len(out)>>,
                <<"wrong-dimension", Len(out) = IF ev.kmax > 0 /\ ev.kmax < dim THEN ev.kmax ELSE dim>> >>, h)

JBasis(ev, h) ==
  LET n == ev.n
      N2 == n * n
      out == ev.out          \* integer vectors (re, im)
      dim == IF ev.real THEN (IF ev.anti THEN (n * (n - 1)) \div 2 ELSE (n * (n + 1)) \div 2 - (IF ev.traceless /\ n > 0 THEN 1 ELSE 0))
             ELSE N2 - (IF ev.traceless /\ n > 0 THEN 1 ELSE 0)
      t(k) == ((k - 1) % n) * n + ((k - 1) \div n) + 1
      s == IF ev.anti THEN -1 ELSE 1
  IN Clauses(<< <<"type", ev.typeok>>,
                <<"not-hermitian", \A i \in 1..Len(out) : \A k \in 1..N2 : out[i][k] = s * out[i][t(k)] /\ out[i][N2 + k] = -s * out[i][N2 + t(k)]>>,
                <<"not-traceless", ev.traceless => \A i \in 1..Len(out) : \A r \in 1..2 : D(TraceRows(n)[r], out[i]) = 0>>,
                <<"not-real", ev.real => \A i \in 1..Len(out) : \A k \in 1..N2 : out[i][N2 + k] = 0>>,
                <<"wrong-number", Len(out) = dim>>,
                <<"linearly-dependent", RankP(out) = Len(out)>> >>, h)

(* Reduced row echelon form: red = S m, pivots 1, cleared columns, staircase.   *)
Pivot(ev, i) == LET nz == {k \in 1..ev.cols : Abs(ev.red[i][k]) > ev.tol \/ Abs(ev.redi[i][k]) > ev.tol} IN IF nz = {} THEN 0 ELSE CHOOSE k \in nz : \A l \in nz : k <= l
JRref(ev, h) ==
  LET n == Len(ev.red)
      rk == RankP(CRows(ev.re, ev.im)) \div 2
      pv == TLCEval([i \in 1..n |-> Pivot(ev, i)])
      one(i, k) == Abs(ev.red[i][k] - ev.xs) <= ev.tol /\ Abs(ev.redi[i][k]) <= ev.tol
      nul(i, k) == Abs(ev.red[i][k]) <= ev.tol /\ Abs(ev.redi[i][k]) <= ev.tol
      col(A, k) == [i \in 1..Len(A) |-> A[i][k]]
      (* red = S m; S comes from the library or is a witness                     *)
      Rel(i, k) == Abs(D(col(ev.re, k), ev.S[i]) - D(col(ev.im, k), ev.Si[i]) - ev.red[i][k]) <= A1(col(ev.re, k)) + A1(col(ev.im, k)) + ev.tol
      Reli(i, k) == Abs(D(col(ev.re, k), ev.Si[i]) + D(col(ev.im, k), ev.S[i]) - ev.redi[i][k]) <= A1(col(ev.re, k)) + A1(col(ev.im, k)) + ev.tol
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"number-of-rows", ev.drop \/ n = Len(ev.re)>>,
                <<"rank", Cardinality({i \in 1..n : pv[i] # 0}) = rk>>,
                <<"zero-rows-not-last-or-not-removed", \A i \in 1..n : pv[i] # 0 <=> i <= rk>>,
                <<"zero-rows-kept", ev.drop => n = rk>>,
                <<"not-echelon", \A i \in 1..(rk - 1) : pv[i] < pv[i + 1]>>,
                <<"pivot-not-one", \A i \in 1..rk : one(i, pv[i])>>,
                <<"pivot-column-not-cleared", \A i \in 1..rk : \A j \in 1..n : j # i => nul(j, pv[i])>>,
                <<"rows-not-in-the-row-span", \A i \in 1..n : \A k \in 1..ev.cols : Rel(i, k) /\ Reli(i, k)>>,
                <<"transformation-singular", ev.hasS => ev.Srank = n>> >>, h)

JDiag(ev, h) ==
  LET nb == Len(ev.blocks)      \* joint eigenvalues and sizes of the blocks
      Mult(l) == Cardinality({i \in 1..Len(ev.joint) : ev.joint[i] = l})
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"not-unitary", ev.unitary>>,
                <<"not-eigenvectors", ev.eigen>>,
                <<"eigenspace-split", \A i, j \in 1..nb : i # j => ev.blocks[i].l # ev.blocks[j].l>>,
                <<"eigenspaces", \A i \in 1..nb : ev.blocks[i].n = Mult(ev.blocks[i].l) /\ ev.blocks[i].n > 0>>,
                <<"eigenspace-missed", \A i \in 1..Len(ev.joint) : \E j \in 1..nb : ev.blocks[j].l = ev.joint[i]>> >>, h)

JProp(ev, h) ==
  LET A == ev.A  n == Len(A.re)
      prop == \A i, j \in 1..n : A.re[i][j] = (IF i = j THEN A.re[1][1] ELSE 0) /\ A.im[i][j] = (IF i = j THEN A.im[1][1] ELSE 0)
  IN Clauses(<< <<"proportionality", ev.prop = prop>>,
                <<"factor", prop => ev.re = A.re[1][1] /\ ev.im = A.im[1][1]>> >>, h)
(* |a - b| <= atol + rtol * largest entry, all as integers over the denominator den *)
MaxAbs(v) == MaxS({Abs(v[i]) : i \in 1..Len(v)} \cup {0})
JClose(ev, h) ==
  LET d == MaxAbs(TLCEval([i \in 1..Len(ev.a) |-> ev.a[i] - ev.b[i]]))
      m == IF MaxAbs(ev.a) > MaxAbs(ev.b) THEN MaxAbs(ev.a) ELSE MaxAbs(ev.b)
      lim == ev.atol * ev.rden + ev.rnum * m
  IN Clauses(<< <<"closeness", d * ev.rden # lim => ev.out = (d * ev.rden < lim)>> >>, h)
JEmpty(ev, h) == Clauses(<< <<"empty-closeness", ev.out = (ev.sa = ev.sb)>> >>, h)
JVec(ev, h) ==
  LET nk == ev.nkeys  N2 == ev.n * ev.n
      want(i, c) == LET k == ev.order[((c - 1) \div (2 * N2)) + 1]
                        r == ((c - 1) % (2 * N2)) + 1
                    IN ev.mem[i][k][r]
  IN Clauses(<< <<"rows", Len(ev.out) = Len(ev.mem)>>,
                <<"keys-missed", ev.given \/ \A k \in 1..nk : (\E i \in 1..Len(ev.mem) : A1(ev.mem[i][k]) > 0) => \E o \in 1..Len(ev.order) : ev.order[o] = k>>,
                <<"length", \A i \in 1..Len(ev.out) : Len(ev.out[i]) = 2 * N2 * Len(ev.order)>>,
                <<"entries", \A i \in 1..Len(ev.out) : \A c \in 1..Len(ev.out[i]) : ev.out[i][c] = want(i, c)>> >>, h)
JInv(ev, h) ==
  LET n == Len(ev.A)
      Ap == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> ev.A[i][j]])])
      pr(i, j) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + ev.A[i][k] * ev.out[k][j] IN S(n)
  IN Clauses(<< <<"unimodular-refused", ev.uni => ~ev.raised>>,
                <<"not-refused", ~ev.uni => ev.raised>>,
                <<"inverse", ev.raised \/ \A i, j \in 1..n : pr(i, j) = IF i = j THEN 1 ELSE 0>> >>, h)
JMtm(ev, h) ==
  LET M(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |-> LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + A[i][k] * B[k][j] IN S(Len(B))])])
  IN Clauses(<< <<"mtm", \A k \in 1..Len(ev.B) : ev.out[k] = M(M(ev.a, ev.B[k]), ev.c)>> >>, h)

JC25(ev, h) == CASE ev.op = "null" -> JNull(ev, h)
                 [] ev.op = "solve" -> JSolve(ev, h)
                 [] ev.op = "basis" -> JBasis(ev, h)
                 [] ev.op = "rref" -> JRref(ev, h)
                 [] ev.op = "diag" -> JDiag(ev, h)
                 [] ev.op = "prop" -> JProp(ev, h)
                 [] ev.op = "close" -> JClose(ev, h)
                 [] ev.op = "closeempty" -> JEmpty(ev, h)
                 [] ev.op = "vec" -> JVec(ev, h)
                 [] ev.op = "inv" -> JInv(ev, h)
                 [] ev.op = "mtm" -> JMtm(ev, h)
=============================================================================
