------------------------------- MODULE C23 -------------------------------
(* Manipulations of families.  Members are integer valued functions: vectors  *)
(* of integers (real and imaginary parts of all matrix entries).  The family   *)
(* operations act on the real linear span.  Results are fixed point numbers    *)
(* (scale xs, normalised); a result is in the span of F if it is the           *)
(* combination of F with the fixed point coefficients that come with it.       *)
EXTENDS Family

VSum(v) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + v[k] IN S(Len(v))
Modv(v) == TLCEval([k \in 1..Len(v) |-> v[k] % P])
RankP(vs) == Len(RREF(SelectSeq(TLCEval([i \in 1..Len(vs) |-> Modv(vs[i])]), LAMBDA r : \E x \in 1..Len(r) : r[x] # 0)))
InSpan(F, o) ==
  LET RECURSIVE C(_, _)
      C(k, i) == IF i = 0 THEN 0 ELSE C(k, i - 1) + o.c[i] * F[i][k]
      RECURSIVE A(_, _)
      A(k, i) == IF i = 0 THEN 0 ELSE A(k, i - 1) + Abs(F[i][k])
  IN Len(o.c) = Len(F) /\ \A k \in 1..Len(o.v) : Abs(o.v[k] - C(k, Len(F))) <= 2 + A(k, Len(F))
Dot(f, v) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + f[k] * v[k] IN S(Len(f))
AbsSum(f) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Abs(f[k]) IN S(Len(f))

JSpan(ev, h) ==
  LET n == Len(ev.out) IN
  Clauses(<< <<"raised", ~ev.raised>>,
             <<"unexpected-terms", ~ev.extra>>,
             <<"not-in-the-span", \A i \in 1..n : InSpan(ev.F, ev.out[i])>>,
             <<"linearly-dependent", ev.rank = n>>,
             <<"span-not-preserved", n = RankP(ev.F)>> >>, h)

GramRank(F, H) == RankP([i \in 1..Len(F) |-> TLCEval([j \in 1..Len(H) |-> Dot(F[i], H[j])])])
JSubtract(ev, h) ==
  LET n == Len(ev.out)
      r1 == RankP(ev.F)  r2 == RankP(ev.H)
      cap == r1 + r2 - RankP(ev.F \o ev.H)
      perp == r1 - GramRank(ev.F, ev.H)
      allowed == cap + perp = r1
  IN Clauses(<< <<"refused-although-a-subfamily", allowed => ~ev.raised>>,
                <<"not-refused", ~allowed => ev.raised>>,
                <<"unexpected-terms", ev.raised \/ ~ev.extra>>,
                <<"not-in-the-span", ev.raised \/ \A i \in 1..n : InSpan(ev.F, ev.out[i])>>,
                <<"not-orthogonal", ev.raised \/ \A i \in 1..n : \A j \in 1..Len(ev.H) : Abs(Dot(ev.H[j], ev.out[i].v)) <= AbsSum(ev.H[j]) + 1>>,
                <<"linearly-dependent", ev.raised \/ ev.rank = n>>,
                <<"wrong-dimension", ev.raised \/ n = perp>> >>, h)

(* ---- symmetry action on integer members (W exact) -------------------------- *)
(* residual  U cc(X)_m - (+/-)(X o sR)_m U  as a sequence of integers          *)
PgResidual(M, Q, g, X) ==
  LET N == M.N
      G3 == <<g.R, g.c, g.a>>
      sg == IF g.c THEN -1 ELSE 1
      RECURSIVE QX(_, _, _, _, _)
      QX(Y, m, a, b, n) == IF n = 0 THEN 0 ELSE QX(Y, m, a, b, n - 1) + (IF Q[n][m] = 0 THEN 0 ELSE Q[n][m] * Y[n][a][b])
      B(Y) == TLCEval([m \in 1..M.n |-> TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> Sgn(M, G3, m) * QX(Y, m, a, b, M.n)])])])
      Br == B(X.re)  Bi == B(X.im)
      RECURSIVE Re(_, _, _, _)
      Re(m, a, b, k) == IF k = 0 THEN 0 ELSE Re(m, a, b, k - 1)
          + g.Wr[a][k] * X.re[m][k][b] - sg * g.Wi[a][k] * X.im[m][k][b] - Br[m][a][k] * g.Wr[k][b] + Bi[m][a][k] * g.Wi[k][b]
      RECURSIVE Im(_, _, _, _)
      Im(m, a, b, k) == IF k = 0 THEN 0 ELSE Im(m, a, b, k - 1)
          + g.Wi[a][k] * X.re[m][k][b] + sg * g.Wr[a][k] * X.im[m][k][b] - Br[m][a][k] * g.Wi[k][b] - Bi[m][a][k] * g.Wr[k][b]
      E(q) == LET m == ((q - 1) \div (N * N)) + 1  a == (((q - 1) \div N) % N) + 1  b == ((q - 1) % N) + 1 IN <<m, a, b>>
      L == M.n * N * N
  IN TLCEval([x \in 1..(2 * L) |-> LET e == E(IF x <= L THEN x ELSE x - L) IN IF x <= L THEN Re(e[1], e[2], e[3], N) ELSE Im(e[1], e[2], e[3], N)])
(* X U - U X + i dX r x                                                       *)
ContResidual(M, T, g, X) ==
  LET N == M.N  d == M.dim
      RECURSIVE W(_, _, _)
      W(m, n, k) == IF k = 0 THEN 0
                    ELSE LET i == ((k - 1) \div d) + 1  j == ((k - 1) % d) + 1
                         IN W(m, n, k - 1) + (IF T[m][i][j] = n THEN M.ex[m][i] * g.r[i][j] ELSE 0)
      WT == TLCEval([m \in 1..M.n |-> TLCEval([n \in 1..M.n |-> IF M.mode # "poly" \/ M.deg[m] # M.deg[n] THEN 0 ELSE W(m, n, d * d)])])
      RECURSIVE DS(_, _, _, _, _)
      DS(Y, n, a, b, m) == IF m = 0 THEN 0 ELSE DS(Y, n, a, b, m - 1) + (IF WT[m][n] = 0 THEN 0 ELSE WT[m][n] * Y[m][a][b])
      RECURSIVE Re(_, _, _, _)
      Re(m, a, b, k) == IF k = 0 THEN 0 ELSE Re(m, a, b, k - 1)
          + X.re[m][a][k] * g.Wr[k][b] - X.im[m][a][k] * g.Wi[k][b] - g.Wr[a][k] * X.re[m][k][b] + g.Wi[a][k] * X.im[m][k][b]
      RECURSIVE Im(_, _, _, _)
      Im(m, a, b, k) == IF k = 0 THEN 0 ELSE Im(m, a, b, k - 1)
          + X.re[m][a][k] * g.Wi[k][b] + X.im[m][a][k] * g.Wr[k][b] - g.Wr[a][k] * X.im[m][k][b] - g.Wi[a][k] * X.re[m][k][b]
      E(q) == LET m == ((q - 1) \div (N * N)) + 1  a == (((q - 1) \div N) % N) + 1  b == ((q - 1) % N) + 1 IN <<m, a, b>>
      L == M.n * N * N
  IN TLCEval([x \in 1..(2 * L) |->
        LET e == E(IF x <= L THEN x ELSE x - L)
        IN IF x <= L THEN Re(e[1], e[2], e[3], N) - DS(X.im, e[1], e[2], e[3], M.n) ELSE Im(e[1], e[2], e[3], N) + DS(X.re, e[1], e[2], e[3], M.n)])
Residual(M, Qs, T, syms, s, X) == IF syms[s].kind = "pg" THEN PgResidual(M, Qs[s], syms[s], X) ELSE ContResidual(M, T, syms[s], X)
AllResiduals(M, Qs, T, syms, X) == LET RECURSIVE A(_) A(s) == IF s = 0 THEN <<>> ELSE A(s - 1) \o Residual(M, Qs, T, syms, s, X) IN A(Len(syms))
Flat(M, X) == LET N == M.N  L == M.n * N * N
                  E(Y, q) == Y[((q - 1) \div (N * N)) + 1][(((q - 1) \div N) % N) + 1][((q - 1) % N) + 1]
              IN TLCEval([x \in 1..(2 * L) |-> IF x <= L THEN E(X.re, x) ELSE E(X.im, x - L)])

(* dimension of the symmetric part of the span: the combinations c with        *)
(* residual zero, minus the combinations that vanish                           *)
JConstrain(ev, h) ==
  LET M == ev.M
      T == IF M.mode = "poly" THEN TgtTable(M) ELSE <<>>
      Qs == Actions(M, ev.syms)
      F == TLCEval([i \in 1..Len(ev.mem) |-> Flat(M, ev.mem[i])])
      Rs == TLCEval([i \in 1..Len(ev.mem) |-> AllResiduals(M, Qs, T, ev.syms, ev.mem[i])])
      rF == RankP(F)
      (* nullity of the residual map minus nullity of the family               *)
      dim == rF - RankP(Rs)
      n == Len(ev.out)
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"unexpected-terms", ~ev.extra>>,
                <<"not-in-the-span", \A i \in 1..n : InSpan(F, ev.out[i])>>,
                <<"symmetry-not-satisfied", \A i \in 1..n : Satisfies(M, Qs, T, ev.syms, ev.outx[i], ev.xs)>>,
                <<"linearly-dependent", rF < Len(F) \/ n = ev.rank>>,
                <<"wrong-dimension", ev.rank = dim>> >>, h)
JCheckSym(ev, h) ==
  LET M == ev.M
      T == IF M.mode = "poly" THEN TgtTable(M) ELSE <<>>
      Qs == Actions(M, ev.syms)
      inv == \A i \in 1..Len(ev.mem) : LET r == AllResiduals(M, Qs, T, ev.syms, ev.mem[i]) IN \A k \in 1..Len(r) : r[k] = 0
  IN Clauses(<< <<"invariant-family-rejected", inv => ~ev.raised>>, <<"asymmetric-family-accepted", ~inv => ev.raised>> >>, h)

(* average over the group: out = |G| times the result.  U is monomial, so the   *)
(* transformed member is  +/- U cc(X o s R^-1) U^-1                            *)
Dag(Wr, Wi) == <<TLCEval([a \in 1..Len(Wr) |-> TLCEval([b \in 1..Len(Wr) |-> Wr[b][a]])]), TLCEval([a \in 1..Len(Wr) |-> TLCEval([b \in 1..Len(Wr) |-> -Wi[b][a]])])>>
JSymmetrize(ev, h) ==
  LET M == ev.M  N == M.N
      (* the residual of Y = gX is zero iff Y is the image of X: use the sum    *)
      Img(g, Y) ==   \* integer matrices of g X
        LET Q == TLCEval(Act(M, g.Rinv))
            G3 == <<g.R, g.c, g.a>>
            sg == IF g.c THEN -1 ELSE 1
            RECURSIVE QX(_, _, _, _, _)
            QX(Z, m, a, b, n) == IF n = 0 THEN 0 ELSE QX(Z, m, a, b, n - 1) + (IF Q[n][m] = 0 THEN 0 ELSE Q[n][m] * Z[n][a][b])
            (* conjugating plane waves flips the hopping, which s R undoes      *)
            Br == TLCEval([m \in 1..M.n |-> TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> Sgn(M, G3, m) * QX(Y.re, m, a, b, M.n)])])])
            Bi == TLCEval([m \in 1..M.n |-> TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |-> sg * Sgn(M, G3, m) * QX(Y.im, m, a, b, M.n)])])])
            D == Dag(g.Wr, g.Wi)
        IN [re |-> TLCEval([m \in 1..M.n |->
                     LET L == ISub(IMul(g.Wr, Br[m]), IMul(g.Wi, Bi[m]))  K == IAdd(IMul(g.Wr, Bi[m]), IMul(g.Wi, Br[m]))
                     IN ISub(IMul(L, D[1]), IMul(K, D[2]))]),
            im |-> TLCEval([m \in 1..M.n |->
                     LET L == ISub(IMul(g.Wr, Br[m]), IMul(g.Wi, Bi[m]))  K == IAdd(IMul(g.Wr, Bi[m]), IMul(g.Wi, Br[m]))
                     IN IAdd(IMul(L, D[2]), IMul(K, D[1]))])]
      RECURSIVE Sum(_)
      Sum(k) == IF k = 0 THEN [x \in 1..(2 * M.n * N * N) |-> 0]
                ELSE LET y == TLCEval(Flat(M, Img(ev.group[k], ev.X)))  s == TLCEval(Sum(k - 1)) IN TLCEval([x \in 1..(2 * M.n * N * N) |-> s[x] + y[x]])
  IN Clauses(<< <<"unexpected-terms", ~ev.extra>>, <<"not-the-group-average", ev.out = Sum(Len(ev.group))>> >>, h)

(* linear combinations: coefficient i is cf[i] (residues) times symbol sy[i]     *)
(* (0: number); out[s+1]: residues of the part proportional to symbol s          *)
JCombine(ev, h) ==
  LET RECURSIVE S(_, _, _, _)
      (* member i as residue of re +- RI im                                     *)
      S(s, k, e, i) == IF i = 0 THEN 0
                       ELSE (S(s, k, e, i - 1) + (IF ev.sy[i] # s THEN 0
                                ELSE ev.cf[i][e] * ((ev.F[i].re[k] + (IF e = 1 THEN 1 ELSE -1) * RI * ev.F[i].im[k]) % P))) % P
  IN Clauses(<< <<"unexpected-terms", ~ev.extra>>,
                <<"wrong-type", ev.type>>,
                <<"not-the-linear-combination", \A s \in 1..Len(ev.out) : \A e \in 1..2 : \A k \in 1..Len(ev.out[s][e]) :
                      ev.out[s][e][k] = S(s - 1, k, e, Len(ev.F))>> >>, h)
JC23(ev, h) ==
  CASE ev.op = "span" -> JSpan(ev, h)
    [] ev.op = "subtract" -> JSubtract(ev, h)
    [] ev.op = "constrain" -> JConstrain(ev, h)
    [] ev.op = "check" -> JCheckSym(ev, h)
    [] ev.op = "symmetrize" -> JSymmetrize(ev, h)
    [] ev.op = "combine" -> JCombine(ev, h)
    [] ev.op = "empty" -> Clauses(<< <<"empty-family-changed", ev.n = ev.want>> >>, h)
==========================================================================
