------------------------------ MODULE LieAlg ------------------------------
(* Symmetry adapted bases and Lie algebra utilities.                         *)
(* Adapted basis of a family H: blocks B[i][a] (N x n_i isometries, a <= d_i) *)
(* such that the matrix units E_i,ab = B[i][a] B[i][b]^+ are a basis of the   *)
(* commutant of H: they are orthonormal, commute with H and their number is   *)
(* its dimension.  Then H acts in the same way in all copies of a block, the  *)
(* blocks are irreducible and different blocks inequivalent.                  *)
(* Lie algebras are given by Gaussian integer generators.                     *)
EXTENDS Conserved

(* ---- fixed point columns, scale 30000: p.r[x][k], p.i[x][k] ----------------*)
RECURSIVE DotRe(_, _, _, _, _)
DotRe(p, k, q, l, x) == IF x = 0 THEN 0 ELSE DotRe(p, k, q, l, x - 1) + p.r[x][k] * q.r[x][l] + p.i[x][k] * q.i[x][l]
RECURSIVE DotIm(_, _, _, _, _)
DotIm(p, k, q, l, x) == IF x = 0 THEN 0 ELSE DotIm(p, k, q, l, x - 1) + p.r[x][k] * q.i[x][l] - p.i[x][k] * q.r[x][l]
Small4(p) == \A x \in 1..Len(p.r) : \A k \in 1..Len(p.r[x]) : Abs(p.r[x][k]) <= 30003 /\ Abs(p.i[x][k]) <= 30003
(* columns of p and q: orthonormal if same, orthogonal otherwise             *)
Ortho(p, q, same, N) ==
  \A k \in 1..Len(p.r[1]) : \A l \in 1..Len(q.r[1]) :
     /\ Abs(DotRe(p, k, q, l, N) - (IF same /\ k = l THEN 900000000 ELSE 0)) <= 60000 * N
     /\ Abs(DotIm(p, k, q, l, N)) <= 60000 * N
RoundBy(x, s) == IF x >= 0 THEN (x + s \div 2) \div s ELSE -((s \div 2 - x) \div s)
(* p q^+, scale 10^4                                                        *)
RECURSIVE OutRe(_, _, _, _, _)
OutRe(p, q, x, y, k) == IF k = 0 THEN 0 ELSE OutRe(p, q, x, y, k - 1) + p.r[x][k] * q.r[y][k] + p.i[x][k] * q.i[y][k]
RECURSIVE OutIm(_, _, _, _, _)
OutIm(p, q, x, y, k) == IF k = 0 THEN 0 ELSE OutIm(p, q, x, y, k - 1) + p.i[x][k] * q.r[y][k] - p.r[x][k] * q.i[y][k]
UnitRe(p, q, N) == TLCEval([x \in 1..N |-> TLCEval([y \in 1..N |-> RoundBy(OutRe(p, q, x, y, Len(p.r[1])), 90000)])])
UnitIm(p, q, N) == TLCEval([x \in 1..N |-> TLCEval([y \in 1..N |-> RoundBy(OutIm(p, q, x, y, Len(p.r[1])), 90000)])])
Rect(p, N, n) == Len(p.r) = N /\ Len(p.i) = N /\ \A x \in 1..N : Len(p.r[x]) = n /\ Len(p.i[x]) = n
RECURSIVE SumDN(_, _)
SumDN(B, k) == IF k = 0 THEN 0 ELSE SumDN(B, k - 1) + Len(B[k]) * Len(B[k][1].r[1])
RECURSIVE SumDD(_, _)
SumDD(B, k) == IF k = 0 THEN 0 ELSE SumDD(B, k - 1) + Len(B[k]) * Len(B[k])
BCols(B) == UNION {{<<i, a>> : a \in 1..Len(B[i])} : i \in 1..Len(B)}

JReduced(ev, h) ==
  LET M == ev.M  B == ev.B  N == M.N
      c == TLCEval(BCols(B))
  IN Clauses(<< <<"shape", \A i \in 1..Len(B) : Len(B[i]) >= 1 /\ \A a \in 1..Len(B[i]) : Rect(B[i][a], N, Len(B[i][1].r[1])) /\ Small4(B[i][a])>>,
                <<"dimensions-do-not-add-up", SumDN(B, Len(B)) = N>>,
                <<"not-orthonormal", \A x \in c : \A y \in c : Ortho(B[x[1]][x[2]], B[y[1]][y[2]], x = y, N)>>,
                <<"acts-differently-in-copies", \A i \in 1..Len(B) : \A a \in 1..Len(B[i]) :
                     Solves(M, GId(M.dim), UnitRe(B[i][1], B[i][a], N), UnitIm(B[i][1], B[i][a], N))>>,
                <<"blocks-not-irreducible-or-equivalent", SumDD(B, Len(B)) = CommDim(M, TermsOf(M))>> >>, h)

(* ---- adapted basis of generators of su(d) (x) 1_n --------------------------*)
(* P_a^+ g P_b proportional to 1; g.r, g.i integers                           *)
RECURSIVE GPRe(_, _, _, _, _)
GPRe(g, p, x, k, y) == IF y = 0 THEN 0 ELSE GPRe(g, p, x, k, y - 1) + g.r[x][y] * p.r[y][k] - g.i[x][y] * p.i[y][k]
RECURSIVE GPIm(_, _, _, _, _)
GPIm(g, p, x, k, y) == IF y = 0 THEN 0 ELSE GPIm(g, p, x, k, y - 1) + g.r[x][y] * p.i[y][k] + g.i[x][y] * p.r[y][k]
(* scale 10^3                                                               *)
Small3(p) == TLCEval([r |-> TLCEval([x \in 1..Len(p.r) |-> TLCEval([k \in 1..Len(p.r[x]) |-> RoundBy(p.r[x][k], 30)])]),
                      i |-> TLCEval([x \in 1..Len(p.r) |-> TLCEval([k \in 1..Len(p.r[x]) |-> RoundBy(p.i[x][k], 30)])])])
(* P_a^+ g P_b at scale 10^6                                                 *)
Sandwich(g, p, q, N) ==
  LET p3 == Small3(p)  q3 == Small3(q)  n == Len(p.r[1])
      t == TLCEval([r |-> TLCEval([x \in 1..N |-> TLCEval([k \in 1..n |-> GPRe(g, q3, x, k, N)])]),
                    i |-> TLCEval([x \in 1..N |-> TLCEval([k \in 1..n |-> GPIm(g, q3, x, k, N)])])])
  IN TLCEval([r |-> TLCEval([k \in 1..n |-> TLCEval([l \in 1..n |-> DotRe(p3, k, t, l, N)])]),
              i |-> TLCEval([k \in 1..n |-> TLCEval([l \in 1..n |-> DotIm(p3, k, t, l, N)])])])
PropId(m, tol) == \A k, l \in 1..Len(m.r) :
                     IF k = l THEN Abs(m.r[k][k] - m.r[1][1]) <= tol /\ Abs(m.i[k][k] - m.i[1][1]) <= tol
                     ELSE Abs(m.r[k][l]) <= tol /\ Abs(m.i[k][l]) <= tol
MaxG(G) == LET N == Len(G[1].r)
               S == {Abs(G[k].r[x][y]) : k \in 1..Len(G), x \in 1..N, y \in 1..N} \cup {Abs(G[k].i[x][y]) : k \in 1..Len(G), x \in 1..N, y \in 1..N}
           IN CHOOSE m \in S : \A y \in S : y <= m
JSun(ev, h) ==
  LET B == ev.B  N == ev.d * ev.n  n == ev.n  d == ev.d
      tol == TLCEval(1500 * N * (MaxG(ev.G) + 1))
  IN Clauses(<< <<"shape", Len(B) = d /\ \A a \in 1..Len(B) : Rect(B[a], N, n) /\ Small4(B[a])>>,
                <<"not-orthonormal", \A a, b \in 1..d : Ortho(B[a], B[b], a = b, N)>>,
                <<"not-symmetry-adapted", \A k \in 1..Len(ev.G) : \A a, b \in 1..d : PropId(Sandwich(ev.G[k], B[a], B[b], N), tol)>> >>, h)

(* ---- algebra utilities ----------------------------------------------------*)
GN(g) == Len(g.r)
RECURSIVE MulRe(_, _, _, _, _)
MulRe(g, k, x, y, z) == IF z = 0 THEN 0 ELSE MulRe(g, k, x, y, z - 1) + g.r[x][z] * k.r[z][y] - g.i[x][z] * k.i[z][y]
RECURSIVE MulIm(_, _, _, _, _)
MulIm(g, k, x, y, z) == IF z = 0 THEN 0 ELSE MulIm(g, k, x, y, z - 1) + g.r[x][z] * k.i[z][y] + g.i[x][z] * k.r[z][y]
Comm(g, k) == TLCEval([r |-> TLCEval([x \in 1..GN(g) |-> TLCEval([y \in 1..GN(g) |-> MulRe(g, k, x, y, GN(g)) - MulRe(k, g, x, y, GN(g))])]),
                       i |-> TLCEval([x \in 1..GN(g) |-> TLCEval([y \in 1..GN(g) |-> MulIm(g, k, x, y, GN(g)) - MulIm(k, g, x, y, GN(g))])])])
(* sum_c C[c] L_c, Gaussian integer coefficients <<re, im>>                   *)
RECURSIVE CombRe(_, _, _, _, _)
CombRe(C, G, x, y, k) == IF k = 0 THEN 0 ELSE CombRe(C, G, x, y, k - 1) + C[k][1] * G[k].r[x][y] - C[k][2] * G[k].i[x][y]
RECURSIVE CombIm(_, _, _, _, _)
CombIm(C, G, x, y, k) == IF k = 0 THEN 0 ELSE CombIm(C, G, x, y, k - 1) + C[k][1] * G[k].i[x][y] + C[k][2] * G[k].r[x][y]
(* Killing form of structure constants                                       *)
RECURSIVE KRe(_, _, _, _, _)
KRe(C, a, b, q, m) == IF q = 0 THEN 0
   ELSE LET d == ((q - 1) \div m) + 1  e == ((q - 1) % m) + 1
        IN KRe(C, a, b, q - 1, m) + C[a][d][e][1] * C[b][e][d][1] - C[a][d][e][2] * C[b][e][d][2]
RECURSIVE KIm(_, _, _, _, _)
KIm(C, a, b, q, m) == IF q = 0 THEN 0
   ELSE LET d == ((q - 1) \div m) + 1  e == ((q - 1) % m) + 1
        IN KIm(C, a, b, q - 1, m) + C[a][d][e][1] * C[b][e][d][2] + C[a][d][e][2] * C[b][e][d][1]
(* dimension of the span of integer matrices, modulo P                        *)
FlatP(g) == TLCEval([q \in 1..(GN(g) * GN(g)) |->
              LET x == ((q - 1) \div GN(g)) + 1  y == ((q - 1) % GN(g)) + 1 IN (g.r[x][y] + RI * (g.i[x][y] % P)) % P])
RECURSIVE SpanDim(_, _)
SpanDim(todo, done) == IF todo = <<>> THEN Len(done)
                       ELSE LET r == TLCEval(RREF(Append(done, FlatP(Head(todo))))) IN SpanDim(Tail(todo), r)
RECURSIVE CommSeq(_, _, _)
CommSeq(G, a, b) == IF a > Len(G) THEN <<>> ELSE IF b > Len(G) THEN CommSeq(G, a + 1, a + 2)
                    ELSE <<Comm(G[a], G[b])>> \o CommSeq(G, a, b + 1)
DerivedDim(G) == SpanDim(CommSeq(G, 1, 2), <<>>)
(* a fixed point matrix (scale 10^5) commutes with an integer matrix          *)
FixCommutes(X, g) ==
  LET N == GN(g) c == Comm([r |-> X.Ur, i |-> X.Ui], g) tol == 4 * N * (MaxG(<<g>>) + 1)
  IN \A x, y \in 1..N : Abs(c.r[x][y]) <= tol /\ Abs(c.i[x][y]) <= tol
(* trace of the product of two fixed point matrices, scale 10^6               *)
Div100(U) == TLCEval([x \in 1..Len(U) |-> TLCEval([y \in 1..Len(U) |-> RoundBy(U[x][y], 100)])])
TraceOrtho(X, Y) ==
  LET a == [r |-> Div100(X.Ur), i |-> Div100(X.Ui)]  b == [r |-> Div100(Y.Ur), i |-> Div100(Y.Ui)]  N == Len(a.r)
      RECURSIVE TR(_) TR(x) == IF x = 0 THEN 0 ELSE TR(x - 1) + MulRe(a, b, x, x, N)
      RECURSIVE TI(_) TI(x) == IF x = 0 THEN 0 ELSE TI(x - 1) + MulIm(a, b, x, x, N)
  IN Abs(TR(N)) <= 2000 * N * N /\ Abs(TI(N)) <= 2000 * N * N
Ops(L, N) == \A i \in 1..Len(L) : Shape(L[i].Ur, N) /\ Shape(L[i].Ui, N) /\ Bounded(L[i].Ur) /\ Bounded(L[i].Ui)

(* ev.C structure constants, ev.K Killing form (Gaussian integers), ev.centre  *)
(* and ev.semi fixed point elements, .rank their rank and .span whether they    *)
(* lie in the span of the generators; ev.Q Casimir operator (fixed point) or    *)
(* ev.casraised; ev.cas numerator and denominator of its diagonal elements: the *)
(* value of the quadratic Casimir of the representation of each simple factor   *)
JLie(ev, h) ==
  LET G == ev.G  m == Len(G)  N == GN(G[1])
      der == TLCEval(DerivedDim(G))
  IN Clauses(<< <<"structure-constants", \A a, b \in 1..m :
                    LET c == Comm(G[a], G[b])
                    IN \A x, y \in 1..N : c.r[x][y] = CombRe(ev.C[a][b], G, x, y, m) /\ c.i[x][y] = CombIm(ev.C[a][b], G, x, y, m)>>,
                <<"killing-form", \A a, b \in 1..m : ev.K[a][b] = <<KRe(ev.C, a, b, m * m, m), KIm(ev.C, a, b, m * m, m)>> >>,
                <<"shape", Ops(ev.centre, N) /\ Ops(ev.semi, N)>>,
                <<"centre-does-not-commute", \A i \in 1..Len(ev.centre) : \A a \in 1..m : FixCommutes(ev.centre[i], G[a])>>,
                <<"centre-incomplete", Len(ev.centre) = m - der /\ ev.crank = m - der /\ ev.cspan>>,
                <<"semisimple-part-incomplete", Len(ev.semi) = der /\ ev.srank = der /\ ev.sspan>>,
                (* the derived algebra is the orthogonal complement of the centre in the trace form *)
                <<"semisimple-part-is-not-the-derived-algebra", \A i \in 1..Len(ev.semi) : \A j \in 1..Len(ev.centre) : TraceOrtho(ev.semi[i], ev.centre[j])>>,
                <<"casimir-of-algebra-with-centre", ev.casraised = (der < m)>>,
                <<"casimir", ev.casraised \/ \A x, y \in 1..N :
                      Abs(ev.Q.Ur[x][y] - (IF x = y THEN (ev.cas[x][1] * 100000) \div ev.cas[x][2] ELSE 0)) <= 5 /\ Abs(ev.Q.Ui[x][y]) <= 5>> >>, h)
(* generators that do not close under commutation                             *)
JOpen(ev, h) ==
  LET G == ev.G
      closed == SpanDim(G, <<>>) = SpanDim(G \o CommSeq(G, 1, 2), <<>>)
  IN Clauses(<< <<"not-a-lie-algebra-accepted", closed \/ \A i \in 1..Len(ev.raised) : ev.raised[i]>> >>, h)
==========================================================================
