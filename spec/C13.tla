------------------------------- MODULE C13 -------------------------------
(* Continuous generators acting on models:                                   *)
(*   (G H)(k) = i [H, U] + i sum_ij dH/dk_i R_ij k_j,                         *)
(* the derivative at 0 of exp(-i l U) H(exp(i l R) k) exp(i l U).             *)
EXTENDS C12

RECURSIVE DerivAcc(_, _, _, _, _)
(* n runs over the pairs (i, j)                                               *)
DerivAcc(A, x, mom, nv, n) ==
  IF n = 0 THEN TZero
  ELSE LET d == Len(mom)
           i == ((n - 1) \div d) + 1
           j == ((n - 1) % d) + 1
           z == ZMul(ZI, <<A[1][i][j], A[2][i][j]>>)
       IN TAdd(DerivAcc(A, x, mom, nv, n - 1), TScale(z, TShift(TDiff(x.t, mom[i]), KVar(nv, mom[j]))))
CommT(x, U) == TMap(x.t, LAMBDA v : LET H == MofV(x.sh, v) IN VofM(MScale(ZI, MComm(H, U))))
GenT(g, x, mom, nv) ==
  LET a == IF g.R = NoU THEN TZero ELSE DerivAcc(g.R, x, mom, nv, Len(mom) * Len(mom))
      b == IF g.U = NoU THEN TZero ELSE CommT(x, g.U)
  IN TAdd(a, b)
Nonzero(A) == A # NoU /\ ~MIsZero(A)
MinusI == ZNeg(ZI)
Bracket(A, B) == IF A = NoU \/ B = NoU THEN NoU ELSE MScale(MinusI, MComm(A, B))
(* [G_a, G_b] is the generator with -i times the commutators                 *)
GBracket(f, g) == [R |-> Bracket(f.R, g.R), U |-> Bracket(f.U, g.U)]

GenModel(g, x, mom, nv) == [x EXCEPT !.t = GenT(g, x, mom, nv)]
JC13(ev, h) ==
  CASE ev.op = "gen" ->
         LET x == h[ev.x] IN Result(WithKeep([GenModel(ev.g, x, ev.mom, ev.nv) EXCEPT !.fmt = IF GenT(ev.g, x, ev.mom, ev.nv) = TZero THEN ev.res.fmt ELSE IF Nonzero(ev.g.U) THEN FmtMM(x.fmt, "dense", x.sh) ELSE x.fmt], ev.res), ev.res, h)
    [] ev.op = "lie" ->
         LET x == h[ev.x]
             fg == GenT(ev.f, GenModel(ev.g, x, ev.mom, ev.nv), ev.mom, ev.nv)
             gf == GenT(ev.g, GenModel(ev.f, x, ev.mom, ev.nv), ev.mom, ev.nv)
             T(r) == FromTerms(r.t)
         IN Clauses(<< <<"spec-bracket", GenT(GBracket(ev.f, ev.g), x, ev.mom, ev.nv) = TAdd(fg, TNeg(gf))>>,
                       <<"first-order", T(ev.fg) = fg>>, <<"first-order", T(ev.gf) = gf>>,
                       <<"bracket", T(ev.br) = TAdd(fg, TNeg(gf))>> >>, h)
    [] ev.op = "conj-covariance" ->
         (* g (G H) = (g G g^-1) (g H) for a unitary symmetry element g         *)
         LET x == h[ev.x] g == El(ev.g)
             Rg == IF ev.G.R = NoU THEN NoU ELSE MMul(MReal(g.R), MMul(ev.G.R, MReal(pInv(g.R))))
             Ug == IF ev.G.U = NoU THEN NoU ELSE IF g.U = NoU THEN ev.G.U ELSE MMul(g.U, MMul(ev.G.U, MDag(g.U)))
             E == ApplyT(g, GenModel(ev.G, x, ev.mom, ev.nv), ev.mom, ev.nv)
         IN Clauses(<< <<"spec-covariance", GenT([R |-> Rg, U |-> Ug], ApplyG(g, x, ev.mom, ev.nv), ev.mom, ev.nv) = E>>,
                       <<"covariance", FromTerms(ev.left.t) = E>>, <<"covariance", FromTerms(ev.right.t) = E>> >>, h)
    [] OTHER -> JC12(ev, h)
==========================================================================
