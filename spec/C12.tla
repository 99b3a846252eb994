------------------------------- MODULE C12 -------------------------------
(* Action of symmetry elements on models.                                    *)
(*   (g H)(k) = (+-) U H(R^-1 k) U^dag,  antiunitary: U conj(H(-R^-1 k)) U^dag *)
EXTENDS C11, PointGroup

ApplyT(g, x, mom, nv) ==
  LET Ri == pInv(g.R)
      t1 == TRot(x.t, IF g.c THEN pNeg(Ri) ELSE Ri, mom, nv)
      t2 == IF g.c THEN TConj(t1) ELSE t1
      t3 == IF g.a THEN TNeg(t2) ELSE t2
  IN IF g.U = NoU THEN t3
     ELSE LET Ud == MDag(g.U) IN TMap(t3, LAMBDA v : VofM(MMul(MMul(g.U, MofV(x.sh, v)), Ud)))
ApplyG(g, x, mom, nv) ==
  [x EXCEPT !.t = ApplyT(g, x, mom, nv), !.fmt = IF g.U = NoU THEN @ ELSE FmtMM("dense", @, x.sh)]
El(r) == Elem(r.R, r.c, r.a, r.U, FALSE)

JC12(ev, h) ==
  CASE ev.op = "apply" ->
         LET x == h[ev.x] IN Result(WithKeep(ApplyG(El(ev.g), x, ev.mom, ev.nv), ev.res), ev.res, h)
    [] ev.op = "laws" ->
         (* group action on the specification itself and on observations:      *)
         (* prod = (g f) H,  seq = g (f H),  back = g^-1 (g H),  id = 1 H       *)
         LET x == h[ev.x]
             g == El(ev.g) f == El(ev.f)
             gf == EMul(g, f)
             fx == ApplyG(f, x, ev.mom, ev.nv)
             gfx == ApplyT(gf, x, ev.mom, ev.nv)
             T(r) == FromTerms(r.t)
         IN Clauses(<< <<"spec-action", ApplyT(g, fx, ev.mom, ev.nv) = gfx /\ ApplyT(EInv(f), fx, ev.mom, ev.nv) = x.t>>,
                       <<"product", T(ev.prod) = gfx>>,
                       <<"sequence", T(ev.seq) = gfx>>,
                       <<"inverse", T(ev.back) = x.t>>,
                       <<"identity", T(ev.id) = x.t>> >>, h)
    [] OTHER -> JC11(ev, h)
==========================================================================
