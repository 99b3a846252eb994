------------------------------- MODULE C11 -------------------------------
(* Bloch models: the same abstract models and operations; ev.bl states        *)
(* whether the observed result has to be a Bloch model.                      *)
EXTENDS C10
JC11(ev, h) ==
  IF "bl" \in DOMAIN ev /\ ev.res.bloch # ev.bl THEN Bad("type-of-result", h)
  ELSE CASE ev.op = "recast" -> (* conversion between the two forms           *)
              ResultK(h[ev.x], ev.res, h)
         [] ev.op = "alias" -> (* the session forgets x and refers to y instead *)
              Ok([h EXCEPT ![ev.x] = h[ev.y]])
         [] ev.op = "items" -> (* number of stored terms and their identity    *)
              Clauses(<< <<"number-of-terms", ev.n = Cardinality(DOMAIN h[ev.x].t)>> >>, h)
         [] ev.op = "bceq" -> (* Bloch coefficients: equality within tolerance,  *)
              (* hashes of equal ones agree; ev.same is what the inputs are      *)
              Clauses(<< <<"coefficient-equality", ev.eq = ev.same>>, <<"coefficient-inequality", ev.ne = ~ev.same>>,
                         <<"coefficient-hash", ev.same => ev.hash>>, <<"coefficient-in-dict", ev.found = ev.same>> >>, h)
         [] ev.op = "bcmul" -> (* product of coefficients: exponents add          *)
              LET K(x) == <<x[1], x[2]>>
              IN Clauses(<< <<"coefficient-product", KMul(K(ev.x), K(ev.y)) = K(ev.res)>> >>, h)
         [] OTHER -> JC10(ev, h)
==========================================================================
