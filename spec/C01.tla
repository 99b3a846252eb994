------------------------------- MODULE C01 -------------------------------
(* Sessions of products, inverses, powers and identities of elements.       *)
EXTENDS Frame, PointGroup

Rec(o) == Elem(o.R, o.c, o.a, o.U, o.s)

(* the recorded result carries the parts of the expected element            *)
CmpE(x, r) == IF r.R # x.R THEN "space-part"
              ELSE IF r.c # x.c THEN "conjugation-flag"
              ELSE IF r.a # x.a THEN "antisymmetry-flag"
              ELSE IF r.U # x.U THEN "unitary-part"
              ELSE IF r.intR /\ ~r.intRok THEN "integer-space-part"
              ELSE "ok"

Step(x, ev, h) == [v |-> CmpE(x, ev.res), h |-> Append(h, x)]

JC01(ev, h) ==
  CASE ev.op = "new" -> Step(Rec(ev.obj), ev, h)
    [] ev.op = "mul" -> Step(EMul(h[ev.x], h[ev.y]), ev, h)
    [] ev.op = "inv" -> Step(EInv(h[ev.x]), ev, h)
    [] ev.op = "pow" -> Step(EPow(h[ev.x], ev.n), ev, h)
    [] ev.op = "id"  -> Step(EId(h[ev.x]), ev, h)
    (* relations the code itself reports between heap objects               *)
    [] ev.op = "assoc" -> LET x == h[ev.x] y == h[ev.y] z == h[ev.z]
                              e == EMul(x, EMul(y, z)) IN
                          IF CmpE(e, ev.left) # "ok" THEN Bad("associativity-left", h)
                          ELSE IF CmpE(e, ev.right) # "ok" THEN Bad("associativity-right", h) ELSE Ok(h)
    [] ev.op = "invid" -> LET i == EId(h[ev.x]) IN
                          IF CmpE(i, ev.left) # "ok" THEN Bad("left-inverse", h)
                          ELSE IF CmpE(i, ev.right) # "ok" THEN Bad("right-inverse", h) ELSE Ok(h)
    [] ev.op = "frame" -> IF \A k \in 1..Len(ev.objs) : CmpE(h[k], ev.objs[k]) = "ok" THEN Ok(h)
                          ELSE Bad("operand-changed", h)
==========================================================================
