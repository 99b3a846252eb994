------------------------------- MODULE C07 -------------------------------
(* Symmetries built from permutations of sites.                             *)
EXTENDS Frame, PointGroup

Rec(o) == Elem(o.R, o.c, o.a, o.U, o.s)

Sum(n, k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + n[i] IN S(k)
(* site and index inside the site of an orbital                             *)
SiteOf(n, x) == CHOOSE a \in 1..Len(n) : Sum(n, a - 1) < x /\ x <= Sum(n, a)
(* perm[a]: image of site a; on[a]: action from the orbitals of a to those   *)
(* of its image                                                             *)
PermU(n, perm, on) ==
  LET N == Sum(n, Len(n))
      E(e, x, y) == LET a == SiteOf(n, y) b == SiteOf(n, x)
                    IN IF perm[a] = b THEN on[a][e][x - Sum(n, b - 1)][y - Sum(n, a - 1)] ELSE 0
      C(e) == TLCEval([x \in 1..N |-> TLCEval([y \in 1..N |-> E(e, x, y)])])
  IN <<C(1), C(2)>>
PermElem(p, n) == Elem(p.R, p.c, p.a, PermU(n, p.perm, p.on), FALSE)
(* composition x after y of (permutation, onsite action) pairs               *)
ComposeP(x, y) == [R |-> pMul(x.R, y.R), c |-> XorB(x.c, y.c), a |-> XorB(x.a, y.a),
                   perm |-> [s \in 1..Len(y.perm) |-> x.perm[y.perm[s]]],
                   on |-> [s \in 1..Len(y.perm) |->
                            MMul(x.on[y.perm[s]], IF x.c THEN MConj(y.on[s]) ELSE y.on[s])]]

CmpE(x, r) == IF r.R # x.R THEN "space-part"
              ELSE IF r.c # x.c THEN "conjugation-flag"
              ELSE IF r.a # x.a THEN "antisymmetry-flag"
              ELSE IF r.U # x.U THEN "unitary-part" ELSE "ok"

JC07(ev, h) ==
  CASE ev.op = "perm" -> (* heap: the abstract permutations *)
         LET x == PermElem(ev.p, ev.n)
             c == CmpE(x, ev.res)
         IN IF c # "ok" THEN Bad(c, h)
            ELSE IF (\A a \in 1..Len(ev.p.on) : MIsUnitary(ev.p.on[a])) /\ ~MIsUnitary(ev.res.U) THEN Bad("not-unitary", h)
            ELSE Ok(Append(h, ev.p))
    [] ev.op = "compose" -> LET c == CmpE(PermElem(ComposeP(h[ev.x], h[ev.y]), ev.n), ev.res)
                            IN IF c = "ok" THEN Ok(h) ELSE Bad("composition-" \o c, h)
    [] ev.op = "hopping" -> (* hopping E from site b to site a is mapped to one from pi(b) to pi(a) *)
         LET p == h[ev.x] n == ev.n
             M == IF p.c THEN MConj(ev.E) ELSE ev.E
             H1 == MMul(MMul(p.on[ev.a], M), MDag(p.on[ev.b]))
             N == Sum(n, Len(n))
             X == p.perm[ev.a] Y == p.perm[ev.b]
             W(e) == [i \in 1..N |-> [j \in 1..N |->
                        IF SiteOf(n, i) = X /\ SiteOf(n, j) = Y THEN H1[e][i - Sum(n, X - 1)][j - Sum(n, Y - 1)] ELSE 0]]
             Z == <<W(1), W(2)>>
         IN Clauses(<< <<"hopping-image", ev.res = IF p.a THEN MNeg(Z) ELSE Z>> >>, h)
    [] ev.op = "rejects" -> Clauses(<< <<"invalid-input-accepted", \A i \in 1..Len(ev.raised) : ev.raised[i]>> >>, h)
    [] ev.op = "unchanged" -> Clauses(<< <<"argument-changed", ev.same>> >>, h)
==========================================================================
