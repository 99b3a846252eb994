------------------------------- MODULE C21 -------------------------------
(* Tight-binding families: plane waves with integer hopping vectors.  The     *)
(* allowed entries <<hop, row, column>> are recomputed here from the           *)
(* requested hoppings, the site ranges and the generators with their site      *)
(* permutations; the members are judged as in Family.                         *)
EXTENDS Family

(* ev.sites: first and last orbital of each site; ev.req: requested <<a, b, d>> *)
Adj(t) == <<t[2], t[1], [i \in 1..Len(t[3]) |-> -t[3][i]]>>
(* image of a hopping: R^-T d, sites permuted; Rit the inverse transpose      *)
Im(g, t) == <<g.perm[t[1]], g.perm[t[2]],
              TLCEval([i \in 1..Len(t[3]) |-> LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + g.Rit[i][j] * t[3][j] IN S(Len(t[3]))])>>
RECURSIVE HClose(_, _, _)
HClose(all, front, gens) ==
  IF front = {} THEN all
  ELSE LET new == TLCEval({Im(g, t) : g \in gens, t \in front} \ all)
       IN HClose(all \cup new, new, gens)
Requested(ev) ==
  LET d == ev.M.dim
      z == [i \in 1..d |-> 0]
      ons == IF ev.onsites THEN {<<a, a, z>> : a \in 1..Len(ev.sites)} ELSE {}
      r == {ev.req[i] : i \in 1..Len(ev.req)} \cup ons
  IN TLCEval(r \cup {Adj(t) : t \in r})
PgOf(ev) == {s \in 1..Len(ev.syms) : ev.syms[s].kind = "pg"}
Hoppings(ev) == LET r == Requested(ev) IN IF ev.symmetrize THEN TLCEval(HClose(r, r, {ev.syms[s] : s \in PgOf(ev)})) ELSE r
Within(r, i) == r[1] <= i /\ i <= r[2]
EntriesOf(ev) ==
  LET hs == Hoppings(ev)
      (* every hopping must be representable, otherwise the event is malformed *)
      ok == Assert(\A t \in hs : \E m \in 1..ev.M.n : ev.M.hop[m] = t[3], "hoppings missing in the function space")
  IN IF ok THEN TLCEval({<<m, i, j>> \in (1..ev.M.n) \X (1..ev.M.N) \X (1..ev.M.N) :
                    \E t \in hs : t[3] = ev.M.hop[m] /\ Within(ev.sites[t[1]], i) /\ Within(ev.sites[t[2]], j)}) ELSE {}
RitOk(g) == IMul(g.Rit, TLCEval([i \in 1..Len(g.R) |-> TLCEval([j \in 1..Len(g.R) |-> g.R[j][i]])])) = IId(Len(g.R))
JC21(ev, h) ==
  IF ~Assert(\A s \in PgOf(ev) : RitOk(ev.syms[s]), "inverse transpose") THEN Bad("machinery", h)
  ELSE Clauses(FamClauses(ev.M, ev.syms, SeqOf(EntriesOf(ev)), ev), h)
==========================================================================
