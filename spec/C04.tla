------------------------------- MODULE C04 -------------------------------
(* generate_subgroups: all subgroups, each once, with correct generators.   *)
EXTENDS Frame, Groups

Rec(o) == BaseOnly(Elem(o.R, o.c, o.a, o.U, o.s))

JC04(ev, h) ==
  CASE ev.op = "subgroups" ->
         LET n == Len(ev.objs)
             x == TLCEval([i \in 1..n |-> Rec(ev.objs[i])])
             (* multiplication table; 0 where the product is not in the group *)
             Idx(y) == IF \E k \in 1..n : x[k] = y THEN CHOOSE k \in 1..n : x[k] = y ELSE 0
             T == TLCEval([i \in 1..n |-> [j \in 1..n |-> Idx(EMul(x[i], x[j]))]])
             Set(s) == {s[i] : i \in 1..Len(s)}
             got == {Set(ev.subs[k].members) : k \in 1..Len(ev.subs)}
         IN IF Cardinality({x[i] : i \in 1..n}) # n \/ (\E i, j \in 1..n : T[i][j] = 0)
            THEN Bad("input-group-not-closed", h)
            ELSE LET all == TLCEval(AllSubgroups(T)) IN
              Clauses(<< <<"subgroup-missing", all \subseteq got>>,
                         <<"not-a-subgroup", got \subseteq all>>,
                         <<"subgroup-repeated", Len(ev.subs) = Cardinality(got)>>,
                         <<"members-repeated", \A k \in 1..Len(ev.subs) :
                              Len(ev.subs[k].members) = Cardinality(Set(ev.subs[k].members))>>,
                         <<"generators", \A k \in 1..Len(ev.subs) :
                              LET g == Set(ev.subs[k].gens) IN
                              0 \notin g /\ SubGen(g, T) = Set(ev.subs[k].members)>>,
                         <<"group-changed", ev.same>> >>, h)
==========================================================================
