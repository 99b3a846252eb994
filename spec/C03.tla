------------------------------- MODULE C03 -------------------------------
(* generate_group: exact closure.                                           *)
EXTENDS Frame, Groups

Rec(o) == Elem(o.R, o.c, o.a, o.U, o.s)
Recs(s) == {Rec(s[i]) : i \in 1..Len(s)}

JC03(ev, h) ==
  CASE ev.op = "group" ->
         LET strict == ev.strict
             gens == Recs(ev.gens)
             noU == \A g \in gens : g.U = NoU
             full == IF noU THEN ClosureBase(gens) ELSE Closure(gens)
             cl == IF strict \/ noU THEN full ELSE {BaseOnly(x) : x \in full}
             res == TLCEval({Canon(Rec(ev.res[i])) : i \in 1..Len(ev.res)})
             got == IF strict \/ noU THEN res ELSE {BaseOnly(x) : x \in res}
         IN Clauses(<< <<"element-missing", cl \subseteq got>>,
                       <<"element-not-generated", got \subseteq cl>>,
                       <<"duplicate-element", Len(ev.res) = Cardinality(cl)>>,
                       <<"unitary-part", res \subseteq full>>,
                       <<"strictness-lost", strict => \A i \in 1..Len(ev.res) : ev.res[i].s \/ Cardinality(cl) = 1>>,
                       <<"integer-part", \A i \in 1..Len(ev.res) : ev.res[i].intRok>> >>, h)
==========================================================================
