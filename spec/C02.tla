------------------------------- MODULE C02 -------------------------------
(* Equality, hash and order tables of lists of elements.                    *)
EXTENDS Frame, Groups

Rec(o) == Elem(o.R, o.c, o.a, o.U, o.s)

JC02(ev, h) ==
  CASE ev.op = "table" ->
         LET n == Len(ev.objs)
             x == [i \in 1..n |-> Rec(ev.objs[i])]
             I == 1..n
             eq == TLCEval([i \in I |-> [j \in I |-> EEq(x[i], x[j])]])
             base == TLCEval([i \in I |-> [j \in I |-> SameBase(x[i], x[j])]])
             lt == ev.lt
             IsId(i) == x[i].R = pId(Len(x[i].R))
         IN Clauses(<<
             <<"equality", \A i, j \in I : ev.eq[i][j] = eq[i][j]>>,
             <<"inequality-is-negation", \A i, j \in I : ev.ne[i][j] = ~eq[i][j]>>,
             <<"hash", \A i, j \in I : eq[i][j] => ev.hash[i] = ev.hash[j]>>,
             <<"order-irreflexive", \A i \in I : ~lt[i][i]>>,
             <<"order-asymmetric", \A i, j \in I : ~(lt[i][j] /\ lt[j][i])>>,
             <<"order-transitive", \A i, j, k \in I : lt[i][j] /\ lt[j][k] => lt[i][k]>>,
             <<"order-total", \A i, j \in I : ~base[i][j] => lt[i][j] \/ lt[j][i]>>,
             <<"order-exact", ev.exact => \A i, j \in I : base[i][j] => ~lt[i][j]>>,
             <<"identity-first", \A i, j \in I :
                  x[i].c = x[j].c /\ x[i].a = x[j].a /\ IsId(i) /\ ~IsId(j) => lt[i][j]>>,
             <<"classes-contiguous", \A i, j, k \in I :
                  lt[i][j] /\ lt[j][k] /\ x[i].c = x[k].c /\ x[i].a = x[k].a => x[j].c = x[i].c /\ x[j].a = x[i].a>>,
             <<"set-size", ev.uniform => ev.setsize =
                  Cardinality({IF x[i].s THEN Canon(x[i]) ELSE BaseOnly(x[i]) : i \in I})>>,
             <<"set-membership", \A i \in I : ev.member[i]>>,
             <<"dict-value", ev.uniform => \A i \in I : eq[i][ev.lookup[i]] /\ \A j \in I : (eq[i][j] => j <= ev.lookup[i])>>,
             <<"sorted", \A i \in 1..(n - 1) : ~lt[ev.sorted[i + 1]][ev.sorted[i]]>>
            >>, h)
    [] ev.op = "scaled" -> (* one of the two carries a multiple of a unitary, |z| # 1 *)
         LET x == Rec(ev.x) y == Rec(ev.y) IN
         Clauses(<< <<"scaled-equality", ev.eq = EEq(x, y) /\ ev.qe = EEq(x, y)>>,
                    <<"scaled-inequality", ev.ne = ~EEq(x, y)>> >>, h)
==========================================================================
