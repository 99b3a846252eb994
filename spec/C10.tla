------------------------------- MODULE C10 -------------------------------
(* Substitution, rotation, differentiation, conversion and evaluation of     *)
(* models.  A substitution is a sequence of steps; every step replaces one   *)
(* variable by a scalar polynomial q (list of terms), which is               *)
(* lin . x + const wherever the variable occurs in an exponent; ph lists     *)
(* exp(i d const) for the occurring coefficients d.                          *)
EXTENDS ModelHeap

QMap(ts) == LET m == FromTerms(ts) IN TLCEval([k \in DOMAIN m |-> <<m[k][1][1], m[k][2][1]>>])
IdSub(nv, i) == [q |-> KVar(nv, i) :> Z1, lin |-> TLCEval([j \in 1..nv |-> IF i = j THEN 1 ELSE 0]), ph |-> <<>>]
One1(st, nv) == TLCEval([i \in 1..nv |-> IF i = st.var THEN [q |-> QMap(st.q), lin |-> st.lin, ph |-> st.ph] ELSE IdSub(nv, i)])
RECURSIVE SubSeq1(_, _, _, _)
SubSeq1(t1, steps, i, nv) == IF i > Len(steps) THEN t1 ELSE SubSeq1(TSub(t1, One1(steps[i], nv)), steps, i + 1, nv)

(* names of the momenta after the steps: a symbol renames, an expression      *)
(* without momenta removes, anything else keeps the momentum                  *)
RemoveName(mom, n) == SelectSeq(mom, LAMBDA m : m # n)
Rename(mom, n, p) == [i \in 1..Len(mom) |-> IF mom[i] = n THEN p ELSE mom[i]]
RECURSIVE MomSeq(_, _, _)
MomSeq(mom, steps, i) ==
  IF i > Len(steps) THEN mom
  ELSE LET st == steps[i]
           m2 == IF st.sym # "" THEN Rename(mom, st.name, st.sym)
                 ELSE IF \E a \in 1..Len(st.occ) : \E b \in 1..Len(mom) : mom[b] = st.occ[a] THEN mom
                 ELSE RemoveName(mom, st.name)
       IN MomSeq(m2, steps, i + 1)

(* derivative with respect to variable i                                      *)
KLower(k, i) == <<[k[1] EXCEPT ![i] = @ - 1], k[2]>>
TDiff(f, i) ==
  LET A == {k \in DOMAIN f : k[1][i] # 0}
      a == TLCEval([l \in {KLower(k, i) : k \in A} |-> LET k == <<[l[1] EXCEPT ![i] = @ + 1], l[2]>> IN VScale(ZReal(k[1][i]), f[k])])
      b == TLCEval([k \in DOMAIN f |-> VScale(ZMul(ZI, ZReal(k[2][i])), f[k])])
  IN TAdd(a, b)
AtOne(t1, nv, n) == IF KOne(nv) \in DOMAIN t1 THEN t1[KOne(nv)] ELSE VZero(n)

JC10(ev, h) ==
  CASE ev.op = "subs" ->
         LET x == h[ev.x]
         IN Result(WithKeep([x EXCEPT !.t = SubSeq1(x.t, ev.steps, 1, ev.nv), !.mom = MomSeq(x.mom, ev.steps, 1)], ev.res), ev.res, h)
    [] ev.op = "rot" -> LET x == h[ev.x] IN Result(WithKeep([x EXCEPT !.t = TRot(x.t, ev.R, ev.mom, ev.nv)], ev.res), ev.res, h)
    [] ev.op = "diff" -> LET x == h[ev.x] IN Result(WithKeep([x EXCEPT !.t = TDiff(x.t, ev.var)], ev.res), ev.res, h)
    [] ev.op = "eval" -> (* all variables are replaced by numbers                *)
         LET x == h[ev.x]
             t1 == SubSeq1(x.t, ev.steps, 1, ev.nv)
         IN Clauses(<< <<"evaluated-shape", ev.sh = x.sh>>,
                       <<"evaluated", DOMAIN t1 \subseteq {KOne(ev.nv)} /\ ev.v = AtOne(t1, ev.nv, Size(x.sh))>> >>, h)
    [] ev.op = "tosympy" -> (* matrix of expressions, split in terms             *)
         LET x == h[ev.x] IN Clauses(<< <<"converted-shape", ev.sh = x.sh>>, <<"converted", FromTerms(ev.t) = x.t>> >>, h)
    [] ev.op = "args" -> Clauses(<< <<"arguments", ev.args = ev.expect>> >>, h)
    [] OTHER -> JModel(ev, h)
==========================================================================
