-------------------------------- MODULE C24 --------------------------------
EXTENDS Lattice, Frame
(* B: lattice basis handed to the library; R: another basis of the same        *)
(* lattice in which the enumeration is carried out, B = U R (witness).          *)
WitnessOk(ev) == IMulM(ev.U, ev.R) = ev.B /\ IAbs(IDet(ev.U)) = 1

JLLL(ev, h) ==
  LET C == IT(ev.coefs)                      \* reduced = coefs^T * basis
      V == IMulM(C, ev.B)
  IN Clauses(<< <<"raised", ~ev.raised>>,
                <<"shape", Len(ev.coefs) = Len(ev.B) /\ \A i \in 1..Len(ev.coefs) : Len(ev.coefs[i]) = Len(ev.B)>>,
                <<"not-the-same-lattice", IAbs(IDet(ev.coefs)) = 1>>,
                <<"coefficients-do-not-relate-the-bases", V = ev.vecs /\ ev.exact>>,
                <<"minors", Minors(ev.vecs, ev.d)>>,
                <<"not-reduced", CRed(ev.d, ev.cn, ev.cd, FALSE)>> >>, h)
JIsRed(ev, h) == Clauses(<< <<"minors", Minors(ev.B, ev.d)>>, <<"is-c-reduced-wrong", ev.out = CRed(ev.d, ev.cn, ev.cd, TRUE)>> >>, h)

(* coefficients of library points in the basis R: x_R = x_B U                   *)
Tr(ev, x) == IVecM(x, ev.U)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
JCvp(ev, h) ==
  LET G == IGram(ev.R)
      t == IVecM(ev.t, ev.U)
      pts == TLCEval([i \in 1..Len(ev.out) |-> Tr(ev, ev.out[i])])
      ds == TLCEval([i \in 1..Len(pts) |-> Dist2(G, pts[i], t, ev.q)])
      n == Len(pts)
      D == ds[n]
      all == Within(G, t, ev.q, D)
      dset == {Dist2(G, x, t, ev.q) : x \in all}
  IN Clauses(<< <<"witness", WitnessOk(ev)>>,
                <<"raised", ~ev.raised>>,
                <<"empty", n > 0>>,
                <<"far", ~ev.far>>,
                <<"farther-than-necessary", D <= ev.dmax>>,
                <<"repeated", Distinct(pts)>>,
                <<"not-sorted", \A i \in 1..(n - 1) : ds[i] <= ds[i + 1]>>,
                <<"wrong-number", IF ev.group THEN Cardinality(dset) = ev.n /\ Cardinality(all) = n ELSE n = ev.n>>,
                <<"nearer-vector-missed", \A x \in all : Dist2(G, x, t, ev.q) < D => \E i \in 1..n : pts[i] = x>> >>, h)

Parity(x) == TLCEval([i \in 1..Len(x) |-> x[i] % 2])
Neg(x) == TLCEval([i \in 1..Len(x) |-> -x[i]])
Pow2(n) == LET RECURSIVE Q(_) Q(k) == IF k = 0 THEN 1 ELSE 2 * Q(k - 1) IN Q(n)
JVoronoi(ev, h) ==
  LET G == IGram(ev.R)
      r == Len(ev.R)
      zero == TLCEval([i \in 1..r |-> 0])
      v == TLCEval([i \in 1..Len(ev.out) |-> Tr(ev, ev.out[i])])
      m == Len(v) \div 2
      classes == {p \in [1..r -> {0, 1}] : \E i \in 1..r : p[i] # 0}
      nrm(x) == Dist2(G, x, zero, 1)
      (* the shortest vectors of a class of L / 2L; ev.bound bounds them all     *)
      ball == TLCEval(Within(G, zero, 1, ev.bound))
      Short(p) == LET cls == {x \in ball : \A i \in 1..r : x[i] % 2 = p[i]} IN {x \in cls : \A y \in cls : nrm(x) <= nrm(y)}
      shorts == TLCEval([p \in classes |-> TLCEval(Short(p))])
      relevant == {p \in classes : Cardinality(shorts[p]) = 2}
      covers(x) == x \in shorts[Parity(x)]
  IN Clauses(<< <<"witness", WitnessOk(ev)>>,
                <<"bound", \A p \in classes : Cardinality(shorts[p]) > 0>>,
                <<"raised", ~ev.raised>>,
                <<"far", ~ev.far>>,
                <<"not-paired", Len(v) = 2 * m /\ \A i \in 1..m : v[m + i] = Neg(v[i])>>,
                <<"null-vector", \A i \in 1..m : Parity(v[i]) \in classes>>,
                <<"repeated", Distinct(v)>>,
                <<"not-shortest-of-its-class", \A i \in 1..m : covers(v[i])>>,
                <<"wrong-number", m = IF ev.reduced THEN Cardinality(relevant) ELSE Pow2(r) - 1>>,
                <<"class-missed", \A p \in (IF ev.reduced THEN relevant ELSE classes) : \E i \in 1..m : Parity(v[i]) = p>> >>, h)
JReject(ev, h) == Clauses(<< <<"invalid-input-accepted", ev.raised>> >>, h)

JC24(ev, h) == CASE ev.op = "lll" -> JLLL(ev, h)
                 [] ev.op = "isred" -> JIsRed(ev, h)
                 [] ev.op = "cvp" -> JCvp(ev, h)
                 [] ev.op = "voronoi" -> JVoronoi(ev, h)
                 [] ev.op = "reject" -> JReject(ev, h)
=============================================================================
