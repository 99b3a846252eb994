------------------------------- MODULE C28 -------------------------------
(* The symbolic front end: texts and their denotation as operator valued     *)
(* expressions, commutation of selected letters, decomposition into          *)
(* monomials, numerical functions.  Syntax trees:                            *)
(*   n z | v i n | + <<t..>> | * <<t..>> | ^ t n | mat rows | M sh val |       *)
(*   kron t u                                                                *)
EXTENDS Frame, Words

RECURSIVE WEv(_, _, _), WEvSum(_, _, _, _), WEvProd(_, _, _, _), WEvPow(_, _)
WLetter(i, n, nv, nc) ==
  IF i \in nc THEN <<[x \in 1..n |-> i], [x \in 1..nv |-> 0]>> :> Z1
  ELSE <<<<>>, [x \in 1..nv |-> IF x = i THEN n ELSE 0]>> :> Z1
WEvSum(as, i, nv, nc) == IF i = 1 THEN WEv(as[1], nv, nc) ELSE XAdd(WEvSum(as, i - 1, nv, nc), WEv(as[i], nv, nc))
WEvProd(as, i, nv, nc) == IF i = 1 THEN WEv(as[1], nv, nc) ELSE XMul(WEvProd(as, i - 1, nv, nc), WEv(as[i], nv, nc))
WEvPow(b, n) == IF n = 1 THEN b ELSE XMul(WEvPow(b, n - 1), b)
WEv(a, nv, nc) ==
  CASE a[1] = "n" -> XS(WConst(nv, a[2]))
    [] a[1] = "v" -> XS(TLCEval(WLetter(a[2], a[3], nv, nc)))
    [] a[1] = "+" -> WEvSum(a[2], Len(a[2]), nv, nc)
    [] a[1] = "*" -> WEvProd(a[2], Len(a[2]), nv, nc)
    [] a[1] = "^" -> WEvPow(WEv(a[2], nv, nc), a[3])
    [] a[1] = "mat" -> LET n == Len(a[2])  m == Len(a[2][1])
                       IN [sh |-> <<n, m>>, e |-> TLCEval([q \in 1..(n * m) |-> WEv(a[2][((q - 1) \div m) + 1][((q - 1) % m) + 1], nv, nc).e[1]])]
    [] a[1] = "M" -> [sh |-> a[2], e |-> TLCEval([q \in 1..Len(a[3]) |-> WConst(nv, a[3][q])])]
    [] a[1] = "kron" -> XKron(WEv(a[2], nv, nc), WEv(a[3], nv, nc))

(* recorded expressions: terms <<word, exps, z>>                              *)
WRec(ts) == LET D == {<<ts[i][1], ts[i][2]>> : i \in 1..Len(ts)}
                RECURSIVE S(_, _) S(k, i) == IF i = 0 THEN Z0 ELSE ZAdd(S(k, i - 1), IF <<ts[i][1], ts[i][2]>> = k THEN ts[i][3] ELSE Z0)
            IN WClean([k \in D |-> S(k, Len(ts))])
XRec(r) == [sh |-> r.sh, e |-> TLCEval([i \in 1..Len(r.e) |-> WRec(r.e[i])])]
Setof(s) == {s[i] : i \in 1..Len(s)}
(* functions of letters do not commute as long as one argument does not        *)
NcAfter(nc, S, deps) == {l \in nc : l \notin S /\ (deps[l] = <<>> \/ (Setof(deps[l]) \cap nc) \ S # {})}
Same(x, r) == XRec(r) = x

(* heap entries [nc, x]                                                        *)
JC28(ev, h) ==
  CASE ev.op = "sympify" ->
         LET nc == Setof(ev.nc)
             x == WEv(ev.ast, ev.nv, nc)
         IN IF ev.res.sh # x.sh THEN Bad("shape", h)
            ELSE IF ~Same(x, ev.res) THEN Bad("value", h)
            ELSE Ok(Append(h, TLCEval([nc |-> nc, x |-> x])))
    [] ev.op = "commute" ->
         LET o == h[ev.x]
             nc == TLCEval(NcAfter(o.nc, Setof(ev.S), ev.deps))
             x == TLCEval(XMap(o.x, LAMBDA f : WComm(f, nc)))
         IN IF ~Same(x, ev.res) THEN Bad("commuted-value", h)
            ELSE Ok(Append(h, [nc |-> nc, x |-> x]))
    [] ev.op = "monomials" ->
         LET o == h[ev.x]
             S == Setof(ev.gens)
             n == Len(ev.out)
             keyof(i) == LET k == WRec(ev.out[i].key) IN k
             expected == UNION {WMons(o.x.e[j], S) : j \in 1..Len(o.x.e)}
             val(k) == TLCEval([sh |-> o.x.sh, e |-> TLCEval([j \in 1..Len(o.x.e) |-> WRest(o.x.e[j], S, k)])])
         IN Clauses(<< <<"key-not-a-monomial", \A i \in 1..n : Cardinality(DOMAIN keyof(i)) = 1 /\ \A k \in DOMAIN keyof(i) : keyof(i)[k] = Z1 /\ WPick(k, S) = k>>,
                       <<"duplicate-keys", Cardinality({keyof(i) : i \in 1..n}) = n>>,
                       <<"monomial-missing", \A k \in expected : \E i \in 1..n : k \in DOMAIN keyof(i)>>,
                       <<"wrong-coefficient", \A i \in 1..n : \A k \in DOMAIN keyof(i) : XRec(ev.out[i].val) = val(k)>> >>, h)
    [] ev.op = "eval" ->
         LET o == h[ev.x]
         IN IF ev.sh # o.x.sh THEN Bad("evaluated-shape", h)
            ELSE IF \E i \in 1..Len(o.x.e) : WAt(o.x.e[i], ev.at) # ev.val[i] THEN Bad("evaluated-value", h)
            ELSE Ok(h)
    [] ev.op = "args" -> Clauses(<< <<"arguments-of-function", ev.got = ev.want>> >>, h)
    [] ev.op = "pure" -> Clauses(<< <<"arguments-changed", ev.same>>, <<"conversion-rules-of-sympy-changed", ev.rules>> >>, h)
    [] ev.op = "reject" -> Clauses(<< <<"invalid-name-accepted", ev.raised>> >>, h)
    [] ev.op = "again" -> (* an expression goes through unchanged *)
         IF ~Same(h[ev.x].x, ev.res) THEN Bad("expression-changed", h)
         ELSE IF ev.locals # ev.warned THEN Bad("unused-locals-not-reported", h) ELSE Ok(h)
    [] ev.op = "undefined" -> (* functions of a SymPy expression are left to the user *)
         Clauses(<< <<"function-changed", ev.same>>, <<"function-evaluated-by-sympy", ev.left = 0>> >>, h)
    [] ev.op = "gcd" -> (* greatest common divisor of integers *)
         Clauses(<< <<"not-a-divisor", ev.out > 0 /\ \A i \in 1..Len(ev.n) : ev.n[i] % ev.out = 0>>,
                    <<"not-the-greatest", \A d \in (ev.out + 1)..200 : \E i \in 1..Len(ev.n) : ev.n[i] % d # 0>> >>, h)
==========================================================================
