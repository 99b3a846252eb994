------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Operator valued expressions: polynomials in letters of which some do not *)
(* commute (momentum and position operators, functions of them).  A key is  *)
(* <<word, exps>>: the ordered word of noncommuting letters and the          *)
(* exponents of the commuting ones.  An expression is a finite map from keys *)
(* to nonzero coefficients in K, so equality of maps is equality of          *)
(* expressions.  Matrices are [sh, e]: shape and row-major sequence of maps. *)
(***************************************************************************)
EXTENDS Mat

WKey0(nv) == <<<<>>, [i \in 1..nv |-> 0]>>
WClean(t) == LET D == {k \in DOMAIN t : t[k] # Z0} IN TLCEval([k \in D |-> t[k]])
WZero == <<>>
WConst(nv, z) == IF z = Z0 THEN WZero ELSE TLCEval(WKey0(nv) :> z)
WAdd(f, g) == WClean([k \in DOMAIN f \cup DOMAIN g |->
                IF k \in DOMAIN f THEN (IF k \in DOMAIN g THEN ZAdd(f[k], g[k]) ELSE f[k]) ELSE g[k]])
WKMul(k, l) == TLCEval(<<k[1] \o l[1], TLCEval([i \in 1..Len(k[2]) |-> k[2][i] + l[2][i]])>>)
(* sum of the coefficients that a set of (key, key) pairs sends to each key   *)
WMul(f, g) ==
  LET prs == (DOMAIN f) \X (DOMAIN g)
      D == {WKMul(p[1], p[2]) : p \in prs}
      RECURSIVE S(_)
      S(Q) == IF Q = {} THEN Z0 ELSE LET p == CHOOSE x \in Q : TRUE IN ZAdd(S(Q \ {p}), ZMul(f[p[1]], g[p[2]]))
  IN WClean([k \in D |-> S({p \in prs : WKMul(p[1], p[2]) = k})])
(* image under a map of keys                                                 *)
WImage(f, K(_)) ==
  LET D == {K(k) : k \in DOMAIN f}
      RECURSIVE S(_)
      S(Q) == IF Q = {} THEN Z0 ELSE LET p == CHOOSE x \in Q : TRUE IN ZAdd(S(Q \ {p}), f[p])
  IN WClean([k \in D |-> S({p \in DOMAIN f : K(p) = k})])

(* letters outside of nc become commuting                                     *)
WCount(w, i) == Cardinality({x \in 1..Len(w) : w[x] = i})
WCommKey(k, nc) == TLCEval(<<SelectSeq(k[1], LAMBDA l : l \in nc),
                     TLCEval([i \in 1..Len(k[2]) |-> k[2][i] + (IF i \in nc THEN 0 ELSE WCount(k[1], i))])>>)
WComm(f, nc) == WImage(f, LAMBDA k : WCommKey(k, nc))

(* the letters of a set, and the others, in the order of the term             *)
WPick(k, S) == TLCEval(<<SelectSeq(k[1], LAMBDA l : l \in S), TLCEval([i \in 1..Len(k[2]) |-> IF i \in S THEN k[2][i] ELSE 0])>>)
WRest(f, S, key) == (* coefficient of the monomial key in letters S           *)
  WImage([k \in {x \in DOMAIN f : WPick(x, S) = key} |-> f[k]], LAMBDA k : WPick(k, (1..Len(k[2])) \ S))
WMons(f, S) == {WPick(k, S) : k \in DOMAIN f}

(* value at a point, where everything commutes                                *)
WPowZ(z, n) == LET RECURSIVE Pw(_) Pw(m) == IF m = 0 THEN Z1 ELSE ZMul(Pw(m - 1), z) IN IF n >= 0 THEN Pw(n) ELSE ZInv(LET RECURSIVE Qw(_) Qw(m) == IF m = 0 THEN Z1 ELSE ZMul(Qw(m - 1), z) IN Qw(-n))
WAt(f, v) ==
  LET KV(k) == LET RECURSIVE E(_) E(i) == IF i = 0 THEN Z1 ELSE LET c == k[2][i] + WCount(k[1], i) IN IF c = 0 THEN E(i - 1) ELSE ZMul(E(i - 1), WPowZ(v[i], c)) IN E(Len(k[2]))
      RECURSIVE S(_)
      S(Q) == IF Q = {} THEN Z0 ELSE LET k == CHOOSE x \in Q : TRUE IN ZAdd(S(Q \ {k}), ZMul(f[k], KV(k)))
  IN S(DOMAIN f)

(* ---- matrices --------------------------------------------------------------- *)
XS(f) == TLCEval([sh |-> <<>>, e |-> TLCEval(<<f>>)])
XSize(x) == IF x.sh = <<>> THEN 1 ELSE x.sh[1] * x.sh[2]
XAdd(x, y) == [sh |-> x.sh, e |-> TLCEval([i \in 1..Len(x.e) |-> WAdd(x.e[i], y.e[i])])]
XMap(x, F(_)) == [sh |-> x.sh, e |-> TLCEval([i \in 1..Len(x.e) |-> F(x.e[i])])]
XMul(x, y) ==
  IF x.sh = <<>> THEN [sh |-> y.sh, e |-> TLCEval([i \in 1..Len(y.e) |-> WMul(x.e[1], y.e[i])])]
  ELSE IF y.sh = <<>> THEN [sh |-> x.sh, e |-> TLCEval([i \in 1..Len(x.e) |-> WMul(x.e[i], y.e[1])])]
  ELSE LET n == x.sh[1]  m == x.sh[2]  r == y.sh[2]
           RECURSIVE S(_, _, _)
           S(a, b, k) == IF k = 0 THEN WZero ELSE WAdd(S(a, b, k - 1), WMul(x.e[(a - 1) * m + k], y.e[(k - 1) * r + b]))
       IN [sh |-> <<n, r>>, e |-> TLCEval([q \in 1..(n * r) |-> S(((q - 1) \div r) + 1, ((q - 1) % r) + 1, m)])]
XKron(x, y) ==
  LET n == x.sh[1] * y.sh[1]  m == x.sh[2] * y.sh[2]
  IN [sh |-> <<n, m>>, e |-> TLCEval([q \in 1..(n * m) |->
        LET a == (q - 1) \div m  b == (q - 1) % m
        IN WMul(x.e[(a \div y.sh[1]) * x.sh[2] + (b \div y.sh[2]) + 1], y.e[(a % y.sh[1]) * y.sh[2] + (b % y.sh[2]) + 1])])]
=============================================================================
