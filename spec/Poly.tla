------------------------------- MODULE Poly -------------------------------
(***************************************************************************)
(* Matrix valued functions of momenta and parameters, as finite maps from   *)
(* canonical keys to values:                                                *)
(*    f = sum_k  x^{k.exps} exp(i k.phs . x)  f.t[k]                         *)
(* A key is <<exps, phs>>: integer exponents and phase coefficients          *)
(* (residues) of the variables of the session.  Values are flat arrays of   *)
(* K (pairs of sequences of residues), the shape is kept aside.  Keys with  *)
(* zero value are dropped, so equality of the maps is equality of functions. *)
(***************************************************************************)
EXTENDS Mat

RECURSIVE Prod(_, _)
Prod(sh, k) == IF k = 0 THEN 1 ELSE Prod(sh, k - 1) * sh[k]
Size(sh) == Prod(sh, Len(sh))

(* flat values                                                              *)
VZero(n) == TLCEval(<<[i \in 1..n |-> 0], [i \in 1..n |-> 0]>>)
VIsZero(v) == \A i \in 1..Len(v[1]) : v[1][i] = 0 /\ v[2][i] = 0
fMap2(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] + b[i]) % P])
VAdd(u, v) == <<fMap2(u[1], v[1]), fMap2(u[2], v[2])>>
fScale(c, a) == TLCEval([i \in 1..Len(a) |-> (c * a[i]) % P])
VScale(z, v) == <<fScale(z[1], v[1]), fScale(z[2], v[2])>>
VNeg(v) == <<fScale(P - 1, v[1]), fScale(P - 1, v[2])>>
VConj(v) == <<v[2], v[1]>>
fHad(a, b) == TLCEval([i \in 1..Len(a) |-> (a[i] * b[i]) % P])
(* elementwise product, scalars broadcast                                   *)
VHad(su, u, sv, v) == IF su = <<>> THEN VScale(<<u[1][1], u[2][1]>>, v)
                      ELSE IF sv = <<>> THEN VScale(<<v[1][1], v[2][1]>>, u)
                      ELSE <<fHad(u[1], v[1]), fHad(u[2], v[2])>>
(* matrix product with numpy rules for one dimensional arrays               *)
MMShape(su, sv) == CASE Len(su) = 2 /\ Len(sv) = 2 -> <<su[1], sv[2]>>
                     [] Len(su) = 2 /\ Len(sv) = 1 -> <<su[1]>>
                     [] Len(su) = 1 /\ Len(sv) = 2 -> <<sv[2]>>
                     [] Len(su) = 1 /\ Len(sv) = 1 -> <<>>
RECURSIVE fDot(_, _, _, _, _, _, _)
fDot(a, b, i, j, n, m, k) == IF k = 0 THEN 0
      ELSE (fDot(a, b, i, j, n, m, k - 1) + a[(i - 1) * n + k] * b[(k - 1) * m + j]) % P
VMatMul(su, u, sv, v) ==
  LET n == su[Len(su)]
      r == IF Len(su) = 2 THEN su[1] ELSE 1
      m == IF Len(sv) = 2 THEN sv[2] ELSE 1
      F(e) == TLCEval([x \in 1..(r * m) |-> fDot(u[e], v[e], ((x - 1) \div m) + 1, ((x - 1) % m) + 1, n, m, n)])
  IN <<F(1), F(2)>>
VT(sh, v) == IF Len(sh) < 2 THEN v
             ELSE LET F(e) == TLCEval([x \in 1..(sh[1] * sh[2]) |->
                                 v[e][((x - 1) % sh[1]) * sh[2] + ((x - 1) \div sh[1]) + 1]])
                  IN <<F(1), F(2)>>
RECURSIVE fTr(_, _, _)
fTr(a, n, k) == IF k = 0 THEN 0 ELSE (fTr(a, n, k - 1) + a[(k - 1) * n + k]) % P
VTr(sh, v) == <<<<fTr(v[1], sh[1], sh[1])>>, <<fTr(v[2], sh[1], sh[1])>>>>
VofM(A) == LET m == Cols(A[1])
               F(e) == TLCEval([x \in 1..(Len(A[1]) * m) |-> A[e][((x - 1) \div m) + 1][((x - 1) % m) + 1]])
           IN <<F(1), F(2)>>
MofV(sh, v) == LET F(e) == TLCEval([i \in 1..sh[1] |-> TLCEval([j \in 1..sh[2] |-> v[e][(i - 1) * sh[2] + j]])])
               IN <<F(1), F(2)>>

(* keys                                                                     *)
KOne(nv) == <<[i \in 1..nv |-> 0], [i \in 1..nv |-> 0]>>
KMul(k, l) == TLCEval(<<TLCEval([i \in 1..Len(k[1]) |-> k[1][i] + l[1][i]]), TLCEval([i \in 1..Len(k[2]) |-> (k[2][i] + l[2][i]) % P])>>)
KConj(k) == TLCEval(<<k[1], TLCEval([i \in 1..Len(k[2]) |-> (P - k[2][i]) % P])>>)

(* maps                                                                     *)
Drop(t) == LET D == {k \in DOMAIN t : ~VIsZero(t[k])} IN TLCEval([k \in D |-> t[k]])
RECURSIVE SumIdx(_, _, _, _)
(* sum of the values of the entries of a JSON term list with a given key    *)
SumIdx(ts, k, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF <<ts[i][1], ts[i][2]>> = k
       THEN SumIdx(ts, k, i + 1, IF acc = <<>> THEN <<ts[i][3], ts[i][4]>> ELSE VAdd(acc, <<ts[i][3], ts[i][4]>>))
       ELSE SumIdx(ts, k, i + 1, acc)
FromTerms(ts) == LET D == {<<ts[i][1], ts[i][2]>> : i \in 1..Len(ts)}
                 IN Drop([k \in D |-> SumIdx(ts, k, 1, <<>>)])
(* keys of a projected model are pairwise distinct                          *)
DistinctKeys(ts) == Cardinality({<<ts[i][1], ts[i][2]>> : i \in 1..Len(ts)}) = Len(ts)

TAdd(f, g) == Drop([k \in DOMAIN f \cup DOMAIN g |->
                IF k \in DOMAIN f THEN (IF k \in DOMAIN g THEN VAdd(f[k], g[k]) ELSE f[k]) ELSE g[k]])
TMap(f, Op(_)) == Drop([k \in DOMAIN f |-> Op(f[k])])
TNeg(f) == TMap(f, VNeg)
TScale(z, f) == TMap(f, LAMBDA v : VScale(z, v))
TConj(f) == LET D == {KConj(k) : k \in DOMAIN f} IN TLCEval([k \in D |-> VConj(f[KConj(k)])])
TZero == [k \in {} |-> <<>>]
RECURSIVE SumSet(_, _)
(* S: nonempty set of pairs <<tag, value>>                                  *)
SumSet(S, acc) == IF S = {} THEN acc
                  ELSE LET x == CHOOSE y \in S : TRUE
                       IN SumSet(S \ {x}, IF acc = <<>> THEN x[2] ELSE VAdd(acc, x[2]))
TMul(f, g, Op(_, _)) ==
  LET pairs == TLCEval({<<KMul(k, l), <<k, l>>>> : k \in DOMAIN f, l \in DOMAIN g})
      D == {p[1] : p \in pairs}
  IN Drop([k \in D |-> SumSet({<<p[2], Op(f[p[2][1]], g[p[2][2]])>> : p \in {q \in pairs : q[1] = k}}, <<>>)])
TKeep(f, K) == IF K = {} THEN f ELSE TLCEval([k \in DOMAIN f \cap K |-> f[k]])
TShift(f, key) == LET D == {KMul(k, key) : k \in DOMAIN f}
                  IN TLCEval([k \in D |-> f[CHOOSE l \in DOMAIN f : KMul(l, key) = k]])

(* ---- substitution of variables by scalar polynomials ------------------- *)
(* scalar polynomials: maps from keys to complex numbers                     *)
RECURSIVE ZSum(_, _)
ZSum(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN ZSum(S \ {x}, ZAdd(acc, x[2]))
SMul(f, g) ==
  LET pairs == TLCEval({<<KMul(k, l), <<k, l>>>> : k \in DOMAIN f, l \in DOMAIN g})
      D == {p[1] : p \in pairs}
      h == TLCEval([k \in D |-> ZSum({<<p[2], ZMul(f[p[2][1]], g[p[2][2]])>> : p \in {q \in pairs : q[1] = k}}, Z0)])
  IN TLCEval([k \in {x \in D : h[x] # Z0} |-> h[k]])
RECURSIVE SPow(_, _, _)
(* negative powers only of monomials *)
SInv(f) == LET k == CHOOSE x \in DOMAIN f : TRUE
           IN TLCEval(<<[j \in 1..Len(k[1]) |-> -k[1][j]], [j \in 1..Len(k[2]) |-> (P - k[2][j]) % P]>>) :> ZInv(f[k])
SPow(f, n, nv) == IF n < 0 THEN SPow(SInv(f), -n, nv) ELSE IF n = 0 THEN KOne(nv) :> Z1 ELSE SMul(SPow(f, n - 1, nv), f)
KVar(nv, i) == <<[j \in 1..nv |-> IF i = j THEN 1 ELSE 0], [j \in 1..nv |-> 0]>>

(* sub: sequence over the variables, each a record                          *)
(*   [q: scalar polynomial,                                                 *)
(*    lin: coefficients over the variables of q (only used for phases),     *)
(*    ph: map from phase coefficients d to exp(i d const)]                  *)
RECURSIVE SubMono(_, _, _, _)
SubMono(exps, sub, i, nv) == IF i = 0 THEN KOne(nv) :> Z1
  ELSE IF exps[i] = 0 THEN SubMono(exps, sub, i - 1, nv)
  ELSE SMul(SubMono(exps, sub, i - 1, nv), SPow(sub[i].q, exps[i], nv))
RECURSIVE SubPhase(_, _, _)
SubPhase(phs, sub, i) == IF i = 0 THEN [j \in 1..Len(phs) |-> 0]
  ELSE LET r == SubPhase(phs, sub, i - 1) IN
       IF phs[i] = 0 THEN r ELSE TLCEval([j \in 1..Len(phs) |-> (r[j] + phs[i] * sub[i].lin[j]) % P])
RECURSIVE SubConst(_, _, _)
SubConst(phs, sub, i) == IF i = 0 THEN Z1
  ELSE IF phs[i] = 0 \/ Len(sub[i].ph) = 0 THEN SubConst(phs, sub, i - 1)
  ELSE LET c == CHOOSE x \in 1..Len(sub[i].ph) : sub[i].ph[x][1] = phs[i]
       IN ZMul(SubConst(phs, sub, i - 1), sub[i].ph[c][2])
SubKey(key, sub) ==
  LET nv == Len(key[1])
      m == SubMono(key[1], sub, nv, nv)
      f == <<[j \in 1..nv |-> 0], SubPhase(key[2], sub, nv)>>
      z == SubConst(key[2], sub, nv)
      D == {KMul(k, f) : k \in DOMAIN m}
  IN TLCEval([k \in D |-> ZMul(z, m[CHOOSE l \in DOMAIN m : KMul(l, f) = k])])
RECURSIVE TSubAcc(_, _, _, _)
TSubAcc(ks, f, sub, acc) ==
  IF ks = {} THEN acc
  ELSE LET k == CHOOSE x \in ks : TRUE
           s == SubKey(k, sub)
           part == TLCEval([l \in DOMAIN s |-> VScale(s[l], f[k])])
       IN TSubAcc(ks \ {k}, f, sub, TAdd(acc, part))
TSub(f, sub) == TSubAcc(DOMAIN f, f, sub, TZero)
(* x_i -> sum_j R[i][j] x_j for the momenta listed in mom (variable indices)  *)
RotSub(R, mom, nv) ==
  TLCEval([i \in 1..nv |->
    IF \E a \in 1..Len(mom) : mom[a] = i
    THEN LET a == CHOOSE x \in 1..Len(mom) : mom[x] = i
             D == {b \in 1..Len(mom) : R[a][b] # 0}
         IN [q |-> TLCEval([k \in {KVar(nv, mom[b]) : b \in D} |-> ZReal(R[a][CHOOSE b \in D : KVar(nv, mom[b]) = k])]),
             lin |-> TLCEval([j \in 1..nv |-> IF \E b \in D : mom[b] = j THEN R[a][CHOOSE b \in D : mom[b] = j] ELSE 0]),
             ph |-> <<>>]
    ELSE [q |-> KVar(nv, i) :> Z1, lin |-> [j \in 1..nv |-> IF i = j THEN 1 ELSE 0], ph |-> <<>>]])
TRot(f, R, mom, nv) == TSub(f, RotSub(R, mom, nv))
==========================================================================
