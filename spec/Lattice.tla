------------------------------ MODULE Lattice ------------------------------
(* Exact integer lattice geometry.  A lattice is a sequence of integer vectors *)
(* B (rows).  Points of the enumeration are integer coefficient vectors.        *)
EXTENDS Mat

RECURSIVE IDot(_, _, _)
IDot(a, b, k) == IF k = 0 THEN 0 ELSE IDot(a, b, k - 1) + a[k] * b[k]
IGram(B) == TLCEval([i \in 1..Len(B) |-> TLCEval([j \in 1..Len(B) |-> IDot(B[i], B[j], Len(B[i]))])])
IMulM(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                 LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + A[i][k] * B[k][j] IN S(Len(B))])])
IT(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
IVecM(x, B) == TLCEval([j \in 1..Len(B[1]) |-> LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + x[k] * B[k][j] IN S(Len(B))])
Minor(A, i, j) == TLCEval([a \in 1..(Len(A) - 1) |-> TLCEval([b \in 1..(Len(A) - 1) |->
                    A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]])])
RECURSIVE IDet(_)
IDet(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
           ELSE LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * IDet(Minor(A, 1, j)))
                IN S(Len(A))
Lead(A, k) == TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> A[i][j]])])
IAbs(x) == IF x < 0 THEN -x ELSE x
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b

(* smallest / largest integer x with q*x >= a / q*x <= a                        *)
CeilQ(a, q) == -((-a) \div q)
FloorQ(a, q) == a \div q
RECURSIVE Isqrt(_, _)
Isqrt(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Isqrt(n, r + 1)

(* q^2 times the squared distance of the lattice point x (coefficients) from    *)
(* the point with rational coefficients t/q                                      *)
Dist2(G, x, t, q) == LET d == TLCEval([i \in 1..Len(x) |-> q * x[i] - t[i]])
                         RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + d[i] * IDot(G[i], d, Len(d))
                     IN S(Len(x))
(* Coefficients of all lattice points within squared distance D/q^2: the        *)
(* coefficient i deviates by at most sqrt(D (G^-1)_ii).                          *)
Box(G, t, q, D) ==
  LET n == Len(G)
      det == IDet(G)
      w == TLCEval([i \in 1..n |-> Isqrt((D * IDet(Minor(G, i, i))) \div det, 0)])
      lo == TLCEval([i \in 1..n |-> CeilQ(t[i] - w[i], q)])
      hi == TLCEval([i \in 1..n |-> FloorQ(t[i] + w[i], q)])
      RECURSIVE Pts(_)
      Pts(k) == IF k = 0 THEN {<<>>} ELSE LET pp == Pts(k - 1) IN {Append(p, x) : p \in pp, x \in lo[k]..hi[k]}
  IN Pts(n)
Within(G, t, q, D) == {x \in Box(G, t, q, D) : Dist2(G, x, t, q) <= D}

(* ---- natural numbers beyond 32 bits: limbs to the base 10^4, least first ---- *)
LB == 10000
RECURSIVE NLimbs(_)
NLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % LB>> \o NLimbs(n \div LB)
RECURSIVE NCarry(_, _)
NCarry(s, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE NLimbs(c))
                ELSE LET v == s[1] + c IN <<v % LB>> \o NCarry(Tail(s), v \div LB)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET n == Len(a) + Len(b) - 1
           C(k) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + (IF k + 1 - i >= 1 /\ k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) IN S(Len(a))
       IN NCarry([k \in 1..n |-> C(k)], 0)
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
NLess(a0, b0) == LET a == NTrim(a0) b == NTrim(b0)
                     RECURSIVE L(_) L(k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE L(k - 1)
                 IN IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE L(Len(a))
N(n) == NLimbs(n)

(* c-reduced: the squared lengths of the Gram-Schmidt vectors, r_i =            *)
(* d_i / d_{i-1} with the leading minors d_i, obey r_i < c r_{i+1}, c = cn/cd   *)
RECURSIVE DetP(_)
DetP(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1] % P
           ELSE LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE (S(j - 1) + (IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * (A[1][j] % P) * DetP(Minor(A, 1, j)))) % P
                IN S(Len(A))
(* the minors d come along as witness, verified modulo P                        *)
Minors(B, d) == LET G == IGram(B) IN \A i \in 1..Len(B) : DetP(Lead(G, i)) = d[i] % P
CRed(d, cn, cd, strict) ==
  LET dd(i) == IF i = 0 THEN 1 ELSE d[i]
      l(i) == NMul(N(cd), NMul(N(d[i]), N(d[i])))
      r(i) == NMul(N(cn), NMul(N(dd(i - 1)), N(d[i + 1])))
  IN \A i \in 1..(Len(d) - 1) : IF strict THEN NLess(l(i), r(i)) ELSE ~NLess(r(i), l(i))
=============================================================================
