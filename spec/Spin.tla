------------------------------ MODULE Spin ------------------------------
(* Rotations and spin representations, exactly in K.                        *)
(* An angle theta is given by its half phase h = exp(i theta/2) in K.       *)
EXTENDS PointGroup

RECURSIVE ZPow(_, _)
ZPow(z, n) == IF n = 0 THEN Z1 ELSE IF n < 0 THEN ZPow(ZConj(z), -n) ELSE ZMul(ZPow(z, n - 1), z)
(* 15 degrees: cos = (sqrt6 + sqrt2)/4, sin = (sqrt6 - sqrt2)/4              *)
R6 == (R2 * R3) % P
Z15 == ZCmp(((R6 + R2) * InvM(4)) % P, ((R6 + P - R2) * InvM(4)) % P)
(* half of the angle with cos 3/5, sin 4/5                                  *)
ZPy == ZCmp((2 * InvM(R5)) % P, InvM(R5))
HalfPhase(k, j) == ZMul(ZPow(Z15, k % 48), ZPow(ZPy, j))   \* Z15^48 = exp(2 pi i * 2) = 1 for half angles
Re(z) == ((z[1] + z[2]) * HalfM) % P
Im(z) == (((z[1] - z[2]) % P) * ((HalfM * InvM(RI)) % P)) % P

Norm2(n) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + n[k] * n[k] IN S(Len(n))
UnitVec(n) == LET q == InvM(SqrtM(Norm2(n))) IN [i \in 1..Len(n) |-> ((n[i] % P) * q) % P]

Rot2(h) == LET z == ZMul(h, h) c == Re(z) s == Im(z) IN <<<<c, (P - s) % P>>, <<s, c>>>>
Cross(n) == <<<<0, (P - n[3]) % P, n[2]>>, <<n[3], 0, (P - n[1]) % P>>, <<(P - n[2]) % P, n[1], 0>>>>
(* Rodrigues formula, n unit vector of residues                             *)
Rot3(h, n) ==
  LET z == ZMul(h, h) c == Re(z) s == Im(z)
      nn == [i \in 1..3 |-> [j \in 1..3 |-> (n[i] * n[j]) % P]]
  IN pAdd(pAdd(pScale(c, pId(3)), pScale((1 - c) % P, nn)), pScale(s, Cross(n)))
Refl(n) == LET d == Len(n) IN
           [i \in 1..d |-> [j \in 1..d |-> ((IF i = j THEN 1 ELSE 0) - 2 * ((n[i] * n[j]) % P)) % P]]

(* Spin-s matrices in the standard basis, twoS = 2s.                        *)
SpinX(twoS) == LET d == twoS + 1
                   e(i) == (HalfM * SqrtM(i * (d - i))) % P      \* <i|Sx|i+1>
                   X == [i \in 1..d |-> [j \in 1..d |-> IF j = i + 1 THEN e(i) ELSE IF i = j + 1 THEN e(j) ELSE 0]]
               IN MReal(X)
SpinY(twoS) == LET d == twoS + 1
                   e(i) == (HalfM * SqrtM(i * (d - i))) % P
                   Y == [i \in 1..d |-> [j \in 1..d |-> IF j = i + 1 THEN (P - e(i)) % P ELSE IF i = j + 1 THEN e(j) ELSE 0]]
               IN MScale(ZI, MReal(Y))
SpinZ(twoS) == LET d == twoS + 1
               IN MReal([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN (HalfM * ((twoS - 2 * (i - 1)) % P)) % P ELSE 0]])
SpinMat(twoS) == <<SpinX(twoS), SpinY(twoS), SpinZ(twoS)>>

(* Generators of real-space rotations, (L_a)_{bc} = -i eps_{abc}            *)
LMat == [a \in 1..3 |-> MScale(ZI, MReal(Cross([b \in 1..3 |-> IF a = b THEN 1 ELSE 0])))]
(* d orbitals as quadratic forms of equal norm                              *)
QForm == LET q == InvM(R3) IN
  << <<<<1,0,0>>,<<0,P-1,0>>,<<0,0,0>>>>,
     <<<<P-q,0,0>>,<<0,P-q,0>>,<<0,0,(2*q) % P>>>>,
     <<<<0,1,0>>,<<1,0,0>>,<<0,0,0>>>>,
     <<<<0,0,0>>,<<0,0,1>>,<<0,1,0>>>>,
     <<<<0,0,1>>,<<0,0,0>>,<<1,0,0>>>> >>
LMatD == [a \in 1..3 |->
   LET g == Cross([b \in 1..3 |-> IF a = b THEN 1 ELSE 0])
       M == [x \in 1..5 |-> [y \in 1..5 |->
               (HalfM * pTr(pMul(QForm[x], pSub(pMul(g, QForm[y]), pMul(QForm[y], g))))) % P]]
   IN MScale(ZI, MReal(M))]

Combine(n, S) == MAdd(MAdd(MScale(ZReal(n[1]), S[1]), MScale(ZReal(n[2]), S[2])), MScale(ZReal(n[3]), S[3]))

(* exp(-i theta N) for Hermitian N with spectrum in {-J..J} in half-integer  *)
(* steps (twoJ = 2J): Lagrange interpolation on the spectrum.                *)
RECURSIVE LagProd(_, _, _)
LagProd(N, m, rest) ==
  IF rest = {} THEN MId(MRows(N))
  ELSE LET k == CHOOSE k \in rest : TRUE
       IN TLCEval(MMul(LagProd(N, m, rest \ {k}),
                  MScale(ZReal(InvM((HalfM * ((m - k) % P)) % P)),
                         MSub(N, MScale(ZReal((HalfM * (k % P)) % P), MId(MRows(N)))))))
RECURSIVE LagSum(_, _, _, _)
LagSum(h, N, ms, rest) ==
  IF rest = {} THEN MZero(MRows(N), MRows(N))
  ELSE LET m == CHOOSE k \in rest : TRUE
       IN TLCEval(MAdd(LagSum(h, N, ms, rest \ {m}), MScale(ZPow(ZConj(h), m), LagProd(N, m, ms \ {m}))))
ExpRot(h, N, twoJ, step) ==
  LET ms == {m \in (-twoJ)..twoJ : (m + twoJ) % step = 0}
  IN LagSum(h, N, ms, ms)

(* angular momentum algebra                                                 *)
AngularMomentum(S) ==
  /\ MComm(S[1], S[2]) = MScale(ZI, S[3])
  /\ MComm(S[2], S[3]) = MScale(ZI, S[1])
  /\ MComm(S[3], S[1]) = MScale(ZI, S[2])
  /\ \A a \in 1..3 : MIsHerm(S[a])
Casimir(S) == MAdd(MAdd(MMul(S[1], S[1]), MMul(S[2], S[2])), MMul(S[3], S[3]))
pDet3(A) == (A[1][1] * ((A[2][2] * A[3][3] - ((A[2][3] * A[3][2]) % P)) % P)
           - ((A[1][2] * ((A[2][1] * A[3][3] - ((A[2][3] * A[3][1]) % P)) % P)) % P)
           + ((A[1][3] * ((A[2][1] * A[3][2] - ((A[2][2] * A[3][1]) % P)) % P)) % P)) % P
pDet(A) == CASE Len(A) = 1 -> A[1][1] [] Len(A) = 2 -> pDet2(A) [] Len(A) = 3 -> pDet3(A)
(* how spins transform under the spatial action R: as an axial vector; in 2D *)
(* the action is extended trivially along z                                  *)
Lift3(R) == IF Len(R) = 3 THEN R
            ELSE <<<<R[1][1], R[1][2], 0>>, <<R[2][1], R[2][2], 0>>, <<0, 0, 1>>>>
Axial(R) == pScale(pDet(R) , Lift3(R))
(* U S_a U^-1 = sum_b Axial[b][a] S_b, reversed (and S conjugated) for antiunitary *)
SpinCovariant(x, S) ==
  LET A == Axial(x.R) IN
  \A a \in 1..3 :
     LET lhs == MMul(MMul(x.U, IF x.c THEN MConj(S[a]) ELSE S[a]), MDag(x.U))
         r == Combine(<<A[1][a], A[2][a], A[3][a]>>, S)
     IN lhs = (IF x.c THEN MNeg(r) ELSE r)
==========================================================================
