------------------------------- MODULE Mat -------------------------------
(* NB: TLC evaluates function constructors lazily, TLCEval only forces one   *)
(* level, so every level is wrapped.                                        *)
(* Matrices over GF(P) ("plain": sequences of rows) and over K (pairs of    *)
(* plain matrices, one per embedding).  A plain matrix also represents a   *)
(* real matrix such as a spatial rotation, whose two embeddings agree.     *)
EXTENDS Fld

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])

RECURSIVE DotAcc(_, _, _, _)
DotAcc(r, B, j, k) == IF k = 0 THEN 0 ELSE (DotAcc(r, B, j, k - 1) + r[k] * B[k][j]) % P

pMul(A, B) == LET m == Cols(B)
              IN TLCEval([i \in 1..Len(A) |-> LET r == A[i] IN TLCEval([j \in 1..m |-> DotAcc(r, B, j, Len(r))])])
pAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> (A[i][j] + B[i][j]) % P])])
pSub(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> (A[i][j] - B[i][j]) % P])])
pScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> (c * A[i][j]) % P])])
pNeg(A) == pScale(P - 1, A)
pT(A) == TLCEval([j \in 1..Cols(A) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
pId(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])
pZero(n, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> 0])])
RECURSIVE pTrAcc(_, _)
pTrAcc(A, k) == IF k = 0 THEN 0 ELSE (pTrAcc(A, k - 1) + A[k][k]) % P
pTr(A) == pTrAcc(A, Len(A))
pIsZero(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : A[i][j] = 0
pNorm(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> A[i][j] % P])])
RECURSIVE VecDot(_, _, _)
VecDot(r, v, k) == IF k = 0 THEN 0 ELSE (VecDot(r, v, k - 1) + r[k] * v[k]) % P
pApply(A, v) == TLCEval([i \in 1..Len(A) |-> VecDot(A[i], v, Len(v))])

(* Complex matrices.                                                       *)
NoU == <<>>
MMul(A, B) == <<pMul(A[1], B[1]), pMul(A[2], B[2])>>
MAdd(A, B) == <<pAdd(A[1], B[1]), pAdd(A[2], B[2])>>
MSub(A, B) == <<pSub(A[1], B[1]), pSub(A[2], B[2])>>
MScale(z, A) == <<pScale(z[1], A[1]), pScale(z[2], A[2])>>
MNeg(A) == <<pNeg(A[1]), pNeg(A[2])>>
MConj(A) == <<A[2], A[1]>>
MT(A) == <<pT(A[1]), pT(A[2])>>
MDag(A) == <<pT(A[2]), pT(A[1])>>
MId(n) == <<pId(n), pId(n)>>
MZero(n, m) == <<pZero(n, m), pZero(n, m)>>
MTr(A) == <<pTr(A[1]), pTr(A[2])>>
MIsZero(A) == pIsZero(A[1]) /\ pIsZero(A[2])
MReal(A) == <<A, A>>
MComm(A, B) == MSub(MMul(A, B), MMul(B, A))
MRows(A) == Len(A[1])
MCols(A) == Cols(A[1])
MIsHerm(A) == A = MDag(A)
MIsUnitary(A) == MMul(A, MDag(A)) = MId(MRows(A))
MIsScalar(A) == \A i, j \in 1..MRows(A) :
                   IF i = j THEN A[1][i][i] = A[1][1][1] /\ A[2][i][i] = A[2][1][1]
                            ELSE A[1][i][j] = 0 /\ A[2][i][j] = 0
(* Equal up to a phase factor: B = z A with z conj(z) = 1.                 *)
SamePhase(A, B) ==
  /\ MRows(A) = MRows(B) /\ MCols(A) = MCols(B)
  /\ \/ /\ MIsZero(A) /\ MIsZero(B)
     \/ \E i \in 1..MRows(A), j \in 1..MCols(A) :
          /\ A[1][i][j] # 0 /\ A[2][i][j] # 0
          /\ LET z == <<(B[1][i][j] * InvM(A[1][i][j])) % P, (B[2][i][j] * InvM(A[2][i][j])) % P>>
             IN  (z[1] * z[2]) % P = 1 /\ MScale(z, A) = B

MKron(A, B) ==
  LET n == Len(B[1])  m == Cols(B[1])
      K(X, Y) == TLCEval([i \in 1..(Len(X) * n) |-> TLCEval([j \in 1..(Cols(X) * m) |->
                    (X[((i - 1) \div n) + 1][((j - 1) \div m) + 1] * Y[((i - 1) % n) + 1][((j - 1) % m) + 1]) % P])])
  IN <<K(A[1], B[1]), K(A[2], B[2])>>

RECURSIVE MPow(_, _)
MPow(A, n) == IF n = 0 THEN MId(MRows(A)) ELSE MMul(MPow(A, n - 1), A)

(* Gaussian elimination over GF(P): reduced row echelon form as a          *)
(* sequence of nonzero rows.                                               *)
RowSub(r, c, s) == TLCEval([j \in 1..Len(r) |-> (r[j] - c * s[j]) % P])
RECURSIVE Elim(_, _, _)
(* rows: remaining rows, done: reduced rows so far, col: current column     *)
Elim(rows, done, col) ==
  IF Len(rows) = 0 \/ (col > Len(rows[1])) THEN done
  ELSE LET cand == {i \in 1..Len(rows) : rows[i][col] # 0}
       IN IF cand = {} THEN Elim(rows, done, col + 1)
          ELSE LET i == CHOOSE x \in cand : TRUE
                   inv == InvM(rows[i][col])
                   piv == TLCEval([j \in 1..Len(rows[i]) |-> (rows[i][j] * inv) % P])
                   rest == TLCEval([k \in 1..(Len(rows) - 1) |->
                               LET r == IF k < i THEN rows[k] ELSE rows[k + 1]
                               IN  IF r[col] = 0 THEN r ELSE RowSub(r, r[col], piv)])
                   nd == TLCEval([k \in 1..Len(done) |->
                               IF done[k][col] = 0 THEN done[k] ELSE RowSub(done[k], done[k][col], piv)])
               IN  Elim(rest, Append(nd, piv), col + 1)
RREF(A) == Elim(A, <<>>, 1)
Rank(A) == Len(RREF(A))

(* inverse of an invertible plain matrix                                   *)
pInv(A) == LET n == Len(A)
               W == TLCEval([i \in 1..n |-> TLCEval([j \in 1..(2 * n) |-> IF j <= n THEN A[i][j] ELSE IF j - n = i THEN 1 ELSE 0])])
               E == RREF(W)
           IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> E[i][j + n]])])
pDet2(A) == (A[1][1] * A[2][2] - ((A[1][2] * A[2][1]) % P)) % P
==========================================================================
