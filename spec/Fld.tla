------------------------------- MODULE Fld -------------------------------
(***************************************************************************)
(* Exact arithmetic for the number field K = Q(i, sqrt2, sqrt3, sqrt5) that *)
(* contains every entry of the matrices the specification talks about       *)
(* (crystallographic rotations, spin matrices, Gaussian-rational           *)
(* Hamiltonians).  TLC has 32-bit integers, so K is represented through a   *)
(* ring homomorphism into GF(P) x GF(P): the two components are the images  *)
(* under the two embeddings i -> RI and i -> -RI.  Both are homomorphisms,  *)
(* so every identity that holds in K holds componentwise (the arithmetic    *)
(* never raises a false alarm), and complex conjugation is the swap of the  *)
(* components.  P < 2^15, hence a product of two residues is below 2^30.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P,           \* prime, P % 120 = 1
          RI,          \* RI*RI = -1 mod P
          R2, R3, R5   \* square roots of 2, 3, 5 mod P

ASSUME /\ P % 120 = 1 /\ P < 32768
       /\ (RI * RI + 1) % P = 0
       /\ (R2 * R2 - 2) % P = 0 /\ (R3 * R3 - 3) % P = 0 /\ (R5 * R5 - 5) % P = 0

RECURSIVE PowM(_, _, _)
(* acc * a^n                                                               *)
PowM(acc, a, n) == IF n = 0 THEN acc
                   ELSE PowM(IF n % 2 = 1 THEN (acc * a) % P ELSE acc, (a * a) % P, n \div 2)
InvM(a) == PowM(1, a % P, P - 2)
HalfM == (P + 1) \div 2
FracM(n, d) == ((n % P) * InvM(d)) % P

(* Square root of a small positive integer whose prime factors are 2,3,5.  *)
RECURSIVE SqrtM(_)
SqrtM(n) == CASE n = 0 -> 0
              [] n = 1 -> 1
              [] n % 4 = 0 -> (2 * SqrtM(n \div 4)) % P
              [] n % 9 = 0 -> (3 * SqrtM(n \div 9)) % P
              [] n % 25 = 0 -> (5 * SqrtM(n \div 25)) % P
              [] n % 2 = 0 -> (R2 * SqrtM(n \div 2)) % P
              [] n % 3 = 0 -> (R3 * SqrtM(n \div 3)) % P
              [] n % 5 = 0 -> (R5 * SqrtM(n \div 5)) % P
              [] OTHER -> Assert(FALSE, "SqrtM: unsupported radicand")

(* Complex scalars.                                                        *)
Z0 == <<0, 0>>
Z1 == <<1, 1>>
ZI == <<RI, P - RI>>
ZReal(x) == <<x % P, x % P>>
ZAdd(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
ZSub(a, b) == <<(a[1] - b[1]) % P, (a[2] - b[2]) % P>>
ZMul(a, b) == <<(a[1] * b[1]) % P, (a[2] * b[2]) % P>>
ZNeg(a) == <<(P - a[1]) % P, (P - a[2]) % P>>
ZConj(a) == <<a[2], a[1]>>
ZInv(a) == <<InvM(a[1]), InvM(a[2])>>
ZCmp(re, im) == ZAdd(ZReal(re), ZMul(ZI, ZReal(im)))
==========================================================================
