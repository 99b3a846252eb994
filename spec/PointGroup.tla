--------------------------- MODULE PointGroup ---------------------------
(* Abstract symmetry elements.  R: plain matrix (spatial action), c, a:     *)
(* conjugation and antisymmetry, U: complex matrix or NoU, s: strict        *)
(* comparison requested.                                                   *)
EXTENDS Mat

Elem(R, c, a, U, s) == [R |-> R, c |-> c, a |-> a, U |-> U, s |-> s]
XorB(x, y) == (x /\ ~y) \/ (y /\ ~x)

(* (x y)(k) = U_x K^cx U_y K^cy H(...): the right unitary is conjugated by   *)
(* an antiunitary left factor.                                              *)
EMul(x, y) ==
  Elem(pMul(x.R, y.R), XorB(x.c, y.c), XorB(x.a, y.a),
       IF x.U = NoU \/ y.U = NoU THEN NoU
       ELSE MMul(x.U, IF x.c THEN MConj(y.U) ELSE y.U),
       x.s \/ y.s)

EId(x) == Elem(pId(Len(x.R)), FALSE, FALSE, IF x.U = NoU THEN NoU ELSE MId(MRows(x.U)), x.s)

(* inverse for unitary U: (U K^c)^-1 = K^c U^dag.                            *)
EInv(x) == Elem(pInv(x.R), x.c, x.a,
                IF x.U = NoU THEN NoU ELSE IF x.c THEN MT(x.U) ELSE MDag(x.U), x.s)

RECURSIVE EPow(_, _)
EPow(x, n) == IF n = 0 THEN EId(x)
              ELSE IF n > 0 THEN EMul(EPow(x, n - 1), x) ELSE EPow(EInv(x), -n)

(* Same operator, unitary part compared exactly.                            *)
SameOp(x, y) == x.R = y.R /\ x.c = y.c /\ x.a = y.a /\ x.U = y.U
(* Equality of the library: the unitary part only matters under strict      *)
(* comparison and then up to a phase.                                       *)
SameBase(x, y) == x.R = y.R /\ x.c = y.c /\ x.a = y.a
EEq(x, y) == /\ SameBase(x, y)
             /\ (x.s \/ y.s) =>
                  \/ x.U = NoU /\ y.U = NoU
                  \/ x.U # NoU /\ y.U # NoU /\ SamePhase(x.U, y.U)
Base(x) == <<x.R, x.c, x.a>>
==========================================================================
