------------------------------- MODULE C06 -------------------------------
(* Names.  The harness parses the printed text into (kind, angle as cosine   *)
(* and sine of the printed fraction, axis components, Altland-Zirnbauer      *)
(* letter); the specification rebuilds the rotation from them in fixed-point *)
(* integers (scale 1000; axes scale 100) and compares with the element.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Frame

AbsI(x) == IF x < 0 THEN -x ELSE x
(* floor of the square root                                                 *)
RECURSIVE Bis(_, _, _)
Bis(n, lo, hi) == IF hi - lo <= 1 THEN lo
                  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bis(n, m, hi) ELSE Bis(n, lo, m)
ISqrt(n) == Bis(n, 0, 46340)

N2(n) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + n[k] * n[k] IN S(Len(n))
D(i, j) == IF i = j THEN 1 ELSE 0
(* antisymmetric matrix [n]x                                                *)
CrossI(n) == <<<<0, -n[3], n[2]>>, <<n[3], 0, -n[1]>>, <<-n[2], n[1], 0>>>>

(* scale * |n|^2 * Rotation(c, s; n) with c, s of scale 1000                 *)
RotI(c, s, n) ==
  LET q == N2(n)
      norm100 == ISqrt(q * 10000)               \* 100 |n|
      sn == (s * norm100) \div 100              \* 1000 sin |n|
  IN [i \in 1..3 |-> [j \in 1..3 |-> c * q * D(i, j) + (1000 - c) * n[i] * n[j] + sn * CrossI(n)[i][j]]]
ReflI(n) == LET q == N2(n) IN [i \in 1..Len(n) |-> [j \in 1..Len(n) |-> 1000 * q * D(i, j) - 2000 * n[i] * n[j]]]

(* decoded matrix times w                                                   *)
Decoded(d, dim) ==
  CASE d.kind = "1" -> [w |-> 1, M |-> [i \in 1..dim |-> [j \in 1..dim |-> 1000 * D(i, j)]]]
    [] d.kind = "I" -> [w |-> 1, M |-> [i \in 1..dim |-> [j \in 1..dim |-> -1000 * D(i, j)]]]
    [] d.kind = "R" /\ dim = 2 -> [w |-> 1, M |-> <<<<d.c, -d.s>>, <<d.s, d.c>>>>]
    [] d.kind = "R" /\ dim = 3 -> [w |-> N2(d.axis), M |-> RotI(d.c, d.s, d.axis)]
    [] d.kind = "S" /\ dim = 3 -> LET M == RotI(d.c, d.s, d.axis) IN
                                  [w |-> N2(d.axis), M |-> [i \in 1..3 |-> [j \in 1..3 |-> -M[i][j]]]]
    [] d.kind = "M" -> [w |-> N2(d.axis), M |-> ReflI(d.axis)]
    [] OTHER -> [w |-> 0, M |-> <<>>]

WellFormed(d, dim) ==
  /\ d.kind \in {"1", "I", "R", "S", "M"}
  /\ d.kind = "S" => dim = 3
  /\ d.kind = "M" => dim \in {2, 3}
  /\ d.kind = "R" => dim \in {2, 3}
  /\ (d.kind \in {"M", "S"} \/ (d.kind = "R" /\ dim = 3)) => Len(d.axis) = dim /\ N2(d.axis) > 0
  /\ d.kind = "R" /\ dim = 2 => d.axis = <<>>

Matches(d, dim, R, tol) ==
  LET x == Decoded(d, dim) IN
  \A i, j \in 1..dim : AbsI(x.M[i][j] - x.w * R[i][j]) <= x.w * tol

(* a rotation by a simple fraction of pi (denominator at most 50) is named   *)
(* by this fraction, up to full turns and the sign of the axis              *)
SameAngle(p, t) == LET m == 2 * p[2] * t[2] IN
  ((p[1] * t[2] - t[1] * p[2]) % m = 0) \/ ((p[1] * t[2] + t[1] * p[2]) % m = 0)
Exact(d, fr) == Len(d.fr) = 2 /\ Len(fr) = 2 => SameAngle(d.fr, fr)

AZ(c, a) == IF c THEN (IF a THEN "P" ELSE "T") ELSE (IF a THEN "C" ELSE "")

Close(A, B, tol) == /\ Len(A) = Len(B)
                    /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : AbsI(A[i][j] - B[i][j]) <= tol

(* axis of a generator: G = i R, antisymmetric and real                     *)
GenAxis(G) == <<G[2][3], G[3][1], G[1][2]>>
(* m is a positive multiple of n up to tolerance: |n|^2 m ~ (m.n) n          *)
Dot3(m, n) == m[1] * n[1] + m[2] * n[2] + m[3] * n[3]
Parallel(m, n) == /\ Dot3(m, n) > 0
                  /\ LET c == <<m[2] * n[3] - m[3] * n[2], m[3] * n[1] - m[1] * n[3], m[1] * n[2] - m[2] * n[1]>>
                     IN \A k \in 1..3 : 100 * AbsI(c[k]) <= 3 * Dot3(m, n)

JC06(ev, h) ==
  CASE ev.op = "name" ->
         IF ~WellFormed(ev.d, ev.dim) THEN Bad("name-not-decodable", h)
         ELSE Clauses(<< <<"rotation-name", Matches(ev.d, ev.dim, ev.R, ev.tol)>>,
                         <<"angle", Exact(ev.d, ev.fr)>>,
                         <<"altland-zirnbauer-name", ev.d.az = AZ(ev.c, ev.a)>> >>, h)
    [] ev.op = "full" ->
         IF ~WellFormed(ev.d, ev.dim) THEN Bad("name-not-decodable", h)
         ELSE Clauses(<< <<"rotation-name", Matches(ev.d, ev.dim, ev.R, ev.tol)>>,
                         <<"angle", Exact(ev.d, ev.fr)>>,
                         <<"full-conjugation", ev.star = ev.c>>,
                         <<"full-momentum-sign", ev.kminus = ev.c>>,
                         <<"full-sign", ev.hminus = ev.a>>,
                         <<"full-unitary-part", ev.hasU = (Len(ev.U) > 0) /\ (Len(ev.U) > 0 =>
                               Close(ev.U[1], ev.Uprint[1], 2) /\ Close(ev.U[2], ev.Uprint[2], 2))>> >>, h)
    [] ev.op = "cgg" ->
         Clauses(<< <<"generator-kind", ev.commutator = ~ev.hasR>>,
                    <<"generator-rotation", ev.rot = (ev.hasR /\ ev.dim \in {2, 3})>>,
                    <<"generator-axis", ev.hasR /\ ev.dim = 3 => Len(ev.axis) = 3 /\ Parallel(ev.axis, GenAxis(ev.G))>>,
                    <<"generator-conserved-quantity", ev.printedL = ev.hasL>>,
                    <<"generator-conserved-quantity", ev.hasL /\ Len(ev.Lprint) > 0 => Close(ev.L[1], ev.Lprint[1], ev.tol) /\ Close(ev.L[2], ev.Lprint[2], ev.tol)>>,
                    <<"generator-exponential", ev.hasR => ev.expL = ev.hasL>> >>, h)
==========================================================================
