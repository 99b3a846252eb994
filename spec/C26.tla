-------------------------------- MODULE C26 --------------------------------
(* Random matrix ensembles.  The relations of the ten symmetry classes as      *)
(* documented (Phys. Rev. B 85, 165409): every unitary is a monomial matrix     *)
(* with real or imaginary entries, given by a permutation and signs.            *)
(* Matrices are fixed point numbers; relations are checked up to rounding.      *)
EXTENDS Mat, Frame

Classes == {"A", "AI", "AII", "AIII", "BDI", "CII", "D", "DIII", "C", "CI"}
TSq(s) == IF s \in {"CI", "AI", "BDI"} THEN 1 ELSE IF s \in {"CII", "AII", "DIII"} THEN -1 ELSE 0
PSq(s) == IF s \in {"D", "DIII", "BDI"} THEN 1 ELSE IF s \in {"C", "CI", "CII"} THEN -1 ELSE 0
Chi(s) == IF (TSq(s) # 0 /\ PSq(s) # 0) \/ s = "AIII" THEN 1 ELSE 0

Abs(x) == IF x < 0 THEN -x ELSE x
(* monomial operators on n indices (zero based j): image and sign               *)
Img(u, j) == CASE u = "1" -> j
               [] u = "tz" -> j
               [] u \in {"tx", "ty"} -> (IF j % 2 = 0 THEN j + 1 ELSE j - 1)
               [] u \in {"sy", "tzsy"} -> (IF j % 4 < 2 THEN j + 2 ELSE j - 2)
Sg(u, j) == CASE u = "1" -> 1
              [] u = "tz" -> (IF j % 2 = 0 THEN 1 ELSE -1)
              [] u = "tx" -> 1
              [] u = "ty" -> (IF j % 2 = 0 THEN -1 ELSE 1)
              [] u = "sy" -> (IF j % 4 < 2 THEN -1 ELSE 1)
              [] u = "tzsy" -> (IF j % 4 < 2 THEN -1 ELSE 1) * (IF j % 2 = 0 THEN 1 ELSE -1)
(* U conj(U) = +1 or -1                                                         *)
ImagU(u) == u \in {"ty", "sy", "tzsy"}

(* Hamiltonians: H = U H* U^+ , H = -U H* U^+ , H = - tz H tz                    *)
UT(s) == CASE s = "AI" -> "1" [] s = "BDI" -> "tz" [] s = "CI" -> "tx" [] s \in {"AII"} -> "ty" [] s = "CII" -> "sy" [] s = "DIII" -> "ty"
UP(s) == CASE s \in {"C", "CI"} -> "ty" [] s = "CII" -> "tzsy" [] s \in {"D", "BDI"} -> "1" [] s = "DIII" -> "tx"
(* H_ij = sg * U_ii' op(H)_i'j' conj(U_jj')                                      *)
Rel(H, n, u, sg, cc) ==
  \A i, j \in 0..(n - 1) :
     LET s == sg * Sg(u, i) * Sg(u, j)
         a == Img(u, i) + 1  b == Img(u, j) + 1
     IN /\ Abs(H.re[i + 1][j + 1] - s * H.re[a][b]) <= 2
        /\ Abs(H.im[i + 1][j + 1] - s * (IF cc THEN -1 ELSE 1) * H.im[a][b]) <= 2
Trn(H) == [re |-> H.re, im |-> H.im]
Herm(H, n) == \A i, j \in 1..n : Abs(H.re[i][j] - H.re[j][i]) <= 2 /\ Abs(H.im[i][j] + H.im[j][i]) <= 2
ClassH(H, n, s) ==
  << <<"not-hermitian", Herm(H, n)>>,
     <<"time-reversal", TSq(s) # 0 => Rel(H, n, UT(s), 1, TRUE)>>,
     <<"particle-hole", PSq(s) # 0 => Rel(H, n, UP(s), -1, TRUE)>>,
     <<"chiral", Chi(s) # 0 => Rel(H, n, "tz", -1, FALSE)>> >>
SizeOkH(n, s) == ((Chi(s) # 0 \/ TSq(s) = -1 \/ PSq(s) = -1) => n % 2 = 0) /\ (s = "CII" => n % 4 = 0)

JGauss(ev, h) ==
  Clauses(<< <<"wrongly-accepted-or-refused", ev.raised = ~(ev.sym \in Classes /\ SizeOkH(ev.n, ev.sym))>>,
             <<"shape", ev.raised \/ (ev.shape = <<ev.n, ev.n>>)>>,
             <<"vanishes", ev.raised \/ ev.max > 0 \/ ev.n = 0 \/ (ev.n = 1 /\ ev.sym = "D") \/ (ev.n = 2 /\ ev.sym = "DIII")>> >>
          \o (IF ev.raised \/ ev.n = 0 THEN <<>> ELSE ClassH(ev.H, ev.n, ev.sym)), h)

(* scattering matrices: r = sg U r^T U^+ (transpose) or r = sg U r^* U^+         *)
RelT(r, n, u, sg) ==
  \A i, j \in 0..(n - 1) :
     LET s == sg * Sg(u, i) * Sg(u, j)
         a == Img(u, i) + 1  b == Img(u, j) + 1
     IN Abs(r.re[i + 1][j + 1] - s * r.re[b][a]) <= 2 /\ Abs(r.im[i + 1][j + 1] - s * r.im[b][a]) <= 2
Row(A, i) == A[i]
RECURSIVE Inner(_, _, _, _, _)
Inner(a, b, c, d, k) == IF k = 0 THEN 0 ELSE Inner(a, b, c, d, k - 1) + a[k] * c[k] + b[k] * d[k]
Unitary(r, n, xs) ==
  \A i, j \in 1..n : i <= j =>
     /\ Abs(Inner(r.re[i], r.im[i], r.re[j], r.im[j], n) - (IF i = j THEN xs * xs ELSE 0)) <= 3 * xs * n
     /\ Abs(Inner(r.im[i], r.re[i], r.re[j], [k \in 1..n |-> -r.im[j][k]], n)) <= 3 * xs * n
SizeOkS(n, s) == (TSq(s) = -1 \/ PSq(s) = -1) => n % 2 = 0
(* charge: num/den, or none                                                      *)
ChargeOk(ev) == IF ~ev.hascharge \/ ev.sym \notin {"D", "DIII", "AIII", "BDI", "CII"} THEN TRUE
                ELSE /\ ev.den = 1
                     /\ CASE ev.sym \in {"D", "DIII"} -> ev.num \in {1, -1}
                          [] ev.sym \in {"AIII", "BDI"} -> 0 <= ev.num /\ ev.num <= ev.n
                          [] OTHER -> 0 <= ev.num /\ ev.num <= ev.n \div 2
Minor(A, i, j) == TLCEval([a \in 1..(Len(A) - 1) |-> TLCEval([b \in 1..(Len(A) - 1) |-> A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]])])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1 ELSE LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j)) IN S(Len(A))
(* Pfaffian by expansion along the first row                                     *)
RECURSIVE Pf(_)
Pf(A) == IF Len(A) = 0 THEN 1
         ELSE LET RECURSIVE S(_)
                  S(j) == IF j = 1 THEN 0 ELSE S(j - 1) + (IF j % 2 = 0 THEN 1 ELSE -1) * A[1][j] * Pf(Minor(Minor(A, 1, 1), j - 1, j - 1))
              IN S(Len(A))
RECURSIVE TrR(_, _)
TrR(A, k) == IF k = 0 THEN 0 ELSE TrR(A, k - 1) + A[k][k]
Coarse(A, q) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> (A[i][j] + q \div 2) \div q])])
ChargeRight(ev, r) ==
  LET n == ev.n
      q == ev.xs \div 40
      neg == n * ev.xs - TrR(r.re, n)      \* 2 xs times the number of eigenvalues -1
  IN CASE ev.sym = "D" -> ((Det(Coarse(r.re, q)) > 0) <=> (ev.num > 0))
       [] ev.sym = "DIII" -> ((Pf(Coarse([i \in 1..n |-> [j \in 1..n |-> -r.im[i][j]]], q)) > 0) <=> (ev.num > 0))
       [] ev.sym \in {"AIII", "BDI"} -> Abs(neg - 2 * ev.xs * ev.num) <= 4 * n
       [] ev.sym = "CII" -> Abs(neg - 4 * ev.xs * ev.num) <= 4 * n
       [] OTHER -> TRUE
JCirc(ev, h) ==
  LET s == ev.sym  r == ev.H  n == ev.n
      ok == s \in Classes /\ SizeOkS(n, s) /\ ChargeOk(ev)
  IN Clauses(<< <<"wrongly-accepted-or-refused", ev.raised = ~ok>> >>
       \o (IF ev.raised THEN <<>> ELSE
          << <<"shape", ev.shape = <<n, n>> >>,
             <<"not-unitary", Unitary(r, n, ev.xs)>>,
             <<"time-reversal", CASE s \in {"AI", "BDI"} -> RelT(r, n, "1", 1)
                                  [] s = "CI" -> RelT(r, n, "ty", -1)
                                  [] s \in {"AII", "DIII"} -> RelT(r, n, "1", -1)
                                  [] s = "CII" -> RelT(r, n, "ty", 1)
                                  [] OTHER -> TRUE>>,
             <<"particle-hole", CASE s = "CI" -> Rel(r, n, "ty", -1, TRUE)
                                  [] s \in {"C", "CII"} -> Rel(r, n, "ty", 1, TRUE)
                                  [] s \in {"D", "BDI"} -> Rel(r, n, "1", 1, TRUE)
                                  [] s = "DIII" -> Rel(r, n, "1", -1, TRUE)
                                  [] OTHER -> TRUE>>,
             <<"chiral", Chi(s) # 0 => Herm(r, n)>>,
             <<"charge", ev.hascharge => ChargeRight(ev, r)>> >>), h)

(* published tables: squares of the symmetries and their unitaries               *)
JTable(ev, h) ==
  LET s == ev.sym
      Same(U, u, k) == LET n == Len(U.re) IN
         \E f \in {1, -1} : \A i, j \in 0..(n - 1) :
            LET w == IF Img(u, i) = j THEN f * Sg(u, i) ELSE 0
            IN U.re[i + 1][j + 1] = (IF ImagU(u) THEN 0 ELSE w) /\ U.im[i + 1][j + 1] = (IF ImagU(u) THEN w ELSE 0)
  IN Clauses(<< <<"unknown-class", ev.raised = (s \notin Classes)>> >>
       \o (IF ev.raised THEN <<>> ELSE
          << <<"t", ev.t = TSq(s)>>, <<"p", ev.p = PSq(s)>>, <<"c", ev.c = Chi(s)>>,
             <<"t-matrix", IF TSq(s) = 0 THEN ~ev.hasT ELSE ev.hasT /\ Same(ev.T, UT(s), s)>>,
             <<"p-matrix", IF PSq(s) = 0 THEN ~ev.hasP ELSE ev.hasP /\ Same(ev.P, UP(s), s)>> >>), h)
JSame(ev, h) == Clauses(<< <<"not-reproducible", ev.same>> >>, h)
JReject(ev, h) == Clauses(<< <<"invalid-input-accepted", ev.raised>> >>, h)

(* The law of the Gaussian ensemble: the matrix is a linear function of          *)
(* independent standard normal numbers, H = sum_k x_k H_k.  Its covariance        *)
(* M = sum_k H_k H_k^T (as real vectors) must be a multiple of the projector onto *)
(* the matrices of the class: kappa M = M M, and the rank is the number of        *)
(* degrees of freedom of the class.                                               *)
ImgR(n, s) == LET p(k) == ((k - 1) \div n)  q(k) == ((k - 1) % n)
                  (* rows v - sg * (v o sigma): (part, index, sign of re, of im)   *)
                  row(k, l, sr, im) == [x \in 1..(2 * n * n) |->
                        ((IF x = (IF im THEN n * n ELSE 0) + k THEN 1 ELSE 0) - (IF x = (IF im THEN n * n ELSE 0) + l THEN sr ELSE 0)) % P]
                  opr(u, sg, cc) == [k \in 1..(n * n) |-> row(k, Img(u, p(k)) * n + Img(u, q(k)) + 1, sg * Sg(u, p(k)) * Sg(u, q(k)), FALSE)]
                                 \o [k \in 1..(n * n) |-> row(k, Img(u, p(k)) * n + Img(u, q(k)) + 1, (IF cc THEN -1 ELSE 1) * sg * Sg(u, p(k)) * Sg(u, q(k)), TRUE)]
                  herm == [k \in 1..(n * n) |-> row(k, q(k) * n + p(k) + 1, 1, FALSE)] \o [k \in 1..(n * n) |-> row(k, q(k) * n + p(k) + 1, -1, TRUE)]
              IN herm \o (IF TSq(s) # 0 THEN opr(UT(s), 1, TRUE) ELSE <<>>) \o (IF PSq(s) # 0 THEN opr(UP(s), -1, TRUE) ELSE <<>>)
                      \o (IF Chi(s) # 0 THEN opr("tz", -1, FALSE) ELSE <<>>)
NonZ(rows) == SelectSeq(TLCEval([i \in 1..Len(rows) |-> TLCEval(rows[i])]), LAMBDA r : \E x \in 1..Len(r) : r[x] # 0)
JLaw(ev, h) ==
  LET n == ev.n
      V == ev.V
      d == Len(V[1])
      dim == 2 * n * n - (LET r == NonZ(ImgR(n, ev.sym)) IN IF r = <<>> THEN 0 ELSE Len(RREF(r)))
      RECURSIVE G(_, _, _)
      G(i, j, k) == IF k = 0 THEN 0 ELSE G(i, j, k - 1) + V[k][i] * V[k][j]
      M == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> G(i, j, Len(V))])])
      RECURSIVE MM(_, _, _)
      MM(i, j, k) == IF k = 0 THEN 0 ELSE MM(i, j, k - 1) + (IF M[i][k] = 0 THEN 0 ELSE M[i][k] * M[k][j])
      RECURSIVE Tr(_)
      Tr(k) == IF k = 0 THEN 0 ELSE Tr(k - 1) + M[k][k]
      t == Tr(d)
      Hk(k) == [re |-> [i \in 1..n |-> [j \in 1..n |-> V[k][(i - 1) * n + j]]], im |-> [i \in 1..n |-> [j \in 1..n |-> V[k][n * n + (i - 1) * n + j]]]]
  IN Clauses(<< <<"exact", ev.exact>>,
                <<"not-linear-in-v", ev.linear>>,
                <<"leaves-the-class", \A k \in 1..Len(V) : \A c \in 1..4 : ClassH(Hk(k), n, ev.sym)[c][2]>>,
                <<"degrees-of-freedom-missing", dim = 0 \/ t > 0>>,
                <<"not-isotropic", \A i, j \in 1..d : dim * MM(i, j, d) = t * M[i][j]>> >>, h)

JC26(ev, h) == CASE ev.op = "gauss" -> JGauss(ev, h)
                 [] ev.op = "circ" -> JCirc(ev, h)
                 [] ev.op = "table" -> JTable(ev, h)
                 [] ev.op = "same" -> JSame(ev, h)
                 [] ev.op = "reject" -> JReject(ev, h)
                 [] ev.op = "law" -> JLaw(ev, h)
=============================================================================
