------------------------------- MODULE C05 -------------------------------
(* Element factories, predefined groups, spin and orbital matrices.         *)
EXTENDS Frame, Spin, Groups

Rec(o) == Elem(o.R, o.c, o.a, o.U, o.s)
Herm3(S) == \A a \in 1..3 : MIsHerm(S[a])
Spins(ev) == IF ev.spin = "none" THEN <<>> ELSE IF ev.spin = "std" THEN SpinMat(ev.twoS) ELSE ev.S

CmpF(ev, R, c, a, U) ==
  LET r == ev.res IN
  Clauses(<< <<"space-part", r.R = R>>, <<"conjugation-flag", r.c = c>>, <<"antisymmetry-flag", r.a = a>>,
             <<"unitary-part", r.U = U>>, <<"strictness", ~r.s>>, <<"integer-part", r.intRok>> >>, heap)

(* spin action of a rotation by the given half phase around unit vector n    *)
SpinU(ev, h, n) == IF ev.spin = "none" THEN ev.U
                   ELSE ExpRot(h, Combine(n, Spins(ev)), ev.twoJ, ev.step)

(* the real-space group each predefined point group is documented to be      *)
SignedPerms(d) ==
  LET perms == {f \in [1..d -> 1..d] : {f[i] : i \in 1..d} = 1..d}
      signs == [1..d -> {1, P - 1}]
  IN {[i \in 1..d |-> [j \in 1..d |-> IF f[i] = j THEN s[i] ELSE 0]] : f \in perms, s \in signs}
Elems(Rs) == {Elem(R, FALSE, FALSE, NoU, FALSE) : R \in Rs}
H60 == HalfPhase(2, 0)
EZ == <<0, 0, 1>>
RsOf(name, dim) ==
  CASE name = "square" -> SignedPerms(2)
    [] name = "cubic" -> SignedPerms(3)
    [] name = "hexagonal" /\ dim = 2 ->
         {x.R : x \in ClosureBase(Elems({Rot2(H60), Refl(<<1, 0>>)}))}
    [] name = "hexagonal" /\ dim = 3 ->
         {x.R : x \in ClosureBase(Elems({Rot3(H60, EZ), Refl(<<1, 0, 0>>), Refl(EZ)}))}

JC05(ev, h) ==
  CASE ev.op = "rotation" ->
         LET hp == HalfPhase(ev.k, ev.j)
             n == IF ev.dim = 2 THEN EZ ELSE UnitVec(ev.axis)
             R == IF ev.dim = 2 THEN Rot2(hp) ELSE IF ev.inv THEN pNeg(Rot3(hp, n)) ELSE Rot3(hp, n)
         IN CmpF(ev, R, FALSE, FALSE, SpinU(ev, hp, n))
    [] ev.op = "mirror" ->
         LET n == UnitVec(ev.axis)
             n3 == IF Len(n) = 2 THEN Append(n, 0) ELSE n
         IN CmpF(ev, Refl(n), FALSE, FALSE, SpinU(ev, HalfPhase(6, 0), n3))
    [] ev.op = "timerev" -> CmpF(ev, pId(ev.dim), TRUE, FALSE, SpinU(ev, HalfPhase(6, 0), <<0, 1, 0>>))
    [] ev.op = "parthole" -> CmpF(ev, pId(ev.dim), TRUE, TRUE, ev.U)
    [] ev.op = "chiral" -> CmpF(ev, pId(ev.dim), FALSE, TRUE, ev.U)
    [] ev.op = "inversion" -> CmpF(ev, pNeg(pId(ev.dim)), FALSE, FALSE, ev.U)
    [] ev.op = "identity" -> CmpF(ev, pId(ev.dim), FALSE, FALSE, IF ev.n = 0 THEN NoU ELSE MId(ev.n))
    [] ev.op = "spinmat" ->
         LET S == SpinMat(ev.twoS)
         IN Clauses(<< <<"shape", Len(ev.S) = IF ev.inc0 THEN 4 ELSE 3>>,
                       <<"spin-matrices", (IF ev.inc0 THEN SubSeq(ev.S, 2, 4) ELSE ev.S) = S>>,
                       <<"identity-component", ev.inc0 => ev.S[1] = MId(ev.twoS + 1)>>,
                       <<"algebra", AngularMomentum(S)>>,
                       <<"casimir", Casimir(S) = MScale(ZReal((ev.twoS * (ev.twoS + 2) * InvM(4)) % P), MId(ev.twoS + 1))>> >>, h)
    (* squares of the matrix elements for spins whose entries leave K        *)
    [] ev.op = "spinbig" ->
         LET d == ev.twoS + 1 IN
         Clauses(<< <<"sx", \A i \in 1..(d - 1) : ev.sx2[i] = i * (d - i)>>,
                    <<"sy", \A i \in 1..(d - 1) : ev.sy2[i] = i * (d - i)>>,
                    <<"sz", \A i \in 1..d : ev.sz2[i] = ev.twoS - 2 * (i - 1)>>,
                    <<"structure", ev.structure>> >>, h)
    [] ev.op = "lmat" ->
         LET L == IF ev.d = 2 THEN <<LMat[3]>> ELSE IF ev.l = 1 THEN LMat ELSE LMatD
             L2 == MScale(ZI, MReal(<<<<0, P - 1>>, <<1, 0>>>>))
         IN IF ev.d = 2 THEN Clauses(<< <<"generator", ev.L = <<L2>> >> >>, h)
            ELSE Clauses(<< <<"antisymmetric", \A a \in 1..3 : ev.L[a] = MNeg(MT(ev.L[a]))>>,
                            <<"algebra", AngularMomentum(ev.L)>>,
                            <<"casimir", Casimir(ev.L) = MScale(ZReal(ev.l * (ev.l + 1)), MId(2 * ev.l + 1))>>,
                            <<"generator", ev.L = L>> >>, h)
    [] ev.op = "spinrot" -> (* spin_rotation(angle * axis, S) *)
         LET n == UnitVec(ev.axis) hp == HalfPhase(ev.k, ev.j)
         IN Clauses(<< <<"spin-rotation", ev.res = SpinU(ev, hp, n)>> >>, h)
    [] ev.op = "pointgroup" ->
         LET Rs == TLCEval(RsOf(ev.name, ev.dim))
             C == IF ev.tr \/ ev.ph THEN {FALSE, TRUE} ELSE {FALSE}
             cas == (IF ev.tr /\ ev.ph THEN {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>, <<FALSE, TRUE>>}
                     ELSE IF ev.tr THEN {<<FALSE, FALSE>>, <<TRUE, FALSE>>}
                     ELSE IF ev.ph THEN {<<FALSE, FALSE>>, <<TRUE, TRUE>>} ELSE {<<FALSE, FALSE>>})
             want == TLCEval({BaseOnly(Elem(R, ca[1], ca[2], NoU, FALSE)) : R \in Rs, ca \in cas})
             got == TLCEval({BaseOnly(Rec(ev.res[i])) : i \in 1..Len(ev.res)})
             full == IF ev.gens THEN ClosureBase(got) ELSE got
             S == Spins(ev)
         IN Clauses(<< <<"group", full = want>>,
                       <<"duplicate-element", Len(ev.res) = Cardinality(got)>>,
                       <<"unitary-present", \A i \in 1..Len(ev.res) : (ev.res[i].U = NoU) = (ev.spin = "none")>>,
                       <<"unitary", ev.spin # "none" => \A i \in 1..Len(ev.res) : MIsUnitary(ev.res[i].U)>>,
                       <<"spin-covariance", ev.spin # "none" =>
                            \A i \in 1..Len(ev.res) : SpinCovariant(Rec(ev.res[i]), S)>>,
                       (* exact up to the sign of a spin representation: some power of  *)
                       (* the rotation through the identity                             *)
                       <<"time-reversal-square", ev.spin # "none" => \A i \in 1..Len(ev.res) :
                            ev.res[i].c /\ ev.res[i].R = pId(ev.dim) =>
                              MMul(ev.res[i].U, MConj(ev.res[i].U)) = MScale(ZReal(IF ev.twoS % 2 = 0 THEN 1 ELSE P - 1), MId(ev.twoS + 1))>>,
                       <<"proper-phase", ev.spin # "none" => \A i \in 1..Len(ev.res) :
                            LET x == Rec(ev.res[i]) IN x.R = pId(ev.dim) /\ ~x.c =>
                               x.U \in {MId(ev.twoS + 1), MScale(ZReal(IF ev.twoS % 2 = 0 THEN 1 ELSE P - 1), MId(ev.twoS + 1))}>>,
                       <<"representation", ev.sympy = "any" \/ \A i \in 1..Len(ev.res) : ev.kinds[i] \in {"int", ev.sympy}>> >>, h)
    [] ev.op = "rejects" -> Clauses(<< <<"invalid-input-accepted", \A i \in 1..Len(ev.raised) : ev.raised[i]>> >>, h)
==========================================================================
