------------------------------- MODULE C09 -------------------------------
(* Denotational semantics of the input language and its comparison with the  *)
(* models the library builds.  Syntax trees are sequences whose first entry   *)
(* names the construct:                                                     *)
(*   n z | v i | + <<t..>> | * <<t..>> | ^ t n | cos phs z | sin phs z |      *)
(*   exp phs z   (argument: phs . x plus a constant with phase factor z)      *)
(*   M sh val (constant matrix) | mat rows of trees | kron t u | tr t          *)
EXTENDS ModelHeap

Sc(t1) == [sh |-> <<>>, t |-> t1]
Exp1(nv, phs, z) == <<[i \in 1..nv |-> 0], phs>> :> <<<<z[1]>>, <<z[2]>>>>
NegP(phs) == [i \in 1..Len(phs) |-> (P - phs[i]) % P]
VKron(su, u, sv, v) == VofM(MKron(MofV(su, u), MofV(sv, v)))

RECURSIVE Ev(_, _), EvSum(_, _, _), EvProd(_, _, _), EvPow(_, _, _), EvMat(_, _, _, _, _)
Mul2(a, b) ==
  IF a.sh = <<>> \/ b.sh = <<>>
  THEN [sh |-> HadSh(a.sh, b.sh), t |-> TMul(a.t, b.t, LAMBDA u, v : VHad(a.sh, u, b.sh, v))]
  ELSE [sh |-> MMShape(a.sh, b.sh), t |-> TMul(a.t, b.t, LAMBDA u, v : VMatMul(a.sh, u, b.sh, v))]
Embed(n, m, x, t1) == (* scalar map placed at flat position x of an n*m matrix *)
  TMap(t1, LAMBDA v : <<[i \in 1..(n * m) |-> IF i = x THEN v[1][1] ELSE 0], [i \in 1..(n * m) |-> IF i = x THEN v[2][1] ELSE 0]>>)
EvSum(as, i, nv) == IF i = 1 THEN Ev(as[1], nv) ELSE LET r == EvSum(as, i - 1, nv) IN [r EXCEPT !.t = TAdd(r.t, Ev(as[i], nv).t)]
EvProd(as, i, nv) == IF i = 1 THEN Ev(as[1], nv) ELSE Mul2(EvProd(as, i - 1, nv), Ev(as[i], nv))
EvPow(b, n, nv) == IF n = 1 THEN b ELSE Mul2(EvPow(b, n - 1, nv), b)
EvMat(rows, n, m, x, nv) == IF x = 0 THEN TZero
  ELSE TAdd(EvMat(rows, n, m, x - 1, nv), Embed(n, m, x, Ev(rows[((x - 1) \div m) + 1][((x - 1) % m) + 1], nv).t))
Ev(a, nv) ==
  CASE a[1] = "n" -> Sc(Drop(KOne(nv) :> <<<<a[2][1]>>, <<a[2][2]>>>>))
    [] a[1] = "v" -> Sc(<<[i \in 1..nv |-> IF i = a[2] THEN a[3] ELSE 0], [i \in 1..nv |-> 0]>> :> <<<<1>>, <<1>>>>)
    [] a[1] = "+" -> EvSum(a[2], Len(a[2]), nv)
    [] a[1] = "*" -> EvProd(a[2], Len(a[2]), nv)
    [] a[1] = "^" -> EvPow(Ev(a[2], nv), a[3], nv)
    [] a[1] = "exp" -> Sc(Exp1(nv, a[2], a[3]))
    [] a[1] = "cos" -> (* (e^ix + e^-ix) / 2 *)
         Sc(TScale(ZReal(HalfM), TAdd(Exp1(nv, a[2], a[3]), Exp1(nv, NegP(a[2]), ZInv(a[3])))))
    [] a[1] = "sin" -> (* (e^ix - e^-ix) / 2i *)
         Sc(TScale(ZNeg(ZMul(ZI, ZReal(HalfM))), TAdd(Exp1(nv, a[2], a[3]), TNeg(Exp1(nv, NegP(a[2]), ZInv(a[3]))))))
    [] a[1] = "M" -> [sh |-> a[2], t |-> ConstT(nv, <<a[3][1], a[3][2]>>)]
    [] a[1] = "mat" -> LET n == Len(a[2]) m == Len(a[2][1]) IN [sh |-> <<n, m>>, t |-> EvMat(a[2], n, m, n * m, nv)]
    [] a[1] = "kron" -> LET x == Ev(a[2], nv) y == Ev(a[3], nv)
                        IN [sh |-> <<x.sh[1] * y.sh[1], x.sh[2] * y.sh[2]>>,
                            t |-> TMul(x.t, y.t, LAMBDA u, v : VKron(x.sh, u, y.sh, v))]
NonZero(ts) == \A i \in 1..Len(ts) : \E j \in 1..Len(ts[i][3]) : ts[i][3][j] # 0 \/ ts[i][4][j] # 0

JC09(ev, h) ==
  CASE ev.op = "parse" ->
         LET x == Ev(ev.ast, ev.nv)
             sh == IF x.sh = <<>> /\ ~ev.raw THEN <<1, 1>> ELSE x.sh
             r == ev.res
         IN IF r.sh # sh THEN Bad("shape", h)
            ELSE IF r.fmt # ev.fmt THEN Bad("format", h)
            ELSE IF r.mom # ev.mom THEN Bad("momenta", h)
            ELSE IF FromTerms(r.t) # x.t THEN Bad("value", h)
            ELSE IF ev.norm /\ ~r.nf THEN Bad("key-not-a-product-of-symbols", h)
            ELSE IF ev.norm /\ ~DistinctKeys(r.t) THEN Bad("duplicate-keys", h)
            ELSE IF ev.norm /\ ~NonZero(r.t) THEN Bad("zero-term-stored", h)
            ELSE Ok(Append(h, Mk(sh, ev.fmt, ev.mom, {}, x.t)))
    [] ev.op = "same" -> Clauses(<< <<"locals-changed", ev.same>> >>, h)
    [] OTHER -> JModel(ev, h)
==========================================================================
