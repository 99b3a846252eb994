---------------------------- MODULE ModelHeap ----------------------------
(* Heap of abstract models and the specification of the operations on them. *)
(* A model: [sh, fmt, mom, keep, t].                                        *)
EXTENDS Frame, Poly

Mk(sh, fmt, mom, keep, tt) == [sh |-> sh, fmt |-> fmt, mom |-> mom, keep |-> keep, t |-> tt]
KeySet(ks) == {<<ks[i][1], ks[i][2]>> : i \in 1..Len(ks)}
Abs(m) == Mk(m.sh, m.fmt, m.mom, KeySet(m.keep), FromTerms(m.t))

(* Comparison of a projected model with the expected one.                   *)
Cmp(E, r) ==
  IF r.sh # E.sh THEN "shape"
  ELSE IF r.fmt # E.fmt THEN "format"
  ELSE IF r.mom # E.mom THEN "momenta"
  ELSE IF ~r.nf THEN "key-not-a-product-of-symbols"
  ELSE IF FromTerms(r.t) # E.t THEN "value"
  ELSE IF ~DistinctKeys(r.t) THEN "duplicate-keys"
  ELSE "ok"
Result(E, r, h) == LET c == Cmp(E, r) IN IF c = "ok" THEN Ok(Append(h, E)) ELSE Bad(c, h)
(* take the keep set over from the observation                              *)
WithKeep(E, r) == [E EXCEPT !.keep = KeySet(r.keep)]
(* without surviving terms the keep set is not specified                   *)
ResultK(E, r, h) == IF E.t = TZero THEN Result(WithKeep(E, r), r, h) ELSE IF KeySet(r.keep) # E.keep THEN Bad("keep-set", h) ELSE Result(E, r, h)
FmtHad(a, b) == IF a = "scalar" THEN b ELSE IF b = "scalar" THEN a ELSE a
FmtMM(a, b, sh) == IF sh = <<>> THEN "scalar" ELSE IF a = b THEN a ELSE "dense"

(* constant function                                                        *)
ConstT(nv, v) == Drop(KOne(nv) :> v)

(* operations                                                               *)
OpAdd(x, y) == [x EXCEPT !.t = TAdd(x.t, y.t)]
OpSub(x, y) == [x EXCEPT !.t = TAdd(x.t, TNeg(y.t))]
OpNeg(x) == [x EXCEPT !.t = TNeg(x.t)]
OpScale(x, z) == [x EXCEPT !.t = TScale(z, x.t)]
HadSh(a, b) == IF a = <<>> THEN b ELSE a
OpMul(x, y) ==
  LET K == x.keep \cup y.keep
  IN Mk(HadSh(x.sh, y.sh), FmtHad(x.fmt, y.fmt), x.mom, K,
        TKeep(TMul(x.t, y.t, LAMBDA u, v : VHad(x.sh, u, y.sh, v)), K))
OpMatMul(x, y) ==
  LET K == x.keep \cup y.keep
      sh == MMShape(x.sh, y.sh)
  IN Mk(sh, FmtMM(x.fmt, y.fmt, sh), x.mom, K,
        TKeep(TMul(x.t, y.t, LAMBDA u, v : VMatMul(x.sh, u, y.sh, v)), K))
OpSymbol(x, key) == [x EXCEPT !.t = TKeep(TShift(x.t, key), x.keep)]
OpConj(x) == [x EXCEPT !.t = TConj(x.t)]
OpT(x) == [x EXCEPT !.sh = IF Len(x.sh) = 2 THEN <<x.sh[2], x.sh[1]>> ELSE x.sh,
                    !.t = TMap(x.t, LAMBDA v : VT(x.sh, v))]
OpTrace(x) == [x EXCEPT !.sh = <<>>, !.fmt = "scalar", !.t = TMap(x.t, LAMBDA v : VTr(x.sh, v))]
OpReshape(x, sh) == [x EXCEPT !.sh = sh]
(* products with a constant array on either side                            *)
OpArr(x, c, left, mm) ==
  LET sh == IF mm THEN (IF left THEN MMShape(c.sh, x.sh) ELSE MMShape(x.sh, c.sh)) ELSE HadSh(x.sh, c.sh)
      f(v) == IF mm THEN (IF left THEN VMatMul(c.sh, c.v, x.sh, v) ELSE VMatMul(x.sh, v, c.sh, c.v))
              ELSE VHad(x.sh, v, c.sh, c.v)
      fm == IF mm THEN FmtMM(x.fmt, c.fmt, sh) ELSE FmtHad(x.fmt, c.fmt)
  IN [x EXCEPT !.sh = sh, !.fmt = fm, !.t = TMap(x.t, f)]
OpConst(x, v, nv) == [x EXCEPT !.t = TAdd(x.t, ConstT(nv, v))]

JModel(ev, h) ==
  CASE ev.op = "new" -> Result([Abs(ev.m) EXCEPT !.t = TKeep(FromTerms(ev.m.t), KeySet(ev.m.keep))], ev.res, h)
    [] ev.op = "add" -> Result(WithKeep(OpAdd(h[ev.x], h[ev.y]), ev.res), ev.res, h)
    [] ev.op = "sub" -> Result(WithKeep(OpSub(h[ev.x], h[ev.y]), ev.res), ev.res, h)
    [] ev.op = "neg" -> ResultK(OpNeg(h[ev.x]), ev.res, h)
    [] ev.op = "scale" -> ResultK(OpScale(h[ev.x], ev.z), ev.res, h)
    [] ev.op = "mul" -> ResultK(OpMul(h[ev.x], h[ev.y]), ev.res, h)
    [] ev.op = "matmul" -> ResultK(OpMatMul(h[ev.x], h[ev.y]), ev.res, h)
    [] ev.op = "symbol" -> ResultK(OpSymbol(h[ev.x], <<ev.key[1], ev.key[2]>>), ev.res, h)
    [] ev.op = "conj" -> Result(WithKeep(OpConj(h[ev.x]), ev.res), ev.res, h)
    [] ev.op = "T" -> Result(WithKeep(OpT(h[ev.x]), ev.res), ev.res, h)
    [] ev.op = "trace" -> Result(WithKeep(OpTrace(h[ev.x]), ev.res), ev.res, h)
    [] ev.op = "reshape" -> Result(WithKeep(OpReshape(h[ev.x], ev.sh), ev.res), ev.res, h)
    [] ev.op = "arr" -> Result(WithKeep(OpArr(h[ev.x], ev.c, ev.left, ev.mm), ev.res), ev.res, h)
    [] ev.op = "const" -> Result(WithKeep(OpConst(h[ev.x], ev.v, ev.nv), ev.res), ev.res, h)
    [] ev.op = "copy" -> ResultK(h[ev.x], ev.res, h)
    [] ev.op = "format" -> Result(WithKeep([h[ev.x] EXCEPT !.fmt = ev.fmt], ev.res), ev.res, h)
    [] ev.op = "eq" -> (* equality of the functions; missing keys are zero   *)
         LET e == h[ev.x].t = h[ev.y].t
         IN Clauses(<< <<"comparison", ev.res = e>>, <<"inequality", ev.ne = ~e>>, <<"comparison-symmetric", ev.sym = e>> >>, h)
    [] ev.op = "eqzero" -> Clauses(<< <<"comparison-with-zero", \A i \in 1..Len(ev.res) : ev.res[i] = (h[ev.x].t = TZero)>> >>, h)
    [] ev.op = "tol" -> Clauses(<< <<"comparison-tolerance", ev.res = ev.expect>> >>, h)
    [] ev.op = "look" -> (* looking a term up: value or zero                  *)
         LET k == <<ev.key[1], ev.key[2]>> m == h[ev.x]
             E == IF k \in DOMAIN m.t THEN m.t[k] ELSE VZero(Size(m.sh))
         IN Clauses(<< <<"lookup-shape", ev.sh = m.sh>>, <<"lookup", ev.v = E>> >>, h)
    [] ev.op = "unchanged" -> (* x is observed again                          *)
         LET c == Cmp(h[ev.x], ev.res) IN IF c = "ok" THEN Ok(h) ELSE Bad("operand-changed-" \o c, h)
    [] ev.op = "around" -> (* fixed-point numbers, scale 10^3 -> multiples of u *)
         LET R(n) == LET q == (IF n < 0 THEN -n ELSE n) s == (2 * q + ev.u) \div (2 * ev.u) IN IF n < 0 THEN -s ELSE s
             E(i) == [j \in 1..Len(ev.vin[i]) |-> <<R(ev.vin[i][j][1]), R(ev.vin[i][j][2])>>]
             Zr(i) == \A j \in 1..Len(ev.vin[i]) : E(i)[j] = <<0, 0>>
         IN Clauses(<< <<"rounding-drops-term", \A i \in 1..Len(ev.vin) : ~Zr(i) => ev.present[i]>>,
                       <<"rounding-keeps-zero", \A i \in 1..Len(ev.vin) : Zr(i) => ~ev.present[i]>>,
                       <<"rounding-adds-term", ev.n = Cardinality({i \in 1..Len(ev.vin) : ~Zr(i)})>>,
                       <<"rounding", \A i \in 1..Len(ev.vin) : ev.present[i] => ev.vout[i] = E(i)>> >>, h)
    [] ev.op = "elimx" -> (* elimination of small terms, exact: term k is the integer
                             matrix v[k] times 10^-e[k]; a term stays iff its Frobenius norm
                             reaches 10^-qa and 10^-qr times the largest norm *)
         LET RECURSIVE Fro(_, _)
             Fro(w, j) == IF j = 0 THEN 0 ELSE w[j][1] * w[j][1] + w[j][2] * w[j][2] + Fro(w, j - 1)
             N == [i \in 1..Len(ev.v) |-> Fro(ev.v[i], Len(ev.v[i])) * 10 ^ (8 - 2 * ev.e[i])]
             mx == CHOOSE m \in {N[i] : i \in 1..Len(N)} : \A i \in 1..Len(N) : N[i] <= m
             Stay(i) == N[i] >= 10 ^ (8 - 2 * ev.qa) /\ N[i] >= (mx + 10 ^ (2 * ev.qr) - 1) \div 10 ^ (2 * ev.qr)
         IN Clauses(<< <<"small-term-kept", \A i \in 1..Len(N) : ~Stay(i) => ~ev.present[i]>>,
                       <<"large-term-lost", \A i \in 1..Len(N) : Stay(i) => ev.present[i]>>,
                       <<"term-changed", ev.same>> >>, h)
    [] ev.op = "elim" -> (* elimination of small terms: fixed-point norms     *)
         Clauses(<< <<"small-term-kept", \A i \in 1..Len(ev.small) : ev.small[i] => ~ev.present[i]>>,
                    <<"large-term-lost", \A i \in 1..Len(ev.small) : ~ev.small[i] => ev.present[i]>>,
                    <<"term-changed", ev.same>> >>, h)
    [] ev.op = "rejects" -> Clauses(<< <<"invalid-input-accepted", \A i \in 1..Len(ev.raised) : ev.raised[i]>> >>, h)
==========================================================================
