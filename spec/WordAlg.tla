------------------------------ MODULE WordAlg ------------------------------
(* Laws of the operator algebra on all small expressions with two letters      *)
(* that do not commute and one that does.                                      *)
EXTENDS Words
CONSTANTS L         \* longest word
VARIABLES f, g, h
NV == 3
NC == {1, 2}
Keys == {<<w, <<0, 0, m>>>> : w \in UNION {[1..n -> NC] : n \in 0..L}, m \in 0..1}
Small == {WZero} \cup {k :> z : k \in Keys, z \in {Z1, ZI}} \cup
         {WAdd(k :> Z1, l :> ZNeg(ZI)) : k \in {x \in Keys : Len(x[1]) = 1}, l \in {x \in Keys : Len(x[1]) <= 1}}
Init == f \in Small /\ g \in Small /\ h \in {x \in Small : Cardinality(DOMAIN x) <= 1 /\ (L > 1 \/ \A k \in DOMAIN x : x[k] = Z1 /\ k[2][3] = 0)}
Next == UNCHANGED <<f, g, h>>
Spec == Init /\ [][Next]_<<f, g, h>>
Assoc == WMul(WMul(f, g), h) = WMul(f, WMul(g, h))
Distrib == WMul(f, WAdd(g, h)) = WAdd(WMul(f, g), WMul(f, h)) /\ WMul(WAdd(f, g), h) = WAdd(WMul(f, h), WMul(g, h))
(* making letters commute respects sums and products                            *)
Hom == (h # WZero) \/
       \A nc \in SUBSET NC : /\ WComm(WAdd(f, g), nc) = WAdd(WComm(f, nc), WComm(g, nc))
                              /\ WComm(WMul(f, g), nc) = WComm(WMul(WComm(f, nc), WComm(g, nc)), nc)
(* monomials times coefficients add up to the commuting expression              *)
Split == (h # WZero) \/
         \A S \in SUBSET (1..NV) :
           LET c == WComm(WMul(f, g), {})
               RECURSIVE Sum(_)
               Sum(Q) == IF Q = {} THEN WZero ELSE LET k == CHOOSE x \in Q : TRUE IN WAdd(Sum(Q \ {k}), WMul(k :> Z1, WRest(c, S, k)))
           IN Sum(WMons(c, S)) = c
(* evaluation is a homomorphism                                                 *)
Pt == <<ZReal(2), ZI, ZReal(3)>>
Eval == (h # WZero) \/ (/\ WAt(WMul(f, g), Pt) = ZMul(WAt(f, Pt), WAt(g, Pt))
                         /\ WAt(WAdd(f, g), Pt) = ZAdd(WAt(f, Pt), WAt(g, Pt)))
=============================================================================
