---------------------------- MODULE FinderLoop ----------------------------
(* Design model of the candidate loop of discrete_symmetries: pick a          *)
(* candidate, test it, and remove candidates whose status follows from group *)
(* theory.  T is the multiplication table of the candidate group over 1..n    *)
(* (1 is the identity).  TLC explores every subgroup S of true symmetries,    *)
(* every set C of candidates and every order of picking.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == JsonDeserialize(IOEnv.TABLE_FILE).T
G == 1..Len(T)
Mul(A, B) == {T[a][b] : a \in A, b \in B}
Inv(a) == CHOOSE b \in G : T[a][b] = 1
RECURSIVE Clo(_)
Clo(A) == LET B == A \cup Mul(A, A) IN IF B = A THEN A ELSE Clo(B)
Gen(A) == Clo(A \cup {1})
Subgroups == {A \in SUBSET G : 1 \in A /\ Mul(A, A) \subseteq A}

VARIABLES S, C, todo, sym, gens, notsym
vars == <<S, C, todo, sym, gens, notsym>>
Init == /\ S \in Subgroups
        /\ C \in (SUBSET G) \ {{}}
        /\ todo = C \ {1}
        /\ sym = {1} /\ gens = {} /\ notsym = {}
        /\ PrintT(<<"CASE", S, C>>)
Step(g) ==
  IF g \in S
  THEN /\ gens' = gens \cup {g}
       /\ sym' = Gen(gens \cup {g})
       /\ LET n0 == Mul({g, Inv(g)}, notsym) \ notsym
              n1 == n0 \cup Mul(n0, {g, Inv(g)})
          IN notsym' = notsym \cup n1
       /\ todo' = (todo \ sym') \ notsym'
  ELSE /\ LET n0 == Mul({g, Inv(g)}, sym) \ notsym
              n1 == n0 \cup Mul(sym, n0)
          IN notsym' = notsym \cup n1
       /\ todo' = todo \ notsym'
       /\ UNCHANGED <<sym, gens>>
Next == /\ todo # {}
        /\ \E g \in todo : Step(g)
        /\ UNCHANGED <<S, C>>
Spec == Init /\ [][Next]_vars

Sound == sym \subseteq S /\ sym = Gen(gens)
NoneExcluded == notsym \cap S = {}
(* a tested non-symmetry leaves the list, otherwise the loop would not end   *)
Progress == todo \cap (sym \cup notsym) = {}
Complete == todo = {} => sym = Gen(C \cap S)
=============================================================================
