----------------------------- MODULE ClosureAlg -----------------------------
(* Design model of the generation of a group from generators.  Elements are    *)
(* 1..Len(T) of an extended group (spatial part together with the unitary part *)
(* up to a phase) with multiplication table T; two elements that compare equal *)
(* have the same q.  Sets hold one representative of each class: which of      *)
(* several equal products enters a set is not determined, one that is already   *)
(* present stays.  TLC explores every set of generators and every choice.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Doc == JsonDeserialize(IOEnv.TABLE_FILE)
T == Doc.T
q == Doc.q
G == 1..Len(T)
Mul(A, B) == {T[a][b] : a \in A, b \in B}
Q(A) == {q[a] : a \in A}
RECURSIVE Clo(_)
Clo(A) == LET B == A \cup Mul(A, A) IN IF B = A THEN A ELSE Clo(B)
(* sets of representatives of the classes of A that are not in X             *)
Reps(A, X) == LET C == Q(A) \ Q(X) IN
  {R \in SUBSET {a \in A : q[a] \in C} : Cardinality(R) = Cardinality(C) /\ Q(R) = C}

VARIABLES gens, group, old, done
vars == <<gens, group, old, done>>
Init == /\ gens \in {g \in SUBSET G : Cardinality(g) <= Doc.ngen /\ Cardinality(Q(g)) = Cardinality(g)}
        /\ group = gens /\ old = gens /\ done = FALSE
        /\ PrintT(<<"CASE", gens>>)
Next == /\ ~done
        /\ \E new \in Reps(Mul(old, gens), group) :
             IF new = {} THEN /\ done' = TRUE /\ UNCHANGED <<group, old>>
             ELSE /\ group' = group \cup new /\ old' = new /\ done' = FALSE
        /\ UNCHANGED gens
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Members == group \subseteq Clo(gens)
NoDuplicates == Cardinality(Q(group)) = Cardinality(group)
Closed == done => Q(group) = Q(Clo(gens))
Ends == <>done
=============================================================================
