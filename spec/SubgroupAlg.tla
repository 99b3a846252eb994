---------------------------- MODULE SubgroupAlg -----------------------------
(* Design model of the enumeration of subgroups: extend the subgroups of the   *)
(* previous level by cyclic ones until nothing new, or only the whole group,   *)
(* is found.  Tables T of a list of groups; identity 1.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tabs == JsonDeserialize(IOEnv.TABLE_FILE).T
VARIABLES k, subs, old, done
vars == <<k, subs, old, done>>
T == Tabs[k]
G == 1..Len(T)
Mul(A, B) == {T[a][b] : a \in A, b \in B}
RECURSIVE Clo(_)
Clo(A) == LET B == A \cup Mul(A, A) IN IF B = A THEN A ELSE Clo(B)
Cyc(t) == {LET RECURSIVE P(_, _) P(x, A) == IF x \in A THEN A ELSE P(t[x][g], A \cup {x}) IN P(g, {}) : g \in 1..Len(t)}
Init == /\ k \in 1..Len(Tabs)
        /\ subs = Cyc(Tabs[k]) /\ old = Cyc(Tabs[k]) /\ done = FALSE
Next == /\ ~done
        /\ \E new \in { {Clo(a \cup b) : a \in old, b \in Cyc(T)} \ subs } :
             /\ subs' = subs \cup new
             /\ old' = IF new = {} THEN old ELSE new
             /\ done' = (new = {} \/ \A s \in new : s = G)
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
IsSub(A) == 1 \in A /\ Mul(A, A) = A
Sound == \A A \in subs : IsSub(A)
(* every subgroup is generated by its elements one at a time                   *)
RECURSIVE AllFrom(_)
AllFrom(X) == LET Y == X \cup {Clo(A \cup {g}) : A \in X, g \in G} IN IF Y = X THEN X ELSE AllFrom(Y)
Complete == done => subs = AllFrom({{1}})
Ends == <>done
=============================================================================
