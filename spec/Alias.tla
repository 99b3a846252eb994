------------------------------ MODULE Alias ------------------------------
(* Design model of object identity.  Objects own memory cells; a model made  *)
(* by an operation of Indep owns fresh cells, one made by an operation of    *)
(* Share may own cells of its operands (conservatively: all of them).  An    *)
(* in-place modification writes all cells of its target, nothing else writes.*)
(* TLC explores every word of operations up to length K; the words are       *)
(* printed and replayed in the library, every word followed by an in-place   *)
(* modification of each object in turn.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, Unary, Binary, Share, N0

VARIABLES word, cells, ver, next
vars == <<word, cells, ver, next>>

Init == /\ word = <<>>
        /\ cells = [i \in 1..N0 |-> {i}]
        /\ ver = [i \in 1..N0 |-> 0]
        /\ next = N0 + 1

New(op, i, j) ==
  /\ word' = Append(word, <<op, i, j>>)
  /\ LET c == IF op \in Share THEN cells[i] \cup cells[j] \cup {next} ELSE {next}
     IN cells' = Append(cells, c)
  /\ ver' = Append(ver, 0)
  /\ next' = next + 1
Mutate(i) ==
  /\ word' = Append(word, <<"mutate", i, i>>)
  /\ ver' = [c \in DOMAIN ver |-> IF c \in cells[i] THEN ver[c] + 1 ELSE ver[c]]
  /\ UNCHANGED <<cells, next>>
Next == /\ Len(word) < K
        /\ \/ \E op \in Unary, i \in 1..Len(cells) : New(op, i, i)
           \/ \E op \in Binary, i, j \in 1..Len(cells) : i <= j /\ New(op, i, j)
           \/ \E i \in 1..Len(cells) : Len(word) > 0 /\ Mutate(i)
        /\ IF Len(word') = K THEN PrintT(<<"W", word'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* what an object shows                                                      *)
Value(i) == [c \in cells[i] |-> ver[c]]
(* results of independent operations never share cells with what existed     *)
IsIndep(n) == word[n][1] # "mutate" /\ word[n][1] \notin Share
ObjOf(n) == N0 + Cardinality({m \in 1..n : word[m][1] # "mutate"})
Independent == \A n \in 1..Len(word) : IsIndep(n) => \A i \in 1..(ObjOf(n) - 1) : cells[i] \cap cells[ObjOf(n)] = {}
(* an object that was never the target and shares with no target shows its   *)
(* initial value                                                             *)
Targets == {word[n][2] : n \in {m \in 1..Len(word) : word[m][1] = "mutate"}}
Framed == \A i \in 1..Len(cells) : (\A t \in Targets : cells[i] \cap cells[t] = {}) => \A c \in cells[i] : ver[c] = 0
==========================================================================
