----------------------------- MODULE Groups -----------------------------
(* Finite groups of symmetry elements: closure, subgroups.                  *)
EXTENDS PointGroup

(* Representative of an element modulo the phase of the (unitary) U part.   *)
NormU(U) ==
  IF U = NoU THEN NoU
  ELSE LET n == Len(U[1])
           nz == {k \in 1..(n * n) : U[1][((k - 1) \div n) + 1][((k - 1) % n) + 1] # 0}
       IN IF nz = {} THEN U
          ELSE LET k == CHOOSE k \in nz : \A m \in nz : k <= m
                   i == ((k - 1) \div n) + 1
                   j == ((k - 1) % n) + 1
               IN MScale(<<InvM(U[1][i][j]), InvM(U[2][i][j])>>, U)
Canon(x) == TLCEval([R |-> x.R, c |-> x.c, a |-> x.a, U |-> NormU(x.U), s |-> FALSE])
BaseOnly(x) == [R |-> x.R, c |-> x.c, a |-> x.a, U |-> NoU, s |-> FALSE]

(* Closure under multiplication, as breadth-first search.                  *)
RECURSIVE CloseBFS(_, _, _)
CloseBFS(all, front, gens) ==
  IF front = {} \/ Cardinality(all) > 2000 THEN all
  ELSE LET new == TLCEval({Canon(EMul(x, g)) : x \in front, g \in gens} \ all)
       IN CloseBFS(all \cup new, new, gens)
Closure(gens) == LET g == TLCEval({Canon(x) : x \in gens}) IN TLCEval(CloseBFS(g, g, g))
(* closure of the real-space parts only                                     *)
ClosureBase(gens) == Closure({BaseOnly(x) : x \in gens})

(* Subgroups of a finite group given by its multiplication table over 1..n  *)
RECURSIVE SubClose(_, _, _, _)
SubClose(all, front, gens, T) ==
  IF front = {} THEN all
  ELSE LET new == {T[x][g] : x \in front, g \in gens} \ all
       IN SubClose(all \cup new, new, gens, T)
SubGen(gens, T) == SubClose(gens, gens, gens, T)
(* found: set of subgroups; front: set of <<subgroup, generators>> found in   *)
(* the previous round, one pair per subgroup                                *)
RECURSIVE SubAll(_, _, _, _)
SubAll(found, front, reps, T) ==
  IF front = {} THEN found
  ELSE LET ext == TLCEval({<<SubGen(p[2] \cup {g}, T), p[2] \cup {g}>> : p \in front, g \in reps})
           newH == TLCEval({q[1] : q \in ext} \ found)
           new == TLCEval({<<H, (CHOOSE q \in ext : q[1] = H)[2]>> : H \in newH})
       IN SubAll(found \cup newH, new, reps, T)
AllSubgroups(T) ==
  LET cyc == TLCEval([g \in 1..Len(T) |-> SubGen({g}, T)])
      H1 == TLCEval({cyc[g] : g \in 1..Len(T)})
      (* one generator for each cyclic subgroup *)
      first == TLCEval({<<H, CHOOSE g \in 1..Len(T) : cyc[g] = H>> : H \in H1})
      reps == {p[2] : p \in first}
  IN SubAll(H1, {<<p[1], {p[2]}>> : p \in first}, reps, T)
==========================================================================
