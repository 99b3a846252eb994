------------------------------- MODULE C14 -------------------------------
(* Operations never modify their operands.  Trace events carry digests of    *)
(* every live object after the step; the state keeps the digests and, for    *)
(* each object, the memory cells it may own (see Alias).                     *)
EXTENDS Frame

Same(a, b, n) == \A i \in 1..n : a[i] = b[i]
Fresh(h) == {Len(h) + 1}
JC14(ev, h) ==
  CASE ev.op = "init" -> Ok([i \in 1..Len(ev.dig) |-> [d |-> ev.dig[i], c |-> {i}]])
    [] ev.op = "op" ->
         (* a new object; all others show what they showed                   *)
         LET n == Len(h)
             own == IF ev.share THEN h[ev.i].c \cup h[ev.j].c \cup Fresh(h) ELSE Fresh(h)
         IN Clauses(<< <<"operand-changed", \A i \in 1..n : ev.dig[i] = h[i].d>> >>,
                    Append(h, [d |-> ev.dig[n + 1], c |-> own]))
    [] ev.op = "mutate" ->
         LET n == Len(h) free == {i \in 1..n : h[i].c \cap h[ev.i].c # {}}
         IN Clauses(<< <<"result-not-independent", \A i \in (1..n) \ free : ev.dig[i] = h[i].d>> >>,
                    [i \in 1..n |-> [h[i] EXCEPT !.d = ev.dig[i]]])
    [] ev.op = "repeat" ->
         (* the same operation on unchanged operands after its earlier result *)
         (* was modified in place: the same result                           *)
         Clauses(<< <<"cached-result-modified", ev.first = ev.second>> >>, h)
    [] ev.op = "call" ->
         Clauses(<< <<"argument-changed", ev.before = ev.after>> >>, h)
==========================================================================
