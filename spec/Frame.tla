------------------------------ MODULE Frame ------------------------------
(***************************************************************************)
(* Trace validation frame.  The harness records sessions against the real  *)
(* library; each session is a sequence of events (public call, arguments,  *)
(* projected result).  The state machine below replays every session: its  *)
(* state is the abstract heap of the specification.  Judge is the          *)
(* specification of the events: given the event and the heap it returns     *)
(* the successor heap and the name of the first violated clause ("ok" if    *)
(* the event is allowed).                                                  *)
(***************************************************************************)
EXTENDS Mat, Json, IOUtils

CONSTANT Judge(_, _)

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces

Ok(h) == [v |-> "ok", h |-> h]
Bad(clause, h) == [v |-> clause, h |-> h]
(* First violated clause of a sequence of <<name, truth>> pairs.           *)
RECURSIVE FirstBad(_, _)
FirstBad(cs, i) == IF i > Len(cs) THEN "ok" ELSE IF cs[i][2] THEN FirstBad(cs, i + 1) ELSE cs[i][1]
Clauses(cs, h) == [v |-> FirstBad(cs, 1), h |-> h]

VARIABLES trc, pos, heap, verdict
vars == <<trc, pos, heap, verdict>>

TInit == /\ trc \in 1..Len(Traces)
         /\ pos = 1
         /\ heap = <<>>
         /\ verdict = "ok"

TNext == /\ verdict = "ok"
         /\ pos <= Len(Traces[trc])
         (* a singleton quantifier makes TLC evaluate the judgement once    *)
         /\ \E r \in {LET ev == Traces[trc][pos] IN
                       IF ev.op = "raised" THEN Bad("call-raised-on-valid-input", heap)
                       ELSE Judge(ev, heap)} :
                /\ heap' = r.h
                /\ verdict' = r.v
                /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"FAIL", trc, pos, r.v>>)
         /\ pos' = pos + 1
         /\ trc' = trc

TSpec == TInit /\ [][TNext]_vars

==========================================================================
