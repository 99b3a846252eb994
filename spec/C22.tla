------------------------------- MODULE C22 -------------------------------
(* Pairing terms: see JPairing in Family.  The momenta a returned model is    *)
(* labelled with are judged in an event of their own.                         *)
EXTENDS Family
JC22(ev, h) ==
  CASE ev.op = "pairing" -> JPairing(ev, h)
    [] ev.op = "momenta" -> Clauses(<< <<"default-momenta-instead-of-requested-ones", ~\E i \in 1..Len(ev.got) : ev.got[i] # ev.want /\ ev.got[i] = <<"k_x", "k_y", "k_z">> >>,
                                          <<"wrong-momenta", \A i \in 1..Len(ev.got) : ev.got[i] = ev.want>> >>, h)
    [] ev.op = "reject" -> Clauses(<< <<"invalid-square-accepted", ev.raised>> >>, h)
==========================================================================
