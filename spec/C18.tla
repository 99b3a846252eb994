------------------------------- MODULE C18 -------------------------------
EXTENDS Conserved
JC18(ev, h) == IF ev.op = "conserved" THEN JConserved(ev, h) ELSE JRotations(ev, h)
==========================================================================
