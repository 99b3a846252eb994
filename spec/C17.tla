------------------------------- MODULE C17 -------------------------------
EXTENDS Conserved
JC17(ev, h) == IF ev.op = "conserved" THEN JConserved(ev, h) ELSE JRotations(ev, h)
==========================================================================
