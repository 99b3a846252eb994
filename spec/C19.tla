------------------------------- MODULE C19 -------------------------------
EXTENDS Bravais
JC19(ev, h) == JBravais(ev, h)
==========================================================================
