------------------------------- MODULE C20 -------------------------------
EXTENDS Family
JC20(ev, h) == JFamily(ev, h)
==========================================================================
