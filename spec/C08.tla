------------------------------- MODULE C08 -------------------------------
EXTENDS ModelHeap
JC08(ev, h) == JModel(ev, h)
==========================================================================
