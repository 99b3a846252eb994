------------------------------- MODULE C16 -------------------------------
(* Completeness of discrete_symmetries.                             *)
EXTENDS Finder
JC16(ev, h) == JFind(ev, h)
==========================================================================
