------------------------------- MODULE C15 -------------------------------
(* Soundness, closure and generators of discrete_symmetries.                *)
EXTENDS Finder
JC15(ev, h) == JFind(ev, h)
==========================================================================
