------------------------------- MODULE C27 -------------------------------
EXTENDS LieAlg
JC27(ev, h) == CASE ev.op = "reduced" -> JReduced(ev, h)
                 [] ev.op = "sun" -> JSun(ev, h)
                 [] ev.op = "lie" -> JLie(ev, h)
                 [] ev.op = "open" -> JOpen(ev, h)
                 [] ev.op = "conserved" -> JConserved(ev, h)
                 [] ev.op = "find" -> JFind(ev, h)
==========================================================================
