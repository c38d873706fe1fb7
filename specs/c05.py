"""C05: full propagation and propagation through the zero node are complete."""
from . import har, hp, cy, dj, pf, un, sp

PROP = "C05"
LEVEL = "proof"


def modules(tier):
    # the invariants of the paths and bounds and the lists of candidates
    base = [hp.module("From", "queue-original"), hp.module("To", "queue-transposed")] + dj.modules(tier)
    base += [m for m in un.modules(tier) if m.name in ("edges-full", "edges-zero", "simple")]
    if tier != "quick":
        base += [cy.module("search"), cy.module("result")] + [m for m in pf.modules(tier) if m.name in ("propagation", "add")] + [m for m in un.modules(tier) if m.name in ("propagation", "add")]
    return base + sp.modules(tier)


HARNESS = [har.graph()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 90
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials, bounds and costs do not overflow (mathematical integers)",
               "a queue holds fewer than 2^30 vertices, the search visits fewer than 2^32-1",
               "facts about the cardinality of finite sets: the number of relevant elements of a queue changes with the element that changes, and is zero if and only if there is none",
               "walks are the least relation that contains the empty walks and is closed under extension (rule induction)",
               "preconditions and assertions that do not concern completeness hold where functions are called (discharged for C02, C03 and C04; by this check, too, in the thorough tier)",
               "a disabled edge has an assigned literal: disable_edge is only called for edges that are implied or close a cycle (proved here) or whose literal is false, and backtracking enables edges again (C04)",
               "the zero node passed to add_edge is the one of the component of the edge (C17), and all true edges are added in turn (C19)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("Let xy be the edge that is added and REACH(a,b,c) state that there is a walk from a to b of weight at most c over edges of the graph other than xy. dijkstra_full ends with every walk "
               "over xy matched by the tree or by a walk without xy (relevant vertices have left the queue: num_relevant counts those left). propagate_edges checks every enabled edge at a visited vertex. Hence, after "
               "propagate_full_ returns true, no enabled edge closes a negative cycle with a walk that uses xy once; given that none closed one without xy, lemmas about walks give that none closes one "
               "at all. For the zero node: the bounds meet the constraints of all edges of the graph, so they are the lengths of shortest walks, and no enabled edge closes a negative cycle by its bounds. "
               "add_edge, simple and cheap propagation preserve both (edges are only disabled).")
