"""C04: backtracking restores the graph state of the decision level exactly."""
from . import har, un, wr

PROP = "C04"
LEVEL = "proof"


def modules(tier):
    return un.modules(tier) + [wr.module(wr.callbacks("undo", "propagate"))]


HARNESS = [har.graph()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 90
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials, bounds and costs do not overflow (mathematical integers)",
               "the preconditions and assertions of the functions that do not concern backtracking hold where these are called (discharged for C02 and C03)",
               "trails have fewer than 2^32 entries",
               "levels are undone in the reverse order in which they have been entered, on the level of the last trail entry (guaranteed by the solver)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("The snapshot of a level is given by uninterpreted functions. ensure_decision_level establishes that undoing the (empty) trail segment yields the snapshot, "
               "set_potential_, check_cycle_, disable_edge, cheap and simple propagation, dijkstra_bounds, propagate_edges, zero and full propagation and add_edge preserve it, and backtrack yields a state "
               "that equals the snapshot in potentials, edge lists, enabled edges, bounds, paths of bounds and all trails; moreover enabled edges are listed as candidates of both ends.")
