"""C19: consequences of facts stay in force in later steps."""
from . import har, it, fa, st, wr

PROP = "C19"
LEVEL = "proof"


def modules(tier):
    return [it.module()] + st.module() + fa.modules(tier) + [wr.module(wr.callbacks("init"))]


HARNESS = [har.graph(), har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 60
ASSUMPTIONS = ["only the instantiation T=int is covered",
               "the solver calls check on the top level before it accepts a model if the check mode is set accordingly, calls propagate for each watched literal that is or becomes true, and keeps watches between steps",
               "std::sort permutes its range; sets of edges in maps are modelled as sequences per key",
               "the state of the graph is abstracted by three sets of edges and vertices (added, enabled, with value); add_edge adds the edge unless it reports a conflict (specified in C02 for the real state), disabling an edge changes nothing else",
               "the configuration of a thread does not change between steps", "fewer than 2^31 threads and 2^32-1 edges"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver; random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("Literals that become true on the top level are appended to the facts of the thread (propagate). Initialization resets the graphs, sets the limit of the facts of every thread to the number of recorded facts, "
               "enables checks for partial assignments if there are edges of earlier steps, indexes every edge by its literal, and watches the literals of all edges in all threads. "
               "A check on the top level propagates all facts below the limit. Propagation adds every edge of the given literals to the graph unless it is disabled or a conflict is found, "
               "and removes no watch of a literal that has edges.")
