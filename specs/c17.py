"""C17: component computation."""
from . import har, cc, gr

PROP = "C17"
LEVEL = "proof"


def modules(tier):
    return cc.modules(tier)


HARNESS = [har.graph(), har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 60
ASSUMPTIONS = ["only the instantiation T=int is covered", "there are fewer than 2^31 vertices (components are stored in 31 bits)",
               "entries with equal keys of the adjacency lists keep their order (values in multimaps are inserted at arbitrary positions)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver; random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("Both ends of every edge are in the same component, zero vertices are attached to the component of the other end, all other ends, weights and literals are kept, "
               "the zero vertex with index i is in component i, and zero vertices of earlier steps are kept. This holds with and without splitting into components.")
