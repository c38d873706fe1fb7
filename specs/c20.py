"""C20: mutexes exclude only jointly infeasible constraints."""
from . import har, mx

PROP = "C20"
LEVEL = "proof"


def modules(tier):
    from . import cc
    return [mx.module()] + cc.modules(tier)


HARNESS = [har.graph(), har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 60
ASSUMPTIONS = ["only the instantiation T=int is covered", "weights of paths do not overflow (mathematical integers)",
               "a set of negated literals that is justified for every integer assignment contains the edges of a negative cycle (Farkas lemma for difference constraints, not mechanised)",
               "there are fewer than 2^31 vertices", "adding edges during initialization keeps their ends in the table of vertices (proved in C19)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver; random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("Let sigma be an arbitrary assignment of integers to the vertices and holds an arbitrary set of literals such that sigma satisfies the constraints of all edges with literals that hold. "
               "The entries of the queue are paths starting with the start edge, and every clause that is added carries the obligation that it contains a literal that holds. "
               "The lists of edges used for the search are those established by the computation of components, which is verified, too.")
