"""C03: every clause is implied by the difference constraints."""
from cxxwp.prove import Module
from . import har, gr, hp, cy, pg, dj, pf, wr

PROP = "C03"
LEVEL = "proof"


def modules(tier):
    return [Module("potentials", gr.SRC, [gr.set_potential(), gr.current_level()], externals={}), gr.module(("edge_is_enabled", "can_propagate", "mode"), "queries"),
            hp.module("From", "queue-original"), hp.module("To", "queue-transposed"), cy.module("search"), cy.module("result")] + pg.modules(tier) + dj.modules(tier) + pf.modules(tier) + [wr.module(wr.callbacks("propagate", "check"))]


HARNESS = [har.graph()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 90
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials, bounds and costs do not overflow (mathematical integers)",
               "the search visits fewer than 2^32-1 vertices and the queue holds fewer than 2^30",
               "a set of negated literals that is justified for every integer assignment contains the edges of a negative cycle (Farkas lemma for difference constraints, not mechanised)",
               "edges have no self loops when they are propagated (removed by normalisation and the constructor of the graph)",
               "the graph invariants that add_edge requires hold after construction and backtracking (see C04)",
               "the two ends of an edge have the same zero node (see C17)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("Let sigma be an arbitrary assignment of integers to the vertices and holds an arbitrary set of literals that are true such that sigma satisfies the constraints of "
               "all edges with true literals. Every call to add_clause carries the obligation that the clause contains a true literal. As this holds for all sigma and holds, "
               "no integer assignment satisfies the constraints of all edges whose literals the clause negates.")
