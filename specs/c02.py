"""C02: adding an edge succeeds exactly if no negative cycle arises."""
from cxxwp.prove import Module
from . import har, gr, hp, cy

PROP = "C02"
LEVEL = "proof"


def base():
    return [gr.set_potential(), gr.current_level()] + hp.contracts("From")


def modules(tier):
    return [Module("potentials", gr.SRC, [gr.set_potential(), gr.current_level()], externals={}),
            hp.module("From", "heap"),
            cy.module("search"), cy.module("result")]


HARNESS = [har.graph()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 90
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials and costs do not overflow (mathematical integers)",
               "the search visits fewer than 2^32-1 vertices and the queue holds fewer than 2^30",
               "a graph that no integer assignment satisfies has a negative cycle, and one with feasible potentials has none (Farkas/telescoping sum, not mechanised)"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "check_cycle_ extends feasible potentials to the added edge or yields a path that closes a negative cycle and leaves the potentials alone (paths are represented by the sum of their weights, for an arbitrary valuation); the queue is verified against its contract for the same view of the graph."
