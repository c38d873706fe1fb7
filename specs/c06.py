"""C06: normalization of constraints preserves the meaning of relations."""
from . import har, nz

PROP = "C06"
LEVEL = "proof"


def modules(tier):
    return nz.modules(tier)


HARNESS = [har.graph(), har.e2e()]
SECS = (20, 120)
SEARCH_SECS = 60
TIMEOUT = 60
ASSUMPTIONS = ["only the instantiation T=int is covered", "safe_add, safe_sub and safe_inv return exact results or throw (proved in C08); exceptions of callees end the function",
               "the solver introduces literals that are not in use, complementary literals have complementary values, literal 1 is true, and the assignment on the top level does not change while constraints are added (normalization does not propagate)",
               "the constructor maps the number 0 to a vertex, whose value is zero", "parse returns an equivalent constraint and adds vertices only by the given function (C07)",
               "init.theory_atoms, solver_literal and the terms of atoms do not change during initialization"]
BOUNDED_SCOPE = "random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 4 threads) solved with the real solver and compared with brute force; random graphs on the real propagator with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("The ghost formula sat is the conjunction of l -> VAL(u) - VAL(v) <= w for all edges and of all clauses added, for an arbitrary valuation VAL of the vertices and an arbitrary set of literals that hold. "
               "For every relation and both semantics it is proved that projecting out the new literals from sat is equivalent to the conjunction of the previous formula with the meaning of the constraint if the function returns true, "
               "that edges are only added for sums of the accepted form, and that the exception is thrown only for other sums. Machine arithmetic is exact here. The meaning of all theory atoms follows by induction over the atoms.")
