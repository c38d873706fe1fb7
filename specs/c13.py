"""C13: minimization"""
from . import har, op

PROP = "C13"
LEVEL = "proof"


def modules(tier):
    return op.module()


HARNESS = [har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["solving under bounds is sound and complete (clingo together with C01-C04 and C06): it reports a model with a feasible value within the bounds in force or answers unsatisfiable if there is none",
               "values are greater than the smallest int", "double is treated as real number", "step size factors are at least 1 (checked by the option parser)",
               "clingo grounds __ub(s,b) and __sb(s,b) into the bounds stated by the program text", "termination is not shown (the property is about completed runs)"]
BOUNDED_SCOPE = "random programs with a minimized variable, factors, initial bounds and up to 4 threads, compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
