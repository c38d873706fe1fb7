"""C07: parsing of difference terms."""
from . import har, ps

PROP = "C07"
LEVEL = "proof"


def modules(tier):
    return ps.modules(tier)


HARNESS = [har.parse()]
SECS = (10, 90)
SEARCH_SECS = 40
TIMEOUT = 60
ASSUMPTIONS = ["only the instantiation T=int is covered", "checked arithmetic returns exact results or throws (proved in C08); exceptions of callees end the function",
               "the given function maps symbols to indices below 2^31-1 (C09)", "theory terms are finite trees that do not change (structural induction over terms justifies the recursive definition of their value)",
               "strtod and stod are functions of the text", "symbols with equal structure are equal",
               "converting a floating point number that is out of range to int yields some int (such texts are rejected afterwards)", "termination is not shown"]
BOUNDED_SCOPE = "random theory terms evaluated by an independent evaluator"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = ("SIGMA is an arbitrary integer valuation of symbols, TVAL(t) the value of a term under it and P(a, v, n) the value of the sum of the first n products. parse_elem appends products whose sum is TVAL(t) and keeps "
               "the previous ones (a recursive call is replaced by the contract), simplify keeps the difference of sum and right-hand side, drops zeros and merges variables, and parse returns a sum whose difference to the right-hand side "
               "is the value of the element minus the value of the guard. As this holds for every valuation, terms with products of variables, which have no linear value, cannot be accepted; it is proved that products are rejected "
               "only if both factors contain variables. Machine arithmetic is exact here.")
