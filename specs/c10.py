"""C10: relation negation and shifting of constraints into the head."""
import z3
from cxxwp.exec import sel, iv, mk_and
from cxxwp.interp import Contract
from cxxwp.prove import Module
from . import har

PROP = "C10"
LEVEL = "proof"
CH = z3.Const("$chars.[]", z3.ArraySort(z3.IntSort(), z3.IntSort()))
OPS = {"=": lambda x: x == 0, "!=": lambda x: x != 0, "<": lambda x: x < 0, "<=": lambda x: x <= 0,
       ">": lambda x: x > 0, ">=": lambda x: x >= 0}


def streq(addr, txt):
    return mk_and([z3.Select(CH, addr + i) == iv(ord(c)) for i, c in enumerate(txt + "\0")])


def is_op(addr):
    return z3.Or([streq(addr, o) for o in OPS])


def holds(addr, x):
    """Truth of `x op 0` for the operator stored at an address."""
    r = z3.BoolVal(False)
    for o, f in OPS.items():
        r = z3.If(streq(addr, o), f(x), r)
    return r


def contracts():
    x = z3.Int("difference")

    def ens(s):
        a = s.argobj(0).idx
        r = s.result.idx
        return [("operator", is_op(r)), ("complement", holds(r, x) == z3.Not(holds(a, x)))]
    return [Contract("negate_relation", ensures=ens,
                     ensures_throw=lambda s: [("only-unknown-operators", z3.Not(is_op(s.argobj(0).idx)))])]


def modules(tier):
    from . import sr, wr
    return [Module("relations", "libclingo-dl/src/parsing.cc", contracts())] + sr.modules(tier) + [wr.module([wr.rewrite()])]


HARNESS = [har.parse()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["nodes of syntax trees are references into a store of attributes: copy yields a fresh reference with the same attributes, set changes the given attribute of the given node only, get of a vector refers to the vector in the node",
               "Boolean constants have value 0 or 1; references in attributes belong to the store",
               "transform_ast rewrites the children of a node with the given visitor and leaves existing nodes unchanged",
               "unpool yields the unpooled statements in order; their union is equivalent to the given statement",
               "Clingo::Function and add_string yield the symbol and string of the given text"]
EXPLANATION = "negate_relation yields the complementary relation for all operators and differences; shift_rule leaves statements other than integrity constraints with a difference constraint in the body unchanged, and otherwise removes one difference literal k from a copy of the body and puts a copy of its atom in the head, with the relation of the atom if the literal is negated and the complement otherwise, without changing existing nodes; TheoryRewriter tags exactly the difference constraints, those in literals as body and others as head constraints, and leaves the rest of the atom as is; transform passes each unpooled statement exactly once and in order, shifted iff shifting is enabled."
BOUNDED_SCOPE = "random rules and integrity constraints with difference constraints passed through transform; result compared with the expected rule text"
RULE = "random statements over all relations, signs, heads and literal kinds; non-trivial: a difference constraint occurs in the body"
