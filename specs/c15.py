"""C15: the decision heuristic only changes the sign of the proposed literal."""
import z3
from cxxwp.interp import Contract
from cxxwp.prove import Module
from . import har, pr, gr, wr
from .pr import D, fr

PROP = "C15"
LEVEL = "proof"


def enums(t, name):
    return pr.enum_val(t, name)


def violated(s, lit):
    """The first edge of the literal is violated by the current values of the thread."""
    t = s.this
    g = t.states_[s.arg(0)].graph
    e = t.lit_to_edges_.at(lit, 0)
    ed = t.edges_[e]
    p = lambda v: z3.If(g.has_[v], g.pot_[v], 0)
    return z3.And(t.lit_to_edges_.n(lit) > 0, p(fr(ed)) + ed.weight - p(ed.to) < 0)


def decide():
    def ens(s):
        r, f = s.result, s.arg(2)
        off, lo, hi = (s.this.conf_.decision_mode == k for k in MODES)
        v = lambda l: violated(s, l)
        return [("sign", z3.Or(r == f, r == -f)),
                ("disabled", z3.Implies(off, r == f)),
                # a violated edge is only made true if its complement makes one true, too
                ("min-keep", z3.Implies(z3.And(lo, r == f, f != 0), z3.Not(v(f)))),
                ("min-switch", z3.Implies(z3.And(lo, r == -f, f != 0, v(-f)), v(f))),
                ("max-keep", z3.Implies(z3.And(hi, r == f, f != 0, v(-f)), v(f))),
                ("max-switch", z3.Implies(z3.And(hi, r == -f, f != 0), z3.Or(v(-f), z3.Not(v(f)))))]
    return Contract(D + "decide", ensures=ens, modifies=[],
                    requires=lambda s: [("mode", z3.Or(*(s.this.conf_.decision_mode == k for k in MODES)))])


MODES = (0, 1, 2)


def prep(ex):
    pr.prepare(ex)


EXTS = dict(pr.EXTS)
EXTS["enum"] = lambda t, name: {"Disabled": 0, "MinConflict": 1, "MaxConflict": 2}.get(name) if t == "DecisionMode" else pr.enum_val(t, name)


def modules(tier):
    return [gr.module(("edge_is_negative",)),
            Module("decide", pr.SRC, pr.graph_contracts(("edge_is_negative",)) + [decide()], externals=EXTS, prepare=prep),
            wr.module(wr.callbacks("decide"))]


HARNESS = [har.graph()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials and costs do not overflow"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "decide returns the proposed literal or its complement, never changes it when disabled, and chooses the sign by the violation of the first edge of the literal."
