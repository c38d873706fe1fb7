"""C01: reported integer assignments satisfy every true difference constraint."""
import z3
from cxxwp.exec import Ext
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import har, pr, gr, wr, c14
from .pr import D, I, B, fr

PROP = "C01"
LEVEL = "proof"


def satisfied(s, e, tid):
    """Both ends of the edge have values and their difference is at most the weight."""
    ed = s.this.edges_[e]
    g = s.this.states_[tid].graph
    return z3.And(g.has_[fr(ed)], g.has_[ed.to], -g.pot_[fr(ed)] + g.pot_[ed.to] <= ed.weight)


def upto(s, n, tid):
    k = z3.Int("k")
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, pr.e_true(s, s.this.edges_[k].lit)), satisfied(s, k, tid)))


def check():
    return Contract(D + "check", modifies=None, requires=lambda s: [("edges", s.this.edges_.len >= 0)],
                    ensures=lambda s: [("solution", z3.Implies(s.g("total"), upto(s, s.this.edges_.len, s.g("tid"))))],
                    ensures_throw=lambda s: [("error", z3.And(s.g("total"), z3.Not(upto(s, s.this.edges_.len, s.g("tid")))))],
                    loops=[Loop(lambda l: [("checked", z3.And(0 <= l.i, l.i <= l.this.edges_.len, upto(l, l.i, l.g("tid"))))])])


def do_propagate():
    # nothing is assumed about what propagation does to the state of threads and the assignment
    return pr.assumed(Contract(D + "do_propagate", modifies=["this.states_", "ghost:tv", "ghost:total"], ensures=lambda s: []))


def values():
    """Values are reported relative to the zero node of the component: the difference of two variables of a
    component is unchanged, and the zero node itself has the value zero."""
    F = lambda n, *so: z3.Function(n, *so)
    has, pot, zero, cc = F("has", I, B), F("pot", I, I), F("zero", I, I), F("cc", I, I)
    u, v, w = z3.Ints("u v w")
    val = lambda x: -pot(x) - z3.If(has(zero(cc(x))), -pot(zero(cc(x))), 0)
    rep = lambda x: z3.If(zero(cc(x)) == x, 0, val(x))   # the constant zero denotes the value zero
    return [("reported-values", [has(u), has(v), -pot(u) + pot(v) <= w, cc(u) == cc(v)], rep(u) - rep(v) <= w)]


def prep(ex):
    pr.prepare(ex)


EXTS = dict(pr.EXTS)
EXTS["ctor:Clingo::Span<int>"] = lambda ex, n, args: Ext("span")


def modules(tier):
    return [gr.module(("has_value", "get_value")),
            Module("check", pr.SRC, pr.graph_contracts(("has_value", "get_value")) + [do_propagate(), check()], externals=EXTS, prepare=prep, lemmas=values())] + c14.modules(tier)[1:2] + [wr.module(wr.callbacks("check") + wr.model())]


HARNESS = [har.graph(), har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials and costs do not overflow"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver; random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "check returns on a total assignment only if the potentials of the thread satisfy every edge whose literal is true, and throws otherwise; extend_model reports the value of lower_bound for each reported variable; a lemma shows that reported differences within a component are those of the potentials."
