"""Full propagation and propagation through the zero node: every clause is implied by the constraints."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp, cy, pg, dj
from .cy import A, SIGMA, HOLDS, consistent, falsified
from .dj import DV, BV, INVALID, IMPL
from .gr import G, SRC
from .pg import CAND
from .pr import I, B

T = {True: ["-1"], False: ["0"]}     # template argument


class Trees:
    """Shortest paths in both directions."""

    def __init__(self, s, full, xy):
        self.f, self.t, self.full, self.xy = BV(s.this, "From"), BV(s.this, "To"), full, xy

    def inv(self):
        f, t, xy = self.f, self.t, self.xy
        if self.full:
            return [("xy", z3.And(0 <= xy, xy < f.e.len, f.frm(xy) != f.to(xy)))] + [("from-" + n, x) for n, x in f.paths(xy)] + [("to-" + n, x) for n, x in t.paths(xy)] + [
                ("ends", z3.And(f.visited(f.frm(xy)), t.visited(t.to(xy))))] + self.relevance()
        return [("zeros-" + n, x) for n, x in f.zeros()] + [("from-" + n, x) for n, x in f.btree()] + [("to-" + n, x) for n, x in t.btree()]

    def relevance(self):
        x = z3.Int("x")
        return [("relevant-visited", A([x], self.f.V(x), z3.And(z3.Implies(self.f.relevant(x), self.f.visited(x)), z3.Implies(self.t.relevant(x), self.t.visited(x)))))]

    def rel(self, g, x):
        return g.relevant(x) if self.full else g.bvisited(x)

    def forward(self, c, u, e):
        """The part of the path up to edge e justifies the costs of u."""
        f, xy = self.f, self.xy
        v = f.to(e)
        fc = falsified(c)
        ok = z3.And(0 <= e, e < f.e.len)
        if not self.full:
            return z3.If(e == INVALID, z3.Implies(fc, SIGMA(ROOT(u)) - SIGMA(u) <= f.bound(u)),
                         z3.And(ok, f.bvisited(v), f.bpath(v) == e, ROOT(v) == ROOT(u), f.V(v), z3.Implies(fc, SIGMA(v) - SIGMA(u) <= f.bound(u) - f.bound(v))))
        L = lambda x: f.cost(x) + f.pot(x)
        x, y = f.frm(xy), f.to(xy)
        past = z3.Implies(fc, z3.And(f.meets(xy), SIGMA(y) - SIGMA(u) <= L(u) - f.pot(x) - f.w(xy)))
        return z3.If(e == INVALID, past, z3.And(ok, f.visited(v), f.path(v) == e, v != x, z3.Or(past, z3.And(f.relevant(v), z3.Implies(fc, SIGMA(v) - SIGMA(u) <= L(u) - L(v))))))

    def backward(self, c, v, e):
        t, xy = self.t, self.xy
        u = t.frm(e)
        fc = falsified(c)
        ok = z3.And(0 <= e, e < t.e.len)
        if not self.full:
            return z3.If(e == INVALID, z3.Implies(fc, SIGMA(v) - SIGMA(ROOT(v)) <= t.bound(v)),
                         z3.And(ok, t.bvisited(u), t.bpath(u) == e, ROOT(u) == ROOT(v), t.V(u), z3.Implies(fc, SIGMA(v) - SIGMA(u) <= t.bound(v) - t.bound(u))))
        L = lambda x: t.cost(x) - t.pot(x)
        x, y = t.frm(xy), t.to(xy)
        past = z3.Implies(fc, SIGMA(v) - SIGMA(x) <= L(v) + t.pot(y) - t.w(xy))
        return z3.If(e == INVALID, past, z3.And(ok, t.visited(u), t.path(u) == e, u != y, z3.Or(past, z3.And(t.relevant(u), z3.Implies(fc, SIGMA(v) - SIGMA(u) <= L(v) - L(u))))))


ROOT = dj.ROOT


def common(s, full, e, xy):
    t = Trees(s, full, xy)
    return [("edge", z3.And(0 <= e, e < t.f.e.len)), ("ends", t.f.ends()), ("edges", t.f.e.len < INVALID), ("enabled", s.this.edge_states_[e].enabled != 0)]


def edge_true(full):
    def req(s):
        e, xy = s.arg(0), s.arg(1)
        t = Trees(s, full, xy)
        u, v = t.f.frm(e), t.f.to(e)
        return common(s, full, e, xy) + [("some", z3.Or(t.rel(t.t, u), t.rel(t.f, v)))]

    def ens(s):
        e = s.arg(0)
        return [("disabled", z3.Implies(s.result, s.this.edge_states_[e].enabled == 0))]
    return Contract(G + "propagate_edge_true_", targs=T[full], requires=req, ensures=ens,
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled", "this.stats_"])


def edge_false(full):
    def req(s):
        e, xy = s.arg(1), s.arg(2)
        t = Trees(s, full, xy)
        u, v = t.f.frm(e), t.f.to(e)
        return common(s, full, e, xy) + [("some", z3.Or(t.rel(t.t, v), t.rel(t.f, u))), ("sigma", consistent(s)),
                                         ("component", ROOT(u) == ROOT(v))] + t.inv()

    def step(fwd):
        def f(l):
            g = BV(l.this, "From")
            c, d, k, e = l.this.clause_, l.head.this.clause_, z3.Int("k"), l.head.local("next_edge_idx")
            return [("prefix", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.len), c[k] == d[k]), patterns=[d[k]])),
                    ("literal", z3.Implies(falsified(c), z3.Not(HOLDS(-g.lit(e))))), ("shorter", z3.Implies(falsified(c), falsified(d))),
                    ("meets", z3.Implies(falsified(c), g.meets(e)))]
        return f

    def first(l):
        t, e = Trees(l, full, l.arg(2)), l.arg(1)
        return [("forward", t.forward(l.this.clause_, t.f.frm(e), l.local("next_edge_idx"))), ("literal", z3.Implies(falsified(l.this.clause_), t.f.meets(e)))]

    def second(l):
        t, e = Trees(l, full, l.arg(2)), l.arg(1)
        c = l.this.clause_
        return [("backward", t.backward(c, t.f.to(e), l.local("next_edge_idx"))), ("forward", t.forward(c, t.f.frm(e), z3.IntVal(INVALID))),
                ("literal", z3.Implies(falsified(c), t.f.meets(e)))]

    def ens(s):
        e = s.arg(1)
        cl, oc = s.g("clauses"), s.old.g("clauses")
        return [("disabled", z3.Implies(s.result, s.this.edge_states_[e].enabled == 0)), ("clauses", cl >= oc),
                ("conflict", z3.Implies(z3.And(s.old.arg(3), z3.Not(s.arg(3))), cl > oc))]
    return Contract(G + "propagate_edge_false_", targs=T[full], requires=req, ensures=ens,
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled", "this.stats_", "this.clause_",
                              "arg3", "ghost:clauses"],
                    loops=[Loop(first, name="forward", step_cuts=step(True)), Loop(second, name="backward", step_cuts=step(False))])


def components(s):
    g, e = BV(s.this, "From"), z3.Int("e")
    return A([e], z3.And(0 <= e, e < g.e.len), ROOT(g.frm(e)) == ROOT(g.to(e)))


def edges(d, full):
    def state(s, xy):
        t = Trees(s, full, xy)
        g = BV(s.this, d)
        k, vl = z3.Int("k"), g.vlist()
        return [("visited", A([k], z3.And(0 <= k, k < vl.len), z3.And(g.V(vl[k]), z3.BoolVal(True) if full else g.bvisited(vl[k])))),
                ("ends", t.f.ends()), ("edges", t.f.e.len < INVALID), ("candidates", t.f.candidates()), ("sigma", consistent(s)), ("components", components(s))] + t.inv()

    def vertices(l):
        return [("candidates", BV(l.this, d).candidates()), ("clauses", l.g("clauses") >= l.old.g("clauses"))]

    def scan(back):
        def inv(l):
            g, v = BV(l.outer.this, d), l.local("vertex")
            lst = (g.cout if back == (d == "From") else g.cin)(v)
            out = [("candidates", g.candidates()), ("clauses", l.g("clauses") >= l.old.g("clauses")), ("length", lst.len == l.end)]
            if back:
                out.append(("conflict", z3.Or(l.local("ret"), l.g("clauses") > l.old.g("clauses"))))
            return out
        return inv

    def ens(s):
        return pg.result(s)
    return Contract(IMPL[d] + "propagate_edges", targs=T[full], requires=lambda s: state(s, s.arg(1)), ensures=ens,
                    modifies=CAND + ["this.vertices_[].candidate_outgoing"],
                    loops=[Loop(vertices, name="vertices"), Loop(scan(False), name="true"), Loop(scan(True), name="false")])


def invariant(s, visited=False):
    """What holds for the graph between additions of edges."""
    f, t = BV(s.this, "From"), BV(s.this, "To")
    x, e = z3.Ints("x e")
    out = [("ends", f.ends()), ("edges", f.e.len < INVALID), ("outgoing", f.listed()), ("incoming", t.listed()),
           ("mirror", f.mirror()),
           ("candidates", f.candidates()), ("sigma", consistent(s)), ("feasible", f.feasible()),
           ("relevant", A([x], f.V(x), z3.And(z3.Not(f.relevant(x)), z3.Not(t.relevant(x))))),
           ("clean", z3.And(dj.clean(f), dj.clean(t))), ("sets", z3.And(f.vlist().len == 0, t.vlist().len == 0)), ("queue", s.this.costs_heap_.heap_.len == 0),
           ("loops", A([e], z3.And(0 <= e, e < f.e.len), f.frm(e) != f.to(e)))]
    out += f.zeros() + [("from-" + n, x) for n, x in f.btree()] + [("to-" + n, x) for n, x in t.btree()]
    return out


def names(l, *ns):
    return [(n, f) for n, f in l if n in ns]


def without(l, *ns):
    return [(n, f) for n, f in l if n not in ns]


LISTS = ["this.vertices_[].candidate_outgoing", "this.vertices_[].offset", "this.costs_heap_", "this.visited_from_", "this.visited_to_"]
ZERO = CAND + LISTS + ["this.vertices_[].%s_%s" % (n, f) for n in ("cost", "visited") for f in ("from", "to")] + [
    "this.vertices_[].%s_%s" % (n, m) for n in ("bound", "path", "visited") for m in ("lower", "upper")] + [
    "this.visited_lower_", "this.visited_upper_", "this.lower_trail_", "this.upper_trail_"]
FULL = CAND + LISTS + ["this.vertices_[].%s_%s" % (n, f) for n in ("cost", "path", "visited", "relevant") for f in ("from", "to")]


def outcome(s):
    return [("result", z3.Or(s.result, s.g("clauses") > s.old.g("clauses"))), ("clauses", s.g("clauses") >= s.old.g("clauses"))]


def zero():
    def req(s):
        e, z = s.arg(1), s.arg(2)
        g = BV(s.this, "From")
        return invariant(s) + [("edge", z3.And(0 <= e, e < g.e.len)), ("root", z3.And(ROOT(g.frm(e)) == z, ROOT(z) == z)), ("enabled", s.this.edge_states_[e].enabled != 0)]
    return Contract(G + "propagate_zero_", requires=req, ensures=lambda s: outcome(s) + invariant(s), modifies=ZERO)


def full():
    def req(s):
        e, k = s.arg(1), z3.Int("k")
        g = BV(s.this, "From")
        return invariant(s) + [("edge", z3.And(0 <= e, e < g.e.len)), ("added", g.contains(e))]

    def reset(d):
        def inv(l):
            g, t, k = BV(l.this, d), z3.Int("t"), z3.Int("k")
            vl = g.vlist()
            rest = z3.Exists([k], z3.And(l.i <= k, k < vl.len, vl[k] == t))
            return [("list", A([k], z3.And(0 <= k, k < vl.len), g.V(vl[k]))), ("rest", A([t], z3.And(g.V(t), z3.Or(g.visited(t), g.relevant(t))), rest))]
        return Loop(inv, name="reset-" + d)
    return Contract(G + "propagate_full_", requires=req, ensures=lambda s: outcome(s) + invariant(s), modifies=FULL, loops=[reset("From"), reset("To")])


def add_edge():
    def req(s):
        e, z, m = s.arg(1), s.arg(2), cy.MEMBER
        g = BV(s.this, "From")
        return invariant(s) + [("edge", z3.And(0 <= e, e < g.e.len)), ("root", z3.And(ROOT(g.frm(e)) == z, ROOT(z) == z)), ("enabled", s.this.edge_states_[e].enabled != 0),
                               ("trail", s.this.changed_trail_.len > 0), ("members", z3.And(m(e), g.inner(lambda x, e: m(e)))), ("true", cy.true_edges(g))]

    def ens(s):
        return outcome(s) + [(n, z3.Implies(s.result, f)) for n, f in invariant(s)] + [("added", z3.Implies(s.result, BV(s.this, "From").contains(s.arg(1))))]
    def reset(l):
        g, t, k = BV(l.this, "From"), z3.Int("t"), z3.Int("k")
        vl = g.vlist()
        return [("list", A([k], z3.And(0 <= k, k < vl.len), g.V(vl[k]))), ("rest", A([t], z3.And(g.V(t), g.visited(t)), z3.Exists([k], z3.And(l.i <= k, k < vl.len, vl[k] == t))))]
    return Contract(G + "add_edge", requires=req, ensures=ens, modifies=sorted(set(ZERO + FULL + cy.CYCLE_FRAME)), loops=[Loop(reset, name="reset")])


PROP = "PF"
def modules(tier):
    d = pg.disable_edge()
    ms = [Module("edges-%s" % ("full" if f else "zero"), SRC, [d, edge_true(f), edge_false(f), edges("From", f), edges("To", f)], externals=cy.EXTS, prepare=cy.prep) for f in (True, False)]
    queries = gr.queries(("edge_is_enabled", "can_propagate", "mode"))
    below = [pg.disable_edge(), edges("From", True), edges("From", False), edges("To", True), edges("To", False), dj.full("From"), dj.full("To"), dj.bounds("From"), dj.bounds("To")]
    top = [cy.check_cycle("result"), pg.simple()] + hp.contracts("From", ("clear", "empty"))
    for c in below + top + [d]:
        c.skip = True
    return ms + [Module("propagation", SRC, queries + below + [zero(), full()], externals=EXTS, prepare=prep),
                 Module("add", SRC, [zero_(), full_()] + queries + top + [add_edge()], externals=EXTS, prepare=prep)]


def zero_():
    c = zero()
    c.skip = True
    return c


def full_():
    c = full()
    c.skip = True
    return c


def m_timer(ex, obj, name, argn, n):
    return None


EXTS = dict(cy.EXTS)
EXTS["ctor:ClingoDL::Timer"] = EXTS["ctor:Timer"] = lambda ex, n, args: Ext("timer")
EXTS["method:timer"] = m_timer
EXTS["method:Timer"] = m_timer


def prep(ex):
    cy.prep(ex)
