"""Shortest paths (Graph::Impl::dijkstra_full, dijkstra_bounds) for both directions."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp, cy
from .cy import A, GV, SIGMA, HOLDS, consistent, falsified
from .gr import G, SRC
from .pg import PV
from .pr import I, B

INVALID = 2 ** 32 - 1
IMPL = {"From": G + "Impl<From>::", "To": G + "Impl<To>::"}


class DV(PV):
    """The graph or the transposed graph."""

    def __init__(self, g, d):
        super().__init__(g)
        self.d = d

    def src(self, e):
        return self.frm(e) if self.d == "From" else self.to(e)

    def tgt(self, e):
        return self.to(e) if self.d == "From" else self.frm(e)

    def cost(self, x):
        return self.v[x].cost_from if self.d == "From" else self.v[x].cost_to

    def path(self, x):
        return self.v[x].path_from if self.d == "From" else self.v[x].path_to

    def visited(self, x):
        return self.v[x].visited_from > 0 if self.d == "From" else self.v[x].visited_to

    def relevant(self, x):
        return self.v[x].relevant_from if self.d == "From" else self.v[x].relevant_to

    def dout(self, x):
        return self.v[x].outgoing if self.d == "From" else self.v[x].incoming

    def vlist(self):
        return self.g.visited_from_ if self.d == "From" else self.g.visited_to_

    def red(self, e):
        """Weight of an edge relative to the potentials."""
        return self.pot(self.frm(e)) + self.w(e) - self.pot(self.to(e))

    def V(self, x):
        return z3.And(0 <= x, x < self.v.len)

    def listed(self):
        x, k = z3.Ints("x k")
        e = self.dout(x)[k]
        return A([x, k], z3.And(self.V(x), 0 <= k, k < self.dout(x).len), z3.And(0 <= e, e < self.e.len, self.src(e) == x))

    def reduced(self):
        x, k = z3.Ints("x k")
        e = self.dout(x)[k]
        return A([x, k], z3.And(self.V(x), 0 <= k, k < self.dout(x).len), self.red(e) >= 0)

    def less(self, a, ra, b, rb):
        return z3.Or(a < b, z3.And(a == b, z3.Not(ra), rb))

    def paths(self, xy, popped=None):
        """Shortest path tree from the start of edge xy: the paths of relevant vertices use the edge."""
        x, y, t = self.src(xy), self.tgt(xy), z3.Int("t")
        p = self.path(t)
        par = popped if popped is not None else self.visited
        inv = z3.And(0 <= p, p < self.e.len, self.tgt(p) == t, par(self.src(p)), self.visited(self.src(p)), self.cost(t) == self.cost(self.src(p)) + self.red(p),
                     z3.Implies(self.relevant(t), z3.Or(p == xy, self.relevant(self.src(p)))))
        return [("source", z3.Implies(self.visited(x), z3.And(self.cost(x) == 0, self.path(x) == INVALID, z3.Not(self.relevant(x))))),
                ("tree", A([t], z3.And(self.V(t), self.visited(t), t != x), inv))]

    def lists(self):
        k, t, vl = z3.Int("k"), z3.Int("t"), self.vlist()
        return [("list", A([k], z3.And(0 <= k, k < vl.len), z3.And(self.V(vl[k]), self.visited(vl[k])))),
                ("listed", A([t], z3.And(self.V(t), self.visited(t)), z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == t))))]


def clean(g):
    t = z3.Int("t")
    return A([t], g.V(t), z3.Not(g.visited(t)))


def full(d):
    def st(s):
        return DV(s.this, d)

    def req(s):
        g, xy, t, k = st(s), s.arg(1), z3.Int("t"), z3.Int("k")
        src, tgt = s.arg(0), g.tgt(s.arg(1))
        return [("ends", g.ends()), ("listed", g.listed()), ("reduced", g.reduced()), ("edge", z3.And(0 <= xy, xy < g.e.len, src == g.src(xy), src != tgt)),
                ("edges", g.e.len < INVALID), ("active", z3.Exists([k], z3.And(0 <= k, k < g.dout(src).len, g.dout(src)[k] == xy))),
                ("clean", clean(g)), ("set", g.vlist().len == 0), ("queue", g.g.costs_heap_.heap_.len == 0),
                ("relevant", A([t], g.V(t), g.relevant(t) == (t == tgt)))]

    def parts(l, s=None, i=None):
        g, xy, t, a, b, k = st(l), l.arg(1), *z3.Ints("t a b k")
        src, tgt = g.src(xy), g.tgt(xy)
        h = hp.H(g.g.costs_heap_, g.g, d)
        popped = lambda t: z3.And(g.visited(t), z3.Not(h.has(t)))
        out = [("queue-positions", h.positions()), ("queue-order", h.order()), ("queued", A([t], z3.And(0 <= t, t < h.n), z3.And(g.V(h[t]), g.visited(h[t])))),
               ("source-visited", g.visited(src))]
        out += g.paths(xy, popped) + g.lists()
        out += [("cost", A([t], z3.And(g.V(t), g.visited(t)), g.cost(t) >= 0)),
                ("unvisited", A([t], z3.And(g.V(t), z3.Not(g.visited(t))), g.relevant(t) == (t == tgt))),
                ("monotone", A([a, b], z3.And(g.V(a), g.V(b), popped(a), h.has(b)), z3.Not(g.less(g.cost(b), g.relevant(b), g.cost(a), g.relevant(a)))))]
        if s is None:
            out += [("reached", z3.Or(g.visited(tgt), z3.And(h.n == 1, h[0] == src)))]
        else:
            seen = z3.Exists([k], z3.And(i <= k, k < g.dout(src).len, g.dout(src)[k] == xy))
            out += [("reached", z3.Or(g.visited(tgt), z3.And(s == src, seen))), ("current", z3.And(g.V(s), popped(s), l.local("relevant_u") == g.relevant(s))),
                    ("last", A([a], z3.And(g.V(a), popped(a)), z3.Not(g.less(g.cost(s), g.relevant(s), g.cost(a), g.relevant(a)))))]
        return out

    def relaxable(l):
        g, h, s, t = st(l), hp.H(l.this.costs_heap_, l.this, d), l.local("u_idx"), z3.Int("t")
        e = g.dout(s)[l.i]
        v = g.tgt(e)
        ru = z3.Or(g.relevant(s), e == l.arg(1))
        return [("edge", z3.And(0 <= e, e < g.e.len, g.src(e) == s, g.V(v), g.red(e) >= 0)),
                ("final", z3.Implies(z3.And(g.visited(v), z3.Not(h.has(v))), z3.Not(g.less(g.cost(s) + g.red(e), ru, g.cost(v), g.relevant(v)))))]

    def ens(s):
        g, xy, t = st(s), s.arg(1), z3.Int("t")
        return g.paths(xy) + g.lists() + [("reached", z3.And(g.visited(g.src(xy)), g.visited(g.tgt(xy)))),
                                          ("relevant", A([t], z3.And(g.V(t), g.relevant(t)), g.visited(t))), ("queue", s.this.costs_heap_.heap_.len == 0)]
    f = "from" if d == "From" else "to"
    mods = ["this.vertices_[].%s_%s" % (n, f) for n in ("cost", "path", "visited", "relevant")] + ["this.vertices_[].offset", "this.costs_heap_", "this.visited_%s_" % f, "this.stats_"]
    return Contract(IMPL[d] + "dijkstra_full", requires=req, ensures=ens, modifies=mods,
                    loops=[Loop(parts, name="search"), Loop(lambda l: parts(l, l.local("u_idx"), l.i), name="relax", body_cuts=relaxable)])


ROOT = z3.Function("root", I, I)       # zero node of the component of a vertex


class BV(DV):
    """Bounds relative to the zero node."""

    def bound(self, x):
        return self.v[x].bound_lower if self.d == "From" else self.v[x].bound_upper

    def bpath(self, x):
        return self.v[x].path_lower if self.d == "From" else self.v[x].path_upper

    def bvisited(self, x):
        return self.v[x].visited_lower if self.d == "From" else self.v[x].visited_upper

    def btrail(self):
        return self.g.lower_trail_ if self.d == "From" else self.g.upper_trail_

    def both(self, x):
        return z3.And(self.v[x].visited_lower, self.v[x].visited_upper)

    def some(self, x):
        return z3.Or(self.v[x].visited_lower, self.v[x].visited_upper)

    def zeros(self):
        """Edges stay within a component and zero nodes are reached first."""
        e, t = z3.Ints("e t")
        return [("components", A([e], z3.And(0 <= e, e < self.e.len), ROOT(self.frm(e)) == ROOT(self.to(e)))),
                ("zero", A([t], z3.And(self.V(t), self.some(t)), z3.And(self.V(ROOT(t)), self.both(ROOT(t)))))]

    def btree(self, extra=lambda t: z3.BoolVal(False)):
        """Bounds are at least the weight of the path to the zero node."""
        t = z3.Int("t")
        p = self.bpath(t)
        q = self.src(p)
        return [("bounds", A([t], z3.And(self.V(t), z3.Or(self.bvisited(t), extra(t))), z3.Or(
            z3.And(p == INVALID, t == ROOT(t), self.bound(t) == 0),
            z3.And(0 <= p, p < self.e.len, self.tgt(p) == t, self.V(q), z3.Or(self.bvisited(q), extra(q)), self.bound(t) >= self.bound(q) + self.w(p)))))]


def bounds(d):
    st = lambda s: BV(s.this, d)
    ot = lambda s: [("other-" + n, f) for n, f in BV(s.this, "To" if d == "From" else "From").btree()]

    def req(s):
        g, e, z, t = st(s), s.arg(0), s.arg(1), z3.Int("t")
        return [("ends", g.ends()), ("listed", g.listed()), ("reduced", g.reduced()), ("edge", z3.And(0 <= e, e < g.e.len, ROOT(g.src(e)) == z, ROOT(z) == z)),
                ("edges", g.e.len < INVALID), ("clean", clean(g)), ("set", g.vlist().len == 0), ("queue", g.g.costs_heap_.heap_.len == 0),
                ("relevant", A([t], g.V(t), z3.Not(g.relevant(t))))] + g.zeros() + g.btree() + ot(s)

    def parts(l, s=None, i=None):
        g, o, a, b, t, k = st(l), BV(l.snap("search").this, d), *z3.Ints("a b t k")
        h = hp.H(g.g.costs_heap_, g.g, d)
        vl = g.vlist()
        popped = lambda t: z3.And(g.visited(t), z3.Not(h.has(t)))
        sg = 1 if d == "From" else -1
        v = g.tgt(l.arg(0))
        K = lambda x: g.cost(x) - g.bound(x) + sg * g.pot(x)
        out = [("queue-positions", h.positions()), ("queue-order", h.order()), ("queued", A([t], z3.And(0 <= t, t < h.n), z3.And(g.V(h[t]), g.visited(h[t])))),
               ("component", A([t], z3.And(g.V(t), g.visited(t)), ROOT(t) == l.arg(1))),
               ("offset", A([t], z3.And(g.V(t), g.visited(t)), K(t) == sg * g.pot(v) - o.bound(v))),
               ("monotone", A([a, b], z3.And(g.V(a), g.V(b), popped(a), h.has(b)), g.cost(a) <= g.cost(b))),
               ("list", A([k], z3.And(0 <= k, k < vl.len), z3.And(g.V(vl[k]), g.visited(vl[k])))),
               ("all-listed", A([t], z3.And(g.V(t), g.visited(t)), z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == t))))]
        out += g.btree(g.visited)
        if s is not None:
            out += [("current", z3.And(g.V(s), popped(s))), ("last", A([a], z3.And(g.V(a), popped(a)), g.cost(a) <= g.cost(s)))]
        return out

    def relaxable(l):
        g, h, s = st(l), hp.H(l.this.costs_heap_, l.this, d), l.local("s_idx")
        e = g.dout(s)[l.i]
        v = g.tgt(e)
        return [("edge", z3.And(0 <= e, e < g.e.len, g.src(e) == s, g.V(v), g.red(e) >= 0)),
                ("final", z3.Implies(z3.And(g.visited(v), z3.Not(h.has(v))), g.cost(s) + g.red(e) >= g.cost(v)))]

    def reset(l):
        """Visited vertices have bounds."""
        g, t, k = st(l), z3.Int("t"), z3.Int("k")
        vl = g.vlist()
        rest = lambda t: z3.Exists([k], z3.And(l.i <= k, k < vl.len, vl[k] == t))
        return g.btree(rest) + ot(l) + g.zeros()[1:] + grow(l) + [("rest", A([t], z3.And(g.V(t), g.visited(t)), rest(t))),
                                               ("list", A([k], z3.And(0 <= k, k < vl.len), z3.And(g.V(vl[k]), ROOT(vl[k]) == l.arg(1)))),
                                               ("done", A([k], z3.And(0 <= k, k < l.i), g.bvisited(vl[k]))), ("root", g.both(l.arg(1)))]

    def grow(s):
        """Bounds are never dropped."""
        g, o, t = st(s), st(s.old), z3.Int("t")
        return [("grow", A([t], g.V(t), z3.And(z3.Implies(o.v[t].visited_lower, g.v[t].visited_lower), z3.Implies(o.v[t].visited_upper, g.v[t].visited_upper))))]

    def ens(s):
        g, k = st(s), z3.Int("k")
        vl = g.vlist()
        return g.btree() + ot(s) + g.zeros()[1:] + grow(s) + [("clean", clean(g)), ("queue", s.this.costs_heap_.heap_.len == 0),
                                            ("set", A([k], z3.And(0 <= k, k < vl.len), z3.And(g.V(vl[k]), g.bvisited(vl[k]))))]
    f = "from" if d == "From" else "to"
    lu = "lower" if d == "From" else "upper"
    mods = ["this.vertices_[].%s_%s" % (n, f) for n in ("cost", "visited")] + ["this.vertices_[].%s_%s" % (n, m) for n in ("bound", "path", "visited") for m in ("lower", "upper")] + [
        "this.vertices_[].offset", "this.costs_heap_", "this.visited_%s_" % f, "this.visited_lower_", "this.visited_upper_", "this.%s_trail_" % lu, "this.stats_"]
    return Contract(IMPL[d] + "dijkstra_bounds", requires=req, ensures=ens, modifies=mods,
                    loops=[Loop(parts, name="search"), Loop(lambda l: parts(l, l.local("s_idx"), l.i), name="relax", body_cuts=relaxable), Loop(reset, name="reset")])


PROP = "DJ"
def modules(tier):
    out = []
    for d in ("From", "To"):
        base = hp.contracts(d, ("push", "pop", "decrease", "empty", "clear"))
        for c in base:
            c.skip = True
        out.append(Module("paths-" + d, SRC, base + [full(d), bounds(d)], externals=cy.EXTS, prepare=cy.prep))
    return out
