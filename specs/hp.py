"""The priority queue (impl/util.hh), instantiated with both views of the graph."""
import z3
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from .pr import I, B

SRC = "libclingo-dl/src/graph.cc"
PAR = z3.Function("parent", I, I)      # index of the parent in the tree
M = {"From": "Graph<int>::Impl<From>", "To": "Graph<int>::Impl<To>"}


def defs(s):
    i = z3.Int("i")
    # (assumption: a queue holds fewer than 2^30 vertices)
    return [s.this.heap_.len < 2 ** 30, z3.ForAll([i], z3.Implies(i > 0, z3.And(0 <= PAR(i), 4 * PAR(i) + 1 <= i, i <= 4 * PAR(i) + 4)), patterns=[PAR(i)])]


class H:
    """Heap array, positions and keys of the elements."""

    def __init__(self, h, m, d):
        self.h, self.m, self.d = h.heap_, m.vertices_, d
        self.n = self.h.len

    def __getitem__(self, i):
        return self.h[i]

    def off(self, v):
        return self.m[v].offset

    def cost(self, v):
        return self.m[v].cost_from if self.d == "From" else self.m[v].cost_to

    def rel(self, v):
        r = self.m[v].relevant_from if self.d == "From" else self.m[v].relevant_to
        return r

    def less(self, a, b):
        ca, cb = self.cost(a), self.cost(b)
        return z3.Or(ca < cb, z3.And(ca == cb, z3.Not(self.rel(a)), self.rel(b)))

    def le(self, a, b):
        return z3.Not(self.less(b, a))

    def has(self, v):
        return z3.And(0 <= self.off(v), self.off(v) < self.n, self.h[self.off(v)] == v)

    def positions(self):
        i = z3.Int("i")
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.off(self.h[i]) == i))

    def ordered(self, i):
        return z3.Implies(z3.And(0 < i, i < self.n), self.le(self.h[PAR(i)], self.h[i]))

    def order(self, cond=lambda i: z3.BoolVal(True)):
        i = z3.Int("i")
        return z3.ForAll([i], z3.Implies(z3.And(0 < i, i < self.n, cond(i)), self.le(self.h[PAR(i)], self.h[i])))

    def grand(self, o):
        """Children of position o are not below the parent of o."""
        i = z3.Int("i")
        return z3.ForAll([i], z3.Implies(z3.And(o > 0, 0 < i, i < self.n, PAR(i) == o), self.le(self.h[PAR(o)], self.h[i])))


def same(a, b):
    """Same elements, and positions of other vertices are unchanged."""
    v = z3.Int("v")
    return [("elements", z3.ForAll([v], a.has(v) == b.has(v))), ("size", a.n == b.n),
            ("others", z3.ForAll([v], z3.Implies(z3.Not(b.has(v)), a.off(v) == b.off(v))))]


def contracts(d, only=()):
    C = lambda nm, **kw: Contract("Heap<4>::" + nm, targs=[M[d]], defs=defs, modifies=["this.heap_", "arg0.vertices_[].offset"], **kw)
    now = lambda s: H(s.this, s.arg(0), d)
    old = lambda s: H(s.old.this, s.old.arg(0), d)
    inv = lambda h: [("positions", h.positions()), ("order", h.order())]

    def dec_inv(l):
        h, i, item = now(l), l.i, l.arg(1)
        return [("index", z3.And(0 <= i, i < h.n)), ("item", h[i] == item), ("positions", h.positions()),
                ("order", h.order(lambda k: k != i)), ("grand", h.grand(i))] + same(h, old(l))
    dec = C("decrease", requires=lambda s: [("element", now(s).has(s.arg(1))), ("positions", now(s).positions()),
                                            ("order", now(s).order(lambda k: k != now(s).off(s.arg(1)))), ("grand", now(s).grand(now(s).off(s.arg(1))))],
            ensures=lambda s: inv(now(s)) + same(now(s), old(s)), loops=[Loop(dec_inv)])

    def inc_inv(l):
        h, p, item = now(l), l.local("p"), l.arg(1)
        return [("index", z3.And(0 <= p, p < h.n)), ("child", l.local("j") == 4 * p + 1), ("bound", l.local("s") == h.n), ("item", h[p] == item), ("positions", h.positions()),
                ("order", h.order(lambda k: PAR(k) != p)), ("grand", h.grand(p))] + same(h, old(l))

    def min_inv(l):
        h, k, j, mn, t = now(l), l.i, l.local("j"), l.local("min"), z3.Int("t")
        return [("range", z3.And(j < k, k <= j + 4, j <= mn, mn < j + 4, mn < l.local("s"))),
                ("minimal", z3.ForAll([t], z3.Implies(z3.And(j <= t, t < k, t < l.local("s")), h.le(h[mn], h[t]))))]
    inc = C("increase", requires=lambda s: [("element", now(s).has(s.arg(1))), ("positions", now(s).positions()),
                                            ("order", now(s).order(lambda k: PAR(k) != now(s).off(s.arg(1)))), ("grand", now(s).grand(now(s).off(s.arg(1))))],
            ensures=lambda s: inv(now(s)) + same(now(s), old(s)), loops=[Loop(inc_inv), Loop(min_inv)])
    v = z3.Int("v")
    push = C("push", requires=lambda s: inv(now(s)) + [("new", z3.Not(now(s).has(s.arg(1))))],
             ensures=lambda s: inv(now(s)) + [("elements", z3.ForAll([v], now(s).has(v) == z3.Or(v == s.arg(1), old(s).has(v)))), ("size", now(s).n == old(s).n + 1)])

    def pop_ens(s):
        h, o, r = now(s), old(s), s.result
        return inv(h) + [("element", o.has(r)), ("minimal", z3.ForAll([v], z3.Implies(o.has(v), o.le(r, v)))),
                         ("elements", z3.ForAll([v], h.has(v) == z3.And(v != r, o.has(v)))), ("size", h.n == o.n - 1)]
    pop = C("pop", requires=lambda s: inv(now(s)) + [("nonempty", now(s).n > 0)], ensures=pop_ens,
            induct=lambda s: [("root", z3.IntVal(0), now(s).n, lambda k: now(s).le(now(s)[0], now(s)[k]))])
    n = Contract("Heap<4>::size", ensures=lambda s: [("size", s.result == s.this.heap_.len)])
    e = Contract("Heap<4>::empty", ensures=lambda s: [("empty", s.result == (s.this.heap_.len == 0))])
    c = Contract("Heap<4>::clear", modifies=["this.heap_"], ensures=lambda s: [("empty", s.this.heap_.len == 0)])
    cs = {"size": n, "empty": e, "clear": c, "decrease": dec, "increase": inc, "push": push, "pop": pop}
    return [c for n, c in cs.items() if not only or n in only]


def module(d, name):
    return Module(name, SRC, contracts(d), externals={})
