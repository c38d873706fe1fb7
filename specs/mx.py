"""Mutexes (DLPropagator::calculate_mutexes_): clauses are implied by the constraints.

As in cy.py, sigma is an arbitrary assignment of integers to the vertices and holds(l) an
arbitrary set of literals; if sigma satisfies the constraints of all edges whose literals
hold, then every clause has to contain a literal that holds."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr
from .pr import D, I, B, fr, SRC
from .cy import A, SIGMA, HOLDS, falsified

INVALID = 2 ** 32 - 1


class MV:
    def __init__(self, s):
        self.e = s.this.edges_
        self.out = s.obj(s.ex_out) if False else None

    def frm(self, e):
        return fr(self.e[e])

    def to(self, e):
        return self.e[e].to

    def w(self, e):
        return self.e[e].weight

    def lit(self, e):
        return self.e[e].lit

    def meets(self, e):
        return SIGMA(self.frm(e)) - SIGMA(self.to(e)) <= self.w(e)

    def consistent(self):
        e = z3.Int("e")
        return A([e], z3.And(0 <= e, e < self.e.len), z3.Or(HOLDS(-self.lit(e)), self.meets(e)))


def listed(s, out):
    """Edges are listed at their start."""
    g, x, k = MV(s), *z3.Ints("x k")
    e = out.at(x, k)
    return A([x, k], z3.And(0 <= k, k < out.n(x)), z3.And(0 <= e, e < g.e.len, g.frm(e) == x))


def paths(l):
    """Entries of the queue are paths from the start edge."""
    g, q, c, st = MV(l), l.local("queue"), z3.Int("c"), l.local("start_id")
    e, p = q[c].id, q[c].previous
    return [("edges", A([c], z3.And(0 <= c, c < q.len), z3.And(0 <= e, e < g.e.len))),
            ("previous", A([c], z3.And(0 <= c, c < q.len), z3.Or(p == INVALID, z3.And(0 <= p, p < c)))),
            ("start", A([c], z3.And(0 <= c, c < q.len, p == INVALID), z3.And(q[c].weight == g.w(e), g.frm(e) == g.frm(st)))),
            ("next", A([c], z3.And(0 <= c, c < q.len, p != INVALID), z3.And(q[c].weight == q[p].weight + g.w(e), g.frm(e) == g.to(q[p].id))))]


def mutexes():
    start = lambda l: [("queue", l.local("queue").len == 0), ("clause", l.local("clause").len == 0), ("edges", l.local("start_id") >= 0)]
    ok = lambda l: z3.And(0 <= l.local("start_id"), l.local("start_id") < l.this.edges_.len)

    def state(l):
        return [("clause", l.local("clause").len == 0), ("edge", ok(l))] + paths(l)

    def out(l):
        q, o, it = l.local("queue"), l.local("queue_offset"), l.local("it").data
        return [("offset", z3.And(0 <= o, o < q.len, o < INVALID)), ("position", z3.And(0 <= it["pos"], it["pos"] <= l.arg(2).n(it["key"]), it["key"] == MV(l).to(q[o].id))),
                ("kept", kept(q, l.snap("out").local("queue")))] + state(l)

    def kept(q, h):
        c = z3.Int("c")
        return z3.And(q.len >= h.len, A([c], z3.And(0 <= c, c < h.len), z3.And(*(getattr(q[c], f) == getattr(h[c], f) for f in ("id", "previous", "weight")))))

    def out_step(l):
        g, q, h, o = MV(l), l.local("queue"), l.head.local("queue"), l.local("queue_offset")
        n = q[h.len]
        return [("prefix", kept(q, h)), ("new", z3.Or(q.len == h.len, z3.And(q.len == h.len + 1, 0 <= n.id, n.id < g.e.len, n.previous == o, n.weight == q[o].weight + g.w(n.id), g.frm(n.id) == g.to(q[o].id))))]

    def walk(l):
        q, c = l.local("queue"), l.local("c")
        return [("walk", z3.Or(c == INVALID, z3.And(0 <= c, c < q.len)))]

    def collect(l):
        g, q, c, o, cl, st = MV(l), l.local("queue"), l.local("c"), l.local("queue_offset"), l.local("clause"), l.local("st_id")
        last = g.to(q[o].id)
        d = z3.If(c == INVALID, SIGMA(g.frm(l.local("start_id"))) - SIGMA(last) <= q[o].weight,
                  SIGMA(g.to(q[c].id)) - SIGMA(last) <= q[o].weight - q[c].weight)
        return [("walk", z3.Or(c == INVALID, z3.And(0 <= c, c < q.len))), ("bound", z3.Implies(falsified(cl), z3.And(d, g.meets(st))))]

    def collect_step(l):
        g, q, h = MV(l), l.local("queue"), l.head
        c, cl, ol, k = h.local("c"), l.local("clause"), h.local("clause"), z3.Int("k")
        e = q[c].id
        return [("prefix", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ol.len), cl[k] == ol[k]), patterns=[ol[k]])),
                ("literal", z3.Implies(falsified(cl), z3.Not(HOLDS(-g.lit(e))))), ("shorter", z3.Implies(falsified(cl), falsified(ol))),
                ("meets", z3.Implies(falsified(cl), g.meets(e)))]
    return Contract(D + "calculate_mutexes_", modifies=["this.stats_", "ghost:clauses"],
                    requires=lambda s: [("sigma", MV(s).consistent()), ("listed", listed(s, s.arg(2))), ("first", s.arg(1) >= 0)],
                    loops=[Loop(start, name="start"), Loop(state, name="queue"), Loop(out, name="out", step_cuts=out_step), Loop(walk, name="path"),
                           Loop(collect, name="collect", step_cuts=collect_step)])


def m_init(ex, obj, name, argn, n):
    if name == "assignment":
        return Ext("assignment")
    if name == "add_clause":
        v = ex.ev(argn[0])
        v = v.data["lv"] if isinstance(v, Ext) and v.kind == "span" else v
        if not isinstance(v, LV) or v.idxs():
            raise ToolLimit("clause")
        ln = ex.read_leaf(ex.st, v, ("len",), I)
        at = ex.get_mem(ex.st, v.root, v.key() + ("[]",), z3.ArraySort(I, I))
        k = z3.Int("k")
        ex.oblige("clause-justified", z3.Exists([k], z3.And(0 <= k, k < ln, HOLDS(z3.Select(at, k)))), "post")
        ex.ghost_set("clauses", ex.ghost_get("clauses") + 1)
        return z3.FreshConst(B, "add_clause")
    return NotImplemented


def prep(ex):
    pr.prepare(ex)
    ex.ghost_init("clauses", I)


EXTS = dict(pr.EXTS)
EXTS["method:Clingo::PropagateInit"] = m_init
EXTS["ctor:Clingo::Span<int>"] = lambda ex, n, args: Ext("span", lv=ex.ev(args[0]))


def module():
    return Module("mutexes", SRC, [mutexes()], externals=EXTS, prepare=prep)


PROP = "MX"
def modules(tier):
    return [module()]
