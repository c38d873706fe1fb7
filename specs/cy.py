"""Cycle detection (Graph::check_cycle_): feasibility of the potentials and justification of conflicts.

sigma is an arbitrary assignment of integers to vertices and holds(l) an arbitrary set of
true literals; clauses have to contain a true literal whenever sigma satisfies the
constraints of all edges with true literals."""
import z3
from cxxwp.exec import Ext, LV, SpecCtx
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp
from .pr import I, B, fr
from .gr import G, SRC

SIGMA = z3.Function("sigma", I, I)
MEMBER = z3.Function("in_graph", I, B)      # the edges of the graph and the edge to add
HOLDS = z3.Function("holds", I, B)
TRUE = z3.Function("is_true", I, B)         # literals that the solver has assigned


def A(vs, cond, f):
    return z3.ForAll(vs, z3.Implies(cond, f))


class GV:
    """Graph state."""

    def __init__(self, g):
        self.g, self.v, self.e = g, g.vertices_, g.edges_

    def frm(self, e):
        return fr(self.e[e])

    def to(self, e):
        return self.e[e].to

    def w(self, e):
        return self.e[e].weight

    def lit(self, e):
        return self.e[e].lit

    def has(self, x):
        return self.v[x].potential_stack.len > 0

    def pot(self, x):
        p = self.v[x].potential_stack
        return p[p.len - 1].second

    def out(self, x):
        return self.v[x].outgoing

    def inc(self, x):
        return self.v[x].incoming

    def cost(self, x):
        return self.v[x].cost_from

    def path(self, x):
        return self.v[x].path_from

    def visited(self, x):
        return self.v[x].visited_from > 0

    def dfs(self, x):
        return self.v[x].visited_from

    def inheap(self, x):
        h = self.g.costs_heap_.heap_
        o = self.v[x].offset
        return z3.And(0 <= o, o < h.len, h[o] == x)

    def popped(self, x):
        return z3.And(self.visited(x), z3.Not(self.inheap(x)))

    def lists(self):
        """Edges are listed at their ends."""
        x, k = z3.Ints("x k")
        e = self.out(x)[k]
        return A([x, k], z3.And(0 <= x, x < self.v.len, 0 <= k, k < self.out(x).len), z3.And(0 <= e, e < self.e.len, self.frm(e) == x))

    def ends(self):
        e = z3.Int("e")
        return A([e], z3.And(0 <= e, e < self.e.len), z3.And(0 <= self.frm(e), self.frm(e) < self.v.len, 0 <= self.to(e), self.to(e) < self.v.len))

    def inner(self, f):
        """A condition on all edges of the graph."""
        x, k = z3.Ints("x k")
        e = self.out(x)[k]
        return A([x, k], z3.And(0 <= x, x < self.v.len, 0 <= k, k < self.out(x).len), f(x, e))

    def feasible(self):
        return self.inner(lambda x, e: z3.And(self.has(x), self.has(self.to(e)), self.pot(x) + self.w(e) - self.pot(self.to(e)) >= 0))

    def mirror(self):
        """Incoming edges are outgoing edges of their other end."""
        x, k, j = z3.Ints("x k j")
        e = self.inc(x)[k]
        return A([x, k], z3.And(0 <= x, x < self.v.len, 0 <= k, k < self.inc(x).len), z3.And(
            0 <= e, e < self.e.len, z3.Exists([j], z3.And(0 <= j, j < self.out(self.frm(e)).len, self.out(self.frm(e))[j] == e))))

    def contains(self, e):
        j, k = z3.Ints("j k")
        a, b = self.out(self.frm(e)), self.inc(self.to(e))
        return z3.And(z3.Exists([j], z3.And(0 <= j, j < a.len, a[j] == e)), z3.Exists([k], z3.And(0 <= k, k < b.len, b[k] == e)))

    def meets(self, e):
        """sigma satisfies the constraint of the edge."""
        return SIGMA(self.frm(e)) - SIGMA(self.to(e)) <= self.w(e)


def consistent(s):
    """sigma satisfies the constraints of all edges with true literals."""
    g, e = GV(s.this), z3.Int("e")
    return A([e], z3.And(0 <= e, e < g.e.len), z3.Or(HOLDS(-g.lit(e)), g.meets(e)))


def falsified(c):
    k = z3.Int("k")
    return A([k], z3.And(0 <= k, k < c.len), z3.Not(HOLDS(c[k])))


def m_control(ex, obj, name, argn, n):
    if name == "add_clause":
        v = ex.ev(argn[0])
        v = v.data["lv"] if isinstance(v, Ext) and v.kind == "span" else v
        if not isinstance(v, LV) or v.idxs():
            raise ToolLimit("clause")
        ln = ex.read_leaf(ex.st, v, ("len",), I)
        at = ex.get_mem(ex.st, v.root, v.key() + ("[]",), z3.ArraySort(I, I))
        k = z3.Int("k")
        ex.oblige("clause-justified", z3.Exists([k], z3.And(0 <= k, k < ln, HOLDS(z3.Select(at, k)))), "post")
        ex.ghost_set("clauses", ex.ghost_get("clauses") + 1)
        r = z3.FreshConst(B, "add_clause")
        ex.fact(z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), TRUE(-z3.Select(at, k)))), z3.Not(r)))
        ex.assumptions.add("adding a clause whose literals are all false is reported as a conflict")
        return r
    if name == "propagate":
        return z3.FreshConst(B, "propagate")
    if name == "assignment":
        return Ext("assignment")
    if name == "thread_id":
        return ex.ghost_get("tid")
    return NotImplemented


def m_assignment(ex, obj, name, argn, n):
    if name in ("is_true", "is_false"):
        ex.rv(argn[0])
        return z3.FreshConst(B, name)
    return NotImplemented


def span(ex, n, args):
    return Ext("span", lv=ex.ev(args[0]))


def prep(ex):
    ex.ghost_init("clauses", I)
    ex.ghost_init("tid", I)


EXTS = {"method:Clingo::PropagateControl": m_control, "method:assignment": m_assignment, "method:Clingo::Assignment": m_assignment,
        "ctor:Clingo::Span<int>": span}


def SNAP(l):
    return SpecCtx(l.ex, l.ex.snaps["search"], l.frame, l.pre)


class Search:
    """Invariants of the search for a negative cycle; the potentials of visited vertices are lowered.
    While vertex s is processed, its first i outgoing edges have been relaxed."""

    def __init__(self, l):
        self.l = l
        self.g, self.uv = GV(l.this), l.arg(1)
        self.o = GV(SNAP(l).this)
        self.u, self.v = self.g.frm(self.uv), self.g.to(self.uv)

    def V(self, x):
        return z3.And(0 <= x, x < self.g.v.len)

    def parts(self, s=None, i=None):
        g, o, uv, u, v, V, l = self.g, self.o, self.uv, self.u, self.v, self.V, self.l
        x, y, k = z3.Ints("x y k")
        low = lambda t: o.pot(t) + z3.If(g.visited(t), g.cost(t), 0)     # potential after the search
        pe = g.path(x)
        h = hp.H(l.this.costs_heap_, l.this, "From")
        done = lambda x, k: z3.BoolVal(True) if s is None else z3.Or(x != s, k < i)
        e, vl = g.out(x)[k], l.this.visited_from_
        return {
            "queue-positions": h.positions(), "queue-order": h.order(), "dfs": l.local("dfs") >= 0,
            "queued": A([x], z3.And(0 <= x, x < h.n), z3.And(V(h[x]), g.visited(h[x]))),
            "defined": A([x], V(x), g.has(x) == o.has(x)),
            "visited": A([x], z3.And(V(x), g.visited(x)), z3.And(g.cost(x) < 0, g.has(x), 0 <= pe, pe < g.e.len, g.to(pe) == x)),
            "path": A([x], z3.And(V(x), g.visited(x)), z3.Or(z3.And(x == v, pe == uv), z3.And(g.popped(g.frm(pe)), x != v))),
            "root": A([x], z3.And(V(x), g.visited(x), x != v), g.popped(v)),
            "popped": A([x], z3.And(V(x), g.popped(x)), z3.And(g.pot(x) == o.pot(x) + g.cost(x), x != u)),
            "tight": A([x], z3.And(V(x), g.popped(x)), g.pot(x) == g.pot(g.frm(pe)) + g.w(pe)),
            "unchanged": A([x], z3.And(V(x), z3.Not(g.popped(x))), g.pot(x) == o.pot(x)),
            "cost": A([x], z3.And(V(x), g.inheap(x)), g.cost(x) == g.pot(g.frm(pe)) + g.w(pe) - o.pot(x)),
            "monotone": A([x, y], z3.And(V(x), V(y), g.popped(y), g.inheap(x)), g.cost(y) <= g.cost(x)),
            "relaxed": A([x, k], z3.And(V(x), 0 <= k, k < g.out(x).len, g.popped(x), done(x, k)), g.pot(x) + g.w(e) >= low(g.to(e))),
            "start": z3.Or(g.visited(v), z3.And(g.pot(u) + g.w(uv) >= g.pot(v))),
            # additional facts
            "member": A([x], z3.And(V(x), g.visited(x)), MEMBER(pe)),
            "listed": A([x], z3.And(V(x), g.visited(x)), z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == x))),
            "list": A([k], z3.And(0 <= k, k < vl.len), z3.And(V(vl[k]), g.visited(vl[k])))}

    def current(self, s):
        g, y = self.g, z3.Int("y")
        return {"root-done": g.popped(self.v), "current": z3.And(self.V(s), g.popped(s)),
                "last": A([y], z3.And(self.V(y), g.popped(y)), g.cost(y) <= g.cost(s))}


EXTRA = ("member", "listed", "list")
SMALL = ("queue-positions", "queue-order", "dfs", "queued", "visited")


def check_cycle(part):
    """part: 'search' establishes the invariants of the search, 'result' uses them for the result."""
    def req(s):
        g, x = GV(s.this), z3.Int("x")
        uv = s.arg(1)
        return [("trail", s.this.changed_trail_.len > 0), ("edge", z3.And(0 <= uv, uv < g.e.len)), ("ends", g.ends()), ("lists", g.lists()),
                ("feasible", g.feasible()), ("queue", s.this.costs_heap_.heap_.len == 0), ("list", s.this.visited_from_.len == 0),
                ("visited", A([x], z3.And(0 <= x, x < g.v.len), g.dfs(x) <= 0)),
                ("sigma", consistent(s)), ("members", z3.And(MEMBER(uv), g.inner(lambda x, e: MEMBER(e)))), ("true", true_edges(g)), ("mirror", g.mirror())]

    def pick(d, names=None, without=()):
        return [(k, f) for k, f in d.items() if (names is None or k in names) and k not in without]

    def search(l):
        return pick(Search(l).parts(), None, EXTRA) if part == "search" else pick(Search(l).parts(), EXTRA)

    def relax(l):
        s, S = l.local("s_idx"), Search(l)
        if part == "search":
            return pick(S.current(s)) + pick(S.parts(s, l.i), None, EXTRA)
        return pick(S.parts(s, l.i), EXTRA)

    def relaxable(l):
        """A vertex that has been removed from the queue is not improved any more."""
        S, s = Search(l), l.local("s_idx")
        g = S.g
        e = g.out(s)[l.i]
        return [("final", z3.Implies(g.popped(g.to(e)), g.pot(s) + g.w(e) >= g.pot(g.to(e))))]

    def removed(l):
        """Vertex s has been removed from the queue and its potential was set."""
        g, h, s, x = GV(l.this), GV(l.snap("search.head").this), l.local("s_idx"), z3.Int("x")
        V = lambda x: z3.And(0 <= x, x < g.v.len)
        return [("first", z3.And(V(s), h.inheap(s), z3.Not(g.inheap(s)), g.visited(s))),
                ("queue", A([x], z3.And(V(x), x != s), g.inheap(x) == h.inheap(x))), ("flags", A([x], V(x), g.visited(x) == h.visited(x))),
                ("minimal", A([x], z3.And(V(x), g.inheap(x)), g.cost(s) <= g.cost(x))),
                ("popped", A([x], V(x), g.popped(x) == z3.Or(h.popped(x), x == s))),
                ("potentials", A([x], V(x), g.has(x) == h.has(x))), ("lowered", g.pot(s) == h.pot(s) + h.cost(s)),
                ("potentials", A([x], z3.And(V(x), x != s), g.pot(x) == h.pot(x)))]

    def relax_step(l):
        S, T, x, s = Search(l), Search(l.head), z3.Int("x"), l.local("s_idx")
        g, h = S.g, T.g
        low = lambda g, t: S.o.pot(t) + z3.If(g.visited(t), g.cost(t), 0)
        e = g.out(s)[l.i - 1]
        return [("popped", A([x], S.V(x), z3.And(g.popped(x) == h.popped(x), g.pot(x) == h.pot(x)))),
                ("lower", A([x], S.V(x), low(g, x) <= low(h, x))), ("edge", g.pot(s) + g.w(e) >= low(g, g.to(e)))]

    def given(l):
        return pick(Search(l).parts(), None, EXTRA)

    def given_relax(l):
        s, S = l.local("s_idx"), Search(l)
        return pick(S.current(s)) + pick(S.parts(s, l.i), None, EXTRA)

    def walk(l):
        k = z3.Int("k")
        g, uv, x = GV(l.this), l.arg(1), l.local("next_idx")
        u, v, c = g.frm(uv), g.to(uv), l.this.clause_
        bound = SIGMA(x) - SIGMA(v) <= g.pot(v) + z3.If(x == u, 0, g.cost(u)) - g.pot(x)
        bound = z3.If(u == v, z3.And(x == v, g.w(uv) < 0, g.meets(uv)), bound)
        return [("vertex", z3.And(0 <= x, x < g.v.len, z3.Or(x == u, g.popped(x)))),
                ("clause", z3.Implies(falsified(c), bound)), ("graph", z3.Implies(satisfiable(g), bound)),
                ("true", A([k], z3.And(0 <= k, k < c.len), TRUE(-c[k])))]

    def walk_step(l):
        g, h = GV(l.this), GV(l.head.this)
        x, y = l.head.local("next_idx"), l.local("next_idx")
        c, d = l.this.clause_, l.head.this.clause_
        e, k = g.path(x), z3.Int("k")
        return [("prefix", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.len), c[k] == d[k]), patterns=[d[k]])), ("path", z3.And(g.path(x) == h.path(x), g.frm(e) == y, g.to(e) == x, z3.Or(z3.And(y == g.frm(l.arg(1)), g.visited(y)), g.popped(y)))),
                ("literal", z3.Implies(falsified(c), z3.Not(HOLDS(-g.lit(e))))), ("shorter", z3.Implies(falsified(c), falsified(d))),
                ("meets", z3.Implies(falsified(c), g.meets(e)))]

    small = lambda l: [l.local("dfs") < 2 ** 32 - 1]
    if part == "search":
        return Contract(G + "check_cycle_", requires=lambda s: req(s)[:-4], modifies=None, elsewhere=lambda n: n.startswith("clause-justified"),
                        loops=[Loop(search, name="search", assume=small), Loop(relax, name="relax", body_cuts=relaxable, entry_cuts=removed, step_cuts=relax_step), Loop(lambda l: [], name="walk")])
    def listed_edges(s):
        g, o, uv, x, k, j = GV(s.this), GV(s.old.this), s.arg(1), *z3.Ints("x k j")
        a = g.inc(x)[k]
        ex2 = lambda g, e: z3.Exists([j], z3.And(0 <= j, j < g.out(g.frm(e)).len, g.out(g.frm(e))[j] == e))
        V = z3.And(0 <= x, x < g.v.len, 0 <= k, k < g.inc(x).len)
        kept = z3.Or(a == uv, z3.And(k < o.inc(x).len, a == o.inc(x)[k]))
        new = z3.And(g.out(g.frm(uv))[o.out(g.frm(uv)).len] == uv, o.out(g.frm(uv)).len >= 0, g.out(g.frm(uv)).len == o.out(g.frm(uv)).len + 1)
        return [("incoming-lists", A([x, k], V, kept)), ("incoming-new", A([x, k], z3.And(V, k >= o.inc(x).len), z3.And(a == uv, new))),
                ("ends", g.ends()), ("outgoing", A([x], z3.And(0 <= x, x < g.v.len), g.out(x).len >= o.out(x).len)),
                ("outgoing", A([x, k], z3.And(0 <= x, x < g.v.len, 0 <= k, k < o.out(x).len), g.out(x)[k] == o.out(x)[k])),
                ("incoming-old", A([x, k], z3.And(V, k < o.inc(x).len), z3.And(0 <= a, a < g.e.len, ex2(o, a)))),
                ("incoming-kept", A([x, k], z3.And(V, k < o.inc(x).len), ex2(g, a)), ["incoming-old", "ends", "outgoing"]),
                ("incoming-added", A([x, k], z3.And(V, k >= o.inc(x).len), ex2(g, a)), ["incoming-new"])]
    return Contract(G + "check_cycle_", requires=req, ensures=cycle_result, post_cuts=listed_edges, modifies=CYCLE_FRAME, elsewhere=lambda n: n.startswith(("call ", "assert")),
                    loops=[Loop(search, name="search", assume=small, given=given), Loop(relax, name="relax", given=given_relax), Loop(walk, name="walk", step_cuts=walk_step)])


V_ = "this.vertices_[]."
CYCLE_FRAME = [V_ + f for f in ("potential_stack", "cost_from", "path_from", "visited_from", "offset", "outgoing", "incoming")] + [
    "this." + f for f in ("changed_vertices_", "changed_edges_", "costs_heap_", "visited_from_", "clause_", "stats_")] + ["ghost:clauses"]


def true_edges(g):
    """The literals of the edges of the graph and the edge to add are true."""
    e = z3.Int("e")
    return A([e], z3.And(0 <= e, e < g.e.len, MEMBER(e)), TRUE(g.lit(e)))


def satisfiable(g):
    e = z3.Int("e")
    return A([e], z3.And(0 <= e, e < g.e.len, MEMBER(e)), g.meets(e))


def cycle_result(s):
    g, o, uv, x, k, r = GV(s.this), GV(s.old.this), s.arg(1), *z3.Ints("x k"), s.result
    ce, oe = s.this.changed_edges_, s.old.this.changed_edges_
    added = ce.len == oe.len + 1
    u = g.frm(uv)
    V = lambda x: z3.And(0 <= x, x < g.v.len)
    pe, vl = g.path(x), s.this.visited_from_
    return [("added", z3.And(z3.Or(added, ce.len == oe.len), r == added)), ("history", A([k], z3.And(0 <= k, k < oe.len), ce[k] == oe[k])),
            ("accepted", z3.Implies(added, z3.And(ce[oe.len] == uv, s.g("clauses") == s.old.g("clauses")))),
            ("outgoing", A([x], V(x), g.out(x).len == o.out(x).len + z3.If(z3.And(added, x == u), 1, 0))),
            ("edges", A([x, k], z3.And(V(x), 0 <= k, k < o.out(x).len), g.out(x)[k] == o.out(x)[k])),
            ("edge", z3.Implies(added, g.out(u)[o.out(u).len] == uv)),
            ("incoming", A([x], V(x), g.inc(x).len == o.inc(x).len + z3.If(z3.And(added, x == g.to(uv)), 1, 0))),
            ("incoming-edges", A([x, k], z3.And(V(x), 0 <= k, k < o.inc(x).len), g.inc(x)[k] == o.inc(x)[k])),
            ("incoming-edge", z3.Implies(added, g.inc(g.to(uv))[o.inc(g.to(uv)).len] == uv)),
            ("feasible", z3.Implies(added, g.feasible())), ("mirror", g.mirror()), ("contained", z3.Implies(added, g.contains(uv))),
            ("rejected", z3.Implies(z3.Not(added), z3.And(s.g("clauses") == s.old.g("clauses") + 1, z3.Not(satisfiable(g))))),
            # paths along visited vertices lead to the start vertex of the edge and are tight
            ("tree", z3.Implies(added, z3.And(z3.Not(g.visited(u)), A([x], z3.And(V(x), g.visited(x)), z3.And(
                0 <= pe, pe < g.e.len, g.to(pe) == x, z3.Or(g.frm(pe) == u, g.visited(g.frm(pe))), g.pot(x) == g.pot(g.frm(pe)) + g.w(pe)))))),
            ("listed", A([x], z3.And(V(x), g.visited(x)), z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == x)))),
            ("list", A([k], z3.And(0 <= k, k < vl.len), z3.And(V(vl[k]), g.visited(vl[k]))))]


def module(part):
    """The contract of check_cycle_; its callees are used through their contracts."""
    base = [gr.set_potential(), gr.current_level()] + hp.contracts("From", ("push", "pop", "decrease", "empty"))
    for c in base:
        c.skip = True        # proved in modules of their own
    return Module("cycle-" + part, SRC, base + [check_cycle(part)], externals=EXTS, prepare=prep)


PROP = "CY"
def modules(tier):
    return [module("search"), module("result")]
