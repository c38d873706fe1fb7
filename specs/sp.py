"""Completeness of full propagation and of propagation through the zero node (C05).

REACH(a, b, c): there is a walk of weight at most c from a to b along edges of the graph other
than the edge xy that was added last. Walks are the least relation closed under the rules in
`walks`; they are extended at the end (transposed: at the start)."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp, cy, pg, dj, pf, un
from .cy import A
from .dj import BV, INVALID, IMPL, ROOT
from .gr import G, SRC
from .pr import I, B

REACH = z3.Function("reach", I, I, I, B)
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)
CNT = z3.Function("number_of_relevant", AI, I, AB, I)
STEP = z3.Function("changed_at", AI, I, AB, AI, AI, I, AB, AI, I, B)
ZERO = z3.Function("none_relevant", AI, I, AB, AI, B)


def counting():
    """The number of relevant elements of the queue; queues do not contain duplicates."""
    h, k, o, p = z3.Consts("ch ck co cp", AI)
    r, q = z3.Consts("cr cq", AB)
    n, m, x, t, i = z3.Ints("cn cm cx ct ci")
    E = lambda h, n, r, o, t: z3.And(0 <= o[t], o[t] < n, h[o[t]] == t, r[t])
    pos = lambda h, n, o: A([i], z3.And(0 <= i, i < n), o[h[i]] == i)
    cnt = lambda b: z3.If(b, 1, 0)
    step = z3.Implies(z3.And(pos(h, n, o), pos(k, m, p), A([t], t != x, E(h, n, r, o, t) == E(k, m, q, p, t))),
                      CNT(k, m, q) == CNT(h, n, r) - cnt(E(h, n, r, o, x)) + cnt(E(k, m, q, p, x)))
    none = z3.Implies(z3.And(pos(h, n, o), CNT(h, n, r) == 0), A([t], z3.BoolVal(True), z3.Not(E(h, n, r, o, t))))
    mk, mz = STEP(h, n, r, o, k, m, q, p, x), ZERO(h, n, r, o)
    return [z3.ForAll([h, n, r], z3.And(0 <= CNT(h, n, r), z3.Implies(n >= 0, CNT(h, n, r) <= n)), patterns=[CNT(h, n, r)]),
            z3.ForAll([h, n, r, o, k, m, q, p, x], z3.And(mk, step), patterns=[mk]), z3.ForAll([h, n, r, o], z3.And(mz, none), patterns=[mz])]


class SV(BV):
    def L(self, t):
        """Length of the path to a vertex."""
        a, b = self.cost(t), self.pot(t)
        return a + b if self.d == "From" else a - b

    def base(self, t):
        return self.pot(t) if self.d == "From" else -self.pot(t)

    def reach(self, a, b, c):
        return REACH(a, b, c) if self.d == "From" else REACH(b, a, c)

    def walks(self, xy):
        a, x, k, c, b = z3.Ints("a x k c b")
        e = self.dout(x)[k]
        r = self.reach(a, x, c)
        return [("empty-walk", z3.ForAll([x], REACH(x, x, 0), patterns=[REACH(x, x, 0)])),
                ("shorter-walk", z3.ForAll([a, x, b, c], z3.Implies(z3.And(REACH(a, x, c), c <= b), REACH(a, x, b)), patterns=[z3.MultiPattern(REACH(a, x, c), REACH(a, x, b))])),
                ("longer-walk", z3.ForAll([a, x, k, c], z3.Implies(z3.And(self.V(x), 0 <= k, k < self.dout(x).len, e != xy, r), self.reach(a, self.tgt(e), c + self.w(e))),
                                          patterns=[z3.MultiPattern(r, e)]))]

    def settled(self, xy):
        """Edges of the source and of relevant vertices do not give shorter paths."""
        t, k = z3.Ints("t k")
        e = self.dout(t)[k]
        b = self.tgt(e)
        return A([t, k], z3.And(self.V(t), self.visited(t), z3.Or(self.relevant(t), t == self.src(xy)), 0 <= k, k < self.dout(t).len),
                 z3.And(self.visited(b), self.cost(b) <= self.cost(t) + self.red(e)))

    def arrays(self):
        """Queue, length, relevance and positions as arrays."""
        ex, st, lv, ty = self.g._
        f = "relevant_from" if self.d == "From" else "relevant_to"
        get = lambda key, s: ex.get_mem(st, lv.root, lv.key() + key, s)
        return [get(("costs_heap_", "heap_", "[]"), AI), self.g.costs_heap_.heap_.len, get(("vertices_", "[]", f), AB), get(("vertices_", "[]", "offset"), AI)]

    def count(self):
        return CNT(*self.arrays()[:3])

    def claim(self, xy, u, c):
        """A walk over xy and then to u is matched by the tree, or by a walk without xy."""
        return z3.Or(z3.And(self.relevant(u), self.visited(u), self.L(u) - self.base(self.src(xy)) <= self.w(xy) + c), self.reach(self.src(xy), u, self.w(xy) + c))


def full(d):
    base = dj.full(d)
    st = lambda s: SV(s.this, d)

    def req(s):
        return base.requires(s) + st(s).walks(s.arg(1))

    def parts(l, s=None, i=None):
        g, xy, t, k = st(l), l.arg(1), *z3.Ints("t k")
        src, tgt = g.src(xy), g.tgt(xy)
        h = hp.H(g.g.costs_heap_, g.g, d)
        popped = z3.And(g.V(t), g.visited(t), z3.Not(h.has(t)))
        e = g.dout(t)[k]
        b = g.tgt(e)
        done = z3.BoolVal(True) if s is None else z3.Or(t != s, k < i)
        return [("walk", A([t], z3.And(g.V(t), g.visited(t), z3.Not(g.relevant(t))), g.reach(src, t, g.L(t) - g.base(src)))),
                ("relevant-walk", A([t], z3.And(g.V(t), g.visited(t), g.relevant(t)), g.reach(tgt, t, g.L(t) - g.base(src) - g.w(xy)))),
                ("relaxed", A([t, k], z3.And(popped, 0 <= k, k < g.dout(t).len, done), z3.And(g.visited(b), g.cost(b) <= g.cost(t) + g.red(e)))),
                ("count", z3.And(l.local("num_relevant") == g.count() + z3.If(g.visited(tgt), 0, 1))),
                ("size", 0 <= h.n), ("source", z3.Not(h.has(src)) if s is not None else z3.Or(z3.Not(h.has(src)), z3.And(h.n == 1, h[0] == src)))]

    def small(l):
        return [l.this.costs_heap_.heap_.len < 2 ** 30]

    def inner_given(l):
        return base.loops[1].inv(l)

    def start(l):
        return [("change", STEP(*st(l.old).arrays(), *st(l).arrays(), l.arg(0)))]

    def removed(l):
        """Vertex u has been removed from the queue."""
        o = l.snap("search.head")
        g, h, u, x = st(l), SV(o.this, d), l.local("u_idx"), z3.Int("x")
        a, b = hp.H(g.g.costs_heap_, g.g, d), hp.H(h.g.costs_heap_, h.g, d)
        return [("change", STEP(*h.arrays(), *g.arrays(), u)), ("other", A([x], x != u, a.has(x) == b.has(x)))]

    def step(l):
        g, o, x, u = st(l), SV(l.head.this, d), z3.Int("x"), l.local("u_idx")
        e = g.dout(u)[l.i - 1]
        v = g.tgt(e)
        a, b = hp.H(g.g.costs_heap_, g.g, d), hp.H(o.g.costs_heap_, o.g, d)
        return [("others", A([x], z3.And(g.V(x), x != v), z3.And(a.has(x) == b.has(x), g.visited(x) == o.visited(x), g.cost(x) == o.cost(x), g.relevant(x) == o.relevant(x)))),
                ("lower", z3.Implies(o.visited(v), z3.And(g.visited(v), g.cost(v) <= o.cost(v)))),
                ("target", z3.And(g.visited(v), g.cost(v) <= g.cost(u) + g.red(e))),
                ("change", STEP(*o.arrays(), *g.arrays(), v))]

    def settled(l):
        """Relevant vertices have been removed from the queue if the count is zero."""
        g, t = st(l), z3.Int("t")
        h = hp.H(g.g.costs_heap_, g.g, d)
        return [("none", ZERO(*g.arrays())), ("relevant", z3.Implies(l.local("num_relevant") == 0, A([t], h.has(t), z3.Not(g.relevant(t))))),
                ("settled", z3.Implies(l.local("num_relevant") == 0, g.settled(l.arg(1))))]

    def exhausted(l):
        g = st(l)
        return [("settled", g.settled(l.arg(1)))]

    def rules(s):
        g, xy, u, k, c = st(s), s.arg(1), *z3.Ints("u k c")
        e = g.dout(u)[k]
        old = g.reach(g.tgt(xy), u, c)
        return [("walks", [("base", z3.ForAll([c], z3.Implies(c >= 0, g.claim(xy, g.tgt(xy), c)))),
                           ("step", A([u, k, c], z3.And(g.V(u), 0 <= k, k < g.dout(u).len, e != xy, g.claim(xy, u, c)), g.claim(xy, g.tgt(e), c + g.w(e))))],
                 A([u, c], old, g.claim(xy, u, c)))]

    def ens(s):
        g, xy, u, c = st(s), s.arg(1), *z3.Ints("u c")
        return base.ensures(s) + [("complete", z3.ForAll([u, c], z3.Implies(g.reach(g.tgt(xy), u, c), g.claim(xy, u, c)), patterns=[g.reach(g.tgt(xy), u, c)]))]
    mine = ("complete",)
    old = {n for n, _ in []}
    return Contract(IMPL[d] + "dijkstra_full", requires=req, ensures=ens, modifies=base.modifies, rules=rules, defs=lambda s: counting(),
                    elsewhere=lambda n: n.startswith(("call ", "assert", "frame")) or n.startswith("post.") and n != "post.complete",
                    loops=[Loop(parts, name="search", given=base.loops[0].inv, entry_cuts=start, exit_cuts=exhausted, assume=small),
                           Loop(lambda l: parts(l, l.local("u_idx"), l.i), name="relax", given=inner_given, body_cuts=base.loops[1].body_cuts, entry_cuts=removed, step_cuts=step, exit_cuts=settled, assume=small)])


def tight(g, reached, but=None, done=lambda t, k: z3.BoolVal(True), start=None):
    """Bounds of reached vertices meet the constraints of the edges of the graph."""
    t, k = z3.Ints("t k")
    e = g.dout(t)[k]
    q = g.tgt(e)
    return A([t, k], z3.And(g.V(t), (start or reached)(t), 0 <= k, k < g.dout(t).len, e != but if but is not None else z3.BoolVal(True), done(t, k)),
             z3.And(g.V(q), reached(q), g.bound(q) <= g.bound(t) + g.w(e)))


def isolated(s, e):
    """Zero nodes without bounds have no other edges."""
    out = []
    for d in ("From", "To"):
        g, t, k = SV(s.this, d), *z3.Ints("t k")
        out.append(("complete-isolated-" + d, A([t, k], z3.And(g.V(t), t == ROOT(t), z3.Not(g.both(t)), 0 <= k, k < g.dout(t).len), g.dout(t)[k] == e)))
    return out


def changed(s, d):
    """Only bounds of the visited vertices change, and those of a zero node that is reached first."""
    g, o, t, k = SV(s.this, d), SV(s.old.this, d), *z3.Ints("t k")
    z, vl = s.arg(1), g.vlist()
    first = z3.And(t == z, z3.Not(o.some(z)))
    vis = z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == t))
    same = lambda a, b: z3.And(a.bvisited(t) == b.bvisited(t), a.bound(t) == b.bound(t))
    a, b = SV(s.this, "To" if d == "From" else "From"), SV(s.old.this, "To" if d == "From" else "From")
    return [("complete-changed", A([t], g.V(t), z3.Or(vis, same(g, o), first))), ("complete-other", A([t], g.V(t), z3.Or(same(a, b), first)))]


def bounds(d):
    base = dj.bounds(d)
    other = "To" if d == "From" else "From"
    st = lambda s: SV(s.this, d)

    def req(s):
        e = s.arg(0)
        g, h = st(s), SV(s.this, other)
        return base.requires(s) + [("complete-bounds", tight(g, g.bvisited, e)), ("complete-%s" % other, tight(h, h.bvisited, e))] + isolated(s, e)

    def parts(l, s=None, i=None):
        g, t = st(l), z3.Int("t")
        h = hp.H(g.g.costs_heap_, g.g, d)
        reached = lambda t: z3.Or(g.bvisited(t), g.visited(t))
        pending = lambda t: z3.And(reached(t), z3.Not(z3.And(g.visited(t), h.has(t))))
        o = SV(l.old.this, d)
        z = l.arg(1)
        return [("tight", tight(g, reached, None, (lambda t, k: z3.BoolVal(True)) if s is None else (lambda t, k: z3.Or(t != s, k < i)), pending)),
                ("unchanged", A([t], z3.And(g.V(t), z3.Not(g.visited(t))), z3.Or(g.bound(t) == o.bound(t), z3.And(t == z, z3.Not(o.some(z))))))]

    def reset(l):
        g, t, k = st(l), *z3.Ints("t k")
        vl = g.vlist()
        rest = lambda t: z3.Exists([k], z3.And(l.i <= k, k < vl.len, vl[k] == t))
        b = SV(l.snap("reset").this, d)
        return [("tight", tight(b, lambda t: z3.Or(b.bvisited(t), b.visited(t)))), ("bounds", A([t], g.V(t), z3.And(g.bound(t) == b.bound(t), z3.Implies(b.bvisited(t), g.bvisited(t)),
                 z3.Implies(g.bvisited(t), z3.Or(b.bvisited(t), b.visited(t)))))),
                ("reset", A([k], z3.And(0 <= k, k < l.i), g.bvisited(vl[k])))]

    def listed(l):
        g, t, k = st(l), *z3.Ints("t k")
        vl = g.vlist()
        return [("listed", A([t], z3.And(g.V(t), g.visited(t)), z3.Exists([k], z3.And(0 <= k, k < vl.len, vl[k] == t)))),
                ("list", A([k], z3.And(0 <= k, k < vl.len), z3.And(g.V(vl[k]), g.visited(vl[k]))))]

    def finished(l):
        g, t, b = st(l), z3.Int("t"), SV(l.snap("reset").this, d)
        return [("reached", A([t], g.V(t), g.bvisited(t) == z3.Or(b.bvisited(t), b.visited(t))))]

    def ens(s):
        e = s.arg(0)
        g, h = st(s), SV(s.this, other)
        z = s.arg(1)
        return base.ensures(s) + [("complete-bounds", tight(g, g.bvisited)), ("complete-%s" % other, tight(h, h.bvisited, e))] + isolated(s, e) + changed(s, d) + [
            ("complete-zero", z3.Implies(g.src(e) == z, g.both(z)))]
    return Contract(IMPL[d] + "dijkstra_bounds", requires=req, ensures=ens, modifies=base.modifies,
                    elsewhere=lambda n: n.startswith(("call ", "assert", "frame")) or n.startswith("post.") and "complete" not in n,
                    loops=[Loop(parts, name="search", given=base.loops[0].inv),
                           Loop(lambda l: parts(l, l.local("s_idx"), l.i), name="relax", given=base.loops[1].inv, body_cuts=base.loops[1].body_cuts),
                           Loop(reset, name="reset", given=base.loops[2].inv, entry_cuts=listed, exit_cuts=finished)])


T = pf.T
FLAGS = ["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled", "this.stats_"]
ELSEWHERE = lambda n: n.startswith(("assert", "call ", "frame", "clause-")) and "complete" not in n and "walk" not in n     # discharged for C03 and C04


class Closing:
    """Conditions under which an edge closes a negative cycle or is implied according to the paths."""

    def __init__(self, s, full, xy):
        self.f, self.t, self.full, self.xy = SV(s.this, "From"), SV(s.this, "To"), full, xy
        self.st = s.this.edge_states_

    def E(self, e):
        return z3.And(0 <= e, e < self.f.e.len)

    def enabled(self, e):
        return self.st[e].enabled != 0

    def through(self, a, b):
        """Length of the path from a to b over the edge or the zero node, and whether both ends are reached."""
        f, t, xy = self.f, self.t, self.xy
        if self.full:
            return z3.And(t.relevant(a), f.relevant(b)), t.L(a) - t.base(t.src(xy)) + f.L(b) - f.base(f.src(xy)) - f.w(xy)
        return z3.And(t.bvisited(a), f.bvisited(b)), t.bound(a) + f.bound(b)

    def bad(self, e):
        c, n = self.through(self.f.to(e), self.f.frm(e))
        return z3.And(c, n + self.f.w(e) < 0)

    def implied(self, e):
        c, n = self.through(self.f.frm(e), self.f.to(e))
        return z3.And(c, n <= self.f.w(e))

    def reached(self, d, x):
        g = self.f if d == "From" else self.t
        return g.relevant(x) if self.full else z3.BoolVal(True)


def others(s, e):
    x = z3.Int("x")
    a, b = s.this.edge_states_, s.old.this.edge_states_
    return [("others", A([x], x != e, a[x].enabled == b[x].enabled)), ("kept", z3.Implies(z3.Not(s.result), a[e].enabled == b[e].enabled)),
            ("disabled", z3.Implies(s.result, a[e].enabled == 0))]


def edge_true(full):
    def ens(s):
        return others(s, s.arg(0)) + [("implied", z3.Implies(s.result, Closing(s.old, full, s.arg(1)).implied(s.arg(0))))]
    return Contract(G + "propagate_edge_true_", targs=T[full], requires=lambda s: pf.common(s, full, s.arg(0), s.arg(1)), ensures=ens, modifies=FLAGS, elsewhere=ELSEWHERE)


def edge_false(full):
    def ens(s):
        b = Closing(s.old, full, s.arg(2)).bad(s.arg(1))
        return others(s, s.arg(1)) + [("refuted", z3.Implies(s.result, b)), ("found", z3.Implies(z3.And(s.arg(3), z3.Not(s.result)), z3.Not(b)))]
    return Contract(G + "propagate_edge_false_", targs=T[full], requires=lambda s: pf.common(s, full, s.arg(1), s.arg(2)), ensures=ens,
                    modifies=FLAGS + ["this.clause_", "arg3", "ghost:clauses"], elsewhere=ELSEWHERE, loops=[Loop(lambda l: [], name="forward"), Loop(lambda l: [], name="backward")])


def checked(s, d, full, xy, n):
    """Edges starting at the first n visited vertices do not close negative cycles."""
    c, k, e = Closing(s, full, xy), *z3.Ints("k e")
    g = c.f if d == "From" else c.t
    vl = g.vlist()
    return A([k, e], z3.And(0 <= k, k < n, c.E(e), c.enabled(e), g.src(e) == vl[k], c.reached(d, vl[k])), z3.Not(c.bad(e)))


def reasons(s, old, full, xy):
    """Edges are only disabled if they close a negative cycle or are implied."""
    c, e = Closing(s, full, xy), z3.Int("e")
    b = old.this.edge_states_
    return [("fewer", A([e], z3.And(c.E(e), c.enabled(e)), b[e].enabled != 0)), ("reason", A([e], z3.And(c.E(e), b[e].enabled != 0, z3.Not(c.enabled(e))), z3.Or(c.bad(e), c.implied(e))))]


def edges(d, full):
    old = un.edges(d, full)

    def vertices(l):
        return [("checked", z3.Implies(l.arg(3), checked(l, d, full, l.arg(1), l.i)))] + reasons(l, l.old, full, l.arg(1))

    def scan(back):
        inc = (d == "From") != back

        def inv(l):
            o = l.outer
            xy = o.arg(1)
            out = reasons(o, o.old, full, xy) + [("checked", z3.Implies(o.arg(3), checked(o, d, full, xy, l.loop("vertices").i)))]
            if back:
                c, v, p, k = Closing(o, full, xy), l.local("vertex"), l.local("$jt"), z3.Int("k")
                g = c.f
                e = (g.cin(v) if inc else g.cout(v))[k]
                out.append(("scanned", z3.Implies(l.local("ret"), A([k], z3.And(0 <= k, k < p, c.enabled(e)), z3.Not(c.bad(e))))))
            return out
        return inv

    def step(l):
        """All edges starting at the vertex have been checked."""
        c, h, e = Closing(l, full, l.arg(1)), Closing(l.head, full, l.arg(1)), z3.Int("e")
        g = c.f if d == "From" else c.t
        v = g.vlist()[l.i - 1]
        return [("vertex", z3.Implies(z3.And(l.arg(3), c.reached(d, v)), A([e], z3.And(c.E(e), c.enabled(e), g.src(e) == v), z3.Not(c.bad(e)))))]

    def ens(s):
        g = SV(s.this, d)
        return [("complete", z3.Implies(z3.And(s.result, s.arg(3)), checked(s, d, full, s.arg(1), g.vlist().len)))] + [("complete-" + n, f) for n, f in reasons(s, s.old, full, s.arg(1))]
    return Contract(IMPL[d] + "propagate_edges", targs=T[full], requires=old.requires, ensures=ens, modifies=old.modifies, elsewhere=ELSEWHERE,
                    loops=[Loop(vertices, name="vertices", given=old.loops[0].inv, step_cuts=step), Loop(scan(False), name="true", given=old.loops[1].inv),
                           Loop(scan(True), name="false", given=old.loops[2].inv)])


def skip(c):
    c.skip = True
    return c


def merge(*cs):
    """Several contracts of the same function."""
    c = cs[0]
    for x in cs[1:]:
        c = un.both(c, x)
    return skip(c)


def joined():
    """Walks can be joined."""
    a, b, c, m, n = z3.Ints("a b c m n")
    p, q = REACH(a, b, m), REACH(b, c, n)
    return [("joined-walks", z3.ForAll([a, b, c, m, n], z3.Implies(z3.And(p, q), REACH(a, c, m + n)), patterns=[z3.MultiPattern(p, q)]))]


def closed(s, xy):
    """No enabled edge closes a negative cycle with a walk that does not use xy."""
    c, e, n = Closing(s, True, xy), *z3.Ints("e n")
    r = REACH(c.f.to(e), c.f.frm(e), n)
    return A([e, n], z3.And(c.E(e), c.enabled(e), r), n + c.f.w(e) >= 0)


def closed_through(s, xy):
    """No enabled edge closes a negative cycle with a walk that uses xy once."""
    c, e, m, n = Closing(s, True, xy), *z3.Ints("e m n")
    f = c.f
    return A([e, m, n], z3.And(c.E(e), c.enabled(e), REACH(f.to(e), f.frm(xy), m), REACH(f.to(xy), f.frm(e), n)), m + f.w(xy) + n + f.w(e) >= 0)


def propagate_full():
    def req(s):
        xy = s.arg(1)
        return un.full().requires(s) + pf.full().requires(s) + SV(s.this, "From").walks(xy) + [("transposed-" + n, f) for n, f in SV(s.this, "To").walks(xy)] + joined() + [
            ("complete-closed", closed(s, xy))]

    def done(l):
        s, xy = l, l.arg(1)
        c, e, m, n = Closing(s, True, xy), *z3.Ints("e m n")
        f, t = c.f, c.t
        p, q = REACH(f.to(e), f.frm(xy), m), REACH(f.to(xy), f.frm(e), n)
        return [("fewer", reasons(s, l.old, True, xy)[0][1]),
                ("checked", z3.Implies(l.local("ret"), A([e], z3.And(c.E(e), c.enabled(e)), z3.Not(c.bad(e))))),
                ("after", A([e, n], z3.And(c.E(e), q), z3.Or(f.claim(xy, f.frm(e), n)))), ("before", A([e, m], z3.And(c.E(e), p), z3.Or(t.claim(xy, f.to(e), m)))),
                ("complete", z3.Implies(l.local("ret"), closed_through(s, xy)))]

    def ens(s):
        return [("complete", z3.Implies(s.result, closed_through(s, s.arg(1)))), ("complete-closed", closed(s, s.arg(1)))] + fewer(s)
    return Contract(G + "propagate_full_", requires=req, ensures=ens, modifies=pf.FULL, elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: [], name="reset-From", entry_cuts=done), Loop(lambda l: [], name="reset-To")])


def open_bounds(s):
    """No enabled edge closes a negative cycle through the zero node according to the bounds."""
    c, e = Closing(s, False, z3.IntVal(0)), z3.Int("e")
    return A([e], z3.And(c.E(e), c.enabled(e)), z3.Not(c.bad(e)))


def settled_bounds(s, e=None):
    g, h = SV(s.this, "From"), SV(s.this, "To")
    return [("complete-bounds", tight(g, g.bvisited, e)), ("complete-To", tight(h, h.bvisited, e))]


def zeros(s):
    out = []
    for d in ("From", "To"):
        g, t, k = SV(s.this, d), *z3.Ints("t k")
        out.append(("complete-isolated-" + d, A([t, k], z3.And(g.V(t), t == ROOT(t), 0 <= k, k < g.dout(t).len), g.both(t))))
    return out


def propagate_zero():
    def req(s):
        return un.zero().requires(s) + pf.zero().requires(s) + settled_bounds(s, s.arg(1)) + isolated(s, s.arg(1)) + [("complete-open", open_bounds(s))]

    def ends(s):
        """Zero nodes without bounds have no edges."""
        e, z, out = s.arg(1), s.arg(2), []
        for (d, f), (n, i) in zip((("From", None), ("To", None)), isolated(s, e)):
            g = SV(s.this, d)
            out += [("only-" + d, i), ("ends-" + d, g.listed()), ("edge-" + d, z3.And(ROOT(g.src(e)) == z, z3.Implies(g.src(e) == z, g.both(z))))]
        return out + [(n, f, ["%s-%s" % (x, n.rsplit("-", 1)[1]) for x in ("only", "ends", "edge")]) for n, f in zeros(s)]

    def ens(s):
        return [("complete", z3.Implies(s.result, open_bounds(s)))] + settled_bounds(s) + zeros(s) + fewer(s)
    return Contract(G + "propagate_zero_", requires=req, ensures=ens, post_cuts=ends, modifies=pf.ZERO, elsewhere=ELSEWHERE)


def fewer(s):
    e = z3.Int("e")
    return [("complete-fewer", A([e], z3.And(0 <= e, e < s.this.edges_.len, s.this.edge_states_[e].enabled != 0), s.old.this.edge_states_[e].enabled != 0))]


def cheap():
    base = un.cheap()
    return Contract(G + "cheap_propagate_", requires=base.requires, ensures=fewer, modifies=pg.CAND, elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: fewer(l.outer), name="incoming", given=base.loops[0].inv), Loop(lambda l: [], name="walk")])


def simple():
    base = un.simple()
    return Contract(G + "propagate_simple_", requires=base.requires, ensures=fewer, modifies=pg.CAND, elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: fewer(l.outer), name="incoming", given=base.loops[0].inv), Loop(fewer, name="plus", given=base.loops[1].inv)])


ZERO_MODE = 4   # PropagationMode::Zero


def add_edge():
    def prop(g):
        t = g.changed_trail_
        return z3.Or(t.len == 0, t[t.len - 1].can_propagate)

    def zero(s):
        return s.this.propagate_ == ZERO_MODE

    def conclusions(s):
        xy = s.arg(1)
        return [("full", closed_through(s, xy), prop(s.this)), ("closed", closed(s, xy), prop(s.this)), ("zero", open_bounds(s), zero(s))] + [
            (n, f, zero(s)) for n, f in settled_bounds(s) + zeros(s)]

    def req(s):
        xy = s.arg(1)
        return un.add_edge().requires(s) + pf.add_edge().requires(s) + SV(s.this, "From").walks(xy) + [("transposed-" + n, f) for n, f in SV(s.this, "To").walks(xy)] + joined() + [
            ("complete-full", z3.Implies(prop(s.this), closed(s, xy))), ("complete-zero", z3.Implies(zero(s), z3.And(open_bounds(s), *[f for _, f in settled_bounds(s) + zeros(s)])))]

    def added(l):
        """The state after the edge has been added."""
        s, o = l, l.old
        xy, x, k = l.arg(1), *z3.Ints("x k")
        out = [("fewer", f) for n, f in fewer(l)] + [("kept", z3.And(zero(s) == zero(o), prop(s.this) == prop(o.this)))]
        out += [("old-closed", z3.Implies(prop(o.this), closed(o, xy))), ("closed", z3.Implies(prop(s.this), closed(s, xy)), ["fewer", "kept", "old-closed"])]
        for (d, f), (n, i), (m, j) in zip((("From", None), ("To", None)), isolated(s, xy), zeros(o)):
            g, h = SV(s.this, d), SV(o.this, d)
            e = g.dout(x)[k]
            out += [("lists-" + d, A([x, k], z3.And(g.V(x), 0 <= k, k < g.dout(x).len), z3.Or(z3.And(k < h.dout(x).len, e == h.dout(x)[k]), e == xy))),
                    ("bounds-" + d, A([x], z3.And(g.V(x), x == ROOT(x)), g.both(x) == h.both(x))), ("old-isolated-" + d, z3.Implies(zero(o), j)),
                    ("isolated-" + d, z3.Implies(zero(s), i), ["kept", "lists-" + d, "bounds-" + d, "old-isolated-" + d])]
        return out

    def ens(s):
        return [("complete-" + n, z3.Implies(z3.And(s.result, c), f)) for n, f, c in conclusions(s)]
    return Contract(G + "add_edge", requires=req, ensures=ens, modifies=sorted(set(pf.ZERO + pf.FULL + cy.CYCLE_FRAME)), elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: [("reset", z3.BoolVal(True))], name="reset", exit_cuts=added)])


def lemmas():
    """Facts about walks: each relation below is the least one closed under its rules (rule induction)."""
    R0 = REACH
    W = z3.Function("walk", I, I, I, B)               # walks that may use the edge xy
    E = z3.Function("edge", I, I, I, B)               # edges other than xy with their weight
    a, b, c, d, m, n, k, x, y, w, pa, pb = z3.Ints("a b c d m n k x y w pa pb")
    m1, m2 = z3.Ints("m1 m2")
    pot = z3.Function("potential", I, I)
    empty = z3.ForAll([a], R0(a, a, 0))
    mono = z3.ForAll([a, b, m, n], z3.Implies(z3.And(R0(a, b, m), m <= n), R0(a, b, n)))
    longer = z3.ForAll([a, b, c, m, n], z3.Implies(z3.And(R0(a, b, m), E(b, c, n)), R0(a, c, m + n)))
    rules = [empty, mono, longer]
    # joining walks: induction over the second one
    P = lambda d, n: z3.Implies(R0(a, b, m), R0(a, d, m + n))
    out = [("join-base", rules, P(b, z3.IntVal(0))), ("join-shorter", rules + [P(c, n), n <= k], P(c, k)), ("join-step", rules + [P(c, n), E(c, d, k)], P(d, n + k))]
    joined = z3.ForAll([a, b, c, m, n], z3.Implies(z3.And(R0(a, b, m), R0(b, c, n)), R0(a, c, m + n)))
    one = z3.ForAll([b, c, n], z3.Implies(E(b, c, n), R0(b, c, n)))
    out += [("single-edge", rules + [E(b, c, n)], R0(b, c, n)), ("edge-in-front", [joined, one, E(a, b, m), R0(b, c, n)], R0(a, c, m + n))]
    # walks over feasible edges are not shorter than the difference of the potentials
    feas = z3.ForAll([a, b, n], z3.Implies(E(a, b, n), pot(a) + n - pot(b) >= 0))
    F = lambda b, n: pot(a) + n - pot(b) >= 0
    out += [("feasible-base", [], F(a, z3.IntVal(0))), ("feasible-shorter", [F(b, n), n <= m], F(b, m)), ("feasible-step", [feas, F(b, m), E(b, c, n)], F(c, m + n))]
    feasible = z3.ForAll([a, b, n], z3.Implies(R0(a, b, n), pot(a) + n - pot(b) >= 0))
    # a walk uses xy not at all or (up to cycles, which do not make it shorter) once
    D = lambda b, n: z3.Or(R0(a, b, n), z3.Exists([m1, m2], z3.And(R0(a, x, m1), R0(y, b, m2), m1 + w + m2 <= n)))
    fx = pot(x) + w - pot(y) >= 0
    out += [("split-base", rules, D(a, z3.IntVal(0))), ("split-shorter", rules + [D(b, n), n <= m], D(b, m)), ("split-edge", rules + [D(b, n), E(b, c, m)], D(c, n + m)),
            ("split-xy", rules + [feasible, fx, D(x, n)], D(y, n + w))]
    # an edge from c to d with weight k that closes no negative cycle without xy or with xy used once closes none
    split = lambda a, b, n: z3.Or(R0(a, b, n), z3.And(R0(a, x, m1), R0(y, b, m2), m1 + w + m2 <= n))
    without = z3.ForAll([n], z3.Implies(R0(d, c, n), n + k >= 0))
    once = z3.ForAll([m, n], z3.Implies(z3.And(R0(d, x, m), R0(y, c, n)), m + w + n + k >= 0))
    out += [("closed", [without, once, split(d, c, n)], n + k >= 0)]
    # bounds that meet the constraints of all edges are not larger than the weights of walks from the zero node
    bd, vis = z3.Function("bound", I, I), z3.Function("reached", I, B)
    tightness = z3.ForAll([a, b, n], z3.Implies(z3.And(vis(a), E(a, b, n)), z3.And(vis(b), bd(b) <= bd(a) + n)))
    Z = lambda b, n: z3.And(vis(b), bd(b) <= n)
    out += [("bounds-base", [vis(a), bd(a) == 0], Z(a, z3.IntVal(0))), ("bounds-shorter", [Z(b, n), n <= m], Z(b, m)), ("bounds-step", [tightness, Z(b, n), E(b, c, m)], Z(c, n + m))]
    up, upv = z3.Function("upper", I, I), z3.Function("reaches", I, B)
    out += [("closed-zero", [vis(c), bd(c) <= m, upv(d), up(d) <= n, z3.Not(z3.And(vis(c), upv(d), bd(c) + up(d) + k < 0))], m + n + k >= 0)]
    return out


PROP = "SP"
def modules(tier):
    out = []
    for d in ("From", "To"):
        low = hp.contracts(d, ("push", "pop", "decrease", "empty", "clear"))
        for c in low:
            c.skip = True
        out.append(Module("complete-paths-" + d, SRC, low + [full(d), bounds(d)], externals=cy.EXTS, prepare=cy.prep))
    for f in (True, False):
        out.append(Module("complete-edges-%s" % ("full" if f else "zero"), SRC, [skip(pg.disable_edge()), edge_true(f), edge_false(f), edges("From", f), edges("To", f)],
                          externals=cy.EXTS, prepare=cy.prep))
    queries = [skip(c) for c in gr.queries(("edge_is_enabled", "can_propagate", "mode"))]
    low = [skip(pg.disable_edge())] + [merge(pf.edges(d, f), un.edges(d, f), edges(d, f)) for d in ("From", "To") for f in (True, False)] + [skip(full("From")), skip(full("To"))]
    out.append(Module("complete-propagation", SRC, queries + low + [propagate_full()], externals=pf.EXTS, prepare=pf.prep, lemmas=lemmas()))
    low = [skip(pg.disable_edge())] + [merge(pf.edges(d, f), un.edges(d, f), edges(d, f)) for d in ("From", "To") for f in (True, False)] + [
        un.both(bounds(d), un.bounds(d)) for d in ("From", "To")]
    out.append(Module("complete-zero", SRC, queries + low + [propagate_zero()], externals=pf.EXTS, prepare=pf.prep))
    out.append(Module("complete-simple", SRC, [skip(pg.disable_edge()), cheap(), simple()], externals=cy.EXTS, prepare=cy.prep))
    top = [un.both(cy.check_cycle("result"), un.check_cycle()), merge(pg.simple(), un.simple(), simple()), un.both(propagate_zero(), pf.zero()), un.both(propagate_full(), pf.full())]
    out.append(Module("complete-add", SRC, queries + top + [skip(c) for c in hp.contracts("From", ("clear", "empty"))] + [add_edge()], externals=pf.EXTS, prepare=pf.prep))
    return out
