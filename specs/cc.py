"""Components (DLPropagator::cc_reset_, cc_calculate_, init).

IS_ZERO and ZERO_INDEX name the zero vertices at the entry of a function: a vertex is a zero
vertex if it is listed, and its index is its position in the list."""
import z3
from cxxwp.exec import Ext, SpecCtx
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr, c09
from .pr import D, I, B, fr, SRC
from .cy import A

ISZ = z3.Function("is_zero", I, B)
ZI = z3.Function("zero_index", I, I)
FRESH = z3.Function("fresh_symbol", I, I)


class CV:
    def __init__(self, s):
        t = s.this
        self.e, self.info, self.z = t.edges_, t.vertex_info_, t.zero_vertices_
        self.n = self.info.len

    def frm(self, e):
        return fr(self.e[e])

    def to(self, e):
        return self.e[e].to

    def V(self, x):
        return z3.And(0 <= x, x < self.n)

    def E(self, e):
        return z3.And(0 <= e, e < self.e.len)

    def visited(self, x):
        return self.info[x].visited == 1

    def cc(self, x):
        return self.info[x].cc

    def home(self, x):
        """The zero vertex of the component."""
        return self.z[self.cc(x)]

    def flags(self):
        x = z3.Int("x")
        return [("flags", A([x], self.V(x), z3.And(z3.Or(self.info[x].visited == 0, self.info[x].visited == 1), self.cc(x) >= 0)))]

    def ends(self):
        e = z3.Int("e")
        return [("ends", A([e], self.E(e), z3.And(self.V(self.frm(e)), self.V(self.to(e)))))]


def zeros(s):
    """The zero vertices are distinct (the second part names them)."""
    g, i, j, x = CV(s), *z3.Ints("i j x")
    L = lambda i: z3.And(0 <= i, i < g.z.len)
    return [("zeros", A([i], L(i), z3.And(g.V(g.z[i]), ISZ(g.z[i]), ZI(g.z[i]) == i))),
            ("zero", z3.ForAll([x], z3.Implies(ISZ(x), z3.And(L(ZI(x)), g.z[ZI(x)] == x)), patterns=[ISZ(x)]))]


def marked(g, x, upto=None):
    z = ISZ(x) if upto is None else z3.And(ISZ(x), ZI(x) < upto)
    return z3.And(g.visited(x) == z, g.info[x].visited == z3.If(z, 1, 0), g.cc(x) == z3.If(z, ZI(x), 0))


INFO = ["this.vertex_info_[].cc", "this.vertex_info_[].visited"]


def reset():
    x = z3.Int("x")

    def first(l):
        g = CV(l)
        return [("done", A([x], z3.And(0 <= x, x < l.i), z3.And(g.info[x].visited == 0, g.cc(x) == 0)))]

    def second(l):
        g = CV(l)
        return [("index", l.i >= 0), ("done", A([x], g.V(x), marked(g, x, l.i)))]
    return Contract(D + "cc_reset_", requires=zeros, modifies=INFO,
                    ensures=lambda s: [("marked", A([x], CV(s).V(x), marked(CV(s), x)))], loops=[Loop(first, name="clear"), Loop(second, name="mark")])


def lists(s):
    """Edges are listed at their ends."""
    g, o, i = CV(s), s.arg(0), s.arg(1)
    x, k, e = z3.Ints("x k e")
    a, b = o.at(x, k), i.at(x, k)
    return [("outgoing", A([x, k], z3.And(0 <= k, k < o.n(x)), z3.And(g.E(a), g.frm(a) == x))),
            ("incoming", A([x, k], z3.And(0 <= k, k < i.n(x)), z3.And(g.E(b), g.to(b) == x)))]


def complete(s):
    g, o, i = CV(s), s.arg(0), s.arg(1)
    k, e = z3.Ints("k e")
    return [("outgoing-complete", A([e], g.E(e), z3.Exists([k], z3.And(0 <= k, k < o.n(g.frm(e)), o.at(g.frm(e), k) == e)))),
            ("incoming-complete", A([e], g.E(e), z3.Exists([k], z3.And(0 <= k, k < i.n(g.to(e)), i.at(g.to(e), k) == e))))]


class Walk:
    """Invariants of the traversal; vertices that are neither on the stack nor processed
    at the moment have only neighbours that are visited."""

    def __init__(self, l):
        self.l, self.g = l, CV(l)
        self.o, self.i = l.arg(0), l.arg(1)
        self.c = l.local("cc")

    def base(self):
        """Zero vertices keep their marks and components of others are at most the current one."""
        g, x = self.g, z3.Int("x")
        return g.flags() + [("zero-marks", A([x], ISZ(x), z3.And(g.visited(x), g.cc(x) == ZI(x)))), ("component", self.c >= 0),
                            ("components", A([x], z3.And(g.V(x), z3.Not(ISZ(x)), g.visited(x)), g.cc(x) <= self.c))]

    def near(self, x, y):
        g = self.g
        return z3.And(g.visited(y), z3.Or(ISZ(y), g.cc(y) == g.cc(x)))

    def closed(self, strict):
        """Finished components are closed."""
        g, e = self.g, z3.Int("e")
        x, y = g.frm(e), g.to(e)
        fin = lambda x: z3.And(z3.Not(ISZ(x)), g.visited(x), g.cc(x) < self.c)
        return [("closed", A([e], g.E(e), z3.And(z3.Implies(fin(x), self.near(x, y)), z3.Implies(fin(y), self.near(y, x)))))]

    def active(self, v=None, po=None, pi=None):
        """Vertices of the current component."""
        g, st = self.g, self.l.local("vertex_stack")
        x, k, j = z3.Ints("x k j")
        on = lambda x: z3.Exists([j], z3.And(0 <= j, j < st.len, st[j] == x))
        cur = lambda x: z3.And(g.V(x), z3.Not(ISZ(x)), g.visited(x), g.cc(x) == self.c)
        ex = lambda x, p: z3.BoolVal(False) if v is None else z3.And(x == v, k >= p)
        j2 = z3.Int("j2")
        return [("stack", A([j2], z3.And(0 <= j2, j2 < st.len), cur(st[j2]))),
                ("out", A([x, k], z3.And(cur(x), 0 <= k, k < self.o.n(x)), z3.Or(on(x), ex(x, po), g.visited(g.to(self.o.at(x, k)))))),
                ("in", A([x, k], z3.And(cur(x), 0 <= k, k < self.i.n(x)), z3.Or(on(x), ex(x, pi), g.visited(g.frm(self.i.at(x, k))))))]


def entry(l):
    """The state after the zero vertices have been marked."""
    return l.old


def calculate():
    x, e, k = z3.Ints("x e k")

    def outer(l):
        w, g, sv = Walk(l), CV(l), l.local("start_vertex")
        return w.base() + [("done", A([x], z3.And(0 <= x, x < sv), g.visited(x))), ("stack", l.local("vertex_stack").len == 0), ("start", z3.And(sv >= 0, w.c <= sv)),
                           ("unconnected", z3.Implies(l.this.conf_.calculate_cc == 0 if False else z3.Not(l.this.conf_.calculate_cc), w.c == 0)),
                           ("below", z3.Implies(l.this.conf_.calculate_cc, A([x], z3.And(g.V(x), z3.Not(ISZ(x)), g.visited(x)), g.cc(x) < w.c)))] + [
                               (n, z3.Implies(l.this.conf_.calculate_cc, f)) for n, f in w.closed(True)]

    def visited(l):
        w, g = Walk(l), CV(l)
        return [("zero-bounds", A([x], ISZ(x), z3.And(0 <= g.cc(x), g.cc(x) < g.z.len))),
                ("bounds", A([x], g.V(x), z3.And(0 <= g.cc(x), z3.Or(g.cc(x) < g.z.len, g.cc(x) < w.c))))]

    def walk(l):
        w, g, sv = Walk(l), CV(l), l.local("start_vertex")
        return w.base() + [("done", A([x], z3.And(0 <= x, x <= sv), g.visited(x)))] + w.closed(True) + w.active()

    def follow(side):
        def f(l):
            w, g, sv = Walk(l), CV(l), l.local("start_vertex")
            it = l.local("edge").data
            v = it["key"]
            m = w.o if side == 0 else w.i
            pos = it["pos"]
            return w.base() + [("done", A([x], z3.And(0 <= x, x <= sv), g.visited(x))), ("position", z3.And(0 <= pos, pos <= m.n(v), v == l.local("vertex"))),
                               ("vertex", z3.And(g.V(v), z3.Not(ISZ(v)), g.visited(v), g.cc(v) == w.c))] + w.closed(True) + (
                w.active(v, pos, 0) if side == 0 else w.active(v, w.o.n(v), pos))
        return f

    def create(l):
        g, i, n0 = CV(l), l.i, l.old.this.vertex_info_.len
        o = CV(l.snap("create"))
        return [("old", A([x], z3.And(0 <= x, x < n0), z3.And(g.cc(x) == o.cc(x), g.cc(x) >= 0, z3.Or(g.cc(x) < g.z.len, g.cc(x) < l.local("cc"))))), ("count", z3.And(g.z.len == l.i, g.z.len >= o.z.len, g.n >= n0)),
                ("zeros", A([k], z3.And(0 <= k, k < g.z.len), z3.And(g.V(g.z[k]), g.cc(g.z[k]) == k))),
                ("kept", A([k], z3.And(0 <= k, k < o.z.len), g.z[k] == o.z[k])), ("new", A([k], z3.And(o.z.len <= k, k < g.z.len), g.z[k] >= n0)),
                ("more", A([x], z3.And(n0 <= x, x < g.n), z3.And(0 <= g.cc(x), g.cc(x) < g.z.len)))] + c09.bijection(l.this) + c09.stable(l.this, l.old.this)

    def created(l):
        g, n0 = CV(l), l.old.this.vertex_info_.len
        return [("bounds", A([x], g.V(x), z3.And(0 <= g.cc(x), g.cc(x) < g.z.len))), ("zero", A([x], z3.And(0 <= x, x < n0), ISZ(x) == (g.home(x) == x))), ("vertices", z3.And(0 <= n0, n0 <= g.n))]

    def attach(l, side=None):
        """The edges of the first i zero vertices are attached to the zero vertex of the component of their other ends."""
        g, o, n0 = CV(l), CV(l.snap("attach")), l.old.this.vertex_info_.len
        m = [l.arg(0), l.arg(1)]
        om = [l.snap("attach").arg(0), l.snap("attach").arg(1)]
        chg = [l.local("outgoing_change"), l.local("incoming_change")]
        j = z3.Int("j")
        zero = lambda x: z3.And(g.V(x), g.home(x) == x)
        if side is None:
            i, z, pos = l.i, None, None
            done = [lambda x: g.cc(x) < i] * 2
        else:
            it = l.local("edge").data
            z, pos, i = it["key"], it["pos"], g.cc(it["key"])
            done = [lambda x: g.cc(x) < i] * 2 if side == 0 else [lambda x: g.cc(x) <= i, lambda x: g.cc(x) < i]
        F, T, OF, OT = g.frm(e), g.to(e), o.frm(e), o.to(e)
        ff, tt = z3.And(zero(OF), done[0](OF)), z3.And(zero(OT), done[1](OT))
        now = [z3.And(zero(OF), OF == z) if side == 0 else False, z3.And(zero(OT), OT == z) if side == 1 else False]
        # form of a processed edge
        form = lambda e, side: (z3.If(zero(o.to(e)), z3.And(g.frm(e) == g.to(e), zero(g.frm(e))), g.frm(e) == g.home(o.to(e))) if side == 0 else
                                z3.If(zero(o.frm(e)), z3.And(g.frm(e) == g.to(e), zero(g.frm(e))), g.to(e) == g.home(o.frm(e))))
        out = [("index", z3.And(0 <= i, i <= g.z.len) if side is None else z3.And(0 <= i, i < g.z.len)), ("others", A([e], g.E(e), z3.And(z3.Or(zero(OF), F == OF), z3.Or(zero(OT), T == OT)))),
               ("waiting-out", A([e], z3.And(g.E(e), zero(OF), z3.Not(ff)), z3.Or(F == OF, z3.And(now[0], form(e, 0))))),
               ("waiting-in", A([e], z3.And(g.E(e), zero(OT), z3.Not(tt)), z3.Or(T == OT, z3.And(now[1], form(e, 1))))),
               ("attached-out", A([e], z3.And(g.E(e), ff), form(e, 0))), ("attached-in", A([e], z3.And(g.E(e), tt), form(e, 1)))]
        for k_, nm in ((0, "out"), (1, "in")):
            end = (lambda e: g.frm(e)) if k_ == 0 else (lambda e: g.to(e))
            oe = (lambda e: o.frm(e)) if k_ == 0 else (lambda e: o.to(e))
            c = chg[k_]
            cur = (lambda x: z3.Or(done[k_](x), x == z)) if side == k_ else done[k_]
            out += [("list-" + nm, A([x], z3.BoolVal(True), z3.If(z3.And(zero(x), done[k_](x)), m[k_].n(x) == 0, m[k_].n(x) == om[k_].n(x)))),
                    ("entries-" + nm, A([x, k], z3.BoolVal(True), m[k_].at(x, k) == om[k_].at(x, k))),
                    ("changes-" + nm, A([j], z3.And(0 <= j, j < c.len), z3.And(g.E(c[j].second), c[j].first == end(c[j].second), zero(oe(c[j].second)), cur(oe(c[j].second)), form(c[j].second, k_))))]
        if side is not None:
            out += [("position", z3.And(0 <= pos, pos <= om[side].n(z), zero(z), l.local("zero_vertex") == z)),
                    ("processed", A([k], z3.And(0 <= k, k < pos), form(om[side].at(z, k), side)))]
        return out

    def req(s):
        g = CV(s)
        return zeros(s) + g.ends() + lists(s) + complete(s) + [("some", g.z.len >= 1)] + c09.bijection(s.this)

    def ens(s):
        g, o = CV(s), CV(s.old)
        F, T, OF, OT = g.frm(e), g.to(e), o.frm(e), o.to(e)
        zero = lambda x: g.home(x) == x
        return [("components", A([x], g.V(x), z3.And(0 <= g.cc(x), g.cc(x) < g.z.len))),
                ("zeros", A([k], z3.And(0 <= k, k < g.z.len), z3.And(g.V(g.z[k]), g.cc(g.z[k]) == k))),
                ("stable", z3.And(g.z.len >= o.z.len, A([k], z3.And(0 <= k, k < o.z.len), g.z[k] == o.z[k]))),
                ("kept", A([e], g.E(e), z3.And(z3.If(ISZ(OF), zero(F), F == OF), z3.If(ISZ(OT), zero(T), T == OT)))),
                ("ends", A([e], g.E(e), z3.And(g.V(F), g.V(T)))),
                ("attached", A([e], g.E(e), z3.And(z3.Implies(zero(F), F == g.home(T)), z3.Implies(zero(T), T == g.home(F))))),
                ("connected", A([e], g.E(e), g.cc(F) == g.cc(T)))] + lists(s)[:1] + c09.bijection(s.this) + c09.stable(s.this, s.old.this)
    return Contract(D + "cc_calculate_", requires=req, ensures=ens,
                    modifies=["this.vertex_info_", "this.vert_map_inv_", "this.zero_vertices_", "this.edges_[].from", "this.edges_[].to", "this.stats_", "arg0", "arg1"],
                    loops=[Loop(outer, name="start", assume=lambda l: [CV(l).n < 2 ** 31], exit_cuts=visited), Loop(walk, name="walk"), Loop(follow(0), name="outgoing"), Loop(follow(1), name="incoming"), Loop(create, name="create", exit_cuts=created),
                           Loop(attach, name="attach"), Loop(lambda l: attach(l, 0), name="attach-out"), Loop(lambda l: attach(l, 1), name="attach-in")])


def x_function(ex, argn, n):
    s = z3.FreshConst(I, "null_symbol")
    t = SpecCtx(ex, ex.st, ex.top).this
    ex.fact(z3.Not(t.vert_map_inv_.has(s)))
    ex.assumptions.add("no variable of the program is named __null(i)")
    return s


EXTS = dict(pr.EXTS)
EXTS["call:Function"] = x_function
EXTS["call:Number"] = lambda ex, argn, n: z3.FreshConst(I, "number")
EXTS["ctor:Clingo::Span<Clingo::Symbol>"] = lambda ex, n, args: Ext("span")


def calc_module():
    return Module("components", SRC, [pr.assumed(reset()), c09.map_vertex(True), calculate()], externals=EXTS, prepare=pr.prepare)


PROP = "CC"
def modules(tier):
    return [Module("reset", SRC, [reset()], externals=pr.EXTS, prepare=pr.prepare), calc_module()]
