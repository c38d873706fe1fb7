"""Backtracking: every change since a decision level was entered is undone exactly.

The snapshot of the graph when the current level was entered is given by uninterpreted
functions. undo(s) says that backtracking from s restores the snapshot: it holds when the
level is entered, all operations on the graph preserve it, and backtrack() uses it."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp, cy, pg, dj, pf
from .cy import A
from .dj import BV, IMPL
from .gr import G, SRC
from .pr import I, B


def fn(n, *ts):
    return z3.Function("snap_" + n, *ts)


PL, PLV, PVAL = fn("stack", I, I), fn("level", I, I, I), fn("potential", I, I, I)
OL, OE, IL, IE = fn("out", I, I), fn("out_edge", I, I, I), fn("in", I, I), fn("in_edge", I, I, I)
EN = fn("enabled", I, B)
TR = {n: fn(n, I, I) for n in ("changed_vertices_", "changed_edges_", "disabled_edges_", "visited_lower_", "visited_upper_")}
BT = {n: (fn(n + "v", I, I), fn(n + "p", I, I), fn(n + "b", I, I)) for n in ("lower_trail_", "upper_trail_")}
VIS = {"lower": fn("visited_l", I, B), "upper": fn("visited_u", I, B)}
BND = {"lower": fn("bound_l", I, I), "upper": fn("bound_u", I, I)}
PTH = {"lower": fn("path_l", I, I), "upper": fn("path_u", I, I)}
CO, CI = fn("count_out", I, I, I), fn("count_in", I, I, I)     # edges added at the end of the lists of a vertex


class U:
    """Undo invariants. lo.. are the offsets of the level; n overrides the length of a trail in loops."""

    def __init__(self, s):
        self.s, self.g = s, BV(s.this, "From")
        t = s.this.changed_trail_
        self.t = t[t.len - 1]
        self.v = s.this.vertices_
        self.V, self.e = self.g.V, s.this.edges_

    def E(self, e):
        return z3.And(0 <= e, e < self.e.len)

    def prefix(self, n, off):
        k, l = z3.Int("k"), getattr(self.s.this, n)
        return [("trail", z3.And(0 <= off, off <= l.len)), ("earlier", A([k], z3.And(0 <= k, k < off), l[k] == TR[n](k)))]

    def potentials(self, n=None):
        x, i, j, k = z3.Ints("x i j k")
        off, cv = self.t.vertex_offset, self.s.this.changed_vertices_
        n = cv.len if n is None else n
        p = self.v[x].potential_stack
        pk = self.v[cv[k]].potential_stack
        rng = z3.And(off <= k, k < n)
        return self.prefix("changed_vertices_", off) + [
            ("range", z3.And(off <= n, n <= cv.len)), ("changed", A([k], rng, z3.And(self.V(cv[k]), pk.len == PL(cv[k]) + 1))),
            ("distinct", A([j, k], z3.And(off <= j, j < k, k < n), cv[j] != cv[k])),
            ("sizes", A([x], self.V(x), z3.And(0 <= PL(x), z3.Or(p.len == PL(x), z3.And(p.len == PL(x) + 1, z3.Exists([k], z3.And(rng, cv[k] == x))))))),
            ("below", A([x, i], z3.And(self.V(x), 0 <= i, i < PL(x)), z3.And(p[i].first == PLV(x, i), p[i].second == PVAL(x, i), PLV(x, i) < self.t.level))),
            ("top", A([x], z3.And(self.V(x), p.len == PL(x) + 1), p[PL(x)].first == self.t.level))]

    def edges(self, co=None, ci=None, n=None):
        co, ci = co or CO, ci or CI
        x, k = z3.Ints("x k")
        off, ce = self.t.edge_offset, self.s.this.changed_edges_
        n = ce.len if n is None else n
        o, i = self.v[x].outgoing, self.v[x].incoming
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        return self.prefix("changed_edges_", off) + [
            ("range", z3.And(off <= n, n <= ce.len)), ("changed", A([k], z3.And(off <= k, k < ce.len), self.E(ce[k]))),
            ("count", A([x, k], z3.And(self.V(x), off <= k, k < ce.len), z3.And(
                co(k + 1, x) == co(k, x) + one(self.g.frm(ce[k]) == x), ci(k + 1, x) == ci(k, x) + one(self.g.to(ce[k]) == x)))),
            ("start", A([x], self.V(x), z3.And(co(off, x) == 0, ci(off, x) == 0, OL(x) >= 0, IL(x) >= 0))),
            ("positive", A([x, k], z3.And(self.V(x), off <= k, k <= ce.len), z3.And(co(k, x) >= 0, ci(k, x) >= 0))),
            ("sizes", A([x], self.V(x), z3.And(o.len == OL(x) + co(n, x), i.len == IL(x) + ci(n, x)))),
            ("outgoing", A([x, k], z3.And(self.V(x), 0 <= k, k < OL(x)), o[k] == OE(x, k))),
            ("incoming", A([x, k], z3.And(self.V(x), 0 <= k, k < IL(x)), i[k] == IE(x, k)))]

    def enabled(self, n=None):
        e, j, k = z3.Ints("e j k")
        off, d = self.t.disabled_offset, self.s.this.disabled_edges_
        n = off if n is None else n
        st = self.s.this.edge_states_
        rng = z3.And(n <= k, k < d.len)
        return self.prefix("disabled_edges_", off) + [
            ("range", z3.And(off <= n, n <= d.len)), ("changed", A([k], rng, z3.And(self.E(d[k]), st[d[k]].enabled == 0, EN(d[k])))),
            ("distinct", A([j, k], z3.And(n <= j, j < k, k < d.len), d[j] != d[k])),
            ("flags", A([e], self.E(e), z3.And(z3.Implies(st[e].enabled != 0, EN(e)), z3.Implies(EN(e), z3.Or(st[e].enabled != 0, z3.Exists([k], z3.And(rng, d[k] == e)))))))]

    def listed(self, gap=None):
        """Candidate edges are listed unless they have been removed; enabled edges have not been removed.
        gap: the list (incoming?, vertex) in which the entries p <= k < q do not count."""
        e, k = z3.Ints("e k")
        st = self.s.this.edge_states_
        o, i = self.v[self.g.frm(e)].candidate_outgoing, self.v[self.g.to(e)].candidate_incoming
        has = lambda l, c=z3.BoolVal(True): z3.Exists([k], z3.And(0 <= k, k < l.len, l[k] == e, c))
        if gap is not None:
            inc, x, p, q = gap
            c = z3.Or((self.g.to(e) if inc else self.g.frm(e)) != x, k < p, k >= q)
            ho, hi = (has(o), has(i, c)) if inc else (has(o, c), has(i))
            return [("listed-out", A([e], z3.And(self.E(e), st[e].removed_outgoing == 0), ho)), ("listed-in", A([e], z3.And(self.E(e), st[e].removed_incoming == 0), hi)),
                    ("enabled", A([e], z3.And(self.E(e), st[e].enabled != 0), z3.And(st[e].removed_outgoing == 0, st[e].removed_incoming == 0)))]
        return [("listed-out", A([e], z3.And(self.E(e), st[e].removed_outgoing == 0), has(o))), ("listed-in", A([e], z3.And(self.E(e), st[e].removed_incoming == 0), has(i))),
                ("enabled", A([e], z3.And(self.E(e), st[e].enabled != 0), z3.And(st[e].removed_outgoing == 0, st[e].removed_incoming == 0)))]

    def visited(self, lu, n=None):
        x, j, k = z3.Ints("x j k")
        off, l = getattr(self.t, "visited_%s_offset" % lu), getattr(self.s.this, "visited_%s_" % lu)
        n = off if n is None else n
        vis = lambda x: getattr(self.v[x], "visited_" + lu)
        rng = z3.And(n <= k, k < l.len)
        return self.prefix("visited_%s_" % lu, off) + [
            ("range", z3.And(off <= n, n <= l.len)), ("changed", A([k], z3.And(off <= k, k < l.len), z3.And(self.V(l[k]), z3.Not(VIS[lu](l[k]))))),
            ("flags", A([x], self.V(x), z3.And(z3.Implies(VIS[lu](x), vis(x)), z3.Implies(vis(x), z3.Or(VIS[lu](x), z3.Exists([k], z3.And(rng, l[k] == x)))))))]

    def bounds(self, lu, n=None):
        x, j, k = z3.Ints("x j k")
        nm = lu + "_trail_"
        off, l = getattr(self.t, lu + "_value_offset"), getattr(self.s.this, nm)
        n = l.len if n is None else n
        at = lambda k: (l[k].first, getattr(l[k], "_1"), getattr(l[k], "_2"))
        v, p, b = at(k)
        own = z3.And(z3.Implies(VIS[lu](v), z3.And(p == PTH[lu](v), b == BND[lu](v))))
        return [("trail", z3.And(0 <= off, off <= l.len)), ("range", z3.And(off <= n, n <= l.len)),
                ("earlier", A([k], z3.And(0 <= k, k < off), z3.And(*[a == f(k) for a, f in zip(at(k), BT[nm])]))),
                ("changed", A([k], z3.And(off <= k, k < l.len), z3.And(self.V(v), z3.Or(own, z3.Exists([j], z3.And(off <= j, j < k, at(j)[0] == v)))))),
                ("bounds", A([x], z3.And(self.V(x), VIS[lu](x)), z3.Or(z3.Exists([k], z3.And(off <= k, k < n, v == x)), z3.And(
                    getattr(self.v[x], "bound_" + lu) == BND[lu](x), getattr(self.v[x], "path_" + lu) == PTH[lu](x)))))]

    def all(self, *ps, **kw):
        out = []
        for p in ps or ("potentials", "edges", "enabled", "listed", "visited-lower", "visited-upper", "bounds-lower", "bounds-upper"):
            f, _, a = p.partition("-")
            out += [("%s-%s" % (p, n), x) for n, x in getattr(self, f)(*([a] if a else []), **({"n": kw[p]} if p in kw else {}))]
        return out


PARTS = ("potentials", "edges", "enabled", "listed", "visited-lower", "visited-upper", "bounds-lower", "bounds-upper")


def snapshot(s, o):
    """The state is the snapshot; o provides the offsets."""
    g, x, k, e = s.this, *z3.Ints("x k e")
    u, t = U(s), U(o).t
    p = g.vertices_[x].potential_stack
    out, inc = g.vertices_[x].outgoing, g.vertices_[x].incoming
    r = [("potentials", A([x], u.V(x), p.len == PL(x))), ("potential", A([x, k], z3.And(u.V(x), 0 <= k, k < PL(x)), z3.And(p[k].first == PLV(x, k), p[k].second == PVAL(x, k)))),
         ("lists", A([x], u.V(x), z3.And(out.len == OL(x), inc.len == IL(x)))), ("outgoing", A([x, k], z3.And(u.V(x), 0 <= k, k < OL(x)), out[k] == OE(x, k))),
         ("incoming", A([x, k], z3.And(u.V(x), 0 <= k, k < IL(x)), inc[k] == IE(x, k))), ("enabled", A([e], u.E(e), (g.edge_states_[e].enabled != 0) == EN(e)))] + u.listed()
    for lu in ("lower", "upper"):
        v = g.vertices_[x]
        r += [("visited-" + lu, A([x], u.V(x), getattr(v, "visited_" + lu) == VIS[lu](x))),
              ("bounds-" + lu, A([x], z3.And(u.V(x), VIS[lu](x)), z3.And(getattr(v, "bound_" + lu) == BND[lu](x), getattr(v, "path_" + lu) == PTH[lu](x))))]
    offs = {"changed_vertices_": "vertex", "changed_edges_": "edge", "disabled_edges_": "disabled", "visited_lower_": "visited_lower", "visited_upper_": "visited_upper"}
    for n, f in TR.items():
        l = getattr(g, n)
        r += [("trail-" + n, l.len == getattr(t, offs[n] + "_offset")), ("entries-" + n, A([k], z3.And(0 <= k, k < l.len), l[k] == f(k)))]
    for n, fs in BT.items():
        l = getattr(g, n)
        r += [("trail-" + n, l.len == getattr(t, n[:-7] + "_value_offset")),
              ("entries-" + n, A([k], z3.And(0 <= k, k < l.len), z3.And(*[a == f(k) for a, f in zip((l[k].first, l[k]._1, l[k]._2), fs)])))]
    return r


def sane(s):
    u, x = U(s), z3.Int("x")
    return [("undo-level", s.this.changed_trail_.len > 0), ("undo-ends", u.g.ends())]


def add_candidate():
    def ens(s):
        e, x = s.arg(0), z3.Int("x")
        st, ot = s.this.edge_states_, s.old.this.edge_states_
        return [("enabled", A([x], U(s).E(x), st[x].enabled == z3.If(x == e, 1, ot[x].enabled)))] + U(s).listed()
    return Contract(G + "add_candidate_edge_", requires=lambda s: [("ends", U(s).g.ends()), ("edge", U(s).E(s.arg(0))), ("disabled", s.this.edge_states_[s.arg(0)].enabled == 0)] + U(s).listed(), ensures=ens,
                    modifies=["this.vertices_[]." + f for f in ("candidate_incoming", "candidate_outgoing", "degree_in", "degree_out")] + ["this.edge_states_"])


def backtrack():
    def rest(l):
        return l.end - l.i
    def lo(name, off, p):
        def inv(l):
            u = U(l)
            lst = getattr(l.this, name)
            kw = {p: lst.len - l.i if p in ("potentials", "edges", "bounds-lower", "bounds-upper") else l.i}
            return u.all(p, **kw) + (u.all("listed") if p == "enabled" else [])
        return Loop(inv, name=p, body_cuts=last if p == "edges" else None)

    def last(l):
        """The edge is the last one in the lists of its ends."""
        u, ce = U(l), l.this.changed_edges_
        n = ce.len - l.i
        e = ce[n - 1]
        f, g = u.g.frm(e), u.g.to(e)
        o, i = u.v[f].outgoing, u.v[g].incoming
        return [("range", z3.And(u.t.edge_offset <= n - 1, n <= ce.len)), ("edge", z3.And(u.E(e), u.V(f), u.V(g))), ("out", z3.And(CO(n, f) == CO(n - 1, f) + 1, CO(n - 1, f) >= 0)),
                ("in", z3.And(CI(n, g) == CI(n - 1, g) + 1, CI(n - 1, g) >= 0)), ("sizes", z3.And(OL(f) >= 0, IL(g) >= 0, o.len == OL(f) + CO(n, f), i.len == IL(g) + CI(n, g)))]
    loops = [lo("changed_vertices_", "vertex", "potentials"), lo("changed_edges_", "edge", "edges"), lo("disabled_edges_", "disabled", "enabled"),
             lo("visited_lower_", "visited_lower", "visited-lower"), lo("visited_upper_", "visited_upper", "visited-upper"),
             lo("lower_trail_", "lower_value", "bounds-lower"), lo("upper_trail_", "upper_value", "bounds-upper")]

    def ens(s):
        t, o, k = s.this.changed_trail_, s.old.this.changed_trail_, z3.Int("k")
        same = z3.And(*[getattr(t[k], f) == getattr(o[k], f) for f in ("level", "vertex_offset", "edge_offset", "disabled_offset", "visited_lower_offset", "visited_upper_offset",
                                                                    "lower_value_offset", "upper_value_offset", "can_propagate")])
        return snapshot(s, s.old) + [("level", t.len == o.len - 1), ("levels", A([k], z3.And(0 <= k, k < t.len), same))]
    return Contract(G + "backtrack", requires=lambda s: sane(s) + U(s).all(), ensures=ens, modifies=None, loops=loops)


def fields(t):
    return [getattr(t, f) for f in ("level", "vertex_offset", "edge_offset", "disabled_offset", "visited_lower_offset", "visited_upper_offset", "lower_value_offset",
                                    "upper_value_offset", "can_propagate")]


def ensure_level():
    """The snapshot of a new level is the current state."""
    def ens(s):
        t, o, k = s.this.changed_trail_, s.old.this.changed_trail_, z3.Int("k")
        new = t.len == o.len + 1
        x = z3.Int("x")
        v, old = U(s).t, s.old.this
        fresh = [("level", v.level == s.arg(0))] + [(n, getattr(v, f + "_offset") == getattr(old, m).len) for n, f, m in (
            ("vertices", "vertex", "changed_vertices_"), ("edges", "edge", "changed_edges_"), ("disabled", "disabled", "disabled_edges_"),
            ("lower", "visited_lower", "visited_lower_"), ("upper", "visited_upper", "visited_upper_"), ("lower-bounds", "lower_value", "lower_trail_"), ("upper-bounds", "upper_value", "upper_trail_"))]
        low = z3.Or(o.len == 0, o[o.len - 1].level < s.arg(0))
        return [("new", z3.And(z3.Implies(low, new), z3.Implies(z3.Not(low), t.len == o.len)))] + [(n, z3.Implies(new, f)) for n, f in fresh] + [
            ("levels", A([k], z3.And(0 <= k, k < o.len), z3.And(*[a == b for a, b in zip(fields(t[k]), fields(o[k]))])))] + [
            ("undo-" + n, z3.Implies(new, f)) for n, f in U(s).all()]

    def req(s):
        u, g, x, k, e = U(s), s.this, *z3.Ints("x k e")
        p, v = g.vertices_[x].potential_stack, g.vertices_[x]
        t = s.this.changed_trail_
        # the snapshot is the current state, levels of potentials are levels of the trail
        r = [("potentials", A([x], u.V(x), z3.And(0 <= p.len, p.len == PL(x)))), ("potential", A([x, k], z3.And(u.V(x), 0 <= k, k < PL(x)), z3.And(
                p[k].first == PLV(x, k), p[k].second == PVAL(x, k), t.len > 0, PLV(x, k) <= t[t.len - 1].level))),
             ("lists", A([x], u.V(x), z3.And(OL(x) >= 0, IL(x) >= 0, v.outgoing.len == OL(x), v.incoming.len == IL(x)))), ("outgoing", A([x, k], z3.And(u.V(x), 0 <= k, k < OL(x)), v.outgoing[k] == OE(x, k))),
             ("incoming", A([x, k], z3.And(u.V(x), 0 <= k, k < IL(x)), v.incoming[k] == IE(x, k))), ("enabled", A([e], u.E(e), (g.edge_states_[e].enabled != 0) == EN(e)))]
        r += u.listed() + [("counts", A([x, k], u.V(x), z3.And(CO(k, x) == 0, CI(k, x) == 0)))]
        for lu in ("lower", "upper"):
            r += [("visited-" + lu, A([x], u.V(x), getattr(v, "visited_" + lu) == VIS[lu](x))),
                  ("bounds-" + lu, A([x], z3.And(u.V(x), VIS[lu](x)), z3.And(getattr(v, "bound_" + lu) == BND[lu](x), getattr(v, "path_" + lu) == PTH[lu](x))))]
        for n, f in TR.items():
            r += [("entries-" + n, A([k], z3.And(0 <= k, k < getattr(g, n).len), getattr(g, n)[k] == f(k)))]
        for n, fs in BT.items():
            l = getattr(g, n)
            r += [("entries-" + n, A([k], z3.And(0 <= k, k < l.len), z3.And(*[a == f(k) for a, f in zip((l[k].first, l[k]._1, l[k]._2), fs)])))]
        sizes = z3.And(*[getattr(g, n).len < 2 ** 32 for n in list(TR) + list(BT)])
        return r + [("sizes", sizes)]
    return Contract(G + "ensure_decision_level", requires=req, ensures=ens, modifies=["this.changed_trail_"])


def set_potential():
    """The change is recorded when a vertex changes for the first time on the level."""
    return Contract(G + "set_potential_", setup=gr.element_setup("vertices_"),
                    requires=lambda s: sane(s) + [("undo-level", s.arg(1) == U(s).t.level)] + [("undo-" + n, f) for n, f in U(s).all("potentials")],
                    ensures=lambda s: U(s).all("potentials"), modifies=["arg0.potential_stack", "this.changed_vertices_"])


def disable_edge():
    def flags(s):
        e, st = z3.Int("e"), s.this.edge_states_
        return [("undo-enabled", A([e], z3.And(U(s).E(e), e != s.arg(0), st[e].enabled != 0), z3.And(st[e].removed_outgoing == 0, st[e].removed_incoming == 0)))]
    return Contract(G + "disable_edge", requires=lambda s: sane(s) + [("edge", U(s).E(s.arg(0))), ("enabled", s.this.edge_states_[s.arg(0)].enabled != 0)] + undo(s, "enabled") + [
                        ("undo-" + n, f) for n, f in U(s).listed()[:2]] + flags(s),
                    ensures=lambda s: [("disabled", s.this.edge_states_[s.arg(0)].enabled == 0)] + U(s).all("enabled", "listed"),
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled"])


ELSEWHERE = lambda n: n.startswith(("assert", "call ", "clause-")) and "undo" not in n     # discharged for C03
BOUNDS = ("visited-lower", "visited-upper", "bounds-lower", "bounds-upper")


def undo(s, *parts):
    return [("undo-" + n, f) for n, f in U(s).all(*parts)]


def bounds(d):
    """Changed bounds are recorded."""
    lu = "lower" if d == "From" else "upper"

    def req(s):
        g, e, z, t = BV(s.this, d), s.arg(0), s.arg(1), z3.Int("t")
        return sane(s) + undo(s, *BOUNDS) + [("edge", U(s).E(e)), ("listed", g.listed()), ("clean", dj.clean(g)), ("set", g.vlist().len == 0), ("queue", s.this.costs_heap_.heap_.len == 0),
                                             ("zero", g.zeros()[1][1]), ("root", z3.And(dj.ROOT(g.src(e)) == z, dj.ROOT(z) == z))]

    def recorded(l):
        """The bounds of visited vertices that had bounds are recorded."""
        g, u, t, k = BV(l.this, d), U(l), *z3.Ints("t k")
        tr, off = g.btrail(), getattr(u.t, lu + "_value_offset")
        return [("recorded", A([t], z3.And(g.V(t), g.visited(t), VIS[lu](t)), z3.Exists([k], z3.And(off <= k, k < tr.len, tr[k].first == t))))]

    def parts(l):
        g, k, vl = BV(l.this, d), z3.Int("k"), BV(l.this, d).vlist()
        return U(l).all(*BOUNDS) + recorded(l) + [("list", A([k], z3.And(0 <= k, k < vl.len), g.V(vl[k])))] + queue(l)

    def queue(l):
        h = hp.H(l.this.costs_heap_, l.this, d)
        t, g = z3.Int("t"), BV(l.this, d)
        return [("queue-positions", h.positions()), ("queue-order", h.order()), ("queued", A([t], z3.And(0 <= t, t < h.n), g.V(h[t])))]

    def reset(l):
        g, k, vl = BV(l.this, d), z3.Int("k"), BV(l.this, d).vlist()
        return U(l).all(*BOUNDS) + [("list", A([k], z3.And(0 <= k, k < vl.len), g.V(vl[k])))]
    f = "from" if d == "From" else "to"
    mods = ["this.vertices_[].%s_%s" % (n, f) for n in ("cost", "visited")] + ["this.vertices_[].%s_%s" % (n, m) for n in ("bound", "path", "visited") for m in ("lower", "upper")] + [
        "this.vertices_[].offset", "this.costs_heap_", "this.visited_%s_" % f, "this.visited_lower_", "this.visited_upper_", "this.%s_trail_" % lu, "this.stats_"]
    return Contract(IMPL[d] + "dijkstra_bounds", requires=req, ensures=lambda s: U(s).all(*BOUNDS), modifies=mods, elsewhere=ELSEWHERE,
                    loops=[Loop(parts, name="search"), Loop(parts, name="relax"), Loop(reset, name="reset")])


CANDS = ("enabled", "listed")


def over(l):
    """Traversal of the incoming candidate edges of a vertex."""
    p, q, e = l.local("jt").idx, l.i, l.local("ie").idx
    u, x = U(l), l.arg(1)
    return [("range", z3.And(0 <= p, p <= q, q <= e, e == u.g.cin(x).len)), ("candidates", u.g.candidates())] + undo(l, "enabled") + [("gap-" + n, f) for n, f in u.listed((True, x, p, q))]


def cheap():
    def req(s):
        return sane(s) + [("vertex", U(s).V(s.arg(2))), ("candidates", U(s).g.candidates())] + undo(s, *CANDS)
    return Contract(G + "cheap_propagate_", requires=req, ensures=lambda s: U(s).all(*CANDS) + [("candidates", U(s).g.candidates())], modifies=pg.CAND, elsewhere=ELSEWHERE,
                    loops=[Loop(over, name="incoming"), Loop(lambda l: [], name="walk")])


def simple():
    def req(s):
        return sane(s) + [("edge", U(s).E(s.arg(1))), ("list", pg.visited_list(s)), ("candidates", U(s).g.candidates())] + undo(s, *CANDS)

    def plus(l):
        return [("list", pg.visited_list(l)), ("candidates", U(l).g.candidates())] + undo(l, *CANDS)
    return Contract(G + "propagate_simple_", requires=req, ensures=lambda s: U(s).all(*CANDS) + [("candidates", U(s).g.candidates())], modifies=pg.CAND, elsewhere=ELSEWHERE,
                    loops=[Loop(over, name="incoming"), Loop(plus, name="plus")])


def edge_true(full):
    def req(s):
        e = s.arg(0)
        return sane(s) + [("edge", U(s).E(e)), ("enabled", s.this.edge_states_[e].enabled != 0)] + undo(s, *CANDS)
    return Contract(G + "propagate_edge_true_", targs=pf.T[full], requires=req, elsewhere=ELSEWHERE,
                    ensures=lambda s: [("disabled", z3.Implies(s.result, s.this.edge_states_[s.arg(0)].enabled == 0))] + U(s).all(*CANDS),
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled", "this.stats_"])


def edge_false(full):
    def req(s):
        e = s.arg(1)
        return sane(s) + [("edge", U(s).E(e)), ("enabled", s.this.edge_states_[e].enabled != 0)] + undo(s, *CANDS)
    return Contract(G + "propagate_edge_false_", targs=pf.T[full], requires=req, elsewhere=ELSEWHERE,
                    ensures=lambda s: [("disabled", z3.Implies(s.result, s.this.edge_states_[s.arg(1)].enabled == 0))] + U(s).all(*CANDS),
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled", "this.stats_", "this.clause_",
                              "arg3", "ghost:clauses"],
                    loops=[Loop(lambda l: [], name="forward"), Loop(lambda l: [], name="backward")])


def edges(d, full):
    def req(s):
        g, k = BV(s.this, d), z3.Int("k")
        vl = g.vlist()
        return sane(s) + [("visited", A([k], z3.And(0 <= k, k < vl.len), g.V(vl[k]))), ("candidates", g.candidates())] + undo(s, *CANDS)

    def vertices(l):
        return undo(l, *CANDS) + [("candidates", BV(l.this, d).candidates())]

    def scan(back):
        inc = (d == "From") != back

        def inv(l):
            g, v, p, q = BV(l.outer.this, d), l.local("vertex"), l.local("$jt"), l.local("$it")
            lst = (g.cin if inc else g.cout)(v)
            return [("candidates", g.candidates()), ("range", z3.And(0 <= p, p <= q, q <= lst.len, lst.len == l.end))] + undo(l.outer, "enabled") + [
                ("gap-" + n, f) for n, f in U(l.outer).listed((inc, v, p, q))]
        return inv
    def step(back):
        inc = (d == "From") != back

        def cuts(l):
            a, b = U(l.outer), U(l.head.outer)
            v, x, k, e = l.local("vertex"), *z3.Ints("x k e")
            p, q, p1, q1 = l.head.local("$jt"), l.head.local("$it"), l.local("$jt"), l.local("$it")
            ins, outs = (lambda u, x: u.g.cin(x)), (lambda u, x: u.g.cout(x))
            f, g = (ins, outs) if inc else (outs, ins)
            sa, sb = l.outer.this.edge_states_, l.head.outer.this.edge_states_
            le, la = f(b, v), f(a, v)
            cur = le[q]
            own = (lambda s, e: s[e].removed_incoming) if inc else (lambda s, e: s[e].removed_outgoing)
            oth = (lambda s, e: s[e].removed_outgoing) if inc else (lambda s, e: s[e].removed_incoming)
            listed = a.listed((inc, v, p1, q1))
            names = ["head", "ends", "range", "same", "moved", "flags", "kept"]
            return [("head", z3.And(*[z for _, z in b.listed((inc, v, p, q))[:2]])), ("ends", a.g.ends()), ("range", z3.And(0 <= p, p <= q, q < le.len, q1 == q + 1, la.len == le.len, a.V(v))),
                    ("same", A([x, k], a.V(x), z3.And(g(a, x).len == g(b, x).len, f(a, x).len == f(b, x).len, g(a, x)[k] == g(b, x)[k], z3.Implies(x != v, f(a, x)[k] == f(b, x)[k])))),
                    ("moved", A([k], z3.Or(k < p, k > q), la[k] == le[k])),
                    ("flags", A([e], a.E(e), z3.And(oth(sa, e) == oth(sb, e), z3.Implies(e != cur, own(sa, e) == own(sb, e))))),
                    ("kept", z3.Or(z3.And(p1 == p + 1, la[p] == cur, own(sa, cur) == own(sb, cur)), z3.And(p1 == p, own(sa, cur) != 0))),
                    ("listed", listed[0][1], names), ("listed", listed[1][1], names)]
        return cuts
    return Contract(IMPL[d] + "propagate_edges", targs=pf.T[full], requires=req, ensures=lambda s: U(s).all(*CANDS) + [("candidates", U(s).g.candidates())],
                    modifies=pg.CAND + ["this.vertices_[].candidate_outgoing"], elsewhere=ELSEWHERE,
                    loops=[Loop(vertices, name="vertices"), Loop(scan(False), name="true", step_cuts=step(False)), Loop(scan(True), name="false", step_cuts=step(True))])


def counts(s, e):
    """The counts after the edge has been added."""
    n, g = s.old.this.changed_edges_.len, BV(s.this, "From")
    nx = lambda f, v: lambda k, x: z3.If(k <= n, f(k, x), f(n, x) + z3.If(v == x, 1, 0))
    return nx(CO, g.frm(e)), nx(CI, g.to(e))


def added(s, e):
    co, ci = counts(s, e)
    return [("edges-" + n, f) for n, f in U(s).edges(co, ci)]


def check_cycle():
    def search(l):
        g, h = U(l).g, hp.H(l.this.costs_heap_, l.this, "From")
        t = z3.Int("t")
        return undo(l, "potentials") + [("queue-positions", h.positions()), ("queue-order", h.order()), ("queued", A([t], z3.And(0 <= t, t < h.n), g.V(h[t])))]
    return Contract(G + "check_cycle_", requires=lambda s: sane(s) + [("edge", U(s).E(s.arg(1))), ("lists", cy.GV(s.this).lists()), ("queue", s.this.costs_heap_.heap_.len == 0)] + undo(s, "potentials", "edges"),
                    ensures=lambda s: U(s).all("potentials") + added(s, s.arg(1)), modifies=cy.CYCLE_FRAME, elsewhere=ELSEWHERE,
                    loops=[Loop(search, name="search"), Loop(search, name="relax"), Loop(lambda l: [], name="walk")])


def both(a, b):
    """Two contracts of the same function."""
    cat = lambda f, g: lambda s: (f(s) if f else []) + (g(s) if g else [])
    c = Contract(a.name, targs=a.targs, requires=cat(a.requires, b.requires), ensures=cat(a.ensures, b.ensures), modifies=a.modifies, setup=a.setup)
    c.skip = True
    return c


def zero():
    return Contract(G + "propagate_zero_", requires=lambda s: sane(s) + undo(s, *(BOUNDS + CANDS)), ensures=lambda s: U(s).all(*(BOUNDS + CANDS)), modifies=pf.ZERO, elsewhere=ELSEWHERE)


def full():
    return Contract(G + "propagate_full_", requires=lambda s: sane(s) + undo(s, *CANDS), ensures=lambda s: U(s).all(*CANDS), modifies=pf.FULL, elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: [], name="reset-From"), Loop(lambda l: [], name="reset-To")])


def add_edge():
    def ens(s):
        u = U(s)
        return u.all(*[p for p in PARTS if p != "edges"]) + added(s, s.arg(1))
    return Contract(G + "add_edge", requires=lambda s: sane(s) + undo(s, *PARTS), ensures=ens, modifies=sorted(set(pf.ZERO + pf.FULL + cy.CYCLE_FRAME)), elsewhere=ELSEWHERE,
                    loops=[Loop(lambda l: [], name="reset")])


PROP = "UN"
def modules(tier):
    out = [Module("backtrack", SRC, [add_candidate(), backtrack(), gr.current_level(), *gr.queries(("can_propagate",)), ensure_level(), set_potential(), disable_edge()])]
    for d in ("From", "To"):
        base = hp.contracts(d, ("push", "pop", "decrease", "empty", "clear"))
        for c in base:
            c.skip = True
        out.append(Module("bounds-" + d, SRC, base + [bounds(d)], externals=cy.EXTS, prepare=cy.prep))
    out.append(Module("simple", SRC, [skip(disable_edge()), cheap(), simple()], externals=cy.EXTS, prepare=cy.prep))
    for f in (True, False):
        out.append(Module("edges-%s" % ("full" if f else "zero"), SRC, [skip(disable_edge()), edge_true(f), edge_false(f), edges("From", f), edges("To", f)], externals=cy.EXTS, prepare=cy.prep))
    heap = lambda *fs: [skip(c) for c in hp.contracts("From", fs)]
    out.append(Module("cycle", SRC, [skip(set_potential()), skip(gr.current_level())] + heap("push", "pop", "decrease", "empty") + [check_cycle()], externals=cy.EXTS, prepare=cy.prep))
    queries = [skip(c) for c in gr.queries(("edge_is_enabled", "can_propagate", "mode"))]
    below = [skip(disable_edge())] + [both(pf.edges(d, f), edges(d, f)) for d in ("From", "To") for f in (True, False)] + [
        skip(dj.full("From")), skip(dj.full("To")), both(dj.bounds("From"), bounds("From")), both(dj.bounds("To"), bounds("To"))]
    out.append(Module("propagation", SRC, queries + below + [zero(), full()], externals=pf.EXTS, prepare=pf.prep))
    top = [both(cy.check_cycle("result"), check_cycle()), both(pg.simple(), simple()), both(pf.zero(), zero()), both(pf.full(), full())]
    out.append(Module("add", SRC, queries + top + heap("clear", "empty") + [add_edge()], externals=pf.EXTS, prepare=pf.prep))
    return out


def skip(c):
    c.skip = True
    return c
