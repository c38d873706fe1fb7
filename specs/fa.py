"""Facts and the propagation of changes (propagate, check, do_propagate, initialize_states_, init).

In addition to the maps of pr.py, added_ tells which edges are part of the graph of a thread."""
import z3
from cxxwp.exec import Ext, LV, Ptr, Blob, fresh_name, sel, arr
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr, it, cc, c09
from .pr import D, I, B, fr, SRC
from .cy import A
from .it import nt
from .it import MODE, ROOTL, BUDGET

LITS = ("vec", ("int", 32, True))
G = "Graph<int>::"


def prep(ex):
    it.prep(ex)
    u = ex.unit
    g = u.find_record("Graph<int>")
    u._fields[g]["added_"] = (("array", ("bool",), None), None)
    ex.ghost_init("conflict", B)


class T:
    """State of the current thread."""

    def __init__(self, s, t=None):
        self.s, self.t = s, s.this
        self.tid = s.g("tid") if t is None else t
        self.state = self.t.states_[self.tid]
        self.graph = self.state.graph

    def on(self, e):
        return self.graph.enabled_[e]

    def added(self, e):
        return self.graph.added_[e]


def less(new, old, k="e"):
    """Edges are disabled and added, but not the other way round."""
    e = z3.Int("e")
    return ("monotone", A([e], z3.BoolVal(True), z3.And(z3.Implies(new.enabled_[e], old.enabled_[e]), z3.Implies(old.added_[e], new.added_[e]))))


def graph_contracts():
    e = z3.Int("e")
    VALS = ["this.has_", "this.pot_"]

    def add(s):
        x = s.arg(1)
        return [less(s.this, s.old.this), ("added", z3.Implies(s.result, s.this.added_[x])),
                ("conflict", s.g("conflict") == z3.Or(s.old.g("conflict"), z3.Not(s.result)))]

    def disable(s):
        return [("disabled", A([e], z3.BoolVal(True), s.this.enabled_[e] == z3.And(s.old.this.enabled_[e], e != s.arg(0))))]
    cs = [Contract(G + "edge_is_enabled", modifies=[], ensures=lambda s: [("flag", s.result == s.this.enabled_[s.arg(0)])]),
          Contract(G + "can_propagate", modifies=[], ensures=lambda s: []),
          Contract(G + "mode", modifies=[], ensures=lambda s: []),
          Contract(G + "disable_propagate", modifies=[], ensures=lambda s: []),
          Contract(G + "ensure_decision_level", modifies=[], ensures=lambda s: []),
          Contract(G + "has_value", modifies=[], ensures=lambda s: [("value", s.result == s.this.has_[s.arg(0)])]),
          Contract(G + "get_value", modifies=[], requires=lambda s: [("has", s.this.has_[s.arg(0)])], ensures=lambda s: [("value", s.result == -s.this.pot_[s.arg(0)])]),
          Contract(G + "disable_edge", modifies=["this.enabled_"], requires=lambda s: [("enabled", s.this.enabled_[s.arg(0)])], ensures=disable),
          Contract(G + "add_edge", modifies=VALS + ["this.enabled_", "this.added_", "ghost:conflict"], ensures=add,
                   requires=lambda s: [("enabled", s.this.enabled_[s.arg(1)])])]
    return [pr.assumed(c) for c in cs]


def m_control(ex, obj, name, argn, n):
    if name == "remove_watch":
        l = ex.rv(argn[0])
        from cxxwp.exec import SpecCtx
        t = SpecCtx(ex, ex.st, ex.top).this
        # no watch of a literal with edges is removed
        ex.oblige("watch-of-edges-kept", t.lit_to_edges_.n(l) == 0, "post")
        return None
    if name == "add_watch":
        ex.rv(argn[0])
        return None
    return pr.m_control(ex, obj, name, argn, n)


def span_param(ex, name, p):
    lv = LV(name, (), LITS)
    ex.fact(ex.read_leaf(ex.st, lv, ("len",), I) >= 0)
    return lv


def span_ctor(ex, n, args):
    vs = [ex.rv(a) if ex.ety(a)[0] == "ptr" else ex.ev(a) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if len(vs) == 1:
        return vs[0]
    if len(vs) == 2 and all(isinstance(v, Ptr) for v in vs):
        return Ext("span", lo=vs[0], hi=vs[1])
    raise ToolLimit("span")


def f_sort(ex, argn, n):
    """Sorting permutes the range."""
    a, b = ex.rv(argn[0]), ex.rv(argn[1])
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.lv.key() != b.lv.key():
        raise ToolLimit("sort")
    lv, i, j = a.lv, a.idx, b.idx
    idxs = lv.idxs()
    old = sel(ex.get_mem(ex.st, lv.root, lv.key() + ("[]",), arr(z3.ArraySort(I, I), len(idxs))), idxs)
    new, pi, inv, k = z3.Const(fresh_name("sorted"), old.sort()), z3.Function(fresh_name("pi"), I, I), z3.Function(fresh_name("inv"), I, I), z3.Int("sk")
    R = lambda k: z3.And(i <= k, k < j)
    o = z3.Const(fresh_name("unsorted"), old.sort())
    ex.fact(o == old)
    ex.fact(z3.ForAll([k], z3.If(R(k), z3.And(R(pi(k)), new[k] == o[pi(k)]), new[k] == o[k]), patterns=[new[k]]))
    ex.fact(z3.ForAll([k], z3.If(R(k), z3.And(R(inv(k)), new[inv(k)] == o[k]), new[k] == o[k]), patterns=[o[k]]))
    ex.write_leaf(ex.st, lv, ("[]",), new)
    ex.assumptions.add("std::sort permutes its range")
    return None


EXTS = dict(it.EXTS)
for t in ("Clingo::Span<int>", "Clingo::Span<const int>"):
    EXTS["ctor:" + t] = span_ctor
    EXTS["param:" + t] = span_param
EXTS.update({"method:Clingo::PropagateControl": m_control, "call:sort": f_sort, "call:stable_sort": f_sort})


def sort_edges(assumed=False):
    def ens(s):
        a, b = s.arg(1).todo_edges, s.old.arg(1).todo_edges
        j, k = z3.Ints("j k")
        return [("length", a.len == b.len), ("all", A([j], z3.And(0 <= j, j < b.len), z3.Exists([k], z3.And(0 <= k, k < a.len, a[k] == b[j])))),
                ("only", A([k], z3.And(0 <= k, k < a.len), z3.Exists([j], z3.And(0 <= j, j < b.len, a[k] == b[j]))))]
    return Contract(D + "sort_edges", modifies=["arg1.todo_edges[]"], ensures=ens, assumed=assumed)


def index(s):
    t = s.this
    l, k = z3.Ints("l k")
    x = t.lit_to_edges_.at(l, k)
    return [("listed", A([l, k], z3.And(0 <= k, k < t.lit_to_edges_.n(l)), z3.And(0 <= x, x < t.edges_.len)))]


def handled(s, lit, before=None):
    """The edges of the literal are part of the graph unless they have been disabled."""
    k = z3.Int("pos")
    t, m = T(s), s.this.lit_to_edges_
    e = m.at(lit, k)
    return A([k], z3.And(0 <= k, k < m.n(lit)), z3.Or(t.added(e), z3.Not(t.on(e))))


def disable_by_lit(assumed=False):
    def ens(s):
        k, m, g, o = z3.Int("k"), s.this.lit_to_edges_, s.arg(0).graph, s.old.arg(0).graph
        l, e = -s.arg(1), z3.Int("e")
        return [less(g, o), ("inverse", z3.Implies(s.this.disable_edges_, A([k], z3.And(0 <= k, k < m.n(l)), z3.Not(g.enabled_[m.at(l, k)])))),
                ("others", A([e], z3.And(o.enabled_[e], 0 <= e, s.this.edges_[e].lit != l), g.enabled_[e])), ("kept", z3.BoolVal(True))]

    def inv(l):
        k, e = z3.Ints("k e")
        i = l.local("it").data
        m, lit = l.this.lit_to_edges_, -l.arg(1)
        g, o = l.arg(0).graph, l.old.arg(0).graph
        return [("position", z3.And(0 <= i["pos"], i["pos"] <= m.n(lit), i["key"] == lit)), ("done", A([k], z3.And(0 <= k, k < i["pos"]), z3.Not(g.enabled_[m.at(lit, k)]))),
                less(g, o), ("others", A([e], z3.And(o.enabled_[e], 0 <= e, l.this.edges_[e].lit != lit), g.enabled_[e]))]
    return Contract(D + "disable_edge_by_lit", modifies=["arg0.graph.enabled_"], requires=it.indexed, ensures=ens, loops=[Loop(inv, name="edges")], assumed=assumed)


def others(s):
    """The states of other threads are not changed."""
    t, e = z3.Ints("t e")
    a, b = s.this.states_, s.old.this.states_
    return ("others", A([t, e], t != s.g("tid"), z3.And(a[t].graph.enabled_[e] == b[t].graph.enabled_[e], a[t].graph.added_[e] == b[t].graph.added_[e],
                                                        a[t].graph.has_[e] == b[t].graph.has_[e], a[t].graph.pot_[e] == b[t].graph.pot_[e])))


def mono(s):
    return less(T(s).graph, T(s.old).graph)


def changes(s):
    """The literals that a call of do_propagate is about: length and literals."""
    c = s.argobj(1)
    if isinstance(c, Ext):
        lo, hi = c.data["lo"], c.data["hi"]
        at = sel(s.ex.get_mem(s.st, lo.lv.root, lo.lv.key() + ("[]",), arr(z3.ArraySort(I, I), len(lo.lv.idxs()))), lo.lv.idxs())
        return hi.idx - lo.idx, lambda k: at[lo.idx + k]
    c = s.arg(1)
    return c.len, lambda k: c[k]


def do_propagate(assumed=False):
    j, k, p = z3.Ints("j k p")

    def ens(s):
        n, at = changes(s.old)
        return [mono(s), others(s), ("handled", z3.Or(s.g("conflict"), A([k], z3.And(0 <= k, k < n), handled(s, at(k))))),
                ("conflict", z3.Implies(s.old.g("conflict"), s.g("conflict")))]

    def frame(l):
        return [mono(l), others(l)]

    def in_todo(l, e):
        td = T(l).state.todo_edges
        return z3.Exists([j], z3.And(0 <= j, j < td.len, td[j] == e))

    def valid(l):
        td = T(l).state.todo_edges
        return ("todo", A([j], z3.And(0 <= j, j < td.len), z3.And(0 <= td[j], td[j] < l.this.edges_.len)))

    def queued(l, lit, upto=None):
        m = l.this.lit_to_edges_
        e = m.at(lit, p)
        return A([p], z3.And(0 <= p, p < (m.n(lit) if upto is None else upto)), z3.Or(in_todo(l, e), z3.Not(T(l).on(e))))

    def lits(l):
        n, at = changes(l)
        return frame(l) + [valid(l), ("queued", A([k], z3.And(0 <= k, k < l.i), queued(l, at(k))))]

    def prefix(l, o):
        a, b = T(l).state.todo_edges, T(o).state.todo_edges
        return z3.And(a.len >= b.len, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.len), a[j] == b[j]), patterns=[b[j]] if b[j].decl().kind() == z3.Z3_OP_SELECT and False else []))

    def edges(l):
        i, lit = l.local("it").data, l.local("lit")
        m = l.this.lit_to_edges_
        return [valid(l), ("prefix", prefix(l, l.snap("edges"))), ("position", z3.And(0 <= i["pos"], i["pos"] <= m.n(lit), i["key"] == lit)), ("some", queued(l, lit, i["pos"]))]

    def edges_step(l):
        t, h = T(l).state.todo_edges, T(l.head).state.todo_edges
        x = l.this.lit_to_edges_.at(l.local("lit"), l.head.local("it").data["pos"])
        return [("prefix", prefix(l, l.head)), ("new", z3.Or(in_todo(l, x), z3.Not(T(l).on(x))))]

    def lits_step(l):
        n, at = changes(l)
        h = l.head
        return [("prefix", prefix(l, h)), ("off", less(T(l).graph, T(h).graph)[1]), ("new", queued(l, at(l.i - 1)))]

    def watches(l):
        a, b, c = l.local("it").idx, l.local("jt").idx, T(l.snap("watches")).state.removed_watchs.len
        return frame(l) + [("range", z3.And(0 <= a, a <= b, b <= c, T(l).state.removed_watchs.len == c))]

    def todo(l):
        t, n = T(l), T(l.snap("todo"))
        td = n.state.todo_edges
        return frame(l) + [("processed", A([j], z3.And(0 <= j, j < l.i), z3.Or(t.added(td[j]), z3.Not(t.on(td[j]))))), ("conflict", l.g("conflict") == l.old.g("conflict")),
                           ("since", less(t.graph, n.graph)[1])]

    def sorted_(l):
        n, at = changes(l)
        return [("queued", A([k], z3.And(0 <= k, k < n), queued(l, at(k)))), valid(l)]
    def finished(l):
        t, n = T(l), T(l.snap("todo"))
        td, ln, at = n.state.todo_edges, changes(l)[0], changes(l)[1]
        return [("queued", A([k], z3.And(0 <= k, k < ln), queued(l.snap("todo"), at(k)))), ("since", less(t.graph, n.graph)[1]),
                ("processed", A([j], z3.And(0 <= j, j < td.len), z3.Or(t.added(td[j]), z3.Not(t.on(td[j]))))),
                ("handled", A([k], z3.And(0 <= k, k < ln), handled(l, at(k))), ["queued", "since", "processed"])]
    return Contract(D + "do_propagate", modifies=["this.states_", "ghost:conflict"], ensures=ens, assumed=assumed, requires=lambda s: it.indexed(s) + [("length", changes(s)[0] >= 0)],
                    loops=[Loop(watches, name="watches"), Loop(lits, name="changes", step_cuts=lits_step), Loop(edges, name="edges", step_cuts=edges_step),
                           Loop(todo, name="todo", entry_cuts=sorted_, exit_cuts=finished)])


def prop_module():
    return Module("propagation-of-changes", SRC, graph_contracts() + it.config() + [pr.assumed(Contract("PropagatorConfig::get_sort_mode", modifies=[], ensures=lambda s: [])),
                  sort_edges(True), disable_by_lit(True), do_propagate()], externals=EXTS, prepare=prep)


# -- facts -------------------------------------------------------------------
def lits(s, t):
    return s.this.facts_[t].lits


def same_facts(s, t):
    k = z3.Int("fk")
    a, b = lits(s, t), lits(s.old, t)
    return z3.And(a.len == b.len, A([k], z3.And(0 <= k, k < b.len), a[k] == b[k]))


def other_facts(s):
    t = z3.Int("ft")
    return [("other-facts", A([t], t != s.g("tid"), z3.And(same_facts(s, t), s.this.facts_[t].limit == s.old.this.facts_[t].limit))), ("facts", s.this.facts_.len == s.old.this.facts_.len)]


def valid_limit(s, t):
    f = s.this.facts_[t]
    return z3.And(0 <= f.limit, f.limit <= f.lits.len)


def propagate():
    """Changes on the top level are recorded."""
    def ens(s):
        t, k, n, c = s.g("tid"), z3.Int("k"), s.arg(1).len, s.old.arg(1)
        a, b = lits(s, t), lits(s.old, t)
        grown = z3.And(a.len == b.len + n, A([k], z3.And(0 <= k, k < b.len), a[k] == b[k]), A([k], z3.And(0 <= k, k < n), a[b.len + k] == c[k]))
        return [("recorded", z3.If(s.g("dl") == 0, grown, same_facts(s, t))), ("limit", s.this.facts_[t].limit == s.old.this.facts_[t].limit), ("valid", valid_limit(s, t))] + other_facts(s) + [
            ("handled", z3.Or(s.g("conflict"), A([k], z3.And(0 <= k, k < n), handled(s, c[k])))), others(s)]
    return Contract(D + "propagate", modifies=["this.facts_", "this.states_", "ghost:conflict"], ensures=ens,
                    requires=lambda s: it.indexed(s) + [("thread", z3.And(0 <= s.g("tid"), s.g("tid") < s.this.facts_.len)), ("limit", valid_limit(s, s.g("tid")))])


def check():
    """Facts of earlier steps are propagated on the top level."""
    def ens(s):
        t, k, c = s.g("tid"), z3.Int("k"), lits(s.old, s.g("tid"))
        lim, old = s.this.facts_[t].limit, s.old.this.facts_[t].limit
        top = s.g("dl") == 0
        return [("limit", lim == z3.If(top, 0, old)), ("kept", same_facts(s, t))] + other_facts(s) + [
            ("handled", z3.Or(z3.Not(top), s.g("conflict"), A([k], z3.And(0 <= k, k < old), handled(s, c[k]))))]
    return Contract(D + "check", modifies=["this.facts_", "this.states_", "ghost:conflict"], ensures=ens,
                    requires=lambda s: it.indexed(s) + [("thread", z3.And(0 <= s.g("tid"), s.g("tid") < s.this.facts_.len)), ("limit", valid_limit(s, s.g("tid")))],
                    loops=[Loop(lambda l: [], name="solution")])


def new_graph(ex, n, args):
    """All edges of a new graph are enabled and none is added."""
    for a in args:
        ex.ev(a)
    rec = ex.unit.find_record("Graph<int>")
    v = ex.fresh_value(("rec", rec), "graph")
    for nm, val in (("has_", False), ("enabled_", True), ("added_", False)):
        v.leaves[(nm, "[]")] = z3.K(I, z3.BoolVal(val))
    return v


def thread_ready(s, t):
    """All edges are enabled and none is added."""
    st, e = s.this.states_[t], z3.Int("e")
    return z3.And(A([e], z3.BoolVal(True), z3.And(st.graph.enabled_[e], z3.Not(st.graph.added_[e]), z3.Not(st.graph.has_[e]))), st.removed_watchs.len == 0,
                  st.propagate_root == ROOTL(t), st.propagate_budget == BUDGET(t))


def initialize(assumed=False):
    t = z3.Int("t")
    thread = thread_ready

    def facts(s, upto):
        o = s.old.this.facts_
        return [("kept", A([t], z3.And(0 <= t, t < o.len), same_facts(s, t))), ("new", A([t], z3.And(o.len <= t, t < s.this.facts_.len), lits(s, t).len == 0)),
                ("limits", A([t], z3.And(0 <= t, t < upto), s.this.facts_[t].limit == lits(s, t).len))]

    def inv(l):
        i = l.local("i")
        return [("index", z3.And(0 <= i, i <= it.nt(l), l.this.states_.len == i, l.this.facts_.len >= it.nt(l), l.this.facts_.len >= l.old.this.facts_.len)),
                ("states", A([t], z3.And(0 <= t, t < i), thread(l, t)))] + facts(l, i)

    def ens(s):
        return [("threads", s.this.states_.len == it.nt(s)), ("facts", z3.And(s.this.facts_.len >= it.nt(s), s.this.facts_.len >= s.old.this.facts_.len)),
                ("states", A([t], z3.And(0 <= t, t < it.nt(s)), thread(s, t)))] + facts(s, it.nt(s))
    return Contract(D + "initialize_states_", modifies=["this.states_", "this.facts_", "this.stats_"], ensures=ens, loops=[Loop(inv, name="threads")], assumed=assumed)


def facts_module():
    base = graph_contracts() + it.config() + [do_propagate(True)]
    ext = dict(EXTS)
    ext["ctor:Graph<int>"] = ext["ctor:ClingoDL::Graph<int>"] = new_graph
    return Module("facts", SRC, base + [propagate(), check(), initialize()], externals=ext, prepare=prep)


# -- init --------------------------------------------------------------------
def mutexes():
    from . import mx
    return pr.assumed(Contract(D + "calculate_mutexes_", modifies=["this.stats_", "ghost:clauses"],
                               requires=lambda s: [("listed", mx.listed(s, s.arg(2))), ("first", s.arg(1) >= 0)], ensures=lambda s: []))


def init():
    e, t, k, x = z3.Ints("e t k x")
    PARTIAL = 2

    def req(s):
        return it.indexed(s) + cc.CV(s).ends() + c09.bijection(s.this) + cc.zeros(s) + [
            ("some", s.this.zero_vertices_.len >= 1), ("watches", it.edges_covered(s, threads=s.this.states_.len)), ("threads", z3.And(nt(s) >= 1, nt(s) < 2 ** 31, s.this.states_.len < 2 ** 31)),
            ("edges", s.this.edges_.len < 2 ** 32 - 1)]

    def threads(l, upto=None):
        i, o = l.local("i"), l.old.this
        s0 = l.snap("threads").this
        return [("thread", z3.And(i >= 0, i >= o.states_.len)), ("old", it.edges_covered(l, 0, o.edges_.len, i)), ("new", it.edges_covered(l, o.edges_.len)), it.more(l), it.sticky(l)]

    def edges(l):
        i, o = l.local("i"), l.old.this
        n = l.local("edge_id")
        return threads(l) + [("edge", z3.And(0 <= n, n <= o.edges_.len)), ("some", it.A([e], z3.And(0 <= e, e < n), it.covered(l, i, l.this.edges_[e].lit)))]

    def adjacency(l):
        g, n = cc.CV(l), l.local("edge_id")
        o, i = l.local("outgoing"), l.local("incoming")
        a, b = o.at(x, k), i.at(x, k)
        return [("edge", z3.And(0 <= n, n <= g.e.len)),
                ("outgoing", A([x, k], z3.And(0 <= k, k < o.n(x)), z3.And(0 <= a, a < n, g.frm(a) == x))),
                ("incoming", A([x, k], z3.And(0 <= k, k < i.n(x)), z3.And(0 <= b, b < n, g.to(b) == x))),
                ("outgoing-complete", A([e], z3.And(0 <= e, e < n), z3.Exists([k], z3.And(0 <= k, k < o.n(g.frm(e)), o.at(g.frm(e), k) == e)))),
                ("incoming-complete", A([e], z3.And(0 <= e, e < n), z3.Exists([k], z3.And(0 <= k, k < i.n(g.to(e)), i.at(g.to(e), k) == e))))]

    def adjacency_step(l):
        g, h, n = cc.CV(l), l.head, l.head.local("edge_id")
        pre, out = [], []
        for nm, end in (("outgoing", g.frm), ("incoming", g.to)):
            m, om = l.local(nm), h.local(nm)
            ex = lambda m, x, e: z3.Exists([k], z3.And(0 <= k, k < m.n(x), m.at(x, k) == e))
            oend = cc.CV(h).frm if nm == "outgoing" else cc.CV(h).to
            head = A([e], z3.And(0 <= e, e < n), ex(om, oend(e), e))
            same = A([e], z3.BoolVal(True), end(e) == oend(e))
            pre += it.moved(m, om, end(n), nm + "-")
            out += [(nm + "-head", head), (nm + "-same", same), (nm + "-kept", A([e], z3.And(0 <= e, e < n), ex(m, end(e), e)), [nm + "-head", nm + "-moved", nm + "-same"]), (nm + "-new", ex(m, end(n), n)),
                    (nm + "-bound", l.local("edge_id") == n + 1),
                    (nm + "-complete", A([e], z3.And(0 <= e, e < l.local("edge_id")), ex(m, end(e), e)), [nm + "-bound", nm + "-kept", nm + "-new"])]
        return pre + out

    def adjacency_exit(l):
        g, n, out = cc.CV(l), l.local("edge_id"), [("end", l.local("edge_id") == l.this.edges_.len)]
        for nm, end in (("outgoing", g.frm), ("incoming", g.to)):
            m = l.local(nm)
            f = lambda n: A([e], z3.And(0 <= e, e < n), z3.Exists([k], z3.And(0 <= k, k < m.n(end(e)), m.at(end(e), k) == e)))
            out += [(nm + "-some", f(n)), (nm + "-all", f(l.this.edges_.len), ["end", nm + "-some"])]
        return out

    def ens(s):
        st, o = s.this, s.old.this
        ok = s.g("ok")
        fresh = A([t], z3.And(0 <= t, t < nt(s)), thread_ready(s, t))
        lim = A([t], z3.And(0 <= t, t < nt(s)), st.facts_[t].limit == lits(s, t).len)
        return [("check-mode", z3.Implies(o.edges_.len > 0, s.g("check_mode") == PARTIAL))] + [(n_, z3.Implies(ok, f)) for n_, f in [
            ("watches", it.edges_covered(s)), ("threads", st.states_.len == nt(s)), ("fresh", fresh), ("facts", st.facts_.len >= nt(s)), ("limits", lim),
            ("kept", A([t], z3.And(0 <= t, t < o.facts_.len), same_facts(s, t))),
            ("earlier", z3.And(st.edges_.len >= o.edges_.len, A([e], z3.And(0 <= e, e < o.edges_.len), z3.And(st.edges_[e].lit == o.edges_[e].lit, st.edges_[e].weight == o.edges_[e].weight))))] + it.indexed(s)]
    return Contract(D + "init", requires=req, ensures=ens, modifies=None,
                    loops=[Loop(threads, name="threads"), Loop(edges, name="watches"), Loop(adjacency, name="adjacency", step_cuts=adjacency_step, exit_cuts=adjacency_exit, assume=lambda l: [l.this.edges_.len < 2 ** 32 - 1])])


def init_module():
    from . import st
    cal = cc.calculate()
    ext = dict(EXTS)
    ext["method:Clingo::PropagateInit"] = it.m_init
    def p(ex):
        prep(ex)
        ex.ghost_init("ok", B)
        ex.ghost_init("atoms", I)
    return Module("init", SRC, it.config() + [it.add_watches(True), st.constraints(True), pr.assumed(cal), mutexes(), initialize(True), init()], externals=ext, prepare=p)


PROP = "FA"
def modules(tier):
    return [Module("sort", SRC, [sort_edges()], externals=EXTS, prepare=prep), Module("disable", SRC, graph_contracts() + [disable_by_lit()], externals=EXTS, prepare=prep), prop_module(), facts_module(), init_module()]
