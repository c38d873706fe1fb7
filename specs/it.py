"""Initialization of the propagator: watches, adjacency lists and states.

The ghost `watched` tells which literals are watched by which thread."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr, c09, cc
from .pr import D, I, B, fr, SRC
from .cy import A
from .cc import CV, lists, complete, zeros

MODE, ROOTL, BUDGET = (z3.Function(n, I, I) for n in ("configured_mode", "configured_root", "configured_budget"))
ZERO_MODE = 1000


def inverse(t):
    """The thread propagates inverse literals, too."""
    return z3.Or(MODE(t) >= MODES["Zero"], ROOTL(t) > 0, BUDGET(t) > 0)


MODES = {"Check": 0, "Trivial": 1, "Weak": 2, "WeakPlus": 3, "Zero": 4, "Strong": 5}


def enum_val(t, name):
    if t == "PropagationMode":
        return MODES[name]
    if t == "PropagatorCheckMode":
        return {"None": 0, "Total": 1, "Partial": 2, "Both": 3}[name]
    return pr.enum_val(t, name)


def W(s, t, lit):
    return z3.Select(z3.Select(s.g("watched"), t), lit)


def config():
    """Effective settings of threads (specified in c12.py)."""
    out = []
    for n, f in (("mode", MODE), ("root", ROOTL), ("budget", BUDGET)):
        out.append(pr.assumed(Contract("PropagatorConfig::get_propagate_" + n, modifies=[], ensures=lambda s, f=f: [("value", s.result == f(s.arg(0)))])))
    return out


def more(s):
    """Watches are only added."""
    t, k = z3.Ints("t k")
    return ("watched", z3.ForAll([t, k], z3.Implies(W(s.old, t, k), W(s, t, k)), patterns=c09.trigger(W(s, t, k))))


def covered(s, t, lit):
    """The thread watches the literal, and its complement if edges have to be disabled."""
    return z3.And(W(s, t, lit), z3.Implies(inverse(t), z3.And(W(s, t, -lit), s.this.disable_edges_)))


def sticky(s):
    return ("disable", z3.Implies(s.old.this.disable_edges_, s.this.disable_edges_))


def add_watches(assumed=False):
    return Contract(D + "add_watches_", assumed=assumed, modifies=["this.disable_edges_", "ghost:watched"],
                    ensures=lambda s: [("literal", covered(s, s.arg(2), s.arg(1))), more(s), sticky(s)])


def nt(s):
    return s.g("threads")


def edges_covered(s, first=0, upto=None, threads=None):
    """All edges are watched by all threads."""
    e, t = z3.Ints("e t")
    hi = s.this.edges_.len if upto is None else upto
    w = W(s, t, s.this.edges_[e].lit)
    return z3.ForAll([e, t], z3.Implies(z3.And(first <= e, e < hi, 0 <= t, t < (nt(s) if threads is None else threads)), covered(s, t, s.this.edges_[e].lit)), patterns=c09.trigger(w) and [w, W(s, t, -s.this.edges_[e].lit)])


def indexed(s, upto=None):
    """Edges are listed by literal."""
    t = s.this
    m, n = t.lit_to_edges_, t.edges_.len
    l, k, e = z3.Ints("l k e")
    x = m.at(l, k)
    return [("listed", A([l, k], z3.And(0 <= k, k < m.n(l)), z3.And(0 <= x, x < n, t.edges_[x].lit == l))),
            ("indexed", A([e], z3.And(0 <= e, e < n), z3.Exists([k], z3.And(0 <= k, k < m.n(t.edges_[e].lit), m.at(t.edges_[e].lit, k) == e))))]


def same_edge(a, b):
    return z3.And(fr(a) == fr(b), a.to == b.to, a.weight == b.weight, a.lit == b.lit)


def prefix(s, o=None):
    k = z3.Int("k")
    a, b = s.this.edges_, (o or s.old).this.edges_
    pats = [p for x in (a[k].lit, fr(a[k]), a[k].to, a[k].weight) for p in c09.trigger(x)]
    return ("earlier", z3.And(a.len >= b.len, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < b.len), same_edge(a[k], b[k])), patterns=pats)))


def moved(m, om, key, nm=""):
    """The entries of the map are kept if one entry is added for the key."""
    x, j, k = z3.Ints("mvx mvj mvk")
    ex = lambda x: z3.Exists([k], z3.And(0 <= k, k < m.n(x), m.at(x, k) == om.at(x, j)))
    return [(nm + "row", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < om.n(key)), ex(key)), patterns=[om.at(key, j)])),
            (nm + "rows", z3.ForAll([x, j], z3.Implies(x != key, z3.And(m.n(x) == om.n(x), m.at(x, j) == om.at(x, j))), patterns=[om.at(x, j)])),
            (nm + "moved", z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < om.n(x)), ex(x)), patterns=[om.at(x, j)]), [nm + "row", nm + "rows"])]


def add_edge(assumed=False):
    def ens(s):
        n, e = s.old.this.edges_.len, s.this.edges_
        t, x = z3.Int("t"), s.this.edges_[s.old.this.edges_.len]
        return [("one", e.len == n + 1), prefix(s), ("edge", z3.And(fr(x) == s.arg(1), x.to == s.arg(2), x.weight == s.arg(3), x.lit == s.arg(4))),
                ("watches", A([t], z3.And(0 <= t, t < nt(s)), covered(s, t, s.arg(4)))), more(s), sticky(s)] + indexed(s)

    def cuts(s):
        t, o, l, k, e = s.this, s.old.this, *z3.Ints("l k e")
        m, om, n, lit = t.lit_to_edges_, o.lit_to_edges_, o.edges_.len, s.arg(4)
        ex = lambda m, l, e: z3.Exists([k], z3.And(0 <= k, k < m.n(l), m.at(l, k) == e))
        return moved(m, om, lit) + [("before", A([e], z3.And(0 <= e, e < n), ex(om, o.edges_[e].lit, e))), ("lits", A([e], z3.And(0 <= e, e < n), t.edges_[e].lit == o.edges_[e].lit)), ("lit", z3.And(t.edges_[n].lit == lit, t.edges_.len == n + 1)),
                ("kept", A([e], z3.And(0 <= e, e < n), ex(m, o.edges_[e].lit, e)), ["moved", "before"]), ("new", ex(m, lit, n)),
                ("known", A([e], z3.And(0 <= e, e < t.edges_.len), ex(m, t.edges_[e].lit, e)), ["kept", "new", "lits", "lit"])]

    def inv(l):
        t = z3.Int("t")
        i = l.local("i")
        return [("threads", z3.And(0 <= i, A([t], z3.And(0 <= t, t < i), covered(l, t, l.arg(4))))), more(l), sticky(l)]
    return Contract(D + "add_edge_", assumed=assumed, requires=indexed, ensures=ens, post_cuts=cuts,
                    modifies=["this.edges_", "this.lit_to_edges_", "this.disable_edges_", "ghost:watched"], loops=[Loop(inv, name="threads")])


def m_init(ex, obj, name, argn, n):
    if name == "number_of_threads":
        t = ex.ghost_get("threads")
        ex.fact(z3.And(t >= 1, t < 2 ** 31))
        return t
    if name == "add_watch":
        lit, w = ex.rv(argn[0]), ex.ghost_get("watched")
        if len(argn) < 2 or argn[1].get("kind") == "CXXDefaultArgExpr":
            raise ToolLimit("watch of all threads")
        t = ex.rv(argn[1])
        ex.ghost_set("watched", z3.Store(w, t, z3.Store(z3.Select(w, t), lit, True)))
        return None
    if name == "assignment":
        return Ext("assignment")
    if name == "set_check_mode":
        ex.ghost_set("check_mode", ex.rv(argn[0]))
        return None
    return NotImplemented


def prep(ex):
    pr.prepare(ex)
    ex.ghost_init("watched", z3.ArraySort(I, z3.ArraySort(I, B)))
    ex.ghost_init("threads", I)
    ex.ghost_init("check_mode", I)
    ex.ghost_init("clauses", I)


EXTS = dict(pr.EXTS)
EXTS["method:Clingo::PropagateInit"] = m_init
EXTS["enum"] = enum_val


def module():
    return Module("watches", SRC, config() + [add_watches(), add_edge()], externals=EXTS, prepare=prep)


PROP = "IT"
def modules(tier):
    return [module()]
