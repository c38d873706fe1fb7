"""The graph (graph.cc): contracts that the propagator relies on.

specs/pr.py states these contracts over maps (has_, pot_, enabled_); here they
are proved for the members that implement the maps: a vertex has a value iff its
potential stack is not empty and its potential is the value on top."""
import z3
from cxxwp.exec import LV, Ext
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from .pr import I, B, fr

SRC = "libclingo-dl/src/graph.cc"
G = "Graph<int>::"


def has(g, v):
    """A vertex has a value."""
    return z3.And(v < g.vertices_.len, g.vertices_[v].potential_stack.len > 0)


def pot(g, v):
    """The potential of a vertex."""
    p = g.vertices_[v].potential_stack
    return p[p.len - 1].second


def frm(g, e):
    return fr(g.edges_[e])


def queries(only=()):
    def neg(s):
        g, e = s.this, s.arg(0)
        p = lambda v: z3.If(g.vertices_[v].potential_stack.len > 0, pot(g, v), 0)
        return [("sign", s.result == (p(frm(g, e)) + g.edges_[e].weight - p(g.edges_[e].to) < 0))]

    def propagate(g):
        t = g.changed_trail_
        return z3.Or(t.len == 0, t[t.len - 1].can_propagate)
    cs = {"has_value": Contract(G + "has_value", ensures=lambda s: [("value", s.result == has(s.this, s.arg(0)))]),
          "get_value": Contract(G + "get_value", requires=lambda s: [("has", has(s.this, s.arg(0)))],
                                ensures=lambda s: [("value", s.result == -pot(s.this, s.arg(0)))]),
          "edge_is_negative": Contract(G + "edge_is_negative", ensures=neg),
          "edge_is_enabled": Contract(G + "edge_is_enabled", ensures=lambda s: [("flag", s.result == (s.this.edge_states_[s.arg(0)].enabled != 0))]),
          "can_propagate": Contract(G + "can_propagate", ensures=lambda s: [("flag", s.result == propagate(s.this))]),
          "mode": Contract(G + "mode", ensures=lambda s: [("mode", s.result == s.this.propagate_)])}
    return [c for n, c in cs.items() if not only or n in only]


def module(only=(), name="graph-queries"):
    return Module(name, SRC, queries(only), externals={})


def element_setup(vec, name="x"):
    """The first parameter refers to an element of a vector of the object."""
    def setup(ex, fr, node):
        u = ex.unit
        fr.this = LV("this", (), ("rec", u.qual[node["id"]].rsplit("::", 1)[0]))
        params = [p for p in node.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
        vty = u.fields(fr.this.ty[1])[vec][0]
        x = z3.Int(name)
        v = fr.this.field(vec, vty)
        ex.fact(z3.And(0 <= x, x < ex.read_leaf(ex.st, v, ("len",), I)))
        ex.bindp(fr, params[0], v.index(x, vty[1]))
        for k, p in enumerate(params[1:], 1):
            lv = LV("arg%d" % k, (), u.ty(p["type"]))
            ex.roots["arg%d" % k] = lv
            ex.bindp(fr, p, lv)
    return setup


def index_of(s, k=0):
    """Index of the element a reference parameter refers to."""
    return s.frame.params[k].idxs()[0]


def set_potential():
    """The potential of the level is set; the first change on a level is recorded."""
    def ens(s):
        a, o, g, h = s.arg(0).potential_stack, s.old.arg(0).potential_stack, s.this, s.old.this
        lev, pt, i = s.arg(1), s.arg(2), z3.Int("i")
        ch, och = g.changed_vertices_, h.changed_vertices_
        new = z3.Or(o.len == 0, o[o.len - 1].first < lev)
        n = z3.If(new, o.len, o.len - 1)
        return [("length", a.len == n + 1), ("level", a[n].first == z3.If(new, lev, o[n].first)), ("potential", a[n].second == pt),
                ("below", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(a[i].first == o[i].first, a[i].second == o[i].second)))),
                ("recorded", z3.And(ch.len == och.len + z3.If(new, 1, 0), z3.Implies(new, ch[och.len] == index_of(s)))),
                ("earlier", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < och.len), ch[i] == och[i])))]
    return Contract(G + "set_potential_", setup=element_setup("vertices_"), modifies=["arg0.potential_stack", "this.changed_vertices_"], ensures=ens)


def level_of(s):
    t = s.this.changed_trail_
    return t[t.len - 1].level


def current_level():
    return Contract(G + "current_decision_level_", requires=lambda s: [("trail", s.this.changed_trail_.len > 0)],
                    ensures=lambda s: [("level", s.result == level_of(s))])


PROP = "GR"
def modules(tier):
    return [module(), Module("x", SRC, [set_potential(), current_level()])]
