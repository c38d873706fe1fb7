"""Shared models for the propagator (propagator.cc).

The graph is defined in another translation unit. Its state is abstracted by two
maps over vertices, has_ and pot_ (a vertex has a value, its potential), and one
over edges, enabled_. specs/gr.py proves that the functions of the graph behave
as stated here in terms of the members that implement these maps."""
import z3
from cxxwp.exec import iv, Ext, LV, fresh_name, mk_and, Ptr
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module

I, B = z3.IntSort(), z3.BoolSort()
SRC = "libclingo-dl/src/propagator.cc"
D = "DLPropagator<int>::"
INT = ("int", 32, True)
TRUTH = {"Free": 0, "True": 1, "False": 2}


def prepare(ex):
    u = ex.unit
    g = u.find_record("Graph<int>")
    f = dict(u.fields(g))
    for n in list(f):
        if n != "propagate_":
            del f[n]
    f["has_"] = (("array", ("bool",), None), None)
    f["pot_"] = (("array", INT, None), None)
    f["enabled_"] = (("array", ("bool",), None), None)
    u._fields[g] = f
    for nm, so in (("tv", z3.ArraySort(I, I)), ("total", B), ("dl", I), ("tid", I), ("lev", z3.ArraySort(I, I))):
        ex.ghost_init(nm, so)


def edges(s):
    return s.ex.roots["this"], s


def e_true(s, e):
    return z3.Select(s.g("tv"), e) == 1


def enum_val(t, name):
    if t == "TruthValue":
        return TRUTH[name]
    return None


def m_control(ex, obj, name, argn, n):
    if name == "thread_id":
        return ex.ghost_get("tid")
    if name == "assignment":
        return Ext("assignment")
    return NotImplemented


def truth(ex, l):
    """Truth value of a literal; complementary literals have complementary values."""
    tv = ex.ghost_get("tv")
    v = z3.Select(tv, l)
    ex.fact(z3.And(v >= 0, v <= 2, z3.Select(tv, -l) == z3.If(v == 0, 0, 3 - v)))
    return v


def m_assignment(ex, obj, name, argn, n):
    if name in ("is_true", "is_false", "truth_value"):
        v = truth(ex, ex.rv(argn[0]))
        return v if name == "truth_value" else v == (1 if name == "is_true" else 2)
    if name == "is_total":
        return ex.ghost_get("total")
    if name == "decision_level":
        d = ex.ghost_get("dl")
        ex.fact(d >= 0)
        return d
    if name == "level":
        return z3.Select(ex.ghost_get("lev"), ex.rv(argn[0]))
    return NotImplemented


def ctor_timer(ex, n, args):
    for a in args:
        ex.ev(a)
    return Ext("timer")


EXTS = {"enum": enum_val, "method:Clingo::PropagateControl": m_control, "method:assignment": m_assignment, "method:Clingo::Assignment": m_assignment,
        "ctor:Timer": ctor_timer}


def assumed(c):
    c.assumed = True
    return c


def graph_contracts(only=()):
    """Contracts of the graph in terms of the abstract state (proved for the real state in specs/gr.py)."""
    G = "Graph<int>::"
    p = lambda s, v: z3.If(s.this.has_[v], s.this.pot_[v], 0)

    def neg(s):
        es = s.obj("this").edges_
        e = es[s.arg(0)]
        return [("sign", s.result == (p(s, e.__getattr__("from")) + e.weight - p(s, e.to) < 0))]
    cs = {"has_value": Contract(G + "has_value", ensures=lambda s: [("value", s.result == s.this.has_[s.arg(0)])]),
          "get_value": Contract(G + "get_value", requires=lambda s: [("has", s.this.has_[s.arg(0)])],
                                ensures=lambda s: [("value", s.result == -s.this.pot_[s.arg(0)])]),
          "edge_is_negative": Contract(G + "edge_is_negative", ensures=neg),
          "edge_is_enabled": Contract(G + "edge_is_enabled", ensures=lambda s: [("flag", s.result == s.this.enabled_[s.arg(0)])])}
    return [assumed(c) for n, c in cs.items() if not only or n in only]


def fr(e):
    return e.__getattr__("from")
