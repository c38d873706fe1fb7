"""C14: assignment queries agree with each other and with the reported model."""
import z3
from cxxwp.exec import iv, Ext, LV, Ptr, Blob
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from cxxwp.ast import ToolLimit
from . import har, pr, gr, wr
from .pr import D, I, B

PROP = "C14"
LEVEL = "proof"
DL = z3.Function("dl", I, I, I)            # the symbol dl(x,y)
NUMBER = z3.Function("number_symbol", I, I)
COUNT = z3.Function("reported_below", I, I)   # number of reported indices below an index


def graph(t, thread):
    return t.states_[thread].graph


def is_zero(t, v):
    return t.zero_vertices_[t.vertex_info_[v].cc] == v


def has(t, thread, v):
    """The vertex has a value and is no zero node."""
    return z3.And(v < t.vertex_info_.len, z3.Not(is_zero(t, v)), graph(t, thread).has_[v])


def value(t, thread, v):
    """The value relative to the zero node of the component."""
    z = t.zero_vertices_[t.vertex_info_[v].cc]
    g = graph(t, thread)
    return -g.pot_[v] - z3.If(g.has_[z], -g.pot_[z], 0)


def components(t):
    v = z3.Int("v")
    return [("components", z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < t.vertex_info_.len), t.vertex_info_[v].cc < t.zero_vertices_.len)))]


def has_lower_bound(assumed=False):
    return Contract(D + "has_lower_bound", requires=lambda s: components(s.this), assumed=assumed,
                    ensures=lambda s: [("has", s.result == has(s.this, s.arg(0), s.arg(1)))])


def lower_bound(assumed=False):
    return Contract(D + "lower_bound", requires=lambda s: components(s.this) + [("has", has(s.this, s.arg(0), s.arg(1)))], assumed=assumed,
                    ensures=lambda s: [("value", s.result == value(s.this, s.arg(0), s.arg(1)))])


def unspan(v):
    return v.data["lv"] if isinstance(v, Ext) and v.kind == "span" else v


def m_model(ex, obj, name, argn, n):
    if name == "thread_id":
        return ex.ghost_get("tid")
    if name == "extend":
        v = unspan(ex.ev(argn[0]))
        if not isinstance(v, LV) or v.idxs():
            raise ToolLimit("model extension")
        ex.ghost_set("model_len", ex.read_leaf(ex.st, v, ("len",), I))
        ex.ghost_set("model_at", ex.get_mem(ex.st, v.root, v.key() + ("[]",), z3.ArraySort(I, I)))
        return None
    return NotImplemented


def span(ex, n, args):
    """A view of a vector."""
    v = ex.ev(args[0])
    while isinstance(v, Blob) and len(args) == 1:
        raise ToolLimit("span of a temporary")
    return Ext("span", lv=v)


def x_function(ex, argn, n):
    name = ex.rv(argn[0])
    v = unspan(ex.ev(argn[1]))
    inv = {a: t for t, a in ex.strings.items()}
    if not isinstance(v, LV) or inv.get(z3.simplify(name.idx).as_long()) != "dl":
        raise ToolLimit("function symbol")
    ex.oblige("arity", ex.read_leaf(ex.st, v, ("len",), I) == 2, "pre")
    return DL(ex.read_leaf(ex.st, v.index(iv(0), None), (), I), ex.read_leaf(ex.st, v.index(iv(1), None), (), I))


def extend_model():
    k = z3.Int("k")

    def upto(t, tid, at, e):
        return [("entries", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < e, has(t, tid, k)), z3.And(
                    0 <= COUNT(k), COUNT(k) < COUNT(e), at(COUNT(k)) == DL(t.vertex_info_[k].symbol, NUMBER(value(t, tid, k))))))),
                ("monotone", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= e), z3.And(0 <= COUNT(k), COUNT(k) <= COUNT(e)))))]

    def defs(s):
        t = s.this
        return [COUNT(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, COUNT(k + 1) == COUNT(k) + z3.If(has(t, s.g("tid"), k), 1, 0)), patterns=[COUNT(k)])]

    def inv(l):
        vec = l.local("vec")
        t, tid = l.this, l.g("tid")
        return [("range", z3.And(0 <= l.i, l.i <= t.vertex_info_.len)), ("length", vec.len == COUNT(l.i))] + upto(t, tid, lambda i: vec[i], l.i)

    def ens(s):
        t, tid = s.this, s.g("tid")
        n = t.vertex_info_.len
        return [("length", s.g("model_len") == COUNT(n))] + upto(t, tid, lambda i: z3.Select(s.g("model_at"), i), n)
    # a symbol with a value is reported once, with the value given by lower_bound, and nothing else is reported
    return Contract(D + "extend_model", requires=lambda s: components(s.this), defs=defs, ensures=ens, loops=[Loop(inv)],
                    modifies=["ghost:model_len", "ghost:model_at"])


def prep(ex):
    pr.prepare(ex)
    ex.ghost_init("model_len", I)
    ex.ghost_init("model_at", z3.ArraySort(I, I))


EXTS = dict(pr.EXTS)
EXTS.update({"ctor:Clingo::Span<Clingo::Symbol>": span, "method:Clingo::Model": m_model, "call:Function": x_function, "call:Number": lambda ex, argn, n: NUMBER(ex.rv(argn[0]))})


# -- the interface used by applications: indices are shifted by one
def fprepare(ex):
    """The propagator in terms of what the contracts above state about it."""
    u = ex.unit
    p = u.find_record("DLPropagator<int>")
    f = u.fields(p)
    u._fields[p] = {"conf_": f["conf_"], "count_": (("int", 32, False), None), "symbol_": (("array", ("opq", "Clingo::Symbol"), None), None),
                    "has_": (("array", ("array", ("bool",), None), None), None),
                    "value_": (("array", ("array", pr.INT, None), None), None)}


def prop(s):
    return s.this.prop_


def abstract():
    P = lambda s: s.this
    v = z3.Int("v")
    cs = [Contract(D + "num_vertices", ensures=lambda s: [("count", s.result == P(s).count_), ("small", s.result < 2 ** 32 - 1)]),
          Contract(D + "symbol", requires=lambda s: [("index", s.arg(0) < P(s).count_)], ensures=lambda s: [("symbol", s.result == P(s).symbol_[s.arg(0)])]),
          Contract(D + "lookup", ensures=lambda s: [("index", z3.Or(
              z3.And(0 <= s.result, s.result < P(s).count_, P(s).symbol_[s.result] == s.arg(0)),
              z3.And(s.result == P(s).count_, z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < P(s).count_), P(s).symbol_[v] != s.arg(0))))))]),
          Contract(D + "has_lower_bound", ensures=lambda s: [("has", s.result == z3.And(s.arg(1) < P(s).count_, P(s).has_[s.arg(0)][s.arg(1)]))]),
          Contract(D + "lower_bound", requires=lambda s: [("has", z3.And(s.arg(1) < P(s).count_, P(s).has_[s.arg(0)][s.arg(1)]))],
                   ensures=lambda s: [("value", s.result == P(s).value_[s.arg(0)][s.arg(1)])])]
    return [pr.assumed(c) for c in cs]


F = "DLPropagatorFacade<int>::"
TOP = 2 ** 32


def f_has(p, thread, i):
    """Index i (shifted by one) has a value."""
    return z3.And(1 <= i, i <= p.count_, p.has_[thread][i - 1])


def facade_queries():
    k = z3.Int("k")

    def none(p, t, a, b):
        return z3.ForAll([k], z3.Implies(z3.And(a < k, k < b), z3.Not(f_has(p, t, k))))
    count = lambda s: z3.And(0 <= s.this.prop_.count_, s.this.prop_.count_ < TOP - 1)
    hv = Contract(F + "has_value", mode="exact", requires=lambda s: [("index", s.arg(1) <= TOP), ("count", count(s))],
                  ensures=lambda s: [("has", s.result == f_has(prop(s), s.arg(0), s.arg(1)))])
    gv = Contract(F + "get_value", mode="exact", modifies=["*arg2"],
                  requires=lambda s: [("has", f_has(prop(s), s.arg(0), s.arg(1))), ("index", s.arg(1) <= TOP), ("count", count(s))],
                  ensures=lambda s: [("type", s.deref(2).type == 0), ("value", s.deref(2).int_number == prop(s).value_[s.arg(0)][s.arg(1) - 1])])
    nx = Contract(F + "next", mode="exact", modifies=["*arg1"], requires=lambda s: [("index", s.deref(1) <= TOP), ("count", count(s))],
                  ensures=lambda s: [("found", z3.Implies(s.result, z3.And(f_has(prop(s), s.arg(0), s.deref(1)), s.deref(1) > s.old.deref(1),
                                                                           none(prop(s), s.arg(0), s.old.deref(1), s.deref(1))))),
                                     ("end", z3.Implies(z3.Not(s.result), none(prop(s), s.arg(0), s.old.deref(1), prop(s).count_ + 1)))],
                  loops=[Loop(lambda l: [("range", z3.And(l.deref(1) > l.old.deref(1), l.deref(1) <= z3.If(l.old.deref(1) > prop(l).count_, l.old.deref(1) + 1, prop(l).count_ + 1))),
                                         ("none", none(prop(l), l.arg(0), l.old.deref(1), l.deref(1)))])])
    return [hv, gv, nx]


def facade_symbols():
    """Indices are shifted by one; a symbol has an index if and only if it is a vertex."""
    v = z3.Int("v")
    count = lambda s: [("count", z3.And(0 <= s.this.prop_.count_, s.this.prop_.count_ < TOP - 1))]
    unknown = lambda s: z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < prop(s).count_), prop(s).symbol_[v] != s.arg(0)))
    lk = Contract(F + "lookup_symbol", mode="exact", modifies=["*arg1"], requires=count,
                  ensures=lambda s: [("found", z3.Implies(s.result, z3.And(1 <= s.deref(1), s.deref(1) <= prop(s).count_, prop(s).symbol_[s.deref(1) - 1] == s.arg(0)))),
                                     ("unknown", z3.Implies(z3.Not(s.result), unknown(s)))])
    sy = Contract(F + "get_symbol", mode="exact", requires=lambda s: count(s) + [("index", z3.And(1 <= s.arg(0), s.arg(0) <= prop(s).count_))],
                  ensures=lambda s: [("symbol", s.result == prop(s).symbol_[s.arg(0) - 1])])
    return [lk, sy]


def m_symbol(ex, obj, name, argn, n):
    if name == "to_c":
        return ex.read(ex.st, obj, ("opq", "Clingo::Symbol")) if isinstance(obj, LV) else obj
    raise ToolLimit("method of symbols " + name)


SYMS = {"ctor:Clingo::Symbol": lambda ex, n, args: ex.rv(args[0]), "method:Clingo::Symbol": m_symbol}


def symbols():
    return Module("interface-symbols", "libclingo-dl/src/clingo-dl.cc", abstract() + facade_symbols(), externals=SYMS, filters=("ClingoDL", "(anonymo", "clingodl"), prepare=fprepare)


def modules(tier):
    return [gr.module(("has_value", "get_value")),
            Module("values", pr.SRC, pr.graph_contracts(("has_value", "get_value")) + [has_lower_bound(), lower_bound(), extend_model()], externals=EXTS, prepare=prep),
            Module("interface", "libclingo-dl/src/clingo-dl.cc", abstract() + facade_queries(), filters=("ClingoDL", "(anonymo", "clingodl"), prepare=fprepare),
            wr.module(wr.queries() + wr.model())]


HARNESS = [har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials and costs do not overflow"]
BOUNDED_SCOPE = "random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "A variable is reported if and only if it has a value and is no zero node; has_value, get_value, the iteration over indices and the extension of models agree on the reported variables and values."
