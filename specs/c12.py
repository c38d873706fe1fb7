"""C12: thread settings override global settings only for their own thread."""
import z3
from cxxwp.exec import iv, Ext
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import har
from . import opts
from .opts import SCALARS, TFIELDS

PROP = "C12"
LEVEL = "proof"


def effective(conf, tid, f):
    """The value of a setting in effect for a thread."""
    t = getattr(conf.thread_config[tid], f)
    return z3.If(z3.And(tid < conf.thread_config.len, t.has), t.val, getattr(conf, f))


def getters():
    return [Contract("PropagatorConfig::get_" + f, mode="exact",
                     ensures=lambda s, f=f: [("effective", s.result == effective(s.this, s.arg(0), f))]) for f in TFIELDS]


def ctor_prop(ex, n, args):
    """Constructor of the propagator: the configuration is copied (verified in module instance)."""
    from cxxwp.interp import inner
    ty = ex.ety(n)
    conf = ex.rv(args[1])
    out = ex.fresh_value(ty, "prop")
    for s in list(out.leaves):
        if s[0] == "conf_":
            out.leaves[s] = conf.leaves[s[1:]]
    return out


def ext_register(ex, argn, n):
    """Records which callbacks are registered."""
    p = ex.rv(argn[1])
    data = ex.rv(argn[2])
    sync = ex.rv(argn[3])
    st = ex.st
    lv = p.lv

    def cb(f):
        o = st.mem.get((lv.root, lv.key() + (f, "@")))
        if not isinstance(o, Ext) or o.kind != "func":
            raise ToolLimit("callback %s is not a function" % f)
        return o
    ok = [z3.BoolVal(data.idx is None and data.lv is not None and data.lv.root == "this" and data.lv.key() == ("prop_",)), z3.Not(sync)]
    for f in ("init", "propagate", "undo", "check"):
        o = cb(f)
        ok.append(z3.And(z3.BoolVal(o.data["name"] == f and "int" in str(ex.unit.targs(ex.unit.decls[o.data["decl"]]))), z3.Not(o.data.get("null", z3.BoolVal(False)))))
    d = cb("decide")
    ok.append(z3.BoolVal(d.data["name"] == "decide"))
    for g, v in (("registered", z3.And(ok)), ("decider", z3.Not(d.data.get("null", z3.BoolVal(False))))):
        ex.ghost_init(g, z3.BoolSort())
        ex.ghost_set(g, v)
    return z3.BoolVal(True)


def create():
    F = "DLPropagatorFacade<int>::DLPropagatorFacade"

    def ens(s):
        conf = s.arg(1)
        k = z3.Int("k")
        p = s.this.prop_.conf_
        out = [("callbacks", s.g("registered")), ("heuristic", s.g("decider") == (conf.decision_mode != 0))]
        out += [("setting-" + f, getattr(p, f) == getattr(conf, f)) for f in SCALARS]
        for f in TFIELDS:
            n, o = getattr(p.thread_config[k], f), getattr(conf.thread_config[k], f)
            out.append(("thread-" + f, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < conf.thread_config.len), z3.And(
                n.has == o.has, z3.Implies(n.has, n.val == o.val))))))
        return out + [("threads", p.thread_config.len == conf.thread_config.len)]

    def setup(ex, fr, node):
        for g in ("registered", "decider"):
            ex.ghost_init(g, z3.BoolSort())
    return Contract(F, mode="exact", modifies=None, setup=setup, ensures=ens)


def ctor_graph(ex, n, args):
    """Constructor of the graph: the propagation mode is stored (verified in module graph)."""
    ty = ex.ety(n)
    mode = ex.rv(args[2])
    out = ex.fresh_value(ty, "graph")
    out.leaves[("propagate_",)] = mode
    return out


def states():
    """Each thread gets the state configured for it."""
    D = "DLPropagator<int>::"
    k = z3.Int("k")

    def rows(t, conf, upto):
        st = t.states_
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), z3.And(
            st[k].graph.propagate_ == effective(conf, k, "propagate_mode"),
            st[k].propagate_root == effective(conf, k, "propagate_root"),
            st[k].propagate_budget == effective(conf, k, "propagate_budget"))))
    init = Contract(D + "initialize_states_", modifies=["this.states_", "this.facts_", "this.stats_"], mode="exact",
                    ensures=lambda s: [("threads", s.this.states_.len == NT), ("settings", rows(s.this, s.this.conf_, NT))],
                    loops=[Loop(lambda l: [("length", l.this.states_.len == l.i), ("range", z3.And(0 <= l.i, l.i <= NT)), ("settings", rows(l.this, l.this.conf_, l.i))])])
    return [init]


def graph_ctor():
    def inv(l):
        j = z3.Int("j")
        es = l.this.edge_states_
        return [("mode", l.this.propagate_ == l.arg(2)), ("length", es.len == l.this.edges_.len),
                ("fresh", z3.ForAll([j], z3.Implies(z3.And(l.i <= j, j < es.len), es[j].enabled == 0)))]
    return [Contract("Graph<int>::Graph", mode="exact", modifies=None, ensures=lambda s: [("mode", s.this.propagate_ == s.arg(2))],
                     loops=[Loop(inv)])]


NT = z3.Int("number_of_threads")


def m_init(ex, obj, name, argn, n):
    if name == "number_of_threads":
        ex.fact(z3.And(NT >= 1, NT <= 64))
        return NT
    return NotImplemented


STATE_EXTS = {"ctor:Graph<int>": ctor_graph, "method:Clingo::PropagateInit": m_init}

EXTS = dict(opts.EXTS)
EXTS.update({"ctor:DLPropagator<int>": ctor_prop, "call:clingo_control_register_propagator": ext_register,
             "call:clingo_control_add": lambda ex, argn, n: z3.BoolVal(True), "call:handle_error": lambda ex, argn, n: [ex.rv(argn[0]), None][1]})


def assumed(cs):
    for c in cs:
        c.assumed = True
    return cs


def modules(tier):
    parse = assumed(opts.base_contracts())
    return [Module("configuration", "libclingo-dl/src/propagator.cc", getters()),
            Module("threads", "libclingo-dl/src/propagator.cc", assumed(getters()) + states(), externals=STATE_EXTS),
            Module("graph", "libclingo-dl/src/graph.cc", graph_ctor()),
            Module("setting", "libclingo-dl/src/clingo-dl.cc", parse + opts.option_contracts(), externals=opts.EXTS,
                   filters=("ClingoDL", "(anonymo", "clingodl")),
            Module("instances", "libclingo-dl/src/clingo-dl.cc", [create()], externals=EXTS,
                   filters=("ClingoDL", "(anonymo", "clingodl", "clingo_p"))]


HARNESS = [har.opt()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["memory allocation does not fail"]
BOUNDED_SCOPE = ""
RULE = ""
EXPLANATION = "The effective value of a setting is the one of the thread if given and the global one otherwise; the parsers write either the global setting or that of the given thread and keep those of all other threads; the graph of each thread gets the effective settings of the thread."
