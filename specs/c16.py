"""C16: accumulation and reporting of statistics."""
import z3
from cxxwp.exec import Ext, LV, View, iv
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import har, wr

PROP = "C16"
LEVEL = "proof"
TSTAT = ["time_propagate", "time_undo", "time_dijkstra", "true_edges", "false_edges", "false_edges_trivial",
         "false_edges_weak", "false_edges_weak_plus", "propagate_cost_add", "propagate_cost_from", "propagate_cost_to",
         "edges_added", "edges_skipped", "edges_propagated"]
SUM = ["time_init", "mutexes"]
LAST = ["ccs", "edges", "variables"]
W = 2 ** 64


def fld(view, f):
    v = getattr(view, f)
    return v.rep if isinstance(v, View) else v


def plus(a, b):
    """Counters are 64 bit, timers are real numbers."""
    return a + b if a.sort() == z3.RealSort() else (a + b) % W


def zero(a):
    return a == 0


def thread_accu():
    return Contract("ThreadStatistics::accu", modifies=["this." + f for f in TSTAT], mode="exact",
                    ensures=lambda s: [(f, fld(s.this, f) == plus(fld(s.old.this, f), fld(s.arg(0), f))) for f in TSTAT])


def thread_reset():
    return Contract("ThreadStatistics::reset", modifies=["this." + f for f in TSTAT], mode="exact",
                    ensures=lambda s: [(f, zero(fld(s.this, f))) for f in TSTAT])


def val0(vec, k, f):
    """Entry k of a vector of thread statistics, zero if it does not exist."""
    v = fld(vec[k], f)
    z = z3.RealVal(0) if v.sort() == z3.RealSort() else iv(0)
    return z3.If(k < vec.len, v, z)


def accu_entries(new, old, x, k, upto):
    """Thread k has been accumulated below `upto` and is unchanged otherwise."""
    return [(f, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < new.len), fld(new[k], f) == z3.If(
        k < upto, plus(val0(old, k, f), fld(x[k], f)), val0(old, k, f))))) for f in TSTAT]


def stat_accu():
    k = z3.Int("k")

    def ens(s):
        t, o, x = s.this, s.old.this, s.arg(0)
        ts, os_, xs = t.thread_statistics, o.thread_statistics, x.thread_statistics
        out = [(f, fld(t, f) == plus(fld(o, f), fld(x, f))) for f in SUM]
        out += [(f, fld(t, f) == fld(x, f)) for f in LAST]
        out.append(("threads", ts.len == z3.If(os_.len < xs.len, xs.len, os_.len)))
        return out + accu_entries(ts, os_, xs, k, xs.len)

    def inv(l):
        ts, os_, xs = l.this.thread_statistics, l.old.this.thread_statistics, l.arg(0).thread_statistics
        out = [("length", ts.len == z3.If(os_.len < xs.len, xs.len, os_.len))] + accu_entries(ts, os_, xs, k, l.i)
        if l.has_local("it"):
            it = l.local("it")
            if hasattr(it, "idx"):
                out.append(("position", it.idx == l.i))
        return out
    return Contract("Statistics::accu", modifies=["this"], mode="exact", bounds=True, ensures=ens, loops=[Loop(inv)])


def stat_reset():
    k = z3.Int("k")

    def ens(s):
        t, o = s.this, s.old.this
        out = [(f, zero(fld(t, f))) for f in SUM + LAST]
        out.append(("threads", t.thread_statistics.len == o.thread_statistics.len))
        out.append(("entries", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.thread_statistics.len), z3.And(
            [zero(fld(t.thread_statistics[k], f)) for f in TSTAT])))))
        return out

    def inv(l):
        ts = l.this.thread_statistics
        return [("length", ts.len == l.old.this.thread_statistics.len),
                ("entries", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.i), z3.And([zero(fld(ts[k], f)) for f in TSTAT]))))]
    return Contract("Statistics::reset", modifies=["this"], mode="exact", ensures=ens, loops=[Loop(inv)])


def assumed(c):
    c.assumed = True
    return c


# reporting: handles of clingo's statistics are integers, sub(h,n) is the entry named by the string at address n
I = z3.IntSort()
SUB = z3.Function("stat_sub", I, I, I)
ELEM = z3.Function("stat_elem", I, I, I)
ROOT = z3.Function("stat_root", I, I)
KIND = z3.Function("stat_kind", I, I)
PAR = z3.Function("stat_parent", I, I)
SEL = z3.Function("stat_selector", I, I)
TNAMES = {"Propagation(s)": "time_propagate", "Dijkstra(s)": "time_dijkstra", "Undo(s)": "time_undo", "True edges": "true_edges",
          "False edges": "false_edges", "False edges (inverse)": "false_edges_trivial", "False edges (partial)": "false_edges_weak",
          "False edges (partial+)": "false_edges_weak_plus", "Edges added": "edges_added", "Edges skipped": "edges_skipped",
          "Edges propagated": "edges_propagated", "Cost consistency": "propagate_cost_add", "Cost forward": "propagate_cost_from",
          "Cost backward": "propagate_cost_to"}
NAMES = {"Time init(s)": "time_init", "CCs": "ccs", "Mutexes": "mutexes", "Edges": "edges", "Variables": "variables"}


def sub(ex, h, n):
    r = SUB(h, n)
    ex.fact(z3.And(ROOT(r) == ROOT(h), KIND(r) == 1, PAR(r) == h, SEL(r) == n))
    return r


def elem(ex, h, i):
    r = ELEM(h, i)
    ex.fact(z3.And(ROOT(r) == ROOT(h), KIND(r) == 2, PAR(r) == h, SEL(r) == i))
    return r


def m_ustat(ex, obj, name, argn, n):
    h = ex.to_rv(obj, ("opq", "x")) if isinstance(obj, LV) else obj
    if isinstance(h, Ext):
        return NotImplemented
    if name == "add_subkey":
        ex.rv(argn[1])
        return sub(ex, h, ex.rv(argn[0]).idx)
    if name == "set_value":
        v = ex.rv(argn[0])
        ex.ghost_init("statval", z3.ArraySort(I, z3.RealSort()))
        ex.ghost_set("statval", z3.Store(ex.ghost_get("statval"), h, v))
        return None
    if name == "ensure_size":
        ex.rv(argn[0])
        return None
    if name == "begin":
        return Ext("ustatit", h=h, i=iv(0), havoc=("i",))
    return NotImplemented


def op_ustatit(ex, name, a0, args, n):
    o = ex.st.mem[(a0.root, a0.key() + ("@",))] if isinstance(a0, LV) else a0
    if name == "operator++":
        new = Ext("ustatit", h=o.data["h"], i=o.data["i"] + 1, havoc=("i",))
        ex.write(ex.st, a0, new)
        return o if len(args) > 1 else new
    if name == "operator*":
        return elem(ex, o.data["h"], o.data["i"])
    return NotImplemented


EXTS = {"method:Clingo::UserStatistics": m_ustat, "method:Clingo::StatisticsBase<false>": m_ustat, "op:ustatit": op_ustatit}


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


def reported(s, h, stats, threads=None):
    """The entries below h are exactly those of a statistics object."""
    k = z3.Int("k")
    val = s.g("statval")
    a = lambda t: s.ex.str_const(t).idx
    diff = SUB(h, a("DifferenceLogic"))
    out = [(n, z3.Select(val, SUB(diff, a(n))) == real(fld(stats, f))) for n, f in NAMES.items()]
    th = SUB(diff, a("Thread"))
    ts = stats.thread_statistics
    out += [(n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < (ts.len if threads is None else threads)),
                                          z3.Select(val, SUB(ELEM(th, k), a(n))) == real(fld(ts[k], f))))) for n, f in TNAMES.items()]
    return out


def tree(ex):
    h, x = z3.Ints("h x")
    ex.ghost_init("statval", z3.ArraySort(I, z3.RealSort()))
    for F, kd in ((SUB, 1), (ELEM, 2)):
        ex.fact(z3.ForAll([h, x], z3.And(ROOT(F(h, x)) == ROOT(h), KIND(F(h, x)) == kd, PAR(F(h, x)) == h, SEL(F(h, x)) == x), patterns=[F(h, x)]))


def others(s, h):
    """Entries of other roots are not touched."""
    x = z3.Int("x")
    return [("others", z3.ForAll([x], z3.Implies(ROOT(x) != ROOT(h), z3.Select(s.g("statval"), x) == z3.Select(s.old.g("statval"), x))))]


def facade():
    F = "DLPropagatorFacade<int>::"

    def setup(ex, fr, node):
        tree(ex)
    add = Contract(F + "add_statistics_", modifies=["ghost:statval"], setup=setup,
                   ensures=lambda s: reported(s, s.arg(0), s.arg(1)) + others(s, s.arg(0)),
                   loops=[Loop(lambda l: reported(l, l.arg(0), l.arg(1), l.i) + others(l, l.arg(0)) + (
                       [("position", l.local("it").data["i"] == l.i)] if isinstance(l.local("it"), Ext) else []))])

    def ens(s):
        t, o = s.this, s.old.this
        return ([("accu-" + n, f) for n, f in reported(s, s.arg(1), t.accu_)] + [("step-" + n, f) for n, f in reported(s, s.arg(0), o.step_)]
                + [("reset-" + f, zero(fld(t.step_, f))) for f in SUM + LAST] + [("threads", t.step_.thread_statistics.len == o.step_.thread_statistics.len)]
                + [("sum-" + f, fld(t.accu_, f) == plus(fld(o.accu_, f), fld(o.step_, f))) for f in SUM]
                + [("last-" + f, fld(t.accu_, f) == fld(o.step_, f)) for f in LAST])
    on = Contract(F + "on_statistics", modifies=["ghost:statval", "this.accu_", "this.step_"], setup=setup, mode="exact", ensures=ens,
                  requires=lambda s: [("two-roots", ROOT(s.arg(0)) != ROOT(s.arg(1)))])
    return [add, on]


def modules(tier):
    out = [Module("thread-statistics", "libclingo-dl/src/graph.cc", [thread_accu(), thread_reset()]),
           Module("statistics", "libclingo-dl/src/propagator.cc", [assumed(thread_accu()), assumed(thread_reset()), stat_accu(), stat_reset()])]
    out.append(Module("reporting", "libclingo-dl/src/clingo-dl.cc", [assumed(stat_accu()), assumed(stat_reset())] + facade(), externals=EXTS,
                      filters=("ClingoDL", "(anonymo", "clingodl")))
    out.append(wr.module(wr.statistics()))
    return out


HARNESS = [har.opt()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["durations are real numbers (they are floating point numbers of seconds)", "std::vector::resize value-initialises new entries"]
BOUNDED_SCOPE = "random sequences of steps with varying numbers of threads, compared with directly computed sums"
RULE = "random statistics objects; non-trivial: numbers of threads differ between steps"
EXPLANATION = "Accumulation adds every counter exactly (64 bit, wrap-around is an obligation), per thread and per step, resizes to the larger number of threads, reset clears every field, and reported statistics equal the fields."
