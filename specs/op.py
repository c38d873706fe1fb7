"""Minimization (app.cc).

FEAS is the set of values that the minimized variable takes in some assignment satisfying an answer set (an
arbitrary set of integers). Solving under bounds is assumed to be sound and complete: it reports a model whose value
is feasible and within the bounds in force or it answers unsatisfiable if there is none. The bounds in force are
tracked by the calls to ground and release_external."""
import z3
from cxxwp.exec import Ext, LV, Ptr, Blob, SpecCtx, fresh_name
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop, CHARS
from cxxwp.prove import Module
from .pr import I, B
from .cy import A

SRC = "app/lib/src/app.cc"
O = "Optimizer::"
FEAS = z3.Const("feasible", z3.ArraySort(I, B))
IDX, KNOWN = z3.Const("index_of_symbol", I), z3.Const("symbol_known", B)
MIN, MAX = -2 ** 31, 2 ** 31 - 1
TEXT = '#program__ub(s,b).&diff{s-0}<=b.#program__sb(s,b).#external__sb(b).[true]&diff{s-0}<=b:-__sb(b).'
AB = z3.ArraySort(I, B)
BOUNDS = ["this.search_bound_", "this.search_bound_last_", "this.lower_bound_", "this.upper_bound_", "this.upper_bound_last_", "this.optimization"]
FORCE = ["ghost:ub_has", "ghost:ub", "ghost:sb_on", "ghost:sb_used"]
REPORT = ["ghost:reports", "ghost:last"]
MODEL = ["ghost:tid", "ghost:vals", "ghost:hasv"]


def prep(ex):
    for nm, so in (("ub_has", B), ("ub", I), ("sb_on", AB), ("sb_used", AB), ("reports", I), ("last", I), ("tid", I),
                   ("vals", z3.ArraySort(I, z3.ArraySort(I, I))), ("hasv", z3.ArraySort(I, AB)), ("encoded", B), ("sat", B), ("unsat", B), ("interrupted", B), ("stat_lower_has", B), ("stat_lower", z3.RealSort()), ("stat_value_has", B), ("stat_value", z3.RealSort())):
        ex.ghost_init(nm, so)


def text(ex, v):
    inv = {a: t for t, a in ex.strings.items()}
    if isinstance(v, Ptr) and v.idx is not None and z3.is_int_value(z3.simplify(v.idx)):
        t = inv.get(z3.simplify(v.idx).as_long())
        if t is not None:
            return t
    raise ToolLimit("text is not a literal")


def x_parse(ex, argn, n):
    """The program with the bounds."""
    t = "".join(text(ex, ex.rv(argn[0])).split())
    if t != TEXT:
        raise ToolLimit("encoding of bounds is not known")
    ex.ghost_set("encoded", z3.BoolVal(True))
    ex.assumptions.add("the program text passed to the rewriter states s <= b for __ub(s,b) and for __sb(s,b) while the external __sb(b) is true")
    return z3.BoolVal(True)


def x_builder(ex, argn, n):
    f = ex.rv(argn[1])
    ex.call_lambda(f, vals=[Ext("builder")])
    return None


def m_any(ex, obj, name, argn, n):
    raise ToolLimit("method " + name)


def m_builder(ex, obj, name, argn, n):
    return Ext("builder") if name == "to_c" else NotImplemented


def part(ex, n, args):
    """A program part: name and symbols."""
    nm = text(ex, ex.rv(args[0]))
    ps = ex.ev(args[1])
    if not isinstance(ps, Ext) or ps.kind != "symbols":
        raise ToolLimit("program part")
    return Ext("part", name=nm, params=ps.data["items"])


def symbols(ex, n, args):
    v = ex.ev(args[0])
    if isinstance(v, Ext) and v.kind == "list":
        return Ext("symbols", items=v.data["items"])
    if isinstance(v, Ext):
        return v
    raise ToolLimit("symbols")


def parts(ex, n, args):
    v = ex.ev(args[0])
    if isinstance(v, Ext) and v.kind == "list":
        return Ext("parts", items=v.data["items"])
    if isinstance(v, Ext):
        return v
    raise ToolLimit("program parts")


def x_number(ex, argn, n):
    return Ext("number", value=ex.rv(argn[0]))


def x_function(ex, argn, n):
    nm, ps = text(ex, ex.rv(argn[0])), ex.ev(argn[1])
    if not isinstance(ps, Ext) or ps.kind != "symbols":
        raise ToolLimit("function symbol")
    return Ext("function", name=nm, params=ps.data["items"])


def number(v):
    if isinstance(v, Ext) and v.kind == "number":
        return v.data["value"]
    raise ToolLimit("number expected")


def allowed(ex, x):
    """Feasible values within the bounds in force."""
    b = z3.Int("bnd")
    on = ex.ghost_get("sb_on")
    return z3.And(FEAS[x], z3.Implies(ex.ghost_get("ub_has"), x <= ex.ghost_get("ub")), A([b], on[b], x <= b))


def m_control(ex, obj, name, argn, n):
    if name == "to_c":
        return Ext("control")
    if name == "ground":
        ps = ex.ev(argn[0])
        if not isinstance(ps, Ext) or ps.kind != "parts":
            raise ToolLimit("program parts")
        for p in ps.data["items"]:
            nm, args = p.data["name"], p.data["params"]
            if nm not in ("__ub", "__sb") or len(args) != 2:
                raise ToolLimit("program part " + nm)
            sym = SpecCtx(ex, ex.st, ex.top).this.opt_cfg_.symbol
            ex.oblige("minimized-symbol", args[0] == sym, "pre")
            b = number(args[1])
            ex.oblige("encoding-added", ex.ghost_get("encoded"), "pre")
            if nm == "__ub":
                h, u = ex.ghost_get("ub_has"), ex.ghost_get("ub")
                ex.ghost_set("ub", z3.If(z3.And(h, u <= b), u, b))
                ex.ghost_set("ub_has", z3.BoolVal(True))
            else:
                # a part whose external has been released before might have no effect
                ex.ghost_set("sb_on", z3.Store(ex.ghost_get("sb_on"), b, z3.Or(z3.Not(ex.ghost_get("sb_used")[b]), z3.FreshConst(B, "again"))))
                ex.ghost_set("sb_used", z3.Store(ex.ghost_get("sb_used"), b, True))
        return None
    if name == "release_external":
        f = ex.ev(argn[0])
        if not isinstance(f, Ext) or f.kind != "function" or f.data["name"] != "__sb" or len(f.data["params"]) != 1:
            raise ToolLimit("external")
        ex.ghost_set("sb_on", z3.Store(ex.ghost_get("sb_on"), number(f.data["params"][0]), False))
        return None
    if name == "solve":
        if len(argn) < 2:
            raise ToolLimit("solve")
        h = ex.rv(argn[1])
        lv = h.lv if isinstance(h, Ptr) else h
        if not isinstance(lv, LV) or lv.root != ex.frame.this.root:
            raise ToolLimit("event handler")
        return Ext("handle")
    raise ToolLimit("control method " + name)


def m_handle(ex, obj, name, argn, n):
    if name != "get":
        raise ToolLimit("handle method " + name)
    sat, unsat, intr = [z3.FreshConst(B, x) for x in ("sat", "unsat", "interrupted")]
    ex.ghost_set("interrupted", intr)
    x = z3.Int("x")
    ex.fact(z3.Not(z3.And(sat, unsat)))
    ex.fact(z3.Or(sat, unsat, intr))
    ex.fact(z3.Implies(unsat, A([x], FEAS[x], z3.Not(allowed(ex, x)))))
    ex.assumptions.add("solving reports a model within the bounds in force or answers unsatisfiable if there is none")

    def model():
        v = z3.FreshConst(I, "value")
        ex.ghost_set("tid", z3.FreshConst(I, "tid"))
        ex.ghost_set("vals", z3.FreshConst(ex.ghost_get("vals").sort(), "vals"))
        ex.ghost_set("hasv", z3.FreshConst(ex.ghost_get("hasv").sort(), "hasv"))
        t = ex.ghost_get("tid")
        ex.fact(z3.And(t >= 0, MIN < v, v <= MAX, ex.ghost_get("vals")[t][IDX] == v, allowed(ex, v)))
        node = ex.unit.find(O + "on_model")
        node = node[0] if isinstance(node, list) else node
        c = ex.contracts.get(node["id"])
        if c is None:
            raise ToolLimit("no contract of on_model")
        ex.call_contract(c, node, ex.frame.this, [Ext("model")], ())
    ex.fork(sat, model, lambda: None)
    return Ext("result", unsat=unsat, sat=sat, interrupted=intr)


def m_result(ex, obj, name, argn, n):
    k = {"is_unsatisfiable": "unsat", "is_satisfiable": "sat", "is_interrupted": "interrupted"}.get(name)
    if k is None:
        raise ToolLimit("result method " + name)
    return obj.data[k]


def m_model(ex, obj, name, argn, n):
    if name == "thread_id":
        return ex.ghost_get("tid")
    raise ToolLimit("model method " + name)


def m_handler(ex, obj, name, argn, n):
    """The event handler of the application."""
    if name == "on_model":
        m = ex.ev(argn[0])
        t = ex.ghost_get("tid")
        ex.ghost_set("reports", ex.ghost_get("reports") + 1)
        ex.ghost_set("last", ex.ghost_get("vals")[t][IDX])
        return z3.FreshConst(B, "goon")
    if name == "on_statistics":
        return None
    raise ToolLimit("handler method " + name)


def x_lookup(ex, argn, n):
    s = ex.rv(argn[1])
    p = ex.rv(argn[2])
    known = z3.And(KNOWN, s == SpecCtx(ex, ex.st, ex.top).this.opt_cfg_.symbol)
    lv = p.lv
    old = ex.read(ex.st, lv, lv.ty or ("int", 64, False))
    ex.write(ex.st, lv, z3.If(known, IDX, z3.FreshConst(I, "index")))
    ex.fact(IDX >= 1)
    return known


def x_has(ex, argn, n):
    return ex.ghost_get("hasv")[ex.rv(argn[1])][ex.rv(argn[2])]


def x_value(ex, argn, n):
    t, i, p = ex.rv(argn[1]), ex.rv(argn[2]), ex.rv(argn[3])
    ty = p.lv.ty
    ex.write(ex.st, p.lv.field("type", ("int", 32, True)), z3.IntVal(0))
    ex.write(ex.st, p.lv.field("int_number", ("int", 32, True)), ex.ghost_get("vals")[t][i])
    ex.assumptions.add("the values of clingodl_assignment_get_value are integers of the model of the thread (C01, C14)")
    return None


def m_statistics(ex, obj, name, argn, n):
    """User statistics: the keys below DifferenceLogic."""
    key = obj.data["key"] if isinstance(obj, Ext) else ()
    if name == "add_subkey":
        ex.rv(argn[1])
        return Ext("statistics", key=key + (text(ex, ex.rv(argn[0])),))
    if name == "set_value":
        v = ex.rv(argn[0])
        v = z3.ToReal(v) if v.sort() == I else v
        g = {("DifferenceLogic", "Lower bound"): "stat_lower", ("DifferenceLogic", "Optimization"): "stat_value"}.get(key)
        if g is None:
            raise ToolLimit("statistics key " + "/".join(key))
        ex.ghost_set(g, v)
        ex.ghost_set(g + "_has", z3.BoolVal(True))
        return None
    raise ToolLimit("statistics method " + name)


def add_stats():
    """The bounds are reported as they are."""
    def ens(s):
        t, out = s.this, []
        for g, f in (("stat_lower", t.lower_bound_), ("stat_value", t.optimization)):
            out += [(g, z3.If(f.has, z3.And(s.g(g + "_has"), s.g(g) == z3.ToReal(f.val)), z3.And(s.g(g + "_has") == s.old.g(g + "_has"), s.g(g) == s.old.g(g))))]
        return out
    return Contract(O + "add_stats", ensures=ens, modifies=["ghost:stat_lower", "ghost:stat_lower_has", "ghost:stat_value", "ghost:stat_value_has"], mode="exact")


def m_symbol(ex, obj, name, argn, n):
    return (ex.read(ex.st, obj, ("opq", "Clingo::Symbol")) if isinstance(obj, LV) else obj) if name == "to_c" else NotImplemented


EXTS = {"method:Clingo::StatisticsBase<false>": m_statistics, "method:statistics": m_statistics,
        "enum": lambda t, name: {"Empty": 0, "Value": 1, "Array": 2, "Map": 3}.get(name) if t == "StatisticsType" else None, "method:Clingo::Symbol": m_symbol, "call:clingo_ast_parse_string": x_parse, "call:handle_error": lambda ex, argn, n: (ex.rv(argn[0]), None)[1], "call:with_builder": x_builder,
        "method:builder": m_builder, "ctor:Clingo::Part": part, "ctor:Clingo::Span<Clingo::Symbol>": symbols, "ctor:Clingo::Span<Clingo::Part>": parts,
        "call:Number": x_number, "call:Function": x_function, "method:Clingo::Control": m_control, "method:handle": m_handle, "method:result": m_result,
        "method:Clingo::Model": m_model, "method:model": m_model, "method:Clingo::SolveEventHandler": m_handler,
        "call:clingodl_lookup_symbol": x_lookup, "call:clingodl_assignment_has_value": x_has, "call:clingodl_assignment_get_value": x_value}


def opt(o):
    return o.has, o.val


def value(s):
    return s.g("vals")[s.g("tid")][IDX]


def index_ok(s):
    return [("index", z3.Or(s.this.opt_cfg_.index == 0, s.this.opt_cfg_.index == IDX)), ("known", IDX >= 1)]


def get_bound(assumed=False):
    return Contract(O + "get_bound", requires=index_ok, modifies=["this.opt_cfg_.index"], assumed=assumed, mode="exact",
                    ensures=lambda s: index_ok(s) + [("value", s.result == value(s))], throws=lambda s: None)


def bounds(s):
    """What holds for the bounds before a model is found."""
    t = s.this
    x = z3.Int("x")
    lo, up, sb = t.lower_bound_, t.upper_bound_, t.search_bound_
    return [("lower-upper", z3.Implies(lo.has, z3.And(up.has, lo.val <= up.val + 1))), ("lower", z3.Implies(lo.has, A([x], FEAS[x], x >= lo.val))),
            ("adjust", t.adjust_ >= 1), ("factor", t.opt_cfg_.factor >= 1)]


def on_model():
    def req(s):
        t, v = s.this, value(s)
        up = t.upper_bound_
        return index_ok(s) + bounds(s) + [("value", z3.And(FEAS[v], MIN < v, v <= MAX)), ("improves", z3.Implies(up.has, v <= up.val)),
                              ("bound", z3.Implies(t.lower_bound_.has, up.val < MAX - 1)), ("adjusted", z3.Implies(t.adjust_ > 1, z3.And(up.has, up.val < MAX)))]

    def ens(s):
        t, v, o = s.this, value(s), s.old.this
        sb, lo = t.search_bound_, t.lower_bound_
        return index_ok(s) + [("stops", z3.Not(s.result)), ("value", z3.And(t.optimization.has, t.optimization.val == v)),
                ("upper", z3.And(t.upper_bound_.has, t.upper_bound_.val == v - 1)),
                ("search", z3.And(sb.has, MIN <= sb.val, z3.Or(sb.val <= v - 1, z3.And(lo.has, sb.val == lo.val + 1)))),
                ("search-lower", z3.Implies(lo.has, sb.val >= lo.val)), ("adjust", t.adjust_ >= 1),
                ("search-limit", z3.Implies(z3.And(sb.val < v - 1, z3.Not(lo.has)), o.adjust_ > 1)),
                ("reported", z3.And(s.g("reports") == s.old.g("reports") + 1, s.g("last") == v))]
    return Contract(O + "on_model", requires=req, ensures=ens, mode="exact", throws=lambda s: None,
                    modifies=["this.optimization", "this.upper_bound_", "this.search_bound_", "this.adjust_", "this.opt_cfg_.index"] + REPORT)


def in_force(s):
    """The bounds in force are the ones of the last call to prepare_."""
    t, b = s.this, z3.Int("b")
    ul, sl = t.upper_bound_last_, t.search_bound_last_
    on = s.g("sb_on")
    return [("upper-last", z3.And(s.g("ub_has") == ul.has, z3.Implies(ul.has, s.g("ub") == ul.val))),
            ("search-last", A([b], on[b], z3.And(sl.has, sl.val == b))),
            ("encoded", s.g("encoded"))]


def prepare_():
    def req(s):
        t = s.this
        up, ul, sb, sl = t.upper_bound_, t.upper_bound_last_, t.search_bound_, t.search_bound_last_
        return in_force(s) + [("decreasing", z3.Implies(ul.has, z3.And(up.has, up.val <= ul.val))), ("search", z3.Implies(sb.has, up.has))]

    def ens(s):
        t, b = s.this, z3.Int("b")
        up, ul, sb, sl = t.upper_bound_, t.upper_bound_last_, t.search_bound_, t.search_bound_last_
        return in_force(s) + [("upper", z3.And(ul.has == up.has, z3.Implies(up.has, ul.val == up.val))),
                              ("search", z3.If(sl.has, z3.And(sb.has, sb.val == sl.val), z3.Or(z3.Not(sb.has), sb.val == up.val)))]
    return Contract(O + "prepare_", requires=req, ensures=ens, modifies=["this.upper_bound_last_", "this.search_bound_last_"] + FORCE, mode="exact")


def solve():
    x, b = z3.Ints("x b")

    def req(s):
        t = s.this
        none = [z3.Not(getattr(t, f).has) for f in ("search_bound_", "search_bound_last_", "lower_bound_", "upper_bound_", "upper_bound_last_", "optimization")]
        return index_ok(s) + [("initial", z3.And(*none)), ("adjust", t.adjust_ == 1), ("factor", t.opt_cfg_.factor >= 1), ("none", s.g("reports") == 0),
                              ("no-bounds", z3.And(z3.Not(s.g("ub_has")), A([b], z3.BoolVal(True), z3.Not(s.g("sb_on")[b]))))]

    def inv(s):
        t, o = s.this, s.old.this
        up, ul, sb, sl, lo, op = t.upper_bound_, t.upper_bound_last_, t.search_bound_, t.search_bound_last_, t.lower_bound_, t.optimization
        cfg = t.opt_cfg_
        return in_force(s) + bounds(s) + index_ok(s) + [
            ("decreasing", z3.Implies(ul.has, z3.And(up.has, up.val <= ul.val))),
            ("found", z3.Implies(op.has, z3.And(up.has, up.val == op.val - 1, FEAS[op.val], s.g("reports") >= 1, s.g("last") == op.val))),
            ("none", z3.Implies(z3.Not(op.has), z3.And(s.g("reports") == 0, up.has == cfg.has_initial, z3.Implies(up.has, up.val == cfg.initial)))),
            ("search", sb.has == op.has), ("lower-found", z3.Implies(lo.has, op.has)), ("last-found", z3.Implies(sl.has, op.has)),
            ("search-lower", z3.Implies(z3.And(sb.has, lo.has), sb.val >= lo.val)),
            ("search-range", z3.Implies(sb.has, z3.Or(sb.val <= up.val, z3.And(lo.has, sb.val == lo.val + 1)))),
            ("range", z3.Implies(op.has, z3.And(MIN < op.val, op.val <= MAX))), ("lower-limit", z3.Implies(lo.has, op.val < MAX)),
            ("search-limit", z3.Implies(z3.And(sb.has, sb.val < up.val), op.val < MAX)), ("next-limit", z3.Implies(z3.And(lo.has, sb.val > up.val), op.val < MAX - 1)),
            ("adjusted", z3.Implies(t.adjust_ > 1, op.has))]

    def ens(s):
        t = s.this
        cfg = t.opt_cfg_
        done = z3.Not(s.g("interrupted"))
        return [("optimum", z3.Implies(z3.And(done, s.g("reports") > 0), z3.And(FEAS[s.g("last")], A([x], FEAS[x], x >= s.g("last"))))),
                ("no-solution", z3.Implies(z3.And(done, s.g("reports") == 0), A([x], FEAS[x], z3.And(cfg.has_initial, x > cfg.initial))))]
    return Contract(O + "solve", requires=req, ensures=ens, modifies=None, mode="exact", loops=[Loop(inv, name="steps")], throws=lambda s: None)


def call(f):
    c = f()
    c.assumed = True
    return c


def ctor():
    """A new optimizer has no bounds."""
    def ens(s):
        t = s.this
        return [(f, z3.Not(getattr(t, f).has)) for f in ("search_bound_", "search_bound_last_", "lower_bound_", "upper_bound_", "upper_bound_last_", "optimization")] + [("adjust", t.adjust_ == 1)]
    return Contract(O + "Optimizer", arity=3, ensures=ens, modifies=None, mode="exact")


def module():
    return [Module("optimizer", SRC, [ctor(), add_stats()], externals=EXTS, prepare=prep, filters=("ClingoDL", "clingodl")),
            Module("optimizer-bound", SRC, [get_bound()], externals=EXTS, prepare=prep, filters=("ClingoDL", "clingodl")),
            Module("optimizer-model", SRC, [get_bound(True), on_model()], externals=EXTS, prepare=prep, filters=("ClingoDL", "clingodl")),
            Module("optimizer-prepare", SRC, [prepare_()], externals=EXTS, prepare=prep, filters=("ClingoDL", "clingodl")),
            Module("optimizer-solve", SRC, [call(on_model), call(prepare_), solve()], externals=EXTS, prepare=prep, filters=("ClingoDL", "clingodl"))]


PROP = "OP"
def modules(tier):
    return module()
