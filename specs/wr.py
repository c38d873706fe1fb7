"""The C functions forward their arguments to the interface of the registered theory."""
import z3
from cxxwp.exec import Ext, LV, Ptr, Lam
from cxxwp.interp import Contract
from cxxwp.prove import Module
from cxxwp.ast import ToolLimit

I, B = z3.IntSort(), z3.BoolSort()
# what the parameters of the functions of the interface are
CALLS = {"has_value": ("thread", "value"), "get_value": ("thread", "value", "pointer"), "next": ("thread", "pointer"),
         "lookup_symbol": ("value", "pointer"), "get_symbol": ("value",), "extend_model": ("handle",), "on_statistics": ("handle", "second")}
ANSWER = {"has_value": B, "next": B, "lookup_symbol": B, "get_symbol": I}


def method(ex, obj, name, argn, n):
    """A call of the interface is recorded, its result is arbitrary."""
    if name not in CALLS:
        raise ToolLimit("method of interface " + name)
    ex.ghost_set("called " + name, z3.BoolVal(True))
    for what, a in zip(CALLS[name], argn):
        v = ex.rv(a)
        if what == "pointer":
            if not isinstance(v, Ptr) or v.lv is None or v.idx is not None or v.lv.key():
                raise ToolLimit("pointer argument")
            if not v.lv.root.startswith("*arg"):
                raise ToolLimit("pointer to something else than an argument")
            v = z3.StringVal(v.lv.root)
        if what in ("handle", "second"):
            if not isinstance(v, Ext) or v.kind != "wrapped":
                raise ToolLimit("wrapped argument")
            v = z3.StringVal(v.data["root"])
        ex.ghost_set(what, v)
    return ex.ghost_get("answer " + name) if name in ANSWER else None


def arrow(ex, name, v, args, n):
    if name not in ("operator->", "operator*"):
        raise ToolLimit("operator of owner")
    return Ext("facade")


def prepare(ex):
    for k in CALLS:
        ex.ghost_init("called " + k, B)
        ex.ghost_set("called " + k, z3.BoolVal(False))
    for k, so in ANSWER.items():
        ex.ghost_init("answer " + k, so)
    for k, so in (("thread", I), ("value", I), ("pointer", z3.StringSort()), ("handle", z3.StringSort()), ("second", z3.StringSort())):
        ex.ghost_init(k, so)


def forward(func, name, **args):
    """The function calls function `name` of the interface with the given arguments."""
    def ens(s):
        out = [("called", s.g("called " + name))]
        for what in CALLS[name]:
            k = args[what]
            out.append((what, s.g(what) == (z3.StringVal("*arg%d" % k) if what in ("pointer", "handle", "second") else s.arg(k))))
        if name in ANSWER:
            out.append(("result", s.result == s.g("answer " + name)))
        elif name != "get_value":
            out.append(("result", s.result))
        return out
    return Contract(func, mode="exact", ensures=ens, modifies=None, setup=lambda ex, fr, node: prepare(ex))


def begin():
    return Contract("clingodl_assignment_begin", mode="exact", modifies=["*arg2"], ensures=lambda s: [("first", s.deref(2) == 1)])


def queries():
    return [begin(), forward("clingodl_assignment_next", "next", thread=1, pointer=2),
            forward("clingodl_assignment_has_value", "has_value", thread=1, value=2),
            forward("clingodl_assignment_get_value", "get_value", thread=1, value=2, pointer=3)]


def symbols():
    return [forward("clingodl_lookup_symbol", "lookup_symbol", value=1, pointer=2), forward("clingodl_get_symbol", "get_symbol", value=1)]


def model():
    return [forward("clingodl_on_model", "extend_model", handle=1)]


ROOT = z3.Function("statistics_root", z3.StringSort(), I)


def pointee(ex, node):
    p = ex.rv(node)
    if not isinstance(p, Ptr) or p.lv is None or p.idx is not None or p.lv.key():
        raise ToolLimit("pointer to statistics")
    return p.lv


def x_root(ex, argn, n):
    s = pointee(ex, argn[0])
    ex.write(ex.st, pointee(ex, argn[1]), ROOT(z3.StringVal(s.root)))
    return z3.BoolVal(True)


def user_statistics(ex, n, args):
    """A node of the statistics, here only the root."""
    if len(args) == 1:
        return ex.rv(args[0])
    s = pointee(ex, args[0])
    ex.oblige("root", ex.rv(args[1]) == ROOT(z3.StringVal(s.root)), "call-pre")
    return Ext("wrapped", root=s.root)


def statistics():
    return [forward("clingodl_on_statistics", "on_statistics", handle=1, second=2)]


# -- callbacks registered with the solver
BACK = {"init": ("handle",), "propagate": ("handle", "span"), "undo": ("handle", "span"), "check": ("handle",), "decide": ("thread", "handle", "value")}


def wrapped(ex, n, args):
    """A wrapper of a C object."""
    p = ex.rv(args[0])
    if isinstance(p, Ext) and p.kind == "wrapped":
        return p
    if not isinstance(p, Ptr) or p.lv is None or p.idx is not None or p.lv.key():
        raise ToolLimit("wrapped object")
    if not p.lv.root.startswith("*arg"):
        raise ToolLimit("wrapped local object")
    return Ext("wrapped", root=p.lv.root)


def viewed(ex, n, args):
    """A view of an array given by pointer and length."""
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if len(args) != 2:
        return ex.rv(args[0])
    p = ex.rv(args[0])
    if not isinstance(p, Ptr) or p.lv is None or p.idx is not None:
        raise ToolLimit("view")
    return Ext("viewed", root=p.lv.root, size=ex.rv(args[1]))


def callback(ex, obj, name, argn, n):
    if name not in BACK:
        raise ToolLimit("method of propagator " + name)
    ex.ghost_set("called " + name, z3.BoolVal(True))
    if not isinstance(obj, LV) or obj.key() or not obj.root.startswith("*arg"):
        raise ToolLimit("propagator")
    ex.ghost_set("propagator", z3.StringVal(obj.root))
    for what, a in zip(BACK[name], argn):
        v = ex.rv(a)
        if what in ("handle", "span"):
            if not isinstance(v, Ext) or v.kind not in ("wrapped", "viewed"):
                raise ToolLimit("argument of callback %s" % (v,))
            if what == "span":
                ex.ghost_set("size", v.data["size"])
            v = z3.StringVal(v.data["root"])
        ex.ghost_set(what, v)
    return ex.ghost_get("answer decide") if name == "decide" else None


def back_setup(ex, fr, node):
    for k in BACK:
        ex.ghost_init("called " + k, B)
        ex.ghost_set("called " + k, z3.BoolVal(False))
    for k, so in (("thread", I), ("value", I), ("size", I), ("answer decide", I), ("handle", z3.StringSort()), ("span", z3.StringSort()), ("propagator", z3.StringSort())):
        ex.ghost_init(k, so)


def back(name, data, result=True, **args):
    """The callback calls the propagator behind pointer `data` with its own arguments."""
    def ens(s):
        out = [("called", s.g("called " + name)), ("propagator", s.g("propagator") == z3.StringVal("*arg%d" % data))]
        for what, k in args.items():
            out.append((what, s.g(what) == (z3.StringVal("*arg%d" % k) if what in ("handle", "span") else s.arg(k))))
        if result:
            out.append(("result", s.result))
        if name == "decide":
            out.append(("decision", s.deref(4) == s.g("answer decide")))
        return out
    return Contract(name, mode="exact", ensures=ens, modifies=None, setup=back_setup, targs=("int",), ptrs={data: "DLPropagator<int>", 4: "int"} if name == "decide" else {data: "DLPropagator<int>"})


BACKS = {"init": (1, {"handle": 0}), "propagate": (3, {"handle": 0, "span": 1, "size": 2}), "undo": (3, {"result": False, "handle": 0, "span": 1, "size": 2}),
         "check": (1, {"handle": 0}), "decide": (3, {"thread": 0, "handle": 1, "value": 2})}


def callbacks(*names):
    return [back(k, BACKS[k][0], **BACKS[k][1]) for k in names]


# -- rewriting of statements
def x_transform(ex, argn, n):
    """transform passes on statements (proved for C10); any of them reaches the callback unchanged."""
    v = ex.rv(argn[0])
    if not isinstance(v, Ext) or v.kind != "wrapped":
        raise ToolLimit("statement to transform")
    ex.ghost_set("statement", z3.StringVal(v.data["root"]))
    ex.ghost_set("shift", ex.rv(argn[2]))
    ex.ghost_set("called transform", z3.BoolVal(True))
    f = ex.rv(argn[1])
    if not isinstance(f, Lam):
        raise ToolLimit("callback of transform")
    x = z3.FreshConst(I, "statement")
    before = ex.ghost_get("passed")
    ex.call_lambda(f, vals=[Ext("astnode", ident=x)])
    ex.oblige("passed", ex.ghost_get("passed") == before + 1, "call-pre")
    ex.oblige("unchanged", ex.ghost_get("last") == x, "call-pre")


def m_ast(ex, obj, name, argn, n):
    if name != "to_c" or not isinstance(obj, Ext):
        raise ToolLimit("method of statement " + name)
    return obj


def x_add(ex, f, argn, n):
    v, d = ex.rv(argn[0]), ex.rv(argn[1])
    if not isinstance(v, Ext) or v.kind != "astnode":
        raise ToolLimit("statement passed on")
    ex.ghost_set("last", v.data["ident"])
    ex.ghost_set("passed", ex.ghost_get("passed") + 1)
    ex.oblige("data", z3.BoolVal(isinstance(d, Ptr) and d.lv is not None and d.lv.root == "*arg3" and not d.lv.key()), "call-pre")
    return z3.BoolVal(True)


def rewrite():
    def setup(ex, fr, node):
        for k, so in (("statement", z3.StringSort()), ("shift", B), ("called transform", B), ("passed", I), ("last", I)):
            ex.ghost_init(k, so)
        ex.ghost_set("called transform", z3.BoolVal(False))
        ex.ghost_set("passed", z3.IntVal(0))
        ex.st.mem[("arg2", ("@",))] = Ext("addfunction")
    return Contract("clingodl_rewrite_ast", mode="exact", modifies=None, setup=setup, ptrs={3: "int"},
                    ensures=lambda s: [("called", s.g("called transform")), ("statement", s.g("statement") == z3.StringVal("*arg1")),
                                       ("shift", s.g("shift") == s.old.deref(0).shift_constraints), ("result", s.result)])


OWNER = "std::unique_ptr<PropagatorFacade>"
EXTS = {"call:transform": x_transform, "call:clingo_ast_acquire": lambda ex, argn, n: None, "ctor:Clingo::AST::Node": wrapped, "method:astnode": m_ast,
        "invoke:addfunction": x_add,
        "call:clingo_statistics_root": x_root, "ctor:Clingo::UserStatistics": user_statistics, "ctor:Clingo::StatisticsBase<false>": user_statistics,
        "call:handle_error": lambda ex, argn, n: (ex.rv(argn[0]), None)[1],
        "method:DLPropagator<int>": callback, "method:facade": method, "method:PropagatorFacade": method}
for nm in (OWNER, "unique_ptr<PropagatorFacade>", "std::unique_ptr<(anonymous namespace)::PropagatorFacade>"):
    EXTS["op:" + nm] = arrow

for nm in ("PropagateInit", "PropagateControl", "Assignment", "Model"):
    EXTS["ctor:Clingo::" + nm] = wrapped
for nm in ("LiteralSpan", "Clingo::LiteralSpan", "Clingo::Span<int>", "Clingo::Span<const int>", "Clingo::Span<int, Clingo::Detail::EqualTo>", "Clingo::Span<clingo_literal_t>"):
    EXTS["ctor:" + nm] = viewed


def module(contracts):
    return Module("c-functions", "libclingo-dl/src/clingo-dl.cc", contracts, externals=EXTS, filters=("ClingoDL", "(anonymo", "clingodl"))
