"""Parsing of theory terms (parsing.cc).

Terms are numbered; their structure is given by functions. SIGMA is an arbitrary valuation of symbols, and the
valuation of an index is the one of the symbol it has been handed out for. TVAL is the value of a term under the
valuation and EV the symbol that a constant term denotes; both are given by their recursive definitions for the
term that is processed. P(a, v, n) is the value of the sum of the first n products."""
import z3
from cxxwp.exec import Ext, LV, Blob, Ptr, SpecCtx, fresh_name, sel, arr, FALSE, TRUE
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop, CHARS, trunc_div
from cxxwp.prove import Module
from . import c08, c09
from .pr import I, B
from .cy import A

SRC = "libclingo-dl/src/parsing.cc"
AI = z3.ArraySort(I, I)
LO, HI = -2 ** 31, 2 ** 31 - 1
INVALID = HI
SIGV = z3.Function("value_of_index", I, I)
P = z3.Function("sum_of_products", AI, AI, I, I)
UNF = z3.Function("unfold", AI, AI, I, B)
EXTM = z3.Function("same_prefix", AI, AI, AI, AI, I, B)
PUM = z3.Function("one_changed", AI, AI, AI, AI, I, I, B)
NEGM = z3.Function("rest_negated", AI, AI, AI, AI, I, I, B)


def VX(v):
    """Value of a variable; the invalid variable stands for the constant one."""
    return z3.If(v < INVALID, SIGV(v), 1)


def TV(c, v):
    return c * VX(v)


def facts(a, v, b, w, n, m, k):
    same = lambda i: z3.And(b[i] == a[i], w[i] == v[i])
    unf = P(a, v, n + 1) == P(a, v, n) + TV(a[n], v[n])
    ext = z3.Implies(A([k], z3.And(0 <= k, k < n), same(k)), P(b, w, n) == P(a, v, n))
    pum = z3.Implies(z3.And(0 <= m, m < n, A([k], z3.And(0 <= k, k < n, k != m), same(k))), P(b, w, n) - P(a, v, n) == TV(b[m], w[m]) - TV(a[m], v[m]))
    neg = z3.Implies(z3.And(0 <= m, m <= n, A([k], z3.And(0 <= k, k < m), same(k)), A([k], z3.And(m <= k, k < n), z3.And(b[k] == -a[k], w[k] == v[k]))),
                     P(b, w, n) - P(a, v, m) == -(P(a, v, n) - P(a, v, m)))
    return unf, ext, pum, neg


def consts():
    return z3.Const("sa", AI), z3.Const("sv", AI), z3.Const("sb", AI), z3.Const("sw", AI), z3.Int("sn"), z3.Int("sm"), z3.Int("sk")


def axioms():
    a, v, b, w, n, m, k = consts()
    unf, ext, pum, neg = facts(a, v, b, w, n, m, k)
    q = lambda vs, mk, f: z3.ForAll(vs, z3.And(mk, f), patterns=[mk])
    return [z3.ForAll([a, v], P(a, v, 0) == 0, patterns=[P(a, v, 0)]),
            q([a, v, n], UNF(a, v, n), z3.Implies(n >= 0, unf)), q([a, v, b, w, n], EXTM(a, v, b, w, n), ext),
            q([a, v, b, w, n, m], PUM(a, v, b, w, n, m), pum), q([a, v, b, w, n, m], NEGM(a, v, b, w, n, m), neg)]


def lemmas():
    """The axioms follow by induction over the length from the recursive definition of the sum."""
    a, v, b, w, n, m, k = consts()
    rec = lambda a, v, n: P(a, v, n) == z3.If(n <= 0, 0, P(a, v, n - 1) + TV(a[n - 1], v[n - 1]))
    out = [("unfold", [rec(a, v, n + 1), n >= 0], facts(a, v, b, w, n, m, k)[0])]
    for nm, i in (("prefix", 1), ("update", 2), ("negate", 3)):
        f = lambda n, i=i: facts(a, v, b, w, n, m, k)[i]
        out.append(("sum-%s-base" % nm, [rec(a, v, n), rec(b, w, n), n <= 0], f(n) if i != 3 else z3.Implies(n == 0, f(n))))
        d = [rec(a, v, n), rec(b, w, n), n > 0, f(n - 1)]
        if i != 1:
            # the sums of the common prefix are equal
            d += [facts(a, v, b, w, n - 1, m, k)[1], facts(a, v, b, w, n, m, k)[1]]
        out.append(("sum-%s-step" % nm, d, f(n)))
    return out


def arrays(view):
    ex, st, lv, ty = view._
    idxs = lv.idxs()
    return [sel(ex.get_mem(st, lv.root, lv.key() + ("[]", f), arr(AI, len(idxs))), idxs) for f in "01"]


def total(view, n=None):
    return P(*arrays(view), view.len if n is None else n)


def ranges(view, upto=None):
    k = z3.Int("rk")
    return ("ranges", A([k], z3.And(0 <= k, k < (view.len if upto is None else upto)), z3.And(LO <= view[k].first, view[k].first <= HI, 0 <= view[k].second, view[k].second <= INVALID)))


def rng(x):
    return z3.And(LO <= x, x <= HI)


def checked(f):
    def call(ex, argn, n):
        vs = [ex.rv(a) for a in argn]
        r = f(*vs)
        ex.fact(rng(r))
        ex.assumptions.add("checked arithmetic returns exact results or throws (C08)")
        return r
    return call


SAFE = {"call:safe_add": checked(lambda a, b: a + b), "call:safe_sub": checked(lambda a, b: a - b), "call:safe_mul": checked(lambda a, b: a * b),
        "call:safe_inv": checked(lambda a: -a)}


# -- simplification ----------------------------------------------------------
def simplify(assumed=False):
    def seen(l):
        r = [x for x in l.ex.statics.values()][0]
        from cxxwp.exec import mkview
        return mkview(l.ex, l.st, r, r.ty)

    def kept(l):
        v, j, i, k, x = l.arg(0), l.local("jt").idx, l.i, *z3.Ints("vk vx")
        m = seen(l)
        o = l.old.arg(0)
        return [("index", z3.And(0 <= j, j <= i, i <= v.len, v.len == o.len)),
                ("found", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.And(v[k].second < INVALID, m.has(v[k].second), m.val(v[k].second) == k)), patterns=c09.trigger(m.has(v[k].second)))),
                ("indexed", z3.ForAll([x], z3.Implies(m.has(x), z3.And(0 <= m.val(x), m.val(x) < j, v[m.val(x)].second == x)), patterns=c09.trigger(m.has(x)))),
                ("rest", A([k], z3.And(i <= k, k < v.len), z3.And(v[k].first == o[k].first, v[k].second == o[k].second))),
                ranges(v), ("sum", total(v, j) - l.local("rhs") == total(o, i))]

    def step(l):
        h, v, o, i = l.head, l.arg(0), l.old.arg(0), l.i - 1
        j, nj, m, hm, hv = h.local("jt").idx, l.local("jt").idx, seen(l), seen_at(l, l.head_st), h.arg(0)
        co, var = o[i].first, o[i].second
        p = hm.val(var)
        k, x = z3.Ints("vk vx")
        same = lambda k: z3.And(v[k].first == hv[k].first, v[k].second == hv[k].second)
        smap = A([x], z3.BoolVal(True), z3.And(m.has(x) == hm.has(x), m.val(x) == hm.val(x)))
        skip = z3.Or(co == 0, var >= INVALID)
        new = z3.And(z3.Not(skip), z3.Not(hm.has(var)))
        merge = z3.And(z3.Not(skip), hm.has(var))
        return [("length", v.len == hv.len), ("current", z3.And(hv[i].first == co, hv[i].second == var, rng(co), 0 <= var, var <= INVALID)),
                ("skip", z3.Implies(skip, z3.And(nj == j, smap, A([k], z3.BoolVal(True), same(k))))),
                ("merge", z3.Implies(merge, z3.And(nj == j, smap, 0 <= p, p < j, hv[p].second == var, A([k], k != p, same(k)), v[p].second == var, v[p].first == hv[p].first + co, rng(v[p].first)))),
                ("new", z3.Implies(new, z3.And(nj == j + 1, A([k], k != j, same(k)), v[j].first == co, v[j].second == var, m.has(var), m.val(var) == j,
                                               A([x], x != var, z3.And(m.has(x) == hm.has(x), m.val(x) == hm.val(x)))))),
                ("unfold", UNF(*arrays(o), i)), ("prefix", EXTM(*arrays(hv), *arrays(v), j)), ("last", UNF(*arrays(v), j)),
                ("changed", PUM(*arrays(hv), *arrays(v), j, p)),
                ("rhs", l.local("rhs") == h.local("rhs") - z3.If(z3.And(co != 0, var >= INVALID), co, 0)),
                ("sum-skip", z3.Implies(skip, total(v, nj) - l.local("rhs") == total(o, l.i))), ("sum-merge", z3.Implies(merge, total(v, nj) - l.local("rhs") == total(o, l.i))),
                ("sum-new", z3.Implies(new, total(v, nj) - l.local("rhs") == total(o, l.i)))]

    def seen_at(l, st):
        from cxxwp.exec import mkview
        r = [x for x in l.ex.statics.values()][0]
        return mkview(l.ex, st, r, r.ty)

    def removed(l):
        v, o, i, j = l.arg(0), l.entry.arg(0), l.local("$it"), l.local("$jt")
        k, m = z3.Ints("vk vm")
        return [("rest", A([k], z3.And(i <= k, k < l.end), z3.And(v[k].first == o[k].first, v[k].second == o[k].second))), ("length", v.len == o.len),
                ("kept", A([k], z3.And(0 <= k, k < j), z3.And(v[k].first != 0, v[k].second < INVALID))),
                ("distinct", A([k, m], z3.And(0 <= k, k < m, m < j), v[k].second != v[m].second)),
                ("different", A([k, m], z3.And(0 <= k, k < j, i <= m, m < l.end), v[k].second != v[m].second)),
                ranges(v), ("sum", total(v, j) == total(o, i))]

    def rentry(l):
        v, m, k, x = l.arg(0), seen(l), *z3.Ints("vk vm")
        return [("listed", A([k], z3.And(0 <= k, k < l.end), z3.And(v[k].second < INVALID, m.val(v[k].second) == k))),
                ("pairwise", A([k, x], z3.And(0 <= k, k < x, x < l.end), v[k].second != v[x].second), ["listed"])]

    def rstep(l):
        v, o, h = l.arg(0), l.entry.arg(0), l.head
        i, j = h.local("$it"), h.local("$jt")
        return [("unfold", UNF(*arrays(o), i)), ("prefix", EXTM(*arrays(h.arg(0)), *arrays(v), j)), ("new", UNF(*arrays(v), j))]

    def ens(s):
        v, k, m = s.arg(0), *z3.Ints("vk vm")
        return [("sum", total(v) - s.result == total(s.old.arg(0))), ranges(v),
                ("no zeros", A([k], z3.And(0 <= k, k < v.len), z3.And(v[k].first != 0, v[k].second < INVALID))),
                ("distinct", A([k, m], z3.And(0 <= k, k < m, m < v.len), v[k].second != v[m].second))]
    return Contract("simplify", targs=["int"], mode="exact", assumed=assumed, requires=lambda s: [ranges(s.arg(0))], ensures=ens, defs=lambda s: axioms(), modifies=["arg0"],
                    loops=[Loop(kept, name="merge", step_cuts=step), Loop(removed, name="remove", entry_cuts=rentry, step_cuts=rstep)])


# -- numbers in strings --------------------------------------------------------
CH = z3.Const("$chars.[]", AI)
LEN = z3.Function("strlen", I, I)
STRTOD = z3.Function("strtod", I, z3.RealSort())       # the number at the start of the text at an address
STREND = z3.Function("strtod_end", I, I)               # the address following the number
QUOTE = 34


def x_strlen(ex, argn, n):
    p = ex.rv(argn[0])
    if not (isinstance(p, Ptr) and p.lv is CHARS):
        raise ToolLimit("strlen")
    ex.fact(z3.And(LEN(p.idx) >= 0, LEN(p.idx) < 2 ** 31))
    return LEN(p.idx)


def x_strtod(ex, argn, n):
    p, q = ex.rv(argn[0]), ex.rv(argn[1])
    if not (isinstance(p, Ptr) and p.lv is CHARS and isinstance(q, Ptr)):
        raise ToolLimit("strtod")
    ex.write(ex.st, q.lv, Ptr(CHARS, STREND(p.idx)))
    ex.assumptions.add("strtod is a function of the text")
    return STRTOD(p.idx)


def is_number(a):
    """The text at the address is a quoted number."""
    n = LEN(a)
    return z3.And(n >= 2, CH[a] == QUOTE, CH[a + n - 1] == QUOTE, STREND(a + 1) == a + n - 1)


def number(a):
    return STRTOD(a + 1)


def parse_number(assumed=False):
    def ens(s):
        a, has, val = s.argobj(0).idx, s.result.leaves[("has",)], s.result.leaves[("val",)]
        return [("number", has == is_number(a)), ("value", z3.Implies(has, z3.And(z3.ToReal(val) == number(a), rng(val))))]

    def thr(s):
        x = number(s.argobj(0).idx)
        return [("no-integer", z3.And(is_number(s.argobj(0).idx), z3.Or(x != z3.ToReal(z3.ToInt(x)), x < LO, x > HI)))]
    return Contract("parse_number", targs=["int"], mode="exact", casts=True, assumed=assumed, modifies=[], ensures=ens, ensures_throw=thr)


NUMEXTS = {"call:strlen": x_strlen, "call:strtod": x_strtod}


# -- terms and symbols -----------------------------------------------------------
TYPES = {"Tuple": 0, "List": 1, "Set": 2, "Function": 3, "Number": 4, "Symbol": 5}
SYMTYPES = {"Infimum": 0, "Number": 1, "String": 4, "Function": 5, "Supremum": 7}
TYPE, NUM, NAME, NARGS = (z3.Function("term_" + x, I, I) for x in ("type", "number", "name", "arity"))
ARG = z3.Function("term_argument", I, I, I)
SYMTYPE, SYMNUM, SYMNAME, SYMARGS = (z3.Function("symbol_" + x, I, I) for x in ("type", "number", "name", "arity"))
SYMPOS = z3.Function("symbol_positive", I, B)
SYMARG = z3.Function("symbol_argument", I, I, I)
EV = z3.Function("denoted_symbol", I, I)
NUMSYM = z3.Function("number_symbol", I, I)
STRSYM = z3.Function("string_symbol", I, I)
SAME = z3.Function("compare_symbols", I, I, B)
TVAL = z3.Function("value_of_term", I, I)
SIGMA = z3.Function("value_of_symbol", I, I)


def text(a, txt):
    return z3.And(*[CH[a + i] == c for i, c in enumerate(list(txt.encode("latin-1")) + [0])])


def fn(t, name, arity):
    return z3.And(TYPE(t) == TYPES["Function"], text(NAME(t), name), NARGS(t) == arity)


def structure():
    """Numbers are symbols; symbols are equal if they have the same structure."""
    x, y, k = z3.Int("sx"), z3.Int("sy"), z3.Int("sk")
    return [z3.ForAll([x], z3.And(SYMTYPE(NUMSYM(x)) == SYMTYPES["Number"], SYMNUM(NUMSYM(x)) == x), patterns=[NUMSYM(x)]),
            z3.ForAll([x], SYMTYPE(STRSYM(x)) == SYMTYPES["String"], patterns=[STRSYM(x)]),
            z3.ForAll([x, y], z3.And(SAME(x, y), z3.Implies(z3.And(SYMTYPE(x) == SYMTYPES["Function"], SYMTYPE(y) == SYMTYPES["Function"], SYMNAME(x) == SYMNAME(y), SYMPOS(x) == SYMPOS(y),
                                                                   SYMARGS(x) == SYMARGS(y), A([k], z3.And(0 <= k, k < SYMARGS(x)), SYMARG(x, k) == SYMARG(y, k))), x == y)), patterns=[SAME(x, y)])]


def function(x, name, pos, n, arg):
    k = z3.Int("sk")
    return z3.And(SYMTYPE(x) == SYMTYPES["Function"], SYMNAME(x) == name, SYMPOS(x) == pos, SYMARGS(x) == n, A([k], z3.And(0 <= k, k < n), SYMARG(x, k) == arg(k)))


def arithmetic():
    return {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": trunc_div, "\\": lambda a, b: a - b * trunc_div(a, b),
            "**": lambda a, b: c08.trunc(c08.POW(a, b))}


def ev_def(ex, t):
    """The symbol that a constant term denotes."""
    e, a, b = EV(t), EV(ARG(t, 0)), EV(ARG(t, 1))
    num = lambda x: SYMTYPE(x) == SYMTYPES["Number"]
    neg = z3.If(num(a), e == NUMSYM(-SYMNUM(a)), function(e, SYMNAME(a), z3.Not(SYMPOS(a)), SYMARGS(a), lambda k: SYMARG(a, k)))
    name = z3.If(TYPE(t) == TYPES["Function"], NAME(t), ex.str_const("").idx)
    f = function(e, name, z3.BoolVal(True), NARGS(t), lambda k: EV(ARG(t, k)))
    f = z3.If(fn(t, "-", 1), neg, f)
    for op, g in arithmetic().items():
        f = z3.If(fn(t, op, 2), e == NUMSYM(g(SYMNUM(a), SYMNUM(b))), f)
    f = z3.If(TYPE(t) == TYPES["Number"], e == NUMSYM(NUM(t)), f)
    sym = z3.If(CH[NAME(t)] == QUOTE, e == STRSYM(NAME(t)), function(e, NAME(t), z3.BoolVal(True), 0, lambda k: k))
    return [z3.If(TYPE(t) == TYPES["Symbol"], sym, f)]


def m_term(ex, obj, name, argn, n):
    t = obj.data["idx"] if isinstance(obj, Ext) else ex.to_rv(obj, ("opq", "Clingo::TheoryTerm"))
    t = t.data["idx"] if isinstance(t, Ext) else t
    if name == "type":
        ex.fact(z3.And(TYPE(t) >= 0, TYPE(t) < len(TYPES)))
        return TYPE(t)
    if name == "number":
        ex.fact(rng(NUM(t)))
        return NUM(t)
    if name == "name":
        ex.fact(z3.And(NAME(t) >= 0, NAME(t) < 900000))
        return Ptr(CHARS, NAME(t))
    if name == "arguments":
        ex.fact(z3.And(NARGS(t) >= 0, NARGS(t) < 2 ** 30))
        return Ext("targs", idx=t, range=lambda ex, r: (NARGS(t), lambda i: Ext("tterm", idx=ARG(t, i)), ("opq", "Clingo::TheoryTerm")))
    raise ToolLimit("method of terms " + name)


def m_targs(ex, obj, name, argn, n):
    t = obj.data["idx"]
    if name in ("front", "back"):
        ex.oblige("arguments", NARGS(t) > 0, "bounds")
        return Ext("tterm", idx=ARG(t, 0 if name == "front" else NARGS(t) - 1))
    if name == "size":
        return NARGS(t)
    if name == "empty":
        return NARGS(t) == 0
    raise ToolLimit("method of arguments " + name)


def p_term(ex, name, p):
    return Ext("tterm", idx=z3.Const(name, I))


def p_map(ex, name, p):
    return Ext("map_vert")


def x_map(ex, f, argn, n):
    """Indices are handed out for symbols (C09)."""
    x = ex.rv(argn[0])
    v = z3.FreshConst(I, "vertex")
    ex.fact(z3.And(0 <= v, v < INVALID, SIGV(v) == SIGMA(x)))
    ex.assumptions.add("the given function maps symbols to valid indices; the value of an index is the one of its symbol (C09)")
    return v


def m_symbol(ex, obj, name, argn, n):
    x = ex.read(ex.st, obj, ("opq", "Clingo::Symbol")) if isinstance(obj, LV) else obj
    if name == "type":
        return SYMTYPE(x)
    if name == "number":
        ex.fact(rng(SYMNUM(x)))
        return SYMNUM(x)
    if name == "is_positive":
        return SYMPOS(x)
    if name == "name":
        ex.fact(z3.And(SYMNAME(x) >= 0, SYMNAME(x) < 900000))
        return Ptr(CHARS, SYMNAME(x))
    if name == "string":
        return Ext("strof", sym=x)
    if name == "arguments":
        ex.fact(z3.And(SYMARGS(x) >= 0, SYMARGS(x) < 2 ** 30))
        return Ext("symargs", sym=x)
    raise ToolLimit("method of symbols " + name)


def x_number(ex, argn, n):
    x = ex.rv(argn[0])
    ex.fact(z3.And(SYMTYPE(NUMSYM(x)) == SYMTYPES["Number"], SYMNUM(NUMSYM(x)) == x))
    return NUMSYM(x)


def x_string(ex, argn, n):
    v = ex.ev(argn[0])
    if isinstance(v, Ext) and v.kind == "unquoted":
        return STRSYM(v.data["addr"])
    raise ToolLimit("string symbol")


def x_unquote(ex, argn, n):
    p = ex.rv(argn[0])
    if not (isinstance(p, Ptr) and p.lv is CHARS):
        raise ToolLimit("unquote")
    return Ext("unquoted", addr=p.idx)


STOD = z3.Function("number_in_string", I, z3.RealSort())


def x_stod(ex, argn, n):
    a = argn[0]
    while a["kind"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXConstructExpr", "ExprWithCleanups"):
        a = [c for c in a["inner"] if "kind" in c][0]
    v = ex.ev(a)
    if isinstance(v, Ext) and v.kind == "strof":
        return STOD(v.data["sym"])
    raise ToolLimit("stod")


def x_cstr(ex, obj, name, argn, n):
    if name == "c_str":
        return obj
    raise ToolLimit("string method " + name)


def x_strncmp(ex, argn, n):
    a, b, k = ex.rv(argn[0]), ex.rv(argn[1]), z3.simplify(ex.rv(argn[2]))
    inv = {v: t for t, v in ex.strings.items()}
    txt = inv.get(z3.simplify(b.idx).as_long()) if z3.is_int_value(z3.simplify(b.idx)) else None
    if txt is None or not z3.is_int_value(k) or k.as_long() > len(txt):
        raise ToolLimit("strncmp")
    return z3.If(z3.And(*[CH[a.idx + i] == ord(txt[i]) for i in range(k.as_long())]), 0, 1)


def span(ex, n, args):
    if not args or args[0].get("kind") == "CXXDefaultArgExpr":
        return Ext("list", items=[])
    v = ex.ev(args[0])
    if isinstance(v, LV):
        v = LV(v.root, v.path, v.ty or ex.ety(args[0]))
    return v if isinstance(v, (LV, Ext)) else Ext("symlist", blob=v)


def x_function(ex, argn, n):
    p, args = ex.rv(argn[0]), ex.ev(argn[1])
    pos = ex.rv(argn[2]) if len(argn) > 2 and argn[2].get("kind") != "CXXDefaultArgExpr" else z3.BoolVal(True)
    x = z3.FreshConst(I, "symbol")
    if isinstance(args, Ext) and args.kind == "symargs":
        a = args.data["sym"]
        f = function(x, p.idx, pos, SYMARGS(a), lambda k: SYMARG(a, k))
    elif isinstance(args, LV) and args.ty and args.ty[0] == "vec":
        arr_ = ex.get_mem(ex.st, args.root, args.key() + ("[]",), AI)
        ln = ex.read_leaf(ex.st, args, ("len",), I)
        f = function(x, p.idx, pos, ln, lambda k: arr_[k])
    elif isinstance(args, Ext) and args.kind == "list" and not args.data["items"]:
        f = function(x, p.idx, pos, z3.IntVal(0), lambda k: k)
    else:
        raise ToolLimit("arguments of function symbol")
    ex.fact(f)
    return x


def enums(t, name):
    if t.endswith("TheoryTermType"):
        return TYPES.get(name)
    if t.endswith("SymbolType"):
        return SYMTYPES.get(name)
    return None


def evaluate(assumed=False):
    def ens(s):
        return [("symbol", s.result == EV(tid(s.argobj(0))))]

    def inv(l):
        a, k, t = l.local("args"), z3.Int("k"), tid(l.argobj(0))
        return [("evaluated", z3.And(a.len == l.i, A([k], z3.And(0 <= k, k < l.i), a[k] == EV(ARG(t, k)))))]
    return Contract("evaluate", targs=["int"], mode="exact", assumed=assumed, modifies=[], ensures=ens, defs=lambda s: structure() + ev_def(s.ex, tid(s.argobj(0))),
                    post_cuts=lambda s: [("same", SAME(s.result, EV(tid(s.argobj(0)))))], loops=[Loop(inv, name="arguments")])


def tid(x):
    return x.data["idx"]


def safe():
    out = []
    for c in c08.contracts():
        c.assumed = True
        out.append(c)
    return out


TERM = {"method:tterm": m_term, "method:Clingo::TheoryTerm": m_term, "method:targs": m_targs, "param:Clingo::TheoryTerm": p_term, "method:Clingo::Symbol": m_symbol, "enum": enums}
EVEXTS = dict(TERM)
EVEXTS.update({"call:Number": x_number, "call:String": x_string, "call:unquote": x_unquote, "method:unquoted": x_cstr, "call:strncmp": x_strncmp, "call:Function": x_function,
               "ctor:Clingo::Span<Clingo::Symbol>": span, "ctor:Clingo::Span<const Clingo::Symbol>": span, "call:strlen": x_strlen, "call:stod": x_stod})


# -- linear terms ----------------------------------------------------------------
def tval_def(ex, t):
    """The value of a term under the valuation of symbols."""
    f = z3.IntVal(0)
    for _, c, v in reversed(tcases(t)):
        f = z3.If(c, v, f)
    return [TVAL(t) == f]


def tcases(t):
    a, b, e = TVAL(ARG(t, 0)), TVAL(ARG(t, 1)), EV(t)
    num = is_number(NAME(t))
    return [("number", TYPE(t) == TYPES["Number"], NUM(t)), ("sum", fn(t, "+", 2), a + b), ("difference", fn(t, "-", 2), a - b), ("inverse", fn(t, "-", 1), -a), ("plus", fn(t, "+", 1), a), ("product", fn(t, "*", 2), a * b),
            ("string", z3.And(TYPE(t) == TYPES["Symbol"], num), z3.ToInt(number(NAME(t)))), ("constant", TYPE(t) == TYPES["Symbol"], SIGMA(e)),
            ("evaluated", SYMTYPE(e) == SYMTYPES["Number"], SYMNUM(e)), ("variable", z3.BoolVal(True), SIGMA(e))]


def defs_term(s):
    t = tid(s.argobj(0))
    return axioms() + structure() + ev_def(s.ex, t) + tval_def(s.ex, t)


def value(v, o, t, f=1):
    return total(v) - total(o) == f * TVAL(t)


def kept(v, o):
    k = z3.Int("ek")
    return ("kept", z3.And(v.len >= o.len, A([k], z3.And(0 <= k, k < o.len), z3.And(v[k].first == o[k].first, v[k].second == o[k].second))))


def same_as(v, o, lo, hi, sign=1):
    k = z3.Int("ek")
    return A([k], z3.And(lo <= k, k < hi), z3.And(v[k].first == sign * o[k].first, v[k].second == o[k].second))


def parse_elem(assumed=False):
    def ens(s):
        v, o, t = s.arg(2), s.old.arg(2), tid(s.argobj(0))
        return [kept(v, o), ranges(v), ("prefix", total(v, o.len) == total(o)), ("value", value(v, o, t))]

    def cuts(s):
        v, o = s.arg(2), s.old.arg(2)
        out, before = [("prefix", EXTM(*arrays(o), *arrays(v), o.len)), ("last", UNF(*arrays(v), o.len))], z3.BoolVal(True)
        for nm, c, x in tcases(tid(s.argobj(0))):
            out.append(("value-" + nm, z3.Implies(z3.And(before, c), total(v) - total(o) == x)))
            before = z3.And(before, z3.Not(c))
        return out

    def thr(s):
        t = tid(s.argobj(0))
        out = z3.Or(fn(t, "*", 2), TYPE(t) == TYPES["List"], TYPE(t) == TYPES["Set"])
        try:
            x, y, i, j = s.local("lhs"), s.local("rhs"), *z3.Ints("ti tj")
        except (ToolLimit, KeyError):
            return [("unsupported", out)]
        return [("unsupported", out), ("products", z3.Implies(fn(t, "*", 2), z3.Exists([i, j], z3.And(0 <= i, i < x.len, 0 <= j, j < y.len, x[i].second < INVALID, y[j].second < INVALID))))]

    def negated(l):
        # the elements added for the negated term
        v, o, i = l.arg(2), l.entry.arg(2), l.i
        p = l.local("pos")
        return [("index", z3.And(p <= i, i <= v.len, v.len == o.len)), ("inverse", same_as(v, o, p, i, -1)), ("rest", z3.And(same_as(v, o, 0, p), same_as(v, o, i, v.len))), ranges(v)]

    def nexit(l):
        v, o = l.arg(2), l.entry.arg(2)
        return [("all", l.i == v.len), ("negated", NEGM(*arrays(o), *arrays(v), v.len, l.local("pos"))), ("start", EXTM(*arrays(o), *arrays(v), l.local("pos"))),
                ("value", total(v) - total(v, l.local("pos")) == -(total(o) - total(o, l.local("pos"))))]

    def outer(l):
        v, o, x, y = l.arg(2), l.entry.arg(2), l.local("lhs"), l.local("rhs")
        return [kept(v, o), ranges(v), ("product", total(v) - total(o) == total(x, l.i) * total(y))]

    def ostep(l):
        v, o, h, x, y = l.arg(2), l.entry.arg(2), l.head.arg(2), l.local("lhs"), l.local("rhs")
        i = l.i - 1
        return [("unfold", UNF(*arrays(x), i)), ("added", total(v) - total(h) == TV(x[i].first, x[i].second) * total(y)),
                ("distribute", (total(x, i) + TV(x[i].first, x[i].second)) * total(y) == total(x, i) * total(y) + TV(x[i].first, x[i].second) * total(y))]

    def inner(l):
        v, o, x, y = l.arg(2), l.entry.arg(2), l.local("lhs"), l.local("rhs")
        i = l.loop("product").i
        t = TV(x[i].first, x[i].second)
        return [kept(v, o), ranges(v), ("product", total(v) - total(o) == t * total(y, l.i))]

    def istep(l):
        v, h, x, y = l.arg(2), l.head.arg(2), l.local("lhs"), l.local("rhs")
        i, j = l.loop("product").i, l.i - 1
        t, u, n = TV(x[i].first, x[i].second), TV(y[j].first, y[j].second), h.len
        return [("prefix", EXTM(*arrays(h), *arrays(v), n)), ("last", UNF(*arrays(v), n)), ("unfold", UNF(*arrays(y), j)),
                ("new", TV(v[n].first, v[n].second) == t * u), ("distribute", t * (total(y, j) + u) == t * total(y, j) + t * u)]
    return Contract("parse_elem", targs=["int"], mode="exact", casts=True, assumed=assumed, modifies=["arg2"], requires=lambda s: [ranges(s.arg(2))], ensures=ens, defs=defs_term, post_cuts=cuts, ensures_throw=thr,
                    loops=[Loop(negated, name="difference", exit_cuts=nexit), Loop(negated, name="inverse", exit_cuts=nexit),
                           Loop(outer, name="product", step_cuts=ostep), Loop(inner, name="factor", step_cuts=istep)])


PEXTS = dict(TERM)
PEXTS.update(SAFE)
PEXTS.update({"param:std::function<int (Clingo::Symbol)>": p_map, "invoke:map_vert": x_map, "call:stod": x_stod})


# -- atoms -----------------------------------------------------------------------
ATERM, GTERM, GREL, ALIT, NELEM = (z3.Function("atom_" + x, I, I) for x in ("term", "right_side", "relation", "literal", "elements"))
GUARD = z3.Function("atom_has_guard", I, B)
ETUPLE, ECOND = z3.Function("tuple_of_element", I, I, I), z3.Function("condition_of_element", I, I, I)


def p_atom(ex, name, p):
    return Ext("tatom", idx=z3.Const(name, I))


def m_atom(ex, obj, name, argn, n):
    a = obj.data["idx"]
    if name == "has_guard":
        return GUARD(a)
    if name == "term":
        return Ext("tterm", idx=ATERM(a))
    if name == "literal":
        ex.fact(rng(ALIT(a)))
        return ALIT(a)
    if name == "guard":
        ex.oblige("guard", GUARD(a), "pre")
        ex.fact(z3.And(GREL(a) >= 0, GREL(a) < 900000))
        return Ext("guard", atom=a)
    if name == "elements":
        ex.fact(z3.And(NELEM(a) >= 0, NELEM(a) < 2 ** 30))
        return Ext("elements", atom=a, range=lambda ex, r: (NELEM(a), lambda i: Ext("element", atom=a, idx=i), ("opq", "Clingo::TheoryElement")))
    raise ToolLimit("method of atoms " + name)


def f_guard(ex, obj, name, n):
    a = obj.data["atom"]
    return Ptr(CHARS, GREL(a)) if name == "first" else Ext("tterm", idx=GTERM(a))


def m_elements(ex, obj, name, argn, n):
    if name == "size":
        return NELEM(obj.data["atom"])
    raise ToolLimit("method of elements " + name)


def m_element(ex, obj, name, argn, n):
    a, i = obj.data["atom"], obj.data["idx"]
    if name == "tuple":
        t = ETUPLE(a, i)
        ex.fact(z3.And(NARGS(t) >= 0, NARGS(t) < 2 ** 30))
        return Ext("targs", idx=t)
    if name == "condition":
        c = ECOND(a, i)
        ex.fact(c >= 0)
        return Ext("condition", len=c)
    raise ToolLimit("method of elements " + name)


def m_condition(ex, obj, name, argn, n):
    if name == "empty":
        return obj.data["len"] == 0
    if name == "size":
        return obj.data["len"]
    raise ToolLimit("method of conditions " + name)


def parse():
    def aid(s):
        return tid(s.argobj(0))

    def side(s):
        return TVAL(GTERM(aid(s)))

    def left(s, n):
        a = aid(s)
        return z3.If(n > 0, TVAL(ARG(ETUPLE(a, 0), 0)), 0)

    def ens(s):
        a, r = aid(s), s.result
        arrs, n, k, m = [r.leaves[("lhs", "[]", f)] for f in "01"], r.leaves[("lhs", "len")], *z3.Ints("pk pm")
        return [("value", P(*arrs, n) - r.leaves[("rhs",)] == left(s, NELEM(a)) - side(s)), ("literal", r.leaves[("literal",)] == ALIT(a)),
                ("relation", r.objs[("rel", "@")].idx == GREL(a)), ("strict", r.leaves[("strict",)] == z3.And(z3.Or(TYPE(ATERM(a)) == TYPES["Symbol"], z3.And(TYPE(ATERM(a)) == TYPES["Function"], NARGS(ATERM(a)) == 0)), text(NAME(ATERM(a)), "__diff_b"))),
                ("syntax", z3.And(GUARD(a), NELEM(a) <= 1, z3.Implies(NELEM(a) == 1, z3.And(NARGS(ETUPLE(a, 0)) > 0, ECOND(a, 0) == 0)))),
                ("coefficients", A([k], z3.And(0 <= k, k < n), z3.And(arrs[0][k] != 0, rng(arrs[0][k]), 0 <= arrs[1][k], arrs[1][k] < INVALID))),
                ("distinct", A([k, m], z3.And(0 <= k, k < m, m < n), arrs[1][k] != arrs[1][m]))]

    def negated(l):
        v, o, i = l.local("covec"), l.entry.local("covec"), l.i
        return [("length", v.len == o.len), ("inverse", same_as(v, o, 0, i, -1)), ("rest", same_as(v, o, i, v.len)), ranges(v)]

    def nexit(l):
        v, o = l.local("covec"), l.entry.local("covec")
        return [("negated", NEGM(*arrays(o), *arrays(v), v.len, z3.IntVal(0))), ("value", total(v) == -side(l))]

    def elements(l):
        v = l.local("covec")
        return [ranges(v), ("value", total(v) == left(l, l.i) - side(l)), ("syntax", z3.Implies(l.i > 0, z3.And(NARGS(ETUPLE(aid(l), 0)) > 0, ECOND(aid(l), 0) == 0)))]
    return Contract("parse", targs=["int"], mode="exact", modifies=[], ensures=ens, defs=lambda s: axioms(), loops=[Loop(negated, name="negate", exit_cuts=nexit), Loop(elements, name="elements")])


AEXTS = dict(PEXTS)
AEXTS.update({"global:is_floating_point_v": lambda ex, *a: z3.BoolVal(False), "param:Clingo::TheoryAtom": p_atom, "method:Clingo::TheoryAtom": m_atom, "method:tatom": m_atom, "member:guard": f_guard, "method:elements": m_elements, "method:element": m_element, "method:condition": m_condition})


EXTS = dict(SAFE)
PROP = "PS"


def modules(tier):
    return [Module("simplify", SRC, [simplify()], externals=EXTS, lemmas=lemmas()), Module("evaluate", SRC, safe() + [evaluate(), evaluate(True)], externals=EVEXTS), Module("terms", SRC, [evaluate(True), parse_number(True), parse_elem(), parse_elem(True)], externals=PEXTS), Module("atoms", SRC, [parse_elem(True), simplify(True), parse()], externals=AEXTS), Module("numbers", SRC, [parse_number()], externals=NUMEXTS)]
