"""Specifications of the option parsers (C11, C12)."""
import z3
from cxxwp.exec import Ext, Ptr, iv, mk_and, fresh_name
from cxxwp.interp import Contract, Loop

I, B = z3.IntSort(), z3.BoolSort()
CH = z3.Const("$chars.[]", z3.ArraySort(I, I))
MAX = 2 ** 64 - 1
LEN = z3.Function("strlen", I, I)      # length of the zero terminated string at an address
DIG = z3.Function("digits", I, I)      # number of leading digits of the string at an address
NUM = z3.Function("number", I, I, I)   # value of the first k digits at an address


def c(i):
    return z3.Select(CH, i)


def low(x):
    return z3.If(z3.And(x >= 65, x <= 90), x + 32, x)


def isdigit(x):
    return z3.And(48 <= x, x <= 57)


def def_len(p):
    k = z3.Int("k")
    return [LEN(p) >= 0, c(p + LEN(p)) == 0, z3.ForAll([k], z3.Implies(z3.And(p <= k, k < p + LEN(p)), c(k) != 0))]


def def_num(p):
    """Defining equations of DIG and NUM at an address (and facts proved as lemmas)."""
    k = z3.Int("k")
    q = z3.Int(fresh_name("address"))
    q, eq = (p, []) if z3.is_const(p) and not z3.is_int_value(p) else (q, [q == p])
    p = q
    return eq + [DIG(p) >= 0, z3.Not(isdigit(c(p + DIG(p)))),
            z3.ForAll([k], z3.Implies(z3.And(p <= k, k < p + DIG(p)), isdigit(c(k)))),
            NUM(p, 0) == 0, NUM(p, DIG(p)) >= 0,
            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < DIG(p)), NUM(p, k + 1) == NUM(p, k) * 10 + (c(p + k) - 48)), patterns=[NUM(p, k)]),
            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= DIG(p)), z3.And(0 <= NUM(p, k), NUM(p, k) <= NUM(p, DIG(p)))), patterns=[NUM(p, k)])]


def num_lemmas():
    """Values of prefixes are non-negative and increasing (induction over the number of digits)."""
    p, k, v = z3.Ints("p k v")
    step = NUM(p, k + 1) == NUM(p, k) * 10 + (c(p + k) - 48)
    return [("prefix.nonneg.base", [NUM(p, 0) == 0], NUM(p, 0) >= 0),
            ("prefix.nonneg.step", [step, isdigit(c(p + k)), NUM(p, k) >= 0], NUM(p, k + 1) >= 0),
            # downwards induction: NUM(k+1) <= v implies NUM(k) <= v
            ("prefix.below.step", [step, isdigit(c(p + k)), NUM(p, k) >= 0, NUM(p, k + 1) <= v], NUM(p, k) <= v)]


def literal(ex, o):
    inv = {v: k for k, v in ex.strings.items()}
    if isinstance(o, Ptr) and o.idx is not None and z3.is_int_value(z3.simplify(o.idx)):
        return inv.get(z3.simplify(o.idx).as_long())
    return None


def has_prefix(ex, a, b):
    """The string at address a starts with the string b (a Ptr), case-insensitively -> (formula, length of b)."""
    t = literal(ex, b)
    if t is not None:
        return mk_and([low(c(a + i)) == ord(x) for i, x in enumerate(t.lower())]), iv(len(t))
    return z3.Function("starts_with", I, I, B)(a, b.idx), LEN(b.idx)


def same_text(a, b, e):
    """The text in [b,e) equals the text at a up to case."""
    x = z3.Int("x")
    return z3.ForAll([x], z3.Implies(z3.And(b <= x, x < e), low(c(x)) == low(c(a + x - b))), patterns=[c(x)])


def def_prefix(ex, a, b):
    f = z3.Function("starts_with", I, I, B)(a, b.idx)
    return def_len(b.idx) + [f == same_text(a, b.idx, b.idx + LEN(b.idx))]


def kw(a, text):
    """The string at address a starts with a lower case keyword."""
    return mk_and([low(c(a + i)) == ord(x) for i, x in enumerate(text)])


def exactly(a, text):
    return z3.And(kw(a, text), c(a + len(text)) == 0)


def ext_tolower(ex, argn, n):
    return low(ex.rv(argn[0]))


def number_ok(p):
    return z3.And(DIG(p) > 0, NUM(p, DIG(p)) <= MAX)


def number(p):
    return NUM(p, DIG(p))


def rest(p):
    return p + DIG(p)


def suffix(r):
    """-> (no thread given, thread given, thread) for the text after the value."""
    g = c(r) == 0
    t = z3.And(c(r) == ord(","), number_ok(r + 1), c(rest(r + 1)) == 0, number(r + 1) < 64)
    return g, t, number(r + 1)


def a0(s, k=0):
    return s.old.argobj(k).idx


def base_contracts():
    def pre_ens(s):
        a, b = s.old.argobj(0), s.old.argobj(1)
        f, n = has_prefix(s.ex, a.idx, b)
        r = s.result
        return [("null", r.null == z3.Not(f)), ("remainder", z3.Implies(f, r.idx == a.idx + n))]

    def pre_inv(l):
        a, b = l.argobj(0).idx, l.argobj(1).idx
        a_, b_ = l.old.argobj(0).idx, l.old.argobj(1).idx
        return [("together", a - a_ == b - b_), ("range", z3.And(a >= a_, b <= b_ + LEN(b_))),
                ("equal", same_text(a_, b_, b))]
    cs = [Contract("iequals_pre", mode="exact", ensures=pre_ens, loops=[Loop(pre_inv)], result=lambda s: fresh_ptr(s, "iequals_pre"),
                   defs=lambda s: def_prefix(s.ex, s.argobj(0).idx, s.argobj(1)) if literal(s.ex, s.argobj(1)) is None else [])]

    def eq_ens(s):
        a, b = s.old.argobj(0), s.old.argobj(1)
        f, n = has_prefix(s.ex, a.idx, b)
        return [("equal", s.result == z3.And(f, c(a.idx + n) == 0))]
    cs.append(Contract("iequals", mode="exact", ensures=eq_ens,
                       defs=lambda s: def_prefix(s.ex, s.argobj(0).idx, s.argobj(1)) if literal(s.ex, s.argobj(1)) is None else []))

    def num_ens(s):
        p = a0(s)
        ok = number_ok(p)
        return [("null", s.result.null == z3.Not(ok)), ("remainder", z3.Implies(ok, s.result.idx == rest(p))),
                ("value", z3.Implies(ok, s.deref(1) == number(p)))]

    def num_inv(l):
        p = a0(l)
        i = l.i
        res = l.deref(1)
        return [("range", z3.And(p <= i, i <= rest(p))), ("value", res == NUM(p, i - p)), ("fits", res <= MAX)]
    cs.append(Contract("parse_uint64_pre", mode="exact", ptrs={1: "uint64_t"}, modifies=["*arg1"], defs=lambda s: def_num(s.argobj(0).idx),
                       ensures=num_ens, loops=[Loop(num_inv)], result=lambda s: fresh_ptr(s, "parse_uint64_pre")))
    cs.append(Contract("parse_uint64", mode="exact", ptrs={1: "uint64_t"}, modifies=["*arg1"], defs=lambda s: def_num(s.argobj(0).idx),
                       ensures=lambda s: [("result", s.result == z3.And(number_ok(a0(s)), c(rest(a0(s))) == 0)),
                                          ("value", z3.Implies(s.result, s.deref(1) == number(a0(s))))]))
    return cs


def fresh_ptr(s, name):
    from cxxwp.exec import fresh_name
    from cxxwp.interp import CHARS
    return Ptr(CHARS, z3.Const(fresh_name(name), I), null=z3.Const(fresh_name(name + ".null"), B))


SCALARS = ["sort_mode", "decision_mode", "mutex_size", "mutex_cutoff", "propagate_root", "propagate_budget", "propagate_mode", "calculate_cc"]
TFIELDS = ["propagate_root", "propagate_budget", "propagate_mode", "sort_mode"]


def threaded(new, old, field, glob, thr, tid, val, res):
    """Effect of setting a (thread specific) option."""
    out = [("result", res == z3.Or(glob, thr)),
           ("global", getattr(new, field) == z3.If(glob, val, getattr(old, field)))]
    out += [("keeps-" + f, getattr(new, f) == getattr(old, f)) for f in SCALARS if f != field]
    k = z3.Int("k")
    nt, ot = new.thread_config, old.thread_config
    out.append(("threads", nt.len == z3.If(z3.And(thr, ot.len <= tid), tid + 1, ot.len)))
    for f in TFIELDS:
        n, o = getattr(nt[k], f), getattr(ot[k], f)
        had = z3.And(k < ot.len, o.has)
        if f == field:
            hit = z3.And(thr, k == tid)
            post = z3.And(n.has == z3.Or(hit, had), z3.Implies(n.has, n.val == z3.If(hit, val, o.val)))
        else:
            post = z3.And(n.has == had, z3.Implies(n.has, n.val == o.val))
        out.append(("thread-" + f, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nt.len), post))))
    return out


def option_defs(p):
    return []


def parse_number_option(name, field):
    def defs(s):
        p = s.argobj(0).idx
        return def_num(p) + def_num(rest(p) + 1)

    def ens(s):
        p = a0(s)
        g, t, tid = suffix(rest(p))
        ok = number_ok(p)
        return threaded(s.deref(1), s.old.deref(1), field, z3.And(ok, g), z3.And(ok, t), tid, number(p), s.result)
    return Contract(name, mode="exact", ptrs={1: "PropagatorConfig"}, modifies=["*arg1"], defs=defs, ensures=ens)


def parse_enum_option(name, field, words):
    def defs(s):
        p = s.argobj(0).idx
        return [f for w in words for f in def_num(p + len(w) + 1)]

    def ens(s):
        p = a0(s)
        glob = thr = z3.BoolVal(False)
        tid, val = iv(0), iv(0)
        for w, v in words.items():
            g, t, i = suffix(p + len(w))
            m = kw(p, w)
            glob = z3.Or(glob, z3.And(m, g))
            thr = z3.Or(thr, z3.And(m, t))
            tid = z3.If(z3.And(m, t), i, tid)
            val = z3.If(z3.And(m, z3.Or(g, t)), v, val)
        return threaded(s.deref(1), s.old.deref(1), field, glob, thr, tid, val, s.result)
    return Contract(name, mode="exact", ptrs={1: "PropagatorConfig"}, modifies=["*arg1"], defs=defs, ensures=ens)


MODES = {"no": 0, "inverse": 1, "partial": 2, "partial+": 3, "zero": 4, "full": 5}
SORTS = {"no": 0, "weight": 1, "weight-reversed": 2, "potential": 3, "potential-reversed": 4}
DECIDE = {"no": 0, "none": 0, "min": 1, "max": 2}
FALSES, TRUES = ["no", "off", "0"], ["yes", "on", "1"]


def unchanged_threads(new, old):
    k = z3.Int("k")
    nt, ot = new.thread_config, old.thread_config
    out = [("threads", nt.len == ot.len)]
    for f in TFIELDS:
        n, o = getattr(nt[k], f), getattr(ot[k], f)
        out.append(("thread-" + f, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nt.len), z3.And(n.has == o.has, z3.Implies(n.has, n.val == o.val))))))
    return out


def parse_mutex():
    def defs(s):
        p = s.argobj(0).idx
        return def_num(p) + def_num(rest(p) + 1)

    def ens(s):
        p = a0(s)
        r = rest(p)
        one = z3.And(number_ok(p), c(r) == 0)
        two = z3.And(number_ok(p), c(r) == ord(","), number_ok(r + 1), c(rest(r + 1)) == 0)
        n, o = s.deref(1), s.old.deref(1)
        dflt = z3.If(10 * number(p) <= MAX, 10 * number(p), MAX)
        return ([("result", s.result == z3.Or(one, two)),
                 ("size", n.mutex_size == z3.If(z3.Or(one, two), number(p), o.mutex_size)),
                 ("cutoff", n.mutex_cutoff == z3.If(two, number(r + 1), z3.If(one, dflt, o.mutex_cutoff)))]
                + [("keeps-" + f, getattr(n, f) == getattr(o, f)) for f in SCALARS if f not in ("mutex_size", "mutex_cutoff")]
                + unchanged_threads(n, o))
    return Contract("parse_mutex", mode="exact", ptrs={1: "PropagatorConfig"}, modifies=["*arg1"], defs=defs, ensures=ens)


def parse_decide():
    def ens(s):
        p = a0(s)
        acc = z3.Or([exactly(p, w) for w in DECIDE])
        n, o = s.deref(1), s.old.deref(1)
        val = o.decision_mode
        for w, v in DECIDE.items():
            val = z3.If(exactly(p, w), v, val)
        return ([("result", s.result == acc), ("mode", n.decision_mode == val)]
                + [("keeps-" + f, getattr(n, f) == getattr(o, f)) for f in SCALARS if f != "decision_mode"] + unchanged_threads(n, o))
    return Contract("parse_decide", mode="exact", ptrs={1: "PropagatorConfig"}, modifies=["*arg1"], ensures=ens)


def bool_value(p, old):
    f = z3.Or([exactly(p, w) for w in FALSES])
    t = z3.Or([exactly(p, w) for w in TRUES])
    return z3.Or(f, t), z3.If(t, z3.BoolVal(True), z3.If(f, z3.BoolVal(False), old))


def parse_bool():
    def ens(s):
        acc, val = bool_value(a0(s), s.old.deref(1))
        return [("result", s.result == acc), ("value", s.deref(1) == val)]
    return Contract("parse_bool", mode="exact", ptrs={1: "bool"}, modifies=["*arg1"], ensures=ens)


def ctor_stream(ex, n, args):
    return Ext("stream")


def op_stream(ex, name, a0_, args, n):
    ex.rv(args[1])
    return a0_


def m_stream(ex, obj, name, argn, n):
    return Ext("streamtext")


def ext_strcmp(ex, argn, n):
    """strcmp with a literal: zero exactly if the strings are equal."""
    a, b = ex.rv(argn[0]), ex.rv(argn[1])
    t = literal(ex, b)
    if t is None:
        a, b, t = b, a, literal(ex, a)
    if t is None:
        return NotImplemented
    r = z3.Int(fresh_name("strcmp"))
    ex.fact((r == 0) == z3.And([c(a.idx + i) == ord(x) for i, x in enumerate(t)] + [c(a.idx + len(t)) == 0]))
    return r


EXTS = {"call:tolower": ext_tolower, "call:clingo_set_error": lambda ex, argn, n: None, "call:handle_cxx_error": lambda ex, argn, n: None,
        "call:strcmp": ext_strcmp, "ctor:std::basic_ostringstream<char>": ctor_stream, "op:stream": op_stream, "method:stream": m_stream,
        "method:streamtext": m_stream, "ctor:std::ostringstream": ctor_stream}

KEYS = {"propagate": "parse_mode", "propagate-root": "parse_root", "propagate-budget": "parse_budget", "add-mutexes": "parse_mutex",
        "sort-edges": "parse_sort", "dl-heuristic": "parse_decide"}
BOOLS = {"rdl": lambda t: t.rdl, "shift-constraints": lambda t: t.shift_constraints, "compute-components": lambda t: t.config.calculate_cc}


class Sub:
    """The view of an option parser called with a value and a configuration."""

    def __init__(self, s, result, value, data):
        self.ex, self.result, self._s, self._v, self._d = s.ex, result, s, value, data

    @property
    def old(self):
        return Sub(self._s.old, None, self._v, self._d)

    def argobj(self, k):
        return self._s.old.argobj(self._v)

    def deref(self, k):
        return self._d(self._s)


def configure():
    opts = {c.name: c for c in option_contracts()}

    def is_key(s, t):
        a = s.old.argobj(1).idx
        return z3.And([c(a + i) == ord(x) for i, x in enumerate(t)] + [c(a + len(t)) == 0])

    def same_config(n, o):
        return [("keeps-" + f, getattr(n, f) == getattr(o, f)) for f in SCALARS] + unchanged_threads(n, o)

    def ens(s):
        n, o = s.deref(0), s.old.deref(0)
        out = []
        other = []
        for k, fn in KEYS.items():
            g = is_key(s, k)
            other.append(g)
            v = Sub(s, s.result, 2, lambda q: q.deref(0).config)
            out += [("%s.%s" % (k, nm), z3.Implies(g, f)) for nm, f in opts[fn].ensures(v)]
        for k, get in BOOLS.items():
            g = is_key(s, k)
            other.append(g)
            acc, val = bool_value(s.old.argobj(2).idx, get(o))
            out += [(k + ".result", z3.Implies(g, s.result == acc)), (k + ".value", z3.Implies(g, get(n) == val))]
            rest_ = [(nm, f) for nm, f in same_config(n.config, o.config) if not (k == "compute-components" and nm == "keeps-calculate_cc")]
            out += [("%s.%s" % (k, nm), z3.Implies(g, f)) for nm, f in rest_]
        for k in ("rdl", "shift-constraints"):
            out.append((k + ".frame", z3.Implies(z3.Not(is_key(s, k)), BOOLS[k](n) == BOOLS[k](o))))
        none = z3.Not(z3.Or(other))
        out += [("unknown-key", z3.Implies(none, z3.Not(s.result)))] + [("unknown-key." + nm, z3.Implies(none, f)) for nm, f in same_config(n.config, o.config)]
        return out
    return Contract("clingodl_configure", mode="exact", ptrs={0: "clingodl_theory"}, modifies=["*arg0"], ensures=ens)


# -- registration of command line options
TARGETS = {"rdl": ("rdl",), "shift-constraints": ("shift_constraints",), "compute-components": ("config", "calculate_cc")}
OPTIONS = sorted(KEYS) + sorted(TARGETS)
THREADED = ("propagate", "propagate-root", "propagate-budget", "sort-edges")


def option_name(ex, node):
    p = ex.rv(node)
    i = z3.simplify(p.idx)
    txt = {v: t for t, v in ex.strings.items()}.get(i.as_long()) if z3.is_int_value(i) else None
    if txt is None:
        raise ToolLimit("name of option")
    return txt


def registered(ex, key, fine, multi):
    if key in OPTIONS:
        ex.oblige("option." + key, z3.BoolVal(fine), "call-pre")
        if key in THREADED:
            ex.oblige("several." + key, multi, "call-pre")
        ex.ghost_set("option " + key, z3.BoolVal(True))


def target(ex, node):
    p = ex.rv(node)
    if not isinstance(p, Ptr) or p.idx is not None or p.lv is None:
        raise ToolLimit("storage of option")
    return (p.lv.root, p.lv.key())


def x_option(ex, argn, n):
    key, fn = option_name(ex, argn[2]), ex.rv(argn[4])
    if not (isinstance(fn, Ext) and fn.kind == "func"):
        raise ToolLimit("parser of option")
    multi = ex.rv(argn[6])
    registered(ex, key, KEYS.get(key) == fn.data["name"] and target(ex, argn[5]) == ("*arg0", ("config",)), multi)
    return z3.BoolVal(True)


def x_flag(ex, argn, n):
    key = option_name(ex, argn[2])
    registered(ex, key, key in TARGETS and target(ex, argn[4]) == ("*arg0", TARGETS.get(key)), z3.BoolVal(True))
    return z3.BoolVal(True)


def registration():
    """Each option is registered with its parser and the configuration of the theory."""
    def setup(ex, fr, node):
        for k in OPTIONS:
            ex.ghost_init("option " + k, z3.BoolSort())
            ex.ghost_set("option " + k, z3.BoolVal(False))
    return Contract("clingodl_register_options", mode="exact", ptrs={0: "clingodl_theory"}, modifies=None, setup=setup,
                    ensures=lambda s: [("registered." + k, z3.Implies(s.result, s.g("option " + k))) for k in OPTIONS])


def registration_module():
    from cxxwp.prove import Module
    x = dict(EXTS)
    x.update({"call:clingo_options_add": x_option, "call:clingo_options_add_flag": x_flag, "call:handle_error": lambda ex, argn, n: (ex.rv(argn[0]), None)[1]})
    return Module("registration", "libclingo-dl/src/clingo-dl.cc", [registration()], externals=x, filters=("ClingoDL", "(anonymo", "clingodl"))


def option_contracts():
    return [parse_number_option("parse_root", "propagate_root"), parse_number_option("parse_budget", "propagate_budget"),
            parse_enum_option("parse_mode", "propagate_mode", MODES), parse_enum_option("parse_sort", "sort_mode", SORTS),
            parse_mutex(), parse_decide(), parse_bool()]
