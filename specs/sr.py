"""Rewriting of statements (parsing.cc).

Nodes of syntax trees are references into a store of attributes. Copies are shallow and yield new references."""
import z3
from cxxwp.exec import Blob, Ext, LV, Ptr, SpecCtx, sel, arr
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop, CHARS
from cxxwp.prove import Module
from . import ps
from .pr import I, B
from .cy import A

SRC = "libclingo-dl/src/parsing.cc"
NODE = "Clingo::AST::Node"
VEC = ("vec", ("opq", NODE))
# attributes by kind; all other attributes of a node are represented by the attribute "other"
KINDS = {"node": ("Head", "Atom", "Term"), "int": ("Sign", "Value", "External", "other"), "str": ("OperatorName", "Name"), "sym": ("Symbol",), "opt": ("Guard",),
         "vec": ("Body", "Elements", "Terms", "Condition", "Arguments")}
KIND = {a: k for k, l in KINDS.items() for a in l}
ATTRS = [a for a in KIND if a != "other"]
# in the order of the enumeration clingo_ast_type
TYPES = ["Id", "Variable", "SymbolicTerm", "UnaryOperation", "BinaryOperation", "Interval", "Function", "Pool", "BooleanConstant", "SymbolicAtom", "Comparison", "Guard", "ConditionalLiteral", "Aggregate", "BodyAggregateElement", "BodyAggregate", "HeadAggregateElement", "HeadAggregate", "Disjunction", "TheorySequence", "TheoryFunction", "TheoryUnparsedTermElement", "TheoryUnparsedTerm", "TheoryGuard", "TheoryAtomElement", "TheoryAtom", "Literal", "TheoryOperatorDefinition", "TheoryTermDefinition", "TheoryGuardDefinition", "TheoryAtomDefinition", "Rule"]
SIGNS = {"NoSign": 0, "None": 0, "Negation": 1, "DoubleNegation": 2}
TYPE = z3.Function("type_of_node", I, I)
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)


def leafs(a):
    """Memory of an attribute."""
    k = KIND[a]
    if k == "opt":
        return [((a, "[]", "has"), AB), ((a, "[]", "node"), AI)]
    if k == "vec":
        return [((a, "[]", "len"), AI), ((a, "[]", "[]"), z3.ArraySort(I, AI))]
    return [((a, "[]"), AI)]


class Ast:
    """The store in some state."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def mem(self, key, so):
        return self.ex.get_mem(self.st, "$ast", key, so)

    def get(self, a, x, part=0):
        return self.mem(*leafs(a)[part])[x]

    def size(self):
        return self.mem(("size",), I)

    def len(self, a, x):
        return self.get(a, x)

    def at(self, a, x, k):
        return self.get(a, x, 1)[k]

    def same(self, o, a, x, y):
        """Attribute a of x equals the one of y in the other state."""
        k = z3.Int("vk")
        if KIND[a] == "vec":
            return z3.And(self.len(a, x) == o.len(a, y), A([k], z3.And(0 <= k, k < o.len(a, y)), self.at(a, x, k) == o.at(a, y, k)))
        if KIND[a] == "opt":
            return z3.And(self.get(a, x) == o.get(a, y), z3.Implies(o.get(a, y), self.get(a, x, 1) == o.get(a, y, 1)))
        return self.get(a, x) == o.get(a, y)

    def equal(self, o, x, y, but=()):
        return z3.And(TYPE(x) == TYPE(y), *[self.same(o, a, x, y) for a in KIND if a not in but])

    def diff(self, t, name="diff"):
        """The term is the given constant."""
        s = self.get("Symbol", t)
        sym = z3.And(ps.SYMTYPE(s) == ps.SYMTYPES["Function"], ps.SYMARGS(s) == 0, ps.text(ps.SYMNAME(s), name))
        fun = z3.And(self.get("External", t) == 0, self.len("Arguments", t) == 0, ps.text(self.get("Name", t), name))
        return z3.Or(z3.And(TYPE(t) == ty("SymbolicTerm"), sym), z3.And(TYPE(t) == ty("Function"), fun))


def ty(name):
    return TYPES.index(name)


def enums(t, name):
    if t.endswith("Attribute"):
        return ATTRS.index(name) if name in ATTRS else None
    if t.endswith("Sign"):
        return SIGNS.get(name)
    if t.endswith("Type") and not t.endswith("SymbolType"):
        return TYPES.index(name) if name in TYPES else None
    return ps.enums(t, name)


def ident(ex, obj):
    if isinstance(obj, LV):
        obj = ex.read(ex.st, obj, ("opq", NODE))
    if not isinstance(obj, z3.ExprRef):
        raise ToolLimit("node expected")
    return obj


def attribute(ex, node):
    v = z3.simplify(ex.rv(node))
    if not z3.is_int_value(v) or v.as_long() >= len(ATTRS):
        raise ToolLimit("attribute of node")
    return ATTRS[v.as_long()]


def m_node(ex, obj, name, argn, n):
    x = ident(ex, obj)
    s = Ast(ex, ex.st)
    if name.startswith("operator"):
        return x
    if name == "type":
        ex.fact(TYPE(x) >= 0)
        return TYPE(x)
    if name == "copy":
        y = s.size()
        ex.fact(TYPE(y) == TYPE(x))
        for a in KIND:
            for key, so in leafs(a):
                m = s.mem(key, so)
                ex.write_leaf(ex.st, LV("$ast", (key[0], y), None), key[2:], m[x])
        ex.write_leaf(ex.st, LV("$ast", (), None), ("size",), y + 1)
        return y
    if name == "transform_ast":
        return x_transform(ex, x, argn)
    if name == "get":
        a = attribute(ex, argn[0])
        k = KIND[a]
        if k == "vec":
            return Ext("nodes", lv=LV("$ast", (a, x), VEC))
        if k == "opt":
            return Ext("optnode", has=s.get(a, x), node=s.get(a, x, 1))
        v = s.get(a, x)
        if k == "str":
            ex.fact(z3.And(0 <= v, v < 900000))
            return Ptr(CHARS, v)
        return v
    if name == "set":
        a = attribute(ex, argn[0])
        v = ex.ev(argn[1])
        v = v.data["value"] if isinstance(v, Ext) and v.kind == "nodevalue" else v
        if isinstance(v, LV):
            o = ex.st.mem.get((v.root, v.key() + ("@",)))
            v = o if o is not None else ex.rv(argn[1])
        k, at = KIND[a], LV("$ast", (a, x), None)
        if k == "opt" and isinstance(v, Ext) and v.kind == "optnode":
            ex.write_leaf(ex.st, at, ("has",), v.data["has"])
            ex.write_leaf(ex.st, at, ("node",), v.data["node"])
        elif k == "str" and isinstance(v, Ptr) and v.lv is CHARS:
            ex.write_leaf(ex.st, at, (), v.idx)
        elif k in ("node", "int", "sym") and isinstance(v, z3.ExprRef):
            ex.write_leaf(ex.st, at, (), v)
        else:
            raise ToolLimit("value of attribute " + a)
        return None
    raise ToolLimit("method of nodes " + name)


def m_nodes(ex, obj, name, argn, n):
    return ex.vec_method(obj.data["lv"], VEC, name, argn, n)


def pointer(ex, o):
    return Ptr(ex.materialize(o.data["node"], ("opq", NODE)), None, null=z3.simplify(z3.Not(o.data["has"])))


def m_opt(ex, obj, name, argn, n):
    if name == "get":
        return pointer(ex, obj)
    raise ToolLimit("method of optional nodes " + name)


def o_opt(ex, name, obj, args, n):
    o = obj
    if isinstance(obj, LV):
        o = ex.st.mem.get((obj.root, obj.key() + ("@",)))
    if name in ("operator->", "operator*"):
        p = pointer(ex, o)
        return p if name == "operator->" else ex.deref(p)
    return NotImplemented


def c_opt(ex, n, args):
    return Ext("optnode", has=z3.BoolVal(True), node=ident(ex, ex.rv(args[0])))


def c_value(ex, n, args):
    v = ex.ev(args[0])
    if isinstance(v, LV):
        o = ex.st.mem.get((v.root, v.key() + ("@",)))
        v = o if o is not None else ex.rv(args[0])
    return v if isinstance(v, Ext) and v.kind == "optnode" else Ext("nodevalue", value=v)


VALUE = "Clingo::Variant<int, Clingo::Symbol, Clingo::Location, const char *, Clingo::AST::Node, Clingo::Optional<Clingo::AST::Node>, Clingo::AST::StringVector, Clingo::AST::NodeVector>"


def content(ex, v):
    """Address with the content of a string."""
    if isinstance(v, Ptr) and v.lv is CHARS:
        return v.idx
    if not (isinstance(v, Ext) and v.kind == "cstr"):
        raise ToolLimit("text")
    lv = v.data["lv"]
    a, n = ex.get_mem(ex.st, lv.root, lv.key() + ("[]",), AI), ex.vlen(lv)
    p, k = z3.FreshConst(I, "text"), z3.Int("tk")
    ex.fact(z3.And(0 <= p, p < 900000, ps.CH[p + n] == 0))
    ex.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), ps.CH[p + k] == a[k]), patterns=[ps.CH[p + k], ]))
    return p


def x_string(ex, argn, n):
    return Ptr(CHARS, content(ex, ex.ev(argn[0])))


def x_function(ex, argn, n):
    p, args = content(ex, ex.ev(argn[0])), ex.ev(argn[1])
    if not (isinstance(args, Ext) and args.kind == "list" and not args.data["items"]):
        raise ToolLimit("arguments of function symbol")
    x = z3.FreshConst(I, "symbol")
    ex.fact(ps.function(x, p, z3.BoolVal(True), 0, lambda k: k))
    return x


ORIGIN, INBODY = z3.Function("rewritten_node", I, I), z3.Function("rewritten_in_body", I, B)


def x_transform(ex, x, argn):
    """The children of a node are rewritten by the visitor."""
    v = ex.ev(argn[0])
    if isinstance(v, Blob):
        v = ex.materialize(v, v.ty)
    flag = ex.read_leaf(ex.st, v, ("in_literal",), B)
    y = z3.FreshConst(I, "rewritten")
    ex.fact(z3.And(ORIGIN(y) == x, INBODY(y) == flag))
    later = z3.FreshConst(B, "in_literal")
    ex.fact(z3.Or(later == flag, z3.Not(later)))
    ex.write_leaf(ex.st, v, ("in_literal",), later)
    ex.assumptions.add("transform_ast rewrites the children of a node with the given visitor")
    return y


def m_symbol(ex, obj, name, argn, n):
    if name == "match":
        x = ex.read(ex.st, obj, ("opq", "Clingo::Symbol")) if isinstance(obj, LV) else obj
        p, k = ex.rv(argn[0]), ex.rv(argn[1])
        i = z3.simplify(p.idx)
        txt = {v: t for t, v in ex.strings.items()}.get(i.as_long()) if z3.is_int_value(i) else None
        if txt is None:
            raise ToolLimit("name of symbol")
        return z3.And(ps.SYMTYPE(x) == ps.SYMTYPES["Function"], ps.text(ps.SYMNAME(x), txt), ps.SYMARGS(x) == k)
    return ps.m_symbol(ex, obj, name, argn, n)


EXTS = {"call:add_string": x_string, "call:Function": x_function, "ctor:Clingo::Span<Clingo::Symbol>": ps.span, "ctor:Clingo::Span<const Clingo::Symbol>": ps.span, "method:Clingo::AST::NodeRef": m_node, "enum": enums, "method:" + NODE: m_node, "method:nodes": m_nodes, "method:optnode": m_opt, "op:optnode": o_opt, "ctor:" + VALUE: c_value, "ctor:Clingo::Optional<Clingo::AST::Node>": c_opt, "method:Clingo::Symbol": m_symbol}


def constraint(s, a):
    h = s.get("Head", a)
    t = s.get("Atom", h)
    v, neg = s.get("Value", t), s.get("Sign", h) == SIGNS["Negation"]
    return z3.And(TYPE(a) == ty("Rule"), TYPE(h) == ty("Literal"), TYPE(t) == ty("BooleanConstant"), z3.Or(z3.And(v == 0, z3.Not(neg)), z3.And(v == 1, neg)))


def references(o, a):
    x, k = z3.Ints("x k")
    d = lambda f: A([x], z3.And(0 <= x, x < o.size()), f)
    return [("store", z3.And(0 <= a, a < o.size())), ("values", d(z3.And(0 <= o.get("Value", x), o.get("Value", x) <= 1)))] + [
        ("refs-" + t, d(z3.And(0 <= o.get(t, x), o.get(t, x) < o.size()))) for t in KINDS["node"]] + [("refs-Guard", d(z3.And(0 <= o.get("Guard", x, 1), o.get("Guard", x, 1) < o.size())))] + [
        ("len-" + t, d(0 <= o.len(t, x))) for t in KINDS["vec"]] + [("refs-" + t, A([x, k], z3.And(0 <= x, x < o.size(), 0 <= k, k < o.len(t, x)), z3.And(0 <= o.at(t, x, k), o.at(t, x, k) < o.size()))) for t in KINDS["vec"]]


def shift_rule():
    from . import c10
    j = z3.Int("difference")

    def ok(o, a, k):
        lit = o.at("Body", a, k)
        atom = o.get("Atom", lit)
        return z3.And(0 <= k, k < o.len("Body", a), TYPE(lit) == ty("Literal"), TYPE(atom) == ty("TheoryAtom"), o.diff(o.get("Term", atom)))

    def some(o, a, k, f):
        return z3.Not(z3.ForAll([k], z3.Not(f), patterns=[o.at("Body", a, k)]))

    def states(s):
        return Ast(s.ex, s.st), Ast(s.ex, s.old.st), s.arg(0)

    def req(s):
        n, o, a = states(s)
        return references(o, a)

    def unchanged(n, o):
        x = z3.Int("x")
        return [("unchanged-" + t, A([x], z3.And(0 <= x, x < o.size()), n.same(o, t, x, x))) for t in KIND]

    def moved(n, o, a, r, k):
        i = z3.Int("i")
        lit = o.at("Body", a, k)
        atom, h = o.get("Atom", lit), n.get("Head", r)
        g, m = o.get("Guard", atom, 1), n.get("Guard", h, 1)
        neg = o.get("Sign", lit) == SIGNS["Negation"]
        p, q = o.get("OperatorName", g), n.get("OperatorName", m)
        body = z3.And(n.len("Body", r) == o.len("Body", a) - 1, A([i], z3.And(0 <= i, i < o.len("Body", a) - 1), n.at("Body", r, i) == o.at("Body", a, z3.If(i < k, i, i + 1))))
        rel = z3.If(neg, c10.holds(q, j) == c10.holds(p, j), z3.Implies(c10.is_op(p), z3.And(c10.is_op(q), c10.holds(q, j) == z3.Not(c10.holds(p, j)))))
        return [ok(o, a, k), n.equal(o, r, a, ("Head", "Body")), body, n.equal(o, h, atom, ("Guard",)), o.get("Guard", atom), n.get("Guard", h), n.equal(o, m, g, ("OperatorName",)), rel]

    def ens(s):
        n, o, a = states(s)
        k = z3.Int("k")
        r = s.result
        shift = z3.And(constraint(o, a), some(o, a, k, ok(o, a, k)))
        return unchanged(n, o) + [("kept", z3.Implies(z3.Not(shift), r == a)), ("shifted", z3.Implies(shift, some(o, a, k, z3.And(*moved(n, o, a, r, k)))))]

    def thr(s):
        n, o, a = states(s)
        k = z3.Int("k")
        return [("no-guard", z3.And(constraint(o, a), some(o, a, k, z3.And(ok(o, a, k), z3.Not(o.get("Guard", o.get("Atom", o.at("Body", a, k))))))))]

    def inv(l):
        o, a = Ast(l.ex, l.old.st), l.arg(0)
        k, n = z3.Int("k"), Ast(l.ex, l.st)
        return unchanged(n, o) + [("size", n.size() >= o.size()), ("index", z3.And(0 <= l.i, l.i <= o.len("Body", a))), ("none", A([k], z3.And(0 <= k, k < l.i), z3.Not(ok(o, a, k))))]
    def element(l):
        """The element of the body is the one of the given statement."""
        o, a, n, i = Ast(l.ex, l.old.st), l.arg(0), Ast(l.ex, l.st), l.i
        lit = o.at("Body", a, i)
        atom = o.get("Atom", lit)
        term, g = o.get("Term", atom), o.get("Guard", atom, 1)
        ins = lambda x: z3.And(0 <= x, x < o.size())
        return [("literal", z3.And(n.at("Body", a, i) == lit, ins(lit))), ("atom", z3.And(*[n.same(o, t, lit, lit) for t in KIND], ins(atom))), ("parts", z3.And(*[n.same(o, t, atom, atom) for t in KIND], ins(term), ins(g))),
                ("guard", z3.And(*[n.same(o, t, g, g) for t in KIND])), ("term", z3.And(*[n.same(o, t, term, term) for t in KIND])),
                ("diff", n.diff(term) == o.diff(term)), ("constraint", constraint(o, a))]
    def step(l):
        o, a, n, i = Ast(l.ex, l.old.st), l.arg(0), Ast(l.ex, l.head_st), l.i - 1
        lit = o.at("Body", a, i)
        atom = o.get("Atom", lit)
        return [("range", z3.And(0 <= i, i < o.len("Body", a))), ("none", z3.Not(ok(o, a, i)))]
    return Contract("shift_rule", requires=req, ensures=ens, ensures_throw=thr, modifies=None, loops=[Loop(inv, name="body", body_cuts=element, step_cuts=step)])


def tagged(n, t, term, tag):
    """The term is the tagged constant."""
    s = n.get("Symbol", t)
    sym = z3.And(ps.SYMTYPE(s) == ps.SYMTYPES["Function"], ps.SYMARGS(s) == 0, ps.text(ps.SYMNAME(s), "__diff" + tag))
    return z3.And(TYPE(t) == TYPE(term), z3.If(TYPE(t) == ty("SymbolicTerm"), sym, z3.And(n.get("External", t) == 0, n.len("Arguments", t) == 0, ps.text(n.get("Name", t), "__diff" + tag))))


def rewriter():
    def view(s):
        return Ast(s.ex, s.st), Ast(s.ex, s.old.st), node(s)

    def node(s):
        x = s.argobj(0)
        return s.ex.read(s.old.st, x, ("opq", NODE)) if isinstance(x, LV) else x

    def atom(o, a):
        return z3.And(TYPE(a) == ty("TheoryAtom"), o.diff(o.get("Term", a)))

    def simple(o, a):
        e = o.at("Elements", a, 0)
        return z3.And(o.len("Elements", a) == 1, o.len("Terms", e) == 1, o.len("Condition", e) == 0)

    def ens(s):
        n, o, a = view(s)
        r, b = s.result, s.old.this.in_literal
        t, u = n.get("Term", r), o.get("Term", a)
        mine = z3.And(n.equal(o, r, a, ("Term",)), z3.If(b, tagged(n, t, u, "_b"), tagged(n, t, u, "_h")))
        return unchanged(n, o) + [("atom", z3.Implies(atom(o, a), z3.And(mine, simple(o, a), s.this.in_literal == b))),
                                  ("other", z3.Implies(z3.Not(atom(o, a)), z3.And(ORIGIN(r) == a, INBODY(r) == z3.Or(TYPE(a) == ty("Literal"), b)))),
                                  ("body", z3.And(z3.Implies(TYPE(a) == ty("Literal"), z3.Not(s.this.in_literal)), z3.Or(z3.Not(s.this.in_literal), b)))]

    def thr(s):
        n, o, a = view(s)
        return [("syntax", z3.And(atom(o, a), z3.Not(simple(o, a))))]

    def unchanged(n, o):
        x = z3.Int("x")
        return [("unchanged-" + t, A([x], z3.And(0 <= x, x < o.size()), n.same(o, t, x, x))) for t in KIND]

    def req(s):
        n, o, a = view(s)
        return references(o, a)
    return Contract("TheoryRewriter::operator()", requires=req, ensures=ens, ensures_throw=thr, modifies=None)


POOL, POOLN, SHIFTED = z3.Const("unpooled.[]", AI), z3.Const("unpooled.len", I), z3.Function("shifted_from", I, I)


def m_pool(ex, obj, name, argn, n):
    if name == "unpool":
        ex.fact(z3.And(0 <= POOLN, POOLN < 2 ** 30))
        return Blob(VEC, {("len",): POOLN, ("[]",): POOL})
    return m_node(ex, obj, name, argn, n)


def x_shift(ex, argn, n):
    """Shifting is proved in module shift."""
    x, y = ident(ex, ex.ev(argn[0])), z3.FreshConst(I, "shifted")
    ex.fact(SHIFTED(y) == x)
    return y


def x_callback(ex, f, argn, n):
    x, k = ident(ex, ex.rv(argn[0])), ex.ghost_get("calls")
    ex.ghost_set("passed", z3.Store(ex.ghost_get("passed"), k, x))
    ex.ghost_set("calls", k + 1)


def transformer():
    """Each unpooled statement is passed on once and in order."""
    def setup(ex, fr, node):
        ex.ghost_init("passed", AI)
        ex.ghost_init("calls", I)

    def passed(s, lo, hi):
        k, sh = z3.Int("k"), s.old.arg(2)
        x = s.g("passed")[k]
        return A([k], z3.And(lo <= k, k < hi), z3.And(z3.If(sh, SHIFTED(ORIGIN(x)), ORIGIN(x)) == POOL[k], z3.Not(INBODY(x))))

    def elem(l, k):
        return sel(l.ex.get_mem(l.st, l.range_lv.root, l.range_lv.key() + ("[]",), AI), l.range_lv.idxs() + [k])

    def inv(l):
        k = z3.Int("k")
        return [("calls", l.g("calls") == l.i), ("passed", passed(l, 0, l.i)), ("rest", A([k], z3.And(l.i <= k, k < POOLN), elem(l, k) == POOL[k]))]

    def ens(s):
        return [("calls", s.g("calls") == POOLN), ("passed", passed(s, 0, POOLN))]
    return Contract("ClingoDL::transform", requires=lambda s: [("fresh", s.g("calls") == 0)], ensures=ens, modifies=None, setup=setup, loops=[Loop(inv, name="pool")])


def chars(s):
    i = z3.FreshConst(I, "text")
    s.ex.fact(z3.And(0 <= i, i < 1000000))
    return Ptr(CHARS, i)


def modules(tier):
    from . import c10
    neg = c10.contracts()
    for c in neg:
        c.skip = True
        c.modifies = []
        c.result = chars
    return [Module("shift", SRC, neg + [shift_rule()], externals=EXTS), Module("tags", SRC, [rewriter()], externals=EXTS),
            Module("calls", SRC, [transformer()], externals=dict(EXTS, **{"method:" + NODE: m_pool, "method:Clingo::AST::NodeRef": m_pool, "call:shift_rule": x_shift, "invoke:std::function<void (Clingo::AST::Node &&)>": x_callback}))]
