"""Normalization of constraints (DLPropagator::normalize_constraint_, add_edges_).

VAL is an arbitrary valuation of the vertices (zero for the vertex of the number 0) and the
ghost array H an arbitrary set of literals that hold. The ghost formula sat is the
conjunction of what has been added: l -> VAL(u) - VAL(v) <= w for each edge, and the clauses.
Literals introduced by the solver hold depending on fresh propositions (named aux...), which
are projected out by replacing them by all combinations of truth values."""
import itertools
import z3
from cxxwp.exec import Ext, LV, SpecCtx, fresh_name, sel, arr
from cxxwp.ast import ToolLimit
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr, it, c09
from .pr import D, I, B, fr, SRC
from .cy import A

AI = z3.ArraySort(I, I)
VAL = z3.Function("valuation", I, I)
TERM = z3.Function("product", I, I, I)
SUM = z3.Function("linear_sum", AI, AI, I, I)
NUMBER = z3.Function("number_symbol", I, I)
OPS = ["<=", ">=", "<", ">", "=", "!="]
LO, HI = -2 ** 31, 2 ** 31 - 1


def axioms():
    """Definition of products with a valuation and sums of such products."""
    a, v, n, c, k = z3.Const("sa", AI), z3.Const("sv", AI), z3.Int("sn"), z3.Int("sc"), z3.Int("sk")
    b, w = z3.Const("sb", AI), z3.Const("sw", AI)
    return [z3.ForAll([a, v], SUM(a, v, 0) == 0, patterns=[SUM(a, v, 0)]),
            z3.ForAll([c, k], z3.And(z3.Implies(c == 1, TERM(c, k) == VAL(k)), z3.Implies(c == -1, TERM(c, k) == -VAL(k))), patterns=[TERM(c, k)]),
            z3.ForAll([a, v, n], z3.Implies(n == 1, SUM(a, v, n) == TERM(a[0], v[0])), patterns=[SUM(a, v, n)]),
            z3.ForAll([a, v, n], z3.Implies(n == 2, SUM(a, v, n) == TERM(a[0], v[0]) + TERM(a[1], v[1])), patterns=[SUM(a, v, n)]),
            z3.ForAll([a, v, b, w, n], z3.Implies(A([k], z3.And(0 <= k, k < n), z3.And(b[k] == -a[k], w[k] == v[k])), SUM(b, w, n) == -SUM(a, v, n)),
                      patterns=[z3.MultiPattern(SUM(a, v, n), SUM(b, w, n))])]


def lemmas():
    """The axioms follow from the recursive definition of sums (and of products as c * VAL(k))."""
    a, v, b, w, n, k = z3.Const("sa", AI), z3.Const("sv", AI), z3.Const("sb", AI), z3.Const("sw", AI), *z3.Ints("sn sk")
    rec = lambda a, v, n: SUM(a, v, n) == z3.If(n <= 0, 0, SUM(a, v, n - 1) + a[n - 1] * VAL(v[n - 1]))
    neg = lambda n: A([k], z3.And(0 <= k, k < n), z3.And(b[k] == -a[k], w[k] == v[k]))
    return [("sum-one", [rec(a, v, 0), rec(a, v, 1)], SUM(a, v, 1) == a[0] * VAL(v[0])),
            ("sum-two", [rec(a, v, 0), rec(a, v, 1), rec(a, v, 2)], SUM(a, v, 2) == a[0] * VAL(v[0]) + a[1] * VAL(v[1])),
            ("sum-inverse-base", [rec(a, v, n), rec(b, w, n), n <= 0], SUM(b, w, n) == -SUM(a, v, n)),
            ("sum-inverse-step", [rec(a, v, n), rec(b, w, n), n > 0, b[n - 1] == -a[n - 1], w[n - 1] == v[n - 1], SUM(b, w, n - 1) == -SUM(a, v, n - 1)], SUM(b, w, n) == -SUM(a, v, n))]


def arrays(view):
    ex, st, lv, ty = view._
    idxs = lv.idxs()
    return [sel(ex.get_mem(st, lv.root, lv.key() + ("[]", f), arr(AI, len(idxs))), idxs) for f in "01"]


def total(view):
    return SUM(*arrays(view), view.len)


def is_op(s, k, txt):
    mem, p = z3.Const("$chars.[]", AI), s.argobj(k)
    return z3.And(*[z3.Select(mem, p.idx + i) == ord(c) for i, c in enumerate(txt)], z3.Select(mem, p.idx + len(txt)) == 0)


def holds(s, lit):
    return z3.Select(s.g("H"), lit)


def relation(s, op, rhs, sm):
    rel = {"<=": sm <= rhs, ">=": sm >= rhs, "<": sm < rhs, ">": sm > rhs, "=": sm == rhs, "!=": sm != rhs}
    out = z3.BoolVal(False)
    for o, f in rel.items():
        out = z3.If(is_op(s, op, o), f, out)
    return out


def project(f):
    """The formula with all combinations of values for the propositions of new literals."""
    aux, seen, st = {}, set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("aux"):
            aux[x.get_id()] = x
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    vs = list(aux.values())
    if len(vs) > 6:
        raise ToolLimit("too many new literals")
    return z3.Or(*[z3.substitute(f, *[(v, z3.BoolVal(b)) for v, b in zip(vs, bs)]) for bs in itertools.product((True, False), repeat=len(vs))])


def literals(s):
    """Complementary literals, the true literal, and literals that are true or false on the top level."""
    l = z3.Int("hl")
    h, tv = s.g("H"), s.g("tv")
    return [("complement", z3.ForAll([l], z3.Implies(l != 0, h[-l] == z3.Not(h[l])), patterns=c09.trigger(h[l]))), ("true", h[1]),
            ("assigned", z3.ForAll([l], z3.Implies(l != 0, z3.And(z3.Implies(tv[l] == 1, h[l]), z3.Implies(tv[l] == 2, z3.Not(h[l])))), patterns=c09.trigger(tv[l])))]


def known(s, lit):
    n = s.g("literals")
    return [("literal", z3.And(lit != 0, -n <= lit, lit <= n, n >= 1, n <= HI))]


def zero(s):
    m = s.this.vert_map_inv_
    return [("zero", z3.And(m.has(NUMBER(0)), VAL(m.val(NUMBER(0))) == 0))] + c09.bijection(s.this)


def meaning(s, lit, f, strict):
    h = holds(s, lit)
    return z3.If(strict, h == f, z3.Implies(h, f))


def elements(s, k):
    v, j = s.arg(k), z3.Int("ej")
    return [("elements", A([j], z3.And(0 <= j, j < v.len), z3.And(LO <= v[j].first, v[j].first <= HI)))]


def same(s):
    """Literals in use and their truth values are not changed."""
    l = z3.Int("hl")
    n, m = s.old.g("literals"), s.g("literals")
    return [("literals", z3.And(m >= n, m <= HI, A([l], z3.And(-n <= l, l <= n), s.g("H")[l] == s.old.g("H")[l])))]


EDGES = ["this.edges_", "this.lit_to_edges_", "this.disable_edges_", "ghost:watched"]
VERTS = ["this.vertex_info_", "this.vert_map_inv_"]


def add_edge(assumed=True):
    c = it.add_edge(assumed)
    c.post_cuts = None

    def effect(ex, s):
        x = s.this.edges_[s.old.this.edges_.len]
        ex.ghost_set("sat", z3.And(ex.ghost_get("sat"), z3.Implies(holds(s, x.lit), VAL(fr(x)) - VAL(x.to) <= x.weight)))
    c.effect = effect if assumed else None
    c.requires = None
    c.ensures = lambda s, e=c.ensures: [x for x in e(s) if x[0] in ("one", "edge")]
    return c


def add_edges_2(assumed=False):
    """add_edges_(init, u, v, weight, lit, strict)"""
    def constraint(s):
        return z3.Implies(holds(s, s.arg(4)), VAL(s.arg(1)) - VAL(s.arg(2)) <= s.arg(3))

    def effect(ex, s):
        ex.ghost_set("sat", z3.And(ex.ghost_get("sat"), constraint(s)))
    return Contract(D + "add_edges_", mode="exact", arity=6, assumed=assumed, requires=lambda s: [("non-strict", z3.Not(s.arg(5)))], modifies=EDGES + (["ghost:sat"] if not assumed else []),
                    ensures=lambda s: [] if assumed else [("meaning", s.g("sat") == z3.And(s.old.g("sat"), constraint(s)))], effect=effect)


def form(s, k):
    """At most two variables with different signs."""
    c = s.arg(k)
    unit = lambda x: z3.Or(x == 1, x == -1)
    return z3.Or(c.len == 0, z3.And(c.len == 1, unit(c[0].first)), z3.And(c.len == 2, unit(c[0].first), c[1].first == -c[0].first))


def add_edges_1(assumed=False):
    """add_edges_(init, literal, covec, rhs, strict)"""
    def constraint(s):
        return z3.Implies(holds(s.old, s.arg(1)), total(s.old.arg(2)) <= s.arg(3))

    def effect(ex, s):
        ex.ghost_set("sat", z3.And(ex.ghost_get("sat"), constraint(s)))
    ens = lambda s: [] if assumed else [("meaning", s.g("sat") == z3.And(s.old.g("sat"), constraint(s))), ("form", form(s.old, 2))] + zero(s)
    return Contract(D + "add_edges_", mode="exact", arity=5, defs=lambda s: axioms(), assumed=assumed, modifies=EDGES + VERTS + (["ghost:sat"] if not assumed else []), ensures=(lambda s: [("form", form(s.old, 2))] + zero(s)) if assumed else ens,
                    requires=lambda s: [("non-strict", z3.Not(s.arg(4)))] + zero(s) + literals(s) + known(s, s.arg(1)), effect=effect,
                    ensures_throw=lambda s: [("rejected", z3.Not(form(s.old, 2)))], throws=True)


def normalize(assumed=False):
    def strict(s):
        return s.arg(5)

    def req(s):
        return [("operator", z3.Or(*[is_op(s, 3, o) for o in OPS]))] + zero(s) + literals(s) + known(s, s.arg(1)) + elements(s, 2)

    def constraint(s):
        o = s.old
        return meaning(o, s.arg(1), relation(o, 3, s.old.arg(4), total(o.arg(2))), o.arg(5))

    def effect(ex, s):
        ex.ghost_set("sat", z3.And(ex.ghost_get("sat"), z3.Or(z3.Not(s.result), constraint(s))))

    def ens(s):
        # callers refer to the truth values of their own literals only, which are not changed
        out = zero(s) + literals(s) + same(s)
        if not assumed:
            f, o = project(s.g("sat")), s.old
            out += [("meaning %s %s" % (op, "strict" if b else "non-strict"), z3.Implies(z3.And(s.result, is_op(o, 3, op), strict(o) == z3.BoolVal(b)), f == z3.And(o.g("sat"), constraint(s))))
                    for op in OPS for b in (False, True)]
        return out

    def copy(l):
        e, c, k = l.arg(2), l.local("copy"), z3.Int("ck")
        return [("copied", z3.And(c.len == l.i, A([k], z3.And(0 <= k, k < l.i), z3.And(c[k].first == -e[k].first, c[k].second == e[k].second, LO <= c[k].first, c[k].first <= HI))))]

    def copied(l):
        return [("inverse", total(l.local("copy")) == -total(l.arg(2)))]
    return Contract(D + "normalize_constraint_", mode="exact", assumed=assumed, requires=req, ensures=ens, defs=lambda s: axioms(), modifies=EDGES + VERTS + ["ghost:literals"] + ([] if assumed else ["ghost:H", "ghost:sat"]),
                    effect=effect, loops=[Loop(copy, name="inverse", exit_cuts=copied)])


def m_init(ex, obj, name, argn, n):
    if name == "assignment":
        return Ext("assignment")
    if name == "add_literal":
        c = ex.ghost_get("literals")
        ex.ghost_set("literals", c + 1)
        tv = ex.ghost_get("tv")
        ex.fact(z3.And(c + 1 <= HI, tv[c + 1] == 0, tv[-(c + 1)] == 0))
        ex.assumptions.add("new literals are not in use and unassigned")
        b = z3.Const(fresh_name("aux"), B)
        h = ex.ghost_get("H")
        ex.ghost_set("H", z3.Store(z3.Store(h, c + 1, b), -(c + 1), z3.Not(b)))
        return c + 1
    if name == "add_clause":
        v = ex.ev(argn[0])
        if not (isinstance(v, Ext) and v.kind == "clause"):
            raise ToolLimit("clause")
        h = ex.ghost_get("H")
        ex.ghost_set("sat", z3.And(ex.ghost_get("sat"), z3.Or(*[z3.Select(h, l) for l in v.data["lits"]])))
        return z3.FreshConst(B, "add_clause")
    return NotImplemented


def span(ex, n, args):
    """A clause given by a list of literals."""
    x = args[0]
    while x.get("kind") not in ("InitListExpr",):
        ch = [c for c in x.get("inner", ()) if "kind" in c]
        if len(ch) != 1:
            raise ToolLimit("clause")
        x = ch[0]
    return Ext("clause", lits=[ex.rv(c) for c in x.get("inner", ())])


def span_args(ex, x):
    """Evaluate the literals of a clause."""
    return ex.ev(x)


def checked(f):
    def call(ex, argn, n):
        vs = [ex.rv(a) for a in argn]
        r = f(*vs)
        ex.fact(z3.And(LO <= r, r <= HI))
        ex.assumptions.add("checked arithmetic returns exact results or throws (C08)")
        return r
    return call


def prep(ex):
    it.prep(ex)
    for n, so in (("sat", B), ("H", z3.ArraySort(I, B)), ("literals", I)):
        ex.ghost_init(n, so)


EXTS = dict(it.EXTS)
EXTS.update({"method:Clingo::PropagateInit": m_init, "ctor:Clingo::Span<int>": span, "ctor:Clingo::Span<const int>": span, "call:safe_add": checked(lambda a, b: a + b), "call:safe_sub": checked(lambda a, b: a - b),
             "call:safe_inv": checked(lambda a: -a), "call:Number": lambda ex, argn, n: NUMBER(ex.rv(argn[0])), "call:epsilon": lambda ex, argn, n: z3.IntVal(1)})


# -- atoms -------------------------------------------------------------------
ATOM_LIT, ATOM_DIFF, ATOM_OP = (z3.Function("atom_" + n, I, I) for n in ("literal", "difference", "operator"))
ATOM_IS, ATOM_STRICT = (z3.Function("atom_" + n, I, B) for n in ("constraint", "strict"))
SOLVER = z3.Function("solver_literal", I, I)


def atom_meaning(s, a):
    """The difference of the sides of the atom is related to zero."""
    d, h = ATOM_DIFF(a), z3.Select(s.old.g("H"), SOLVER(ATOM_LIT(a)))
    rel = {"<=": d <= 0, ">=": d >= 0, "<": d < 0, ">": d > 0, "=": d == 0, "!=": d != 0}
    f = z3.BoolVal(False)
    for k, o in enumerate(OPS):
        f = z3.If(ATOM_OP(a) == k, rel[o], f)
    return z3.If(ATOM_STRICT(a), h == f, z3.Implies(h, f))


def atoms_meaning(s, n):
    a = z3.Int("atom")
    return A([a], z3.And(0 <= a, a < n, ATOM_IS(a)), atom_meaning(s, a))


def x_parse(ex, argn, n):
    """The parsed constraint is equivalent to the atom (C07); vertices are added by the given function only."""
    a = ex.rv(argn[0])
    if not (isinstance(a, Ext) and a.kind == "atom"):
        raise ToolLimit("atom")
    a = a.data["idx"]
    from cxxwp.exec import Blob, Ptr
    from cxxwp.interp import CHARS
    pre = ex.st.copy()
    fr = ex.top
    ctx0 = SpecCtx(ex, pre, fr)
    for nm, f in zero(ctx0):
        ex.oblige("parse.pre." + nm, f, "call-pre")
    keys = set()
    for m in VERTS:
        keys |= ex.resolve_mod(fr, m)
    ex.havoc(ex.st, keys)
    ex.ranges_after_havoc(ex.st, keys)
    for nm, f in zero(SpecCtx(ex, ex.st, fr)) + c09.stable(SpecCtx(ex, ex.st, fr).this, ctx0.this):
        ex.fact(f)
    ty = ("rec", ex.unit.find_record("EdgeAtom<int>"))
    v = ex.fresh_value(ty, "edge")
    addr = z3.FreshConst(I, "rel")
    v.objs[("rel", "@")] = Ptr(CHARS, addr)
    lhs = [v.leaves[("lhs", "[]", f)] for f in "01"]
    mem = z3.Const("$chars.[]", AI)
    is_ = lambda o: z3.And(*[z3.Select(mem, addr + i) == ord(c) for i, c in enumerate(o)], z3.Select(mem, addr + len(o)) == 0)
    k, ln = z3.Int("ej"), v.leaves[("lhs", "len")]
    ex.fact(z3.And(SUM(*lhs, ln) - v.leaves[("rhs",)] == ATOM_DIFF(a), v.leaves[("strict",)] == ATOM_STRICT(a), v.leaves[("literal",)] == ATOM_LIT(a),
                   A([k], z3.And(0 <= k, k < ln), z3.And(LO <= lhs[0][k], lhs[0][k] <= HI)), 0 <= ATOM_OP(a), ATOM_OP(a) < len(OPS), addr >= 0, addr < 900000))
    for j, o in enumerate(OPS):
        ex.fact(is_(o) == (ATOM_OP(a) == j))
    ex.assumptions.add("parse returns an equivalent constraint (C07)")
    return v


def x_match(ex, argn, n):
    """Only terms of atoms of the theory match."""
    t = ex.rv(argn[0])
    f = z3.FreshConst(B, "match")
    if not (isinstance(t, Ext) and t.kind == "term"):
        raise ToolLimit("match")
    from . import opts
    names = [k for k in ex.strings]
    a = t.data["idx"]
    name = ex.rv(argn[1])
    inv = {v: k for k, v in ex.strings.items()}
    txt = inv.get(z3.simplify(name.idx).as_long()) if z3.is_int_value(z3.simplify(name.idx)) else None
    if txt == "__diff_b":
        ex.fact(f == z3.And(ATOM_IS(a), ATOM_STRICT(a)))
    elif txt == "__diff_h":
        ex.fact(f == z3.And(ATOM_IS(a), z3.Not(ATOM_STRICT(a))))
    return f


def m_init_atoms(ex, obj, name, argn, n):
    if name == "theory_atoms":
        return Ext("atoms", range=lambda ex, r: (ex.ghost_get("atoms"), lambda i: Ext("atom", idx=i), ("opq", "Clingo::TheoryAtom")))
    if name == "solver_literal":
        return SOLVER(ex.rv(argn[0]))
    return m_init(ex, obj, name, argn, n)


def m_atom(ex, obj, name, argn, n):
    if name == "term":
        return Ext("term", idx=obj.data["idx"])
    if name == "literal":
        return ATOM_LIT(obj.data["idx"])
    return NotImplemented


def add_constraints():
    a = z3.Int("atom")

    def lits(s):
        n = s.g("literals")
        l = SOLVER(ATOM_LIT(a))
        return [("literals", z3.And(n >= 1, n <= HI, s.g("atoms") >= 0, A([a], z3.BoolVal(True), z3.And(l != 0, -n <= l, l <= n))))]

    def inv(l):
        return zero(l) + literals(l) + lits(l) + same(l) + [("meaning", l.g("sat") == z3.And(l.old.g("sat"), atoms_meaning(l, l.i)))]

    def step(l):
        h, i = l.head, l.i - 1
        return [("atom", l.g("sat") == z3.And(h.g("sat"), z3.Implies(ATOM_IS(i), atom_meaning(l, i)))),
                ("all", atoms_meaning(l, l.i) == z3.And(atoms_meaning(l, i), z3.Implies(ATOM_IS(i), atom_meaning(l, i))))]
    return Contract(D + "add_constraints_", requires=lambda s: zero(s) + literals(s) + lits(s), ensures=lambda s: [
        ("meaning", z3.Implies(s.result, s.g("sat") == z3.And(s.old.g("sat"), atoms_meaning(s, s.g("atoms")))))], modifies=EDGES + VERTS + ["ghost:literals", "ghost:sat"],
        loops=[Loop(inv, name="atoms", step_cuts=step)])


def prep_atoms(ex):
    prep(ex)
    ex.ghost_init("atoms", I)


EXTS_ATOMS = dict(EXTS)
EXTS_ATOMS.update({"method:Clingo::PropagateInit": m_init_atoms, "method:atom": m_atom, "method:Clingo::TheoryAtom": m_atom, "call:parse": x_parse, "call:match": x_match})


def modules_():
    rec = normalize()
    # recursive calls are replaced by the contract
    call = normalize(True)
    return [Module("edge", SRC, it.config() + [it.add_watches(True), add_edge(False)], externals=it.EXTS, prepare=prep),
            Module("edges-2", SRC, [add_edge(), add_edges_2()], externals=EXTS, prepare=prep, lemmas=lemmas()),
            Module("edges-1", SRC, [add_edges_2(True), c09.map_vertex(True), add_edges_1()], externals=EXTS, prepare=prep),
            Module("normalize", SRC, [add_edges_1(True), rec, call], externals=EXTS, prepare=prep),
            Module("atoms", SRC, [normalize(True), add_constraints()], externals=EXTS_ATOMS, prepare=prep_atoms)]


PROP = "NZ"
def modules(tier):
    return modules_()
