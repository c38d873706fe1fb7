"""Structure of the edges added for constraints (add_constraints_, normalize_constraint_, add_edges_): edges are
appended, listed by literal, watched by all threads, and connect existing vertices."""
import z3
from cxxwp.exec import Ext, SpecCtx, Ptr
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import pr, it, c09, cc, nz
from .pr import D, I, B, fr, SRC
from .cy import A

MODS = ["this.edges_", "this.lit_to_edges_", "this.disable_edges_", "this.vertex_info_", "this.vert_map_inv_", "ghost:watched"]


def req(s):
    return it.indexed(s) + cc.CV(s).ends() + c09.bijection(s.this)


def ens(s):
    return [it.prefix(s), ("watches", it.edges_covered(s, s.old.this.edges_.len)), it.more(s), it.sticky(s)] + it.indexed(s) + cc.CV(s).ends() + c09.bijection(s.this) + c09.stable(s.this, s.old.this)


def vertices(s, view):
    j = z3.Int("vj")
    return [("vertices", A([j], z3.And(0 <= j, j < view.len), z3.And(0 <= view[j].second, view[j].second < s.this.vertex_info_.len)))]


def add_edges_2(assumed=False):
    n = lambda s: s.this.vertex_info_.len
    return Contract(D + "add_edges_", arity=6, assumed=assumed, modifies=[m for m in MODS if "vert" not in m], ensures=ens,
                    requires=lambda s: req(s) + [("vertices", z3.And(0 <= s.arg(1), s.arg(1) < n(s), 0 <= s.arg(2), s.arg(2) < n(s)))])


def add_edges_1(assumed=False):
    return Contract(D + "add_edges_", arity=5, assumed=assumed, modifies=MODS, ensures=ens, requires=lambda s: req(s) + vertices(s, s.arg(2)))


def normalize(assumed=False):
    def copy(l):
        return [("length", l.local("copy").len == l.i)] + vertices(l, l.local("copy"))
    return Contract(D + "normalize_constraint_", assumed=assumed, modifies=MODS, ensures=ens, requires=lambda s: req(s) + vertices(s, s.arg(2)),
                    loops=[Loop(copy, name="inverse")])


def constraints(assumed=False):
    more = (lambda s: [("ok", s.g("ok") == s.result)]) if assumed else (lambda s: [])
    return Contract(D + "add_constraints_", assumed=assumed, modifies=MODS + (["ghost:clauses", "ghost:ok"] if assumed else []), requires=req, ensures=lambda s: ens(s) + more(s),
                    loops=[Loop(ens, name="atoms")])


def m_init(ex, obj, name, argn, n):
    if name in ("add_literal", "solver_literal"):
        if name == "solver_literal":
            ex.rv(argn[0])
        return z3.FreshConst(I, "literal")
    if name == "add_clause":
        nz.span_args(ex, argn[0])
        return z3.FreshConst(B, "add_clause")
    if name == "theory_atoms":
        return Ext("atoms", range=lambda ex, r: (ex.ghost_get("atoms"), lambda i: Ext("atom", idx=i), ("opq", "Clingo::TheoryAtom")))
    return it.m_init(ex, obj, name, argn, n)


def x_parse(ex, argn, n):
    """Vertices are added by the given function and the constraint refers to them."""
    fr, pre = ex.top, ex.st.copy()
    ctx0 = SpecCtx(ex, pre, fr)
    for nm, f in c09.bijection(ctx0.this):
        ex.oblige("parse.pre." + nm, f, "call-pre")
    keys = set()
    for m in nz.VERTS:
        keys |= ex.resolve_mod(fr, m)
    ex.havoc(ex.st, keys)
    ex.ranges_after_havoc(ex.st, keys)
    t = SpecCtx(ex, ex.st, fr).this
    for nm, f in c09.bijection(t) + c09.stable(t, ctx0.this):
        ex.fact(f)
    v = ex.fresh_value(("rec", ex.unit.find_record("EdgeAtom<int>")), "edge")
    from cxxwp.interp import CHARS
    v.objs[("rel", "@")] = Ptr(CHARS, z3.FreshConst(I, "rel"))
    j, var = z3.Int("vj"), v.leaves[("lhs", "[]", "1")]
    ex.fact(A([j], z3.And(0 <= j, j < v.leaves[("lhs", "len")]), z3.And(0 <= var[j], var[j] < t.vertex_info_.len)))
    ex.assumptions.add("variables of parsed constraints are vertices returned by the given function (C07)")
    return v


EXTS = dict(nz.EXTS_ATOMS)
EXTS.update({"method:Clingo::PropagateInit": m_init, "call:parse": x_parse, "call:match": lambda ex, argn, n: z3.FreshConst(B, "match")})


def module():
    n = normalize()
    n.paths = True
    return [Module("structure", SRC, [it.add_edge(True), c09.map_vertex(True), add_edges_2(), add_edges_1(True)], externals=EXTS, prepare=nz.prep_atoms),
            Module("structure-covec", SRC, [it.add_edge(True), c09.map_vertex(True), add_edges_2(True), add_edges_1()], externals=EXTS, prepare=nz.prep_atoms),
            Module("structure-normalize", SRC, [add_edges_1(True), n, normalize(True)], externals=EXTS, prepare=nz.prep_atoms),
            Module("structure-atoms", SRC, [normalize(True), constraints()], externals=EXTS, prepare=nz.prep_atoms)]


PROP = "ST"
def modules(tier):
    return module()
