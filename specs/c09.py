"""C09: symbols and variable indices correspond one-to-one."""
import z3
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import har, pr
from .pr import D

PROP = "C09"
LEVEL = "proof"


def trigger(t):
    """The term as pattern if it contains no conditionals."""
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_app_of(x, z3.Z3_OP_STORE):
            return []
        st.extend(x.children())
    return [t]


def bijection(t):
    """The index is the inverse of the table of symbols."""
    v, s = z3.Ints("v sy")
    n, m, info = t.vertex_info_.len, t.vert_map_inv_, t.vertex_info_
    return [("indexed", z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n), z3.And(m.has(info[v].symbol), m.val(info[v].symbol) == v)))),
            ("listed", z3.ForAll([s], z3.Implies(m.has(s), z3.And(0 <= m.val(s), m.val(s) < n, info[m.val(s)].symbol == s)),
                                 patterns=trigger(m.has(s))))]


def stable(new, old):
    v = z3.Int("v")
    return [("grows", new.vertex_info_.len >= old.vertex_info_.len),
            ("stable", z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < old.vertex_info_.len), new.vertex_info_[v].symbol == old.vertex_info_[v].symbol)))]


def map_vertex(assumed=False):
    def ens(s):
        t, o, x = s.this, s.old.this, s.arg(0)
        v = z3.Int("v")
        return bijection(t) + stable(t, o) + [
            ("index", z3.And(0 <= s.result, s.result < t.vertex_info_.len)), ("symbol", t.vertex_info_[s.result].symbol == x),
            ("known", z3.Implies(o.vert_map_inv_.has(x), z3.And(t.vertex_info_.len == o.vertex_info_.len, s.result == o.vert_map_inv_.val(x)))),
            ("new", z3.Implies(z3.Not(o.vert_map_inv_.has(x)), z3.And(t.vertex_info_.len == o.vertex_info_.len + 1, s.result == o.vertex_info_.len))),
            ("unvisited", z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < o.vertex_info_.len), z3.And(
                t.vertex_info_[v].cc == o.vertex_info_[v].cc, t.vertex_info_[v].visited == o.vertex_info_[v].visited))))]
    return Contract(D + "map_vertex_", requires=lambda s: bijection(s.this), modifies=["this.vertex_info_", "this.vert_map_inv_"], ensures=ens,
                    assumed=assumed)


def lookup():
    v = z3.Int("v")

    def ens(s):
        info, n = s.this.vertex_info_, s.this.vertex_info_.len
        return [("found-or-unknown", z3.Or(z3.And(0 <= s.result, s.result < n, info[s.result].symbol == s.arg(0)),
                                           z3.And(s.result == n, z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < n), info[v].symbol != s.arg(0))))))]
    return Contract(D + "lookup", requires=lambda s: bijection(s.this), ensures=ens)


def symbol():
    return Contract(D + "symbol", requires=lambda s: [("index", s.arg(0) < s.this.vertex_info_.len)], bounds=True,
                    ensures=lambda s: [("symbol", s.result == s.this.vertex_info_[s.arg(0)].symbol)])


def count():
    return Contract(D + "num_vertices", ensures=lambda s: [("count", s.result == s.this.vertex_info_.len)])


def unique():
    """Consequences of the relation between the table and the index."""
    m, val, sym = z3.Function("m", z3.IntSort(), z3.BoolSort()), z3.Function("val", z3.IntSort(), z3.IntSort()), z3.Function("sym", z3.IntSort(), z3.IntSort())
    v, w, n = z3.Ints("v w n")
    inv = lambda x: z3.Implies(z3.And(0 <= x, x < n), z3.And(m(sym(x)), val(sym(x)) == x))
    return [("distinct", [inv(v), inv(w), 0 <= v, v < n, 0 <= w, w < n, sym(v) == sym(w)], v == w)]


def modules(tier):
    from . import st, c14, wr
    return st.module() + [c14.symbols(), wr.module(wr.symbols()), Module("vertices", pr.SRC, [map_vertex(), lookup(), symbol(), count()], externals=pr.EXTS, prepare=pr.prepare, lemmas=unique())]


HARNESS = [har.graph(), har.e2e()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["only the instantiation T=int is covered", "potentials and costs do not overflow"]
BOUNDED_SCOPE = "random graphs with up to 14 size steps, random insertion, backtracking and modes on the real graph and propagator classes with a mocked solver; random programs (at most 5 choices, 4 body constraints, 6 variables, 3 steps, 3 threads) solved with the real solver and compared with brute force"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "The table of symbols and the index are inverse to each other; map_vertex_ keeps existing indices and adds at most one, adding constraints keeps them, too, lookup returns the index of a known symbol and the number of vertices otherwise."
