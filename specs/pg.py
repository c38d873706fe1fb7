"""Propagation in the graph (graph.cc): every clause is implied by the constraints.

As in cy.py, sigma is an arbitrary assignment of integers to vertices that satisfies the
constraints of all edges with true literals, and every clause has to contain a true literal."""
import z3
from cxxwp.exec import Ext, LV
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import gr, hp, cy
from .cy import A, GV, SIGMA, HOLDS, consistent, falsified
from .gr import G, SRC
from .pr import I, B

STATE = ["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_"]


class PV(GV):
    def cin(self, x):
        return self.v[x].candidate_incoming

    def cout(self, x):
        return self.v[x].candidate_outgoing

    def candidates(self, but=None):
        """Candidate edges are listed at their ends."""
        x, k = z3.Ints("x k")
        e, f = self.cin(x)[k], self.cout(x)[k]
        return z3.And(A([x, k], z3.And(0 <= x, x < self.v.len, 0 <= k, k < self.cin(x).len), z3.And(0 <= e, e < self.e.len, self.to(e) == x)),
                      A([x, k], z3.And(0 <= x, x < self.v.len, 0 <= k, k < self.cout(x).len), z3.And(0 <= f, f < self.e.len, self.frm(f) == x)))

    def tree(self, u):
        """Paths along visited vertices lead to u and are tight."""
        x = z3.Int("x")
        pe = self.path(x)
        return z3.And(z3.Not(self.visited(u)), A([x], z3.And(0 <= x, x < self.v.len, self.visited(x)), z3.And(
            0 <= pe, pe < self.e.len, self.to(pe) == x, z3.Or(self.frm(pe) == u, self.visited(self.frm(pe))),
            self.pot(x) == self.pot(self.frm(pe)) + self.w(pe))))


def disable_edge():
    def ens(s):
        e, x, k = s.arg(0), *z3.Ints("x k")
        st, ot, d, od = s.this.edge_states_, s.old.this.edge_states_, s.this.disabled_edges_, s.old.this.disabled_edges_
        g, o = s.this.vertices_, s.old.this.vertices_
        u, v = gr.frm(s.this, e), s.this.edges_[e].to
        return [("disabled", st[e].enabled == 0),
                ("others", A([x], x != e, st[x].enabled == ot[x].enabled)),
                ("removed", A([x], z3.BoolVal(True), z3.And(st[x].removed_incoming == ot[x].removed_incoming, st[x].removed_outgoing == ot[x].removed_outgoing))),
                ("recorded", z3.And(d.len == od.len + 1, d[od.len] == e)), ("earlier", A([k], z3.And(0 <= k, k < od.len), d[k] == od[k])),
                ]
    return Contract(G + "disable_edge", requires=lambda s: [("edge", z3.And(0 <= s.arg(0), s.arg(0) < s.this.edges_.len)), ("enabled", s.this.edge_states_[s.arg(0)].enabled != 0)],
                    modifies=["this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_[].enabled"], ensures=ens)


def prem(s, e):
    g = PV(s.this)
    return [("edge", z3.And(0 <= e, e < g.e.len)), ("ends", g.ends()), ("candidates", g.candidates()), ("sigma", consistent(s))]


CAND = ["this.vertices_[].candidate_incoming", "this.vertices_[].degree_in", "this.vertices_[].degree_out", "this.disabled_edges_", "this.edge_states_",
        "this.clause_", "this.stats_", "ghost:clauses"]


def kept(s, u):
    """Edges starting at u are not disabled."""
    g, e = PV(s.this), z3.Int("e")
    return A([e], z3.And(0 <= e, e < g.e.len, g.frm(e) == u, s.old.this.edge_states_[e].enabled != 0), s.this.edge_states_[e].enabled != 0)


def result(s):
    return [("result", z3.Or(s.result, s.g("clauses") > s.old.g("clauses"))), ("clauses", s.g("clauses") >= s.old.g("clauses")),
            ("candidates", PV(s.this).candidates())]


def over(l):
    """The traversal of incoming candidate edges keeps a prefix of the edges."""
    p, q, e = l.local("jt").idx, l.i, l.local("ie").idx
    g, x = PV(l.this), l.arg(1)
    return [("range", z3.And(0 <= p, p <= q, q <= e, e == g.cin(x).len)), ("candidates", g.candidates()), ("clauses", l.g("clauses") >= l.old.g("clauses")),
            ("kept", kept(l.outer, l.outer.arg(1) if l.ex.top.func.get("name") == "cheap_propagate_" else g.frm(l.outer.arg(1))))]


def cheap():
    def req(s):
        g, u, x = PV(s.this), s.arg(1), s.arg(2)
        return prem(s, z3.IntVal(0))[1:] + [("vertices", z3.And(0 <= u, u < g.v.len, 0 <= x, x < g.v.len)), ("tree", g.tree(u))]

    def walk(l):
        g, u, t, r, ch = PV(l.outer.this), l.outer.arg(1), l.local("t_idx"), l.local("r_idx"), l.local("check")
        c = l.outer.this.clause_
        return [("vertex", z3.And(0 <= r, r < g.v.len, z3.Or(r == u, g.visited(r)))), ("cost", ch == g.pot(t) - g.pot(r)),
                ("clause", z3.Implies(falsified(c), SIGMA(r) - SIGMA(t) <= ch))]

    def walk_step(l):
        g, x, y = PV(l.outer.this), l.head.local("r_idx"), l.local("r_idx")
        c, d, k = l.outer.this.clause_, l.head.outer.this.clause_, z3.Int("k")
        e = g.path(x)
        return [("prefix", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.len), c[k] == d[k]), patterns=[d[k]])),
                ("path", z3.And(g.frm(e) == y, g.to(e) == x)),
                ("literal", z3.Implies(falsified(c), z3.Not(HOLDS(-g.lit(e))))), ("shorter", z3.Implies(falsified(c), falsified(d))),
                ("meets", z3.Implies(falsified(c), g.meets(e)))]
    return Contract(G + "cheap_propagate_", requires=req, ensures=lambda s: result(s) + [("kept", kept(s, s.arg(1)))], modifies=CAND,
                    loops=[Loop(over, name="incoming"), Loop(walk, name="walk", step_cuts=walk_step)])


def visited_list(s):
    g, vl, k = PV(s.this), s.this.visited_from_, z3.Int("k")
    return A([k], z3.And(0 <= k, k < vl.len), z3.And(0 <= vl[k], vl[k] < g.v.len))


def simple():
    def req(s):
        g, e = PV(s.this), s.arg(1)
        return prem(s, e) + [("loop", g.frm(e) != g.to(e)), ("tree", g.tree(g.frm(e))), ("list", visited_list(s))]

    def plus(l):
        g = PV(l.this)
        return [("candidates", g.candidates()), ("clauses", l.g("clauses") >= l.old.g("clauses")), ("kept", kept(l, g.frm(l.arg(1))))]
    return Contract(G + "propagate_simple_", requires=req, ensures=lambda s: result(s) + [("kept", kept(s, PV(s.this).frm(s.arg(1))))], modifies=CAND, loops=[Loop(over, name="incoming"), Loop(plus, name="plus")])


EXTS = dict(cy.EXTS)
PROP = "PG"
def modules(tier):
    return [Module("disable", SRC, [disable_edge()]), Module("simple", SRC, [disable_edge(), cheap(), simple()], externals=EXTS, prepare=cy.prep)]
