// Concrete search and replay for the graph and propagator properties
// (C01 C02 C03 C04 C05 C14 C15 C17 C18 C19 C20) on the real sources.
//
// usage: h_graph <property> <seed> <first episode> <number of episodes> <seconds>
#include "mock.hh"
#include "graph.cc"
#include "propagator.cc"

using namespace ClingoDL;
using G = ClingoDL::Graph<int>;
using P = DLPropagator<int>;
using lit = Clingo::literal_t;

static void report(std::string const &what);
extern "C" CLINGO_VISIBILITY_DEFAULT void __assert_fail(char const *e, char const *f, unsigned l, char const *) noexcept {
    report(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
    std::exit(1);
}
static std::string prop_id;
static std::vector<std::string> trace_log;
static void note(std::string s) { trace_log.push_back(std::move(s)); }
static long cur_episode = 0;
static unsigned cur_seed = 0;
static void report(std::string const &what) {
    std::cout << "FAIL episode " << cur_episode << " seed " << cur_seed << ": " << what << "\n";
    for (auto &s : trace_log) { std::cout << "  " << s << "\n"; }
    std::cout.flush();
}
[[noreturn]] static void fail(std::string const &msg) { throw Violation(msg); }
static bool on(char const *p) { return prop_id == p; }

struct E { vertex_t u, v; int w; lit l; };

// shortest paths from source over edges, nullopt on negative cycle
template <class ES> static bool neg_cycle(size_t nv, ES const &es) {
    std::vector<long> d(nv, 0);
    for (size_t i = 0; i <= nv; ++i) {
        bool ch = false;
        for (auto const &e : es) {
            if (d[e.from] + e.weight < d[e.to]) { d[e.to] = d[e.from] + e.weight; ch = true; }
        }
        if (!ch) { return false; }
    }
    return true;
}
constexpr long INF = 1L << 40;
template <class ES> static std::vector<std::vector<long>> apsp(size_t nv, ES const &es) {
    std::vector<std::vector<long>> d(nv, std::vector<long>(nv, INF));
    for (size_t i = 0; i < nv; ++i) { d[i][i] = 0; }
    for (auto const &e : es) { d[e.from][e.to] = std::min(d[e.from][e.to], (long)e.weight); }
    for (size_t k = 0; k < nv; ++k) for (size_t i = 0; i < nv; ++i) for (size_t j = 0; j < nv; ++j)
        if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    return d;
}

struct Snapshot {
    struct V { std::vector<std::pair<vertex_t, int>> pot; std::vector<vertex_t> out, in; bool vl, vu; int bl, bu; edge_t pl, pu; vertex_t dout, din;
        std::set<edge_t> cin, cout; };
    std::vector<V> vs;
    std::vector<int> enabled;
    size_t cv, ce, de, vlo, vup, lt, ut, tr;
    bool can;
};

struct Episode {
    std::mt19937 rng;
    Mock m;
    Statistics stats;
    PropagatorConfig conf;
    std::unique_ptr<P> prop;
    std::vector<Snapshot> snaps; // one per graph level >= 1
    size_t maxv = 0;
    int steps = 1;
    // constraint edges given by the user: (u,v,w,lit) over user symbols, zero is -1
    struct C { int u, v, w; lit l; bool dropped; };
    std::vector<C> cons;
    int nv = 0;
    long evals = 0;
    bool nontrivial = false;

    int rnd(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
    bool chance(int pct) { return rnd(0, 99) < pct; }

    G &graph() { return prop->states_[0].graph; }

    Snapshot snap() {
        auto &g = graph();
        Snapshot s;
        for (auto &v : g.vertices_) {
            Snapshot::V x;
            x.pot = v.potential_stack;
            x.out = v.outgoing; x.in = v.incoming;
            x.vl = v.visited_lower; x.vu = v.visited_upper;
            x.bl = v.visited_lower ? v.bound_lower : 0; x.bu = v.visited_upper ? v.bound_upper : 0;
            x.pl = v.visited_lower ? v.path_lower : 0; x.pu = v.visited_upper ? v.path_upper : 0;
            x.dout = v.degree_out; x.din = v.degree_in;
            for (auto e : v.candidate_incoming) { if (g.edge_states_[e].enabled) { x.cin.insert(e); } }
            for (auto e : v.candidate_outgoing) { if (g.edge_states_[e].enabled) { x.cout.insert(e); } }
            s.vs.push_back(std::move(x));
        }
        for (auto &e : g.edge_states_) { s.enabled.push_back(e.enabled); }
        s.cv = g.changed_vertices_.size(); s.ce = g.changed_edges_.size(); s.de = g.disabled_edges_.size();
        s.vlo = g.visited_lower_.size(); s.vup = g.visited_upper_.size(); s.lt = g.lower_trail_.size(); s.ut = g.upper_trail_.size(); s.tr = g.changed_trail_.size();
        s.can = g.can_propagate();
        return s;
    }
    void compare(Snapshot const &a, Snapshot const &b) {
        for (size_t i = 0; i < a.vs.size(); ++i) {
            auto &x = a.vs[i]; auto &y = b.vs[i];
            auto at = " of vertex " + std::to_string(i);
            if (x.pot != y.pot) { fail("potential" + at + " not restored"); }
            if (x.out != y.out) { fail("outgoing edges" + at + " not restored"); }
            if (x.in != y.in) { fail("incoming edges" + at + " not restored"); }
            if (x.vl != y.vl || x.vu != y.vu) { fail("bound flags" + at + " not restored"); }
            if (x.bl != y.bl || x.bu != y.bu || x.pl != y.pl || x.pu != y.pu) { fail("bounds" + at + " not restored"); }
            if (x.dout != y.dout || x.din != y.din) { fail("degrees" + at + " not restored"); }
            if (x.cin != y.cin || x.cout != y.cout) { fail("candidate edges" + at + " not restored"); }
        }
        if (a.enabled != b.enabled) { fail("enabled edges not restored"); }
        if (a.cv != b.cv || a.ce != b.ce || a.de != b.de || a.vlo != b.vlo || a.vup != b.vup || a.lt != b.lt || a.ut != b.ut || a.tr != b.tr) { fail("trails not restored"); }
        if (a.can != b.can) { fail("propagation permission not restored"); }
    }
    void check_enabled_are_candidates() {
        auto &g = graph();
        for (size_t e = 0; e < g.edge_states_.size(); ++e) {
            if (!g.edge_states_[e].enabled) { continue; }
            auto &o = g.vertices_[prop->edges_[e].from].candidate_outgoing;
            auto &i = g.vertices_[prop->edges_[e].to].candidate_incoming;
            if (std::count(o.begin(), o.end(), e) != 1 || std::count(i.begin(), i.end(), e) != 1) { fail("enabled edge " + std::to_string(e) + " is not listed exactly once as candidate"); }
        }
    }

    std::vector<G::Edge> current() {
        std::vector<G::Edge> r;
        for (auto e : graph().changed_edges_) { r.push_back(prop->edges_[e]); }
        return r;
    }

    void on_clause(std::vector<lit> const &c) {
        ++evals;
        std::string s = "clause:";
        for (auto l : c) { s += " " + std::to_string(l); }
        note(s);
        if (in_init ? !on("C20") : !on("C03")) { return; }
        std::vector<G::Edge> es;
        for (auto &e : prop->edges_) {
            if (e.lit == 1 || std::find(c.begin(), c.end(), -e.lit) != c.end()) {
                if (e.lit == 1 && std::find(c.begin(), c.end(), -e.lit) == c.end()) { continue; }
                es.push_back(e);
            }
        }
        nontrivial = true;
        if (!neg_cycle(prop->vertex_info_.size(), es)) { fail("clause is not implied: the edges of its literals contain no negative cycle"); }
    }

    bool in_init = false;
    void setup(int size) {
        nv = rnd(1, std::min(2 + size / 4, 6));
        int ne = rnd(1, 2 + size);
        int wr = rnd(1, 6);
        conf.propagate_mode = static_cast<PropagationMode>(rnd(0, 5));
        if (on("C05")) { conf.propagate_mode = chance(60) ? PropagationMode::Strong : PropagationMode::Zero; }
        conf.sort_mode = static_cast<SortMode>(rnd(0, 4));
        conf.calculate_cc = chance(70);
        if (!on("C05") || chance(20)) {
            if (chance(25)) { conf.propagate_root = rnd(0, 4); }
            if (chance(25)) { conf.propagate_budget = rnd(0, 20); }
        }
        if (on("C05")) { conf.propagate_root = conf.propagate_budget = 0; }
        if (on("C20")) { conf.mutex_size = rnd(1, 5); conf.mutex_cutoff = rnd(1, 40); }
        if (on("C15")) { conf.decision_mode = static_cast<DecisionMode>(rnd(0, 2)); }
        prop = std::make_unique<P>(stats, conf);
        m.on_clause = [this](std::vector<lit> const &c) { on_clause(c); };
        int failpct = chance(20) ? 15 : 0;
        if (on("C05")) { failpct = 0; }
        m.fail_clause = [this, failpct]() { return !in_init && failpct > 0 && chance(failpct); };
        steps = chance(on("C19") || on("C17") ? 80 : 15) ? rnd(2, 3) : 1;
        nstep_edges = std::max(1, ne / steps);
        wrange = wr;
        share = chance(30) ? 40 : 0;
        pzero = chance(50) ? rnd(0, 60) : 0;
        std::ostringstream o;
        o << "config: mode=" << (int)conf.propagate_mode << " sort=" << (int)conf.sort_mode << " cc=" << conf.calculate_cc << " root=" << conf.propagate_root << " budget=" << conf.propagate_budget
          << " mutex=" << conf.mutex_size << "," << conf.mutex_cutoff << " decide=" << (int)conf.decision_mode;
        note(o.str());
    }
    int nstep_edges = 1, wrange = 3, share = 0, pzero = 0;

    void add_constraints(int n) {
        m.clear_theory();
        auto var = [&](int i) -> clingo_id_t { return i < 0 ? m.num(0) : m.fun("x", {m.num(i)}); };
        for (int i = 0; i < n; ++i) {
            int u = chance(pzero) ? -1 : rnd(0, nv - 1);
            int v = chance(pzero) ? -1 : rnd(0, nv - 1);
            if (u == v) { continue; }
            int w = rnd(-wrange, wrange);
            lit l = 0;
            if (chance(share) && m.val.size() > 2) {
                l = rnd(1, (int)m.val.size() - 1);
                if (l == 1 && !chance(20)) { l = 2; }
                if (l != 1 && chance(50)) { l = -l; }
            } else { l = m.new_var(); }
            cons.push_back({u, v, w, l, m.truth(l) < 0});
            std::ostringstream o;
            o << "constraint: x" << u << " - x" << v << " <= " << w << " lit " << l;
            note(o.str());
            m.atom("__diff_h", m.fun("-", {var(u), var(v)}), "<=", m.num(w), l);
        }
    }

    void check_cc() {
        // C17
        ++evals; nontrivial = prop->zero_vertices_.size() > 1;
        auto &info = prop->vertex_info_;
        std::map<std::tuple<int, int, int, lit>, int> want, got;
        for (auto &c : cons) { if (!c.dropped) { ++want[{c.u, c.v, c.w, c.l}]; } }
        auto user = [&](vertex_t v) -> int {
            if (std::find(prop->zero_vertices_.begin(), prop->zero_vertices_.end(), v) != prop->zero_vertices_.end()) { return -1; }
            return info.at(v).symbol.arguments()[0].number();
        };
        for (auto &e : prop->edges_) {
            ++got[{user(e.from), user(e.to), e.weight, e.lit}];
            if (info[e.from].cc != info[e.to].cc) { fail("ends of an edge are in different components"); }
            auto z = prop->zero_vertices_.at(info[e.from].cc);
            if (user(e.from) < 0 && e.from != z) { fail("edge is attached to the zero node of another component"); }
            if (user(e.to) < 0 && e.to != z) { fail("edge is attached to the zero node of another component"); }
        }
        if (want != got) { fail("edges changed by component computation"); }
        // vertices in the same component are connected without zero nodes
        if (conf.calculate_cc) {
            std::vector<size_t> comp(info.size());
            for (size_t i = 0; i < comp.size(); ++i) { comp[i] = i; }
            for (size_t k = 0; k < comp.size(); ++k) {
                for (auto &e : prop->edges_) {
                    if (user(e.from) >= 0 && user(e.to) >= 0) { comp[e.from] = comp[e.to] = std::min(comp[e.from], comp[e.to]); }
                }
            }
            for (size_t i = 0; i < comp.size(); ++i) for (size_t j = 0; j < i; ++j) {
                if (user(i) >= 0 && user(j) >= 0 && (comp[i] == comp[j]) != (info[i].cc == info[j].cc)) { fail("components are not the connected components"); }
            }
        }
    }

    // run one solver step
    void step() {
        add_constraints(nstep_edges);
        // level 0 assignments before init
        auto init = mock_init(m);
        in_init = true;
        prop->init(init);
        in_init = false;
        if (m.conflict) { done = true; return; }
        if (on("C17")) { check_cc(); }
        if (on("C09")) { check_symbols(); }
        snaps.clear();
        seen_levels.clear();
        head = 0;
        // literals that were true before the step are only reported if newly watched
        search();
    }
    void check_symbols() {
        ++evals;
        std::set<Clingo::Symbol> s;
        for (vertex_t i = 0; i < prop->num_vertices(); ++i) {
            if (!s.insert(prop->symbol(i)).second) { fail("two indices share a symbol"); }
            if (prop->lookup(prop->symbol(i)) != i) { fail("lookup of symbol does not return its index"); }
        }
    }

    size_t head = 0;
    bool done = false;
    std::vector<uint32_t> seen_levels;

    void undo_to(uint32_t lvl) {
        while (m.level() > lvl) {
            auto cur = m.level();
            bool called = !seen_levels.empty() && seen_levels.back() == cur;
            if (called) {
                seen_levels.pop_back();
                auto ctl = mock_ctl(m);
                prop->undo(ctl, {});
                if (on("C04") || on("C01")) {
                    ++evals; nontrivial = true;
                    if (on("C04")) { compare(snaps.back(), snap()); check_enabled_are_candidates(); }
                }
                snaps.pop_back();
            }
            m.pop_level();
            note("undo level " + std::to_string(cur));
        }
        head = std::min(head, m.trail.size());
    }

    std::set<lit> reported; // literals of facts reported in this step on level 0
    // returns false on conflict
    bool propagate() {
        while (head < m.trail.size() || need_call) {
            std::vector<lit> ch;
            // report literals level by level: all pending literals are on the current level
            for (; head < m.trail.size(); ++head) {
                if (m.watches.count(m.trail[head]) > 0) { ch.push_back(m.trail[head]); }
            }
            need_call = false;
            if (ch.empty()) { continue; }
            if (chance(30)) { std::shuffle(ch.begin(), ch.end(), rng); }
            std::string s = "propagate level " + std::to_string(m.level()) + ":";
            for (auto l : ch) { s += " " + std::to_string(l); }
            note(s);
            if (m.level() > 0 && (seen_levels.empty() || seen_levels.back() != m.level())) {
                seen_levels.push_back(m.level());
                snaps.push_back(snap());
            }
            auto ctl = mock_ctl(m);
            std::vector<edge_t> before;
            prop->propagate(ctl, {ch.data(), ch.size()});
            if (on("C02") || on("C01")) { check_feasible(); }
            if (on("C04")) { check_temporaries(); }
            if (m.conflict) { return false; }
            if (on("C02")) { check_all_added(ch); }
            if (on("C05")) { check_complete(); }
        }
        return true;
    }
    bool need_call = false;
    void check_temporaries() {
        auto &g = graph();
        if (!g.visited_from_.empty() || !g.visited_to_.empty() || !g.costs_heap_.empty()) { fail("temporary search state survives"); }
        for (auto &v : g.vertices_) { if (v.visited_from || v.visited_to || v.relevant_from || v.relevant_to) { fail("temporary vertex flags survive"); } }
    }
    void check_feasible() {
        ++evals;
        auto &g = graph();
        auto es = current();
        if (es.size() > 1) { nontrivial = true; }
        if (m.conflict) {
            return;
        }
        for (auto &e : es) {
            if (!g.vertices_[e.from].defined() || !g.vertices_[e.to].defined()) { fail("vertex of an added edge has no potential"); }
            if (g.vertices_[e.from].potential() + e.weight - g.vertices_[e.to].potential() < 0) { fail("potentials violate an added edge"); }
        }
    }
    void check_all_added(std::vector<lit> const &ch) {
        // every edge whose literal became true is in the graph, or has been disabled as implied by the others
        auto es = current();
        if (neg_cycle(prop->vertex_info_.size(), es)) { fail("graph has a negative cycle"); }
        for (auto l : ch) {
            for (size_t i = 0; i < prop->edges_.size(); ++i) {
                if (prop->edges_[i].lit == l) {
                    auto &v = graph().vertices_;
                    auto &e = prop->edges_[i];
                    if (!v[e.from].defined() || !v[e.to].defined() || v[e.from].potential() + e.weight - v[e.to].potential() < 0) { fail("edge of a true literal is violated after propagation"); }
                }
            }
        }
    }
    void check_complete() {
        auto &g = graph();
        if (!prop->states_[0].todo_edges.empty()) { nontrivial = true; }
        auto es = current();
        auto n = prop->vertex_info_.size();
        auto d = apsp(n, es);
        for (size_t i = 0; i < n; ++i) { if (d[i][i] < 0) { return; } }
        ++evals;
        if (es.empty()) { return; }
        for (auto &e : prop->edges_) {
            if (m.truth(e.lit) != 0) { continue; }
            if (conf.propagate_mode == PropagationMode::Strong) {
                if (d[e.to][e.from] < INF && d[e.to][e.from] + e.weight < 0) { fail("full propagation missed an implied literal: " + std::to_string(-e.lit)); }
            } else {
                for (auto z : prop->zero_vertices_) {
                    if (d[e.to][z] < INF && d[z][e.from] < INF && d[e.to][z] + d[z][e.from] + e.weight < 0) { fail("zero propagation missed an implied literal: " + std::to_string(-e.lit)); }
                }
            }
        }
        static_cast<void>(g);
    }
    void check_values() {
        // C01, C14
        ++evals; nontrivial = true;
        auto sym = [&](int i) { return Clingo::Function("x", {Clingo::Number(i)}); };
        auto value = [&](int i, long &r) -> bool {
            if (i < 0) { r = 0; return true; }
            auto idx = prop->lookup(sym(i));
            if (idx >= prop->num_vertices()) { return false; }
            if (!prop->has_lower_bound(0, idx)) { return false; }
            r = prop->lower_bound(0, idx);
            return true;
        };
        for (auto &c : cons) {
            if (m.truth(c.l) <= 0) { continue; }
            long a = 0, b = 0;
            if (!value(c.u, a) || !value(c.v, b)) { fail("variable of a true constraint has no value"); }
            if (a - b > c.w) {
                std::ostringstream o;
                o << "reported values violate true constraint x" << c.u << " - x" << c.v << " <= " << c.w << ": " << a << ", " << b;
                fail(o.str());
            }
        }
    }
    void check_reject() {
        // C01: check() rejects total assignments violating an edge
        auto &g = graph();
        auto ctl = mock_ctl(m);
        for (size_t k = 0; k < g.vertices_.size(); ++k) {
            auto &v = g.vertices_[k];
            if (!v.defined()) { continue; }
            auto old = v.potential_stack.back().second;
            v.potential_stack.back().second = old + rnd(-3, 3);
            bool ok = true;
            for (auto &e : prop->edges_) {
                if (m.truth(e.lit) > 0 && g.vertices_[e.from].potential() + e.weight - g.vertices_[e.to].potential() < 0) { ok = false; }
            }
            bool thrown = false;
            try { prop->check(ctl); } catch (std::logic_error const &) { thrown = true; }
            v.potential_stack.back().second = old;
            ++evals;
            if (thrown == ok) { fail(ok ? "check rejects a correct assignment" : "check accepts an assignment that violates a true edge"); }
        }
        for (size_t k = 0; k < g.vertices_.size(); ++k) {
            auto &v = g.vertices_[k];
            if (!v.defined()) { continue; }
            auto old = v.potential_stack;
            v.potential_stack.clear();
            bool need = false;
            for (auto &e : prop->edges_) { if (m.truth(e.lit) > 0 && (e.from == k || e.to == k)) { need = true; } }
            bool thrown = false;
            try { prop->check(ctl); } catch (std::logic_error const &) { thrown = true; }
            v.potential_stack = old;
            if (need && !thrown) { fail("check accepts an assignment with an undefined variable"); }
        }
    }
    void check_decide() {
        auto n = (int)m.val.size();
        for (int k = 0; k < 4; ++k) {
            lit f = rnd(2, std::max(2, n - 1));
            if (f >= n) { continue; }
            if (chance(50)) { f = -f; }
            auto r = prop->decide(0, Clingo::Assignment{reinterpret_cast<clingo_assignment_t const *>(&m)}, f);
            ++evals; nontrivial = true;
            if (r != f && r != -f) { fail("decide returned a foreign literal"); }
            if (conf.decision_mode == DecisionMode::Disabled) { if (r != f) { fail("decide changed the literal although disabled"); } continue; }
            auto &g = graph();
            int np = 0, nn = 0; bool negp = false, negn = false;
            auto pot = [&](vertex_t v) { return g.vertices_[v].defined() ? g.vertices_[v].potential() : 0; };
            for (auto &e : prop->edges_) {
                bool neg = pot(e.from) + e.weight - pot(e.to) < 0;
                if (e.lit == f) { ++np; negp = neg; }
                if (e.lit == -f) { ++nn; negn = neg; }
            }
            if (np > 1 || nn > 1) { continue; }
            bool minc = conf.decision_mode == DecisionMode::MinConflict;
            // flip if the proposed literal adds an edge of unwanted kind, or the complement an edge of wanted kind
            bool flip = (np && (minc ? negp : !negp)) || (nn && (minc ? !negn : negn));
            if ((r == -f) != flip) { fail("decide does not follow the mode for literal " + std::to_string(f)); }
        }
    }
    void search() {
        int budget = rnd(3, 30);
        need_call = false;
        auto ctl = mock_ctl(m);
        // clingo calls check at level 0 before search
        bool ok = propagate();
        if (ok) {
            prop->check(ctl);
            note("check level 0");
            ok = !m.conflict && propagate();
        }
        if (!ok) { done = true; return; }
        if (on("C19")) { check_facts(); }
        while (budget-- > 0) {
            if (on("C15")) { check_decide(); }
            std::vector<lit> free;
            for (size_t i = 2; i < m.val.size(); ++i) { if (m.val[i] == 0) { free.push_back((lit)i); } }
            if (free.empty()) {
                // total: graph is consistent
                auto c = mock_ctl(m);
                prop->check(c);
                note("total");
                if (on("C19")) { check_facts(); check_values(); }
                if (on("C01")) { check_values(); check_reject(); }
                if (m.level() == 0) { break; }
                undo_to(rnd(0, (int)m.level() - 1));
                continue;
            }
            lit l = free[(size_t)rnd(0, (int)free.size() - 1)];
            if (chance(35)) { l = -l; }
            if (m.level() > 0 || chance(85)) {
                m.push_level();
            }
            m.assign(l);
            if (m.level() == 0) { head = std::min(head, m.trail.size() - 1); }
            note("assign " + std::to_string(l) + " at level " + std::to_string(m.level()));
            if (!propagate()) {
                note("conflict");
                if (m.level() == 0) { done = true; return; }
                undo_to((uint32_t)std::max(0, (int)m.level() - rnd(1, 2)));
            } else if (chance(15) && m.level() > 0) {
                undo_to(rnd(0, (int)m.level() - 1));
            }
        }
        undo_to(0);
    }
    void check_facts() {
        // after the check on level 0, each edge with a literal fixed true is respected
        ++evals; nontrivial = true;
        auto &v = graph().vertices_;
        for (auto &e : prop->edges_) {
            if (m.truth(e.lit) > 0) {
                if (!v[e.from].defined() || !v[e.to].defined() || v[e.from].potential() + e.weight - v[e.to].potential() < 0) { fail("edge of a true literal is not in force"); }
            }
        }
    }
    void run(int size) {
        setup(size);
        for (int s = 0; s < steps && !done; ++s) {
            note("step " + std::to_string(s));
            if (s > 0) { new_step(); }
            step();
        }
    }
    void new_step() {
        // watches of literals stay, literals fixed earlier are not reported again
        head = m.trail.size();
        head_reset = true;
    }
    bool head_reset = false;
};

int main(int argc, char **argv) {
    if (argc < 6) { return 2; }
    prop_id = argv[1];
    unsigned seed = (unsigned)std::strtoul(argv[2], nullptr, 10);
    long first = std::atol(argv[3]), num = std::atol(argv[4]);
    double secs = std::atof(argv[5]);
    auto start = std::chrono::steady_clock::now();
    long evals = 0, nontriv = 0, episodes = 0;
    for (long i = first; i < first + num; ++i) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > secs) { break; }
        trace_log.clear();
        auto ep = std::make_unique<Episode>();
        ep->rng.seed(seed * 1000003U + (unsigned)i);
        ++episodes;
        cur_episode = i;
        cur_seed = seed;
        std::string what;
        try {
            ep->run((int)std::min<long>(1 + i / 200, 14));
        } catch (Violation const &e) { what = e.what();
        } catch (std::exception const &e) { what = std::string("unexpected exception: ") + e.what(); }
        evals += ep->evals;
        nontriv += ep->nontrivial;
        if (!what.empty()) {
            report(what);
            return 1;
        }
    }
    std::cout << "OK episodes=" << episodes << " evaluations=" << evals << " nontrivial=" << nontriv << "\n";
    return 0;
}
