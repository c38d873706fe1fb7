// Random logic programs with difference constraints solved with the real solver and compared with a
// brute force oracle (bounded stand-in for C01 C06 C09 C10 C13 C14 C17 C19 C20 and end-to-end C02 C03).
#include "propagator.cc"
#include "clingo-dl.cc"
#include "../../app/lib/src/app.cc"
#include <algorithm>
#include <map>
#include <mutex>
#include <set>
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
#define HAVE_VIOLATION
#include "driver.hh"

static int pick(std::mt19937 &rng, int n) { return (int)(rng() % (unsigned)n); }

struct Diff { int u, v, rel, c; };               // u - v rel c, index 0 is the constant zero
struct Lit { int p; bool pos; };
struct Rule { int kind; Diff d; std::vector<Lit> body; int b; }; // 0: head, 1: b :- diff, body, 2: :- diff, body, 3: :- not diff, body
static char const *RELS[] = {"<=", ">=", "<", ">", "=", "!="};
static bool holds(int rel, long x, long c) {
    switch (rel) { case 0: return x <= c; case 1: return x >= c; case 2: return x < c; case 3: return x > c; case 4: return x == c; default: return x != c; }
}

struct EdgeC { int u, v; long w; };
static bool feasible(int nv, std::vector<EdgeC> const &es) {
    std::vector<long> d(nv, 0);
    for (int i = 0; i <= nv; ++i) {
        bool ch = false;
        for (auto &e : es) { if (d[e.v] + e.w < d[e.u]) { d[e.u] = d[e.v] + e.w; ch = true; } }
        if (!ch) { return true; }
    }
    return false;
}
// smallest value of u relative to zero (long min if unbounded)
static long smallest(int nv, std::vector<EdgeC> const &es, int u) {
    // u - v <= w; longest lower bound: 0 - ... ; min(u) = -dist where 0 - u <= d
    long const INF = 1L << 40;
    std::vector<long> d(nv, INF);     // d[x]: upper bound on 0 - x
    d[0] = 0;
    for (int i = 0; i <= nv; ++i) for (auto &e : es) { if (d[e.u] < INF) { d[e.v] = std::min(d[e.v], d[e.u] + e.w); } }
    return d[u] == INF ? -INF : -d[u];
}
static int negated(int rel) { static int n[] = {3, 2, 1, 0, 5, 4}; return n[rel]; }
// calls f with every way to resolve the disequations
template <class F> static void resolve(std::vector<Diff> const &ds, size_t i, std::vector<EdgeC> &es, F &&f) {
    if (i == ds.size()) { f(es); return; }
    auto const &d = ds[i];
    auto le = [&](long c) { es.push_back({d.u, d.v, c}); };
    auto ge = [&](long c) { es.push_back({d.v, d.u, -c}); };
    size_t n = es.size();
    if (d.rel == 5) {
        le((long)d.c - 1); resolve(ds, i + 1, es, f); es.resize(n);
        ge((long)d.c + 1); resolve(ds, i + 1, es, f); es.resize(n);
        return;
    }
    if (d.rel == 0 || d.rel == 4) { le(d.c); }
    if (d.rel == 1 || d.rel == 4) { ge(d.c); }
    if (d.rel == 2) { le((long)d.c - 1); }
    if (d.rel == 3) { ge((long)d.c + 1); }
    resolve(ds, i + 1, es, f);
    es.resize(n);
}

struct Program {
    int nv{2}, np{0}, nb{0};
    std::vector<std::string> names;
    std::vector<Rule> rules;
    std::vector<int> facts;             // 0 choice, 1 fact, 2 false
    std::string text;
    std::set<std::set<std::string>> answers() const {
        std::set<std::set<std::string>> ret;
        each([&](std::set<std::string> const &shown, std::vector<Diff> const &cs) {
            if (ret.count(shown)) { return; }
            bool ok = false;
            std::vector<EdgeC> es;
            resolve(cs, 0, es, [&](std::vector<EdgeC> const &e) { ok = ok || feasible(nv, e); });
            if (ok) { ret.insert(shown); }
        });
        return ret;
    }
    // smallest attainable value of a variable (nullopt if there is no answer)
    std::optional<long> optimum(int var) const {
        std::optional<long> best;
        each([&](std::set<std::string> const &, std::vector<Diff> const &cs) {
            std::vector<EdgeC> es;
            resolve(cs, 0, es, [&](std::vector<EdgeC> const &e) {
                if (feasible(nv, e)) { long v = smallest(nv, e, var); best = best ? std::min(*best, v) : v; }
            });
        });
        return best;
    }
    template <class F> void each(F &&f) const {
        std::vector<int> body;          // rules with theory atoms in the body
        for (size_t i = 0; i < rules.size(); ++i) { if (rules[i].kind != 0) { body.push_back((int)i); } }
        for (int m = 0; m < (1 << np); ++m) {
            bool skip = false;
            for (int p = 0; p < np; ++p) { int t = (m >> p) & 1; if ((facts[p] == 1 && !t) || (facts[p] == 2 && t)) { skip = true; } }
            if (skip) { continue; }
            auto sat = [&](std::vector<Lit> const &b) { return std::all_of(b.begin(), b.end(), [&](Lit l) { return (((m >> l.p) & 1) != 0) == l.pos; }); };
            for (int t = 0; t < (1 << body.size()); ++t) {
                std::set<std::string> shown;
                std::vector<Diff> cs;
                bool ok = true;
                for (int p = 0; p < np; ++p) { if ((m >> p) & 1) { shown.insert("p(" + std::to_string(p) + ")"); } }
                for (auto &r : rules) { if (r.kind == 0 && sat(r.body)) { cs.push_back(r.d); } }
                for (size_t k = 0; k < body.size(); ++k) {
                    auto &r = rules[body[k]];
                    bool tv = ((t >> k) & 1) != 0;
                    Diff d = r.d;
                    if (!tv) { d.rel = negated(d.rel); }
                    cs.push_back(d);
                    if (r.kind == 1 && tv && sat(r.body)) { shown.insert("b(" + std::to_string(r.b) + ")"); }
                    if (r.kind == 2 && tv && sat(r.body)) { ok = false; }
                    if (r.kind == 3 && !tv && sat(r.body)) { ok = false; }
                }
                if (ok) { f(shown, cs); }
            }
        }
    }
};

static std::string term(std::mt19937 &rng, Program const &p, Diff const &d, bool plain) {
    std::ostringstream o;
    auto n = [&](int i) { return p.names[i]; };
    int form = plain ? 0 : pick(rng, 6);
    long c = d.c;
    o << "&diff{ ";
    switch (form) {
        case 1: o << n(d.u) << "-1*" << n(d.v); break;
        case 2: o << "-" << n(d.v) << "+" << n(d.u); break;
        case 3: { int k = pick(rng, 5) - 2; o << n(d.u) << "-(" << n(d.v) << " + " << k << ")"; c -= k; break; }
        case 4: { int k = pick(rng, 3); o << k << "+" << n(d.u) << "-" << n(d.v); c += k; break; }
        case 5: o << "2*" << n(d.u) << "-" << n(d.v) << "-" << n(d.u); break;
        default: if (d.v == 0 && pick(rng, 2)) { o << n(d.u); } else { o << n(d.u) << "-" << n(d.v); } break;
    }
    o << " } " << RELS[d.rel] << " " << c;
    return o.str();
}

static void add_rules(std::mt19937 &rng, Program &p, int step, int size) {
    std::ostringstream o;
    o << "#program s" << step << ".\n";
    int np = 1 + pick(rng, 2);
    if (p.np + np > 5) { np = 5 - p.np; }
    for (int i = 0; i < np; ++i) {
        int k = pick(rng, 6);
        k = k == 0 ? 1 : k == 1 ? 2 : 0;
        p.facts.push_back(k);
        if (k == 1) { o << "p(" << p.np << ").\n"; } else { o << "{ p(" << p.np << ") }.\n"; }
        if (k == 2) { o << ":- p(" << p.np << ").\n"; }
        ++p.np;
    }
    if (step > 0 && pick(rng, 2) && p.nv < 7) { p.nv += 1; }
    int bodies = 0;
    for (auto &r : p.rules) { bodies += r.kind != 0; }
    int nr = 1 + pick(rng, 2 + std::min(size, 4));
    for (int i = 0; i < nr; ++i) {
        Rule r;
        r.kind = 0;
        if (pick(rng, 3) == 0 && bodies < 4) { r.kind = 1 + pick(rng, 3); ++bodies; }
        r.d.u = pick(rng, p.nv);
        r.d.v = pick(rng, p.nv);
        if (r.d.u == r.d.v && pick(rng, 4)) { r.d.v = (r.d.v + 1) % p.nv; }
        if (pick(rng, 4) == 0) { r.d.v = 0; }
        if (pick(rng, 6) == 0) { r.d.u = 0; }
        r.d.rel = pick(rng, 3) ? pick(rng, 4) : pick(rng, 6);
        r.d.c = pick(rng, 9) - 4;
        for (int b = pick(rng, 3); b > 0; --b) { if (p.np > 0) { r.body.push_back({pick(rng, p.np), pick(rng, 3) != 0}); } }
        r.b = p.nb;
        std::ostringstream b;
        for (auto &l : r.body) { b << (b.tellp() ? ", " : "") << (l.pos ? "" : "not ") << "p(" << l.p << ")"; }
        auto t = term(rng, p, r.d, pick(rng, 2) != 0);
        auto rest = b.str();
        switch (r.kind) {
            case 0: o << t << (rest.empty() ? "" : " :- " + rest) << ".\n"; break;
            case 1: o << "b(" << p.nb << ") :- " << t << (rest.empty() ? "" : ", " + rest) << ".\n"; ++p.nb; break;
            case 2: o << ":- " << (rest.empty() ? "" : rest + ", ") << t << ".\n"; break;
            default: o << ":- " << (rest.empty() ? "" : rest + ", ") << "not " << t << ".\n"; break;
        }
        p.rules.push_back(r);
    }
    p.text += o.str();
}

struct Indices { std::map<size_t, Clingo::Symbol> sym; std::map<std::string, size_t> idx; };

struct Handler : Clingo::SolveEventHandler {
    clingodl_theory_t *t{nullptr};
    Program *p{nullptr};
    Indices *ind{nullptr};
    std::set<std::set<std::string>> seen;
    std::string error;
    std::vector<long> bounds;            // reported values of the minimized variable
    int minimize{-1};
    long limit{-1};
    bool on_model(Clingo::Model &m) override {
        try { model(m); } catch (Violation const &e) { if (error.empty()) { error = e.what(); } }
        return error.empty() && (limit < 0 || --limit > 0);
    }
    void model(Clingo::Model &m) {
        auto tid = m.thread_id();
        // queries before the model is extended
        std::map<std::string, long> val;
        std::vector<size_t> visited;
        size_t idx = 0;
        clingodl_assignment_begin(t, tid, &idx);
        while (clingodl_assignment_next(t, tid, &idx)) {
            if (!visited.empty() && visited.back() >= idx) { fail("iteration is not increasing"); }
            visited.push_back(idx);
            Clingo::Symbol s{clingodl_get_symbol(t, idx)};
            clingodl_value_t v;
            clingodl_assignment_get_value(t, tid, idx, &v);
            if (v.type != clingodl_value_type_int) { fail("value type"); }
            val[s.to_string()] = v.int_number;
            size_t j = 0;
            if (!clingodl_lookup_symbol(t, s.to_c(), &j) || j != idx) { fail("lookup of symbol " + s.to_string() + " gives " + std::to_string(j) + " instead of " + std::to_string(idx)); }
        }
        auto &prop = static_cast<DLPropagatorFacade<int> *>(t->clingodl.get())->prop_;
        size_t n = prop.num_vertices();
        std::set<size_t> vis(visited.begin(), visited.end());
        for (size_t i = 1; i <= n + 2; ++i) {
            bool has = i <= n && clingodl_assignment_has_value(t, tid, i);
            if (i > n && clingodl_assignment_has_value(t, tid, i)) { fail("index out of range has a value"); }
            if (has != (vis.count(i) > 0)) { fail("iteration and has_value disagree on index " + std::to_string(i)); }
        }
        evals += 1;
        // symbols and indices
        for (int v = 1; v < p->nv; ++v) {
            Clingo::Symbol s = Clingo::parse_term(p->names[v].c_str());
            size_t j = 0;
            if (clingodl_lookup_symbol(t, s.to_c(), &j)) {
                if (Clingo::Symbol{clingodl_get_symbol(t, j)} != s) { fail("symbol of the index of " + p->names[v] + " differs"); }
                auto [a, ia] = ind->idx.emplace(p->names[v], j);
                auto [b, ib] = ind->sym.emplace(j, s);
                if (a->second != j || b->second != s) { fail("index of " + p->names[v] + " is not stable or not unique"); }
            } else if (ind->idx.count(p->names[v])) { fail("index of " + p->names[v] + " disappeared"); }
        }
        size_t j = 0;
        if (clingodl_lookup_symbol(t, Clingo::Id("unknown_symbol").to_c(), &j)) { fail("unknown symbol is reported to exist"); }
        // the model extended by the theory
        if (!clingodl_on_model(t, m.to_c())) { fail("on_model failed"); }
        std::map<std::string, long> sym;
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) {
            if (s.type() == Clingo::SymbolType::Function && std::strcmp(s.name(), "dl") == 0 && s.arguments().size() == 2) {
                auto arg = s.arguments();
                long v = arg[1].type() == Clingo::SymbolType::Number ? arg[1].number() : std::atol(arg[1].string());
                if (!sym.emplace(arg[0].to_string(), v).second) { fail("two values reported for " + arg[0].to_string()); }
            }
        }
        if (sym != val) {
            std::ostringstream o;
            o << "reported model";
            for (auto &x : sym) { o << " " << x.first << "=" << x.second; }
            o << " differs from assignment";
            for (auto &x : val) { o << " " << x.first << "=" << x.second; }
            fail(o.str());
        }
        if (val.count("0")) { fail("zero is reported"); }
        // constraints
        std::set<std::string> shown;
        auto has = [&](std::string const &s) { return m.contains(Clingo::parse_term(s.c_str())); };
        for (int i = 0; i < p->np; ++i) { if (has("p(" + std::to_string(i) + ")")) { shown.insert("p(" + std::to_string(i) + ")"); } }
        for (int i = 0; i < p->nb; ++i) { if (has("b(" + std::to_string(i) + ")")) { shown.insert("b(" + std::to_string(i) + ")"); } }
        auto value = [&](int v, bool need, bool &def) -> long {
            if (v == 0) { return 0; }
            auto it = val.find(p->names[v]);
            if (it == val.end()) { def = false; if (need) { fail("variable " + p->names[v] + " of a true constraint has no value"); } return 0; }
            return it->second;
        };
        auto sat = [&](std::vector<Lit> const &b) { return std::all_of(b.begin(), b.end(), [&](Lit l) { return (shown.count("p(" + std::to_string(l.p) + ")") > 0) == l.pos; }); };
        for (auto &r : p->rules) {
            bool body = sat(r.body), def = true;
            bool self = r.d.u == r.d.v;
            if (r.kind == 0 && body) {
                long x = value(r.d.u, !self, def) - value(r.d.v, !self, def);
                if (!self && !holds(r.d.rel, x, r.d.c)) { fail("true constraint violated: " + p->names[r.d.u] + "-" + p->names[r.d.v] + RELS[r.d.rel] + std::to_string(r.d.c)); }
                nontrivial += 1;
            }
            if (r.kind != 0 && body && !self) {
                long x = value(r.d.u, false, def) - value(r.d.v, false, def);
                bool tv = holds(r.d.rel, x, r.d.c);
                bool want = r.kind == 1 ? shown.count("b(" + std::to_string(r.b) + ")") > 0 : r.kind == 3;
                if (def && tv != want) { fail("truth of a constraint differs from its value: " + p->names[r.d.u] + "-" + p->names[r.d.v] + RELS[r.d.rel] + std::to_string(r.d.c)); }
            }
        }
        seen.insert(shown);
        if (minimize > 0) {
            bool def = true;
            bounds.push_back(value(minimize, true, def));
        }
    }
};

static std::string show(std::set<std::set<std::string>> const &s) {
    std::ostringstream o;
    for (auto &x : s) { o << " {"; for (auto &y : x) { o << " " << y; } o << " }"; }
    return o.str();
}

static void config(clingodl_theory_t *t, char const *k, std::string const &v) {
    note(std::string(k) + "=" + v);
    if (!clingodl_configure(t, k, v.c_str())) { fail("configuration failed"); }
}

static void configure(std::mt19937 &rng, clingodl_theory_t *t) {
    static char const *modes[] = {"no", "inverse", "partial", "partial+", "zero", "full"};
    static char const *sorts[] = {"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    if (pick(rng, 4)) { config(t, "propagate", modes[pick(rng, 6)]); }
    if (pick(rng, 4) == 0) { config(t, "propagate", std::string(modes[pick(rng, 6)]) + "," + std::to_string(pick(rng, 3))); }
    if (pick(rng, 4) == 0) { config(t, "propagate-root", std::to_string(pick(rng, 4)) + (pick(rng, 2) ? ",1" : "")); }
    if (pick(rng, 4) == 0) { config(t, "propagate-budget", std::to_string(pick(rng, 40))); }
    if (pick(rng, 2) == 0) { config(t, "sort-edges", sorts[pick(rng, 5)]); }
    if (on("C20") || pick(rng, 3) == 0) { config(t, "add-mutexes", std::to_string(pick(rng, 5)) + (pick(rng, 2) ? "," + std::to_string(pick(rng, 60)) : "")); }
    if (pick(rng, 2) == 0) { config(t, "compute-components", pick(rng, 2) ? "yes" : "no"); }
    if (pick(rng, 3) == 0) { config(t, "dl-heuristic", pick(rng, 2) ? "min" : "max"); }
    if (on("C10") || pick(rng, 3) == 0) { config(t, "shift-constraints", "yes"); }
}

struct TheoryPtr {
    clingodl_theory_t *t{nullptr};
    TheoryPtr() { clingodl_create(&t); }
    ~TheoryPtr() { clingodl_destroy(t); }
};

static void build(Clingo::Control &ctl, clingodl_theory_t *t, std::string const &text) {
    Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
        Rewriter r{t, b.to_c()};
        r.rewrite(ctl, text.c_str());
    });
}

static void names(std::mt19937 &rng, Program &p) {
    static std::vector<std::string> const all{"0", "a", "f(x)", "b", "\"s\"", "(a,1)", "g(1,2)", "c"};
    p.names = all;
    std::shuffle(p.names.begin() + 1, p.names.end(), rng);
}

static void enumerate(std::mt19937 &rng, int size) {
    TheoryPtr th;
    configure(rng, th.t);
    bool multi = on("C19") || on("C09") || on("C17") || pick(rng, 3) == 0;
    int steps = multi ? 2 + pick(rng, 2) : 1;
    bool threads = pick(rng, 12) == 0;
    Clingo::Control ctl{{"0"}, [](Clingo::WarningCode, char const *) {}, 0};
    if (!clingodl_register(th.t, ctl.to_c())) { fail("register"); }
    Program p;
    names(rng, p);
    p.nv = 2 + pick(rng, 4);
    Indices ind;
    for (int s = 0; s < steps; ++s) {
        p.text.clear();
        add_rules(rng, p, s, size);
        note(p.text);
        build(ctl, th.t, p.text);
        if (threads) {
            int n = 1 + pick(rng, 3);
            note("threads " + std::to_string(n));
            ctl.configuration()["solve"]["parallel_mode"] = std::to_string(n).c_str();
        }
        ctl.ground({{("s" + std::to_string(s)).c_str(), {}}});
        int rep = on("C19") ? 2 : 1;
        for (int k = 0; k < rep; ++k) {
            Handler h;
            h.t = th.t; h.p = &p; h.ind = &ind;
            try { ctl.solve(Clingo::SymbolicLiteralSpan{}, &h, false, false).get(); }
            catch (std::exception const &e) { if (h.error.empty()) { h.error = std::string("solving failed: ") + e.what(); } }
            if (!h.error.empty()) { fail("step " + std::to_string(s) + ": " + h.error); }
            auto want = p.answers();
            evals += 1;
            nontrivial += !want.empty();
            if (want != h.seen) { fail("step " + std::to_string(s) + ": answers" + show(h.seen) + "\n  expected" + show(want)); }
        }
    }
}

// right-hand sides close to the limits of the representable integers: either the exact edges or an error
static void boundary(std::mt19937 &rng) {
    TheoryPtr th;
    Clingo::Control ctl{{"0"}, [](Clingo::WarningCode, char const *) {}, 0};
    if (!clingodl_register(th.t, ctl.to_c())) { fail("register"); }
    long const lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
    bool low = pick(rng, 2) != 0;
    long c = low ? lo + pick(rng, 3) : hi - pick(rng, 3);
    int rel = pick(rng, 5);
    bool diff = pick(rng, 2) != 0, swap = pick(rng, 2) != 0;
    std::string left = diff ? (swap ? "b-a" : "a-b") : (swap ? "-a" : "a");
    std::string right = c == lo ? "-2147483647-1" : std::to_string(c);
    std::string text = "{ p(0) }.\n&diff{ " + left + " } " + RELS[rel] + " " + right + " :- p(0).\n";
    note(text);
    std::set<std::tuple<std::string, std::string, long>> want;
    std::string u = diff ? (swap ? "b" : "a") : (swap ? "0" : "a"), v = diff ? (swap ? "a" : "b") : (swap ? "a" : "0");
    if (rel == 0 || rel == 4) { want.emplace(u, v, c); }
    if (rel == 1 || rel == 4) { want.emplace(v, u, -c); }
    if (rel == 2) { want.emplace(u, v, c - 1); }
    if (rel == 3) { want.emplace(v, u, -c - 1); }
    bool fits = true;
    for (auto &e : want) { fits = fits && std::get<2>(e) >= lo && std::get<2>(e) <= hi; }
    bool ok = true;
    try {
        build(ctl, th.t, text);
        ctl.ground({{"base", {}}});
        std::vector<Clingo::SymbolicLiteral> as{Clingo::SymbolicLiteral{Clingo::Function("p", {Clingo::Number(0)}), false}};
        if (!clingodl_prepare(th.t, ctl.to_c())) { throw std::runtime_error("prepare"); }
        for (auto &m : ctl.solve(Clingo::SymbolicLiteralSpan{as})) { (void)m; }
    }
    catch (std::exception const &) { ok = false; }
    evals += 1;
    nontrivial += 1;
    if (!ok) { return; }
    if (!fits) { fail("constraint with a bound that is not representable is accepted"); }
    auto &prop = static_cast<DLPropagatorFacade<int> *>(th.t->clingodl.get())->prop_;
    std::set<std::tuple<std::string, std::string, long>> got;
    for (auto &e : prop.edges_) { got.emplace(prop.symbol(e.from).to_string(), prop.symbol(e.to).to_string(), (long)e.weight); }
    if (got != want) {
        std::string m;
        for (auto &e : got) { m += " " + std::get<0>(e) + "-" + std::get<1>(e) + "<=" + std::to_string(std::get<2>(e)); }
        fail("edges differ from the constraint:" + m);
    }
}

static void optimize(std::mt19937 &rng, int size) {
    TheoryPtr th;
    configure(rng, th.t);
    Clingo::Control ctl{{"0"}, [](Clingo::WarningCode, char const *) {}, 0};
    if (!clingodl_register(th.t, ctl.to_c())) { fail("register"); }
    Program p;
    names(rng, p);
    p.nv = 2 + pick(rng, 4);
    add_rules(rng, p, 0, size);
    int var = 1 + pick(rng, p.nv - 1);
    // a lower bound makes the optimum finite
    Rule r;
    r.kind = 0; r.d = {var, 0, 1, -3 - pick(rng, 30)}; r.b = 0;
    p.rules.push_back(r);
    p.text += "&diff{ " + p.names[var] + " } >= " + std::to_string(r.d.c) + ".\n";
    if (pick(rng, 2)) {
        Rule q;
        q.kind = 0; q.b = 0;
        q.d = {var, 0, 1, pick(rng, 40)};
        q.body.push_back({pick(rng, p.np), pick(rng, 2) != 0});
        p.text += "&diff{ " + p.names[var] + " } >= " + std::to_string(q.d.c) + " :- " + (q.body[0].pos ? "" : "not ") + "p(" + std::to_string(q.body[0].p) + ").\n";
        p.rules.push_back(q);
    }
    note(p.text);
    build(ctl, th.t, p.text);
    ctl.ground({{"s0", {}}});
    if (pick(rng, 4) == 0) {
        int n = 2 + pick(rng, 3);
        note("threads " + std::to_string(n));
        ctl.configuration()["solve"]["parallel_mode"] = std::to_string(n).c_str();
    }
    auto want = p.optimum(var);
    OptimizerConfig cfg;
    cfg.symbol = Clingo::parse_term(p.names[var].c_str());
    static double const factors[] = {1, 1.5, 2, 3, 10};
    cfg.factor = factors[pick(rng, 5)];
    cfg.active = true;
    if (pick(rng, 2)) { cfg.has_initial = true; cfg.initial = pick(rng, 60) - 30; }
    note("minimize " + p.names[var] + " factor " + std::to_string(cfg.factor) + (cfg.has_initial ? " initial " + std::to_string(cfg.initial) : ""));
    Indices ind;
    Handler h;
    h.t = th.t; h.p = &p; h.ind = &ind; h.minimize = var;
    Optimizer opt{cfg, h, th.t};
    try { opt.solve(ctl); }
    catch (std::exception const &e) { if (h.error.empty()) { h.error = std::string("solving failed: ") + e.what(); } }
    if (!h.error.empty()) { fail(h.error); }
    if (cfg.has_initial && want && *want > cfg.initial) { want = {}; }
    evals += 1;
    nontrivial += h.bounds.size() > 1;
    for (size_t i = 1; i < h.bounds.size(); ++i) { if (h.bounds[i] >= h.bounds[i - 1]) { fail("reported value does not improve"); } }
    if (!want) { if (!h.bounds.empty()) { fail("value reported although there is none within the bound"); } }
    else {
        if (h.bounds.empty()) { fail("no value reported, optimum is " + std::to_string(*want)); }
        if (h.bounds.back() != *want) { fail("optimum " + std::to_string(h.bounds.back()) + " reported, expected " + std::to_string(*want)); }
    }
    if (want && opt.lower_bound_ && *opt.lower_bound_ > *want) {
        // the bound exceeds the optimum only once optimality is proved
        if (*opt.lower_bound_ > *want + 1 && !(opt.upper_bound_ && *opt.lower_bound_ > *opt.upper_bound_)) { fail("lower bound exceeds the optimum"); }
    }
}

static void episode(std::mt19937 &rng, int size) {
    if (on("C13")) { optimize(rng, size); }
    else if (on("C06") && pick(rng, 4) == 0) { boundary(rng); }
    else { enumerate(rng, size); }
}
