// Options, instances and statistics of the theory (C11, C12, C16) against independent oracles.
#include "propagator.cc"
#include "clingo-dl.cc"
#include <algorithm>
#include <array>
#include <dlfcn.h>
#include <map>
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
#define HAVE_VIOLATION
#include "driver.hh"

// records whether a decision heuristic is registered
static bool decide_registered = false;
extern "C" bool clingo_control_register_propagator(clingo_control_t *c, clingo_propagator_t const *p, void *d, bool s) {
    decide_registered = p->decide != nullptr;
    using F = bool (*)(clingo_control_t *, clingo_propagator_t const *, void *, bool);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "clingo_control_register_propagator"));
    return f(c, p, d, s);
}

// command line options registered by a theory
struct Option { bool (*parse)(char const *, void *) = nullptr; void *data = nullptr; bool multi = false; bool *flag = nullptr; };
static std::map<std::string, Option> registered;
extern "C" bool clingo_options_add(clingo_options_t *, char const *, char const *name, char const *, bool (*parse)(char const *, void *), void *data, bool multi, char const *) {
    std::string n{name};
    registered[n.substr(0, n.find(','))] = {parse, data, multi, nullptr};
    return true;
}
extern "C" bool clingo_options_add_flag(clingo_options_t *, char const *, char const *name, char const *, bool *target) {
    std::string n{name};
    registered[n.substr(0, n.find(','))] = {nullptr, nullptr, false, target};
    return true;
}

static int pick(std::mt19937 &rng, int n) { return (int)(rng() % (unsigned)n); }
template <class C> static auto choose(std::mt19937 &rng, C const &c) -> typename C::value_type const & { return c[pick(rng, (int)c.size())]; }

struct Flat {
    int sort, dec, mode;
    uint64_t msize, mcut, root, budget;
    bool cc, rdl, shift;
    std::array<std::array<std::optional<uint64_t>, 4>, 64> th; // root, budget, mode, sort
    bool operator==(Flat const &o) const {
        return sort == o.sort && dec == o.dec && mode == o.mode && msize == o.msize && mcut == o.mcut && root == o.root &&
               budget == o.budget && cc == o.cc && rdl == o.rdl && shift == o.shift && th == o.th;
    }
};

static std::string show(Flat const &f) {
    std::ostringstream o;
    o << "sort=" << f.sort << " dec=" << f.dec << " mode=" << f.mode << " mutex=" << f.msize << "," << f.mcut << " root=" << f.root
      << " budget=" << f.budget << " cc=" << f.cc << " rdl=" << f.rdl << " shift=" << f.shift;
    for (int i = 0; i < 64; ++i) {
        for (int k = 0; k < 4; ++k) {
            if (f.th[i][k]) { o << " t" << i << "." << k << "=" << *f.th[i][k]; }
        }
    }
    return o.str();
}

static Flat flat(clingodl_theory const &t) {
    Flat f{};
    auto const &c = t.config;
    f.sort = (int)c.sort_mode; f.dec = (int)c.decision_mode; f.mode = (int)c.propagate_mode;
    f.msize = c.mutex_size; f.mcut = c.mutex_cutoff; f.root = c.propagate_root; f.budget = c.propagate_budget;
    f.cc = c.calculate_cc; f.rdl = t.rdl; f.shift = t.shift_constraints;
    if (c.thread_config.size() > 64) { fail("more than 64 thread configurations"); }
    for (size_t i = 0; i < c.thread_config.size(); ++i) {
        auto const &x = c.thread_config[i];
        if (x.propagate_root) { f.th[i][0] = *x.propagate_root; }
        if (x.propagate_budget) { f.th[i][1] = *x.propagate_budget; }
        if (x.propagate_mode) { f.th[i][2] = (uint64_t)*x.propagate_mode; }
        if (x.sort_mode) { f.th[i][3] = (uint64_t)*x.sort_mode; }
    }
    return f;
}

static std::string lower(std::string s) {
    for (auto &c : s) { if ('A' <= c && c <= 'Z') { c = (char)(c - 'A' + 'a'); } }
    return s;
}

static std::optional<uint64_t> number(std::string const &s) {
    if (s.empty()) { return {}; }
    unsigned __int128 v = 0;
    for (char c : s) {
        if (c < '0' || c > '9') { return {}; }
        v = v * 10 + (unsigned)(c - '0');
        if (v > UINT64_MAX) { return {}; }
    }
    return (uint64_t)v;
}

// independent description of the documented options
static bool apply(Flat &f, std::string const &key, std::string const &value) {
    static std::map<std::string, int> const modes{{"no", 0}, {"inverse", 1}, {"partial", 2}, {"partial+", 3}, {"zero", 4}, {"full", 5}};
    static std::map<std::string, int> const sorts{{"no", 0}, {"weight", 1}, {"weight-reversed", 2}, {"potential", 3}, {"potential-reversed", 4}};
    static std::map<std::string, int> const decs{{"no", 0}, {"none", 0}, {"min", 1}, {"max", 2}};
    static std::map<std::string, int> const bools{{"no", 0}, {"off", 0}, {"0", 0}, {"yes", 1}, {"on", 1}, {"1", 1}};
    auto const find = [](std::map<std::string, int> const &m, std::string const &s) -> std::optional<uint64_t> {
        auto it = m.find(lower(s));
        return it == m.end() ? std::optional<uint64_t>{} : std::optional<uint64_t>{(uint64_t)it->second};
    };
    auto comma = value.find(',');
    std::string head = value.substr(0, comma);
    std::optional<uint64_t> second;
    bool has = comma != std::string::npos;
    if (has) {
        second = number(value.substr(comma + 1));
        if (!second) { return false; }
    }
    std::optional<uint64_t> v;
    int slot = -1;
    if (key == "propagate") { v = find(modes, head); slot = 2; }
    else if (key == "sort-edges") { v = find(sorts, head); slot = 3; }
    else if (key == "propagate-root") { v = number(head); slot = 0; }
    else if (key == "propagate-budget") { v = number(head); slot = 1; }
    else if (key == "add-mutexes") {
        v = number(head);
        if (!v) { return false; }
        f.msize = *v;
        unsigned __int128 c = (unsigned __int128)*v * 10;
        f.mcut = second ? *second : (c > UINT64_MAX ? UINT64_MAX : (uint64_t)c);
        return true;
    }
    else if (key == "dl-heuristic") { v = find(decs, value); if (!v) { return false; } f.dec = (int)*v; return true; }
    else if (key == "rdl" || key == "shift-constraints" || key == "compute-components") {
        v = find(bools, value);
        if (!v) { return false; }
        (key == "rdl" ? f.rdl : key == "shift-constraints" ? f.shift : f.cc) = *v != 0;
        return true;
    }
    else { return false; }
    if (!v) { return false; }
    if (has) {
        if (*second >= 64) { return false; }
        f.th[*second][slot] = *v;
        return true;
    }
    if (slot == 0) { f.root = *v; } else if (slot == 1) { f.budget = *v; } else if (slot == 2) { f.mode = (int)*v; } else { f.sort = (int)*v; }
    return true;
}

static std::vector<std::string> const keys{"propagate", "propagate-root", "propagate-budget", "add-mutexes", "sort-edges", "rdl", "dl-heuristic", "shift-constraints", "compute-components"};

static std::string num(std::mt19937 &rng) {
    static std::vector<std::string> const special{"0", "1", "9", "10", "63", "64", "65", "99", "007", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616",
        "18446744073709551614", "18446744073709551619", "18446744073709551620", "1844674407370955161", "1844674407370955162", "184467440737095516150", "36893488147419103232", "99999999999999999999", "9223372036854775808"};
    switch (pick(rng, 3)) {
        case 0: return choose(rng, special);
        case 1: return std::to_string(rng() % 100);
        default: {
            std::string s;
            for (int n = 1 + pick(rng, 22); n > 0; --n) { s += (char)('0' + pick(rng, 10)); }
            return s;
        }
    }
}

static std::string valid(std::mt19937 &rng, std::string const &key) {
    static std::vector<std::string> const modes{"no", "inverse", "partial", "partial+", "zero", "full"};
    static std::vector<std::string> const sorts{"no", "weight", "weight-reversed", "potential", "potential-reversed"};
    static std::vector<std::string> const decs{"no", "none", "min", "max"};
    static std::vector<std::string> const bools{"no", "off", "0", "yes", "on", "1"};
    std::string s;
    if (key == "propagate") { s = choose(rng, modes); }
    else if (key == "sort-edges") { s = choose(rng, sorts); }
    else if (key == "dl-heuristic") { return choose(rng, decs); }
    else if (key == "rdl" || key == "shift-constraints" || key == "compute-components") { return choose(rng, bools); }
    else if (key == "add-mutexes") { return pick(rng, 2) ? num(rng) : num(rng) + "," + num(rng); }
    else { s = num(rng); }
    if (pick(rng, 2)) { s += "," + (pick(rng, 4) ? std::to_string(pick(rng, 70)) : num(rng)); }
    return s;
}

static std::string mutate(std::mt19937 &rng, std::string s) {
    static std::string const alphabet = "0123456789,+- noyesNOYESwight-reversedpotentialfulzinvmaxoff\t./:;@[`{\x7f\xc1";
    for (int n = pick(rng, 3); n >= 0; --n) {
        size_t p = s.empty() ? 0 : rng() % (s.size() + 1);
        switch (pick(rng, 5)) {
            case 0: s.insert(p, 1, choose(rng, alphabet)); break;
            case 1: if (p < s.size()) { s.erase(p, 1); } break;
            case 2: if (p < s.size()) { s[p] = choose(rng, alphabet); } break;
            case 3: if (p < s.size()) { s[p] = (char)(isupper((unsigned char)s[p]) ? tolower((unsigned char)s[p]) : toupper((unsigned char)s[p])); } break;
            default: if (p < s.size()) { s[p] = (char)(s[p] ^ 0x20); } break;
        }
    }
    return s;
}

static std::string quote(std::string const &s) {
    std::ostringstream o;
    o << '"';
    for (unsigned char c : s) { if (c < 32 || c > 126) { o << "\\x" << std::hex << (int)c; } else { o << c; } }
    o << '"';
    return o.str();
}

struct Theory {
    clingodl_theory *t{nullptr};
    Flat model{};
    std::map<std::string, Option> options;
    unsigned count{0};
    Theory() {
        if (!clingodl_create(&t)) { fail("create failed"); }
        registered.clear();
        if (!clingodl_register_options(t, nullptr)) { fail("registration of options failed"); }
        options = registered;
        for (auto const *k : {"propagate", "propagate-root", "propagate-budget", "sort-edges"}) {
            if (options.count(k) == 0 || !options[k].multi) { fail(std::string("option cannot be given per thread: ") + k); }
        }
        model.sort = 1; model.mcut = 10; model.cc = true;
        if (!(flat(*t) == model)) { fail("defaults differ: " + show(flat(*t))); }
    }
    Theory(Theory const &) = delete;
    ~Theory() { clingodl_destroy(t); }
    void configure(std::string key, std::string value) {
        auto opt = options.find(key);
        bool cli = count++ % 3 == 0 && opt != options.end() && (opt->second.parse != nullptr || (lower(value) == "yes" || value == "1"));
        note((cli ? "option " : "configure ") + key + " " + quote(value));
        auto before = flat(*t);
        Flat want = model;
        bool ok = apply(want, key, value);
        bool got = true;
        if (!cli) { got = clingodl_configure(t, key.c_str(), value.c_str()); }
        else if (opt->second.parse != nullptr) { got = opt->second.parse(value.c_str(), opt->second.data); }
        else { *opt->second.flag = true; }
        evals += 1;
        if (ok) { nontrivial += 1; model = want; }
        if (got != ok) { fail(std::string(ok ? "documented value rejected: " : "invalid value accepted: ") + key + " " + quote(value)); }
        auto after = flat(*t);
        if (!ok && !(before == after)) { fail("rejected value changed the configuration: " + key + " " + quote(value) + "\n  before " + show(before) + "\n  after  " + show(after)); }
        if (!(after == model)) { fail("wrong configuration after " + key + " " + quote(value) + "\n  expected " + show(model) + "\n  actual   " + show(after)); }
        check();
    }
    uint64_t effective(unsigned tid, int slot) const {
        if (tid < 64 && model.th[tid][slot]) { return *model.th[tid][slot]; }
        return slot == 0 ? model.root : slot == 1 ? model.budget : slot == 2 ? (uint64_t)model.mode : (uint64_t)model.sort;
    }
    void check() {
        for (unsigned i = 0; i < 70; ++i) {
            auto const &c = t->config;
            uint64_t v[4] = {c.get_propagate_root(i), c.get_propagate_budget(i), (uint64_t)c.get_propagate_mode(i), (uint64_t)c.get_sort_mode(i)};
            for (int k = 0; k < 4; ++k) {
                if (v[k] != effective(i, k)) { fail("effective setting " + std::to_string(k) + " of thread " + std::to_string(i) + " is " + std::to_string(v[k]) + " expected " + std::to_string(effective(i, k))); }
            }
        }
    }
};

static char const *PROGRAM = "{a;b}. &diff{x-y}<=3 :- a. &diff{y-z}<= -4 :- b. &diff{z-x}<=0. &diff{z}>=1.";

struct Running {
    std::unique_ptr<Clingo::Control> ctl;
    Theory *th;
    int threads;
    Running(Theory &t, int n) : ctl{}, th{&t}, threads{n} {
        std::string arg = "-t" + std::to_string(n);
        std::vector<char const *> args{arg.c_str(), "0"};
        ctl = std::make_unique<Clingo::Control>(Clingo::StringSpan{args.data(), args.size()});
        decide_registered = false;
        note("register with " + arg);
        if (!clingodl_register(t.t, ctl->to_c())) { fail("register failed"); }
        if (decide_registered != (t.model.dec != 0)) { fail("decision heuristic registered: " + std::to_string(decide_registered)); }
        Clingo::AST::with_builder(*ctl, [&](Clingo::AST::ProgramBuilder &b) {
            Clingo::AST::parse_string(PROGRAM, [&](Clingo::AST::Node const &ast) {
                auto add = [](clingo_ast_t *a, void *d) { clingo_ast_acquire(a); static_cast<Clingo::AST::ProgramBuilder *>(d)->add(Clingo::AST::Node{a}); return true; };
                if (!clingodl_rewrite_ast(t.t, ast.to_c(), add, &b)) { fail("rewriting failed"); }
            }, *ctl);
        });
    }
    template <class P> void check_states(P &p) {
        evals += 1;
        nontrivial += 1;
        if ((int)p.states_.size() != threads) { fail("number of thread states"); }
        for (int i = 0; i < threads; ++i) {
            auto &s = p.states_[i];
            if (s.propagate_root != th->effective(i, 0)) { fail("propagate_root of thread state " + std::to_string(i)); }
            if (s.propagate_budget != th->effective(i, 1)) { fail("propagate_budget of thread state " + std::to_string(i)); }
            if ((uint64_t)s.graph.propagate_ != th->effective(i, 2)) { fail("propagation mode of thread state " + std::to_string(i)); }
            if ((uint64_t)p.conf_.get_sort_mode(i) != th->effective(i, 3)) { fail("sort mode of thread " + std::to_string(i)); }
        }
        if ((int)p.conf_.decision_mode != th->model.dec) { fail("decision mode of the instance"); }
        if (p.conf_.mutex_size != th->model.msize || p.conf_.mutex_cutoff != th->model.mcut) { fail("mutex settings of the instance"); }
        if (p.conf_.calculate_cc != th->model.cc) { fail("component setting of the instance"); }
    }
    void solve() {
        ctl->ground({{"base", {}}});
        int n = 0;
        for (auto &m : ctl->solve()) {
            ++n;
            if (!clingodl_on_model(th->t, m.to_c())) { fail("on_model failed"); }
        }
        // a and b together form a negative cycle
        if (n != 3) { fail("expected 3 answers, got " + std::to_string(n)); }
        if (th->model.rdl) { check_states(static_cast<DLPropagatorFacade<double> *>(th->t->clingodl.get())->prop_); }
        else { check_states(static_cast<DLPropagatorFacade<int> *>(th->t->clingodl.get())->prop_); }
    }
};

static void instances(std::mt19937 &rng, int size) {
    Theory a, b;
    Theory *ts[2] = {&a, &b};
    int n = 1 + pick(rng, 2 + size);
    for (int i = 0; i < n; ++i) {
        auto key = choose(rng, keys);
        if (key == "rdl" && pick(rng, 3)) { continue; }
        if (key == "add-mutexes") { ts[pick(rng, 2)]->configure(key, std::to_string(pick(rng, 4)) + "," + std::to_string(pick(rng, 30))); continue; }
        std::string v = valid(rng, key);
        if (pick(rng, 2) && v.find(',') != std::string::npos) { v = v.substr(0, v.find(',')) + "," + std::to_string(pick(rng, 4)); }
        ts[pick(rng, 2)]->configure(key, v);
    }
    a.check();
    b.check();
    if (pick(rng, 8) == 0) {
        static std::vector<int> const nt{1, 1, 2, 3, 4};
        Running ra{a, choose(rng, nt)};
        Running rb{b, choose(rng, nt)};
        if (pick(rng, 2)) { rb.solve(); ra.solve(); } else { ra.solve(); rb.solve(); }
    }
}

// ---------------------------------------------------------------------------
struct Sums {
    double init{0};
    uint64_t g[4]{};
    std::vector<std::array<uint64_t, 11>> c;
    std::vector<std::array<double, 3>> d;
};
static std::array<uint64_t, 11> counters(ThreadStatistics const &s) {
    return {s.true_edges, s.false_edges, s.false_edges_trivial, s.false_edges_weak, s.false_edges_weak_plus, s.edges_added, s.edges_skipped, s.edges_propagated, s.propagate_cost_add, s.propagate_cost_from, s.propagate_cost_to};
}
static char const *CN[11] = {"True edges", "False edges", "False edges (inverse)", "False edges (partial)", "False edges (partial+)", "Edges added", "Edges skipped", "Edges propagated", "Cost consistency", "Cost forward", "Cost backward"};
static char const *DN[3] = {"Propagation(s)", "Dijkstra(s)", "Undo(s)"};

static Statistics random_stats(std::mt19937 &rng) {
    Statistics s;
    s.time_init = Duration(pick(rng, 64) / 8.0);
    s.ccs = rng() % 100; s.mutexes = rng() % 100; s.edges = rng() % 100; s.variables = rng() % 100;
    s.thread_statistics.resize(pick(rng, 5));
    for (auto &t : s.thread_statistics) {
        t.time_propagate = Duration(pick(rng, 64) / 8.0);
        t.time_undo = Duration(pick(rng, 64) / 8.0);
        t.time_dijkstra = Duration(pick(rng, 64) / 8.0);
        uint64_t *f[11] = {&t.true_edges, &t.false_edges, &t.false_edges_trivial, &t.false_edges_weak, &t.false_edges_weak_plus, &t.edges_added, &t.edges_skipped, &t.edges_propagated, &t.propagate_cost_add, &t.propagate_cost_from, &t.propagate_cost_to};
        for (auto *p : f) { *p = rng() % 1000; }
    }
    return s;
}
static void compare(Sums const &w, Clingo::UserStatistics root, char const *what, size_t used) {
    auto diff = root["DifferenceLogic"];
    auto num = [&](Clingo::UserStatistics s, char const *k) { return s[k].value(); };
    auto chk = [&](double a, double b, std::string const &n) { evals += 1; if (a != b) { fail(std::string(what) + " " + n + " is " + std::to_string(a) + " expected " + std::to_string(b)); } };
    chk(num(diff, "Time init(s)"), w.init, "time init");
    chk(num(diff, "CCs"), (double)w.g[0], "ccs"); chk(num(diff, "Mutexes"), (double)w.g[1], "mutexes");
    chk(num(diff, "Edges"), (double)w.g[2], "edges"); chk(num(diff, "Variables"), (double)w.g[3], "variables");
    auto th = diff["Thread"];
    if (th.size() < used) { fail(std::string(what) + ": missing threads"); }
    for (size_t i = 0; i < used; ++i) {
        auto t = th[i];
        for (int k = 0; k < 11; ++k) { chk(num(t, CN[k]), (double)w.c[i][k], "thread " + std::to_string(i) + " " + CN[k]); }
        for (int k = 0; k < 3; ++k) { chk(num(t, DN[k]), w.d[i][k], "thread " + std::to_string(i) + " " + DN[k]); }
    }
    nontrivial += 1;
}
static Sums sums(Statistics const &s) {
    Sums w;
    w.init = s.time_init.count();
    w.g[0] = s.ccs; w.g[1] = s.mutexes; w.g[2] = s.edges; w.g[3] = s.variables;
    for (auto &t : s.thread_statistics) { w.c.push_back(counters(t)); w.d.push_back({t.time_propagate.count(), t.time_dijkstra.count(), t.time_undo.count()}); }
    return w;
}
static void accumulate(Sums &w, Sums const &x) {
    w.init += x.init;
    w.g[0] = x.g[0]; w.g[1] += x.g[1]; w.g[2] = x.g[2]; w.g[3] = x.g[3];
    if (w.c.size() < x.c.size()) { w.c.resize(x.c.size()); w.d.resize(x.c.size()); }
    for (size_t i = 0; i < x.c.size(); ++i) {
        for (int k = 0; k < 11; ++k) { w.c[i][k] += x.c[i][k]; }
        for (int k = 0; k < 3; ++k) { w.d[i][k] += x.d[i][k]; }
    }
}
static bool same(Statistics const &s, Sums const &w) {
    auto v = sums(s);
    return v.init == w.init && std::equal(v.g, v.g + 4, w.g) && v.c == w.c && v.d == w.d;
}

struct StatHandler : Clingo::SolveEventHandler {
    Theory *t; std::mt19937 *rng; Sums *total; std::string error;
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        try {
            auto *f = static_cast<DLPropagatorFacade<int> *>(t->t->clingodl.get());
            if (pick(*rng, 4)) { f->step_ = random_stats(*rng); }
            auto n = f->step_.thread_statistics.size();
            note("step with " + std::to_string(n) + " threads");
            auto w = sums(f->step_);
            accumulate(*total, w);
            f->on_statistics(step, accu);
            compare(w, step, "step", n);
            compare(*total, accu, "accu", total->c.size());
            if (!same(f->accu_, *total)) { fail("accumulated statistics differ from the sums"); }
            Sums zero;
            zero.c.resize(f->step_.thread_statistics.size());
            zero.d.resize(zero.c.size());
            if (!same(f->step_, zero)) { fail("step statistics are not zero after being reported"); }
        } catch (Violation const &e) { error = e.what(); }
    }
};

static void statistics(std::mt19937 &rng, int size) {
    for (int r = 0; r < 20; ++r) {
        Statistics acc;
        Sums total;
        for (int i = 0, n = 1 + pick(rng, 5); i < n; ++i) {
            auto s = random_stats(rng);
            auto w = sums(s);
            note("accumulate a step with " + std::to_string(w.c.size()) + " threads");
            accumulate(total, w);
            acc.accu(s);
            evals += 1;
            if (!same(acc, total)) { fail("Statistics::accu differs from the sums"); }
            if (!same(s, w)) { fail("Statistics::accu changed its argument"); }
            s.reset();
            Sums zero; zero.c.resize(s.thread_statistics.size()); zero.d.resize(zero.c.size());
            if (!same(s, zero)) { fail("Statistics::reset leaves values"); }
        }
    }
    if (pick(rng, 4) == 0) {
        Theory t;
        Running r{t, 1 + pick(rng, 3)};
        r.ctl->ground({{"base", {}}});
        Sums total;
        StatHandler h;
        h.t = &t; h.rng = &rng; h.total = &total;
        for (int i = 0, n = 1 + pick(rng, 3); i < n; ++i) {
            r.ctl->solve(Clingo::LiteralSpan{}, &h, false, false).get();
            if (!h.error.empty()) { fail(h.error); }
        }
    }
}

static void episode(std::mt19937 &rng, int size) {
    if (on("C11")) {
        Theory t;
        for (int i = 0; i < 12; ++i) {
            auto key = choose(rng, keys);
            auto v = valid(rng, key);
            if (pick(rng, 3)) { v = mutate(rng, v); }
            v = v.c_str();
            if (pick(rng, 30) == 0) { key = mutate(rng, key); key = key.c_str(); }
            if (pick(rng, 40) == 0) { v = ""; }
            t.configure(key, v);
        }
    }
    if (on("C12")) { instances(rng, size); }
    if (on("C16")) { statistics(rng, size); }
}
