// Concrete search for C07 (term parsing), C08 (checked arithmetic), C10 (body to
// head shifting) and C21 (decoding of strings) on the real sources.
#include "mock.hh"
#include "parsing.cc"
#include "driver.hh"

using namespace ClingoDL;
using i128 = __int128;

struct Err {};
static std::string S(i128 x) { return std::to_string((long long)x); }

// ---------------------------------------------------------------- C08
struct Arith {
    std::mt19937 &rng;
    int val() {
        static const int special[] = {0, 1, -1, 2, -2, 3, -3, 7, 10, 46340, 46341, -46340, -46341, 65536, 1 << 30, -(1 << 30),
            INT32_MAX, INT32_MAX - 1, INT32_MIN, INT32_MIN + 1, INT32_MAX / 2, INT32_MIN / 2, 1290, 1291, -1290, -1291, 31, 30, 32};
        switch (rng() % 4) {
            case 0: return special[rng() % (sizeof(special) / sizeof(int))];
            case 1: return (int)(rng() % 64) - 32;
            case 2: return (int)rng();
            default: return special[rng() % (sizeof(special) / sizeof(int))] / (int)(1 + rng() % 5);
        }
    }
    static i128 exact(int op, int a, int b, bool &def, i128 &approx) {
        def = true;
        i128 r = 0;
        switch (op) {
            case 0: r = (i128)a + b; break;
            case 1: r = (i128)a - b; break;
            case 2: r = (i128)a * b; break;
            case 3: if (b == 0) { def = false; return 0; } r = (i128)a / b; break;
            case 4: if (b == 0) { def = false; return 0; } if ((i128)a / b > INT32_MAX) { def = false; return 0; } r = (i128)a % b; break;
            case 5: {
                if (b < 0) {
                    if (a == 0) { def = false; return 0; }
                    if (a == 1) { r = 1; } else if (a == -1) { r = b % 2 == 0 ? 1 : -1; } else { r = 0; }
                    break;
                }
                r = 1;
                if (a == 0 || a == 1) { r = b == 0 ? 1 : a; break; }
                if (a == -1) { r = b % 2 == 0 ? 1 : -1; break; }
                for (int i = 0; i < b; ++i) { r *= a; if (r > (i128)1 << 100 || r < -((i128)1 << 100)) { break; } }
                break;
            }
            case 6: r = -(i128)a; break;
        }
        approx = r;
        if (r > INT32_MAX || r < INT32_MIN) { def = false; }
        return r;
    }
    void run() {
        static char const *names[] = {"+", "-", "*", "/", "\\", "**", "-"};
        for (int k = 0; k < 50; ++k) {
            int op = (int)(rng() % 7), a = val(), b = val();
            bool def = false;
            i128 ap = 0;
            i128 r = exact(op, a, b, def, ap);
            note(std::string("operation ") + names[op] + (op == 6 ? " (unary)" : "") + " a=" + std::to_string(a) + " b=" + std::to_string(b));
            int got = 0;
            int ex = 0;
            try {
                switch (op) {
                    case 0: got = safe_add<int>(a, b); break;
                    case 1: got = safe_sub<int>(a, b); break;
                    case 2: got = safe_mul<int>(a, b); break;
                    case 3: got = safe_div<int>(a, b); break;
                    case 4: got = safe_mod<int>(a, b); break;
                    case 5: got = safe_pow<int>(a, b); break;
                    case 6: got = safe_inv<int>(a); break;
                }
            }
            catch (std::overflow_error const &) { ex = 1; }
            catch (std::underflow_error const &) { ex = -1; }
            compare(def, r, ex, got, op);
            // the same operation as part of a theory term
            if (a > INT32_MIN && b > INT32_MIN) {
                Mock m;
                auto ta = m.num(a), tb = m.num(b);
                auto t = op == 6 ? m.fun("-", {ta}) : m.fun(names[op], {ta, tb});
                Clingo::TheoryTerm tt(reinterpret_cast<clingo_theory_atoms_t *>(&m), t);
                int ex2 = 0;
                int got2 = 0;
                try { auto s = evaluate<int>(tt); if (s.type() != Clingo::SymbolType::Number) { fail("not a number"); } got2 = s.number(); }
                catch (std::overflow_error const &) { ex2 = 1; }
                catch (std::underflow_error const &) { ex2 = -1; }
                compare(def, r, ex2, got2, op);
            }
            ++evals;
            nontrivial += !def || a < -1 || b < -1;
            trace_log.pop_back();
        }
    }
    static void compare(bool def, i128 r, int ex, int got, int op) {
        if (def && ex != 0) { fail("error although the result " + S(r) + " is representable"); }
        if (!def && ex == 0) { fail("no error although the result is not representable, got " + std::to_string(got)); }
        if (def && (i128)got != r) { fail("got " + std::to_string(got) + " instead of " + S(r)); }
        if (!def && op <= 2 && (r > 0) != (ex > 0)) { fail("wrong kind of error for result " + S(r)); }
    }
};

// ---------------------------------------------------------------- C07
struct Lin { std::map<Clingo::Symbol, i128> co; i128 k{0}; bool vars{false}; bool big{false}; bool bad{false}; };
static i128 CL = (i128)INT32_MAX;
static void chk(Lin &l) {
    auto b = [&](i128 x) { return x > CL || x < -CL; };
    if (b(l.k)) { l.big = true; }
    for (auto &c : l.co) { if (b(c.second)) { l.big = true; } }
}
struct Terms {
    std::mt19937 &rng;
    Mock m;
    int num() {
        if (rng() % 12 == 0) { static const int big[] = {INT32_MAX, INT32_MAX - 1, -INT32_MAX, 1 << 30, 65536, 46341}; return big[rng() % 6]; }
        return (int)(rng() % 11) - 3;
    }
    // constant expression (numbers only); returns value, sets bad/big
    clingo_id_t cexpr(int d, i128 &v, bool &bad) {
        if (d == 0 || rng() % 3 == 0) { int n = num(); v = n; return m.num(n); }
        i128 a = 0, b = 0;
        switch (rng() % 5) {
            case 0: { auto x = cexpr(d - 1, a, bad), y = cexpr(d - 1, b, bad); v = a + b; lim(v, bad); return m.fun("+", {x, y}); }
            case 1: { auto x = cexpr(d - 1, a, bad), y = cexpr(d - 1, b, bad); v = a - b; lim(v, bad); return m.fun("-", {x, y}); }
            case 2: { auto x = cexpr(d - 1, a, bad), y = cexpr(d - 1, b, bad); v = a * b; lim(v, bad); return m.fun("*", {x, y}); }
            case 3: { auto x = cexpr(d - 1, a, bad), y = cexpr(d - 1, b, bad); if (b == 0) { bad = true; v = 0; } else { v = a / b; lim(v, bad); } return m.fun("/", {x, y}); }
            default: { auto x = cexpr(d - 1, a, bad); v = -a; lim(v, bad); return m.fun("-", {x}); }
        }
    }
    static void lim(i128 &v, bool &bad) { if (v > INT32_MAX || v < INT32_MIN) { bad = true; v = 0; } }
    clingo_id_t var(Lin &l) {
        Clingo::Symbol s;
        clingo_id_t t;
        switch (rng() % 9) {
            case 0: { bool bad = false; i128 v = 0; auto x = cexpr(1, v, bad); if (bad) { l.bad = true; } s = Clingo::Function("f", {Clingo::Number((int)v)}); t = m.fun("f", {x}); break; }
            case 1: { s = Clingo::Function("g", {Clingo::Id("a"), Clingo::Number(1)}); t = m.fun("g", {m.sym("a"), m.num(1)}); break; }
            case 2: { s = Clingo::String("x\"y"); t = m.sym("\"x\\\"y\""); break; }
            case 3: { s = Clingo::Function("", {Clingo::Id("a"), Clingo::Id("b")}); t = m.term(clingo_theory_term_type_tuple, 0, "", {m.sym("a"), m.sym("b")}); break; }
            case 4: { s = Clingo::Function("h", {Clingo::Function("a", {}, false)}); t = m.fun("h", {m.fun("-", {m.sym("a")})}); break; }
            default: { static char const *n[] = {"a", "b", "c"}; int k = (int)(rng() % 3); s = Clingo::Id(n[k]); t = m.sym(n[k]); break; }
        }
        l.co[s] += 1;
        l.vars = true;
        return t;
    }
    clingo_id_t expr(int d, Lin &l) {
        if (d == 0 || rng() % 4 == 0) {
            if (rng() % 2) { int n = num(); l.k += n; return m.num(n); }
            if (rng() % 10 == 0) { l.k += 12; return m.sym("\"12\""); }
            return var(l);
        }
        Lin a, b;
        clingo_id_t x, y, r;
        switch (rng() % 6) {
            case 0: x = expr(d - 1, a); y = expr(d - 1, b); comb(l, a, 1); comb(l, b, 1); r = m.fun("+", {x, y}); break;
            case 1: x = expr(d - 1, a); y = expr(d - 1, b); comb(l, a, 1); comb(l, b, -1); r = m.fun("-", {x, y}); break;
            case 2: x = expr(d - 1, a); comb(l, a, -1); r = m.fun("-", {x}); break;
            case 3: case 4: {
                x = expr(d - 1, a); y = expr(d - 1, b);
                l.bad |= a.bad | b.bad; l.big |= a.big | b.big;
                l.vars |= a.vars | b.vars;
                if (a.vars && b.vars) { l.bad = true; }
                else {
                    auto &f = a.vars ? a : b;
                    auto k = a.vars ? b.k : a.k;
                    for (auto &c : f.co) { l.co[c.first] += c.second * k; }
                    l.k += f.k * k;
                }
                r = m.fun("*", {x, y});
                break;
            }
            default: {
                i128 v = 0; bool bad = false;
                i128 p = 0, q = 0;
                x = cexpr(d - 1, p, bad); y = cexpr(d - 1, q, bad);
                if (q == 0) { bad = true; } else { v = p / q; lim(v, bad); }
                l.k += v; l.bad |= bad;
                r = m.fun("/", {x, y});
            }
        }
        chk(l);
        return r;
    }
    static void comb(Lin &l, Lin const &a, int s) {
        for (auto &c : a.co) { l.co[c.first] += s * c.second; }
        l.k += s * a.k; l.vars |= a.vars; l.big |= a.big; l.bad |= a.bad;
        chk(l);
    }
    std::string str(clingo_id_t t) {
        auto &x = m.terms[t];
        if (x.type == clingo_theory_term_type_number) { return std::to_string(x.num); }
        if (x.type == clingo_theory_term_type_symbol) { return x.name; }
        std::string r = x.name + "(";
        for (size_t i = 0; i < x.args.size(); ++i) { r += (i ? "," : "") + str(x.args[i]); }
        return r + ")";
    }
    void run(int size) {
        Lin l, r;
        auto x = expr(std::min(size, 4), l), y = rng() % 2 ? expr(std::min(size, 3), r) : expr(0, r);
        bool body = rng() % 2;
        static char const *rels[] = {"<=", "<", ">=", ">", "=", "!="};
        std::string rel = rels[rng() % 6];
        int lit = (int)(rng() % 9) + 1;
        m.atom(body ? "__diff_b" : "__diff_h", x, rel, y, lit);
        note("lhs: " + str(x) + " " + rel + " rhs: " + str(y));
        Lin d;
        comb(d, l, 1);
        comb(d, r, -1);
        Clingo::TheoryAtoms as(reinterpret_cast<clingo_theory_atoms_t *>(&m));
        std::vector<Clingo::Symbol> syms;
        auto map = [&](Clingo::Symbol s) { for (size_t i = 0; i < syms.size(); ++i) { if (syms[i] == s) { return (int)i; } } syms.push_back(s); return (int)syms.size() - 1; };
        bool bigany = d.big;
        // sums of absolute values of intermediate results may overflow as well
        try {
            auto e = parse<int>(*as.begin(), map);
            if (d.bad) { fail("an ill-formed term is accepted"); }
            std::map<Clingo::Symbol, i128> co;
            for (auto &c : e.lhs) {
                if (c.second >= syms.size()) { fail("invalid variable"); }
                if (c.first == 0) { fail("zero coefficient"); }
                if (!co.emplace(syms[c.second], c.first).second) { fail("duplicate variable"); }
            }
            for (auto it = d.co.begin(); it != d.co.end();) { if (it->second == 0) { it = d.co.erase(it); } else { ++it; } }
            if (co != d.co) { fail("wrong coefficients"); }
            if ((i128)e.rhs != -d.k) { fail("wrong right hand side " + std::to_string(e.rhs) + " instead of " + S(-d.k)); }
            if (std::strcmp(e.rel, rel.c_str()) != 0) { fail("wrong relation"); }
            if (e.literal != lit) { fail("wrong literal"); }
            if (e.strict != body) { fail("wrong semantics"); }
            nontrivial += e.lhs.size() > 1;
        }
        catch (Violation const &) { throw; }
        catch (std::exception const &e) {
            if (!d.bad && !bigany) {
                // only complain if no intermediate result can be large
                bool large = false;
                for (auto &t : m.terms) { if (t.type == clingo_theory_term_type_number && (t.num > 100 || t.num < -100)) { large = true; } }
                if (!large) { fail(std::string("a linear term is rejected: ") + e.what()); }
            }
        }
        ++evals;
    }
};

// ---------------------------------------------------------------- C10
struct Shift {
    std::mt19937 &rng;
    static std::string neg(std::string const &r) {
        if (r == "<=") { return ">"; } if (r == ">") { return "<="; } if (r == "<") { return ">="; }
        if (r == ">=") { return "<"; } if (r == "=") { return "!="; } return "=";
    }
    struct L { std::string sign, elem, rel, rhs, other; bool diff; };
    static std::string canon(std::string const &s) {
        std::string out;
        Clingo::AST::parse_string(s.c_str(), [&](Clingo::AST::Node n) { if (n.type() == Clingo::AST::Type::Rule) { out += n.to_string() + "\n"; } });
        return out;
    }
    static std::string lit(L const &l, char const *name) {
        return l.diff ? l.sign + "&" + name + "{" + l.elem + "} " + l.rel + " " + l.rhs : l.sign + l.other;
    }
    void run(int size) {
        std::string head;
        bool constraint = false;
        bool hdiff = false;
        L hd{};
        static char const *rels[] = {"<=", "<", ">=", ">", "=", "!="};
        static char const *signs[] = {"", "not ", "not not "};
        static char const *els[] = {"a-b", "x", "a-b-c", "f(X)-Y", "-a+b", "\"s\"-a"};
        auto mk = [&]() { return L{signs[rng() % 3], els[rng() % 6], rels[rng() % 6], std::to_string((int)(rng() % 9) - 4), "", true}; };
        switch (rng() % 8) {
            case 0: head = "p(X)"; break;
            case 1: head = "{ q }"; break;
            case 2: hdiff = true; hd = mk(); hd.sign = ""; break;
            case 3: head = "#true"; break;
            case 4: head = "not #true"; constraint = true; break;
            case 5: head = "not not #false"; constraint = true; break;
            default: head = rng() % 2 ? "#false" : ""; constraint = true; break;
        }
        std::vector<L> body;
        int n = (int)(rng() % (unsigned)(1 + std::min(size, 4)));
        for (int i = 0; i < n; ++i) {
            if (rng() % 2) { body.push_back(mk()); }
            else {
                static char const *o[] = {"p", "q(X,Y)", "X < 3", "&sum{a-b} <= 3", "&diff(1){a-b} <= 3", "r(f(a))"};
                body.push_back(L{signs[rng() % 3], "", "", "", o[rng() % 6], false});
            }
        }
        auto render = [&](std::string const &h, std::vector<L> const &b, char const *name) {
            std::string r = h;
            if (!b.empty() || h.empty()) { r += " :- "; }
            for (size_t i = 0; i < b.size(); ++i) { r += (i ? "; " : "") + lit(b[i], name); }
            return r + ".";
        };
        std::string in = render(hdiff ? lit(hd, "diff") : head, body, "diff");
        // the parser simplifies signs of constants, but not applications building syntax trees
        int form = (int)(rng() % 3);
        note("rule: " + in + (form ? " head with sign " + std::to_string(form) : std::string{}));
        // all admissible results
        std::set<std::string> ok;
        if (constraint) {
            for (size_t i = 0; i < body.size(); ++i) {
                if (!body[i].diff) { continue; }
                auto b = body;
                auto h = b[i];
                b.erase(b.begin() + (long)i);
                if (h.sign != "not ") { h.rel = neg(h.rel); }
                h.sign = "";
                ok.insert(canon(render(lit(h, "__diff_h"), b, "__diff_b")));
            }
        }
        if (ok.empty()) { ok.insert(canon(render(hdiff ? lit(hd, "__diff_h") : head, body, "__diff_b"))); }
        else { ++nontrivial; }
        std::string nosh = canon(render(hdiff ? lit(hd, "__diff_h") : head, body, "__diff_b"));
        for (bool shift : {true, false}) {
            std::string out;
            int cnt = 0;
            Clingo::AST::parse_string(in.c_str(), [&](Clingo::AST::Node nd) {
                if (nd.type() != Clingo::AST::Type::Rule) { return; }
                {
                    using namespace Clingo::AST;
                    auto hn = nd.get<Node>(Attribute::Head);
                    if (form && hn.type() == Type::Literal) {
                        auto at = hn.get<Node>(Attribute::Atom);
                        if (at.type() == Type::BooleanConstant && hn.get<int>(Attribute::Sign) == 0) {
                            hn.set(Attribute::Sign, form);
                            if (form == 1) { at.set(Attribute::Value, 1 - at.get<int>(Attribute::Value)); }
                        }
                    }
                }
                auto before = nd.to_string();
                transform(nd, [&](Clingo::AST::Node &&x) { out += form ? canon(x.to_string()) : x.to_string() + "\n"; ++cnt; }, shift);
                if (nd.to_string() != before) { fail("the given rule is changed"); }
            });
            ++evals;
            if (shift ? ok.count(out) == 0 : out != nosh) { fail(std::string(shift ? "shifted" : "unshifted") + " result: " + out + " expected (one of): " + (shift ? *ok.begin() : nosh)); }
        }
    }
};

// ---------------------------------------------------------------- C21
struct Quote {
    std::mt19937 &rng;
    void run(int size) {
        std::string t, q = "\"";
        int n = (int)(rng() % (unsigned)(2 + size));
        for (int i = 0; i < n; ++i) {
            static const char cs[] = {'a', 'n', '\\', '"', '\n', ' ', 'x', '\\', '"', '\t', (char)200};
            char c = cs[rng() % sizeof(cs)];
            t.push_back(c);
            if (c == '\n') { q += "\\n"; } else if (c == '\\') { q += "\\\\"; } else if (c == '"') { q += "\\\""; } else { q.push_back(c); }
        }
        q += "\"";
        note("quoted: " + q);
        ++evals;
        nontrivial += q.size() > t.size() + 2;
        auto r = unquote(q.c_str());
        if (r != t) { fail("decoded as: " + r); }
        Mock m;
        auto s = m.sym(q);
        auto v = evaluate<int>(Clingo::TheoryTerm(reinterpret_cast<clingo_theory_atoms_t *>(&m), s));
        if (v != Clingo::String(t.c_str())) { fail("theory term evaluated to " + v.to_string()); }
    }
};

static void episode(std::mt19937 &rng, int size) {
    if (on("C08")) { Arith{rng}.run(); }
    else if (on("C07")) { Terms{rng}.run(size); }
    else if (on("C10")) { Shift{rng}.run(size); }
    else if (on("C21")) { Quote{rng}.run(size); }
    else { fail("unknown property"); }
}
