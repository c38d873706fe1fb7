// A stand-in for the solver side of clingo's C API.
//
// The functions of clingo's C API used by the code under test are defined
// here (the executable's definitions take precedence over those of the shared
// library).  All handles point to a Mock object.  The mock records every
// clause, keeps an assignment with decision levels and performs unit
// propagation on the clause just added only.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <forward_list>
#include <list>
#include <iterator>
#include <type_traits>
#include <stdexcept>
#include <atomic>
#include <iosfwd>
#include <clingo.h>
#include <clingo.hh>

struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Mock {
    using lit_t = clingo_literal_t;
    int threads = 1;
    uint32_t thread_id = 0;
    std::vector<int> val{0, 1};         // value of var (index var)
    std::vector<uint32_t> lev{0, 0};    // level of var
    std::vector<lit_t> trail{1};
    std::vector<size_t> level_start;    // trail offset of levels 1..
    std::set<lit_t> watches;
    std::vector<std::vector<lit_t>> clauses;      // learned during propagation
    std::vector<std::vector<lit_t>> init_clauses; // added during init
    std::function<void(std::vector<lit_t> const &)> on_clause;
    std::function<bool()> fail_clause;
    bool conflict = false;
    int check_mode = 0;

    // theory data
    struct Term { clingo_theory_term_type_t type; int num; std::string name; std::vector<clingo_id_t> args; };
    struct Elem { std::vector<clingo_id_t> tuple; std::vector<clingo_literal_t> cond; };
    struct Atom { clingo_id_t term; std::vector<clingo_id_t> elems; bool guard; std::string op; clingo_id_t rhs; clingo_literal_t lit; };
    std::vector<Term> terms;
    std::vector<Elem> elems;
    std::vector<Atom> atoms;
    clingo_id_t term(clingo_theory_term_type_t t, int n, std::string name, std::vector<clingo_id_t> args) {
        terms.push_back({t, n, std::move(name), std::move(args)});
        return static_cast<clingo_id_t>(terms.size() - 1);
    }
    clingo_id_t num(int n) {
        if (n < 0 && n != std::numeric_limits<int>::min()) { return fun("-", {num(-n)}); }
        return term(clingo_theory_term_type_number, n, "", {});
    }
    clingo_id_t sym(std::string s) { return term(clingo_theory_term_type_symbol, 0, std::move(s), {}); }
    clingo_id_t fun(std::string s, std::vector<clingo_id_t> a) { return term(clingo_theory_term_type_function, 0, std::move(s), std::move(a)); }
    void atom(char const *name, clingo_id_t lhs, std::string op, clingo_id_t rhs, clingo_literal_t lit) {
        elems.push_back({{lhs}, {}});
        atoms.push_back({sym(name), {static_cast<clingo_id_t>(elems.size() - 1)}, true, std::move(op), rhs, lit});
    }
    void clear_theory() { terms.clear(); elems.clear(); atoms.clear(); }

    int new_var() { val.push_back(0); lev.push_back(0); return static_cast<int>(val.size()) - 1; }
    int truth(lit_t l) const {
        auto v = val.at(static_cast<size_t>(std::abs(l)));
        return l > 0 ? v : -v;
    }
    uint32_t level() const { return static_cast<uint32_t>(level_start.size()); }
    void assign(lit_t l) {
        assert(truth(l) == 0);
        auto v = static_cast<size_t>(std::abs(l));
        val[v] = l > 0 ? 1 : -1;
        lev[v] = level();
        trail.push_back(l);
    }
    void push_level() { level_start.push_back(trail.size()); }
    void pop_level() {
        auto s = level_start.back();
        level_start.pop_back();
        while (trail.size() > s) {
            val[static_cast<size_t>(std::abs(trail.back()))] = 0;
            trail.pop_back();
        }
        conflict = false;
    }
    bool total() const {
        for (size_t i = 1; i < val.size(); ++i) { if (val[i] == 0) { return false; } }
        return true;
    }
    // returns true if no conflict
    bool add(std::vector<lit_t> const &c) {
        int unassigned = 0;
        lit_t u = 0;
        std::set<lit_t> seen;
        for (auto l : c) {
            if (truth(l) > 0) { return true; }
            if (truth(l) == 0 && seen.insert(l).second) { ++unassigned; u = l; }
        }
        for (auto l : c) { if (seen.count(-l) && seen.count(l)) { return true; } }
        if (unassigned == 0) { conflict = true; return false; }
        if (unassigned == 1) { assign(u); }
        return true;
    }
};

inline Mock &M(void const *p) { return *static_cast<Mock *>(const_cast<void *>(p)); }

extern "C" {
CLINGO_VISIBILITY_DEFAULT uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { return M(a).level(); }
CLINGO_VISIBILITY_DEFAULT uint32_t clingo_assignment_root_level(clingo_assignment_t const *) { return 0; }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { return M(a).conflict; }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) {
    auto t = M(a).truth(l);
    *r = t == 0 ? clingo_truth_value_free : (t > 0 ? clingo_truth_value_true : clingo_truth_value_false);
    return true;
}
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) {
    *r = M(a).lev.at(static_cast<size_t>(std::abs(l)));
    return true;
}
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = M(a).truth(l) > 0; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = M(a).truth(l) < 0; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { *r = M(a).truth(l) != 0 && M(a).lev[static_cast<size_t>(std::abs(l))] == 0; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { return static_cast<size_t>(std::abs(l)) < M(a).val.size(); }
CLINGO_VISIBILITY_DEFAULT bool clingo_assignment_is_total(clingo_assignment_t const *a) { return M(a).total(); }
CLINGO_VISIBILITY_DEFAULT size_t clingo_assignment_size(clingo_assignment_t const *a) { return M(a).val.size(); }

CLINGO_VISIBILITY_DEFAULT clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { return M(c).thread_id; }
CLINGO_VISIBILITY_DEFAULT clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) { return reinterpret_cast<clingo_assignment_t const *>(c); }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) { M(c).watches.insert(l); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { return M(c).watches.count(l) > 0; }
CLINGO_VISIBILITY_DEFAULT void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { M(c).watches.erase(l); }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *cl, size_t n, clingo_clause_type_t, bool *r) {
    std::vector<clingo_literal_t> v(cl, cl + n);
    auto &m = M(c);
    m.clauses.push_back(v);
    if (m.on_clause) { m.on_clause(v); }
    *r = m.add(v);
    if (*r && m.fail_clause && m.fail_clause()) { m.conflict = true; *r = false; }
    return true;
}
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) { *r = !M(c).conflict; return true; }

CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *, clingo_literal_t l, clingo_literal_t *r) { *r = l; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) { M(i).watches.insert(l); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t) { M(i).watches.insert(l); return true; }
CLINGO_VISIBILITY_DEFAULT int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { return M(i).threads; }
CLINGO_VISIBILITY_DEFAULT clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) { return reinterpret_cast<clingo_assignment_t const *>(i); }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool, clingo_literal_t *r) { *r = M(i).new_var(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *cl, size_t n, bool *r) {
    std::vector<clingo_literal_t> v(cl, cl + n);
    auto &m = M(i);
    m.init_clauses.push_back(v);
    if (m.on_clause) { m.on_clause(v); }
    *r = m.add(v);
    return true;
}
CLINGO_VISIBILITY_DEFAULT bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **r) { *r = reinterpret_cast<clingo_theory_atoms_t const *>(i); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_size(clingo_theory_atoms_t const *a, size_t *r) { *r = M(a).atoms.size(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_term_type(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_theory_term_type_t *r) { *r = M(a).terms.at(t).type; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_term_number(clingo_theory_atoms_t const *a, clingo_id_t t, int *r) { *r = M(a).terms.at(t).num; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_term_name(clingo_theory_atoms_t const *a, clingo_id_t t, char const **r) { *r = M(a).terms.at(t).name.c_str(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_term_arguments(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) { auto &x = M(a).terms.at(t).args; *r = x.data(); *n = x.size(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_element_tuple(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_id_t const **r, size_t *n) { auto &x = M(a).elems.at(e).tuple; *r = x.data(); *n = x.size(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_element_condition(clingo_theory_atoms_t const *a, clingo_id_t e, clingo_literal_t const **r, size_t *n) { auto &x = M(a).elems.at(e).cond; *r = x.data(); *n = x.size(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_atom_term(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t *r) { *r = M(a).atoms.at(t).term; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_atom_elements(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_id_t const **r, size_t *n) { auto &x = M(a).atoms.at(t).elems; *r = x.data(); *n = x.size(); return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_atom_has_guard(clingo_theory_atoms_t const *a, clingo_id_t t, bool *r) { *r = M(a).atoms.at(t).guard; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_atom_guard(clingo_theory_atoms_t const *a, clingo_id_t t, char const **op, clingo_id_t *r) { *op = M(a).atoms.at(t).op.c_str(); *r = M(a).atoms.at(t).rhs; return true; }
CLINGO_VISIBILITY_DEFAULT bool clingo_theory_atoms_atom_literal(clingo_theory_atoms_t const *a, clingo_id_t t, clingo_literal_t *r) { *r = M(a).atoms.at(t).lit; return true; }
CLINGO_VISIBILITY_DEFAULT void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { M(i).check_mode = static_cast<int>(m); }
}

inline Clingo::PropagateControl mock_ctl(Mock &m) { return Clingo::PropagateControl(reinterpret_cast<clingo_propagate_control_t *>(&m)); }
inline Clingo::PropagateInit mock_init(Mock &m) { return Clingo::PropagateInit(reinterpret_cast<clingo_propagate_init_t *>(&m)); }
