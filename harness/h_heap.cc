// Heap operations against a reference multiset (C18).
#include <clingo-dl/util.hh>
#include <clingo.hh>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
#define HAVE_VIOLATION
#include "driver.hh"

using namespace ClingoDL;
using index_type = uint32_t;
struct M {
    std::vector<int> costs;
    std::vector<int> rel;
    std::vector<index_type> offs;
    auto offset(index_type i) -> index_type & { return offs[i]; }
    auto less(index_type a, index_type b) -> bool { return costs[a] < costs[b] || (costs[a] == costs[b] && rel[a] < rel[b]); }
};

template <class H> static void run(std::mt19937 &rng, int size) {
    auto pick = [&](int n) { return (int)(rng() % (unsigned)n); };
    M m;
    int n = 1 + pick(4 + size * 6), range = 1 + pick(12);
    m.costs.resize(n); m.rel.resize(n); m.offs.assign(n, 12345);
    for (auto &x : m.rel) { x = pick(2); }
    H heap;
    std::set<index_type> in;
    std::ostringstream log;
    auto check = [&]() {
        if (heap.size() != in.size()) { fail("size " + std::to_string(heap.size()) + " expected " + std::to_string(in.size())); }
        if (heap.empty() != in.empty()) { fail("empty"); }
        for (auto i : in) {
            if (m.offs[i] >= heap.heap_.size() || heap.heap_[m.offs[i]] != i) { fail("stored position of element " + std::to_string(i)); }
        }
        evals += 1;
    };
    for (int k = 0, ops = 10 + pick(60 + 20 * size); k < ops; ++k) {
        int o = pick(5);
        if (o <= 1) {
            index_type i = pick(n);
            if (in.count(i)) { continue; }
            m.costs[i] = pick(range);
            log << " push(" << i << ":" << m.costs[i] << "," << m.rel[i] << ")";
            heap.push(m, i);
            in.insert(i);
            nontrivial += 1;
        } else if (o <= 3 && !in.empty()) {
            auto it = in.begin();
            std::advance(it, pick((int)in.size()));
            int c = m.costs[*it];
            if (o == 2) {
                m.costs[*it] = c - pick(4);
                log << " decrease(" << *it << ":" << m.costs[*it] << ")";
                heap.decrease(m, *it);
            } else {
                m.costs[*it] = c + pick(4);
                log << " increase(" << *it << ":" << m.costs[*it] << ")";
                heap.increase(m, *it);
            }
        } else if (!in.empty()) {
            log << " pop";
            auto i = heap.pop(m);
            log << "=" << i;
            note(log.str());
            if (!in.count(i)) { fail("removed element " + std::to_string(i) + " was not in the queue"); }
            for (auto j : in) { if (m.less(j, i)) { fail("removed element " + std::to_string(i) + " is not minimal: " + std::to_string(j)); } }
            in.erase(i);
        }
        if (trace_log.empty()) { trace_log.push_back(""); }
        trace_log.back() = log.str();
        trace_log.resize(1);
        check();
    }
    if (rng() % 8 == 0) { heap.clear(); in.clear(); check(); }
    while (!in.empty()) {
        auto i = heap.pop(m);
        if (!in.count(i)) { fail("removed element was not in the queue"); }
        for (auto j : in) { if (m.less(j, i)) { fail("removed element " + std::to_string(i) + " is not minimal"); } }
        in.erase(i);
        check();
    }
}

static void episode(std::mt19937 &rng, int size) {
    if (rng() % 4) { run<Heap<4>>(rng, size); } else { run<Heap<2>>(rng, size); }
}
