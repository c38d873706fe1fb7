From a5998760fbe983742f06c6456827318e5169a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 01/13] fix: full propagation misses consequences if an edge
 parallel to the added one is visited first

If a heavier parallel edge reached the end vertex of the added edge before the
added edge itself was considered, then the vertex never became relevant and
implied literals were not propagated.
---
 libclingo-dl/src/graph.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..6052ea7 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -391,24 +391,21 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // this. Explicitely using uv.from and uv.to is intended here.
                 auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
                 assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
-                if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
-                    bool relevant_v = relevant(v_idx);
+                // NOTE: Vertex v can also be reached via another edge before
+                // edge relevant_idx is considered.
+                bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                if (!visited(v_idx) || less(c, relevant_uv, v_idx)) {
                     cost(v_idx) = c;
+                    // vertex v became or lost relevance
+                    if (relevant_uv != relevant(v_idx)) {
+                        relevant(v_idx) = relevant_uv;
+                        num_relevant += relevant_uv ? 1 : -1;
+                    }
                     if (!visited(v_idx)) {
-                        // vertex v became relevant
-                        if (relevant_u && !relevant_v) {
-                            ++num_relevant;
-                        }
                         visited_set().push_back(to(uv_idx));
                         visited(v_idx) = true;
-                        relevant(v_idx) = relevant_u || uv_idx == relevant_idx;
                         costs_heap_.push(*this, v_idx);
                     } else {
-                        // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
-                        }
                         costs_heap_.decrease(*this, v_idx);
                     }
                     path(v_idx) = uv_idx;
-- 
2.43.0


From 7a338683fca5f525292e9bac87a993272c04d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 02/13] fix: do not disable an edge twice if zero propagation
 is combined with a root level or budget

Using --propagate=zero together with --propagate-root or --propagate-budget
failed with an assertion because both zero and full propagation disabled the
added edge.
---
 libclingo-dl/src/graph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 6052ea7..595b3dc 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -660,7 +660,8 @@ template <typename T> auto Graph<T>::add_edge(Clingo::PropagateControl &ctl, edg
     costs_heap_.clear();
 
     // propagate cycles through zero node
-    // (using equality here intentional because full and zero vertex propagation should be exclusive)
+    // (using equality here intentional because full propagation subsumes zero vertex propagation; both are
+    // performed if full propagation is enabled temporarily by a root level or a budget)
     if (mode() == PropagationMode::Zero) {
         consistent = consistent && propagate_zero_(ctl, uv_idx, zero_idx);
     }
@@ -855,7 +856,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: the edge has already been disabled if propagate_zero_() was called before
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From 0241bf17281792a972f5894078d1f1e92878010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 03/13] fix: pass zero vertex instead of component index to
 zero propagation

With more than one component, zero propagation used an unrelated vertex as
starting point and missed consequences.
---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..0bb2b9d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 1e492d904e4729e2b7ce0e7158fa48b23622acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 04/13] fix: watch existing edges in threads added between
 steps

If the number of threads was increased between two solving steps, the literals
of edges added in earlier steps were not watched in the new threads and solving
failed because solutions of the new threads violated difference constraints.
---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..9dc6efa 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Watch the literal of an edge in the given thread.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, id_t thread_id);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 0bb2b9d..46c1f60 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -168,6 +168,13 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
         return;
     }
 
+    // watch literals of existing edges in threads added since the last step
+    for (auto i = numeric_cast<int>(states_.size()); i < init.number_of_threads(); ++i) {
+        for (edge_t edge_id = 0; edge_id < edge_start; ++edge_id) {
+            add_watches_(init, edges_[edge_id].lit, i);
+        }
+    }
+
     // build adjacency list
     AdjacencyMap outgoing;
     AdjacencyMap incoming;
@@ -422,12 +429,16 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
-        }
+        add_watches_(init, lit, i);
+    }
+}
+
+template <typename T> void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, id_t thread_id) {
+    init.add_watch(lit, thread_id);
+    if (conf_.get_propagate_mode(thread_id) >= PropagationMode::Zero || conf_.get_propagate_root(thread_id) > 0 ||
+        conf_.get_propagate_budget(thread_id) > 0) {
+        disable_edges_ = true;
+        init.add_watch(-lit, thread_id);
     }
 }
 
-- 
2.43.0


From fa3d428e3ba07bc8f41f413c039edcfedccce6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 05/13] fix: accumulating statistics reads past the end if the
 number of threads shrinks

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 46c1f60..da7541f 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 9b078ee3cc847eef9317c53e55666ceb93224eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 06/13] fix: detect all overflows when parsing 64 bit option
 values

The check for wrapped results missed most overflows, e.g. 30000000000000000000
was silently accepted as a different number.
---
 libclingo-dl/src/clingo-dl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..747f619 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -252,12 +253,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            uint64_t digit = *it - '0';
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = res * 10 + digit; // NOLINT
         } else {
             break;
         }
-- 
2.43.0


From 5ecc725550e4440b103b49b31794c2c07b3566c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 07/13] fix: reject invalid mutex options and keep the
 configuration in this case

Trailing characters were ignored, the size was stored even if the cutoff could
not be parsed, and the default cutoff could overflow.
---
 libclingo-dl/src/clingo-dl.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 747f619..a38a3af 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -320,21 +320,19 @@ auto parse_budget(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_mutex(const char *value, void *data) -> bool {
     auto &pc = *static_cast<PropagatorConfig *>(data);
-    uint64_t x = 0;
-    if ((value = parse_uint64_pre(value, &x)) == nullptr) {
+    uint64_t size = 0;
+    uint64_t cutoff = 0;
+    if ((value = parse_uint64_pre(value, &size)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
     if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
-    }
+        constexpr auto max = std::numeric_limits<uint64_t>::max();
+        cutoff = size <= max / 10 ? 10 * size : max; // NOLINT
+    } else if (*value != ',' || !parse_uint64(value + 1, &cutoff)) {
+        return false;
+    } // NOLINT
+    pc.mutex_size = size;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From 4b76bf3ab20da09b2448f4c72007f02901c9b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 08/13] fix: reject unknown values for option dl-heuristic

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index a38a3af..931d881 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -387,12 +387,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From dab8e8106f1e4018c8f8e44cec3e8314b849d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 09/13] fix: decision heuristic setting of first theory
 instance leaks into later instances

---
 libclingo-dl/src/clingo-dl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 931d881..f5b561d 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -138,8 +138,8 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+                                    conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From a2e55a4d9776f6381317c179cbdb2f0d8dde0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 10/13] fix: powers of zero with non-negative exponent are not
 an overflow

---
 libclingo-dl/clingo-dl/impl/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/clingo-dl/impl/util.hh b/libclingo-dl/clingo-dl/impl/util.hh
index 5cc3575..05fb5e2 100644
--- a/libclingo-dl/clingo-dl/impl/util.hh
+++ b/libclingo-dl/clingo-dl/impl/util.hh
@@ -288,7 +288,7 @@ template <typename Float, std::enable_if_t<std::is_floating_point_v<Float>, int>
 }
 
 template <typename Int, std::enable_if_t<std::is_integral_v<Int>, int>> auto safe_pow(Int a, Int b) -> Int {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 9a4e568fc5242832fb7ba1730e2dde6532e3c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 11/13] fix: constant arithmetic terms in constraints are not
 variables

---
 libclingo-dl/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..91d7b90 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -347,7 +347,12 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
             res.emplace_back(1, map_vert(evaluate<N>(term)));
         }
     } else if (term.type() == Clingo::TheoryTermType::Function || term.type() == Clingo::TheoryTermType::Tuple) {
-        res.emplace_back(1, map_vert(evaluate<N>(term)));
+        auto sym = evaluate<N>(term);
+        if (sym.type() == Clingo::SymbolType::Number || sym.type() == Clingo::SymbolType::String) {
+            res.emplace_back(to_number<N>(sym), INVALID_VAR);
+        } else {
+            res.emplace_back(1, map_vert(sym));
+        }
     } else {
         throw_syntax_error("Invalid Syntax: invalid diff constraint");
     }
-- 
2.43.0


From d5dd42eafaf27b3b1bf3b2e731a7b0a782fea4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 12/13] fix: rewriting theory atoms named by symbolic terms

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 91d7b90..450ef99 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From b4753f04ca3f96e7631b37736124b62ce055effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 13/13] fix: 64-bit propagate-root limits are not truncated

The constructor of the thread state took the limit as a 32-bit level, so that
for example 4294967296 disabled propagation instead of enabling it below this
level.
---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index da7541f..f9ffc83 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -87,7 +87,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0

