From 0d30c9ebd3e3eafb37b15d6eca6d6f40822a279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 01/33] fix: refresh every element when an iterator re-enters
 the range

An iterator that had moved past either end compared the digits of its new
index with the digits of the out-of-range index, and kept stale or default
elements wherever they happened to match.
---
 include/symbolic/utils/combination_generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..b468f9f 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,9 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // The combination is only up to date if the current index is within bounds
+    const bool is_current = idx_ >= 0 && idx_ < gen_->size();
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
@@ -347,13 +350,13 @@ class CombinationGenerator<ContainerT>::Iterator {
       remaining_new -= idx_i_new * gen_->size_groups_[i];
 
       // Skip if the index is unchanged
-      if (idx_i == idx_i_new) continue;
+      if (is_current && idx_i == idx_i_new) continue;
 
       // Set the value
       combination_[i] = gen_->options_[i]->at(idx_i_new);
     }
     idx_ = idx_new;
-    assert(remaining == 0);
+    assert(remaining_new == 0);
   }
 
   const CombinationGenerator* gen_ = nullptr;
-- 
2.43.0


From 285231e6999cfe3ce9c84062ce65203a631fc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 02/33] fix: make ReverseIterator::operator-(n) compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index b468f9f..30fa518 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -440,7 +440,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From ccdac6472d1d1c3ee064a3b7cf3a44011bc58cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 03/33] fix: enumerate the single empty combination of no
 parameters

Actions, predicates, axioms, derived predicates and quantifiers without
parameters were treated as if they had no instances at all.
---
 .../symbolic/utils/combination_generator.h    |  3 ++-
 src/normal_form.cc                            |  4 ++++
 src/utils/parameter_generator.cc              | 19 ++++++++++++++-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 30fa518..a5ebb21 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -194,7 +194,8 @@ class CombinationGenerator {
    */
   static size_t ComputeSize(const std::vector<ContainerT*>& options,
                             const std::vector<size_t>& size_groups) {
-    if (options.empty()) return 0;
+    // The product of no options has exactly one (empty) combination
+    if (options.empty()) return 1;
     return options.front()->size() * size_groups.front();
   }
 
diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..03acabc 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -212,6 +212,10 @@ std::optional<DisjunctiveFormula> Conjoin(
     if (dnf.empty()) continue;
     conjunctions.push_back(&dnf.conjunctions);
   }
+
+  // Conjunction is true
+  if (conjunctions.empty()) return conj;
+
   CombinationGenerator<const std::vector<DisjunctiveFormula::Conjunction>> gen(
       conjunctions);
 
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..56fe085 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -19,6 +19,8 @@ namespace {
 using ::symbolic::Object;
 using ::symbolic::ParameterGenerator;
 
+using Base = ParameterGenerator::Base;
+
 std::vector<std::vector<Object>> ParamTypes(
     const ParameterGenerator::ObjectTypeMap& object_map,
     const std::vector<Object>& params) {
@@ -51,6 +53,11 @@ std::vector<const std::vector<Object>*> Options(
   return options;
 }
 
+Base CreateBase(const std::vector<std::vector<Object>>& param_types,
+                bool is_empty) {
+  return is_empty ? Base() : Base(Options(param_types));
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -58,18 +65,20 @@ namespace symbolic {
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
     : param_types_(ParamTypes(pddl.object_map(), params)) {
-  Base::operator=(Base(Options(param_types_)));
+  // No combinations exist if one of the parameter types has no objects.
+  const bool is_empty = param_types_.size() != params.size();
+  Base::operator=(CreateBase(param_types_, is_empty));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
     : param_types_(other.param_types_) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
     : param_types_(std::move(other.param_types_)) {
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
@@ -78,7 +87,7 @@ ParameterGenerator& ParameterGenerator::operator=(
 
   pddl_ = rhs.pddl_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, rhs.empty()));
   return *this;
 }
 
@@ -86,7 +95,7 @@ ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
   pddl_ = rhs.pddl_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  Base::operator=(CreateBase(param_types_, rhs.empty()));
   return *this;
 }
 
-- 
2.43.0


From fbd9d1bf06983aa0ce90455d4ff4d4ee796df2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 04/33] fix: set the pddl pointer of constructed parameter
 generators

---
 src/utils/parameter_generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 56fe085..c6df7a0 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -64,7 +64,7 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   // No combinations exist if one of the parameter types has no objects.
   const bool is_empty = param_types_.size() != params.size();
   Base::operator=(CreateBase(param_types_, is_empty));
@@ -72,12 +72,12 @@ ParameterGenerator::ParameterGenerator(const Pddl& pddl,
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(CreateBase(param_types_, other.empty()));
 }
 
-- 
2.43.0


From 9918ec49c1a466c34a0e355a632dc9f6c06bfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 05/33] fix: set the pddl pointer of predicates and derived
 predicates

StateIndex::pddl() dereferenced a null pointer.
---
 src/derived_predicate.cc | 1 +
 src/predicate.cc         | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
-- 
2.43.0


From 031145d0892177dd7b778b750db766f1aaddc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 06/33] fix: load a domain without a problem through one
 constructor

The domain-only constructor did not list the constants, and an empty problem
given to the other one dereferenced a null pointer.
---
 src/pddl.cc | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..0df3420 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -104,6 +104,7 @@ std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
 using ::symbolic::Action;
 using ::symbolic::Axiom;
 using ::symbolic::DerivedPredicate;
+using ::symbolic::Formula;
 using ::symbolic::Object;
 using ::symbolic::PartialState;
 using ::symbolic::Pddl;
@@ -259,9 +260,13 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       predicates_(GetPredicates(*this, *analysis_->the_domain)),
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
       state_index_(predicates_),
-      initial_state_(
-          GetInitialState(*analysis_->the_domain, *analysis_->the_problem)),
-      goal_(*this, analysis_->the_problem->the_goal) {
+      initial_state_(analysis_->the_problem == nullptr
+                         ? State()
+                         : GetInitialState(*analysis_->the_domain,
+                                           *analysis_->the_problem)),
+      goal_(analysis_->the_problem == nullptr
+                ? Formula()
+                : Formula(*this, analysis_->the_problem->the_goal)) {
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
@@ -279,27 +284,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   }
 }
 
-Pddl::Pddl(const std::string& domain_pddl)
-    : analysis_(ParsePddl(domain_pddl, "")),
-      domain_pddl_(domain_pddl),
-      objects_(GetObjects(*analysis_->the_domain)),
-      object_map_(CreateObjectTypeMap(objects_)),
-      axioms_(GetAxioms(*this, *analysis_->the_domain)),
-      predicates_(GetPredicates(*this, *analysis_->the_domain)),
-      derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
-      state_index_(predicates_) {
-  // Create axiom map after initialization list to avoid conflicts with
-  // GetAxioms(), which accesses the axiom map during the construction of DNFs.
-  axiom_map_ = CreateAxiomContextMap(axioms());
-
-  // Recreate axioms with updated axiom map. Axioms need to be pointers so
-  // that they can be updated and remain usable from Action::Apply() lambdas
-  // while handling axiom loops.
-  UpdateAxioms(*this, &axioms_);
-
-  // Create actions after all axioms have settled.
-  actions_ = GetActions(*this, *analysis_->the_domain);
-}
+Pddl::Pddl(const std::string& domain_pddl) : Pddl(domain_pddl, "", false) {}
 
 bool Pddl::IsValid(bool verbose, std::ostream& os) const {
   VAL::Verbose = verbose;
-- 
2.43.0


From 02abae51c7d332eb03bf84ed8cf9a79a2c955f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 07/33] fix: return the solution found last by depth-first and
 A* search

The iterators compared equal to end() as soon as nothing was pending, so a
solution found on the last pending node was lost.
---
 include/symbolic/planning/a_star.h             | 7 +++++--
 include/symbolic/planning/depth_first_search.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..97a93cb 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,14 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +96,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +106,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..7297b88 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,14 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +81,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +92,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 87b1ea3f564f3dfde19b3a26a8c1bb55d3552614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 08/33] fix: keep tautologies and contradictions when
 normalising formulas

Disjoining with a tautology dropped it, an empty disjunction became true,
negating a tautology gave a tautology, and a conditional effect with a
tautological condition lost its result.
---
 src/normal_form.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 03acabc..e699a2b 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -189,8 +189,14 @@ std::optional<DisjunctiveFormula> Simplify(const Pddl& pddl,
 std::optional<DisjunctiveFormula> Disjoin(
     const Pddl& pddl, std::vector<DisjunctiveFormula>&& dnfs,
     bool apply_axioms) {
+  // An empty disjunction is false
+  if (dnfs.empty()) return {};
+
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // An empty formula is true, which makes the disjunction true
+    if (dnf.empty()) return DisjunctiveFormula();
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
@@ -265,6 +271,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // The empty formula is true, so its negation is false
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
@@ -461,7 +470,12 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     }
 
     condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
+    if (!condition.has_value()) {
+      // Condition always true, so the result must hold
+      if (!result.has_value()) return {};
+      dnfs.push_back(std::move(*result));
+      continue;
+    }
 
     if (!result.has_value()) {
       // Result always false, so return neg condition
-- 
2.43.0


From 521d3f8c5b3a64d3a0df38953093ce8a633decaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 09/33] fix: compute derived predicates as the least fixpoint
 of their rules

Derived propositions left over from an earlier state could support each other
and never be retracted, and two rules for the same predicate added and erased
the same proposition forever.
---
 src/derived_predicate.cc | 123 ++++++++++++++++++++++++++++++++-------
 1 file changed, 101 insertions(+), 22 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 73939f9..8182660 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -11,8 +11,83 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>  // std::max, std::min
+#include <map>        // std::map
+#include <string>     // std::string
+
 #include "symbolic/pddl.h"
 
+namespace {
+
+using ::symbolic::DerivedPredicate;
+
+/**
+ * Computes the lowest stratum allowed by the predicates in the formula.
+ */
+size_t ComputeStratum(const VAL::goal* goal,
+                      const std::map<std::string, size_t>& strata,
+                      bool is_negated = false) {
+  const auto* simple_goal = dynamic_cast<const VAL::simple_goal*>(goal);
+  if (simple_goal != nullptr) {
+    const auto it = strata.find(simple_goal->getProp()->head->getName());
+    if (it == strata.end()) return 0;
+    return it->second + static_cast<size_t>(is_negated);
+  }
+
+  const auto* neg_goal = dynamic_cast<const VAL::neg_goal*>(goal);
+  if (neg_goal != nullptr) {
+    return ComputeStratum(neg_goal->getGoal(), strata, !is_negated);
+  }
+
+  const auto* qfied_goal = dynamic_cast<const VAL::qfied_goal*>(goal);
+  if (qfied_goal != nullptr) {
+    return ComputeStratum(qfied_goal->getGoal(), strata, is_negated);
+  }
+
+  const VAL::goal_list* goals = nullptr;
+  const auto* conj_goal = dynamic_cast<const VAL::conj_goal*>(goal);
+  if (conj_goal != nullptr) goals = conj_goal->getGoals();
+  const auto* disj_goal = dynamic_cast<const VAL::disj_goal*>(goal);
+  if (disj_goal != nullptr) goals = disj_goal->getGoals();
+  if (goals == nullptr) return 0;
+
+  size_t stratum = 0;
+  for (const VAL::goal* g : *goals) {
+    stratum = std::max(stratum, ComputeStratum(g, strata, is_negated));
+  }
+  return stratum;
+}
+
+/**
+ * Assigns a stratum to each derived predicate such that it is at least as high
+ * as those of the predicates it depends on, and higher than those of the
+ * predicates whose negation it depends on.
+ */
+std::map<std::string, size_t> Stratify(
+    const std::vector<DerivedPredicate>& predicates) {
+  std::map<std::string, size_t> strata;
+  for (const DerivedPredicate& pred : predicates) {
+    strata[pred.name()] = 0;
+  }
+
+  bool is_changed = true;
+  while (is_changed) {
+    is_changed = false;
+    for (const DerivedPredicate& pred : predicates) {
+      // Limit strata in case a predicate depends on its own negation
+      const size_t stratum =
+          std::min(ComputeStratum(pred.symbol()->get_body(), strata),
+                   predicates.size());
+      if (stratum <= strata[pred.name()]) continue;
+      strata[pred.name()] = stratum;
+      is_changed = true;
+    }
+  }
+  return strata;
+}
+
+}  // namespace
+
 namespace symbolic {
 
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
@@ -26,34 +101,38 @@ DerivedPredicate::DerivedPredicate(const Pddl& pddl,
 }
 
 bool DerivedPredicate::Apply(State* state) const {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicate converges
-    is_iter_changed = false;
-    for (const std::vector<Object>& arguments : parameter_generator()) {
-      is_iter_changed |= IsValid(*state, arguments)
-                             ? state->emplace(name(), arguments)
-                             : state->erase(Proposition(name(), arguments));
-    }
-    is_changed |= is_iter_changed;
-  }
-  return is_changed;
+  return Apply({*this}, state);
 }
 
 bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
                              State* state) {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicates converge
-    is_iter_changed = false;
-    for (const DerivedPredicate& pred : predicates) {
-      is_iter_changed |= pred.Apply(state);
+  if (predicates.empty()) return false;
+  const State prev_state = *state;
+
+  // Retract all derived propositions, since they might only support each other
+  const std::map<std::string, size_t> strata = Stratify(predicates);
+  for (const Proposition& prop : prev_state) {
+    if (strata.count(prop.name()) > 0) state->erase(prop);
+  }
+
+  // Derive propositions from the lowest to the highest stratum
+  for (size_t stratum = 0; stratum <= predicates.size(); stratum++) {
+    bool is_iter_changed = true;
+    while (is_iter_changed) {
+      // Keep iterating until predicates converge
+      is_iter_changed = false;
+      for (const DerivedPredicate& pred : predicates) {
+        if (strata.at(pred.name()) != stratum) continue;
+        for (const std::vector<Object>& arguments :
+             pred.parameter_generator()) {
+          if (!pred.IsValid(*state, arguments)) continue;
+          is_iter_changed |= state->emplace(pred.name(), arguments);
+        }
+      }
     }
-    is_changed |= is_iter_changed;
   }
-  return is_changed;
+
+  return *state != prev_state;
 }
 
 State DerivedPredicate::Apply(const State& state,
-- 
2.43.0


From d5ec805416a22d5a2cc3ea9e68e5345e804092bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 10/33] fix: include derived predicates in the initial state
 and planner root

They were only computed after the first action, so plans whose first step
relies on a derived predicate were rejected and never found.
---
 include/symbolic/planning/planner.h | 2 +-
 src/pddl.cc                         | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/planning/planner.h b/include/symbolic/planning/planner.h
index 2336f41..0c12e8a 100644
--- a/include/symbolic/planning/planner.h
+++ b/include/symbolic/planning/planner.h
@@ -77,7 +77,7 @@ class Planner {
    * @seepython{symbolic.Planner,__init__}
    */
   Planner(const Pddl& pddl, const State& state)
-      : root_(pddl, pddl.ConsistentState(state)) {}
+      : root_(pddl, pddl.DerivedState(pddl.ConsistentState(state))) {}
 
   const Node& root() const { return root_; }
 
diff --git a/src/pddl.cc b/src/pddl.cc
index 0df3420..bcabe79 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -282,6 +282,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   if (apply_axioms) {
     initial_state_ = ConsistentState(initial_state_);
   }
+  initial_state_ = DerivedState(initial_state_);
 }
 
 Pddl::Pddl(const std::string& domain_pddl) : Pddl(domain_pddl, "", false) {}
-- 
2.43.0


From 03b5af564888761f608cc67a909abaeec3c0b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 11/33] fix: do not bind constants to parameters of the same
 name

---
 include/symbolic/object.h | 3 +++
 src/formula.cc            | 3 +++
 src/object.cc             | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/include/symbolic/object.h b/include/symbolic/object.h
index bd2a6d8..00f52a4 100644
--- a/include/symbolic/object.h
+++ b/include/symbolic/object.h
@@ -52,6 +52,9 @@ class Object {
 
   size_t hash() const { return hash_; }
 
+  // Whether the symbol is a variable (parameter), as opposed to a constant
+  bool IsVariable() const;
+
   // Atom is a proposition or action
   static std::vector<Object> ParseArguments(const Pddl& pddl,
                                             const std::string& atom);
diff --git a/src/formula.cc b/src/formula.cc
index 6299073..9535c3f 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -384,6 +384,9 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // Constants stand for themselves, even if a parameter has the same name
+    if (!prop_params[i].IsVariable()) continue;
+
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
diff --git a/src/object.cc b/src/object.cc
index 69091a1..6f62480 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -121,6 +121,10 @@ Object::Object(const Pddl& pddl, const std::string& name_object)
 
 const std::string& Object::name() const { return symbol_->getNameRef(); }
 
+bool Object::IsVariable() const {
+  return dynamic_cast<const VAL::var_symbol*>(symbol_) != nullptr;
+}
+
 // Object::Object(const std::string& name_object)
 //     : name_storage_(std::make_shared<std::string>(name_object)),
 //       name_(name_storage_.get()),
-- 
2.43.0


From e3d3dabf6c9deae0f31539c9e314ad156b7e5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 12/33] fix: apply triggered axioms to exactly the matching
 arguments

Axioms triggered by an effect ignored the types of their parameters and
repeated variables in their context, left variables that only occur in the
implication unbound, and shared one argument buffer between nested
applications of the same axiom.
---
 include/symbolic/axiom.h |  13 ++---
 src/action.cc            |  48 ++++++-----------
 src/axiom.cc             | 113 ++++++++++++++++++++-------------------
 3 files changed, 79 insertions(+), 95 deletions(-)

diff --git a/include/symbolic/axiom.h b/include/symbolic/axiom.h
index 9ff901d..de46183 100644
--- a/include/symbolic/axiom.h
+++ b/include/symbolic/axiom.h
@@ -71,13 +71,14 @@ class Axiom : public Action {
   friend std::ostream& operator<<(std::ostream& os, const Axiom& axiom);
 
   /**
-   * Creates a function that takes action_args and returns axiom_args based on
-   * positional indices of the axiom context proposition. If the action_args are
-   * not consistent with the axiom context, returns an empty vector.
+   * Creates a function that takes action_args and returns all axiom_args for
+   * which the axiom context is the action proposition. Returns an empty vector
+   * if the action_args are not consistent with the axiom context.
    */
-  static std::optional<
-      std::function<const std::vector<Object>*(const std::vector<Object>&)>>
-  CreateApplicationFunction(const std::vector<Object>& action_params,
+  static std::function<
+      std::vector<std::vector<Object>>(const std::vector<Object>&)>
+  CreateApplicationFunction(const Pddl& pddl,
+                            const std::vector<Object>& action_params,
                             const std::vector<Object>& action_prop_params,
                             const std::vector<Object>& axiom_params,
                             const std::vector<Object>& axiom_prop_params);
diff --git a/src/action.cc b/src/action.cc
index 68d42b5..0d8e476 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -38,7 +38,7 @@ using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
 
 using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
+    std::function<std::vector<std::vector<Object>>(const std::vector<Object>&)>;
 
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
@@ -126,13 +126,10 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const std::weak_ptr<Axiom>& ptr_axiom :
          pddl.axiom_map().at(axiom_context)) {
       const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
+      axioms.emplace_back(axiom, Axiom::CreateApplicationFunction(
+                                     pddl, parameters, effect_params,
+                                     axiom->parameters(),
+                                     axiom->context().arguments()));
     }
   }
 
@@ -150,15 +147,9 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
+      for (const std::vector<Object>& axiom_args : AxiomApply(arguments)) {
+        axiom.Action::Apply(axiom_args, state);
+      }
     }
     return status;
   };
@@ -215,13 +206,10 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const std::weak_ptr<Axiom>& ptr_axiom :
          pddl.axiom_map().at(axiom_context)) {
       const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
+      axioms.emplace_back(axiom, Axiom::CreateApplicationFunction(
+                                     pddl, parameters, effect_params,
+                                     axiom->parameters(),
+                                     axiom->context().arguments()));
     }
   }
 
@@ -239,15 +227,9 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
+      for (const std::vector<Object>& axiom_args : AxiomApply(arguments)) {
+        axiom.Action::Apply(axiom_args, state);
+      }
     }
     return status;
   };
diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..a91a157 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -11,6 +11,7 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>  // std::all_of, std::find, std::max
 #include <exception>  // std::domain_error
 #include <sstream>    // std::stringstream
 
@@ -26,7 +27,7 @@ using ::symbolic::Pddl;
 using ::symbolic::SignedProposition;
 
 using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
+    std::function<std::vector<std::vector<Object>>(const std::vector<Object>&)>;
 
 /**
  * Prepares list of possible arguments given axiom parameters.
@@ -233,71 +234,71 @@ std::ostream& operator<<(std::ostream& os, const Axiom& axiom) {
   return os;
 }
 
-std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
-    const std::vector<Object>& action_params,
+AxiomApplicationFunction Axiom::CreateApplicationFunction(
+    const Pddl& pddl, const std::vector<Object>& action_params,
     const std::vector<Object>& action_prop_params,
     const std::vector<Object>& axiom_params,
     const std::vector<Object>& axiom_prop_params) {
-  const size_t num_prop_params = action_prop_params.size();
-  assert(num_prop_params == axiom_prop_params.size());
-
-  // Check unmatched axiom prop param equal action param.
-  std::vector<std::pair<size_t, size_t>> idx_params;
-  auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
-  std::vector<std::pair<size_t, Object>> future_action_args;
-  for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
-    // Check if axiom prop param has corresponding axiom param.
-    const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
+  assert(action_prop_params.size() == axiom_prop_params.size());
+
+  // Match axiom prop params to axiom params (or constants if out of range).
+  std::vector<size_t> idx_params;
+  for (const Object& axiom_prop_param : axiom_prop_params) {
+    size_t i = axiom_params.size();
+    if (axiom_prop_param.IsVariable()) {
+      i = std::find(axiom_params.begin(), axiom_params.end(),
+                    axiom_prop_param) -
+          axiom_params.begin();
     }
-    const bool is_axiom_prop_arg = i == axiom_params.size();
+    idx_params.push_back(i);
+  }
 
-    // Check if action prop param has corresponding action param.
-    const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
-    const bool is_action_prop_arg = j == action_params.size();
-
-    if (is_axiom_prop_arg && is_action_prop_arg) {
-      // Make sure axiom prop arg and action prop arg are equal.
-      if (axiom_prop_param != action_prop_param) return {};
-    } else if (is_axiom_prop_arg) {
-      // Make sure axiom prop arg and future action prop arg are equal.
-      future_action_args.emplace_back(j, axiom_prop_param);
-    } else if (is_action_prop_arg) {
-      // Instantiate axiom prop param with action prop arg.
-      (*axiom_args)[i] = action_prop_param;
-    } else {
-      // Match axiom prop param and action prop param.
-      idx_params.emplace_back(i, j);
-    }
+  // Axiom params missing from the context may take any value.
+  std::vector<size_t> idx_free;
+  std::vector<Object> free_params;
+  for (size_t i = 0; i < axiom_params.size(); i++) {
+    if (std::find(idx_params.begin(), idx_params.end(), i) != idx_params.end())
+      continue;
+    idx_free.push_back(i);
+    free_params.push_back(axiom_params[i]);
   }
 
-  // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
-          idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
-             const std::vector<Object>& action_args)
-             -> const std::vector<Object>* {
-    // Check that action args match up with axiom context proposition.
-    for (const std::pair<size_t, Object>& idx_argument : future_action_args) {
-      const size_t idx_arg = idx_argument.first;
-      const Object& expected_arg = idx_argument.second;
-      if (action_args[idx_arg] != expected_arg) return nullptr;
+  return [Apply = Formula::CreateApplicationFunction(action_params,
+                                                     action_prop_params),
+          axiom_params, axiom_prop_params, idx_params = std::move(idx_params),
+          idx_free = std::move(idx_free),
+          gen = ParameterGenerator(pddl, free_params)](
+             const std::vector<Object>& action_args) {
+    std::vector<std::vector<Object>> arguments;
+    const std::vector<Object>& prop_args = Apply(action_args);
+
+    // Check that the action proposition matches up with the axiom context.
+    std::vector<Object> axiom_args = axiom_params;
+    std::vector<bool> is_bound(axiom_params.size(), false);
+    for (size_t idx_prop = 0; idx_prop < prop_args.size(); idx_prop++) {
+      const Object& prop_arg = prop_args[idx_prop];
+      const size_t i = idx_params[idx_prop];
+      if (i == axiom_params.size()) {
+        if (prop_arg != axiom_prop_params[idx_prop]) return arguments;
+      } else if (is_bound[i]) {
+        if (prop_arg != axiom_args[i]) return arguments;
+      } else {
+        if (!prop_arg.type().IsSubtype(axiom_params[i].type())) {
+          return arguments;
+        }
+        axiom_args[i] = prop_arg;
+        is_bound[i] = true;
+      }
     }
 
-    // Assign axiom args to action args.
-    std::vector<Object>& axiom_args = *ptr_axiom_args;
-    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
-      const size_t idx_axiom = idx_axiom_action.first;
-      const size_t idx_action = idx_axiom_action.second;
-      axiom_args[idx_axiom] = action_args[idx_action];
+    // Instantiate the remaining axiom params.
+    for (const std::vector<Object>& free_args : gen) {
+      for (size_t i = 0; i < idx_free.size(); i++) {
+        axiom_args[idx_free[i]] = free_args[i];
+      }
+      arguments.push_back(axiom_args);
     }
-    return &axiom_args;
+    return arguments;
   };
 }
 
-- 
2.43.0


From 26e9168c36ff11a5afeddd5e393a13890de81967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 13/33] fix: report changes made by triggered axioms

A value of a partial state flipped by a triggered axiom was not reported, so
that contradictions with the axioms went unnoticed.
---
 src/action.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 0d8e476..a4ad2ae 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -148,7 +148,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
       for (const std::vector<Object>& axiom_args : AxiomApply(arguments)) {
-        axiom.Action::Apply(axiom_args, state);
+        const int axiom_status = axiom.Action::Apply(axiom_args, state);
+        status = std::max(status, axiom_status);
       }
     }
     return status;
@@ -228,7 +229,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
       for (const std::vector<Object>& axiom_args : AxiomApply(arguments)) {
-        axiom.Action::Apply(axiom_args, state);
+        const int axiom_status = axiom.Action::Apply(axiom_args, state);
+        status = std::max(status, axiom_status);
       }
     }
     return status;
-- 
2.43.0


From d7470274d008054453430c15a81c55376608e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 14/33] fix: evaluate effect conditions in the state before the
 action

Conditional effects read the state while it was being modified by the other
effects, including other instances of an enclosing forall effect.
---
 src/action.cc | 68 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index a4ad2ae..373e769 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -31,8 +31,10 @@ using ::symbolic::PropositionRef;
 using ::symbolic::SignedProposition;
 using ::symbolic::State;
 
+// Conditions are evaluated in the state before any effects have been applied
 template <typename T>
-using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
+using EffectsFunction =
+    std::function<int(const std::vector<Object>&, const T& prev_state, T*)>;
 
 using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
@@ -59,7 +61,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
 
   return [gen = ParameterGenerator(pddl, types),
           ForallEffects = std::move(ForallEffects)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     // Loop over forall arguments
     int is_state_changed = 0;
     for (const std::vector<Object>& forall_objs : gen) {
@@ -68,8 +71,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
       forall_args.insert(forall_args.end(), forall_objs.begin(),
                          forall_objs.end());
 
-      is_state_changed =
-          std::max(is_state_changed, ForallEffects(forall_args, state));
+      is_state_changed = std::max(
+          is_state_changed, ForallEffects(forall_args, prev_state, state));
     }
     return is_state_changed;
   };
@@ -88,6 +91,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   if (name_predicate == "=") {
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
+                                      const T& /*prev_state*/,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
                                       T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
@@ -105,7 +109,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& /*prev_state*/,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (!prop_args[0].type().IsSubtype(name_predicate)) {
@@ -137,7 +142,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& /*prev_state*/,
+             T* state) -> int {
     int status = state->insert(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -169,6 +175,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   if (name_predicate == "=") {
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
+                                      const T& /*prev_state*/,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
                                       T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
@@ -186,7 +193,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& /*prev_state*/,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (prop_args[0].type().IsSubtype(name_predicate)) {
@@ -218,7 +226,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& /*prev_state*/,
+             T* state) -> int {
     int status = state->erase(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -251,11 +260,10 @@ EffectsFunction<T> CreateCond(const Pddl& pddl, const VAL::cond_effect* effect,
       CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters);
   return
       [Condition = std::move(Condition), CondEffects = std::move(CondEffects)](
-          const std::vector<Object>& arguments, T* state) -> int {
-        // TODO(tmigimatsu): Condition might return different results depending
-        // on ordering of other effects since state is modified in place.
-        if (EvaluateCondition(Condition(*state, arguments))) {
-          return CondEffects(arguments, state);
+          const std::vector<Object>& arguments, const T& prev_state,
+          T* state) -> int {
+        if (EvaluateCondition(Condition(prev_state, arguments))) {
+          return CondEffects(arguments, prev_state, state);
         }
         return false;
       };
@@ -287,15 +295,39 @@ EffectsFunction<T> CreateEffectsFunction(
   }
 
   return [effect_functions = std::move(effect_functions)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int is_state_changed = 0;
     for (const EffectsFunction<T>& Effect : effect_functions) {
-      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
+      is_state_changed =
+          std::max(is_state_changed, Effect(arguments, prev_state, state));
     }
     return is_state_changed;
   };
 }
 
+bool HasCondEffects(const VAL::effect_lists* effects) {
+  if (!effects->cond_effects.empty()) return true;
+  for (const VAL::forall_effect* effect : effects->forall_effects) {
+    if (HasCondEffects(effect->getEffects())) return true;
+  }
+  return false;
+}
+
+template <typename T>
+std::function<int(const std::vector<Object>&, T*)> CreateApplyFunction(
+    const Pddl& pddl, const VAL::effect_lists* effects,
+    const std::vector<Object>& parameters) {
+  return [has_cond_effects = HasCondEffects(effects),
+          Effects = CreateEffectsFunction<T>(pddl, effects, parameters)](
+             const std::vector<Object>& arguments, T* state) -> int {
+    // Avoid copying the state if there are no conditions to evaluate
+    if (!has_cond_effects) return Effects(arguments, *state, state);
+    const T prev_state = *state;
+    return Effects(arguments, prev_state, state);
+  };
+}
+
 const VAL::operator_* GetSymbol(const Pddl& pddl,
                                 const std::string& name_action) {
   assert(pddl.symbol()->the_domain->ops != nullptr);
@@ -319,9 +351,9 @@ Action::Action(const Pddl& pddl, const VAL::operator_* symbol)
       parameters_(Object::CreateList(pddl, symbol_->parameters)),
       param_gen_(pddl, parameters_),
       Preconditions_(pddl, symbol_->precondition, parameters_),
-      Apply_(CreateEffectsFunction<State>(pddl, symbol_->effects, parameters_)),
-      ApplyPartial_(CreateEffectsFunction<PartialState>(pddl, symbol_->effects,
-                                                        parameters_)) {}
+      Apply_(CreateApplyFunction<State>(pddl, symbol_->effects, parameters_)),
+      ApplyPartial_(CreateApplyFunction<PartialState>(pddl, symbol_->effects,
+                                                      parameters_)) {}
 
 Action::Action(const Pddl& pddl, const std::string& action_call)
     : Action(pddl, GetSymbol(pddl, Proposition::ParseHead(action_call))) {}
-- 
2.43.0


From 34d86d4aa2c146be81e5f3f77cba4bc29b3e28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 15/33] fix: print formulas in valid PDDL

The text of a quantified formula overwrote the quantifier and listed the outer
parameters instead of the quantified ones, and variables were printed like
constants.
---
 src/formula.cc | 56 +++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 9535c3f..2740af9 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -26,7 +26,6 @@ using ::symbolic::Object;
 using ::symbolic::ParameterGenerator;
 using ::symbolic::PartialState;
 using ::symbolic::Pddl;
-using ::symbolic::Proposition;
 using ::symbolic::PropositionRef;
 
 template <typename T>
@@ -43,6 +42,31 @@ template <typename T>
 NamedFormulaFunction<T> CreateFormula(const Pddl& pddl, const VAL::goal* symbol,
                                       const std::vector<Object>& parameters);
 
+std::string StringifyProposition(const std::string& name_predicate,
+                                 const std::vector<Object>& prop_params) {
+  std::stringstream ss;
+  ss << "(" << name_predicate;
+  for (const Object& param : prop_params) {
+    ss << " " << (param.IsVariable() ? "?" : "") << param;
+  }
+  ss << ")";
+  return ss.str();
+}
+
+std::string StringifyQuantifier(const std::string& quantifier,
+                                const std::vector<Object>& parameters,
+                                const std::string& str_formula) {
+  std::stringstream ss;
+  ss << "(" << quantifier << " (";
+  std::string delim;
+  for (const Object& param : parameters) {
+    ss << delim << "?" << param << " - " << param.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  ss << ")" << std::endl << str_formula << std::endl << ")";
+  return ss.str();
+}
+
 template <typename T>
 NamedFormulaFunction<T> CreateProposition(
     const Pddl& pddl, const VAL::simple_goal* symbol,
@@ -63,7 +87,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0] == prop_args[1];
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), StringifyProposition(name_predicate, prop_params)};
   }
   if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
     // Predicate is a type. If it isn't in the object map, then no objects of
@@ -78,7 +102,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0].type().IsSubtype(name_predicate);
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), StringifyProposition(name_predicate, prop_params)};
   }
 
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
@@ -91,7 +115,7 @@ NamedFormulaFunction<T> CreateProposition(
     return state.contains(P);
   };
 
-  return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+  return {std::move(F), StringifyProposition(name_predicate, prop_params)};
 }
 
 template <typename T>
@@ -202,7 +226,7 @@ NamedFormulaFunction<PartialState> CreateNegation(
       };
 
       return {std::move(F),
-              "(not " + Proposition(name_predicate, prop_params).to_pddl() + ")"};
+              "(not " + StringifyProposition(name_predicate, prop_params) + ")"};
     }
     // Otherwise proposition is an = or type, so evaluate as normal.
   }
@@ -232,6 +256,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
 
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, forall_params);
+  std::string str_formula = StringifyQuantifier("forall", types, P_str.second);
 
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
@@ -249,15 +274,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
@@ -271,6 +288,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
 
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);
+  std::string str_formula = StringifyQuantifier("exists", types, P_str.second);
 
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
@@ -288,15 +306,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
-- 
2.43.0


From afc2c604db88fc9ce5e9bc95da066f5c06e490c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 16/33] fix: iterate over the children of a node without valid
 parameters

Iterating dereferenced the first action of a domain without actions, and
iterating backwards moved before the beginning of actions without arguments
of the right type.
---
 src/planning/planner.cc | 57 +++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..72b91d2 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -17,6 +17,22 @@
 #include <unordered_set>  // std::unordered_set
 #endif                    // SYMBOLIC_PLANNER_USE_ORDERED_CACHE
 
+namespace {
+
+using ::symbolic::ParameterGenerator;
+using ::symbolic::Pddl;
+
+/**
+ * Parameters of the first action, if there is one.
+ */
+ParameterGenerator::const_iterator BeginParameters(const Pddl& pddl) {
+  static const ParameterGenerator kNoParameters;
+  if (pddl.actions().empty()) return kNoParameters.begin();
+  return pddl.actions().front().parameter_generator().begin();
+}
+
+}  // namespace
+
 namespace symbolic {
 
 struct Planner::Node::NodeImpl {
@@ -143,7 +159,7 @@ Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
       it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_param_(BeginParameters(pddl_)) {}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
@@ -183,42 +199,21 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 }
 
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
-  if (it_action_ == pddl_.actions().end()) {
-    --it_action_;
-    const Action& action = *it_action_;
-    it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
-
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
-  }
-
-  while (it_action_ != pddl_.actions().begin() ||
-         it_param_ != it_action_->parameter_generator().begin()) {
-    if (it_param_ == it_action_->parameter_generator().begin()) {
-      // Move onto next action
+  while (true) {
+    if (it_action_ == pddl_.actions().end() ||
+        it_param_ == it_action_->parameter_generator().begin()) {
+      // Move onto previous action
+      if (it_action_ == pddl_.actions().begin()) break;
       --it_action_;
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
-      --it_param_;
-    } else {
-      // Move onto next parameters
-      --it_param_;
+      continue;
     }
 
+    // Move onto previous parameters
+    --it_param_;
+
     // Check action preconditions
     const Action& action = *it_action_;
     const std::vector<Object>& arguments = *it_param_;
-- 
2.43.0


From 4869ce5db75f0958d05352890a94e63a8014a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 17/33] fix: put quantified variables in parentheses

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..5b24968 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From 0960ca8e87de7fa52bbeb1701c0b1626db8badbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 18/33] fix: parse propositions without arguments in Python

They were parsed as having one empty argument.
---
 symbolic/problem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 5b24968..e6df3e9 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -53,6 +53,11 @@ def _when(condition: Formula, implies: Formula):
     return create_group("when", (condition, implies))
 
 
+def _split_args(str_args: str) -> List[str]:
+    str_args = str_args.replace(" ", "")
+    return str_args.split(",") if str_args else []
+
+
 def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     """Parses the head and arguments of a proposition string.
 
@@ -64,8 +69,7 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
-    return name_pred, str_args
+    return name_pred, _split_args(matches.group(2))
 
 
 def parse_head(str_prop: str) -> str:
@@ -86,8 +90,7 @@ def parse_args(str_prop: str) -> List[str]:
     matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    return _split_args(matches.group(1))
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From db876857844abb67afed173663ef59d902fbefe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 19/33] fix: update all members when adding or removing objects

---
 include/symbolic/pddl.h | 13 ++++++-
 src/pddl.cc             | 77 +++++++++++++++++++++++++++++++----------
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 4713874..51197f0 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -223,7 +223,10 @@ class Pddl {
    * Initial state for planning.
    */
   const State& initial_state() const { return initial_state_; }
-  void set_initial_state(State&& state) { initial_state_ = std::move(state); }
+  void set_initial_state(State&& state) {
+    initial_state_ = std::move(state);
+    is_initial_state_set_ = true;
+  }
 
   const ObjectTypeMap& object_map() const { return object_map_; }
 
@@ -250,9 +253,17 @@ class Pddl {
   const Formula& goal() const { return goal_; }
 
  private:
+  // Create the axioms, actions, and initial state after the other members.
+  void FinishConstruction();
+
+  // Recreate the members that depend on the objects.
+  void UpdateObjects();
+
   std::shared_ptr<VAL::analysis> analysis_;
   std::string domain_pddl_;
   std::string problem_pddl_;
+  bool apply_axioms_;
+  bool is_initial_state_set_ = false;
 
   std::vector<Object> constants_;
   std::vector<Object> objects_;
diff --git a/src/pddl.cc b/src/pddl.cc
index bcabe79..a300ea7 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,6 +13,7 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
+#include <algorithm>  // std::all_of, std::find
 #include <fstream>  // std::ifstream
 #include <sstream>  // std::stringstream
 #include <string>   // std::string
@@ -253,6 +254,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
     : analysis_(ParsePddl(domain_pddl, problem_pddl)),
       domain_pddl_(domain_pddl),
       problem_pddl_(problem_pddl),
+      apply_axioms_(apply_axioms),
       constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain, analysis_->the_problem)),
       object_map_(CreateObjectTypeMap(objects_)),
@@ -267,6 +269,10 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       goal_(analysis_->the_problem == nullptr
                 ? Formula()
                 : Formula(*this, analysis_->the_problem->the_goal)) {
+  FinishConstruction();
+}
+
+void Pddl::FinishConstruction() {
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
@@ -279,12 +285,45 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   // Create actions after all axioms have settled.
   actions_ = GetActions(*this, *analysis_->the_domain);
 
-  if (apply_axioms) {
+  if (is_initial_state_set_) return;
+  if (apply_axioms_) {
     initial_state_ = ConsistentState(initial_state_);
   }
   initial_state_ = DerivedState(initial_state_);
 }
 
+void Pddl::UpdateObjects() {
+  const VAL::domain& domain = *analysis_->the_domain;
+  const VAL::problem& problem = *analysis_->the_problem;
+
+  objects_ = GetObjects(domain, &problem);
+  object_map_ = CreateObjectTypeMap(objects_);
+
+  // Everything below enumerates the objects, so it needs to be recreated.
+  axiom_map_.clear();
+  axioms_ = GetAxioms(*this, domain);
+  predicates_ = GetPredicates(*this, domain);
+  derived_predicates_ = GetDerivedPredicates(*this, domain);
+  state_index_ = StateIndex(predicates_);
+  goal_ = Formula(*this, problem.the_goal);
+
+  // Drop the facts about objects that don't exist anymore.
+  const State state = is_initial_state_set_ ? initial_state_
+                                            : GetInitialState(domain, problem);
+  initial_state_ = State();
+  for (const Proposition& prop : state) {
+    const bool is_valid = std::all_of(
+        prop.arguments().begin(), prop.arguments().end(),
+        [this](const Object& arg) {
+          return std::find(objects_.begin(), objects_.end(), arg) !=
+                 objects_.end();
+        });
+    if (is_valid) initial_state_.insert(prop);
+  }
+
+  FinishConstruction();
+}
+
 Pddl::Pddl(const std::string& domain_pddl) : Pddl(domain_pddl, "", false) {}
 
 bool Pddl::IsValid(bool verbose, std::ostream& os) const {
@@ -500,30 +539,30 @@ std::vector<std::string> Pddl::ListValidActions(
 }
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
+  if (analysis_->the_problem == nullptr) {
+    throw std::runtime_error("Pddl::AddObject(): No problem has been loaded.");
+  }
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  if (analysis_->the_domain->types != nullptr) {
+    for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
+      if (type_symbol->getName() != type) continue;
+      symbol->type = type_symbol;
+      break;
+    }
   }
   analysis_->the_problem->objects->push_back(symbol);
-  objects_.emplace_back(*this, symbol);
+  UpdateObjects();
 }
 
 void Pddl::RemoveObject(const std::string& name) {
-  for (auto it = objects_.begin(); it != objects_.end(); ++it) {
-    if (it->name() != name) continue;
-    const VAL::pddl_typed_symbol* symbol = it->symbol();
-    objects_.erase(it);
-
-    VAL::const_symbol_list* objects = analysis_->the_problem->objects;
-    for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-      if ((*itt)->getNameRef() != name) continue;
-      objects->erase(itt);
-      break;
-    }
-
-    delete symbol;
+  if (analysis_->the_problem == nullptr) return;
+  VAL::const_symbol_list* objects = analysis_->the_problem->objects;
+  for (auto it = objects->begin(); it != objects->end(); ++it) {
+    if ((*it)->getName() != name) continue;
+
+    // The symbol itself may still be referenced by existing states.
+    objects->erase(it);
+    UpdateObjects();
     break;
   }
 }
-- 
2.43.0


From df9dec1a618fe85880f509fdc31ed9a9826cc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 20/33] fix: flip a known proposition passed by reference to
 the state

---
 src/state.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state.cc b/src/state.cc
index 8330f34..d45e415 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -92,8 +92,9 @@ bool PartialState::does_not_contain(const PropositionBase& prop) const {
 }
 
 int PartialState::insert(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(neg_.erase(prop));
+  // Insert before erasing, since prop may be an element of neg_.
   const int was_added = static_cast<int>(pos_.insert(prop));
+  const int was_negated = static_cast<int>(neg_.erase(prop));
   return was_negated + was_added;
 }
 
@@ -104,8 +105,9 @@ int PartialState::insert(Proposition&& prop) {
 }
 
 int PartialState::erase(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(pos_.erase(prop));
+  // Insert before erasing, since prop may be an element of pos_.
   const int was_erased = static_cast<int>(neg_.insert(prop));
+  const int was_negated = static_cast<int>(pos_.erase(prop));
   return was_negated + was_erased;
 }
 
-- 
2.43.0


From 50d5784272f840be3078732d4b3d7cdc963e177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 21/33] fix: recognise the predicates of types without objects

---
 src/formula.cc                   |  4 +---
 src/pddl.cc                      | 12 +++++++++---
 src/utils/parameter_generator.cc |  5 +++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 2740af9..59abe12 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -90,9 +90,7 @@ NamedFormulaFunction<T> CreateProposition(
     return {std::move(F), StringifyProposition(name_predicate, prop_params)};
   }
   if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
-    // Predicate is a type. If it isn't in the object map, then no objects of
-    // that type exist, and the proposition will be treated as a normal one
-    // (and will always be false since the state will never contain it).
+    // Predicate is a type.
     FormulaFunction<T> F = [name_predicate, Apply = std::move(Apply)](
                                // NOLINTNEXTLINE(misc-unused-parameters)
                                const T& state,
diff --git a/src/pddl.cc b/src/pddl.cc
index a300ea7..a3cefa6 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -145,8 +145,14 @@ std::vector<Object> GetObjects(const VAL::domain& domain,
 }
 
 std::unordered_map<std::string, std::vector<Object>> CreateObjectTypeMap(
-    const std::vector<Object>& objects) {
+    const VAL::domain& domain, const std::vector<Object>& objects) {
   std::unordered_map<std::string, std::vector<Object>> object_map;
+  if (domain.types != nullptr) {
+    // Types without objects have empty lists.
+    for (const VAL::pddl_type* type : *domain.types) {
+      for (; type != nullptr; type = type->type) object_map[type->getName()];
+    }
+  }
   for (const Object& object : objects) {
     std::vector<std::string> types = object.type().ListTypes();
     for (const std::string& type : types) {
@@ -257,7 +263,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       apply_axioms_(apply_axioms),
       constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain, analysis_->the_problem)),
-      object_map_(CreateObjectTypeMap(objects_)),
+      object_map_(CreateObjectTypeMap(*analysis_->the_domain, objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
       predicates_(GetPredicates(*this, *analysis_->the_domain)),
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
@@ -297,7 +303,7 @@ void Pddl::UpdateObjects() {
   const VAL::problem& problem = *analysis_->the_problem;
 
   objects_ = GetObjects(domain, &problem);
-  object_map_ = CreateObjectTypeMap(objects_);
+  object_map_ = CreateObjectTypeMap(domain, objects_);
 
   // Everything below enumerates the objects, so it needs to be recreated.
   axiom_map_.clear();
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index c6df7a0..b67d63d 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -29,6 +29,11 @@ std::vector<std::vector<Object>> ParamTypes(
   for (const Object& param : params) {
     try {
       types.push_back(object_map.at(param.type().name()));
+      if (types.back().empty()) {
+        // No objects of this type exist.
+        types.clear();
+        break;
+      }
     } catch (...) {
       // std::cerr << "ParameterGenerator(): parameter type '"
       //           << param.type().name() << " not found in object map."
-- 
2.43.0


From d3ad7f2175a50edac9ab1fe5e2241c8ffab442ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 22/33] fix: do not dereference an empty formula when printing
 axioms

---
 src/axiom.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index a91a157..f6227d7 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -53,15 +53,17 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
-- 
2.43.0


From efe91d4c981618e076b7b746ffa08213fc580b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 23/33] fix: list untyped objects after typed ones in
 problem.py

---
 symbolic/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index e6df3e9..e9f9148 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -134,7 +134,9 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # A type applies to all the names before it, so list untyped objects last.
+        objects = sorted(self._objects, key=lambda obj: not obj.type)
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From ad9b9c44ab807b2897fb3785071042cae1ef31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 24/33] fix: construct unpickled Pddl objects in place

Pddl's members refer to the Pddl they were created with, so moving a Pddl
into the Python object left its actions, predicates and generators with
pointers to the temporary.
---
 src/python/symbolic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..e816299 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -15,6 +15,7 @@
 #include <pybind11/stl.h>
 
 #include <exception>  // std::out_of_range
+#include <memory>     // std::make_unique
 #include <sstream>    // std::stringstream
 
 #include "symbolic/normal_form.h"
@@ -328,7 +329,8 @@ PYBIND11_MODULE(pysymbolic, m) {
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+            // Do not return by value: members refer to the Pddl's address.
+            return std::make_unique<Pddl>(domain, problem);
           }));
 
   // Object::Type
-- 
2.43.0


From a0b7f8bcdbb87f025a01dfb7fe683b36576e1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 25/33] fix: print derived predicates from Python

The function bound to DerivedPredicate.__repr__ took an Axiom, so calling
it raised a TypeError.
---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index e816299..266bb3e 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -461,9 +461,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From dd17bb18a2554df99f66ae768b9518137be43ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 26/33] fix: hold axioms by shared_ptr in Python

Pddl.axioms returns shared pointers, which cannot be converted to instances
of a class that pybind11 holds by unique_ptr.
---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 266bb3e..c1145c5 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -15,7 +15,7 @@
 #include <pybind11/stl.h>
 
 #include <exception>  // std::out_of_range
-#include <memory>     // std::make_unique
+#include <memory>     // std::make_unique, std::shared_ptr
 #include <sstream>    // std::stringstream
 
 #include "symbolic/normal_form.h"
@@ -407,7 +407,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            static_cast<bool (Axiom::*)(const State&) const>(
                &Axiom::IsConsistent),
-- 
2.43.0


From d903e855c8e05e007e9ebf301ba2324dc6cea61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 27/33] fix: copy the elements of Python iterators

The iterators of parameter generators and planner nodes return references to
storage that they overwrite with every step. With pybind11's default policy,
the Python objects refer to this storage, so all elements of list(node) or
list(generator) became the last one.
---
 src/python/symbolic.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index c1145c5..a890fef 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -480,7 +480,9 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(
           "__iter__",
           [](ParameterGenerator& param_gen) {
-            return py::make_iterator(param_gen.begin(), param_gen.end());
+            // Copy, because the iterator reuses the arguments it refers to.
+            return py::make_iterator<py::return_value_policy::copy>(
+                param_gen.begin(), param_gen.end());
           },
           py::keep_alive<0, 1>())  // Keep vector alive while iterator is used
       .def("index",
@@ -541,7 +543,9 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(
           "__iter__",
           [](const Planner::Node& node) {
-            return py::make_iterator(node.begin(), node.end());
+            // Copy, because the iterator reuses the node it refers to.
+            return py::make_iterator<py::return_value_policy::copy>(node.begin(),
+                                                                    node.end());
           },
           py::keep_alive<0, 1>())
       .def("__repr__", [](const Planner::Node& node) {
-- 
2.43.0


From 50a578909aa5c02c0b646cf3108fc01ec137f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 28/33] fix: keep the problem alive while a planner or search
 uses it

Planners refer to their Pddl and searches to their root node, which Python
destroyed when nothing else referred to them, as in
BreadthFirstSearch(Planner(pddl).root, 5).
---
 src/python/symbolic.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index a890fef..a02c2b2 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -556,7 +556,7 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // Planner
   py::class_<Planner>(m, "Planner")
-      .def(py::init<const Pddl&>(), "pddl"_a, R"pbdoc(
+      .def(py::init<const Pddl&>(), "pddl"_a, py::keep_alive<1, 2>(), R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the initial state.
 
         Args:
@@ -567,7 +567,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(py::init([](const Pddl& pddl, const StringSet& state) {
              return Planner(pddl, ParseState(pddl, state));
            }),
-           "pddl"_a, "state"_a, R"pbdoc(
+           "pddl"_a, "state"_a, py::keep_alive<1, 2>(), R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the given state.
 
         Args:
@@ -596,8 +596,10 @@ PYBIND11_MODULE(pysymbolic, m) {
   //     py::keep_alive<0, 1>());
   py::class_<::BreadthFirstSearch>(m, "BreadthFirstSearch")
       .def(py::init<const Planner::Node&, size_t, bool, double>(), "root"_a,
-           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0)
-      .def("__iter__", [](::BreadthFirstSearch& it) { return it; })
+           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0,
+           py::keep_alive<1, 2>())
+      .def("__iter__", [](::BreadthFirstSearch& it) { return it; },
+           py::keep_alive<0, 1>())
       .def("__next__", [](::BreadthFirstSearch& it) {
         if (!it.initialized) {
           it.it = it.bfs.begin();
-- 
2.43.0


From 8c5cbb52347fdddb3025358c61e70655f3cb4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 29/33] fix: do not limit the passes that complete a partial
 state

---
 src/pddl.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index a3cefa6..36f6735 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -400,10 +400,9 @@ State Pddl::ConsistentState(const State& state) const {
 }
 
 PartialState Pddl::ConsistentState(const PartialState& state) const {
-  constexpr int kMaxIterations = 50;
   PartialState next_state = state;
 
-  size_t i = 0;
+  // Every iteration but the last makes more propositions known.
   bool is_changed = true;
   while (is_changed) {
     is_changed = false;
@@ -420,11 +419,6 @@ PartialState Pddl::ConsistentState(const PartialState& state) const {
         throw std::runtime_error(ss.str());
       }
     }
-
-    if (i++ > kMaxIterations) {
-      throw std::runtime_error(
-          "Pddl::ConsistentState(): Exceeded max num iterations.");
-    }
   }
   return next_state;
 }
-- 
2.43.0


From b9e9e543a6ece2f7ac2b6415b500423c0164c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 30/33] fix: pickle whether axioms apply to the initial state

---
 include/symbolic/pddl.h | 5 +++++
 src/python/symbolic.cc  | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 51197f0..4a2904d 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -219,6 +219,11 @@ class Pddl {
    */
   const std::string& problem_pddl() const { return problem_pddl_; }
 
+  /**
+   * Whether axioms were requested to be applied to the initial state.
+   */
+  bool apply_axioms() const { return apply_axioms_; }
+
   /**
    * Initial state for planning.
    */
diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index a02c2b2..1b384c0 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -324,13 +324,18 @@ PYBIND11_MODULE(pysymbolic, m) {
            })
       .def(py::pickle(
           [](const Pddl& pddl) {
-            return py::make_tuple(pddl.domain_pddl(), pddl.problem_pddl());
+            return py::make_tuple(pddl.domain_pddl(), pddl.problem_pddl(),
+                                  pddl.apply_axioms());
           },
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
+            // Pickles of earlier versions don't contain this.
+            const bool apply_axioms = domain_problem.size() > 2
+                                          ? domain_problem[2].cast<bool>()
+                                          : true;
             // Do not return by value: members refer to the Pddl's address.
-            return std::make_unique<Pddl>(domain, problem);
+            return std::make_unique<Pddl>(domain, problem, apply_axioms);
           }));
 
   // Object::Type
-- 
2.43.0


From 9c28f7acfaddfb870148db11fd0ba9062b2843b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 31/33] fix: print specifications without types

---
 src/pddl.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 36f6735..c32473e 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -719,13 +719,17 @@ void PrintEffects(std::ostream& os, const VAL::effect_lists* effects,
   }
 }
 
+std::string TypeName(const VAL::pddl_type* type) {
+  return type == nullptr ? "object" : type->getName();
+}
+
 template <typename T>
 void PrintArgs(std::ostream& os, const VAL::typed_symbol_list<T>& args) {
   std::string separator;
   os << "(";
   for (const VAL::parameter_symbol* param : args) {
     os << separator << param->getName() << " [" << param
-       << "]: " << param->type->getName();
+       << "]: " << TypeName(param->type);
     if (separator.empty()) separator = ", ";
   }
   os << ")";
@@ -745,7 +749,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   os << "Types: " << std::endl;
   if (domain.types != nullptr) {
     for (const pddl_type* type : *domain.types) {
-      os << "\t" << type->getName() << ": " << type->type->getName() << " ["
+      os << "\t" << type->getName() << ": " << TypeName(type->type) << " ["
          << type << "]" << std::endl;
     }
   }
@@ -754,7 +758,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   if (domain.constants != nullptr) {
     for (const const_symbol* c : *domain.constants) {
       os << "\t" << c->getName() << " [" << c << "]"
-         << ": " << c->type->getName() << std::endl;
+         << ": " << TypeName(c->type) << std::endl;
     }
   }
 
@@ -792,9 +796,11 @@ std::ostream& operator<<(std::ostream& os, const problem& problem) {
   os << "Requirements: " << pddl_req_flags_string(problem.req) << std::endl;
 
   os << "Objects:" << std::endl;
-  for (const const_symbol* object : *problem.objects) {
-    os << "\t" << object->getName() << " [" << object << "]"
-       << ": " << object->type->getName() << std::endl;
+  if (problem.objects != nullptr) {
+    for (const const_symbol* object : *problem.objects) {
+      os << "\t" << object->getName() << " [" << object << "]"
+         << ": " << TypeName(object->type) << std::endl;
+    }
   }
 
   os << "Initial State:" << std::endl;
-- 
2.43.0


From cc294c92b76cdbbea60c30ebe55c5c96fdb85b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 32/33] fix: print the problem of a specification

---
 src/pddl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index c32473e..dc4379b 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -616,7 +616,9 @@ std::vector<std::string> Stringify(const std::vector<Object>& objects) {
 
 std::ostream& operator<<(std::ostream& os, const Pddl& pddl) {
   os << *pddl.symbol()->the_domain << std::endl;
-  os << *pddl.symbol()->the_domain << std::endl;
+  if (pddl.symbol()->the_problem != nullptr) {
+    os << *pddl.symbol()->the_problem << std::endl;
+  }
   return os;
 }
 
-- 
2.43.0


From 45238596e0091e618f5f4896c5e912f1bd70e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:37 +0000
Subject: [PATCH 33/33] fix: read problem texts that end in a comment

---
 src/pddl.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index dc4379b..83ab3fa 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -14,6 +14,7 @@
 #include <VAL/typecheck.h>
 
 #include <algorithm>  // std::all_of, std::find
+#include <cctype>   // std::isspace
 #include <fstream>  // std::ifstream
 #include <sstream>  // std::stringstream
 #include <string>   // std::string
@@ -53,6 +54,24 @@ extern const char* current_filename;  // Expected in parse_error.h
 
 namespace {
 
+/**
+ * Whether the problem is a pddl string, and not a filename.
+ */
+bool IsPddlString(const std::string& problem) {
+  // Ignore white space and comments around the definition
+  char first = '\0';
+  char last = '\0';
+  bool is_comment = false;
+  for (const char c : problem) {
+    if (c == ';') is_comment = true;
+    if (c == '\n') is_comment = false;
+    if (is_comment || std::isspace(static_cast<unsigned char>(c))) continue;
+    if (first == '\0') first = c;
+    last = c;
+  }
+  return first == '(' && last == ')';
+}
+
 std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
                                          const std::string& problem) {
   std::unique_ptr<VAL::analysis> analysis = std::make_unique<VAL::analysis>();
@@ -77,9 +96,8 @@ std::unique_ptr<VAL::analysis> ParsePddl(const std::string& filename_domain,
   if (problem.empty()) return analysis;
 
   // Check if problem is a PDDL string.
-  const size_t idx_last_char = problem.find_last_not_of(" \t\n\r");
   std::shared_ptr<std::istream> input_problem;
-  if (idx_last_char != std::string::npos && problem[idx_last_char] == ')') {
+  if (IsPddlString(problem)) {
     // Pddl string.
     input_problem = std::make_shared<std::stringstream>(problem);
     current_filename = "<pddl string>";
-- 
2.43.0

