// Stand-in for the parse-tree interface of the VAL library (which is not
// available offline).  Only what /repo's sources use; see ../README.md.
#ifndef VERIF_VAL_PTREE_H_
#define VERIF_VAL_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

// VAL's own headers inject these names into the global namespace, and
// formula.cc relies on the first one.
using std::istream;
using std::list;
using std::ostream;
using std::string;

namespace VAL {

class analysis;

// Everything but object constants is owned by the analysis that is being
// parsed (object constants may be deleted by the library itself).
struct node {
  virtual ~node() = default;
};

class symbol {
 public:
  symbol() = default;
  explicit symbol(const string& n) : name(n) {}
  virtual ~symbol() = default;
  string getName() const { return name; }
  const string& getNameRef() const { return name; }

 protected:
  string name;
};

class pred_symbol : public symbol, public node {
 public:
  using symbol::symbol;
};
class operator_symbol : public symbol, public node {
 public:
  using symbol::symbol;
};

class pddl_type;

class pddl_typed_symbol : public symbol {
 public:
  pddl_type* type = nullptr;
  list<pddl_type*>* either_types = nullptr;
  using symbol::symbol;
  ~pddl_typed_symbol() override = default;
};

class parameter_symbol : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class var_symbol : public parameter_symbol, public node {
 public:
  using parameter_symbol::parameter_symbol;
};
class const_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class pddl_type : public pddl_typed_symbol, public node {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};

template <typename T>
class typed_symbol_list : public list<T*>, public node {};

using pddl_type_list = class typed_symbol_list<pddl_type>;
using parameter_symbol_list = typed_symbol_list<parameter_symbol>;
using var_symbol_list = typed_symbol_list<var_symbol>;
using const_symbol_list = typed_symbol_list<const_symbol>;

class proposition : public node {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class pred_decl : public node {
 public:
  pred_symbol* head = nullptr;
  var_symbol_list* args = nullptr;
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }
};
class pred_decl_list : public list<pred_decl*>, public node {};

// Goals.
class goal : public node {};
class goal_list : public list<goal*>, public node {};

class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class timed_goal : public goal {};
class comparison : public goal {};

class simple_goal : public goal {
 public:
  proposition* prop = nullptr;
  const proposition* getProp() const { return prop; }
};
enum quantifier { E_FORALL, E_EXISTS };
class qfied_goal : public goal {
 public:
  quantifier qfier = E_FORALL;
  var_symbol_list* vars = nullptr;
  goal* gl = nullptr;
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }
};
class conj_goal : public goal {
 public:
  goal_list* goals = nullptr;
  const goal_list* getGoals() const { return goals; }
};
class disj_goal : public goal {
 public:
  goal_list* goals = nullptr;
  const goal_list* getGoals() const { return goals; }
};
class imply_goal : public goal {
 public:
  goal* lhs = nullptr;
  goal* rhs = nullptr;
};
class neg_goal : public goal {
 public:
  goal* gl = nullptr;
  const goal* getGoal() const { return gl; }
};

// Effects.
class effect_lists;
class effect : public node {};
class simple_effect : public effect {
 public:
  proposition* prop = nullptr;
};
class forall_effect : public effect {
 public:
  var_symbol_list* vars = nullptr;
  effect_lists* operand = nullptr;
  const var_symbol_list* getVarsList() const { return vars; }
  const effect_lists* getEffects() const { return operand; }
};
class cond_effect : public effect {
 public:
  goal* cond = nullptr;
  effect_lists* effects = nullptr;
  const goal* getCondition() const { return cond; }
  const effect_lists* getEffects() const { return effects; }
};
template <typename T>
class pc_list : public list<T>, public node {};
class effect_lists : public node {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

class operator_ : public node {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class axiom : public operator_ {};
class operator_list : public list<operator_*>, public node {};

class derivation_rule : public node {
 public:
  proposition* head = nullptr;
  goal* body = nullptr;
  const proposition* get_head() const { return head; }
  const goal* get_body() const { return body; }
};
class derivations_list : public list<derivation_rule*>, public node {};

typedef unsigned long pddl_req_flag;
string pddl_req_flags_string(pddl_req_flag flags);

class parse_category : public node {};

class domain : public parse_category {
 public:
  string name;
  pddl_req_flag req = 0;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
};

class problem : public parse_category {
 public:
  string name;
  string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

class parse_error_list {
 public:
  void report();
  std::vector<string> errors;
};

class analysis {
 public:
  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;

  // Stand-in internals: symbol tables and ownership.
  std::map<string, const_symbol*> const_tab;
  std::map<string, pddl_type*> type_tab;
  std::map<string, pred_symbol*> pred_tab;
  std::vector<std::unique_ptr<node>> arena;
};

}  // namespace VAL

extern int line_no;

#endif  // VERIF_VAL_PTREE_H_
