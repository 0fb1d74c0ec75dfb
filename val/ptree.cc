// Recursive-descent PDDL parser building the stand-in VAL parse tree.
#include "VAL/ptree.h"

#include <cctype>
#include <iterator>
#include <set>
#include <sstream>
#include <stdexcept>

#include "VAL/FlexLexer.h"
#include "VAL/typecheck.h"

namespace VAL {
extern parse_category* top_thing;
extern analysis* current_analysis;
extern yyFlexLexer* yfl;
extern bool Verbose;
extern std::ostream* report;
}  // namespace VAL

int line_no = 1;
int yydebug = 0;
const char* current_filename = nullptr;

namespace VAL {

void parse_error_list::report() {
  for (const string& e : errors) std::cerr << e << std::endl;
}

string pddl_req_flags_string(pddl_req_flag) { return ""; }

namespace {

struct sexpr {
  string atom;  // empty for lists
  std::vector<sexpr> items;
  bool is_list() const { return atom.empty(); }
};

[[noreturn]] void fail(const string& msg) { throw std::runtime_error(msg); }

struct reader {
  const string& s;
  size_t i = 0;
  void skip() {
    while (i < s.size()) {
      if (s[i] == ';') {
        while (i < s.size() && s[i] != '\n') i++;
      } else if (std::isspace(static_cast<unsigned char>(s[i]))) {
        if (s[i] == '\n') line_no++;
        i++;
      } else {
        return;
      }
    }
  }
  sexpr read() {
    skip();
    if (i >= s.size()) fail("unexpected end of input");
    if (s[i] == ')') fail("unexpected )");
    sexpr e;
    if (s[i] == '(') {
      i++;
      for (;;) {
        skip();
        if (i >= s.size()) fail("unbalanced (");
        if (s[i] == ')') {
          i++;
          return e;
        }
        e.items.push_back(read());
      }
    }
    while (i < s.size() && s[i] != '(' && s[i] != ')' && s[i] != ';' &&
           !std::isspace(static_cast<unsigned char>(s[i]))) {
      e.atom += s[i++];
    }
    return e;
  }
};

struct parser {
  analysis& a;
  std::vector<std::map<string, var_symbol*>> scopes;

  template <typename T, typename... A>
  T* mk(A&&... args) {
    T* t = new T(std::forward<A>(args)...);
    a.arena.emplace_back(static_cast<node*>(t));
    return t;
  }

  const string& atom(const sexpr& e) {
    if (e.is_list()) fail("name expected");
    return e.atom;
  }
  bool is_kw(const sexpr& e, const char* kw) {
    return !e.items.empty() && !e.items[0].is_list() && e.items[0].atom == kw;
  }

  pddl_type* type_ref(const string& n) {
    auto it = a.type_tab.find(n);
    if (it != a.type_tab.end()) return it->second;
    pddl_type* t = mk<pddl_type>(n);
    a.type_tab[n] = t;
    return t;
  }
  pred_symbol* pred_ref(const string& n) {
    auto it = a.pred_tab.find(n);
    if (it != a.pred_tab.end()) return it->second;
    pred_symbol* p = mk<pred_symbol>(n);
    a.pred_tab[n] = p;
    return p;
  }

  // Parses "a b - t c - u d"; make(name) builds the symbol.
  template <typename T, typename Make>
  void typed_list(const std::vector<sexpr>& v, size_t from,
                  typed_symbol_list<T>* out, Make make) {
    std::vector<T*> pending;
    for (size_t i = from; i < v.size(); i++) {
      if (atom(v[i]) == "-") {
        if (i + 1 >= v.size() || pending.empty()) fail("type expected");
        const string& tn = atom(v[++i]);
        for (T* t : pending) t->type = type_ref(tn);
        pending.clear();
        continue;
      }
      T* t = make(v[i].atom);
      out->push_back(t);
      pending.push_back(t);
    }
  }
  var_symbol_list* var_list(const std::vector<sexpr>& v, size_t from = 0) {
    var_symbol_list* l = mk<var_symbol_list>();
    typed_list<var_symbol>(v, from, l, [this](const string& n) {
      if (n.empty() || n[0] != '?') fail("variable expected: " + n);
      return mk<var_symbol>(n.substr(1));
    });
    return l;
  }
  void push_scope(const var_symbol_list* l) {
    std::map<string, var_symbol*> m;
    for (var_symbol* v : *l) m[v->getName()] = v;
    scopes.push_back(m);
  }
  parameter_symbol* term(const string& n) {
    if (!n.empty() && n[0] == '?') {
      const string v = n.substr(1);
      for (auto it = scopes.rbegin(); it != scopes.rend(); ++it) {
        auto f = it->find(v);
        if (f != it->end()) return f->second;
      }
      fail("undeclared variable ?" + v);
    }
    auto it = a.const_tab.find(n);
    if (it == a.const_tab.end()) fail("undeclared constant " + n);
    return it->second;
  }
  proposition* prop(const sexpr& e) {
    if (!e.is_list() || e.items.empty()) fail("atom expected");
    proposition* p = mk<proposition>();
    p->head = pred_ref(atom(e.items[0]));
    p->args = mk<parameter_symbol_list>();
    for (size_t i = 1; i < e.items.size(); i++) {
      p->args->push_back(term(atom(e.items[i])));
    }
    return p;
  }

  goal* parse_goal(const sexpr& e) {
    if (!e.is_list()) fail("goal expected");
    if (e.items.empty()) {
      conj_goal* c = mk<conj_goal>();
      c->goals = mk<goal_list>();
      return c;
    }
    const string& h = atom(e.items[0]);
    if (h == "and" || h == "or") {
      goal_list* l = mk<goal_list>();
      for (size_t i = 1; i < e.items.size(); i++) {
        l->push_back(parse_goal(e.items[i]));
      }
      if (h == "and") {
        conj_goal* c = mk<conj_goal>();
        c->goals = l;
        return c;
      }
      disj_goal* d = mk<disj_goal>();
      d->goals = l;
      return d;
    }
    if (h == "not") {
      if (e.items.size() != 2) fail("not takes one goal");
      neg_goal* n = mk<neg_goal>();
      n->gl = parse_goal(e.items[1]);
      return n;
    }
    if (h == "imply") {
      if (e.items.size() != 3) fail("imply takes two goals");
      imply_goal* n = mk<imply_goal>();
      n->lhs = parse_goal(e.items[1]);
      n->rhs = parse_goal(e.items[2]);
      return n;
    }
    if (h == "forall" || h == "exists") {
      if (e.items.size() != 3 || !e.items[1].is_list()) fail("bad quantifier");
      qfied_goal* q = mk<qfied_goal>();
      q->qfier = h == "forall" ? E_FORALL : E_EXISTS;
      var_symbol_list* l = var_list(e.items[1].items);
      q->vars = l;
      push_scope(l);
      q->gl = parse_goal(e.items[2]);
      scopes.pop_back();
      return q;
    }
    simple_goal* s = mk<simple_goal>();
    s->prop = prop(e);
    return s;
  }

  void parse_effect(const sexpr& e, effect_lists* out) {
    if (!e.is_list()) fail("effect expected");
    if (e.items.empty()) return;
    const string& h = atom(e.items[0]);
    if (h == "and") {
      for (size_t i = 1; i < e.items.size(); i++) parse_effect(e.items[i], out);
    } else if (h == "forall") {
      if (e.items.size() != 3 || !e.items[1].is_list()) fail("bad forall");
      forall_effect* f = mk<forall_effect>();
      var_symbol_list* l = var_list(e.items[1].items);
      f->vars = l;
      f->operand = mk<effect_lists>();
      push_scope(l);
      parse_effect(e.items[2], f->operand);
      scopes.pop_back();
      out->forall_effects.push_back(f);
    } else if (h == "when") {
      if (e.items.size() != 3) fail("bad when");
      cond_effect* c = mk<cond_effect>();
      c->cond = parse_goal(e.items[1]);
      c->effects = mk<effect_lists>();
      parse_effect(e.items[2], c->effects);
      out->cond_effects.push_back(c);
    } else if (h == "not") {
      if (e.items.size() != 2) fail("bad not");
      simple_effect* s = mk<simple_effect>();
      s->prop = prop(e.items[1]);
      out->del_effects.push_back(s);
    } else {
      simple_effect* s = mk<simple_effect>();
      s->prop = prop(e);
      out->add_effects.push_back(s);
    }
  }

  const_symbol* declare_const(const string& n) {
    auto it = a.const_tab.find(n);
    if (it != a.const_tab.end()) return it->second;
    const_symbol* c = new const_symbol(n);  // never freed here
    a.const_tab[n] = c;
    return c;
  }

  void parse_operator(const sexpr& e, bool is_axiom, domain* d) {
    operator_* op = nullptr;
    size_t i = 1;
    string name;
    if (is_axiom) {
      op = mk<axiom>();
      name = "axiom";
    } else {
      op = mk<action>();
      if (e.items.size() < 2) fail("action name expected");
      name = atom(e.items[i++]);
    }
    op->name = mk<operator_symbol>(name);
    op->parameters = mk<var_symbol_list>();
    const sexpr* pre = nullptr;
    const sexpr* eff = nullptr;
    const string kp = is_axiom ? ":vars" : ":parameters";
    const string kc = is_axiom ? ":context" : ":precondition";
    const string ke = is_axiom ? ":implies" : ":effect";
    while (i < e.items.size()) {
      const string& k = atom(e.items[i]);
      if (i + 1 >= e.items.size()) fail("value expected after " + k);
      const sexpr& v = e.items[i + 1];
      if (k == kp) {
        if (!v.is_list()) fail("parameter list expected");
        op->parameters = var_list(v.items);
      } else if (k == kc) {
        pre = &v;
      } else if (k == ke) {
        eff = &v;
      } else {
        fail("unknown keyword " + k);
      }
      i += 2;
    }
    push_scope(op->parameters);
    static const sexpr nothing;
    op->precondition = parse_goal(pre ? *pre : nothing);
    op->effects = mk<effect_lists>();
    parse_effect(eff ? *eff : nothing, op->effects);
    scopes.pop_back();
    d->ops->push_back(op);
  }

  void parse_derived(const sexpr& e, domain* d) {
    if (e.items.size() != 3 || !e.items[1].is_list() ||
        e.items[1].items.empty()) {
      fail("bad derived predicate");
    }
    derivation_rule* r = mk<derivation_rule>();
    const sexpr& h = e.items[1];
    var_symbol_list* vars = var_list(h.items, 1);
    push_scope(vars);
    r->head = mk<proposition>();
    r->head->head = pred_ref(atom(h.items[0]));
    r->head->args = mk<parameter_symbol_list>();
    for (var_symbol* v : *vars) r->head->args->push_back(v);
    r->body = parse_goal(e.items[2]);
    scopes.pop_back();
    d->drvs->push_back(r);
  }

  void parse_domain(const sexpr& e) {
    domain* d = mk<domain>();
    d->name = atom(e.items[1].items.at(1));
    d->predicates = mk<pred_decl_list>();
    d->ops = mk<operator_list>();
    d->drvs = mk<derivations_list>();
    for (size_t i = 2; i < e.items.size(); i++) {
      const sexpr& s = e.items[i];
      if (!s.is_list() || s.items.empty()) fail("domain section expected");
      const string& k = atom(s.items[0]);
      if (k == ":requirements") {
        continue;
      } else if (k == ":types") {
        if (d->types == nullptr) d->types = mk<pddl_type_list>();
        typed_list<pddl_type>(s.items, 1, d->types,
                              [this](const string& n) { return type_ref(n); });
      } else if (k == ":constants") {
        if (d->constants == nullptr) d->constants = mk<const_symbol_list>();
        typed_list<const_symbol>(
            s.items, 1, d->constants,
            [this](const string& n) { return declare_const(n); });
      } else if (k == ":predicates") {
        for (size_t j = 1; j < s.items.size(); j++) {
          const sexpr& p = s.items[j];
          if (!p.is_list() || p.items.empty()) fail("predicate expected");
          pred_decl* pd = mk<pred_decl>();
          pd->head = pred_ref(atom(p.items[0]));
          pd->args = var_list(p.items, 1);
          d->predicates->push_back(pd);
        }
      } else if (k == ":action") {
        parse_operator(s, false, d);
      } else if (k == ":axiom") {
        parse_operator(s, true, d);
      } else if (k == ":derived") {
        parse_derived(s, d);
      } else {
        fail("unknown domain section " + k);
      }
    }
    a.the_domain = d;
    top_thing = d;
  }

  void parse_problem(const sexpr& e) {
    problem* p = mk<problem>();
    p->name = atom(e.items[1].items.at(1));
    p->objects = mk<const_symbol_list>();
    p->initial_state = mk<effect_lists>();
    for (size_t i = 2; i < e.items.size(); i++) {
      const sexpr& s = e.items[i];
      if (!s.is_list() || s.items.empty()) fail("problem section expected");
      const string& k = atom(s.items[0]);
      if (k == ":domain") {
        p->domain_name = s.items.size() > 1 ? atom(s.items[1]) : "";
      } else if (k == ":requirements") {
        continue;
      } else if (k == ":objects") {
        typed_list<const_symbol>(
            s.items, 1, p->objects,
            [this](const string& n) { return declare_const(n); });
      } else if (k == ":init") {
        for (size_t j = 1; j < s.items.size(); j++) {
          simple_effect* f = mk<simple_effect>();
          f->prop = prop(s.items[j]);
          p->initial_state->add_effects.push_back(f);
        }
      } else if (k == ":goal") {
        if (s.items.size() != 2) fail("bad goal");
        p->the_goal = parse_goal(s.items[1]);
      } else {
        fail("unknown problem section " + k);
      }
    }
    if (p->the_goal == nullptr) p->the_goal = parse_goal(sexpr());
    a.the_problem = p;
    top_thing = p;
  }
};

bool subtype(const pddl_type* t, const string& super) {
  if (super == "object") return true;
  for (; t != nullptr; t = t->type) {
    if (t->getName() == super) return true;
  }
  return false;
}

struct checker {
  analysis& a;
  std::set<string> types{"object"};
  std::map<string, const var_symbol_list*> preds;

  explicit checker(analysis& an) : a(an) {
    const domain& d = *a.the_domain;
    if (d.types != nullptr) {
      for (const pddl_type* t : *d.types) types.insert(t->getName());
    }
    if (d.predicates != nullptr) {
      for (const pred_decl* p : *d.predicates) {
        preds[p->getPred()->getName()] = p->getArgs();
      }
    }
  }
  bool type_ok(const pddl_typed_symbol* s) {
    return s->type == nullptr || types.count(s->type->getName()) > 0;
  }
  template <typename L>
  bool list_ok(const L* l) {
    if (l == nullptr) return true;
    for (const auto* s : *l) {
      if (!type_ok(s)) return false;
    }
    return true;
  }
  bool prop_ok(const proposition* p) {
    const string n = p->head->getName();
    if (n == "=") return p->args->size() == 2;
    auto it = preds.find(n);
    if (it == preds.end()) return types.count(n) > 0 && p->args->size() == 1;
    if (it->second->size() != p->args->size()) return false;
    auto arg = p->args->begin();
    for (const var_symbol* v : *it->second) {
      const pddl_typed_symbol* s = *arg++;
      if (!subtype(s->type, v->type ? v->type->getName() : "object")) {
        return false;
      }
    }
    return true;
  }
  bool goal_ok(const goal* g) {
    if (auto* s = dynamic_cast<const simple_goal*>(g)) return prop_ok(s->prop);
    if (auto* c = dynamic_cast<const conj_goal*>(g)) {
      for (const goal* x : *c->goals) {
        if (!goal_ok(x)) return false;
      }
      return true;
    }
    if (auto* c = dynamic_cast<const disj_goal*>(g)) {
      for (const goal* x : *c->goals) {
        if (!goal_ok(x)) return false;
      }
      return true;
    }
    if (auto* n = dynamic_cast<const neg_goal*>(g)) return goal_ok(n->gl);
    if (auto* q = dynamic_cast<const qfied_goal*>(g)) {
      return list_ok(q->vars) && goal_ok(q->gl);
    }
    return true;
  }
  bool effects_ok(const effect_lists* e) {
    for (const simple_effect* s : e->add_effects) {
      if (!prop_ok(s->prop)) return false;
    }
    for (const simple_effect* s : e->del_effects) {
      if (!prop_ok(s->prop)) return false;
    }
    for (const forall_effect* f : e->forall_effects) {
      if (!list_ok(f->vars) || !effects_ok(f->operand)) return false;
    }
    for (const cond_effect* c : e->cond_effects) {
      if (!goal_ok(c->cond) || !effects_ok(c->effects)) return false;
    }
    return true;
  }
  bool domain_ok() {
    const domain& d = *a.the_domain;
    if (!list_ok(d.types) || !list_ok(d.constants)) return false;
    for (const pred_decl* p : *d.predicates) {
      if (!list_ok(p->args)) return false;
    }
    for (const operator_* o : *d.ops) {
      if (!list_ok(o->parameters) || !goal_ok(o->precondition) ||
          !effects_ok(o->effects)) {
        return false;
      }
    }
    for (const derivation_rule* r : *d.drvs) {
      if (!prop_ok(r->head) || !goal_ok(r->body)) return false;
    }
    return true;
  }
  bool problem_ok() {
    if (a.the_problem == nullptr) return true;
    const problem& p = *a.the_problem;
    return list_ok(p.objects) && effects_ok(p.initial_state) &&
           goal_ok(p.the_goal);
  }
};

}  // namespace

bool TypeChecker::typecheckDomain() {
  const bool ok = checker(*a_).domain_ok();
  if (Verbose && report != nullptr) {
    *report << "domain " << (ok ? "ok" : "bad") << std::endl;
  }
  return ok;
}

bool TypeChecker::typecheckProblem() {
  const bool ok = checker(*a_).problem_ok();
  if (Verbose && report != nullptr) {
    *report << "problem " << (ok ? "ok" : "bad") << std::endl;
  }
  return ok;
}

}  // namespace VAL

int yyparse() {
  VAL::analysis& a = *VAL::current_analysis;
  try {
    std::istream* in = VAL::yfl->in;
    if (in == nullptr || !*in) VAL::fail("cannot read input");
    const string text((std::istreambuf_iterator<char>(*in)),
                      std::istreambuf_iterator<char>());
    VAL::reader r{text};
    const VAL::sexpr e = r.read();
    r.skip();
    if (r.i != text.size()) VAL::fail("text after the end of the definition");
    VAL::parser p{a, {}};
    if (!p.is_kw(e, "define") || e.items.size() < 2 ||
        e.items[1].items.size() < 2) {
      VAL::fail("(define (domain|problem name) ...) expected");
    }
    if (p.is_kw(e.items[1], "domain")) {
      p.parse_domain(e);
    } else if (p.is_kw(e.items[1], "problem")) {
      if (a.the_domain == nullptr) VAL::fail("problem without a domain");
      p.parse_problem(e);
    } else {
      VAL::fail("domain or problem expected");
    }
    return 0;
  } catch (const std::exception& ex) {
    a.error_list.errors.push_back(string(current_filename ? current_filename : "?") +
                                  ": " + ex.what());
    return 1;
  }
}
