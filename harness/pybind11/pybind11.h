// A stand-in for pybind11 that lets C++ code call the functions a module
// registers the way Python would: values of the Python types, overloads tried
// in order, TypeError when none matches.
//
// Python values are std::any holding: std::monostate (None), bool, long,
// double, std::string, std::set<std::string>, List, Tuple, Dict, or
// std::shared_ptr<T> for an instance of a registered class T.  A class object
// returned by value or reference is copied or moved into a new instance, except
// by attributes and by iterators with pybind11's default policy, whose instances
// refer to the member itself (and keep its owner alive).
#ifndef VERIF_PYBIND11_H_
#define VERIF_PYBIND11_H_

#include <any>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11 {

using Any = std::any;
using List = std::vector<Any>;
using Dict = std::map<std::string, Any>;

struct stop_iteration : std::runtime_error {
  explicit stop_iteration(const std::string& s = "") : std::runtime_error(s) {}
};
// No overload accepts the arguments (TypeError in Python).
struct type_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct index_error : std::runtime_error {
  explicit index_error(const std::string& s = "") : std::runtime_error(s) {}
};
struct key_error : std::runtime_error {
  explicit key_error(const std::string& s = "") : std::runtime_error(s) {}
};
struct value_error : std::runtime_error {
  explicit value_error(const std::string& s = "") : std::runtime_error(s) {}
};

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

// Thrown while loading arguments: try the next overload.
struct no_match {};

// If refer is set, class objects refer to v itself, and keep owner alive.
template <typename T>
std::any Cast(T&& v, bool refer = false, const std::shared_ptr<void>& owner = {});
template <typename T>
struct Load;

struct Accessor {
  Any v;
  template <typename T>
  T cast() const;
};
class tuple {
 public:
  List items;
  size_t size() const { return items.size(); }
  bool empty() const { return items.empty(); }
  Accessor operator[](size_t i) const { return {items.at(i)}; }
};
using Tuple = tuple;

struct str {};
struct object {};
struct cast_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct error_already_set : std::runtime_error {
  error_already_set() : std::runtime_error("a Python error") {}
};

// Selecting an overload of a (member) function.
struct const_t {};
constexpr const_t const_{};
template <typename... A>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*p)(A...)) const {
    return p;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*p)(A...)) const {
    return p;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*p)(A...) const, const_t) const {
    return p;
  }
};
template <typename... A>
constexpr overload_cast_impl<A...> overload_cast{};

template <typename... Args>
tuple make_tuple(Args&&... args) {
  tuple t;
  (t.items.push_back(Cast(std::forward<Args>(args))), ...);
  return t;
}

struct Iterator {
  std::function<std::optional<Any>()> next;
};
using iterator = Iterator;

template <return_value_policy P = return_value_policy::reference_internal, typename I, typename S, typename... X>
Iterator make_iterator(I first, S last, X&&...) {
  struct State {
    I it;
    S end;
    bool started = false;
  };
  auto s = std::make_shared<State>(State{std::move(first), std::move(last)});
  return {[s]() -> std::optional<Any> {
    if (s->started) {
      ++s->it;
    } else {
      s->started = true;
    }
    if (s->it == s->end) return {};
    constexpr bool kRefer = P == return_value_policy::reference_internal || P == return_value_policy::reference;
    return Cast(*s->it, kRefer, P == return_value_policy::reference_internal ? s : nullptr);
  }};
}

// ------------------------------------------------------------- to Python
template <typename T>
struct IsShared : std::false_type {};
template <typename T>
struct IsShared<std::shared_ptr<T>> : std::true_type {};
template <typename T>
struct IsUnique : std::false_type {};
template <typename T>
struct IsUnique<std::unique_ptr<T>> : std::true_type {};
template <typename T>
struct IsVector : std::false_type {};
template <typename T>
struct IsVector<std::vector<T>> : std::true_type {};
template <typename T>
struct IsPair : std::false_type {};
template <typename A, typename B>
struct IsPair<std::pair<A, B>> : std::true_type {};
template <typename T>
struct IsOptional : std::false_type {};
template <typename T>
struct IsOptional<std::optional<T>> : std::true_type {};
template <typename T>
struct IsMap : std::false_type {};
template <typename B>
struct IsMap<std::map<std::string, B>> : std::true_type {};
template <typename B>
struct IsMap<std::unordered_map<std::string, B>> : std::true_type {};
template <typename T>
struct IsStringSet : std::false_type {};
template <>
struct IsStringSet<std::set<std::string>> : std::true_type {};
template <>
struct IsStringSet<std::unordered_set<std::string>> : std::true_type {};
template <typename T>
struct IsEigen : std::false_type {};  // see eigen.h

// The classes registered with a std::shared_ptr as their holder.
inline std::set<std::type_index>& SharedHolders() {
  static std::set<std::type_index> classes;
  return classes;
}

template <typename T>
std::any Cast(T&& v, bool refer, const std::shared_ptr<void>& owner) {
  using D = std::decay_t<T>;
  if (!std::is_lvalue_reference_v<T>) refer = false;  // parts of a temporary are copied
  if constexpr (std::is_same_v<D, std::any>) {
    return v;
  } else if constexpr (std::is_same_v<D, Accessor>) {
    return v.v;
  } else if constexpr (std::is_same_v<D, bool>) {
    return std::any(static_cast<bool>(v));
  } else if constexpr (std::is_integral_v<D>) {
    return std::any(static_cast<long>(v));
  } else if constexpr (std::is_floating_point_v<D>) {
    return std::any(static_cast<double>(v));
  } else if constexpr (std::is_convertible_v<T, std::string>) {
    return std::any(std::string(v));
  } else if constexpr (IsStringSet<D>::value) {
    return std::any(std::set<std::string>(v.begin(), v.end()));
  } else if constexpr (IsVector<D>::value) {
    List l;
    for (auto&& x : v) l.push_back(Cast(x, refer, owner));
    return std::any(std::move(l));
  } else if constexpr (IsPair<D>::value) {
    Tuple t;
    t.items = {Cast(v.first, refer, owner), Cast(v.second, refer, owner)};
    return std::any(std::move(t));
  } else if constexpr (IsOptional<D>::value) {
    if (!v.has_value()) return std::any(std::monostate());
    return Cast(*v, refer, owner);
  } else if constexpr (IsMap<D>::value) {
    Dict d;
    for (auto&& x : v) d.emplace(x.first, Cast(x.second, refer, owner));
    return std::any(std::move(d));
  } else if constexpr (IsShared<D>::value) {
    using E = std::remove_const_t<typename D::element_type>;
    if (!SharedHolders().count(typeid(E))) throw type_error("Unable to convert std::shared_ptr: the class has another holder");
    return std::any(std::const_pointer_cast<E>(v));
  } else if constexpr (IsUnique<D>::value) {
    return std::any(std::shared_ptr<typename D::element_type>(std::move(v)));
  } else if constexpr (std::is_pointer_v<D>) {
    if (v == nullptr) return std::any(std::monostate());
    return Cast(*v, refer, owner);
  } else if constexpr (IsEigen<D>::value || std::is_same_v<D, tuple> || std::is_same_v<D, Iterator>) {
    return std::any(D(std::forward<T>(v)));
  } else {
    if (refer && std::is_lvalue_reference_v<T>) {
      return std::any(std::shared_ptr<D>(owner, const_cast<D*>(&v)));
    }
    return std::any(std::make_shared<D>(std::forward<T>(v)));
  }
}

// ----------------------------------------------------------- from Python
template <typename T>
struct Load {  // a registered class
  using Type = T&;
  static T& get(const Any& a) {
    if (const auto* p = std::any_cast<std::shared_ptr<T>>(&a)) return **p;
    throw no_match();
  }
};
template <typename T>
struct LoadValue {
  using Type = T;
};
template <>
struct Load<std::string> : LoadValue<std::string> {
  static std::string get(const Any& a) {
    if (const auto* p = std::any_cast<std::string>(&a)) return *p;
    throw no_match();
  }
};
template <>
struct Load<bool> : LoadValue<bool> {
  static bool get(const Any& a) {
    if (const auto* p = std::any_cast<bool>(&a)) return *p;
    throw no_match();
  }
};
template <typename T>
struct LoadInteger : LoadValue<T> {
  static T get(const Any& a) {
    const auto* p = std::any_cast<long>(&a);
    if (p == nullptr || (std::is_unsigned_v<T> && *p < 0)) throw no_match();
    if (static_cast<long>(static_cast<T>(*p)) != *p) throw no_match();
    return static_cast<T>(*p);
  }
};
template <>
struct Load<int> : LoadInteger<int> {};
template <>
struct Load<long> : LoadInteger<long> {};
template <>
struct Load<unsigned> : LoadInteger<unsigned> {};
template <>
struct Load<unsigned long> : LoadInteger<unsigned long> {};
template <typename T>
struct LoadFloat : LoadValue<T> {
  static T get(const Any& a) {
    if (const auto* p = std::any_cast<double>(&a)) return static_cast<T>(*p);
    if (const auto* p = std::any_cast<long>(&a)) return static_cast<T>(*p);
    throw no_match();
  }
};
template <>
struct Load<double> : LoadFloat<double> {};
template <>
struct Load<float> : LoadFloat<float> {};
template <typename T>
struct LoadSet : LoadValue<T> {
  static T get(const Any& a) {
    if (const auto* p = std::any_cast<std::set<std::string>>(&a)) return T(p->begin(), p->end());
    throw no_match();
  }
};
template <>
struct Load<std::set<std::string>> : LoadSet<std::set<std::string>> {};
template <>
struct Load<std::unordered_set<std::string>> : LoadSet<std::unordered_set<std::string>> {};
template <typename T>
struct Load<std::vector<T>> : LoadValue<std::vector<T>> {
  static std::vector<T> get(const Any& a) {
    const List* l = std::any_cast<List>(&a);
    if (const auto* t = std::any_cast<Tuple>(&a)) l = &t->items;
    if (l == nullptr) throw no_match();
    std::vector<T> out;
    for (const Any& x : *l) out.push_back(Load<T>::get(x));
    return out;
  }
};
template <>
struct Load<tuple> : LoadValue<tuple> {
  static tuple get(const Any& a) {
    if (const auto* p = std::any_cast<tuple>(&a)) return *p;
    throw no_match();
  }
};
template <typename T>
T Accessor::cast() const {
  try {
    return Load<std::decay_t<T>>::get(v);
  } catch (const no_match&) {
    throw type_error("Unable to cast");
  }
}

// ------------------------------------------------------------- functions
using Owner = std::shared_ptr<void> (*)(const Any&);  // what to keep alive for a reference into an instance

inline std::map<std::type_index, std::function<Any(const Any&, const Any&)>>& Ties() {
  static std::map<std::type_index, std::function<Any(const Any&, const Any&)>> ties;
  return ties;
}
// x, which also keeps patient alive.
inline Any Tie(const Any& x, const Any& patient) {
  if (const auto* it = std::any_cast<Iterator>(&x)) {
    return Any(Iterator{[next = it->next, patient] { return next(); }});
  }
  const auto tie = Ties().find(x.type());
  return tie == Ties().end() ? x : tie->second(x, patient);
}
struct Function {
  size_t arity = 0;
  std::vector<std::pair<std::string, std::optional<Any>>> args;  // named ones
  bool method = false;  // the first argument is not named
  std::vector<std::pair<size_t, size_t>> keep;  // keep_alive<nurse, patient>
  bool makes_self = false;  // __init__: the result is the first argument
  std::function<Any(const std::vector<Any>&)> call;

  Any operator()(const std::vector<Any>& a) const {
    Any r = call(a);
    for (const auto& [nurse, patient] : keep) {
      if (nurse != (makes_self ? 1 : 0)) continue;
      const size_t i = patient - (makes_self ? 2 : 1);
      if (patient > 0 && i < a.size()) r = Tie(r, a[i]);
    }
    return r;
  }
  Any invoke(std::vector<Any> a) const {
    const size_t skip = method ? 1 : 0;
    for (size_t i = a.size(); i < arity; i++) {
      if (i < skip || i - skip >= args.size() || !args[i - skip].second.has_value()) throw no_match();
      a.push_back(*args[i - skip].second);
    }
    if (a.size() != arity) throw no_match();
    return (*this)(a);
  }
};

template <typename F>
struct Signature : Signature<decltype(&F::operator())> {};
template <typename R, typename... A>
struct Signature<R (*)(A...)> {
  using Result = R;
  using Args = std::tuple<A...>;
};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...)> {
  using Result = R;
  using Args = std::tuple<A...>;
};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...) const> : Signature<R (C::*)(A...)> {};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...) const noexcept> : Signature<R (C::*)(A...)> {};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...) noexcept> : Signature<R (C::*)(A...)> {};

template <typename A>
decltype(auto) LoadArg(const Any& a) {
  return Load<std::remove_cv_t<std::remove_reference_t<A>>>::get(a);
}

template <typename Fn, typename R, typename... A, size_t... I>
Any Apply(Fn& fn, const std::vector<Any>& a, Owner refer, std::tuple<A...>*, R*, std::index_sequence<I...>) {
  // Load everything first, so that errors of the function are not mistaken.
  std::tuple<typename Load<std::remove_cv_t<std::remove_reference_t<A>>>::Type...> loaded{LoadArg<A>(a[I])...};
  if constexpr (std::is_void_v<R>) {
    fn(std::get<I>(loaded)...);
    return std::any(std::monostate());
  } else {
    if (refer == nullptr) return Cast(fn(std::get<I>(loaded)...));
    return Cast(fn(std::get<I>(loaded)...), true, refer(a.at(0)));
  }
}

template <typename R, typename... A, typename Fn>
Function Wrap(Fn fn, Owner refer, std::tuple<A...>* args) {
  Function f;
  f.arity = sizeof...(A);
  f.call = [fn = std::move(fn), refer, args](const std::vector<Any>& a) mutable {
    return Apply(fn, a, refer, args, static_cast<std::remove_reference_t<R>*>(nullptr), std::index_sequence_for<A...>());
  };
  return f;
}

// A function or function object.
template <typename F>
Function Make(F f, Owner refer = nullptr) {
  using S = Signature<F>;
  return Wrap<typename S::Result>(std::move(f), refer, static_cast<typename S::Args*>(nullptr));
}

struct arg_v;
struct arg {
  const char* name;
  explicit arg(const char* n) : name(n) {}
  template <typename T>
  arg_v operator=(T&& v) const;
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
};
struct arg_v {
  const char* name;
  Any value;
};
template <typename T>
arg_v arg::operator=(T&& v) const {
  return {name, Cast(std::forward<T>(v))};
}
namespace literals {
inline arg operator""_a(const char* s, size_t) { return arg(s); }
}  // namespace literals

template <size_t, size_t>
struct keep_alive {};
template <typename...>
struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
struct doc {
  const char* value;
  explicit doc(const char* v) : value(v) {}
};
struct is_operator {};
struct dynamic_attr {};
struct module_local {
  explicit module_local(bool = true) {}
};
struct prepend {};
struct kw_only {};
struct pos_only {};
template <typename T>
size_t len(const T& x) {
  return x.size();
}

inline void AddArg(Function* f, const arg& a) { f->args.emplace_back(a.name, std::nullopt); }
inline void AddArg(Function* f, const arg_v& a) { f->args.emplace_back(a.name, a.value); }
template <size_t N, size_t P>
void AddArg(Function* f, const keep_alive<N, P>&) {
  f->keep.emplace_back(N, P);
}
template <typename T>
void AddArg(Function*, const T&) {}

// ---------------------------------------------------------------- module
struct Class {
  std::map<std::string, std::vector<Function>> methods, statics;
  std::map<std::string, Function> getters, setters;
  std::vector<Function> init;
  std::vector<Function> getstate, setstate;
};
struct Module {
  std::map<std::string, Class> classes;
  std::map<std::string, std::vector<Function>> functions;
  std::string doc_;
  std::string& doc() { return doc_; }
  template <typename F, typename... X>
  Module& def(const char* name, F f, const X&... extra) {
    Function g = Make(f);
    (AddArg(&g, extra), ...);
    functions[name].push_back(g);
    return *this;
  }
  template <typename T>
  Module& attr(T&&) {
    return *this;
  }
};
using module_ = Module;
using module = Module;

template <typename... A>
struct init_t {};
template <typename F>
struct factory_t {
  F f;
};
template <typename G, typename S>
struct pickle_t {
  G get;
  S set;
};

// py::init<Args...>() and py::init(factory).
template <typename... A>
init_t<A...> init() {
  return {};
}
template <typename F>
factory_t<F> init(F f) {
  return {std::move(f)};
}
template <typename G, typename S>
pickle_t<G, S> pickle(G g, S s) {
  return {std::move(g), std::move(s)};
}

inline Any Resolve(const std::vector<Function>& overloads, const std::vector<Any>& a, const std::string& what) {
  for (const Function& f : overloads) {
    try {
      return f.invoke(a);
    } catch (const no_match&) {
    }
  }
  throw type_error(what + "(): incompatible function arguments");
}

template <typename T, typename... Options>
class class_ {
  Class* c_;

  static std::shared_ptr<void> Self(const Any& a) {
    const auto* p = std::any_cast<std::shared_ptr<T>>(&a);
    return p == nullptr ? nullptr : *p;
  }
  template <typename F>
  static Function Method(F f, Owner refer = nullptr) {
    if constexpr (std::is_member_function_pointer_v<F>) {
      using S = Signature<F>;
      return Member(f, refer, static_cast<typename S::Args*>(nullptr));
    } else {
      return Make(std::move(f), refer);
    }
  }
  template <typename F, typename... A>
  static Function Member(F f, Owner refer, std::tuple<A...>*) {
    auto fn = [f](T& self, A... a) -> decltype(auto) { return (self.*f)(std::forward<A>(a)...); };
    using R = decltype((std::declval<T&>().*f)(std::declval<A>()...));
    return Wrap<R>(fn, refer, static_cast<std::tuple<T&, A...>*>(nullptr));
  }
  // What a factory returns becomes the instance, moved to its final place.
  template <typename R>
  static Any Instance(R&& r) {
    using D = std::decay_t<R>;
    if constexpr (IsShared<D>::value || IsUnique<D>::value) {
      return std::any(std::shared_ptr<T>(std::move(r)));
    } else if constexpr (std::is_pointer_v<D>) {
      return std::any(std::shared_ptr<T>(r));
    } else {
      return std::any(std::make_shared<T>(std::move(r)));
    }
  }
  template <typename F, typename... A>
  static Function Factory(F f, std::tuple<A...>*) {
    auto fn = [f](A... a) -> Any { return Instance(f(std::forward<A>(a)...)); };
    return Wrap<Any>(fn, nullptr, static_cast<std::tuple<A...>*>(nullptr));
  }

 public:
  template <typename... X>
  class_(Module& m, const char* name, const X&...) : c_(&m.classes[name]) {
    if ((IsShared<Options>::value || ...)) SharedHolders().insert(typeid(T));
    Ties()[typeid(std::shared_ptr<T>)] = [](const Any& x, const Any& patient) -> Any {
      const auto& p = std::any_cast<const std::shared_ptr<T>&>(x);
      return std::any(std::shared_ptr<T>(std::make_shared<std::pair<std::shared_ptr<T>, Any>>(p, patient), p.get()));
    };
  }

  template <typename... A, typename... X>
  class_& def(const init_t<A...>&, const X&... extra) {
    auto fn = [](A... a) -> Any { return std::any(std::make_shared<T>(std::forward<A>(a)...)); };
    Function f = Wrap<Any>(fn, nullptr, static_cast<std::tuple<A...>*>(nullptr));
    f.makes_self = true;
    (AddArg(&f, extra), ...);
    c_->init.push_back(f);
    return *this;
  }
  template <typename F, typename... X>
  class_& def(const factory_t<F>& init, const X&... extra) {
    Function f = Factory(init.f, static_cast<typename Signature<F>::Args*>(nullptr));
    f.makes_self = true;
    (AddArg(&f, extra), ...);
    c_->init.push_back(f);
    return *this;
  }
  template <typename G, typename S, typename... X>
  class_& def(const pickle_t<G, S>& p, const X&...) {
    c_->getstate.push_back(Method(p.get));
    c_->setstate.push_back(Factory(p.set, static_cast<typename Signature<S>::Args*>(nullptr)));
    return *this;
  }
  template <typename F, typename... X>
  class_& def(const char* name, F f, const X&... extra) {
    Function g = Method(f);
    g.method = true;
    (AddArg(&g, extra), ...);
    c_->methods[name].push_back(g);
    return *this;
  }
  template <typename F, typename... X>
  class_& def_static(const char* name, F f, const X&... extra) {
    Function g = Make(f);
    (AddArg(&g, extra), ...);
    c_->statics[name].push_back(g);
    return *this;
  }
  template <typename F, typename... X>
  class_& def_property_readonly(const char* name, F f, const X&...) {
    c_->getters[name] = Method(f, &Self);
    return *this;
  }
  template <typename F, typename G, typename... X>
  class_& def_property(const char* name, F f, G g, const X&...) {
    c_->getters[name] = Method(f, &Self);
    c_->setters[name] = Method(g);
    return *this;
  }
  template <typename M, typename... X>
  class_& def_readonly(const char* name, M T::*member, const X&...) {
    auto fn = [member](T& self) -> const M& { return self.*member; };
    c_->getters[name] = Wrap<const M&>(fn, &Self, static_cast<std::tuple<T&>*>(nullptr));
    return *this;
  }
  template <typename F, typename... X>
  class_& def_property_readonly_static(const char*, F, const X&...) {
    return *this;
  }
  template <typename V>
  class_& attr(V&&) {
    return *this;
  }
  template <typename M, typename... X>
  class_& def_readwrite(const char* name, M T::*member, const X&... x) {
    return def_readonly(name, member, x...);
  }
};

inline void add_ostream_redirect(Module&, const std::string& = "") {}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable) void pybind11_init_##name(::pybind11::module_& variable)

#endif  // VERIF_PYBIND11_H_
