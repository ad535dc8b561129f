// Model of the two boost::program_options helpers and boost::any used by Validators.cpp (symbolic build only).
#ifndef SYM_BOOST_PO_
#define SYM_BOOST_PO_
#include <stdexcept>
#include <string>
#include <vector>
namespace boost {
class any {  // (no virtual functions: a type tag, the value and what deletes it)
  template <class T> static const void* id() { static char c; return &c; }
  template <class T> static void del(void* v) { delete (T*)v; }
  void* v = nullptr; const void* tag = nullptr; void (*d)(void*) = nullptr;
 public:
  any() {} template <class T> any(const T& t) : v(new T(t)), tag(id<T>()), d(&del<T>) {} any(const any&) = delete; ~any() { if (v) d(v); }
  template <class T> any& operator=(const T& t) { if (v) d(v); v = new T(t); tag = id<T>(); d = &del<T>; return *this; }
  bool empty() const { return !v; }
  template <class T> const T* get() const { return v && tag == id<T>() ? (const T*)v : nullptr; }
};
template <class T> const T* any_cast(const any* a) { return a->get<T>(); }
template <class T> T any_cast(const any& a) { const T* t = a.get<T>(); if (!t) throw std::bad_cast(); return *t; }
namespace program_options {
class error : public std::logic_error { public: error(const std::string& s) : std::logic_error(s) {} };
class invalid_option_value : public error { public: invalid_option_value(const std::string& s) : error(s) {} };
class multiple_occurrences : public error { public: multiple_occurrences() : error("multiple") {} };
class validation_error : public error { public: validation_error() : error("validation") {} };
namespace validators {
inline void check_first_occurrence(const boost::any& v) { if (!v.empty()) throw multiple_occurrences(); }
inline const std::string& get_single_string(const std::vector<std::string>& v, bool allow_empty = false) { static std::string e; if (v.size() > 1) throw validation_error(); if (v.size() == 1) return v.front(); if (!allow_empty) throw validation_error(); return e; }
}

// --- the command line: the harness says which options are given (a switch may be symbolic)
}
}
#include <functional>
#include <map>
#include <memory>
#include <utility>
struct __cli_option { std::string name; int given = 0; std::vector<std::string> tokens; };   // given may be symbolic for a switch (no tokens)
extern std::vector<__cli_option> __cli_options; extern std::vector<std::string> __cli_positional;
namespace boost {
template <class T> using shared_ptr = std::shared_ptr<T>;
namespace program_options {
class required_option : public error { public: required_option(const std::string& n) : error("the option '--" + n + "' is required but missing") {} };
class unknown_option : public error { public: unknown_option(const std::string& n) : error("unrecognised option '" + n + "'") {} };
class too_many_positional_options_error : public error { public: too_many_positional_options_error() : error("too many positional options have been specified on the command line") {} };
class invalid_command_line_syntax : public error { public: invalid_command_line_syntax(const std::string& n) : error("the required argument for option '--" + n + "' is missing") {} };
class bad_lexical : public error { public: bad_lexical() : error("the argument is invalid") {} };
template <class T> void validate(boost::any& v, const std::vector<std::string>& s, std::vector<T>*, int);
inline void validate(boost::any& v, const std::vector<std::string>& s, std::string*, int) { validators::check_first_occurrence(v); v = validators::get_single_string(s, true); }
inline void validate(boost::any& v, const std::vector<std::string>& s, int*, int) {
  validators::check_first_occurrence(v); const std::string& t = validators::get_single_string(s); size_t i = !t.empty() && (t[0] == '-' || t[0] == '+'); if (i == t.size()) throw bad_lexical(); long n = 0; for (size_t k = i; k < t.size(); k++) { if (t[k] < '0' || t[k] > '9' || k > i + 9) throw bad_lexical(); n = n * 10 + (t[k] - '0'); } v = (int)(t[0] == '-' ? -n : n);
}
template <class T> void validate(boost::any& v, const std::vector<std::string>& s, std::vector<T>*, int) {
  std::vector<T> r; if (auto* o = v.get<std::vector<T>>()) r = *o; for (auto& t : s) { boost::any a; validate(a, std::vector<std::string>(1, t), (T*)nullptr, 0); r.push_back(boost::any_cast<T>(a)); } v = r;
}
class value_semantic { public: bool isSwitch = false, isRequired = false, isMulti = false; virtual ~value_semantic() {} virtual void flag(int) {} virtual void parse(const std::vector<std::string>&) {} virtual bool given() const { return false; } virtual void assign() {} virtual const void* get() const { return nullptr; } };
template <class T> class typed_value : public value_semantic {
 public:
  T* to; T val{}; bool have = false, byDefault = false; boost::any any; int sw = 0; std::function<void(const T&)> notify_;
  explicit typed_value(T* t) : to(t) {}
  typed_value* required() { isRequired = true; return this; } typed_value* default_value(const T& t) { val = t; have = byDefault = true; return this; } typed_value* default_value(const T& t, const std::string&) { return default_value(t); } typed_value* multitoken() { isMulti = true; return this; } typed_value* composing() { return this; } typed_value* value_name(const std::string&) { return this; } typed_value* notifier(std::function<void(const T&)> f) { notify_ = f; return this; }
  void flag(int f) override { if constexpr (std::is_same_v<T, bool>) { val = f != 0; have = true; byDefault = false; } }
  void parse(const std::vector<std::string>& t) override { if constexpr (!std::is_same_v<T, bool>) { validate(any, t, (T*)nullptr, 0); val = *any.template get<T>(); have = true; byDefault = false; } }
  bool given() const override { return have; } void assign() override { if (have && to) *to = val; if (have && notify_) notify_(val); } const void* get() const override { return &val; }
};
template <class T> typed_value<T>* value(T* t) { return new typed_value<T>(t); }
template <class T> typed_value<T>* value() { return new typed_value<T>(nullptr); }
inline typed_value<bool>* bool_switch(bool* b) { auto* v = new typed_value<bool>(b); v->isSwitch = true; v->val = false; v->have = v->byDefault = true; return v; }
inline typed_value<bool>* bool_switch() { return bool_switch(nullptr); }
class option_description {
 public:
  std::string lng, desc; char shrt = 0; std::shared_ptr<value_semantic> sem;
  option_description(const char* n, value_semantic* s, const char* d) : desc(d), sem(s) { std::string t = n; size_t k = t.find(','); lng = t.substr(0, k); if (k != std::string::npos && k + 1 < t.size()) shrt = t[k + 1]; }
  std::string format_name() const { std::string r; if (shrt) { r = "-"; r += shrt; r += " [ --" + lng + " ]"; return r; } return "--" + lng; }
  const std::string& description() const { return desc; } const std::string& long_name() const { return lng; } std::shared_ptr<const value_semantic> semantic() const { return sem; } std::string format_parameter() const { return sem->isSwitch ? "" : "arg"; }
};
class options_description {
 public:
  struct easy { options_description* o; easy& operator()(const char* n, value_semantic* s, const char* d) { o->all.push_back(std::make_shared<option_description>(n, s, d)); return *this; } easy& operator()(const char* n, value_semantic* s) { return (*this)(n, s, ""); } easy& operator()(const char* n, const char* d) { return (*this)(n, bool_switch(), d); } };
  std::vector<std::shared_ptr<option_description>> all;
  options_description(const std::string& = "", unsigned = 80, unsigned = 40) {} easy add_options() { return easy{this}; }
  options_description& add(const options_description& o) { for (auto& x : o.all) all.push_back(x); return *this; } const std::vector<std::shared_ptr<option_description>>& options() const { return all; }
  option_description* find_(const std::string& n) const { for (auto& o : all) if (o->lng == n) return o.get(); return nullptr; }
};
class positional_options_description { public: std::vector<std::string> names; bool endless = false; positional_options_description& add(const char* n, int k) { if (k < 0) { endless = true; names.push_back(n); } for (int i = 0; i < k; i++) names.push_back(n); return *this; } };
struct parsed_options { const options_description* d; const positional_options_description* p; };
class command_line_parser {
  parsed_options r{nullptr, nullptr};
 public:
  command_line_parser(int, const char* const*) {} command_line_parser& options(const options_description& d) { r.d = &d; return *this; } command_line_parser& positional(const positional_options_description& p) { r.p = &p; return *this; }
  parsed_options run() { for (auto& o : __cli_options) { bool known = r.d && r.d->find_(o.name); if (!known && o.given) throw unknown_option("--" + o.name); if (known && !r.d->find_(o.name)->sem->isSwitch && o.given && o.tokens.empty()) throw invalid_command_line_syntax(o.name); } size_t n = r.p ? r.p->names.size() : 0; if (__cli_positional.size() > n && !(r.p && r.p->endless)) throw too_many_positional_options_error(); return r; }
};
class variable_value { public: option_description* o = nullptr; template <class T> const T& as() const { if (!o) throw std::bad_cast(); return *(const T*)o->sem->get(); } bool empty() const { return !o; } bool defaulted() const { return false; } };
class variables_map { public: const options_description* d = nullptr; size_t count(const std::string& n) const { auto* o = d ? d->find_(n) : nullptr; return o && o->sem->given() ? 1 : 0; } variable_value operator[](const std::string& n) const { variable_value v; if (count(n)) v.o = d->find_(n); return v; } };
inline void store(const parsed_options& r, variables_map& vm) {
  vm.d = r.d; std::map<std::string, std::vector<std::string>> pos; for (size_t i = 0; i < __cli_positional.size(); i++) { auto* o = r.d->find_(r.p->names[i < r.p->names.size() ? i : r.p->names.size() - 1]); if (!o) throw unknown_option("positional"); o->sem->parse(std::vector<std::string>(1, __cli_positional[i])); }
  for (auto& c : __cli_options) { auto* o = r.d->find_(c.name); if (!o) continue; if (o->sem->isSwitch) o->sem->flag(c.given); else if (c.given) for (auto& t : c.tokens) o->sem->parse(std::vector<std::string>(1, t)); }
}
inline void notify(variables_map& vm) { if (!vm.d) return; for (auto& o : vm.d->all) if (o->sem->isRequired && !o->sem->given()) throw required_option(o->lng); for (auto& o : vm.d->all) o->sem->assign(); }
}
}
#endif
