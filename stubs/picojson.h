// Stand-in for the picojson submodule (empty in this checkout): the data model
// (null/bool/number/string/array/object), the parser and the accessors PicoPIC uses.
// With VERIF_SYMBOLIC the accessors are declared only; their contract is assumed.
#ifndef VERIF_PICOJSON_STUB
#define VERIF_PICOJSON_STUB
#include <string>
#include <vector>
#include <map>
#include <istream>
#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <cctype>
namespace picojson {
  class value;
#ifdef VERIF_SYMBOLIC
  class object {
    std::map<std::string, int> m;
  public:
    object();
    object(const object &);
    ~object();
    value &operator[](const char *);
    value &operator[](const std::string &);
    value &at(const std::string &);
    size_t count(const std::string &) const;
    size_t size() const;
    bool empty() const;
  };
#else
  typedef std::map<std::string, value> object;
#endif
  typedef std::vector<value> array;
  class value {
  public:
    typedef picojson::array array;
    typedef picojson::object object;
    int kind = 0; bool b = false; double num = 0; std::string str;
    picojson::array *a = nullptr; picojson::object *o = nullptr;
#ifdef VERIF_SYMBOLIC
    value();
    value(const value &);
    ~value();
    value &operator=(const value &);
    explicit value(bool);
    explicit value(double);
    explicit value(const std::string &);
    explicit value(const char *);
    explicit value(const picojson::array &);
    explicit value(const picojson::object &);
    template<class T> T &get();
    template<class T> const T &get() const;
    template<class T> void set(const T &);
    template<class T> bool is() const;
    std::string serialize(bool = false) const;
    bool contains(const std::string &k) const;
#else
    value() {}
    value(const value &v) { *this = v; }
    value &operator=(const value &v);
    explicit value(bool x) : kind(1), b(x) {}
    explicit value(double x) : kind(2), num(x) {}
    explicit value(const std::string &x) : kind(3), str(x) {}
    explicit value(const char *x) : kind(3), str(x) {}
    explicit value(const picojson::array &x) : kind(4), a(new picojson::array(x)) {}
    explicit value(const picojson::object &x);
    template<class T> T &get();
    template<class T> const T &get() const { return const_cast<value *>(this)->get<T>(); }
    template<class T> void set(const T &);
    template<class T> bool is() const;
    std::string serialize(bool = false) const { return std::string(); }
    bool contains(const std::string &k) const { return o && o->count(k); }
#endif
  };
#ifdef VERIF_SYMBOLIC
  std::istream &operator>>(std::istream &, value &);
  const std::string &get_last_error();
#else
  inline value::value(const picojson::object &x) : kind(5), o(new picojson::object(x)) {}
  inline value &value::operator=(const value &v)
  {
    kind = v.kind; b = v.b; num = v.num; str = v.str;
    a = v.a ? new picojson::array(*v.a) : nullptr;
    o = v.o ? new picojson::object(*v.o) : nullptr;
    return *this;
  }
  inline void kind_is(int have, int want) { if (have != 0 && have != want) throw std::runtime_error("type mismatch"); }
#ifdef VERIF_JSON_LENIENT   // an absent text is empty
  inline void kind_must(int have, int want) { kind_is(have, want); }
#else
  inline void kind_must(int have, int want) { if (have != want) throw std::runtime_error("type mismatch"); }
#endif
  template<> inline bool &value::get<bool>() { kind_is(kind, 1); return b; }
  template<> inline double &value::get<double>() { kind_is(kind, 2); return num; }
  template<> inline std::string &value::get<std::string>() { kind_must(kind, 3); return str; }
  template<> inline array &value::get<array>() { kind_is(kind, 4); if (!a) a = new picojson::array; return *a; }
  template<> inline object &value::get<object>() { kind_is(kind, 5); if (!o) o = new picojson::object; return *o; }
  template<> inline void value::set<std::string>(const std::string &x) { kind = 3; str = x; }
  template<> inline void value::set<double>(const double &x) { kind = 2; num = x; }
  template<> inline void value::set<bool>(const bool &x) { kind = 1; b = x; }
  template<> inline bool value::is<bool>() const { return kind == 1; }
  template<> inline bool value::is<double>() const { return kind == 2; }
  template<> inline bool value::is<std::string>() const { return kind == 3; }
  template<> inline bool value::is<array>() const { return kind == 4; }
  template<> inline bool value::is<object>() const { return kind == 5; }
  inline std::string &last_error() { static std::string e; return e; }
  inline const std::string &get_last_error() { return last_error(); }
  struct reader {
    std::string s; size_t p = 0;
    void skip() { while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
    [[noreturn]] void bad() { throw std::runtime_error("syntax"); }
    char peek() { skip(); if (p >= s.size()) bad(); return s[p]; }
    void want(char c) { if (peek() != c) bad(); ++p; }
    bool word(const char *w) { std::string t(w); if (s.compare(p, t.size(), t)) return false; p += t.size(); return true; }
    std::string text() { want('"'); std::string r; while (p < s.size() && s[p] != '"') { if (s[p] == '\\') ++p; r += s[p++]; } if (p >= s.size()) bad(); ++p; return r; }
    value any()
    {
      char c = peek();
      if (c == '{') {
        object r; ++p;
        if (peek() == '}') { ++p; return value(r); }
        for (;;) { std::string k = text(); want(':'); r[k] = any(); if (peek() == ',') { ++p; peek(); continue; } want('}'); return value(r); }
      }
      if (c == '[') {
        array r; ++p;
        if (peek() == ']') { ++p; return value(r); }
        for (;;) { r.push_back(any()); if (peek() == ',') { ++p; continue; } want(']'); return value(r); }
      }
      if (c == '"') return value(text());
      if (word("true")) return value(true);
      if (word("false")) return value(false);
      if (word("null")) return value();
      char *e; double d = strtod(s.c_str() + p, &e);
      if (e == s.c_str() + p) bad();
      p = e - s.c_str();
      return value(d);
    }
  };
  inline std::istream &operator>>(std::istream &i, value &v)
  {
    std::stringstream ss; ss << i.rdbuf();
    reader r; r.s = ss.str();
    last_error().clear();
    try { v = r.any(); } catch (std::exception &e) { last_error() = e.what(); }
    return i;
  }
#endif
}
#endif
