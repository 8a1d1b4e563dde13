// Symbolic value trees of bounded size.
#pragma once
#include "ref.h"
struct Gen {
  int nodes; int floats; int strlen_; bool intsym; int depth; bool full_int;
  explicit Gen(int n, int d = 2) : nodes(n), floats(0), strlen_(1), intsym(true), depth(d), full_int(false) {}
  std::string str(int maxn) {
    Bytes b; int n = maxn > 0 ? (int)choose((unsigned)maxn + 1, "len") : 0;
    for (int i = 0; i < n; i++) { unsigned c = (unsigned)sym(8, "ch"); __sx_assume(c < 0x80); b.add(c); }
    return b.str();
  }
  int64_t integer() { if (!full_int) { uint64_t x = sym(8, "int"); return (int64_t)(int8_t)x; } return (int64_t)sym(64, "int"); }
  // kinds: 0 null 1 bool 2 int 3 string 4 array 5 object 6 float
  jv value(int d) {
    nodes--;
    unsigned nk = d > 0 ? 6u : 4u; unsigned k = choose(nk + (floats ? 1 : 0), "kind"); if (k == nk) k = 6;
    switch (k) {
      case 0: return jv(nullptr);
      case 1: return jv(sym(1, "bool") == 1);
      case 2: return jv(integer());
      case 3: return jv(str(strlen_));
      case 6: { static const double F[] = { 0.5, -1.25, 3.0, 0.1, 1e300, -2.0, 1e-7, 123456.789 }; return jv(F[choose((unsigned)floats, "float")]); }
      case 4: { jv v = value_constant::array; unsigned n = nodes > 0 ? choose((unsigned)(nodes > 2 ? 3 : nodes + 1), "size") : 0; for (unsigned i = 0; i < n && nodes >= 0; i++) v.push_back(value(d - 1)); return v; }
      default: { jv v = value_constant::object; unsigned n = nodes > 0 ? choose((unsigned)(nodes > 2 ? 3 : nodes + 1), "size") : 0; for (unsigned i = 0; i < n && nodes >= 0; i++) { std::string key(1, (char)('a' + i)); if (i == 0 && strlen_ > 1) key = str(1); v[key] = value(d - 1); } return v; }
    }
  }
};
// same kinds and contents, written against the public API and independent of operator==
static bool same_tree(const jv& a, const jv& b) {
  if (a.type() != b.type()) return false;
  switch (a.type()) {
    case value_constant::null: return true;
    case value_constant::boolean: return a.get<bool>() == b.get<bool>();
    case value_constant::integer: return a.get<int64_t>() == b.get<int64_t>();
    case value_constant::floating: return a.get<double>() == b.get<double>();
    case value_constant::string: return bytes_eq(a.get<const std::string&>(), b.get<const std::string&>());
    case value_constant::array: { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same_tree(a[i], b[i])) return false; return true; }
    default: { const auto& x = *a.get_ptr<const jv::object_type*>(); const auto& y = *b.get_ptr<const jv::object_type*>(); if (x.size() != y.size()) return false; auto i = x.begin(); auto j = y.begin(); for (; i != x.end(); ++i, ++j) if (!bytes_eq(i->first, j->first) || !same_tree(i->second, j->second)) return false; return true; }
  }
}

// arrays and objects built element by element (nested single-element braces mean different things to gcc and clang)
static inline void put_all(jv&) {}
template <class X, class... R> static inline void put_all(jv& a, X x, R... r) { a.push_back(jv(x)); put_all(a, r...); }
template <class... R> static inline jv A(R... r) { jv a = value_constant::array; put_all(a, r...); return a; }
static inline void set_all(jv&) {}
template <class X, class... R> static inline void set_all(jv& o, std::string k, X x, R... r) { o[k] = jv(x); set_all(o, r...); }
template <class... R> static inline jv O(R... r) { jv o = value_constant::object; set_all(o, r...); return o; }
