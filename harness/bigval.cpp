// C17 C18 C22 C23 C24 C26: values of some size.
#include "big.h"
#include "cmp_ref.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
static jv pass(jv v) { return v; }
static jv& child(jv& v, int i) { return v.is_array() ? (*v.data().vector)[(size_t)i] : std::next(v.data().object->begin(), i)->second; }
// C17: a big value and its twin built separately (nothing can be shared); copies and moves of it and of its parts
SX_ENTRY(big_copies) {
  int kind = __sx_param(0), n = __sx_param(1), op = __sx_param(2), at = n / 2; int64_t c = (int64_t)sym(64, "c"); jv v = bigtree(kind, n, at, c); const jv twin = bigtree(kind, n, at, c); const char* D = "C17 a copy differs from its source";
  switch (op) {
    case 0: { jv w(v); CHECK(same_tree(w, twin) && same_tree(v, twin) && w == v, D); child(w, at % (int)w.size()) = "changed"; CHECK(same_tree(v, twin), "C17 changing the copy changes the source"); w.clear(); CHECK(same_tree(v, twin), "C17 changing the copy changes the source"); break; }
    case 1: { jv w = A(1, 2); w = v; child(v, (int)v.size() - 1) = nullptr; v = 5; CHECK(same_tree(w, twin), "C17 changing the source changes the copy"); break; }
    case 2: { jv w(std::move(v)); CHECK(v.is_null(), "C17 a moved-from value is not null"); CHECK(same_tree(w, twin), "C17 a moved value differs from its source"); jv u; u = std::move(w); CHECK(w.is_null() && same_tree(u, twin), "C17 a moved value differs from its source"); v = std::move(u); CHECK(u.is_null() && same_tree(v, twin), "C17 a moved value differs from its source"); break; }
    case 3: { jv& r = v; v = r; CHECK(same_tree(v, twin), "C17 self-assignment changes a value"); v = std::move(r); CHECK(same_tree(v, twin), "C17 self-move changes a value"); v.swap(r); CHECK(same_tree(v, twin), "C17 self-swap changes a value"); break; }
    case 4: { jv w = O("k", 1); w.swap(v); CHECK(same_tree(w, twin) && v.is_object() && v.size() == 1, "C17 swap lost a value"); std::swap(v, w); CHECK(same_tree(v, twin) && w.size() == 1, "C17 swap lost a value"); break; }
    case 5: { jv k = child(const_cast<jv&>(twin), (int)twin.size() - 1); const jv& own = child(v, (int)v.size() - 1); v = own; CHECK(same_tree(v, k), "C17 assigning a part of itself"); break; }
    case 6: { jv k = child(const_cast<jv&>(twin), at % (int)twin.size()); v = std::move(child(v, at % (int)v.size())); CHECK(same_tree(v, k), "C17 assigning a part of itself"); break; }
    case 7: { if (v.is_array()) { v.push_back(v); CHECK(v.size() == twin.size() + 1 && same_tree(child(v, (int)twin.size()), twin), "C17 a value inside itself"); } else { jv t = v; v["zzz"] = t; CHECK(same_tree(v["zzz"], twin), "C17 a value inside itself"); } for (int i = 0; i < (int)twin.size(); i++) if (v.is_array()) CHECK(same_tree(child(v, i), child(const_cast<jv&>(twin), i)), "C17 a value inside itself"); break; }
    case 8: { jv w = pass(pass(v)); CHECK(same_tree(w, twin) && same_tree(v, twin), D); w = pass(std::move(v)); CHECK(v.is_null() && same_tree(w, twin), D); break; }
    case 9: { std::vector<jv> s; for (int i = 0; i < 9; i++) s.push_back(v); s.insert(s.begin() + 2, twin); s.erase(s.begin()); for (auto& x : s) CHECK(same_tree(x, twin), D); break; }
    default: { for (int i = 0; i < 5; i++) { jv w = v; v = 1; v = w; w = v; v = std::move(w); } CHECK(same_tree(v, twin), D); jv a = A(v, v, v); a[1] = a[0]; a[0] = std::move(a[2]); CHECK(a[2].is_null() && same_tree(a[0], twin) && same_tree(a[1], twin), D); }
  }
  __sx_cover("big copies");
}
// C18: long strings and containers through every access
SX_ENTRY(big_typed) {
  int n = __sx_param(0), pos = __sx_param(1); std::string x = bigstr(0, n); if (n) x[(size_t)place(pos, n)] = (char)sym(8, "c"); jv v(x), u; u = x; const jv& c = v;
  CHECK(v.is_string() && u.is_string() && bytes_eq(v.get<std::string>(), x) && bytes_eq(u.get<const std::string&>(), x) && bytes_eq(*c.get_ptr<const std::string*>(), x), "C18 a string reads back differently"); std::string t = bigstr(0, 40); CHECK(v.get(t) && bytes_eq(t, x), "C18 a try access reads a string differently"); std::string s = v; CHECK(bytes_eq(s, x), "C18 an implicit conversion reads a string differently"); v.get<std::string&>() += "?"; CHECK(v.get<std::string>().size() == x.size() + 1, "C18 a write through a reference is not seen"); bool nul = false; for (char q : x) nul = nul | (q == 0); if (!nul) { jv l(x.c_str()); CHECK(bytes_eq(l.get<std::string>(), x), "C18 a C string reads back differently"); }
  jv a = bigtree(0, n, n / 2, 7); jv::array_type y = a.get<jv::array_type>(); CHECK(y.size() == (size_t)n, "C18 an array reads back differently"); a.get<jv::array_type&>().push_back(x); CHECK(a.size() == (size_t)n + 1 && y.size() == (size_t)n, "C18 an array read by value aliases the stored one"); jv o = bigtree(1, n < 100 ? n : 100, 3, 7); jv::object_type m = o.get<jv::object_type>(); CHECK(m.size() == o.size() && o.get_ptr<jv::object_type*>()->size() == m.size(), "C18 an object reads back differently"); int k = 9; CHECK(!a.get(k) && !o.get(k) && k == 9 && !v.get(k), "C18 a try access to another kind claims success"); __sx_cover("big typed");
}
// C22: two big values that differ in one place at most, or in length
SX_ENTRY(big_cmp) {
  int kind = __sx_param(0), n = __sx_param(1), pos = __sx_param(2), how = __sx_param(3), at = place(pos, n); jv a, b;
  if (kind == 99) { std::string s = bigstr(0, n), t = s; s[(size_t)at] = (char)sym(8, "a"); t[(size_t)at] = (char)sym(8, "b"); if (how == 1) t.resize((size_t)n - 1); if (how == 2) s += 'a'; a = s; b = t; }
  else if (kind == 98) { std::string k = bigstr(0, n), q = k; k[(size_t)at] = (char)sym(8, "a"); q[(size_t)at] = (char)sym(8, "b"); if (how == 1) q.resize((size_t)n - 1); a[k] = 1; b[q] = how == 2 ? 2 : 1; }
  else { a = bigtree(kind, n, at, (int64_t)sym(64, "a")); b = bigtree(kind, n, at, (int64_t)sym(64, "b")); if (how == 1) { if (b.is_array()) b.erase(b.size() - 1); else b.erase(b.data().object->rbegin()->first); } if (how == 2 && a.is_array()) a.push_back(nullptr); if (how == 3) { jv x = A(a), y = A(b); a = x; b = y; } }
  check_pair(a, b); __sx_cover("big cmp");
}
// C23
template <class T> struct Mk; template <> struct Mk<int> { static int at(int i) { return i * 37 % 1001 - 500; } static int s() { return (int)sym(32, "x"); } static bool is(const jv& v, int x) { return v.is_integer() && v.data().integer == x; } };
template <> struct Mk<std::string> { static std::string at(int i) { std::string s = bigstr(0, i % 40); num(s, i); return s; } static std::string s() { return std::string(1, (char)sym(8, "x")); } static bool is(const jv& v, const std::string& x) { return v.is_string() && bytes_eq(*v.data().string, x); } };
template <> struct Mk<bool> { static bool at(int i) { return i % 3 == 0; } static bool s() { return sym(1, "x") == 1; } static bool is(const jv& v, bool x) { return v.is_bool() && v.data().boolean == x; } };
template <> struct Mk<double> { static double at(int i) { return i * 0.25; } static double s() { return (double)(int64_t)(int8_t)sym(8, "x"); } static bool is(const jv& v, double x) { return v.is_floating() && v.data().floating == x; } };
template <> struct Mk<std::vector<int>> { static std::vector<int> at(int i) { std::vector<int> v; for (int k = 0; k < i % 5; k++) v.push_back(i + k); return v; } static std::vector<int> s() { return std::vector<int>(3, (int)sym(32, "x")); } static bool is(const jv& v, const std::vector<int>& x) { if (!v.is_array() || v.size() != x.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!Mk<int>::is((*v.data().vector)[i], x[i])) return false; return true; } };
template <class E, class C> static void fill_at(C& c, int n, int at) { for (int i = 0; i < n; i++) c.insert(c.end(), i == at ? Mk<E>::s() : Mk<E>::at(i)); }
template <class E> static void fill_at(std::forward_list<E>& c, int n, int at) { for (int i = n; i-- > 0;) c.push_front(i == at ? Mk<E>::s() : Mk<E>::at(i)); }
template <class E, class C> static void seq(int n, int at) {
  C c; fill_at<E>(c, n, at); jv v = c; CHECK(v.is_array() && v.size() == (size_t)std::distance(c.begin(), c.end()), "C23 a container gives another value"); size_t i = 0; for (const auto& x : c) { CHECK(Mk<E>::is((*v.data().vector)[i], x), "C23 a container gives another value"); i++; }
  C r = v.get<C>(); CHECK(r == c, "C23 converting back gives another container"); C t; fill_at<E>(t, 5, -1); v.get_to(t); CHECK(t == c, "C23 converting into a non-empty container does not replace its contents"); C u = v; CHECK(u == c, "C23 converting back gives another container");
  jv w = v; w[(size_t)at < w.size() ? (size_t)at : w.size() - 1] = O("k", 1); bool th = false; try { C q = w.get<C>(); } catch (const configor_exception&) { th = true; } CHECK(th, "C23 an element of the wrong kind is not rejected"); __sx_cover("big container");
}
template <class E, class C> static void mapc(int n, int at) {
  C c; for (int i = 0; i < n; i++) { std::string k = bigstr(0, i % 40); num(k, i); c[k] = i == at ? Mk<E>::s() : Mk<E>::at(i); } jv v = c; CHECK(v.is_object() && v.size() == c.size(), "C23 a map gives another value"); for (const auto& p : c) { CHECK(v.count(p.first) == 1 && Mk<E>::is(v.data().object->find(p.first)->second, p.second), "C23 a map gives another value"); }
  C r = v.get<C>(); CHECK(r == c, "C23 converting back gives another map"); C t; t["zz"] = Mk<E>::at(1); t["a"] = Mk<E>::at(2); v.get_to(t); CHECK(t == c, "C23 converting into a non-empty container does not replace its contents"); jv w = v; child(w, (int)w.size() - 1) = value_constant::array; w.begin().value() = O(); bool th = false; try { C q = w.get<C>(); } catch (const configor_exception&) { th = true; } CHECK(th, "C23 a member of the wrong kind is not rejected"); __sx_cover("big container");
}
SX_ENTRY(big_cont) {
  int n = __sx_param(1), at = place(__sx_param(2), n); typedef std::string S;
  switch (__sx_param(0)) {
    case 0: seq<int, std::vector<int>>(n, at); break; case 1: seq<S, std::vector<S>>(n, at); break; case 2: seq<int, std::deque<int>>(n, at); break; case 3: seq<S, std::list<S>>(n, at); break; case 4: seq<int, std::forward_list<int>>(n, at); break; case 5: seq<bool, std::vector<bool>>(n, at); break; case 6: seq<double, std::vector<double>>(n, at); break; case 7: seq<std::vector<int>, std::vector<std::vector<int>>>(n, at); break; case 8: seq<S, std::forward_list<S>>(n, at); break;
    case 9: mapc<int, std::map<S, int>>(n, at); break; case 10: mapc<S, std::map<S, S>>(n, at); break; case 11: mapc<std::vector<int>, std::map<S, std::vector<int>>>(n, at); break;
    case 12: { std::set<int> c; for (int i = 0; i < n; i++) c.insert(i == at ? choose(8, "x") * 131 - 500 : i * 37 % 1001 - 500); jv v = c; CHECK(v.is_array() && v.size() == c.size(), "C23 a set gives another value"); std::set<int> r; r.insert(77777); v.get_to(r); CHECK(r == c, "C23 converting into a non-empty container does not replace its contents"); __sx_cover("big container"); break; }
    case 13: { std::unordered_map<S, int> c; for (int i = 0; i < n; i++) { S k = "k"; num(k, i); c[k] = i == at ? (int)sym(32, "x") : i; } jv v = c; CHECK(v.is_object() && v.size() == c.size(), "C23 a map gives another value"); std::unordered_map<S, int> r; r["zz"] = 1; v.get_to(r); CHECK(r.size() == c.size(), "C23 converting into a non-empty container does not replace its contents"); for (auto& p : c) CHECK(r.count(p.first) && r[p.first] == p.second, "C23 converting back gives another map"); __sx_cover("big container"); break; }
    case 14: { std::unordered_set<int> c; for (int i = 0; i < n; i++) c.insert(i * 7); jv v = c; int x = (int)sym(8, "x"); v.push_back(x * 7); std::unordered_set<int> r; r.insert(-1); v.get_to(r); CHECK(r.size() == (x < n ? (size_t)n : (size_t)n + 1) && !r.count(-1), "C23 converting into a non-empty container does not replace its contents"); for (int i = 0; i < n; i++) CHECK(r.count(i * 7), "C23 converting back gives another set"); __sx_cover("big container"); break; }
    case 15: { std::array<int, 40> c; for (int i = 0; i < 40; i++) c[(size_t)i] = i == at ? (int)sym(32, "x") : i; jv v = c; CHECK(v.is_array() && v.size() == 40, "C23 an array gives another value"); std::array<int, 40> r = v.get<std::array<int, 40>>(); CHECK(r == c, "C23 converting back gives another array"); int p[40], q[40]; for (int i = 0; i < 40; i++) p[i] = c[(size_t)i]; jv w(p); w.get_to(q); bool e = true; for (int i = 0; i < 40; i++) e = e & (p[i] == q[i]); CHECK(e && w == v, "C23 converting back gives another C array"); __sx_cover("big container"); break; }
    default: { std::vector<std::shared_ptr<S>> c;
      for (int i = 0; i < n; i++) { if (i == at) c.push_back(std::make_shared<S>(Mk<S>::s())); else if (i % 4 == 3) c.push_back(nullptr); else c.push_back(std::make_shared<S>(Mk<S>::at(i))); }
      jv v = c; CHECK(v.is_array() && v.size() == (size_t)n, "C23 a container gives another value");
      std::vector<std::shared_ptr<S>> r(7, std::make_shared<S>("old"));
      v.get_to(r);
      CHECK(r.size() == (size_t)n, "C23 converting back gives another container");
      for (int i = 0; i < n; i++) CHECK(!r[(size_t)i] == !c[(size_t)i] && (!r[(size_t)i] || bytes_eq(*r[(size_t)i], *c[(size_t)i])), "C23 converting back gives another container");
      __sx_cover("big container");
      break;
      }
  }
}
// C24
struct In { int64_t n; std::string s; In() : n(0) {} bool operator==(const In& o) const { return n == o.n && bytes_eq(s, o.s); } bool operator!=(const In& o) const { return !(*this == o); } CONFIGOR_BIND(json::value, In, REQUIRED(n), OPTIONAL(s, "a key that is longer than the small string buffer")) };
struct Out { std::vector<In> l; std::map<std::string, In> m; std::string t; std::vector<std::vector<In>> g; CONFIGOR_BIND(json::value, Out, REQUIRED(l), REQUIRED(m), OPTIONAL(t), OPTIONAL(g)) };
SX_ENTRY(big_bind) {
  int n = __sx_param(0), at = place(__sx_param(1), n), how = __sx_param(2); Out o; for (int i = 0; i < n; i++) { In x; x.n = i == at ? (int64_t)(int8_t)sym(8, "x") : i; x.s = i == at ? std::string(1, (char)sym_lt(8, 0x80, "c")) : bigstr(0, i % 30); o.l.push_back(x); if (i < 60) { std::string k = "k"; num(k, i * 31 % 97); o.m[k] = x; } o.g.push_back(std::vector<In>((size_t)(i % 3), x)); } o.t = bigstr(0, n);
  jv v = o; if (how & 1) v = json::parse(json::dump(v)); CHECK(v.is_object() && v.size() == 4 && v["l"].size() == (size_t)n && v["m"].size() == o.m.size(), "C24 a struct gives another object"); Out r; r.l.resize(3); r.m["zzz"]; r.t = "old"; r.g.resize(9); if (how & 2) r = v.get<Out>(); else v.get_to(r); CHECK(r.l == o.l && r.m == o.m && bytes_eq(r.t, o.t) && r.g == o.g, "C24 converting back gives another struct");
  v["l"][(size_t)at].erase("n"); bool th = false; try { (void)v.get<Out>(); } catch (const std::exception&) { th = true; } CHECK(th, "C24 a missing required key is not reported"); __sx_cover("big bind");
}
// C26
SX_ENTRY(big_factory) {
  int n = __sx_param(0), how = __sx_param(1); jv e[24]; for (int i = 0; i < 24; i++) e[i] = i % 5 == 0 ? jv((int64_t)sym(64, "e")) : i % 5 == 1 ? jv(bigstr(0, i)) : i % 5 == 2 ? A(i) : i % 5 == 3 ? jv(nullptr) : O("k", i); static const char* K[] = { "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh", "ki", "kj", "kk", "kl", "km", "kn" }; jv v, w;
#define E8(b) e[b], e[b + 1], e[b + 2], e[b + 3], e[b + 4], e[b + 5], e[b + 6], e[b + 7]
#define O4(b) { K[b], e[b] }, { K[b + 1], e[b + 1] }, { K[b + 2], e[b + 2] }, { K[b + 3], e[b + 3] }
  if (n == 8) { if (how) { v = make_array<jv>({ E8(0) }); w = make_object<jv>({ O4(4), O4(0) }); } else { v = json::array{ E8(0) }; w = json::object{ O4(4), O4(0) }; } }
  else if (n == 16) { if (how) { v = make_array<jv>({ E8(0), E8(8) }); w = make_object<jv>({ O4(12), O4(0), O4(8), O4(4) }); } else { v = json::array{ E8(0), E8(8) }; w = json::object{ O4(12), O4(0), O4(8), O4(4) }; } }
  else { if (how) { v = make_array<jv>({ E8(0), E8(8), E8(16) }); w = make_object<jv>({ O4(12), O4(0), O4(8), O4(4), O4(20), O4(16) }); } else { v = json::array{ E8(0), E8(8), E8(16) }; w = json::object{ O4(12), O4(0), O4(8), O4(4), O4(20), O4(16) }; } }
  CHECK(v.is_array() && v.size() == (size_t)n && w.is_object() && w.size() == (size_t)n, "C26 a factory gives another number of elements"); for (int i = 0; i < n; i++) { CHECK(same_tree(v[(size_t)i], e[i]), "C26 make_array gives other elements"); CHECK(w.count(K[i]) == 1 && same_tree(w[K[i]], e[i]), "C26 make_object gives other members"); }
  jv b = bigtree(5, 40 * n, 3, 1), o = bigtree(1, 12 * n, 3, 1), s = bigstr(0, 30 * n); CHECK(b.size() == (size_t)(40 * n) && o.size() == (size_t)(12 * n) && s.size() == 1 && !b.empty() && !o.empty(), "C26 size() disagrees with the contents"); b.clear(); o.clear(); s.clear(); CHECK(b.is_array() && b.empty() && o.is_object() && o.empty() && s.is_string() && s.get<std::string>().empty(), "C26 clear() does not empty a value"); b.push_back(1); o["a"] = 1; CHECK(b.size() == 1 && o.size() == 1, "C26 a cleared value is not usable"); __sx_cover("big factory");
}
