// C23: shared by cont.cpp (sequences, pointers, arrays) and contm.cpp (maps, the value's own containers, wide).
#pragma once
#include "gen.h"
#include <array>
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <set>
#include <unordered_set>
#include <map>
#include <unordered_map>
#include <memory>
static int N;                 // elements of the outermost container
static bool SMALL;            // elements from a small range (hashed containers)
static int PLAIN = -1;        // >= 0: fixed contents (targets that are overwritten)
static int plain() { return PLAIN++; }
static unsigned pick(unsigned n, const char* w) { return PLAIN >= 0 ? (unsigned)plain() % n : choose(n, w); }
enum { BOOL, INT, FLT, STR, ARR, OBJ, ANY };
// per type: a symbolic instance, what the value must be, equality, kind
template <class T, class = void> struct K;
template <class T> struct K<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static void make(T& x, int) { if (PLAIN >= 0) x = (T)plain(); else if (SMALL) x = (T)choose(5, "e"); else x = (T)sym(sizeof(T) * 8, "e"); } static bool is(const jv& v, const T& x) { return v.is_integer() && v.data().integer == (int64_t)x; } static bool eq(const T& a, const T& b) { return a == b; } static int kind() { return INT; } };
template <> struct K<bool> { static void make(bool& x, int) { x = PLAIN >= 0 ? plain() & 1 : sym(1, "e") == 1; } static bool is(const jv& v, bool x) { return v.is_bool() && v.data().boolean == x; } static bool eq(bool a, bool b) { return a == b; } static int kind() { return BOOL; } };
template <> struct K<double> { static void make(double& x, int) { static const double F[] = { 0.5, -7, 1e300 }; x = F[pick(3, "e")]; } static bool is(const jv& v, double x) { return v.is_floating() && v.data().floating == x; } static bool eq(double a, double b) { return a == b; } static int kind() { return FLT; } };
template <> struct K<std::string> {
  static void make(std::string& x, int d) { x.clear(); if (PLAIN >= 0) { x = std::string(1, (char)('p' + plain())); return; } if (SMALL) { static const char* S[] = { "", "a", "b", "a key longer than the small string buffer" }; x = S[d > 1 ? 3 - choose(2, "s") : choose(4, "s")]; return; } x.push_back((char)sym(8, "s")); if (d == 2) x += "a tail longer than the small string buffer"; }
  static bool is(const jv& v, const std::string& x) { return v.is_string() && bytes_eq(*v.data().string, x); } static bool eq(const std::string& a, const std::string& b) { return bytes_eq(a, b); } static int kind() { return STR; } };
template <> struct K<jv> { static void make(jv& x, int) { unsigned k = pick(3, "v"); if (k == 0) x = nullptr; else if (k == 1) x = PLAIN >= 0 ? 3 : (int64_t)sym(64, "e"); else if (PLAIN >= 0) x = "plain"; else x = O("k", A(std::string(1, (char)sym(8, "s")))); } static bool is(const jv& v, const jv& x) { return same_tree(v, x); } static bool eq(const jv& a, const jv& b) { return same_tree(a, b); } static int kind() { return ANY; } };
static unsigned size_of(int d) { return d <= 0 ? (unsigned)N : d == 1 ? pick(3, "size") : pick(2, "size"); }
template <class C> static bool seq_is(const jv& v, const C& c) { if (!v.is_array()) return false; bool r = true; size_t i = 0; for (const auto& x : c) { if (i >= v.data().vector->size()) return false; r = r & K<typename std::decay<decltype(x)>::type>::is((*v.data().vector)[i], x); i++; } return r & (i == v.data().vector->size()); }
template <class C> static bool seq_eq(const C& a, const C& b) { auto i = a.begin(); auto j = b.begin(); bool r = true; for (; i != a.end() && j != b.end(); ++i, ++j) r = r & K<typename std::decay<decltype(*i)>::type>::eq(*i, *j); return r & (i == a.end()) & (j == b.end()); }
template <class C, class E> struct KSeq { static bool is(const jv& v, const C& c) { return seq_is(v, c); } static bool eq(const C& a, const C& b) { return seq_eq(a, b); } static int kind() { return ARR; } };
template <class E> struct K<std::vector<E>> : KSeq<std::vector<E>, E> { static void make(std::vector<E>& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.push_back(std::move(e)); } } };
template <> struct K<std::vector<bool>> { typedef std::vector<bool> C; static void make(C& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) c.push_back(pick(2, "e") == 1); } static bool is(const jv& v, const C& c) { if (!v.is_array() || v.data().vector->size() != c.size()) return false; for (size_t i = 0; i < c.size(); i++) if (!K<bool>::is((*v.data().vector)[i], c[i])) return false; return true; } static bool eq(const C& a, const C& b) { return a == b; } static int kind() { return ARR; } };
template <class E> struct K<std::deque<E>> : KSeq<std::deque<E>, E> { static void make(std::deque<E>& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.push_back(std::move(e)); } } };
template <class E> struct K<std::list<E>> : KSeq<std::list<E>, E> { static void make(std::list<E>& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.push_back(std::move(e)); } } };
template <class E> struct K<std::forward_list<E>> : KSeq<std::forward_list<E>, E> { static void make(std::forward_list<E>& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.push_front(std::move(e)); } } };
template <class E> struct K<std::set<E>> : KSeq<std::set<E>, E> { static void make(std::set<E>& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.insert(std::move(e)); } } };
template <class E> struct K<std::unordered_set<E>> { typedef std::unordered_set<E> C; static void make(C& c, int d) { c.clear(); unsigned n = size_of(d); bool s = SMALL; SMALL = true; for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, d + 1); c.insert(std::move(e)); } SMALL = s; } static bool is(const jv& v, const C& c) { return seq_is(v, c); } static bool eq(const C& a, const C& b) { return a == b; } static int kind() { return ARR; } };
template <class E, size_t M> struct K<std::array<E, M>> : KSeq<std::array<E, M>, E> { static void make(std::array<E, M>& c, int d) { for (auto& e : c) K<E>::make(e, d + 1); } };
template <class C, class E> struct KMap {
  static bool is(const jv& v, const C& c) { if (!v.is_object() || v.data().object->size() != c.size()) return false; bool r = true; for (const auto& p : c) { auto f = v.data().object->find(p.first); if (f == v.data().object->end()) return false; r = r & K<E>::is(f->second, p.second); } return r; }
  static bool eq(const C& a, const C& b) { if (a.size() != b.size()) return false; bool r = true; for (const auto& p : a) { auto f = b.find(p.first); if (f == b.end()) return false; r = r & K<E>::eq(p.second, f->second); } return r; } static int kind() { return OBJ; }
  static void fill(C& c, int d) { c.clear(); unsigned n = size_of(d); for (unsigned i = 0; i < n; i++) { std::string k; K<std::string>::make(k, d + 1); E e; bool s = SMALL; SMALL = false; K<E>::make(e, d + 1); SMALL = s; c[k] = std::move(e); } } };
template <class E> struct K<std::map<std::string, E>> : KMap<std::map<std::string, E>, E> { static void make(std::map<std::string, E>& c, int d) { KMap<std::map<std::string, E>, E>::fill(c, d); } };
template <class E> struct K<std::unordered_map<std::string, E>> : KMap<std::unordered_map<std::string, E>, E> { static void make(std::unordered_map<std::string, E>& c, int d) { bool s = SMALL; SMALL = true; KMap<std::unordered_map<std::string, E>, E>::fill(c, d); SMALL = s; } };
template <class P, class E> struct KPtr { static void make(P& p, int d) { p.reset(); bool some = d <= 0 ? N > 0 : pick(2, "null") == 0; if (some) { p.reset(new E()); K<E>::make(*p, d + 1); } } static bool is(const jv& v, const P& p) { return p ? K<E>::is(v, *p) : v.is_null(); } static bool eq(const P& a, const P& b) { return !a == !b && (!a || K<E>::eq(*a, *b)); } static int kind() { return K<E>::kind(); } };
template <class E> struct K<std::unique_ptr<E>> : KPtr<std::unique_ptr<E>, E> {};
template <class E> struct K<std::shared_ptr<E>> : KPtr<std::shared_ptr<E>, E> {};
template <class E, size_t M> struct K<E[M]> { static bool eq(const E (&a)[M], const E (&b)[M]) { bool r = true; for (size_t i = 0; i < M; i++) r = r & K<E>::eq(a[i], b[i]); return r; } };

template <class F> static int outcome(F f) { try { f(); } catch (const configor_exception&) { return 1; } catch (const std::exception&) { return 2; } return 0; }
static jv of_kind(int k) { switch (k) { case BOOL: return jv(true); case INT: return jv(5); case FLT: return jv(1.5); case STR: return jv("text"); case ARR: return A(1, "x"); default: return O("k", 1, "l", "x"); } }
// to a value in every way
template <class C> static void to_ways(jv& v, const C& c, unsigned way) {
  switch (way) { case 0: { jv t(c); v.swap(t); break; } case 1: v = c; break; case 2: v = A(1, 2, 3); v = c; break; case 3: v = O("a", 1); to_value(v, c); break; case 4: { jv a = A(0, 0); a[1] = c; v = a[1]; break; } default: { jv o; o["k"] = c; v = o["k"]; break; } }
}
template <class C> static void run(bool strict) {
  C c; K<C>::make(c, 0); jv v; unsigned way = choose(6, "way"); to_ways(v, c, way); CHECK(K<C>::is(v, c), "C23 a container gives another value");
  if (way < 2) { C r = v.get<C>(); CHECK(K<C>::eq(r, c), "C23 converting back gives another container"); } else if (way == 2) { C r = v; CHECK(K<C>::eq(r, c), "C23 converting back gives another container"); }
  else { int n = N; C r; N = way == 3 ? 1 : 3; PLAIN = 0; K<C>::make(r, 0); N = n; PLAIN = -1; if (way == 3) CHECK(v.get(r), "C23 get fails"); else if (way == 4) from_value((const jv&)v, r); else v.get_to(r); CHECK(K<C>::eq(r, c), "C23 converting into a non-empty container does not replace its contents"); }
  if (strict && (v.is_array() || v.is_object()) && v.size()) { unsigned k = choose(6, "ekind"); jv w = v; size_t at = choose((unsigned)w.size(), "at"); jv::iterator it = w.begin(); while (at--) ++it; if ((int)k != (it->is_bool() ? BOOL : it->is_integer() ? INT : it->is_floating() ? FLT : it->is_string() ? STR : it->is_array() ? ARR : it->is_object() ? OBJ : -1) && !it->is_null()) { *it = of_kind((int)k); CHECK(outcome([&] { (void)w.get<C>(); }) == 1, "C23 an element of the wrong kind is not rejected"); } }
  __sx_cover("container");
}
template <class C> static void wrong() { int k = (int)choose(6, "kind"), own = K<C>::kind(); if (own == ANY || k == own) return; jv v = of_kind(k); C c; CHECK(outcome([&] { (void)v.get<C>(); }) == 1, "C23 a value of the wrong kind is not rejected"); CHECK(!v.get(c), "C23 a value of the wrong kind is not rejected"); CHECK(outcome([&] { from_value((const jv&)v, c); }) == 1, "C23 a value of the wrong kind is not rejected"); __sx_cover("wrong kind"); }
// null: an empty container, or an empty pointer
template <class C> static auto none(const C& c, int) -> decltype(c.begin() == c.end()) { return c.begin() == c.end(); }
template <class P> static bool none(const P& p, long) { return !p; }
template <class C> static void from_null() {
  unsigned way = choose(5, "way"); C r; N = 2; PLAIN = 0; K<C>::make(r, 0); PLAIN = -1; CHECK(!none(r, 0), "harness"); const jv v; jv a = A(1, nullptr);
  int o = outcome([&] { switch (way) { case 0: r = v.get<C>(); break; case 1: v.get_to(r); break; case 2: if (!v.get(r)) throw configor_exception("get"); break; case 3: from_value(v, r); break; default: a[1].get_to(r); } });
  CHECK(o == 0, "C23 null is not accepted for a container"); CHECK(none(r, 0), "C23 null does not give an empty container"); __sx_cover("null");
}
// an array of another length: the front is filled, the rest stays as it was (value-initialised in a new std::array), whatever was converted before
template <class E, size_t M> static void other_length() {
  std::vector<E> c; unsigned n = choose((unsigned)M + 3, "n"), way = choose(5, "way"); for (unsigned i = 0; i < n; i++) { E e; K<E>::make(e, 1); c.push_back(e); } jv v = c, full; { std::array<E, M> f; PLAIN = 1; K<std::array<E, M>>::make(f, 0); full = f; std::array<E, M> g = full.get<std::array<E, M>>(); CHECK((K<std::array<E, M>>::eq(f, g)), "C23 converting back gives another container"); PLAIN = -1; }
  std::array<E, M> r, old; PLAIN = 7; K<std::array<E, M>>::make(r, 0); PLAIN = -1; old = r; bool fresh = way < 2; E q[M]; if (way == 4) { for (size_t i = 0; i < M; i++) q[i] = old[i]; }
  if (way == 0) r = v.get<std::array<E, M>>(); else if (way == 1) { std::array<E, M> t = v; r = t; } else if (way == 2) CHECK(v.get(r), "C23 get fails"); else if (way == 3) v.get_to(r); else { v.get_to(q); for (size_t i = 0; i < M; i++) r[i] = q[i]; }
  for (size_t i = 0; i < M; i++) CHECK(K<E>::eq(r[i], i < n ? c[i] : fresh ? E() : old[i]), "C23 an array of another length gives other elements"); __sx_cover("other length");
}
template <class E, size_t M> static void carray() {
  E c[M]; for (auto& e : c) K<E>::make(e, 1); unsigned way = choose(3, "way"); jv v; if (way == 0) { jv t(c); v.swap(t); } else if (way == 1) { v = O("a", 1); to_value(v, c); } else { v = A(1, 2, 3, 4); v = c; }
  CHECK(v.is_array() && v.data().vector->size() == M, "C23 a C array gives another value"); for (size_t i = 0; i < M; i++) CHECK(K<E>::is((*v.data().vector)[i], c[i]), "C23 a C array gives another value"); E r[M]; for (auto& e : r) e = E(); if (way == 0) { CHECK(v.get(r), "C23 get fails"); } else if (way == 1) from_value((const jv&)v, r); else v.get_to(r); CHECK((K<E[M]>::eq(r, c)), "C23 converting back gives another C array");
  int k = (int)choose(6, "kind"); if (k != ARR) { jv w = of_kind(k); CHECK(!w.get(r) && outcome([&] { from_value((const jv&)w, r); }) == 1, "C23 a value of the wrong kind is not rejected"); } __sx_cover("C array");
}
typedef std::string S;
#define TYPES(X) \
  X(0, std::vector<int>) X(1, std::vector<S>) X(2, std::vector<std::vector<int64_t>>) X(3, std::vector<jv>) X(4, std::vector<bool>) X(5, std::deque<int64_t>) X(6, std::deque<S>) X(7, std::list<short>) X(8, std::list<std::list<S>>) X(9, std::forward_list<int>) X(10, std::forward_list<S>) \
  X(11, std::set<int>) X(12, std::set<S>) X(13, std::unordered_set<int>) X(14, std::unordered_set<S>) X(15, std::unique_ptr<int>) X(16, std::unique_ptr<std::vector<S>>) X(17, std::shared_ptr<S>) X(18, std::shared_ptr<std::map<S, int>>) X(19, std::vector<std::shared_ptr<int>>) X(20, std::vector<std::unique_ptr<S>>) \
  X(21, std::vector<double>) X(22, std::vector<unsigned char>) X(23, std::list<bool>) X(24, std::deque<std::forward_list<int>>) X(25, std::vector<std::set<int>>) X(26, std::vector<std::array<int COMMA 2>>)
#define MAPS(X) \
  X(0, std::map<S COMMA int>) X(1, std::map<S COMMA S>) X(2, std::map<S COMMA std::vector<int>>) X(3, std::unordered_map<S COMMA int>) X(4, std::unordered_map<S COMMA std::list<S>>) X(5, std::map<S COMMA std::map<S COMMA bool>>) X(6, std::map<S COMMA std::shared_ptr<int>>) X(7, std::map<S COMMA jv>) X(8, std::unordered_map<S COMMA std::unordered_map<S COMMA int>>) X(9, std::map<S COMMA std::array<S COMMA 2>>)
#define COMMA ,
#define RUN(i, ...) case i: run<__VA_ARGS__>(strict); break;
#define NUL(i, ...) case i: from_null<__VA_ARGS__>(); break;
#define WRONG(i, ...) case i: wrong<__VA_ARGS__>(); break;
