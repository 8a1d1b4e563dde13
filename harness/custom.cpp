// C32: conversions written by the user.
#include "gen.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <vector>
struct Boom { int n; explicit Boom(int k) : n(k) {} };               // no std::exception
struct Crash : std::runtime_error { Crash() : std::runtime_error("crash") {} }; struct Odd {};   // no std::exception
static int stores = 0, reads = 0;
static int need(const jv& v) { if (!v.is_integer()) throw configor_type_error("not mine"); return (int)v.data().integer; }
// found by argument-dependent lookup
namespace user { struct P { int n; P(int k = 0) : n(k) {} bool operator==(const P& o) const { return n == o.n; } };
  inline void to_value(jv& c, const P& p) { stores++; c = jv(value_constant::object); c["x"] = p.n; if (p.n == 13) throw Boom(13); c["y"] = p.n + 1; }
  inline void from_value(const jv& c, P& p) { reads++; int k = need(c.at("x")); if (k == 77) throw Crash(); p.n = k; } }
// own binder, reading into an object
struct Q { int n; Q(int k = 0) : n(k) {} bool operator==(const Q& o) const { return n == o.n; } };
// own binder, reading by returning; nothing to default-construct
struct R { int n; explicit R(int k) : n(k) {} bool operator==(const R& o) const { return n == o.n; } };
namespace configor {
template <> class value_binder<Q> { public: static void to_value(jv& c, const Q& q) { stores++; c = jv(value_constant::array); c.push_back(q.n); if (q.n == 13) throw Boom(13); c.push_back("a string that is longer than the buffer"); } static void from_value(const jv& c, Q& q) { reads++; if (c.size() != 2) throw configor_type_error("not mine"); int k = need(c.at(0)); if (k == 77) throw Odd(); q.n = k; } };
template <> class value_binder<R> { public: static void to_value(jv& c, const R& r) { stores++; if (r.n == 13) throw Boom(13); c = r.n + 1000; } static R from_value(const jv& c) { reads++; int k = need(c) - 1000; if (k == 77) throw Odd(); return R(k); } };
}
typedef user::P P;
static jv image(const P& p) { return O("x", p.n, "y", p.n + 1); }
static jv image(const Q& q) { return A(q.n, "a string that is longer than the buffer"); }
static jv image(const R& r) { return jv(r.n + 1000); }
template <class T> struct Tag {};
struct BP { P f; int t; BP() : t(0) {} CONFIGOR_BIND(json::value, BP, REQUIRED(f, "the key"), REQUIRED(t)) };
struct BQ { Q f; std::vector<Q> l; CONFIGOR_BIND(json::value, BQ, REQUIRED(f), REQUIRED(l)) };
enum { T_NONE, T_BOOM, T_CRASH, T_CONF, T_OTHER };
template <class F> static int outcome(F f) { try { f(); return T_NONE; } catch (const Boom& b) { return b.n == 13 ? T_BOOM : T_OTHER; } catch (const Crash&) { return T_CRASH; } catch (const Odd&) { return T_CRASH; } catch (const configor_exception&) { return T_CONF; } catch (...) { return T_OTHER; } }
// storing: where the type occurs; n elements stored; the expected tree from the elements
template <class T> static void store(int where, int x) {
  const T a(x), b(5); jv want, got = "before"; int n = 1; const jv ia = image(a), ib = image(b); stores = 0;
  int r = outcome([&] {
    switch (where) {
      case 0: { jv v = a; want = ia; got = v; break; }
      case 1: { jv v = A(1, 2); v = a; want = ia; got = std::move(v); break; }
      case 2: { jv v = A(1); v.push_back(a); want = A(1, ia); got = v; break; }
      case 3: { jv v = A(1); v.emplace_back(a); want = A(1, ia); got = v; break; }
      case 4: { jv v; v["k"] = a; want = O("k", ia); got = v; break; }
      case 5: { jv v; v[2] = a; want = A(nullptr, nullptr, ia); got = v; break; }
      case 6: { n = 2; jv v = json::array({ b, 7, a }); want = A(ib, 7, ia); got = v; break; }
      case 7: { n = 2; jv v = json::object({ { "p", a }, { "q", b } }); want = O("p", ia, "q", ib); got = v; break; }
      case 8: { n = 2; jv v = make_array<jv>({ a, b }); want = A(ia, ib); got = v; break; }
      case 9: { n = 2; std::vector<T> l; l.push_back(b); l.push_back(a); jv v = l; want = A(ib, ia); got = v; break; }
      case 10: { n = 3; std::list<T> l; l.push_back(b); l.push_back(a); l.push_back(b); jv v = l; want = A(ib, ia, ib); got = v; break; }
      case 11: { n = 2; std::deque<T> l; l.push_back(a); l.push_back(b); jv v; v = l; want = A(ia, ib); got = v; break; }
      case 12: { n = 2; std::forward_list<T> l; l.push_front(a); l.push_front(b); jv v = l; want = A(ib, ia); got = v; break; }
      case 13: { n = 2; std::map<std::string, T> m; m.insert(std::make_pair(std::string("s"), a)); m.insert(std::make_pair(std::string("r"), b)); jv v = m; want = O("r", ib, "s", ia); got = v; break; }
      case 14: { std::unordered_map<std::string, T> m; m.insert(std::make_pair(std::string("s"), a)); jv v = m; want = O("s", ia); got = v; break; }
      case 15: { std::unique_ptr<T> p(new T(a)); jv v = p; want = ia; got = v; break; }
      case 16: { std::shared_ptr<T> p = std::make_shared<T>(a); jv v = p; want = ia; got = v; break; }
      case 17: { n = 2; std::array<T, 2> l = { { b, a } }; jv v = l; want = A(ib, ia); got = v; break; }
      case 18: { n = 3; std::vector<std::vector<T>> l; l.push_back(std::vector<T>(2, b)); l.push_back(std::vector<T>(1, a)); jv v = l; want = A(A(ib, ib), A(ia)); got = v; break; }
      case 19: { std::map<std::string, std::vector<std::shared_ptr<T>>> m; m["k"].push_back(nullptr); m["k"].push_back(std::make_shared<T>(a)); jv v = m; want = O("k", A(nullptr, ia)); got = v; break; }
      default: { std::ostringstream os; os << json::wrap(a); want = ia; got = json::parse(os.str()); break; }
    }
  });
  __sx_observe("r", (uint64_t)r); if (x == 13) { CHECK(r == T_BOOM, "C32 an exception of the user's conversion does not reach the caller unchanged"); CHECK(got.is_string() && got == "before", "harness"); __sx_cover("store throws"); }
  else { CHECK(r == T_NONE, "C32 storing a user's type failed"); CHECK(same_tree(got, want), "C32 a user's type is not stored as its conversion says"); CHECK(stores == n, "C32 the user's conversion was not called exactly once per object"); __sx_cover("stored"); }
}
template <class T> static bool eq1(const T& a, int n) { return a.n == n; }
template <class T> static void read_common(int where, int x, bool bad) {
  jv ia = image(T(x)), ib = image(T(5)); if (bad) ia = value_constant::null; int n = 1, got = -1, r = 0; bool ok = true, third = where == 2; reads = 0; const jv& c = ia;
  r = outcome([&] {
    switch (where) {
      case 0: got = c.get<T>().n; break;
      case 1: { T t(3); c.get_to(t); got = t.n; break; }
      case 2: { T t(3); ok = c.get(t); got = t.n; break; }
      case 3: { T t = c; got = t.n; break; }
      case 4: { jv v = A(ib, ia); n = 0; T t = v[1]; n = 1; got = t.n; break; }
      case 5: { jv v = O("k", ia); got = v["k"].template get<T>().n; break; }
      case 6: { std::unique_ptr<T> p = c.get<std::unique_ptr<T>>(); got = p ? p->n : -2; break; }
      case 7: { std::shared_ptr<T> p(new T(1)); c.get_to(p); got = p ? p->n : -2; break; }
      default: { for (const auto& e : A(ia, ib)) if (e == ia) { got = e.template get<T>().n; break; } break; }
    }
  });
  if (bad && (where == 6 || where == 7)) { CHECK(r == T_NONE && got == -2 && reads == 0, "C32 null is not an empty pointer"); __sx_cover("read null"); return; }
  if (bad) { if (third) CHECK(r == T_NONE && !ok && got == 3, "C32 a failed try access claims success or changes its target"); else CHECK(r == T_CONF, "C32 an exception of the user's conversion does not reach the caller unchanged"); __sx_cover("read wrong"); return; }
  if (x == 77) { if (third) CHECK(r == T_NONE && !ok, "C32 a try access let an exception out"); else CHECK(r == T_CRASH, "C32 an exception of the user's conversion does not reach the caller unchanged"); __sx_cover("read throws"); return; }
  CHECK(r == T_NONE && ok && got == x, "C32 a user's type is not read as its conversion says"); CHECK(reads == n, "C32 the user's conversion was not called exactly once per object"); __sx_cover("read");
}
template <class T> static void read_cont(int where, int x) {   // x at the second place of three
  jv ia = image(T(x)), ib = image(T(5)), ic = image(T(6)), a = A(ib, ia, ic), o = O("a", ib, "b", ia, "c", ic); int n = 3, r = 0; bool ok = false; reads = 0;
  r = outcome([&] {
    switch (where) {
      case 0: { auto l = a.get<std::vector<T>>(); ok = l.size() == 3 && eq1(l[0], 5) && eq1(l[1], x) && eq1(l[2], 6); break; }
      case 1: { std::list<T> l(7, T(1)); a.get_to(l); auto i = l.begin(); ok = l.size() == 3 && eq1(*i++, 5) && eq1(*i++, x) && eq1(*i, 6); break; }
      case 2: { std::deque<T> l = a; ok = l.size() == 3 && eq1(l[0], 5) && eq1(l[1], x) && eq1(l[2], 6); break; }
      case 3: { auto l = a.get<std::forward_list<T>>(); auto i = l.begin(); ok = eq1(*i++, 5) && eq1(*i++, x) && eq1(*i++, 6) && i == l.end(); break; }
      case 4: { std::map<std::string, T> m; m["z"] = T(9); o.get_to(m); ok = m.size() == 3 && eq1(m["a"], 5) && eq1(m["b"], x) && eq1(m["c"], 6); break; }
      case 5: { auto m = o.get<std::unordered_map<std::string, T>>(); ok = m.size() == 3 && eq1(m["a"], 5) && eq1(m["b"], x) && eq1(m["c"], 6); break; }
      case 6: { auto l = a.get<std::array<T, 3>>(); ok = eq1(l[0], 5) && eq1(l[1], x) && eq1(l[2], 6); break; }
      case 7: { T l[3]; a.get_to(l); ok = eq1(l[0], 5) && eq1(l[1], x) && eq1(l[2], 6); break; }
      case 8: { auto l = a.get<std::vector<std::shared_ptr<T>>>(); ok = l.size() == 3 && eq1(*l[0], 5) && eq1(*l[1], x) && eq1(*l[2], 6); break; }
      case 9: { jv w = A(a, A(), A(ia)); n = 4; auto l = w.get<std::vector<std::vector<T>>>(); ok = l.size() == 3 && l[0].size() == 3 && l[1].empty() && l[2].size() == 1 && eq1(l[0][1], x) && eq1(l[2][0], x) && eq1(l[0][2], 6); break; }
      default: { std::vector<T> l; std::istringstream is(json::dump(a)); is >> json::wrap(l); ok = l.size() == 3 && eq1(l[0], 5) && eq1(l[1], x) && eq1(l[2], 6); break; }
    }
  });
  if (x == 77) { CHECK(r == T_CRASH, "C32 an exception of the user's conversion does not reach the caller unchanged"); __sx_cover("read throws"); } else { CHECK(r == T_NONE && ok, "C32 a user's type is not read as its conversion says"); CHECK(reads == n, "C32 the user's conversion was not called exactly once per object"); __sx_cover("read"); }
}
static int x8() { return (int)(int8_t)sym(8, "x"); }
template <class T> static void store_ptr(int where, int x);
SX_ENTRY(custom_store) { int x = x8(), w = __sx_param(1); switch (__sx_param(0)) { case 0: store<P>(w, x); break; case 1: store<Q>(w, x); break; default: store<R>(w, x); } }
SX_ENTRY(custom_read) { int x = x8(), w = __sx_param(1); bool bad = __sx_param(2); switch (__sx_param(0)) { case 0: read_common<P>(w, x, bad); break; case 1: read_common<Q>(w, x, bad); break; default: read_common<R>(w, x, bad); } }
SX_ENTRY(custom_read_cont) { int x = x8(), w = __sx_param(1); if (__sx_param(0)) read_cont<Q>(w, x); else read_cont<P>(w, x); }
// as fields of a bound struct
SX_ENTRY(custom_bind) {
  int x = x8(); if (__sx_param(0) == 0) { BP b; b.f = P(x); b.t = 4; jv v; int r = outcome([&] { v = b; }); if (x == 13) { CHECK(r == T_BOOM && v.is_null(), "C32 an exception of the user's conversion does not reach the caller unchanged"); return; } CHECK(r == T_NONE && same_tree(v, O("the key", image(P(x)), "t", 4)), "C32 a field of a user's type is not stored as its conversion says"); BP q; r = outcome([&] { v.get_to(q); }); CHECK(x == 77 ? r != T_NONE : r == T_NONE && q.f.n == x && q.t == 4, "C32 a field of a user's type is not read as its conversion says"); }
  else { BQ b; b.f = Q(2); b.l.push_back(Q(x)); b.l.push_back(Q(3)); jv v; int r = outcome([&] { v = b; }); if (x == 13) { CHECK(r == T_BOOM && v.is_null(), "C32 an exception of the user's conversion does not reach the caller unchanged"); return; } CHECK(r == T_NONE && same_tree(v, O("f", image(Q(2)), "l", A(image(Q(x)), image(Q(3))))), "C32 a field of a user's type is not stored as its conversion says"); BQ q; r = outcome([&] { q = v; }); CHECK(x == 77 ? r != T_NONE : r == T_NONE && q.f.n == 2 && q.l.size() == 2 && q.l[0].n == x && q.l[1].n == 3, "C32 a field of a user's type is not read as its conversion says"); }
  __sx_cover("bound");
}
// a failing conversion does not touch the value it was meant for
SX_ENTRY(custom_failed) {
  int x = x8(), w = __sx_param(0); jv v = A(1, O("k", "long enough to be on the heap, surely")); const jv twin = A(1, O("k", "long enough to be on the heap, surely")); Q q(x); P p(x); std::vector<P> l; l.push_back(P(1)); l.push_back(p);
  int r = outcome([&] { if (w == 0) v = q; else if (w == 1) v = p; else if (w == 2) v = l; else if (w == 3) v = json::array({ 1, q }); else v = json::object({ { "k", p } }); }); if (x == 13) CHECK(r == T_BOOM && same_tree(v, twin), "C32 a failing conversion changed the value it was meant for"); else CHECK(r == T_NONE && !same_tree(v, twin), "C32 storing a user's type failed"); __sx_cover("failed");
}
