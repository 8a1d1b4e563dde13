// C24: structs bound with CONFIGOR_BIND.
#include "gen.h"
#include <vector>
#include <map>
#include <memory>
template <class F> static bool fails(F f) { try { f(); } catch (const std::bad_alloc&) { return false; } catch (const std::exception&) { return true; } return false; }

struct In { int64_t n; std::string s; In() : n(0) {} bool operator==(const In& o) const { return n == o.n && bytes_eq(s, o.s); } bool operator!=(const In& o) const { return !(*this == o); } CONFIGOR_BIND(json::value, In, REQUIRED(n), REQUIRED(s)) };
struct One { int x; One() : x(0) {} CONFIGOR_BIND(json::value, One, REQUIRED(x)) };
struct OptOne { int x; OptOne() : x(0) {} CONFIGOR_BIND(json::value, OptOne, OPTIONAL(x, "the x")) };
struct Mix {
  int a; int64_t b; int c; std::string d; bool e; std::string f; std::vector<int> g; double h;
  Mix() : a(0), b(0), c(0), e(false), h(0) {}
  CONFIGOR_BIND(json::value, Mix, REQUIRED(a), REQUIRED(b, "bee"), OPTIONAL(c), REQUIRED(d, "d d"), OPTIONAL(e), OPTIONAL(f, "eff"), OPTIONAL(g, ""), OPTIONAL(h))
};
struct Deep {
  In in; std::vector<In> list; std::map<std::string, In> m; std::shared_ptr<In> p; std::unique_ptr<In> u; In arr[2]; In o; jv raw;
  CONFIGOR_BIND(json::value, Deep, REQUIRED(in), REQUIRED(list), REQUIRED(m, "map"), OPTIONAL(p), OPTIONAL(u), REQUIRED(arr), OPTIONAL(o), OPTIONAL(raw))
};
struct Outer { Deep d; std::vector<One> ones; CONFIGOR_BIND(json::value, Outer, REQUIRED(d), OPTIONAL(ones, "Ones")) bool operator==(const Outer&) const; };
static bool operator!=(const One& a, const One& b) { return a.x != b.x; }
static bool operator==(const One& a, const One& b) { return a.x == b.x; }
typedef wjson::value wv;
struct Wide { int a; std::wstring t; std::wstring u; Wide() : a(0) {} CONFIGOR_BIND(wjson::value, Wide, REQUIRED(a, L"A"), REQUIRED(t, L"text"), OPTIONAL(u, L"u-x")) };
// a type with its own binder used as a field
struct Spec { int v; Spec() : v(0) {} };
namespace configor { template <> class value_binder<Spec> { public: static void to_value(jv& c, const Spec& s) { c = jv(value_constant::array); c.push_back(s.v); } static void from_value(const jv& c, Spec& s) { s.v = c.at(0).get<int>(); } }; }
struct HasSpec { Spec s; int t; HasSpec() : t(0) {} CONFIGOR_BIND(json::value, HasSpec, REQUIRED(s), REQUIRED(t)) };

static std::string sstr(unsigned n) { std::string s; for (unsigned i = 0; i < n; i++) s.push_back((char)sym(8, "ch")); return s; }
static In sym_in(unsigned n) { In i; i.n = (int64_t)sym(64, "n"); i.s = sstr(n); return i; }
static bool has(const jv& v, const char* k) { return v.is_object() && v.data().object->count(k) == 1; }
static const jv& at(const jv& v, const char* k) { return v.data().object->find(k)->second; }
static bool is_int(const jv& v, int64_t x) { return v.is_integer() && v.data().integer == x; }
static bool is_str(const jv& v, const std::string& x) { return v.is_string() && bytes_eq(*v.data().string, x); }
static bool is_in(const jv& v, const In& i) { return v.is_object() && v.data().object->size() == 2 && has(v, "n") && has(v, "s") && is_int(at(v, "n"), i.n) && is_str(at(v, "s"), i.s); }

static Mix sym_mix(unsigned strs) {
  Mix m; m.a = (int)sym(32, "a"); m.b = (int64_t)sym(64, "b"); m.c = (int)sym(32, "c"); m.d = sstr(strs); m.e = sym(1, "e") == 1; m.f = sstr(choose(2, "lenf")); unsigned n = choose(3, "leng"); for (unsigned i = 0; i < n; i++) m.g.push_back((int)sym(32, "g"));
  static const double F[] = { 0.0, 0.5, -3e9, 1.0 }; m.h = F[choose(4, "h")]; return m;
}
static bool mix_eq(const Mix& x, const Mix& y) { return x.a == y.a && x.b == y.b && x.c == y.c && bytes_eq(x.d, y.d) && x.e == y.e && bytes_eq(x.f, y.f) && x.g == y.g && x.h == y.h; }
// stored keys: exactly those required and those optional that differ from their default
SX_ENTRY(bind_mix) {
  Mix m = sym_mix((unsigned)__sx_param(0)); int how = __sx_param(1); jv v;
  if (how == 0) v = jv(m); else if (how == 1) v = m; else if (how == 2) { jv t = A(1, 2); t[0] = m; v = t[0]; } else to_value(v, m);
  size_t want = 3; CHECK(v.is_object(), "C24 a struct does not become an object");
  CHECK(has(v, "a") && is_int(at(v, "a"), m.a), "C24 a required field is not stored under its name"); CHECK(has(v, "bee") && is_int(at(v, "bee"), m.b), "C24 a required field is not stored under its key"); CHECK(has(v, "d d") && is_str(at(v, "d d"), m.d), "C24 a required field is not stored under its key");
  CHECK(has(v, "c") == (m.c != 0), "C24 an optional field is stored wrongly"); if (m.c) { want++; CHECK(is_int(at(v, "c"), m.c), "C24 an optional field has another value"); }
  CHECK(has(v, "e") == m.e, "C24 an optional field is stored wrongly"); if (m.e) { want++; CHECK(at(v, "e").is_bool() && at(v, "e").data().boolean, "C24 an optional field has another value"); }
  CHECK(has(v, "eff") == !m.f.empty(), "C24 an optional field is stored wrongly"); if (!m.f.empty()) { want++; CHECK(is_str(at(v, "eff"), m.f), "C24 an optional field has another value"); }
  CHECK(has(v, "") == !m.g.empty(), "C24 an optional field is stored wrongly"); if (!m.g.empty()) { want++; const jv& g = at(v, ""); CHECK(g.is_array() && g.data().vector->size() == m.g.size(), "C24 an optional field has another value"); for (size_t i = 0; i < m.g.size(); i++) CHECK(is_int((*g.data().vector)[i], m.g[i]), "C24 an optional field has another value"); }
  CHECK(has(v, "h") == (m.h != 0), "C24 an optional field is stored wrongly"); if (m.h != 0) { want++; CHECK(at(v, "h").is_floating() && at(v, "h").data().floating == m.h, "C24 an optional field has another value"); }
  CHECK(v.data().object->size() == want, "C24 a key that is not bound is stored");
  Mix r; if (how == 0) r = v.get<Mix>(); else if (how == 1) r = (Mix)v; else if (how == 2) { CHECK(v.get(r), "C24 get fails"); } else from_value(v, r);
  CHECK(mix_eq(r, m), "C24 converting back gives another struct"); __sx_cover("round trip");
}
// every subset of the keys, contents untouched where an optional key is missing, foreign keys ignored
SX_ENTRY(bind_subset) {
  int wrong = __sx_param(0); Mix t; t.a = (int)sym(32, "ta"); t.b = (int64_t)sym(64, "tb"); t.c = (int)sym(32, "tc"); t.d = sstr(1); t.e = sym(1, "te") == 1; t.f = "target"; t.g.push_back(7); t.h = 2.5; Mix m = t; jv v = value_constant::object; bool missing = false;
  int a = (int)sym(32, "a"); int64_t b = (int64_t)sym(64, "b"); int c = (int)sym(32, "c"); std::string d = sstr(1); bool e = sym(1, "e") == 1; std::string f = sstr(1); int g = (int)sym(32, "g");
  if (choose(2, "a?")) { v["a"] = a; m.a = a; } else missing = true;
  if (choose(2, "b?")) { v["bee"] = b; m.b = b; } else missing = true;
  if (choose(2, "c?")) { v["c"] = c; m.c = c; }
  if (choose(2, "d?")) { v["d d"] = d; m.d = d; } else missing = true;
  if (choose(2, "e?")) { v["e"] = e; m.e = e; }
  if (choose(2, "f?")) { v["eff"] = f; m.f = f; }
  if (choose(2, "g?")) { v[""] = A(g); m.g.clear(); m.g.push_back(g); }
  if (choose(2, "h?")) { v["h"] = 0.25; m.h = 0.25; }
  if (wrong == 1) { v["b"] = "foreign"; v["aa"] = nullptr; v["f"] = A(1); v["d"] = 3; v["E"] = 4; }
  if (wrong == 2 && v.empty()) v = nullptr;
  Mix r = t; bool bad = fails([&] { from_value((const jv&)v, r); }); CHECK(bad == missing, missing ? "C24 a missing required key is not an error" : "C24 an error although no required key is missing"); if (!bad) CHECK(mix_eq(r, m), "C24 converting gives another struct");
  Mix q = t; bool ok = v.get(q); CHECK(ok == !missing, "C24 get reports a missing required key wrongly"); if (ok) CHECK(mix_eq(q, m), "C24 converting gives another struct");
  CHECK(fails([&] { (void)v.get<Mix>(); }) == missing, "C24 a missing required key is not an error"); __sx_cover(missing ? "missing" : "complete");
}
// a value of the wrong kind under a bound key
static jv of_kind(unsigned k) { switch (k) { case 0: return jv(true); case 1: return jv(5); case 2: return jv(1.5); case 3: return jv("text"); case 4: return A(1); case 6: return nullptr; default: return O("k", 1); } }
SX_ENTRY(bind_kind) {
  static const char* K[] = { "a", "bee", "d d", "c", "e", "eff", "", "h" }; static const unsigned good[] = { 1, 1, 3, 1, 0, 3, 4, 2 };
  Mix m; jv v = m; v["a"] = 1; unsigned f = choose(8, "field"), k = choose(7, "kind"); v[K[f]] = of_kind(k); CHECK(fails([&] { (void)v.get<Mix>(); }) == (k != good[f] && !(k == 6 && good[f] == 4)), "C24 a value of the wrong kind under a bound key is not an error");
  CHECK(fails([&] { jv x = of_kind(k); (void)x.get<Mix>(); }), "C24 a value that has none of the required keys is not an error"); __sx_cover("kinds");
}
// nested structs, containers of structs, pointers, C arrays
static void fill_deep(Deep& x, unsigned n) {
  x.in = sym_in(n); unsigned l = choose(3, "list"); for (unsigned i = 0; i < l; i++) x.list.push_back(sym_in(1)); if (choose(2, "map?")) { std::string k(1, (char)sym(8, "key")); x.m[k] = sym_in(0); }
  if (choose(2, "p?")) x.p = std::make_shared<In>(sym_in(1)); if (choose(2, "u?")) x.u.reset(new In(sym_in(0))); x.arr[0] = sym_in(0); x.arr[1] = sym_in(1); x.o = sym_in(choose(2, "o")); unsigned r = choose(3, "raw"); if (r == 1) x.raw = (int64_t)sym(64, "r"); if (r == 2) x.raw = A(1, "x");
}
static bool deep_eq(const Deep& x, const Deep& y) {
  if (!(x.in == y.in) || x.list.size() != y.list.size() || x.m.size() != y.m.size() || !x.p != !y.p || !x.u != !y.u) return false; for (size_t i = 0; i < x.list.size(); i++) if (!(x.list[i] == y.list[i])) return false; auto j = y.m.begin(); for (auto& p : x.m) { if (!bytes_eq(p.first, j->first) || !(p.second == j->second)) return false; ++j; }
  return (!x.p || *x.p == *y.p) && (!x.u || *x.u == *y.u) && x.arr[0] == y.arr[0] && x.arr[1] == y.arr[1] && x.o == y.o && same_tree(x.raw, y.raw);
}
SX_ENTRY(bind_deep) {
  Deep x; fill_deep(x, (unsigned)__sx_param(0)); jv v = x; bool o = x.o != In(); size_t want = 4 + (x.p ? 1 : 0) + (x.u ? 1 : 0) + (o ? 1 : 0) + (x.raw.is_null() ? 0 : 1);
  CHECK(v.is_object() && has(v, "in") && is_in(at(v, "in"), x.in), "C24 a nested struct is stored wrongly"); CHECK(has(v, "list") && at(v, "list").is_array() && at(v, "list").data().vector->size() == x.list.size(), "C24 a list of structs is stored wrongly"); for (size_t i = 0; i < x.list.size(); i++) CHECK(is_in((*at(v, "list").data().vector)[i], x.list[i]), "C24 a list of structs is stored wrongly");
  CHECK(has(v, "map") && at(v, "map").is_object() && at(v, "map").data().object->size() == x.m.size(), "C24 a map of structs is stored wrongly"); for (auto& p : x.m) CHECK(at(v, "map").data().object->count(p.first) && is_in(at(v, "map").data().object->find(p.first)->second, p.second), "C24 a map of structs is stored wrongly");
  CHECK(has(v, "p") == !!x.p && has(v, "u") == !!x.u && has(v, "o") == o && has(v, "raw") == !x.raw.is_null(), "C24 an optional field is stored wrongly"); if (x.p) CHECK(is_in(at(v, "p"), *x.p), "C24 a pointer field is stored wrongly"); if (x.u) CHECK(is_in(at(v, "u"), *x.u), "C24 a pointer field is stored wrongly"); if (o) CHECK(is_in(at(v, "o"), x.o), "C24 an optional struct is stored wrongly");
  CHECK(has(v, "arr") && at(v, "arr").is_array() && at(v, "arr").data().vector->size() == 2 && is_in((*at(v, "arr").data().vector)[0], x.arr[0]) && is_in((*at(v, "arr").data().vector)[1], x.arr[1]), "C24 an array of structs is stored wrongly"); CHECK(v.data().object->size() == want, "C24 a key that is not bound is stored");
  Deep r; from_value((const jv&)v, r); CHECK(deep_eq(r, x), "C24 converting back gives another struct"); __sx_cover("deep");
}
// a required key missing, or a wrong kind, anywhere below
SX_ENTRY(bind_deep_missing) {
  Deep x; x.list.resize(2); x.m["k"]; x.p = std::make_shared<In>(); x.u.reset(new In()); x.o.n = 1; x.in.n = (int64_t)sym(64, "n"); Outer w; jv v = x; unsigned lvl = choose(2, "outer"); unsigned where = choose(8, "where"), what = choose(4, "what");
  jv* t; switch (where) { case 0: t = &v["in"]; break; case 1: t = &v["list"][0]; break; case 2: t = &v["list"][1]; break; case 3: t = &v["map"]["k"]; break; case 4: t = &v["p"]; break; case 5: t = &v["u"]; break; case 6: t = &v["arr"][1]; break; default: t = &v["o"]; break; }
  if (what == 0) t->erase("n"); else if (what == 1) t->erase("s"); else if (what == 2) (*t)["s"] = 5; else (*t)["unbound"] = 1;
  Deep r; bool bad; if (lvl) { jv ov = O("d", v); Outer q; bad = fails([&] { from_value((const jv&)ov, q); }); } else bad = fails([&] { from_value((const jv&)v, r); });
  CHECK(bad == (what != 3), what == 3 ? "C24 an unbound key is not ignored" : "C24 a required key missing in a nested struct is not an error"); __sx_cover("deep missing");
}
// through text
SX_ENTRY(bind_text) {
  int k = __sx_param(0); int way = __sx_param(1);
  if (k == 0) { Mix m; m.a = (int)(int8_t)sym(8, "a"); m.b = (int64_t)(int8_t)sym(8, "b") + 1000000; m.c = (int)sym(1, "c"); m.d = std::string(1, (char)sym_lt(8, 128, "ch")); m.e = sym(1, "e") == 1; if (choose(2, "g?")) { m.g.push_back(1); m.g.push_back(-2); m.f = "f"; } m.h = m.g.empty() ? 0 : 0.5; Mix r;
    if (way == 0) { std::string s = json::dump(m); r = json::parse(s); } else if (way == 1) { std::string s; json::dump(s, m, { json::serializer::with_indent(2) }); jv q; json::parse(q, s); CHECK(q.get(r), "C24 get fails"); } else { std::ostringstream os; os << json::wrap(m); std::istringstream is(os.str()); is >> json::wrap(r); }
    CHECK(mix_eq(r, m), "C24 a struct does not survive its text"); }
  else { Outer w; w.d.in.n = 5; unsigned f = choose(3, "which"); if (f == 0) w.d.in.n = (int64_t)(int8_t)sym(8, "n"); if (f == 1) w.d.in.s = std::string(1, (char)sym_lt(8, 128, "ch")); w.d.list.resize(1); w.d.m["z"].n = f == 2 ? (int64_t)(int8_t)sym(8, "z") : 3; if (choose(2, "p?")) w.d.p = std::make_shared<In>(w.d.in); if (choose(2, "ones?")) { w.ones.resize(2); w.ones[1].x = -4; } Outer r;
    if (way == 0) { std::string s = json::dump(w); json::parse(s).get(r); } else if (way == 1) { jv v = w; std::string s = json::dump(v); jv q = json::parse(s); from_value((const jv&)q, r); } else { std::ostringstream os; os << json::wrap(w); std::istringstream is(os.str()); is >> json::wrap(r); }
    CHECK(deep_eq(r.d, w.d) && r.ones == w.ones, "C24 a struct does not survive its text"); }
  __sx_cover("text");
}
SX_ENTRY(bind_wide) {
  Wide w; w.a = (int)sym(32, "a"); unsigned n = (unsigned)__sx_param(0); for (unsigned i = 0; i < n; i++) w.t.push_back((wchar_t)sym(32, "t")); if (choose(2, "u?")) w.u.push_back((wchar_t)sym(32, "u")); unsigned miss = choose(4, "miss");
  wv v = w; auto& o = *v.data().object; CHECK(v.is_object() && o.size() == 2 + (w.u.empty() ? 0 : 1) && o.count(L"A") && o.count(L"text") && o.count(L"u-x") == (w.u.empty() ? 0u : 1u), "C24 wide keys"); CHECK(v[L"A"].is_integer() && v[L"A"].data().integer == w.a && v[L"text"].is_string() && *v[L"text"].data().string == w.t, "C24 a wide struct is stored wrongly");
  if (miss == 1) v.erase(L"A"); else if (miss == 2) v.erase(L"text"); else if (miss == 3) v.erase(L"u-x"); Wide r; bool bad = fails([&] { from_value((const wv&)v, r); }); CHECK(bad == (miss == 1 || miss == 2), "C24 a missing required key is not an error"); if (!bad) CHECK(r.a == w.a && r.t == w.t && (miss == 3 ? r.u.empty() : r.u == w.u), "C24 converting back gives another struct"); __sx_cover("wide");
}
SX_ENTRY(bind_small) {
  One x; x.x = (int)sym(32, "x"); jv v = x; CHECK(v.is_object() && v.data().object->size() == 1 && has(v, "x") && is_int(at(v, "x"), x.x), "C24 a struct with one field"); CHECK(v.get<One>().x == x.x, "C24 converting back gives another struct"); OptOne o; o.x = x.x; jv w = o; CHECK(has(w, "the x") == (o.x != 0), "C24 an optional field is stored wrongly"); OptOne q; q.x = o.x ? 17 : 0; from_value((const jv&)w, q); CHECK(q.x == o.x, "C24 converting back gives another struct"); q.x = 5; from_value((const jv&)v, q); CHECK(q.x == 5, "C24 a missing optional key changes the field");
  HasSpec h; h.s.v = x.x; h.t = (int)sym(32, "t"); jv y = h; CHECK(has(y, "s") && at(y, "s").is_array() && is_int((*at(y, "s").data().vector)[0], x.x) && has(y, "t") && is_int(at(y, "t"), h.t), "C24 a field with its own binder is stored wrongly"); HasSpec g; from_value((const jv&)y, g); CHECK(g.s.v == h.s.v && g.t == h.t, "C24 converting back gives another struct"); y["s"] = value_constant::array; CHECK(fails([&] { from_value((const jv&)y, g); }), "C24 an error of a field's own binder is lost"); __sx_cover("small");
}
