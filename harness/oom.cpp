// C25: one failing allocation, at any place, in every operation.
#include "gen.h"
#include <vector>
#include <map>
#include <list>
#include <set>
#include <memory>
#include <functional>
template <class X, class Y> static jv A2(const X& x, const Y& y) { jv a = value_constant::array; a.push_back(x); a.push_back(y); return a; }
static jv shape(unsigned s) {
  std::string lng("a string that is longer than the small buffer");
  switch (s) { case 0: return jv(); case 1: return jv(5); case 2: return jv(lng); case 3: return A(1, lng, A("x", 2)); case 4: return O("a", 1, "key that is longer than the small buffer", A(lng, 1.5)); case 5: return A(O("b", A(lng))); case 6: return A(); case 7: return O("a", O("a", O())); case 9: { jv a = value_constant::array; for (int i = 0; i < 20; i++) a.push_back(i % 3 ? jv(lng + (char)(97 + i)) : A(i)); return a; } case 10: { jv o = value_constant::object; for (int i = 0; i < 12; i++) o[lng + (char)(97 + i * 5 % 12)] = i % 2 ? jv(i) : A("x", lng); return o; } default: return A(true, nullptr, "s", O("k", lng, "l", A())); }
}
// anything that can be asked of a value
static size_t inspect(const jv& v, int d = 0) {
  size_t n = 1; if (d > 8) return n; switch (v.type()) {
    case value_constant::string: n += v.data().string->size(); CHECK(v.get_ptr<const std::string*>() != nullptr, "C25 a value that cannot be inspected"); break;
    case value_constant::array: for (auto it = v.begin(); it != v.end(); ++it) n += inspect(*it, d + 1); CHECK(v.data().vector->size() == v.size(), "C25 a value that cannot be inspected"); break;
    case value_constant::object: for (auto it = v.begin(); it != v.end(); ++it) n += it.key().size() + inspect(it.value(), d + 1); CHECK(v.data().object->size() == v.size(), "C25 a value that cannot be inspected"); break;
    case value_constant::null: case value_constant::boolean: case value_constant::integer: case value_constant::floating: break; default: CHECK(false, "C25 a value of no kind"); }
  return n;
}
enum { NONE, BAD_ALLOC, CONFIGOR, OTHER };
template <class F> static int fail_somewhere(F f, uint64_t* failed) {   // runs f with one symbolic allocation failing (or none)
  uint64_t k = sym(8, "fail"); rt_fail_alloc_at(k); int r = NONE;
  try { f(); } catch (const std::bad_alloc&) { r = BAD_ALLOC; } catch (const configor_exception&) { r = CONFIGOR; } catch (...) { r = OTHER; }
  *failed = rt_alloc_failed(); rt_fail_alloc_at(~0ull); return r;
}
static void surfaced(int r, uint64_t failed) { if (failed) { CHECK(r == BAD_ALLOC, "C25 a failing allocation does not surface as bad_alloc"); __sx_cover("failed"); } else { CHECK(r == NONE, "C25 an error although no allocation failed"); __sx_cover("succeeded"); } }
struct Bound { int64_t n; std::string s; std::vector<std::string> l; Bound() : n(0) {} bool operator!=(const Bound& o) const { return n != o.n || s != o.s || l != o.l; } CONFIGOR_BIND(json::value, Bound, REQUIRED(n), REQUIRED(s, "a key longer than the small buffer"), OPTIONAL(l)) };
struct Nested { Bound b; std::map<std::string, Bound> m; std::shared_ptr<Bound> p; CONFIGOR_BIND(json::value, Nested, REQUIRED(b), REQUIRED(m), OPTIONAL(p)) };

SX_ENTRY(oom_value) {   // operation, shape of a, shape of b
  uint64_t live = rt_news(); {
    int op = __sx_param(0); jv a = shape((unsigned)__sx_param(1)), b = shape((unsigned)__sx_param(2)); const jv a0 = a, b0 = b; uint64_t failed; int r; std::string lng("another string that is longer than the small buffer"); size_t n = a.size(); bool may_change = false;
    switch (op) {
      case 0: { r = fail_somewhere([&] { jv c(a); inspect(c); }, &failed); break; }
      case 1: { r = fail_somewhere([&] { a = b; }, &failed); if (failed) CHECK(same_tree(a, a0), "C25 a failed assignment changed its target"); else CHECK(same_tree(a, b), "C25 assignment"); may_change = true; break; }
      case 2: { r = fail_somewhere([&] { jv c(std::move(a)); a = std::move(b); b = std::move(c); a.swap(b); }, &failed); CHECK(!failed && rt_alloc_count() == 0, "C25 moving allocates"); CHECK(same_tree(a, a0) && same_tree(b, b0), "C25 moving changed the values"); break; }
      case 3: { may_change = true; if (!a.is_array() && !a.is_null()) return; r = fail_somewhere([&] { a.push_back(b); }, &failed); if (failed) { CHECK(a.size() <= n, "C25 a failed push_back changed the size"); for (size_t i = 0; i < n; i++) CHECK(same_tree(a[i], a0[i]), "C25 a failed push_back changed an element"); } break; }
      case 4: { may_change = true; if (!a.is_array() && !a.is_null()) return; r = fail_somewhere([&] { a[n + 2] = b; }, &failed); for (size_t i = 0; i < n; i++) CHECK(same_tree(a[i], a0[i]), "C25 a failed index changed an element"); break; }
      case 5: { may_change = true; if (!a.is_object() && !a.is_null()) return; r = fail_somewhere([&] { a["a new key that is longer than the small buffer"] = b; }, &failed); if (a0.is_object()) for (auto& p : *a0.data().object) CHECK(a.data().object->count(p.first) && same_tree(a.data().object->find(p.first)->second, p.second), "C25 a failed insertion changed a member"); break; }
      case 6: { may_change = true; r = fail_somewhere([&] { a = lng; }, &failed); if (failed) CHECK(same_tree(a, a0), "C25 a failed assignment changed its target"); break; }
      case 7: { may_change = true; r = fail_somewhere([&] { a = "a literal that is longer than the small buffer"; }, &failed); if (failed) CHECK(same_tree(a, a0), "C25 a failed assignment changed its target"); break; }
      case 8: { r = fail_somewhere([&] { jv d = json::array({ a, b, "x" }); jv e = json::object({ { "k", a }, { lng, b } }); inspect(d); inspect(e); }, &failed); break; }
      case 9: { may_change = true; if (!a.is_array()) return; r = fail_somewhere([&] { a.emplace_back(lng); a.emplace_back(value_constant::object); a.emplace_back(b); }, &failed); for (size_t i = 0; i < n; i++) CHECK(same_tree(a[i], a0[i]), "C25 a failed emplace_back changed an element"); break; }
      case 10: { r = fail_somewhere([&] { jv c(value_constant::object), d(value_constant::array), e(value_constant::string), f(value_constant::integer); inspect(c); inspect(d); inspect(e); jv g = value_constant::object; g = value_constant::array; g = value_constant::string; }, &failed); break; }
      case 11: { if (n == 0 || !(a.is_array() || a.is_object())) return; may_change = true; r = fail_somewhere([&] { const jv& c = *a.begin(); a = c; }, &failed); if (failed) CHECK(same_tree(a, a0), "C25 a failed assignment changed its target"); break; }
      case 12: { may_change = true; if (n == 0 || !(a.is_array() || a.is_object())) return; r = fail_somewhere([&] { *a.begin() = b; }, &failed); if (failed) CHECK(same_tree(a, a0), "C25 a failed assignment changed its target"); break; }
      case 13: { may_change = true; r = fail_somewhere([&] { jv c = A2(a, b); a = c; b = c[0]; }, &failed); break; }
      case 14: { may_change = true; if (!a.is_object()) return; r = fail_somewhere([&] { for (auto& p : *a.data().object) p.second = b; a.erase("a"); a["a"] = lng; }, &failed); break; }
      case 15: { std::vector<jv> keep; r = fail_somewhere([&] { for (int i = 0; i < 3; i++) keep.push_back(a); keep.insert(keep.begin(), b); }, &failed); for (auto& x : keep) inspect(x); break; }
      default: { r = fail_somewhere([&] { std::string s = a.is_string() ? a.get<std::string>() : std::string(); jv c = a.get<jv>(); const jv& q = a; bool eq = c == q; CHECK(eq, "C25 a copy differs"); }, &failed); break; }
    }
    surfaced(r, failed); inspect(a); inspect(b); if (!may_change) CHECK(same_tree(a, a0) && same_tree(b, b0), "C25 a value changed that was only read");
  }
  CHECK(rt_news() == live, "C25 storage is leaked");
}
// conversions from and to C++ types
template <class F> static void in_and_out(F f) { uint64_t failed; int r = fail_somewhere(f, &failed); surfaced(r, failed); }
SX_ENTRY(oom_convert) {
  uint64_t live = rt_news(); {
    std::string lng("a string that is longer than the small buffer"), lng2 = lng + "!"; uint64_t failed; int r;
    switch (__sx_param(0)) {
      case 0: { std::vector<std::string> c; c.push_back(lng); c.push_back("s"); jv v; r = fail_somewhere([&] { v = c; }, &failed); if (failed) CHECK(v.is_null(), "C25 a failed assignment changed its target"); inspect(v); surfaced(r, failed); break; }
      case 1: { std::map<std::string, std::vector<int>> c; c[lng].push_back(1); c["k"]; jv v = 5; r = fail_somewhere([&] { to_value(v, c); }, &failed); inspect(v); surfaced(r, failed); break; }
      case 2: { jv v = A(lng, lng2, "s"); std::vector<std::string> c(1, lng2); r = fail_somewhere([&] { v.get_to(c); }, &failed); if (!failed) CHECK(c.size() == 3 && c[0] == lng && c[2] == "s", "C25 conversion"); surfaced(r, failed); break; }
      case 3: { jv v = A(lng, lng2); r = fail_somewhere([&] { auto c = v.get<std::list<std::string>>(); auto d = v.get<std::set<std::string>>(); CHECK(c.size() == 2 && d.size() == 2, "C25 conversion"); }, &failed); surfaced(r, failed); break; }
      case 4: { jv v = O(lng, A(lng2), "k", A()); std::map<std::string, std::vector<std::string>> c; r = fail_somewhere([&] { v.get_to(c); }, &failed); if (!failed) CHECK(c.size() == 2 && c[lng][0] == lng2, "C25 conversion"); surfaced(r, failed); break; }
      case 5: { std::shared_ptr<std::string> p = std::make_shared<std::string>(lng); jv v; r = fail_somewhere([&] { v = p; std::unique_ptr<std::string> q; v.get_to(q); CHECK(q && *q == lng, "C25 conversion"); std::shared_ptr<std::string> s = v.get<std::shared_ptr<std::string>>(); CHECK(*s == lng, "C25 conversion"); }, &failed); inspect(v); surfaced(r, failed); break; }
      case 6: { Bound b; b.n = 3; b.s = lng; b.l.push_back(lng2); jv v; r = fail_somewhere([&] { v = b; }, &failed); if (failed) CHECK(v.is_null(), "C25 a failed assignment changed its target"); inspect(v); surfaced(r, failed); break; }
      case 7: { Bound b; b.n = 3; b.s = lng; b.l.push_back(lng2); jv v = b; Bound c; r = fail_somewhere([&] { v.get_to(c); }, &failed); if (!failed) CHECK(!(b != c), "C25 conversion"); surfaced(r, failed); break; }
      case 8: { Nested x; x.b.s = lng; x.m[lng].s = lng2; x.p = std::make_shared<Bound>(); jv v = x; r = fail_somewhere([&] { Nested y = v.get<Nested>(); CHECK(y.m.size() == 1 && y.p, "C25 conversion"); }, &failed); surfaced(r, failed); break; }
      case 9: { jv v = A(lng, lng2); std::vector<std::string> c; bool ok = false; r = fail_somewhere([&] { ok = v.get(c); }, &failed); CHECK(r == NONE && ok == !failed, "C25 get(T&) reports a failing allocation wrongly"); __sx_cover(failed ? "failed" : "succeeded"); break; }
      case 10: { jv v = O("k", A(lng)); jv::array_type a; jv::object_type o; r = fail_somewhere([&] { v["k"].get_to(a); v.get_to(o); jv w = a, x = o; jv y = std::move(a); inspect(w); inspect(x); inspect(y); }, &failed); surfaced(r, failed); break; }
      case 11: { int c[3] = { 1, 2, 3 }; std::array<std::string, 2> d; d[0] = lng; d[1] = "s"; jv v, w; r = fail_somewhere([&] { v = c; w = d; std::array<std::string, 2> e = w.get<std::array<std::string, 2>>(); CHECK(e == d, "C25 conversion"); }, &failed); inspect(v); inspect(w); surfaced(r, failed); break; }
    }
  }
  CHECK(rt_news() == live, "C25 storage is leaked");
}
static const char* DOC[] = { "[1,\"a string that is longer than the small buffer\",[true,null]]", "{\"a key that is longer than the small buffer\":{\"k\":[1.5]},\"k\":[]}", "\"\\u00e9 a string that is longer than the small buffer\"", "[[[[5]]]]", "12", "[1,2,\"unterminated string that is long", "{\"k\":[1,2}", "[1]x", "[{\"a\":\"a string that is longer than the small buffer\"},{\"a\":{\"b\":[]}}]" };
SX_ENTRY(oom_parse) {
  uint64_t live = rt_news(); {
    int k = __sx_param(0), src = __sx_param(1); bool bad = k >= 5 && k <= 7; std::string text(DOC[k]); jv v = shape((unsigned)__sx_param(2)); uint64_t failed; int r;
    if (src == 0) r = fail_somewhere([&] { json::parse(v, text); }, &failed); else if (src == 1) r = fail_somewhere([&] { jv w = json::parse(DOC[k]); inspect(w); }, &failed); else if (src == 2) { std::istringstream is(text); r = fail_somewhere([&] { json::parse(v, is); }, &failed); } else { void* f = rt_file(text.data(), text.size(), 0); r = fail_somewhere([&] { v = json::parse((std::FILE*)f); }, &failed); rt_file_close(f); }
    inspect(v); if (failed) { CHECK(r == BAD_ALLOC || (bad && r == CONFIGOR), "C25 a failing allocation does not surface as bad_alloc"); __sx_cover("parse failed"); } else { CHECK(r == (bad ? CONFIGOR : NONE), "C25 parsing"); __sx_cover("parse succeeded"); }
  }
  CHECK(rt_news() == live, "C25 storage is leaked");
}
SX_ENTRY(oom_dump) {
  uint64_t live = rt_news(); {
    jv v = shape((unsigned)__sx_param(0)); const jv v0 = v; int how = __sx_param(1); uint64_t failed; int r; std::string out("x"), want = json::dump(v);
    if (how == 0) { bool same = false; r = fail_somewhere([&] { std::string s = json::dump(v); same = s == want; }, &failed); CHECK(failed || same, "C25 dump"); }
    else if (how == 1) r = fail_somewhere([&] { json::dump(out, v, { json::serializer::with_indent(3) }); }, &failed);
    else if (how == 2) { r = fail_somewhere([&] { std::string s = json::dump(v, { json::serializer::with_precision(8), json::serializer::with_unicode_escaping(true) }); }, &failed); }
    else { std::wstring ws; r = fail_somewhere([&] { ws = json::dump<wchar_t>(v); }, &failed); }
    surfaced(r, failed); CHECK(same_tree(v, v0), "C25 a value changed that was only read");
  }
  CHECK(rt_news() == live, "C25 storage is leaked");
}
