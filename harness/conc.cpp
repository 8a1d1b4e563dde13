// C28: what may run in several threads at once. rt_parallel(f): everything that exists when it starts may be in use by
// another thread that runs f too; the engine reports a write to any of it (a function-local static under its guard excepted).
#include "gen.h"
#include <sstream>
#include <vector>
#include <map>
#include <list>
#include <set>
#include <memory>
struct Rec { int n; std::string s; std::vector<int> l; Rec() : n(0) {} CONFIGOR_BIND(json::value, Rec, REQUIRED(n), REQUIRED(s), OPTIONAL(l, "list")) };
struct Ctx { int op; const jv* v; const jv* w; const std::string* t; const std::wstring* wt; const Rec* r; int64_t a; };
template <class F> static void quiet(F f) { try { f(); } catch (const std::exception&) {} }
static size_t walk(const jv& v) { size_t n = 1; for (auto it = v.begin(); it != v.end(); ++it) { n += v.is_array() || v.is_object() ? walk(*it) : (size_t)(*it).type(); if (v.is_object()) n += it.key().size(); } for (auto it = v.rbegin(); it != v.rend(); ++it) n++; return n; }
struct Hd : error_handler { int n; Hd() : n(0) {} void handle(std::exception_ptr) override { n++; } };
static void work(void* p) {
  typedef json::serializer S; typedef json::parser P; const Ctx& c = *(const Ctx*)p; const jv& v = *c.v; const jv& w = *c.w; const std::string& t = *c.t;
  switch (c.op) {
    case 0: quiet([&] { std::string s = json::dump(v); }); break;
    case 1: quiet([&] { std::string s = json::dump(v, { S::with_indent(2, ' '), S::with_unicode_escaping(true), S::with_precision(5) }); }); break;
    case 2: quiet([&] { std::ostringstream os; json::dump(os, v); os << json::wrap(v); }); break;
    case 3: quiet([&] { jv k(v), l; l = v; jv m = v; bool e = (k == v) & (l == w) & (v != w) & (v < w) & !(v >= w); (void)e; l.swap(m); jv n(std::move(k)); n = w; }); break;
    case 4: quiet([&] { int i = 0; bool b = v.get(i); std::string s; b |= v.get(s); std::vector<int> l; b |= v.get(l); double d = 0; b |= v.get(d); b |= v.get_ptr<const std::string*>() != nullptr; (void)b; v.get_to(s); }); quiet([&] { v.get<bool>(); }); quiet([&] { v.get<const std::string&>(); }); quiet([&] { w.get<std::map<std::string, int>>(); }); quiet([&] { w.get<std::list<std::string>>(); }); break;
    case 5: quiet([&] { v.at(0); v.at(9); }); quiet([&] { v.at("a"); }); quiet([&] { v[0]; }); quiet([&] { v["nope"]; }); quiet([&] { v.find("a"); v.count("k"); }); quiet([&] { size_t n = v.size() + v.empty() + w.size() + w.count("a"); (void)n; to_string(v.type()); }); break;
    case 6: quiet([&] { walk(v); walk(w); }); quiet([&] { *v.end(); }); quiet([&] { v.begin().key(); }); quiet([&] { v.begin() + 1; }); break;
    case 7: quiet([&] { jv x = json::parse(t); }); quiet([&] { jv x = json::parse(t.c_str()); }); break;
    case 8: quiet([&] { std::istringstream is(t); jv x; is >> json::wrap(x); }); quiet([&] { Hd h; jv x = json::parse(t, { P::with_error_handler(&h), P::with_encoding<encoding::utf8>() }); }); quiet([&] { error_handler_with<error_policy::record> h; json::parse(t, { P::with_error_handler(&h) }); }); break;
    case 9: quiet([&] { wjson::value x = wjson::parse(*c.wt); std::wstring o = wjson::dump(x); }); quiet([&] { jv x = json::parse(*c.wt); std::wstring o = json::dump<wchar_t>(x); }); break;
    case 10: quiet([&] { jv x = *c.r; Rec r = x.get<Rec>(); jv y = json::object({ { "q", r } }); }); quiet([&] { v.get<Rec>(); }); break;
    case 11: quiet([&] { jv x; x["a"] = c.a; x["b"] = t; x["c"].push_back(c.a); x["c"].push_back(v); x["c"].erase(x["c"].begin()); x.erase("a"); x["d"][2] = w; x.clear(); x = json::array({ 1, "x", nullptr, c.a }); jv y = json::object({ { "k", x } }); y.swap(x); std::string s = json::dump(y); }); break;
    case 12: quiet([&] { std::vector<std::string> l; l.push_back(t); jv x = l; std::map<std::string, int> m; m[t] = 5; jv y = m; std::shared_ptr<int> p = std::make_shared<int>(4); jv z = p; std::set<int> s; s.insert((int)c.a); jv q = s; q.get<std::vector<int>>(); y.get<std::map<std::string, int>>(); z.get<std::unique_ptr<int>>(); }); break;
    case 13: quiet([&] { error_handler_with<error_policy::ignore> h; std::string s = json::dump(v, { S::with_error_handler(&h) }); error_handler_with<error_policy::record> r; s = json::dump(w, { S::with_error_handler(&r) }); }); break;
    case 14: quiet([&] { void* f = rt_file(t.data(), t.size(), 0); quiet([&] { jv x = json::parse((std::FILE*)f); }); rt_file_close(f); }); break;
  }
}
static jv tree(int k, int64_t a, const std::string& s) { switch (k) { case 0: return jv(a); case 1: return jv(s); case 2: return A(a, s, A(true, nullptr)); case 3: return O("a", a, "k", O("x", s)); case 4: return jv(0.5); case 5: return A(1e300, -2.0, O()); case 6: return jv(); default: return O("n", a, "s", s, "list", A(1, 2), "u", "\xf0\x9f\x98\x80\x01\xc3\xa9"); } }
SX_ENTRY(conc_values) {   // operation, kinds of the two shared values
  Ctx c; int64_t a = (int64_t)(int8_t)sym(8, "a"); std::string s(1, (char)sym(8, "c")), t("[1]"); std::wstring wt(L"{\"k\":[]}"); const jv v = tree(__sx_param(1), a, s), w = tree(__sx_param(2), 3, "y"); Rec r; r.n = (int)a; r.s = s; r.l.push_back(2);
  c.op = __sx_param(0); c.v = &v; c.w = &w; c.t = &t; c.wt = &wt; c.r = &r; c.a = a; rt_parallel(work, &c); __sx_cover("values");
}
SX_ENTRY(conc_texts) {    // operation, number of symbolic bytes
  Ctx c; std::string t; for (int i = 0; i < __sx_param(1); i++) t += (char)sym(8, "b"); std::wstring wt; for (char ch : t) wt += (wchar_t)(unsigned char)ch; const jv v; Rec r;
  c.op = __sx_param(0); c.v = &v; c.w = &v; c.t = &t; c.wt = &wt; c.r = &r; c.a = 1; rt_parallel(work, &c); __sx_cover("texts");
}
static const char* DOC[] = { "{\"a\":[1,-2.5e3,\"x\\u00e9\\ud83d\\ude00\\n\",true],\"b\":null}", " /* c */ [ 12345678901234567890, {} ] // end", "[1,2", "{\"a\" 1}", "\"\\uZZZZ\"", "[\"\xc3\xa9\",\"\xff\"]", "[tru]", "[[[[1]]],{\"k\":{}}]" };
SX_ENTRY(conc_docs) { Ctx c; std::string t(DOC[__sx_param(1)]); unsigned at = choose((unsigned)t.size(), "at"); t[at] = (char)sym(8, "b"); std::wstring wt; for (char ch : t) wt += (wchar_t)(unsigned char)ch; const jv v; Rec r; c.op = __sx_param(0); c.v = &v; c.w = &v; c.t = &t; c.wt = &wt; c.r = &r; c.a = 1; rt_parallel(work, &c); __sx_cover("docs"); }
