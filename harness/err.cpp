// C14: error handlers.
#include "gen.h"
#include <stdexcept>
#include <new>
struct Count : error_handler {
  int n, kind; std::string msg; Count() : n(0), kind(0) {}
  void handle(std::exception_ptr p) override {
    n++;
    try { if (p) std::rethrow_exception(p); kind = 1; }
    catch (const configor_deserialization_error& e) { kind = 2; msg = e.what(); }
    catch (const configor_serialization_error& e) { kind = 3; msg = e.what(); }
    catch (const configor_exception& e) { kind = 4; msg = e.what(); }
    catch (const std::exception& e) { kind = 5; msg = e.what(); }
    catch (...) { kind = 6; }
  }
};
typedef error_handler_with<error_policy::ignore> Ign; typedef error_handler_with<error_policy::record> Rec; typedef error_handler_with<error_policy::strict> Str;
struct Out { bool threw; int kind; std::string msg; Out() : threw(false), kind(0) {} };
template <class F> static Out run(F f) {
  Out o; try { f(); }
  catch (const configor_deserialization_error& e) { o.threw = true; o.kind = 2; o.msg = e.what(); }
  catch (const configor_serialization_error& e) { o.threw = true; o.kind = 3; o.msg = e.what(); }
  catch (const configor_exception& e) { o.threw = true; o.kind = 4; o.msg = e.what(); }
  catch (const std::exception& e) { o.threw = true; o.kind = 5; o.msg = e.what(); }
  return o;
}
typedef json::parser P; typedef json::serializer S;
static void parse_all(const std::string& t, unsigned which) {
  jv plain; Out o = run([&] { plain = json::parse(t); }); __sx_observe("threw", o.threw); __sx_cover(o.threw ? "parse error" : "parse ok");
  if (which & 1) {
    Count c; jv v; Out a = run([&] { v = json::parse(t, { P::with_error_handler(&c) }); });
    CHECK(!a.threw, "C14 an error escaped although a handler is installed"); CHECK(c.n == (o.threw ? 1 : 0), "C14 the handler was not called exactly once per error");
    if (o.threw) { CHECK(c.kind == o.kind, "C14 the handler received another error"); CHECK(bytes_eq(c.msg, o.msg), "C14 the handler received another message"); } else CHECK(same_tree(v, plain), "C14 the handler changed the result");
  }
  if (which & 2) {
    Ign g; jv v; Out a = run([&] { json::parse(v, t, { P::with_error_handler(&g) }); }); CHECK(!a.threw, "C14 an error escaped with the ignore policy"); if (!o.threw) CHECK(same_tree(v, plain), "C14 the ignore handler changed the result");
    Rec r; jv w; Out b = run([&] { w = json::parse(t.c_str() ? t : t, { P::with_error_handler(&r) }); }); CHECK(!b.threw, "C14 an error escaped with the record policy"); CHECK(r.error.empty() == !o.threw, "C14 the record policy kept no message, or one without an error"); if (o.threw) CHECK(bytes_eq(r.error, o.msg), "C14 the record policy kept another message"); else CHECK(same_tree(w, plain), "C14 the record handler changed the result");
  }
  if (which & 4) { Str s; jv v; Out a = run([&] { v = json::parse(t, { P::with_error_handler(&s) }); }); CHECK(a.threw == o.threw, "C14 the strict policy swallowed or invented an error"); if (o.threw) CHECK(a.kind == o.kind && bytes_eq(a.msg, o.msg), "C14 the strict policy changed the error"); else CHECK(same_tree(v, plain), "C14 the strict handler changed the result"); }
}
SX_ENTRY(h_parse) { int n = __sx_param(0); unsigned which = (unsigned)__sx_param(1); Bytes t; for (int i = 0; i < n; i++) t.add((unsigned)sym(8, "b")); parse_all(t.str(), which); }
SX_ENTRY(h_template) {
  static const struct { const char* s; int n; } TPL[] = {
#define T(x) { x, (int)sizeof(x) - 1 }
    T("~[1]"), T("[1]~"), T("{\"a\":~}"), T("\"a\\~\""), T("\"\\u00~0\""), T("[1,2~"), T("-~"), T("1.~"), T("1.5e~"), T("/~/"), T("/*~"), T("{\"a\"~1}"), T("tru~"), T("\"~"), T("[[[~]]]"), T("~\"a\""), T("\"\\ud800\\u~c00\""), T("{~}"), T("[1,~"), T("1 ~"), T(" \n~"), T("//~\n~"), T("\"\xc3~\"") , T("[{\"k\":[1,{\"q\":~}]}]"),
#undef T
  };
  int k = __sx_param(0); Bytes t; fill_template(t, TPL[k].s, TPL[k].n); parse_all(t.str(), (unsigned)__sx_param(1));
}
// the option list may hold other options before or after the handler; errors of every source kind
SX_ENTRY(h_sources) {
  int k = __sx_param(0); Bytes t; t.add((unsigned)sym(8, "b")); t.add((unsigned)sym(8, "b")); __sx_assume((t.b[0] != 0) & (t.b[1] != 0)); std::string s = t.str(); bool err = run([&] { json::parse(s); }).threw; Count c; jv v; Out a;
  if (k == 0) a = run([&] { v = json::parse(s.c_str(), { P::with_error_handler(&c) }); });
  else if (k == 1) { detail::fast_string_istreambuf<char> b(s); std::basic_istream<char> is(&b); a = run([&] { json::parse(v, is, { P::with_error_handler(&c), P::with_encoding<encoding::utf8>() }); }); }
  else if (k == 2) { void* f = rt_file(s.data(), s.size(), 0); a = run([&] { v = json::parse((std::FILE*)f, { P::with_encoding<encoding::auto_utf>(), P::with_error_handler(&c) }); }); rt_file_close(f); }
  else { typedef detail::json_parser<json::value, wchar_t> W; std::wstring w; w.push_back((wchar_t)(unsigned char)s[0]); w.push_back((wchar_t)(unsigned char)s[1]); err = run([&] { json::parse(w); }).threw; a = run([&] { v = json::parse(w, { W::with_error_handler(&c) }); }); }
  CHECK(!a.threw, "C14 an error escaped although a handler is installed"); CHECK(c.n == (err ? 1 : 0), "C14 the handler was not called exactly once per error"); __sx_cover("sources");
}
// dump errors: an ill-formed string or a non-finite float at every position of a small tree
static jv bad_leaf(unsigned k) {
  if (k == 0) { Bytes b; b.add((unsigned)sym(8, "b")); b.add((unsigned)sym(8, "b")); return jv(b.str()); }
  if (k == 1) { uint64_t bits = sym(64, "bits"); double d; memcpy(&d, &bits, 8); __sx_assume(((bits >> 52) & 0x7FF) == 0x7FF || bits == 0); return jv(d); }
  return jv((int)7);
}
SX_ENTRY(h_dump) {
  unsigned where = (unsigned)__sx_param(0), leaf = (unsigned)__sx_param(1); unsigned which = (unsigned)__sx_param(2); jv v;
  switch (where) {
    case 0: v = bad_leaf(leaf); break;
    case 1: v = A(bad_leaf(leaf), 1); break;
    case 2: v = A(1, A(true, bad_leaf(leaf))); break;
    case 3: v = O("a", 1, "b", bad_leaf(leaf), "c", 2); break;
    case 4: { Bytes b; b.add((unsigned)sym(8, "b")); v = O("k", O(b.str(), nullptr), "z", A()); break; }
    case 5: v = A(O("q", A(bad_leaf(leaf))), bad_leaf(2)); break;
  }
  std::string plain; Out o = run([&] { plain = json::dump(v); }); __sx_observe("threw", o.threw); __sx_cover(o.threw ? "dump error" : "dump ok");
  if (which & 1) { Count c; std::string t; Out a = run([&] { t = json::dump(v, { S::with_error_handler(&c) }); }); CHECK(!a.threw, "C14 a dump error escaped although a handler is installed"); CHECK(c.n == (o.threw ? 1 : 0), "C14 the handler was not called exactly once per dump error"); if (o.threw) CHECK(c.kind == o.kind && bytes_eq(c.msg, o.msg), "C14 the handler received another dump error"); else CHECK(bytes_eq(t, plain), "C14 the handler changed the dumped text"); }
  if (which & 2) { Ign g; std::string t; Out a = run([&] { json::dump(t, v, { S::with_error_handler(&g), S::with_indent(0) }); }); CHECK(!a.threw, "C14 a dump error escaped with the ignore policy"); if (!o.threw) CHECK(bytes_eq(t, plain), "C14 the ignore handler changed the dumped text");
    Rec r; std::string u; Out b = run([&] { u = json::dump(v, { S::with_error_handler(&r) }); }); CHECK(!b.threw, "C14 a dump error escaped with the record policy"); CHECK(r.error.empty() == !o.threw, "C14 the record policy kept no dump message, or one without an error"); if (!o.threw) CHECK(bytes_eq(u, plain), "C14 the record handler changed the dumped text"); }
  if (which & 4) { Str s; Out a = run([&] { json::dump(v, { S::with_error_handler(&s) }); }); CHECK(a.threw == o.threw && (!o.threw || (a.kind == o.kind && bytes_eq(a.msg, o.msg))), "C14 the strict policy changed the dump error"); }
}
// a failing allocation inside parse or dump reaches the handler as every other error does
struct Light : error_handler { int n, bad; Light() : n(0), bad(0) {} void handle(std::exception_ptr p) override { n++; try { std::rethrow_exception(p); } catch (const std::bad_alloc&) { bad = 1; } catch (const configor_exception&) { bad = 2; } catch (...) { bad = 3; } } };
// the allocation fails only after the first unit was read or written: setting up the call is no part of it
struct ASrc : std::streambuf { const char* s; size_t n, i; uint64_t at, k; char c; ASrc(const char* p, size_t l, uint64_t a, uint64_t b) : s(p), n(l), i(0), at(a), k(b) {} int_type underflow() override { if (i >= n) return traits_type::eof(); if (i == at) rt_fail_alloc_at(k); c = s[i++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };
struct ASnk : std::streambuf { size_t i; uint64_t at, k; ASnk(uint64_t a, uint64_t b) : i(0), at(a), k(b) {} int_type overflow(int_type c) override { if (i++ == at) rt_fail_alloc_at(k); return c; } };
SX_ENTRY(h_alloc) {
  static const char* DOC[] = { "[1,\"a string longer than the small buffer\",{\"a key that is longer than the small buffer\":[true,null]}]", "\"a string longer than the small buffer\"", "{\"a\":1,\"b\":[2.5]}", "[[1,2", "{\"a\":\"another string longer than the small buffer\",}~", "\"\\ud800\"" };
  int k = __sx_param(0), way = __sx_param(1); Light c; bool esc = false, err = false; std::string doc(DOC[k]); jv v, w; if (way == 0) err = run([&] { w = json::parse(doc); }).threw; else { w = json::parse(doc); if (way == 2) { w.push_back("\xff"); err = true; } }
  uint64_t at = sym(8, "fail"), nth = choose(3, "nth"); rt_fail_alloc_at(~0ull);
  if (way == 0) { ASrc b(doc.data(), doc.size(), at, nth); std::istream is(&b); is.exceptions(std::ios_base::badbit); try { json::parse(v, is, { P::with_error_handler(&c) }); } catch (...) { esc = true; } }
  else { ASnk b(at, nth); std::ostream os(&b); try { json::dump(os, w, { S::with_error_handler(&c), S::with_indent(9) }); } catch (...) { esc = true; } }
  uint64_t failed = rt_alloc_failed(); rt_fail_alloc_at(~0ull);
  CHECK(!esc, "C14 a failing allocation escaped although a handler is installed"); if (failed) { CHECK(c.n == 1, "C14 the handler was not called exactly once for a failing allocation"); CHECK(c.bad == 1 || (err && c.bad == 2), "C14 the handler received another error than the failing allocation"); __sx_cover("alloc failed"); } else { CHECK(c.n == (err ? 1 : 0), "C14 the handler was not called exactly once per error"); __sx_cover("alloc fine"); }
}
