// C16: where the dumped text goes.
#include "gen.h"
#include <sstream>
#include <iomanip>
#include <vector>
template <class C> struct Out1 : basic_oadapter<C> { std::basic_string<C> t; int units; Out1() : units(0) {} void write(const C c) override { t.push_back(c); units++; } };
template <class C> struct OutN : Out1<C> { int bulk; OutN() : bulk(0) {} void write(const C c) override { Out1<C>::write(c); } void write(const C* s, size_t n) override { bulk++; this->t.append(s, n); } };
// a stream buffer that keeps nothing but what it was given, unit by unit or in blocks with a small put area
template <class C> struct Small : std::basic_streambuf<C> { typedef std::char_traits<C> X; std::basic_string<C> t; C area[3]; Small() { this->setp(area, area + 3); }
  void flush_() { t.append(this->pbase(), (size_t)(this->pptr() - this->pbase())); this->setp(area, area + 3); }
  typename X::int_type overflow(typename X::int_type c) override { flush_(); if (!X::eq_int_type(c, X::eof())) { this->sputc(X::to_char_type(c)); } return X::not_eof(c); }
  int sync() override { flush_(); return 0; } };
enum { K_STRING, K_PREFIX, K_OSS, K_ADAPTER, K_ADAPTER_BULK, K_WRAP, K_SMALL, K_WRAP_RVALUE, NSINK };
template <class J, class C> static std::basic_string<C> to(int k, const typename J::value& v, const std::basic_string<C>& pre) {
  typedef std::basic_ostringstream<C> OSS;
  switch (k) {
    case K_STRING: { std::basic_string<C> r = J::dump(v); return pre + r; }
    case K_PREFIX: { std::basic_string<C> r = pre; J::template dump<C>(r, v); return r; }
    case K_OSS: { OSS os; os << pre; J::dump(os, v); return os.str(); }
    case K_ADAPTER: { Out1<C> a; basic_oadapterstream<C> os(a); os << pre; J::dump(os, v); CHECK(os.good(), "C16 the adapter stream failed"); return a.t; }
    case K_ADAPTER_BULK: { OutN<C> a; basic_oadapterstream<C> os(a); os << pre; J::dump(os, v); return a.t; }
    case K_WRAP: { OSS os; os << pre << J::wrap(v); CHECK(os.good(), "C16 the insertion operator failed the stream"); return os.str(); }
    case K_SMALL: { Small<C> b; { std::basic_ostream<C> os(&b); os << pre; J::dump(os, v); os.flush(); } return b.t; }
    default: { OSS os; os << pre; typename J::value w = v; os << J::wrap(w); return os.str(); }
  }
}
template <class C> static bool eq(const std::basic_string<C>& a, const std::basic_string<C>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static jv shape(int k) {
  Gen g(1, 0); g.full_int = true; std::string s = g.str(1); int64_t a = (int64_t)(int8_t)sym(8, "a");
  switch (k) {
    case 0: return jv(a); case 1: return jv(s); case 2: return A(a, s, nullptr, A(), O()); case 3: return O("k", A(s, true), s, O("x", a)); case 4: return jv(); case 5: return jv(sym(1, "bool") == 1);
    case 6: return A(0.5, 1e300, -3.0, a); case 7: return A(A(A(s)), O("a", O("b", a))); default: { uint32_t c = sym_scalar("cp"); Bytes b; ref_enc8(b, c); return A(b.str(), a); }
  }
}
SX_ENTRY(sink_same) {
  int k = __sx_param(0), sh = __sx_param(1); jv v = shape(sh); std::string pre; unsigned n = choose(3, "prefix"); for (unsigned i = 0; i < n; i++) pre.push_back((char)sym(8, "p"));
  std::string want = pre + json::dump(v), got = to<json, char>(k, v, pre); __sx_observe_bytes("text", want.data(), want.size());
  CHECK(eq(want, got), "C16 the text differs with the sink"); __sx_cover("same");
}
SX_ENTRY(sink_tree) { int k = __sx_param(0); Gen g(__sx_param(1), 2); g.floats = 2; jv v = g.value(2); std::string want = "[" + json::dump(v), got = to<json, char>(k, v, "["); CHECK(eq(want, got), "C16 the text differs with the sink"); __sx_cover("same"); }
SX_ENTRY(sink_wide) {
  int k = __sx_param(0), sh = __sx_param(1); std::wstring s(1, (wchar_t)sym_scalar("cp")); int64_t a = (int64_t)(int8_t)sym(8, "a"); wjson::value v; if (sh == 0) v = s; else if (sh == 1) { v = wjson::value(value_constant::array); v.push_back(a); v.push_back(s); v.push_back(0.25); } else v[s] = a;
  std::wstring pre(choose(2, "prefix"), L'\x4e2d'); std::wstring want = pre + wjson::dump(v), got = to<wjson, wchar_t>(k, v, pre); CHECK(eq(want, got), "C16 the wide text differs with the sink"); __sx_cover("wide");
}
// a dump that fails does so for every sink
SX_ENTRY(sink_bad) {
  int k = __sx_param(0); Bytes b; b.add((unsigned)sym(8, "b")); b.add((unsigned)sym(8, "b")); jv v = A(1, b.str()); bool f = false, g = false;
  try { json::dump(v); } catch (const configor_serialization_error&) { f = true; } try { to<json, char>(k, v, ""); } catch (const configor_serialization_error&) { g = true; }
  CHECK(f == g, "C16 a dump error depends on the sink"); __sx_cover(f ? "fails" : "works");
}
// width and fill select the indentation; the width is consumed, everything else stays
static const std::ios_base::fmtflags FLAGS[] = { std::ios_base::hex, std::ios_base::oct, std::ios_base::showpos, std::ios_base::boolalpha, std::ios_base::showbase, std::ios_base::left, std::ios_base::internal, std::ios_base::uppercase, std::ios_base::unitbuf, std::ios_base::showpoint };
static jv indent_shape(int sh, int64_t a) { switch (sh) { case 0: return A(a, A(true, O("k", a))); case 1: return O("a", a, "b", A(), "c", O("d", "x")); case 2: return jv(a); case 3: return A(A(A(-1), 255), O()); case 4: return jv("text"); case 5: return A(0.5, 2.0, 1e20, nullptr); default: return jv(value_constant::array); } }
template <class C> struct Fmt;
template <class J, class C> static void width_case(int how, int sh, unsigned width, C fill, unsigned flag, int prec, bool same_flag_text) {
  typedef typename J::serializer S; int64_t a = (int64_t)(int8_t)sym(8, "a"); jv tree = indent_shape(sh, a); typename J::value v; (void)tree; Fmt<C>::conv(v, sh, a);
  typename J::value w = v; std::basic_string<C> want = J::dump(v, { S::with_indent((uint8_t)width, fill) });
  std::basic_ostringstream<C> os; if (flag < sizeof FLAGS / sizeof *FLAGS) os.setf(FLAGS[flag], (FLAGS[flag] & (std::ios_base::hex | std::ios_base::oct)) ? std::ios_base::basefield : (FLAGS[flag] & (std::ios_base::left | std::ios_base::internal)) ? std::ios_base::adjustfield : FLAGS[flag]);
  if (prec >= 0) os.precision(prec); os.width((std::streamsize)width); os.fill(fill);
  std::ios_base::fmtflags fl = os.flags(); std::streamsize pr = os.precision(); std::ios_base::iostate st = os.rdstate(), ex = os.exceptions();
  if (how == 0) J::dump(os, v); else if (how == 1) os << J::wrap(v); else if (how == 2) { J::dump(os, v, { S::with_unicode_escaping(false) }); } else { const typename J::value& c = v; os << J::wrap(c); }
  std::basic_string<C> got = os.str(); __sx_observe("n", got.size()); if (same_flag_text) CHECK(eq(want, got), "C16 width and fill do not select the indentation of with_indent, or a formatting flag changes the text");
  CHECK(os.width() == 0, "C16 the stream's width is not reset"); CHECK(os.fill() == fill, "C16 the stream's fill changed"); CHECK(os.flags() == fl, "C16 the stream's flags changed"); CHECK(os.precision() == pr, "C16 the stream's precision changed"); CHECK(os.rdstate() == st && os.exceptions() == ex, "C16 the stream's state changed"); CHECK(os.getloc() == std::locale::classic(), "C16 the stream's locale changed");
  os << (C)'!'; CHECK(os.str().size() == got.size() + 1 && os.str()[got.size()] == (C)'!', "C16 the stream is not usable after a dump"); __sx_cover("width");
}
template <> struct Fmt<char> { static void conv(jv& v, int sh, int64_t a) { v = indent_shape(sh, a); } };
template <> struct Fmt<wchar_t> { static void conv(wjson::value& v, int sh, int64_t a) { v = wjson::value(value_constant::array); v.push_back(a); if (sh) { wjson::value o(value_constant::object); o[L"k"] = a; v.push_back(o); v.push_back(0.5); } } };
// every width 0..255, fill any byte
SX_ENTRY(sink_width) { unsigned w = (unsigned)sym(8, "width"); unsigned f = (unsigned)sym(8, "fill"); int cls = __sx_param(2); if (cls == 0) { w = choose(5, "w"); __sx_assume(f != 0); } else if (cls == 1) { __sx_assume((w >= 124) & (w <= 130)); w = (unsigned)__sx_concretize(w); f = ' '; } else { __sx_assume(w >= 253); w = (unsigned)__sx_concretize(w); f = '\t'; } width_case<json, char>(__sx_param(0), __sx_param(1), w, (char)f, 99, -1, true); }
SX_ENTRY(sink_wwidth) { unsigned w = choose(4, "w"); uint32_t f = (uint32_t)sym(32, "fill"); __sx_assume((f != 0) & (f != 0xFFFFFFFFu)); width_case<wjson, wchar_t>(__sx_param(0), __sx_param(1), w, (wchar_t)f, 99, -1, true); }
SX_ENTRY(sink_flags) { unsigned fl = (unsigned)__sx_param(0); width_case<json, char>(__sx_param(1), __sx_param(2), choose(3, "w"), '.', fl, fl & 1 ? 3 : -1, __sx_param(2) != 5); }
// the indent option wins over or equals the stream's width
SX_ENTRY(sink_option) {
  typedef json::serializer S; unsigned w = choose(4, "w"), s = choose(4, "s"); std::ostringstream os; os.width((std::streamsize)w); os.fill('_'); jv v = A((int64_t)(int8_t)sym(8, "a"), A(1)); json::dump(os, v, { S::with_indent((uint8_t)s, ' ') }); CHECK(eq(os.str(), json::dump(v, { S::with_indent((uint8_t)s, ' ') })), "C16 the indent option does not override the stream's width"); CHECK(os.fill() == '_', "C16 the stream's fill changed"); __sx_cover("option");
}
// thousands grouping of the stream's locale never reaches the text
SX_ENTRY(sink_locale) {
  std::locale g = std::locale::classic(); rt_grouping_locale(&g); int sh = __sx_param(0); int64_t a = 1000 + (int64_t)(int8_t)sym(8, "a"); if (sh == 3) a = 1234567890123ll + (int64_t)sym(8, "d"); jv v = sh == 0 ? jv(a) : sh == 1 ? A(a, 1234567, -1000) : sh == 2 ? O("k", 123456789, "f", A(1234567.0, 0.5, 12345.25)) : A(a); std::string want = json::dump(v);
  { std::ostringstream os; os.imbue(g); json::dump(os, v); CHECK(eq(os.str(), want), "C16 the stream's locale changes the text"); CHECK(os.getloc() == g, "C16 the stream's locale was replaced"); os << 12345; CHECK(os.str().size() == want.size() + 6, "C16 the stream lost its locale"); }
  { std::ostringstream os; os.imbue(g); os << json::wrap(v); CHECK(eq(os.str(), want), "C16 the stream's locale changes the inserted text"); }
  __sx_cover("locale");
}
// wrapped values of other types
SX_ENTRY(sink_types) {
  int k = __sx_param(0); std::ostringstream os; std::string want; int64_t a = (int64_t)(int8_t)sym(8, "a"); Gen g(1, 0); std::string s = g.str(1);
  if (k == 0) { int x = (int)a; os << json::wrap(x); want = json::dump(jv(x)); } else if (k == 1) { os << json::wrap(s); want = json::dump(jv(s)); } else { std::vector<int> x; x.push_back((int)a); x.push_back(7); os << std::setw(2) << json::wrap(x); want = json::dump(A((int)a, 7), { json::serializer::with_indent(2, ' ') }); }
  CHECK(eq(os.str(), want), "C16 a wrapped C++ value gives other text"); __sx_cover("types");
}
// several dumps into one stream or string
SX_ENTRY(sink_repeat) {
  jv a = shape(__sx_param(0)); std::string x = json::dump(a), one; std::ostringstream os; std::string str = "#"; for (int i = 0; i < 3; i++) { one += x; if (i) { one += ','; os << ','; str += ','; } else { one = x; } if (i) { one = one.substr(0, one.size() - 1 - x.size()) + "," + x; } json::dump(os, a); json::dump<char>(str, a); }
  CHECK(eq(os.str(), one), "C16 repeated dumps into a stream"); CHECK(eq(str, "#" + one), "C16 repeated dumps into a string"); __sx_cover("repeat");
}
