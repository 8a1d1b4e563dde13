// C31: serializer options.
#define BYTES_CAP 8192
#include "gen.h"
#include <sstream>
#include <vector>
using JS = json::serializer; using WS = wjson::serializer;
struct Opt { unsigned step; char ch; bool esc; int prec; std::ios_base::fmtflags fl; bool bad; Opt() : step(0), ch(' '), esc(false), prec(6), fl(std::ios_base::fmtflags()), bad(false) {} };
static const std::ios_base::fmtflags GEN = std::ios_base::fmtflags(), FIX = std::ios_base::fixed, SCI = std::ios_base::scientific, HEXF = std::ios_base::fixed | std::ios_base::scientific;
static const std::ios_base::fmtflags NOT[] = { GEN, FIX, SCI, HEXF };
static const double FL[] = { 0.1, -2.5, 1e-7, 123456.789, 0.99999999, 1e300, -1.5e19, 3.0, -0.0, 9007199254740993.0, 4.9e-324, 1.7976931348623157e308, -1234567.5, 9223372036854775808.0, -9223372036854775808.0, 2.5e-5 };
// the reference: what a plain stream writes
template <class C> static std::basic_string<C> ref_float(double f, const Opt& o) {
  std::basic_ostringstream<C> os; os.imbue(std::locale::classic());
  if (f == std::floor(f) && f >= -9223372036854775808.0 && f < 9223372036854775808.0) { os << (int64_t)f; std::basic_string<C> s = os.str(); s.push_back((C)'.'); s.push_back((C)'0'); return s; }
  os.precision(o.prec); if (o.fl != HEXF) os.setf(o.fl, std::ios_base::floatfield); os << f; return os.str();
}
template <class C> static void ref_unit(std::basic_string<C>& o, unsigned u) { static const char H[] = "0123456789ABCDEF"; o.push_back((C)'\\'); o.push_back((C)'u'); for (int s = 12; s >= 0; s -= 4) o.push_back((C)H[(u >> s) & 15]); }
template <class C> static void put_cp(std::basic_string<C>& o, uint32_t c) { if (sizeof(C) == 1) { Bytes b; ref_enc8(b, c); for (int i = 0; i < b.n; i++) o.push_back((C)b.b[i]); } else o.push_back((C)c); }
template <class C> static void ref_text(std::basic_string<C>& o, const std::vector<uint32_t>& cps, const Opt& q) {
  o.push_back((C)'"');
  for (uint32_t c : cps) {
    const char* esc = nullptr; switch (c) { case '\t': esc = "\\t"; break; case '\r': esc = "\\r"; break; case '\n': esc = "\\n"; break; case '\b': esc = "\\b"; break; case '\f': esc = "\\f"; break; case '"': esc = "\\\""; break; case '\\': esc = "\\\\"; break; default: break; }
    if (esc) { o.push_back((C)esc[0]); o.push_back((C)esc[1]); }
    else if (c < 0x20 || (q.esc && c >= 0x7F)) { if (c < 0x10000) ref_unit(o, c); else { ref_unit(o, 0xD800 + ((c - 0x10000) >> 10)); ref_unit(o, 0xDC00 + ((c - 0x10000) & 0x3FF)); } }
    else put_cp(o, c);
  }
  o.push_back((C)'"');
}
// a document described by its pieces, so that the reference needs nothing of the library
struct Doc { double f, g; std::vector<uint32_t> s, k; int64_t a; };
template <class C> static std::basic_string<C> text_of(const std::vector<uint32_t>& c) { std::basic_string<C> s; for (uint32_t x : c) put_cp(s, x); return s; }
template <class C> static void lit(std::basic_string<C>& o, const char* s) { for (; *s; s++) o.push_back((C)*s); }
template <class C> static void nl(std::basic_string<C>& o, const Opt& q, unsigned d) { if (q.step) { o.push_back((C)'\n'); for (unsigned i = 0; i < d * q.step; i++) o.push_back((C)q.ch); } }
// [f, {"<k>": s, "z": [g]}, a, s]
template <class J> static typename J::value build(const Doc& d) {
  typedef typename J::value V; typedef typename V::char_type C; V v = value_constant::array, o = value_constant::object, l = value_constant::array; l.push_back(V(d.g)); std::basic_string<C> z; z.push_back((C)'~'); z.push_back((C)'~');
  o[text_of<C>(d.k)] = text_of<C>(d.s); (void)z; v.push_back(V(d.f)); v.push_back(o); v.push_back(l); v.push_back(V(d.a)); v.push_back(V(text_of<C>(d.s))); return v;
}
template <class C> static std::basic_string<C> ref_doc(const Doc& d, const Opt& q) {
  std::basic_string<C> o; lit(o, "["); nl(o, q, 1); o += ref_float<C>(d.f, q); lit(o, ","); nl(o, q, 1);
  lit(o, "{"); nl(o, q, 2); ref_text(o, d.k, q); lit(o, ":"); if (q.step) o.push_back((C)q.ch); ref_text(o, d.s, q); nl(o, q, 1); lit(o, "},"); nl(o, q, 1);
  lit(o, "["); nl(o, q, 2); o += ref_float<C>(d.g, q); nl(o, q, 1); lit(o, "],"); nl(o, q, 1); std::basic_ostringstream<C> os; os << d.a; o += os.str(); lit(o, ","); nl(o, q, 1); ref_text(o, d.s, q); nl(o, q, 0); lit(o, "]"); return o;
}
template <class S> static void same(const S& a, const S& b, const char* msg) { __sx_observe("n", a.size()); CHECK(a.size() == b.size(), msg); bool eq = true; for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i]; CHECK(eq, msg); }
static Doc doc(int k) {
  Doc d; d.a = (int64_t)(k % 3) * 1000 - 1000; d.f = FL[(unsigned)k % 16]; d.g = FL[((unsigned)k * 7 + 3) % 16]; d.k.push_back('k'); d.k.push_back(0xE9);
  d.s.push_back(0x20AC); uint32_t c = (uint32_t)sym(8, "c"); __sx_assume(c < 0x80); d.s.push_back(c); d.s.push_back(0x1F600); d.s.push_back('x'); return d;
}
struct H : error_handler { int n; H() : n(0) {} void handle(std::exception_ptr) override { n++; } };
// every order of the options: those of the mask, in an order chosen freely
SX_ENTRY(opts_order) {
  int mask = __sx_param(0), k = __sx_param(1); Doc d = doc(k); jv v = build<json>(d); H h; Opt q; std::vector<JS::option> all; unsigned p = 0;
  if (mask & 1) { all.push_back(JS::with_indent(3, '\t')); q.step = 3; q.ch = '\t'; }
  if (mask & 2) { all.push_back(JS::with_unicode_escaping(true)); q.esc = true; }
  if (mask & 4) { static const int P[] = { 0, 1, 6, 12, 17 }; p = mask == 31 ? 3u : choose(5, "p"); q.prec = P[p]; q.fl = NOT[(k + p) % 4]; all.push_back(JS::with_precision(q.prec, q.fl)); }
  if (mask & 8) all.push_back(JS::with_error_handler(&h));
  if (mask & 16) all.push_back(JS::with_encoding<encoding::utf8>());
  std::vector<JS::option> o; while (!all.empty()) { unsigned i = choose((unsigned)all.size(), "i"); o.push_back(all[i]); all.erase(all.begin() + (long)i); }
  std::string got;
  switch (o.size()) { case 0: got = json::dump(v); break; case 1: got = json::dump(v, { o[0] }); break; case 2: got = json::dump(v, { o[0], o[1] }); break; case 3: got = json::dump(v, { o[0], o[1], o[2] }); break; case 4: got = json::dump(v, { o[0], o[1], o[2], o[3] }); break; default: got = json::dump(v, { o[0], o[1], o[2], o[3], o[4] }); }
  same(got, ref_doc<char>(d, q), "C31 an option has no effect, or one that depends on the others"); CHECK(h.n == 0, "C31 the error handler was called");
  same(json::dump(v), ref_doc<char>(d, Opt()), "C31 an option outlives its call"); __sx_cover("order");
}
// of two settings of one option the last one counts; wherever the other options stand
SX_ENTRY(opts_last) {
  int which = __sx_param(0), k = __sx_param(1); Doc d = doc(k); jv v = build<json>(d); Opt q; JS::option a = JS::with_indent(1), b = a, x = a; H h1, h2;
  unsigned p = choose(3, "p");
  switch (which) {
    case 0: a = JS::with_indent(7, '\t'); b = JS::with_indent((uint8_t)p, ' '); q.step = p; break;
    case 1: a = JS::with_unicode_escaping(p == 0); b = JS::with_unicode_escaping(p != 0); q.esc = p != 0; break;
    case 2: a = JS::with_precision(9, SCI); b = JS::with_precision((int)p + 2, NOT[p]); q.prec = (int)p + 2; q.fl = NOT[p]; break;
    case 3: a = JS::with_precision(3); b = JS::with_precision(11, p == 0 ? GEN : p == 1 ? SCI : HEXF); q.prec = 11; q.fl = p == 0 ? GEN : p == 1 ? SCI : HEXF; break;
    case 4: a = JS::with_precision(2, HEXF); b = JS::with_precision((int)p); q.prec = (int)p; q.fl = FIX; break;
    case 5: a = JS::with_encoding<encoding::ignore>(); b = JS::with_encoding<encoding::utf8>(); break;
    default: a = JS::with_indent(0); b = JS::with_indent((uint8_t)(p + 1), '\t'); q.step = p + 1; q.ch = '\t'; break;
  }
  bool other = choose(2, "other") == 1; if (other) { if (which == 1) { x = JS::with_precision(4, SCI); q.prec = 4; q.fl = SCI; } else { x = JS::with_unicode_escaping(true); q.esc = true; } }
  unsigned at = other ? choose(3, "at") : 3; std::string got = at == 0 ? json::dump(v, { x, a, b }) : at == 1 ? json::dump(v, { a, x, b }) : at == 2 ? json::dump(v, { a, b, x }) : json::dump(v, { a, b });
  same(got, ref_doc<char>(d, q), "C31 the last setting of an option does not count"); __sx_cover("last");
}
SX_ENTRY(opts_handler) {   // the last handler is the one called
  jv v = A(1, "\xFF"); H h1, h2; unsigned n = choose(3, "n"); std::string s; bool threw = false;
  try { if (n == 0) s = json::dump(v, { JS::with_error_handler(&h1), JS::with_indent(1), JS::with_error_handler(&h2) }); else if (n == 1) s = json::dump(v, { JS::with_error_handler(&h1), JS::with_error_handler(nullptr) }); else s = json::dump(v, { JS::with_error_handler(nullptr), JS::with_error_handler(&h2), JS::with_precision(2) }); } catch (const configor_serialization_error&) { threw = true; }
  CHECK(h1.n == 0 && h2.n == (n == 1 ? 0 : 1) && threw == (n == 1), "C31 the last error handler does not count"); __sx_cover("handler");
}
// floats in every notation and precision, in strings
SX_ENTRY(opts_float) {
  int n = __sx_param(0), lo = __sx_param(1); Opt q; q.fl = NOT[n]; q.prec = lo + (int)choose(4, "p"); double f = FL[choose(16, "f")]; jv v = A(f, A(-f), O("k", f)); std::string t = json::dump(v, { JS::with_precision(q.prec, q.fl) }), want = "[" + ref_float<char>(f, q) + ",[" + ref_float<char>(-f, q) + "],{\"k\":" + ref_float<char>(f, q) + "}]";
  same(t, want, "C31 a float is not written as an output stream with these settings writes it"); if (n == 1) same(json::dump(v, { JS::with_precision(q.prec) }), want, "C31 the default notation of the precision option is not the fixed one");
  std::wstring w = wjson::dump(wjson::value(f), { WS::with_precision(q.prec, q.fl) }); same(w, ref_float<wchar_t>(f, q), "C31 a float is not written as a wide output stream with these settings writes it"); __sx_cover("float");
}
// without options: 6 digits in general notation for strings, the stream's own settings for streams; the stream keeps its settings and the next dump starts from them
template <class J> static void stream_case(int n, int lo, int how, const Doc& d) {
  typedef typename J::value V; typedef typename V::char_type C; typedef typename J::serializer S; V v = build<J>(d); Opt q; q.fl = NOT[n]; q.prec = lo + (int)choose(3, "p"); std::basic_ostringstream<C> os; os.precision(q.prec); os.setf(q.fl, std::ios_base::floatfield);
  std::basic_string<C> want; Opt r = q;
  if (how == 0) J::dump(os, v); else if (how == 1) os << J::wrap(v); else if (how == 2) { J::dump(os, v, { S::with_precision(9, SCI) }); r.prec = 9; r.fl = SCI; } else if (how == 3) { J::dump(os, v, { S::with_unicode_escaping(true), S::with_indent(2) }); r.esc = true; r.step = 2; } else { J::dump(os, v, { S::with_precision(1), S::with_indent(1, '\t') }); r.prec = 1; r.fl = FIX; r.step = 1; r.ch = '\t'; }
  want = ref_doc<C>(d, r); same(os.str(), want, "C31 the settings of the stream or the options do not apply as given"); CHECK((os.flags() & std::ios_base::floatfield) == q.fl && os.precision() == q.prec && os.width() == 0, "C31 an option changes the stream");
  J::dump(os, v); want += ref_doc<C>(d, q); same(os.str(), want, "C31 an option outlives its call"); os << 0.1234567891; std::basic_ostringstream<C> p; p.precision(q.prec); p.setf(q.fl, std::ios_base::floatfield); p << 0.1234567891; want += p.str(); same(os.str(), want, "C31 an option changes the stream");
  same(J::dump(v), ref_doc<C>(d, Opt()), "C31 a string is not written with 6 digits in general notation"); __sx_cover("stream");
}
SX_ENTRY(opts_stream) { Doc d = doc(__sx_param(3)); if (__sx_param(4)) stream_case<wjson>(__sx_param(0), __sx_param(1), __sx_param(2), d); else stream_case<json>(__sx_param(0), __sx_param(1), __sx_param(2), d); }
// escaping: printable ASCII, the same tree, and undone by the next dump
SX_ENTRY(opts_escape) {
  int n = __sx_param(0), step = __sx_param(1); Doc d; d.a = 1; d.f = 0.5; d.g = 2; d.k.push_back('k'); for (int i = 0; i < n; i++) d.s.push_back(sym_scalar("c")); jv v = build<json>(d); Opt q; q.esc = true; q.step = (unsigned)step;
  std::string t = json::dump(v, { JS::with_indent((uint8_t)step), JS::with_unicode_escaping(true) }); bool ascii = true; for (char c : t) ascii &= ((c >= 0x20) & (c < 0x7F)) | (c == '\n'); CHECK(ascii, "C31 the escaped text is not printable ASCII"); same(t, ref_doc<char>(d, q), "C31 the escaped text is not the documented one");
  jv w = json::parse(t); CHECK(w.size() == 5 && w[4].is_string() && bytes_eq(w[4].template get<const std::string&>(), text_of<char>(d.s)), "C31 escaping changes what the text denotes"); __sx_cover("escape");
}
