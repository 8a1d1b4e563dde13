// C27: sources and sinks that fail at any point.
#include "gen.h"
#include <sstream>
#include <stdexcept>
#include <vector>
struct Lost {};          // an exception that is no std::exception
struct Broken : std::runtime_error { Broken() : std::runtime_error("broken") {} };
enum { R_NONE, R_CONFIGOR, R_OWN, R_OTHER };
template <class F> static int outcome(F f) { try { f(); return R_NONE; } catch (const configor_exception&) { return R_CONFIGOR; } catch (const Broken&) { return R_OWN; } catch (const Lost&) { return R_OWN; } catch (...) { return R_OTHER; } }
struct H : error_handler { int n; H() : n(0) {} void handle(std::exception_ptr) override { n++; } };
// reading fails by an exception after n units; reported once or every time
template <class C> struct BadIn : std::basic_streambuf<C> {
  typedef std::char_traits<C> X; const C* p; size_t n, i; int how; bool failed; BadIn(const C* q, size_t m, int h) : p(q), n(m), i(0), how(h), failed(false) {}
  typename X::int_type get(bool take) { if (i < n) return X::to_int_type(p[take ? i++ : i]); if (failed && (how & 2)) return X::eof(); failed = true; if (how & 1) throw Lost(); throw Broken(); }
  typename X::int_type underflow() override { return get(false); }
  typename X::int_type uflow() override { return get(true); }
};
// the same with a get area (blocks)
template <class C> struct BadBlock : std::basic_streambuf<C> { typedef std::char_traits<C> X; std::basic_string<C> s; size_t at; bool failed; BadBlock(const C* q, size_t m) : s(q, m), at(0), failed(false) {}
  typename X::int_type underflow() override { if (at == s.size()) { failed = true; throw Broken(); } size_t k = s.size() - at < 3 ? s.size() - at : 3; C* b = &s[0] + at; this->setg(b, b, b + k); at += k; return X::to_int_type(*b); } };
template <class C> struct BadAdapter : basic_iadapter<C> { const C* p; size_t n, i; bool failed; BadAdapter(const C* q, size_t m) : p(q), n(m), i(0), failed(false) {} C read() override { if (i < n) return p[i++]; failed = true; throw Broken(); } };
enum { I_ONCE, I_LOST, I_BLOCK, I_ADAPTER, I_FILE, I_WRAP, I_HANDLER, I_MASK, I_FILE_INTO, I_HMASK, NIN };
template <class J, class C> static void read_case(int k, const std::basic_string<C>& s) {
  typedef typename J::value V; typedef detail::json_parser<V, C> P; V v = 5; bool failed = false; int r = R_NONE; H h; const C* p = s.data(); size_t n = s.size();
  switch (k) {
    case I_ONCE: case I_LOST: { BadIn<C> b(p, n, k == I_LOST ? 1 : 2); std::basic_istream<C> is(&b); r = outcome([&] { J::parse(v, is); }); failed = b.failed; break; }
    case I_BLOCK: { BadBlock<C> b(p, n); std::basic_istream<C> is(&b); r = outcome([&] { v = J::parse(is); }); failed = b.failed; break; }
    case I_ADAPTER: { BadAdapter<C> a(p, n); basic_iadapterstream<C> is(a); r = outcome([&] { v = J::parse(is); }); failed = a.failed; break; }
    case I_FILE: case I_FILE_INTO: { void* f = rt_file_failing(p, n, sizeof(C) > 1); r = outcome([&] { if (k == I_FILE) v = J::template parse<C>((std::FILE*)f); else J::template parse<C>(v, (std::FILE*)f); }); failed = rt_file_failed(f); rt_file_close(f); break; }
    case I_WRAP: { BadIn<C> b(p, n, 0); std::basic_istream<C> is(&b); is.unsetf(std::ios_base::skipws); r = outcome([&] { is >> J::wrap(v); }); failed = b.failed; if (failed && r == R_NONE && !is.good()) r = R_OWN; break; }
    case I_HANDLER: { BadIn<C> b(p, n, 0); std::basic_istream<C> is(&b); r = outcome([&] { J::parse(v, is, { P::with_error_handler(&h) }); }); failed = b.failed; CHECK(r == R_NONE, "C27 an error escaped although a handler is installed"); if (failed) CHECK(h.n == 1, "C27 the handler did not learn of the failing source"); r = h.n ? R_CONFIGOR : R_NONE; break; }
    case I_HMASK: { BadIn<C> b(p, n, 1); std::basic_istream<C> is(&b); is.exceptions(std::ios_base::badbit); r = outcome([&] { J::parse(v, is, { P::with_error_handler(&h) }); }); failed = b.failed; CHECK(r == R_NONE, "C27 an error escaped although a handler is installed"); if (failed) CHECK(h.n == 1, "C27 the handler did not learn of the failing source"); r = h.n ? R_CONFIGOR : R_NONE; break; }
    default: { BadIn<C> b(p, n, 1); std::basic_istream<C> is(&b); is.exceptions(std::ios_base::badbit | std::ios_base::failbit); r = outcome([&] { J::parse(v, is); }); failed = b.failed; break; }
  }
  if (failed) { CHECK(r != R_NONE, "C27 a source failed and parse reported no error"); __sx_cover("source failed"); } else __sx_cover("source not exhausted");
}
SX_ENTRY(fault_read) { int k = __sx_param(0), n = __sx_param(1); Bytes t; for (int i = 0; i < n; i++) t.add((unsigned)sym(8, "b")); read_case<json, char>(k, t.str()); }
SX_ENTRY(fault_wread) { int k = __sx_param(0), n = __sx_param(1); std::wstring s; for (int i = 0; i < n; i++) s.push_back((wchar_t)sym_scalar("u")); if (k == I_FILE || k == I_FILE_INTO) for (wchar_t c : s) __sx_assume(c != 0xFFFE && c != 0xFFFF); read_case<wjson, wchar_t>(k, s); }
static const char* RDOC[] = { "[1,\"ab\",{\"k\":true}]", " {\"a\":[-1.5e3,null],\"b\":{}} ", "/*c*/ [ ] // end\n", "\"\\ud83d\\ude00\xc3\xa9\xf0\x9f\x98\x80\"", "12345", "true ", "[[],[[0.25]]]", "{\"a\":1}//x" };
SX_ENTRY(fault_read_doc) { std::string s(RDOC[__sx_param(1)]); s.resize(choose((unsigned)s.size() + 1, "cut")); read_case<json, char>(__sx_param(0), s); std::wstring w; bool ascii = true; for (char c : s) { ascii &= c > 0; w.push_back((wchar_t)c); } if (ascii) read_case<wjson, wchar_t>(__sx_param(0), w); }

// writing fails at the k-th unit: by the end-of-file answer, a short count or an exception; it stays failed or recovers
template <class C> struct BadOut : std::basic_streambuf<C> {
  typedef std::char_traits<C> X; std::basic_string<C> t; uint64_t at, units; int how; bool failed; BadOut(uint64_t k, int h) : at(k), units(0), how(h), failed(false) {}
  bool bad() { if ((how & 4) ? units == at : units >= at) { units++; failed = true; if ((how & 3) == 1) throw Broken(); if ((how & 3) == 2) throw Lost(); return true; } units++; return false; }
  typename X::int_type overflow(typename X::int_type c) override { if (bad()) return X::eof(); t.push_back(X::to_char_type(c)); return X::not_eof(c); }
};
template <class C> struct BadBulk : BadOut<C> { BadBulk(uint64_t k, int h) : BadOut<C>(k, h) {} std::streamsize xsputn(const C* s, std::streamsize n) override { std::streamsize i = 0; for (; i < n; i++) { if (this->bad()) break; this->t.push_back(s[i]); } return i; } };
template <class C> struct BadOAdapter : basic_oadapter<C> { std::basic_string<C> t; uint64_t at; bool failed; BadOAdapter(uint64_t k) : at(k), failed(false) {} void write(const C c) override { if (t.size() >= at) { failed = true; throw Broken(); } t.push_back(c); } };
static jv dshape(int k) {
  switch (k) { case 0: return jv(5); case 1: return jv("a\n\"\x01\xc3\xa9"); case 2: return A(1, A(true, "x"), nullptr); case 3: return O("a", 1, "b", A(), "c", O("d", false)); case 4: return jv(); case 5: return A(0.5, -3.0, 1e300); case 6: return A("\xf0\x9f\x98\x80", ""); default: return A(A(A()), O()); }
}
template <class C> static bool prefix(const std::basic_string<C>& a, const std::basic_string<C>& b) { if (a.size() > b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
template <class C, class F> static void write_check(BadOut<C>& b, const std::basic_string<C>& want, F f) { int r = outcome(f); bool prefix_ok = prefix<C>(b.t, want);
  if (b.failed) { CHECK(r != R_NONE, "C27 a sink failed and dump reported no error"); CHECK(prefix_ok, "C27 what reached the failing sink is not the beginning of the text"); __sx_cover("sink failed"); } else { CHECK(r == R_NONE && b.t == want, "C27 a sink that works received another text"); __sx_cover("sink works"); } }
template <class J, class C> static void write_case(int how, int mode, const typename J::value& v, uint64_t at) {
  typedef typename J::value V; typedef detail::json_serializer<V, C> S; typedef std::initializer_list<typename S::option> Opts; (void)sizeof(Opts);
  switch (mode) {
    case 0: { std::basic_string<C> want = J::template dump<C>(v); BadOut<C> b(at, how); std::basic_ostream<C> os(&b); write_check<C>(b, want, [&] { J::dump(os, v); }); break; }
    case 1: { std::basic_string<C> want = J::template dump<C>(v); BadBulk<C> b(at, how); std::basic_ostream<C> os(&b); write_check<C>(b, want, [&] { J::dump(os, v); }); break; }
    case 2: { std::basic_string<C> want = J::template dump<C>(v, { S::with_indent(2, (C)' '), S::with_unicode_escaping(true) }); BadBulk<C> b(at, how); std::basic_ostream<C> os(&b); write_check<C>(b, want, [&] { J::template dump<C>(os, v, { S::with_indent(2, (C)' '), S::with_unicode_escaping(true) }); }); break; }
    case 3: { std::basic_string<C> want = J::template dump<C>(v); BadOut<C> b(at, how); std::basic_ostream<C> os(&b); os.exceptions(std::ios_base::badbit); write_check<C>(b, want, [&] { J::dump(os, v); }); break; }
    case 4: { std::basic_string<C> want = J::template dump<C>(v); BadOut<C> b(at, how); std::basic_ostream<C> os(&b); H h; int r = outcome([&] { J::template dump<C>(os, v, { S::with_error_handler(&h) }); }); CHECK(r == R_NONE, "C27 an error escaped although a handler is installed"); CHECK(h.n == (b.failed ? 1 : 0), "C27 the handler did not learn of the failing sink"); CHECK(prefix<C>(b.t, want), "C27 what reached the failing sink is not the beginning of the text"); __sx_cover(b.failed ? "sink failed" : "sink works"); break; }
    case 6: { std::basic_string<C> want = J::template dump<C>(v); BadOut<C> b(at, how); std::basic_ostream<C> os(&b); os.exceptions(std::ios_base::badbit); H h; int r = outcome([&] { J::template dump<C>(os, v, { S::with_error_handler(&h) }); }); CHECK(r == R_NONE, "C27 an error escaped although a handler is installed"); CHECK(h.n == (b.failed ? 1 : 0), "C27 the handler did not learn of the failing sink"); CHECK(prefix<C>(b.t, want), "C27 what reached the failing sink is not the beginning of the text"); __sx_cover(b.failed ? "sink failed" : "sink works"); break; }
    default: { std::basic_string<C> want = J::template dump<C>(v); BadOAdapter<C> a(at); basic_oadapterstream<C> os(a); int r = outcome([&] { J::dump(os, v); }); CHECK((r != R_NONE) == a.failed, "C27 an adapter failed and dump reported no error"); CHECK(prefix<C>(a.t, want), "C27 what reached the failing sink is not the beginning of the text"); __sx_cover(a.failed ? "sink failed" : "sink works"); break; }
  }
}
SX_ENTRY(fault_write) { int how = __sx_param(0), mode = __sx_param(1); jv v = dshape(__sx_param(2)); uint64_t at = sym(16, "at"); write_case<json, char>(how, mode, v, at); }
SX_ENTRY(fault_write_sym) { Gen g(__sx_param(2), 0); g.full_int = false; int64_t a = (int64_t)(int8_t)sym(8, "a"); std::string s = g.str(2); jv v = A(a, s); uint64_t at = sym(16, "at"); write_case<json, char>(__sx_param(0), __sx_param(1), v, at); }
SX_ENTRY(fault_wwrite) { int how = __sx_param(0), mode = __sx_param(1); wjson::value v(value_constant::array); v.push_back((int64_t)(int8_t)sym(8, "a")); v.push_back(std::wstring(1, (wchar_t)sym_scalar("cp"))); wjson::value o(value_constant::object); o[L"k"] = true; v.push_back(o); uint64_t at = sym(16, "at"); write_case<wjson, wchar_t>(how, mode, v, at); }
// text written for a wide stream from narrow strings
SX_ENTRY(fault_write_cross) { jv v = dshape(__sx_param(2)); uint64_t at = sym(16, "at"); std::wstring want = json::dump<wchar_t>(v); BadOut<wchar_t> b(at, __sx_param(0)); std::wostream os(&b); write_check<wchar_t>(b, want, [&] { json::dump(os, v); }); }
// the insertion operator
SX_ENTRY(fault_insert) { int how = __sx_param(0); jv v = dshape(__sx_param(1)); uint64_t at = sym(16, "at"); std::string want = json::dump(v); BadOut<char> b(at, how); std::ostream os(&b); int r = outcome([&] { os << json::wrap(v); }); if (b.failed) CHECK(r != R_NONE || !os.good(), "C27 a sink failed and the insertion operator reported no error"); else CHECK(r == R_NONE && os.good() && b.t == want, "C27 a sink that works received another text"); __sx_cover("inserted"); }
// no sink at all, or one that refuses everything
SX_ENTRY(fault_none) { jv v = dshape(__sx_param(0)); std::ostream os((std::streambuf*)nullptr); int r = outcome([&] { json::dump(os, v); }); CHECK(r != R_NONE, "C27 dump to a stream without a buffer reported no error"); std::istream is((std::streambuf*)nullptr); jv w; r = outcome([&] { json::parse(w, is); }); CHECK(r != R_NONE, "C27 parse from a stream without a buffer reported no error"); __sx_cover("none"); }
// a stream that failed before: the wrapped operators leave it and the value alone
SX_ENTRY(fault_state) {
  static const std::ios_base::iostate B[] = { std::ios_base::failbit, std::ios_base::badbit, std::ios_base::eofbit }; std::ios_base::iostate st = std::ios_base::goodbit; int m = __sx_param(0); for (int i = 0; i < 3; i++) if (m >> i & 1) st |= B[i];
  int64_t a = (int64_t)(int8_t)sym(8, "a"); jv v = A(a, "x"); std::vector<int> l(2, (int)a); const std::vector<int> cl(l); std::ostringstream os; os << "<"; os.setstate(st);
  int r = outcome([&] { os << json::wrap(v); os << json::wrap(l); os << json::wrap(cl); }); CHECK(r == R_NONE || m, "C27 inserting into a stream threw"); CHECK(m ? os.str() == "<" && !os.good() : os.str().size() > 8, "C27 the insertion operator wrote to a stream that had failed"); CHECK((os.rdstate() & st) == st, "C27 the state of a failed stream was cleared");
  std::istringstream is("[7]"); is.setstate(st); jv w = v; auto ww = json::wrap(w); r = outcome([&] { is >> ww; }); bool kept = w.is_array() && w.size() == 2 && w[0].get<int64_t>() == a; CHECK(m ? kept && is.fail() && (is.rdstate() & st) == st : w.size() == 1, "C27 the extraction operator read from a stream that had failed");
  std::istringstream is2("[7,8,9]"); is2.setstate(st); auto wl = json::wrap(l); r = outcome([&] { is2 >> wl; }); CHECK(m ? l == cl && is2.fail() : l.size() == 3, "C27 the extraction operator read from a stream that had failed"); __sx_cover(m ? "failed before" : "inserted");
}
