// C15: where the text comes from; the stream adapters.
#include "gen.h"
#include <sstream>
#include <vector>
struct Out { bool threw; int kind; std::string msg; Out() : threw(false), kind(0) {} };
template <class F> static Out run(F f) {
  Out o; try { f(); }
  catch (const configor_deserialization_error& e) { o.threw = true; o.kind = 2; o.msg = e.what(); }
  catch (const configor_exception& e) { o.threw = true; o.kind = 4; o.msg = e.what(); }
  catch (const std::exception& e) { o.threw = true; o.kind = 5; o.msg = e.what(); }
  return o;
}
// user adapters: one unit at a time, or with a bulk read; they keep answering "end" afterwards
template <class C> struct In1 : basic_iadapter<C> {
  const C* p; size_t n, i; int after; In1(const C* q, size_t m) : p(q), n(m), i(0), after(0) {}
  C read() override { if (i < n) return p[i++]; after++; return (C)std::char_traits<C>::eof(); }
};
template <class C> struct InN : In1<C> {
  using In1<C>::read; int bulk; InN(const C* q, size_t m) : In1<C>(q, m), bulk(0) {}
  void read(C* s, size_t k) override { bulk++; for (size_t j = 0; j < k; j++) s[j] = this->In1<C>::read(); }
};
enum { S_CSTR, S_ISS, S_FILE, S_ADAPTER, S_WRAP, S_STREAMBUF, S_INTO, S_CSTR_INTO, S_FILE_INTO, S_OFFSET, S_WRAP_FLAGS, NSRC };
template <class J, class C> static void from(int k, typename J::value& v, const std::basic_string<C>& s, bool* ws_only) {
  typedef typename J::value V; typedef std::basic_istringstream<C> ISS; *ws_only = false;
  switch (k) {
    case S_CSTR: { v = J::parse(s.c_str()); break; }
    case S_ISS: { ISS is(s); v = J::parse(is); break; }
    case S_FILE: { void* f = rt_file(s.data(), s.size(), sizeof(C) > 1); try { v = J::template parse<C>((std::FILE*)f); } catch (...) { rt_file_close(f); throw; } rt_file_close(f); break; }
    case S_ADAPTER: { In1<C> a(s.data(), s.size()); basic_iadapterstream<C> is(a); v = J::parse(is); break; }
    case S_WRAP: { ISS is(s); is >> J::wrap(v); *ws_only = is.fail(); break; }
    case S_STREAMBUF: { std::basic_stringbuf<C> b(s); std::basic_istream<C> is(&b); J::parse(v, is); break; }
    case S_INTO: { v = 5; J::template parse<C>(v, s); break; }
    case S_CSTR_INTO: { v = true; J::parse(v, s.c_str()); break; }
    case S_FILE_INTO: { v = V(value_constant::array); v.push_back(1); void* f = rt_file(s.data(), s.size(), sizeof(C) > 1); try { J::template parse<C>(v, (std::FILE*)f); } catch (...) { rt_file_close(f); throw; } rt_file_close(f); break; }
    case S_OFFSET: { std::basic_string<C> t(2, (C)'x'); t += s; ISS is(t); is.get(); is.get(); v = J::parse(is); break; }        // a stream that was already read from
    case S_WRAP_FLAGS: { ISS is(s); is.unsetf(std::ios_base::skipws); is.setf(std::ios_base::hex, std::ios_base::basefield); is.width(3); v = V(value_constant::object); is >> J::wrap(v); *ws_only = is.fail(); break; }
  }
}
template <class J, class C> static bool same(const typename J::value& a, const typename J::value& b);
template <> bool same<json, char>(const jv& a, const jv& b) { return same_tree(a, b); }
template <> bool same<wjson, wchar_t>(const wjson::value& a, const wjson::value& b) { return a.type() == b.type() && (a == b || a.is_floating()); }
// extraction first skips what the stream's locale calls a space; vertical tab and form feed are no JSON whitespace
template <class C> static bool skips_more(int k, const std::basic_string<C>& s) { if (k != S_WRAP) return false; for (size_t i = 0; i < s.size(); i++) { C c = s[i]; if (c == 11 || c == 12) return true; if (!(c == ' ' || c == '\t' || c == '\n' || c == '\r')) return false; } return false; }
template <class J, class C> static void compare(int k, const std::basic_string<C>& s) {
  if (skips_more<C>(k, s)) return;
  typename J::value a, b; bool ws = false; Out x = run([&] { a = J::template parse<C>(s); }), y = run([&] { from<J, C>(k, b, s, &ws); });
  __sx_observe("threw", x.threw); __sx_observe("other", y.threw);
  if (ws) { CHECK(x.threw, "C15 the extraction operator fails on text that parses"); __sx_cover("failed"); return; }
  CHECK(x.threw == y.threw, "C15 one source accepts what another rejects");
  if (x.threw) { CHECK(x.kind == y.kind && x.msg.size() == y.msg.size(), "C15 the failure differs with the source"); __sx_cover("failed"); }
  else { CHECK((same<J, C>(a, b)), "C15 the value differs with the source"); __sx_cover("parsed"); }
}
static bool usable(int k, unsigned u, unsigned eof) { return !((k == S_CSTR || k == S_CSTR_INTO) && u == 0) && !(k == S_ADAPTER && u == eof); }
SX_ENTRY(src_any) { int k = __sx_param(0), n = __sx_param(1); std::string s; for (int i = 0; i < n; i++) { unsigned u = (unsigned)sym(8, "b"); __sx_assume(usable(k, u, 0xFF)); s.push_back((char)u); } compare<json, char>(k, s); }
SX_ENTRY(src_wide) { int k = __sx_param(0), n = __sx_param(1); std::wstring s; for (int i = 0; i < n; i++) { uint32_t u = (uint32_t)sym(32, "u"); __sx_assume(usable(k, u, 0xFFFFFFFFu)); __sx_assume((u != 0xFFFFFFFFu) & (k != S_FILE && k != S_FILE_INTO ? true : is_scalar_value(u))); s.push_back((wchar_t)u); } compare<wjson, wchar_t>(k, s); }
static const struct { const char* s; int n; } TPL[] = {
#define T(x) { x, (int)sizeof(x) - 1 }
  T("[1,~]"), T("{\"k\":~2}"), T("\"ab~\""), T("\"\\u00$$\""), T("12~"), T("-1.5e~"), T("~{}"), T("[]~"), T("//~\n1"), T("/*~*/[2]"), T("\xEF\xBB\xBF~"), T("[\"\xE4\xB8~\"]"), T(" \n~\t[1] "), T("tru~"), T("[[~],{\"a\":[\"b\",~]}]"), T("123456789~"), T("{\"a\":1,\"a\":~}"), T("\"~\xC3\xA9\""), T("\"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqr~\""), T("[1,2,3,4,5,6,7,8,9,0,1,2,3,4,5,6,7,8,9,~]"),
#undef T
};
SX_ENTRY(src_template) { int k = __sx_param(0), t = __sx_param(1); Bytes b; fill_template(b, TPL[t].s, TPL[t].n); for (int i = 0; i < b.n; i++) __sx_assume(usable(k, b.b[i], 0xFF)); compare<json, char>(k, b.str()); }
// extraction into other types agrees with parsing and converting
SX_ENTRY(src_wrap_types) {
  int k = __sx_param(0), n = __sx_param(1); Bytes b; if (k == 2) b.add('['); if (k == 1) b.add('"'); for (int i = 0; i < n; i++) b.add((unsigned)sym(8, "b")); if (k == 2) b.add(']'); if (k == 1) b.add('"'); std::string s = b.str(); bool ws = false; Out x, y; if (skips_more<char>(S_WRAP, s)) return;
  if (k == 0) { int p = 7, q = 7; x = run([&] { p = json::parse(s).get<int>(); }); y = run([&] { std::istringstream is(s); is >> json::wrap(q); ws = is.fail(); }); if (ws) CHECK(x.threw, "C15 extraction fails on text that parses"); else { CHECK(x.threw == y.threw, "C15 extraction of an int"); CHECK(p == q, "C15 extraction gives another int"); } }
  else if (k == 1) { std::string p = "?", q = "?"; x = run([&] { p = json::parse(s).get<std::string>(); }); y = run([&] { std::istringstream is(s); is >> json::wrap(q); }); CHECK(x.threw == y.threw, "C15 extraction of a string"); CHECK(bytes_eq(p, q), "C15 extraction gives another string"); }
  else { std::vector<int> p, q; x = run([&] { p = json::parse(s).get<std::vector<int>>(); }); y = run([&] { std::istringstream is(s); is >> json::wrap(q); }); CHECK(x.threw == y.threw, "C15 extraction of a vector"); CHECK(p == q, "C15 extraction gives another vector"); }
  __sx_cover("types");
}

// ---- stream adapters against a cursor over the same units
enum { B_STRING, B_BUFFER, B_FILE, B_ADAPTER, B_ADAPTER_BULK };
template <class C> struct Src {   // owns whatever the stream buffer reads from
  std::basic_string<C> s; In1<C> a; InN<C> b; void* f; std::basic_streambuf<C>* sb; basic_iadapterstream<C>* as; int kind;
  Src(int k, const std::basic_string<C>& t) : s(t), a(s.data(), s.size()), b(s.data(), s.size()), f(nullptr), sb(nullptr), as(nullptr), kind(k) {
    switch (k) {
      case B_STRING: sb = new detail::fast_string_istreambuf<C>(s); break;
      case B_BUFFER: sb = new detail::fast_buffer_istreambuf<C>(s.c_str()); break;
      case B_FILE: f = rt_file(s.data(), s.size(), sizeof(C) > 1); sb = new detail::fast_cfile_istreambuf<C>((std::FILE*)f); break;
      case B_ADAPTER: as = new basic_iadapterstream<C>(a); sb = as->rdbuf(); break;
      default: as = new basic_iadapterstream<C>(b); sb = as->rdbuf(); break;
    }
  }
  ~Src() { if (as) delete as; else delete sb; if (f) rt_file_close(f); }
};
// operations on the buffer itself: look, take, skip, bulk read of up to 3 units
template <class C> static void buffer_ops(int kind, int n, int len, bool end) {
  typedef std::char_traits<C> X; std::basic_string<C> s;
  for (int i = 0; i < n; i++) { uint32_t u = (uint32_t)sym(sizeof(C) == 1 ? 8 : 32, "u"); if (sizeof(C) > 1 || kind >= B_ADAPTER) __sx_assume(u != (sizeof(C) == 1 ? 0xFFu : 0xFFFFFFFFu)); if (kind == B_BUFFER) __sx_assume(u != 0); if (kind == B_FILE && sizeof(C) > 1) __sx_assume(is_scalar_value(u)); s.push_back((C)u); }
  Src<C> src(kind, s); std::basic_streambuf<C>& b = *src.sb; size_t at = 0; const size_t N = s.size();
  for (int i = 0; i < len; i++) {
    unsigned op = choose(6, "op"); typename X::int_type want = at < N ? X::to_int_type(s[at]) : X::eof();
    if (op == 0) CHECK(b.sgetc() == want, "C15 looking at the next unit gives something else");
    else if (op == 1) { CHECK(b.sbumpc() == want, "C15 taking the next unit gives something else"); if (at < N) at++; }
    else if (op == 2) { if (at < N) { at++; } want = at < N ? X::to_int_type(s[at]) : X::eof(); CHECK(b.snextc() == want, "C15 skipping a unit gives something else"); }
    else {
      size_t k = op - 2; C out[4] = { (C)'?', (C)'?', (C)'?', (C)'?' }; size_t left = N - at, got = k < left ? k : left;
      if (kind >= B_ADAPTER && k > left) { if (!end) continue; k = left; got = left; }       // an adapter cannot report a short read
      std::streamsize r = b.sgetn(out, (std::streamsize)k); CHECK((size_t)r == got, "C15 a bulk read reports the wrong count");
      for (size_t j = 0; j < got; j++) CHECK(out[j] == s[at + j], "C15 a bulk read gives other units"); for (size_t j = k; j < 4; j++) CHECK(out[j] == (C)'?', "C15 a bulk read writes outside the buffer");
      at += got;
    }
  }
  while (at < N) { CHECK(b.sbumpc() == X::to_int_type(s[at]), "C15 a unit was lost or repeated"); at++; }
  CHECK(b.sgetc() == X::eof() && b.sbumpc() == X::eof() && b.sgetc() == X::eof(), "C15 the end is not reported after the last unit"); __sx_cover("buffer");
}
SX_ENTRY(buf_ops) { buffer_ops<char>(__sx_param(0), __sx_param(1), __sx_param(2), true); }
SX_ENTRY(wbuf_ops) { buffer_ops<wchar_t>(__sx_param(0), __sx_param(1), __sx_param(2), true); }
// operations on a stream over the buffer
template <class C> static void stream_ops(int kind, int n, int len) {
  typedef std::char_traits<C> X; std::basic_string<C> s; for (int i = 0; i < n; i++) { uint32_t u = (uint32_t)sym(sizeof(C) == 1 ? 8 : 32, "u"); if (sizeof(C) > 1 || kind >= B_ADAPTER) __sx_assume(u != (sizeof(C) == 1 ? 0xFFu : 0xFFFFFFFFu)); if (kind == B_BUFFER) __sx_assume(u != 0); if (kind == B_FILE && sizeof(C) > 1) __sx_assume(is_scalar_value(u)); s.push_back((C)u); }
  Src<C> src(kind, s); std::basic_istream<C> own(src.sb); std::basic_istream<C>& is = src.as ? *src.as : own; size_t at = 0; const size_t N = s.size();
  for (int i = 0; i < len; i++) {
    if (!is.good()) break;
    unsigned op = choose(4, "op");
    if (op == 0) CHECK(is.peek() == (at < N ? X::to_int_type(s[at]) : X::eof()), "C15 peek gives something else");
    else if (op == 1) { CHECK(is.get() == (at < N ? X::to_int_type(s[at]) : X::eof()), "C15 get gives something else"); if (at < N) at++; }
    else if (op == 2) { C c = (C)'?'; is.get(c); if (at < N) { CHECK(c == s[at], "C15 get gives another unit"); at++; } else CHECK(!is, "C15 get past the end did not fail"); }
    else { C o[2] = { 0, 0 }; size_t left = N - at; if (kind >= B_ADAPTER && left < 2) continue; is.read(o, 2); size_t got = left < 2 ? left : 2; CHECK((size_t)is.gcount() == got, "C15 read reports the wrong count"); for (size_t j = 0; j < got; j++) CHECK(o[j] == s[at + j], "C15 read gives other units"); CHECK(is.good() == (got == 2), "C15 the stream state after read"); at += got; }
  }
  if (is.good()) { while (at < N) { CHECK(is.get() == X::to_int_type(s[at]), "C15 a unit was lost or repeated"); at++; } CHECK(is.get() == X::eof() && is.eof(), "C15 the end is not reported"); }
  __sx_cover("stream");
}
SX_ENTRY(str_ops) { stream_ops<char>(__sx_param(0), __sx_param(1), __sx_param(2)); }
SX_ENTRY(wstr_ops) { stream_ops<wchar_t>(__sx_param(0), __sx_param(1), __sx_param(2)); }
// the parser reads an adapter to its end and each unit once
SX_ENTRY(src_reads) {
  int n = __sx_param(0); std::string s; for (int i = 0; i < n; i++) { unsigned u = (unsigned)sym(8, "b"); __sx_assume(u != 0xFF); s.push_back((char)u); }
  In1<char> a(s.data(), s.size()); iadapterstream is(a); jv v; Out x = run([&] { v = json::parse(is); }); if (!x.threw) CHECK(a.i == s.size(), "C15 a successful parse left units unread"); CHECK(a.i <= s.size(), "C15 read too far"); __sx_cover("reads");
}
