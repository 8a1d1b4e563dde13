// C15: long texts through every source.
#include "big.h"
#include "src.cpp"
static std::wstring widen(const std::string& s) { std::wstring w; for (size_t i = 0; i < s.size();) { uint32_t c = 0; int k = ref_dec8((const unsigned char*)s.data() + i, (int)(s.size() - i), &c); if (!k) { c = '?'; k = 1; } w.push_back((wchar_t)c); i += (size_t)k; } return w; }
// source, document, size, position, how: 0 a symbolic unit there, 3 the text ends there; 8 after other work
SX_ENTRY(big_src) {
  int k = __sx_param(0), how = __sx_param(4), m[3]; std::string t = bigdoc(__sx_param(1), __sx_param(2), m); int at = m[__sx_param(3)]; unsigned c = (unsigned)sym(8, "b"); __sx_assume(usable(k, c, 0xFF)); if (how & 8) warm(7);
  if ((how & 7) == 3) { t.resize((size_t)at); t += (char)c; } else t[(size_t)at] = (char)c; for (char ch : t) if (!usable(k, (unsigned char)ch, 0xFF)) return; compare<json, char>(k, t); __sx_cover("long");
}
SX_ENTRY(big_wsrc) {
  int k = __sx_param(0), m[3]; std::string t = bigdoc(__sx_param(1), __sx_param(2), m); int at = m[__sx_param(3)]; size_t w = widen(t.substr(0, (size_t)at)).size(); std::wstring s = widen(t); uint32_t u = (uint32_t)sym(32, "u"); __sx_assume(usable(k, u, 0xFFFFFFFFu) && u != 0xFFFFFFFFu); if (k == S_FILE || k == S_FILE_INTO) __sx_assume(is_scalar_value(u)); s[w] = (wchar_t)u; compare<wjson, wchar_t>(k, s); __sx_cover("long");
}
// the buffers themselves: chunked reads
template <class C> static void chunks(int kind, int n, int at, int cut) {
  static const int CH[5][4] = { { 1, 1, 1, 1 }, { 3, 1, 7, 2 }, { 16, 1, 15, 17 }, { 64, 63, 1, 65 }, { 256, 1, 300, 5 } }; typedef std::char_traits<C> X; std::basic_string<C> s; for (int i = 0; i < n; i++) s.push_back((C)('a' + i % 23)); uint32_t u = (uint32_t)sym(8, "u"); __sx_assume((u != 0) & (u != 0xFF)); s[(size_t)at] = (C)u;
  Src<C> src(kind, s); std::basic_streambuf<C>& b = *src.sb; size_t p = 0; static C out[512];
  for (int i = 0; p < (size_t)n; i++) { size_t k = (size_t)CH[cut][i % 4], left = (size_t)n - p; if (kind >= B_ADAPTER && k > left) k = left; size_t got = k < left ? k : left; if (i % 3 == 0) CHECK(b.sgetc() == X::to_int_type(s[p]), "C15 looking at the next unit gives something else"); CHECK((size_t)b.sgetn(out, (std::streamsize)k) == got, "C15 a bulk read reports the wrong count"); bool e = true; for (size_t j = 0; j < got; j++) e = e & (out[j] == s[p + j]); CHECK(e, "C15 a bulk read gives other units"); p += got; if (i % 2 && p < (size_t)n) { CHECK(b.sbumpc() == X::to_int_type(s[p]), "C15 taking the next unit gives something else"); p++; } }
  CHECK(b.sgetc() == X::eof() && b.sbumpc() == X::eof() && b.sgetc() == X::eof(), "C15 the end is not reported after the last unit"); __sx_cover("chunks");
}
SX_ENTRY(big_chunks) { int n = __sx_param(2); if (__sx_param(1)) chunks<wchar_t>(__sx_param(0), n, place(__sx_param(3), n), __sx_param(4)); else chunks<char>(__sx_param(0), n, place(__sx_param(3), n), __sx_param(4)); }
// one stream object, several documents: set anew each time, after success and after failure
SX_ENTRY(big_reuse) {
  int d = __sx_param(0), m[3]; std::string a = bigdoc(d, 20, m); a[(size_t)m[1]] = (char)sym(8, "b"); std::string b = "[1,{\"k\":\"x\"}]", c = "[1,2"; std::istringstream is; jv want, v; bool ok = true; try { want = json::parse(a); } catch (const configor_deserialization_error&) { ok = false; }
  for (int i = 0; i < 6; i++) { const std::string& t = i % 3 == 0 ? a : i % 3 == 1 ? c : b; is.clear(); is.str(t); bool th = false; try { if (i < 3) json::parse(v, is); else v = json::parse(is); } catch (const configor_deserialization_error&) { th = true; } if (i % 3 == 0) { CHECK(th == !ok, "C15 one source accepts what another rejects"); if (ok) CHECK(same_tree(v, want), "C15 the value differs with the source"); } else if (i % 3 == 1) CHECK(th, "C15 one source accepts what another rejects"); else CHECK(!th && v.is_array() && v.size() == 2 && v[1]["k"].get<std::string>() == "x", "C15 the value differs with the source"); }
  __sx_cover("reuse");
}
