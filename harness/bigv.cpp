// C09 C10 C11 C12 C13 C30: big strings and trees, dumped and read back.
#include "big.h"
#include "layout.h"
#include <sstream>
using JS = json::serializer; using WS = wjson::serializer;
static Ref R;
static bool strict_json(const std::string& t) { R.~Ref(); new (&R) Ref(true); int root; return (int)t.size() < BYTES_CAP && R.parse((const unsigned char*)t.data(), (int)t.size(), &root) == R_ACCEPT; }
static bool ascii(const std::string& t) { bool a = true; for (unsigned char c : t) a = a & (c < 0x80); return a; }
// any scalar value (few symbolic bits in escaped text: the whole range is decided for short strings)
static uint32_t any_cp(bool few, int n) { if (!few) return sym_scalar("cp"); static const uint32_t B[] = { 0, 0x780, 0xD780, 0xFF80, 0x10FF00, 0x1FFF0, 0x2000 }; uint32_t c = B[n % 7] + (uint32_t)sym(8, "cp"); __sx_assume(is_scalar_value(c)); return c; }
static const char* cp(std::string& s, int kind, int n, int at, bool few) {     // n code points, one of them any
  s.clear(); for (int i = 0; i < n; i++) { if (i == at) { Bytes b; ref_enc8(b, any_cp(few, n)); s += b.str(); } else s += bigstr(kind, 4).substr(0, 0) + (kind == 0 ? std::string(1, letter(i)) : kind == 1 ? std::string(MB[i % 8]) : kind == 2 ? std::string(1, (char)(i % 32)) : i % 4 == 0 ? std::string(MB[i / 4 % 8]) : i % 4 == 1 ? std::string(1, "\n\t\"\\/\b\f\r\x7f"[i / 4 % 9]) : std::string(1, letter(i))); }
  return s.c_str();
}
// C09 C10: kind, length, position, mode: 1 escaping, 2 as a key, 4 inside an array between others, 8 after other work
SX_ENTRY(big_string) {
  int kind = __sx_param(0), n = __sx_param(1), pos = __sx_param(2), mode = __sx_param(3); std::string s; cp(s, kind, n, place(pos, n), (mode & 1) != 0); jv v; if (mode & 8) warm(3);
  if (mode & 2) v[s] = 1; else v = s; if (mode & 4) v = A("x", v, s);
  std::string t = json::dump(v, { JS::with_unicode_escaping((mode & 1) != 0) }); __sx_observe("n", t.size());
  CHECK(strict_json(t), "C10 the dumped text is not one well-formed JSON document"); if (mode & 1) CHECK(ascii(t), "C10 escaped text is not ASCII");
  jv w = json::parse(t); CHECK(same_tree(v, w), "C09 a string did not survive dump and parse"); __sx_cover("big string");
}
// ill-formed far into a long string: dump fails
SX_ENTRY(big_bad_string) {
  int kind = __sx_param(0), n = __sx_param(1), pos = __sx_param(2); bool esc = __sx_param(3) & 1; std::string s = bigstr(kind, n); size_t at = (size_t)place(pos, (int)s.size()); while (at && ((unsigned char)s[at] & 0xC0) == 0x80) at--; s.insert(at, 2, '?'); s[at] = (char)sym(8, "b"); s[at + 1] = (char)sym(8, "b");
  int i = 0; bool good = true; while (i < (int)s.size()) { uint32_t c; int k = ref_dec8((const unsigned char*)s.data() + i, (int)s.size() - i, &c); if (!k) { good = false; break; } i += k; }
  jv v = A(s); bool threw = false; std::string t; try { t = json::dump(v, { JS::with_unicode_escaping(esc) }); } catch (const configor_serialization_error&) { threw = true; } CHECK(threw == !good, "C09 dump accepted a string that is not well-formed, or failed on a well-formed one"); if (good) CHECK(same_tree(v, json::parse(t)), "C09 a string did not survive dump and parse"); __sx_cover(good ? "big good" : "big bad");
}
SX_ENTRY(big_wstring) {
  int n = __sx_param(0), pos = __sx_param(1); bool esc = __sx_param(2) & 1, key = __sx_param(2) & 2; std::wstring s; static const uint32_t W[] = { 'a', 0x20AC, 0x1F600, '\n', '"', 0xFFFF, 0x10FFFF, 0xD7FF, 0xE000, '\\', 'z', 1 }; for (int i = 0; i < n; i++) s.push_back(i == place(pos, n) ? (wchar_t)any_cp(esc, n) : (wchar_t)W[i % 12]);
  wjson::value v; if (key) v[s] = 1; else { v = value_constant::array; v.push_back(s); v.push_back(2); } std::wstring t = wjson::dump(v, { WS::with_unicode_escaping(esc) }); wjson::value w = wjson::parse(t); CHECK(w == v && w.type() == v.type() && w.size() == v.size(), "C09 a wide string did not survive"); if (!key) { std::wstring r = w[0].get<std::wstring>(); CHECK(r.size() == s.size(), "C09 wide string length"); bool e = true; for (size_t i = 0; i < s.size(); i++) e = e & (r[i] == s[i]); CHECK(e, "C09 a wide string did not survive"); } if (esc) { bool a = true; for (wchar_t c : t) a = a & ((uint32_t)c < 0x80); CHECK(a, "C10 escaped text is not ASCII"); } __sx_cover("big wide");
}
// C10 C11 C30: what 1 well-formed, 2 round trip, 4 layout; kind, size, position, option set
SX_ENTRY(big_tree) {
  int what = __sx_param(0), kind = __sx_param(1), n = __sx_param(2), pos = __sx_param(3), opt = __sx_param(4); int64_t c = (int64_t)sym(8, "c") - 128; jv v = bigtree(kind, n, place(pos, n), c); if (opt & 8) warm(7);
  unsigned step = 0; char ch = ' '; bool esc = false; switch (opt & 7) { case 0: break; case 1: step = 2; break; case 2: esc = true; break; case 3: step = 1; ch = '\t'; esc = true; break; default: step = 5; ch = ' '; }
  std::string t = json::dump(v, { JS::with_indent((uint8_t)step, ch), JS::with_unicode_escaping(esc) }); __sx_observe("n", t.size());
  if (what & 1) { CHECK(strict_json(t), "C10 the dumped text is not one well-formed JSON document"); if (esc) CHECK(ascii(t), "C10 escaped text is not ASCII"); __sx_cover("big text"); }
  if (what & 2) { jv w = json::parse(t); CHECK(same_tree(v, w), "C11 the tree did not survive dump and parse"); CHECK(w == v, "C11 the parsed value is not equal"); if (opt & 8) { std::string u = json::dump(w, { JS::with_indent((uint8_t)step, ch), JS::with_unicode_escaping(esc) }); CHECK(bytes_eq(t, u), "C11 the text of the value read back differs"); } __sx_cover("big trip"); }
  if ((what & 4) && !esc) { std::string want; ref_pretty<json>(want, v, 0, step, ch); CHECK(bytes_eq(want, t), "C30 the layout is not the documented one"); __sx_cover("big layout"); }
}
// C12: many floats in one document
SX_ENTRY(big_floats) {
  int n = __sx_param(0), pos = __sx_param(1), opt = __sx_param(2); jv v = value_constant::array; double f = (double)((int64_t)sym(5, "m") - 16) * (opt & 4 ? 1000003.0 : 1.0); for (int i = 0; i < n; i++) v.push_back(i == place(pos, n) ? f : i % 3 == 0 ? (double)i * 1001 : i % 3 == 1 ? -(double)i * 65537.0 * 65537.0 : 1e18 - i * 1e15);
  std::string t = (opt & 3) == 0 ? json::dump(v) : (opt & 3) == 1 ? json::dump(v, { JS::with_precision(3), JS::with_indent(1) }) : json::dump(v, { JS::with_precision(20, std::ios_base::scientific) }); CHECK(strict_json(t), "C12 a float is not printed as a JSON number"); jv w = json::parse(t); CHECK(w.is_array() && w.size() == v.size(), "C12 a float breaks its array");
  for (int i = 0; i < n; i++) { const jv& x = (*w.data().vector)[(size_t)i]; CHECK(x.is_floating(), "C12 a float with an integral value did not stay a float"); CHECK(x.data().floating == (*v.data().vector)[(size_t)i].data().floating, "C12 an integral float below 2^53 did not survive dump and parse"); } __sx_cover("big floats");
}
// a non-finite float anywhere in a big tree makes dump fail, also with options
SX_ENTRY(big_nonfinite) {
  int n = __sx_param(0), pos = __sx_param(1), opt = __sx_param(2); uint64_t bits = sym(64, "bits"); __sx_assume(((bits >> 52) & 0x7FF) == 0x7FF); double f; memcpy(&f, &bits, 8); jv v = value_constant::array; for (int i = 0; i < n; i++) { if (i == place(pos, n)) v.push_back(opt & 2 ? O("k", A(f)) : jv(f)); else if (i % 2) v.push_back(i * 0.25); else v.push_back(A(1, 2.0)); }
  bool threw = false; try { if (opt & 1) json::dump(v, { JS::with_precision(5), JS::with_indent(2) }); else json::dump(v); } catch (const configor_serialization_error&) { threw = true; } CHECK(threw, "C12 a non-finite float was dumped"); __sx_cover("big non-finite");
}
