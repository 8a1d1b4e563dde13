// C09 C10 C11 C12: dumped text.
#define BYTES_CAP 2048
#include "gen.h"
#include <sstream>
#include <cmath>
using JS = json::serializer; using WS = wjson::serializer;

// ------------------------------------------------------------------ C09
// mode bit 0: escaping, bit 1: as a key; n scalar values
SX_ENTRY(str_roundtrip) {
  int n = __sx_param(0); bool esc = __sx_param(1) & 1, key = __sx_param(1) & 2;
  Bytes b; for (int i = 0; i < n; i++) { uint32_t c = sym_scalar("cp"); ref_enc8(b, c); }
  std::string s = b.str(), back; jv v; if (key) v[s] = 1; else v = s;
  std::string text = json::dump(v, { JS::with_unicode_escaping(esc) });
  __sx_observe_bytes("text", text.data(), text.size());
  jv w = json::parse(text);
  if (key) { CHECK(w.is_object() && w.size() == 1 && w.count(s) == 1, "C09 an object key did not survive dump and parse"); }
  else { CHECK(w.is_string(), "C09 a string did not stay a string"); CHECK(bytes_eq(w.get<std::string>(), s), "C09 a string did not survive dump and parse"); }
  if (esc) { for (size_t i = 0; i < text.size(); i++) CHECK((unsigned char)text[i] < 0x80, "C10 escaped text is not ASCII"); }
  __sx_cover("narrow");
}
SX_ENTRY(wstr_roundtrip) {
  int n = __sx_param(0); bool esc = __sx_param(1) & 1, key = __sx_param(1) & 2;
  std::wstring s; for (int i = 0; i < n; i++) s.push_back((wchar_t)sym_scalar("cp"));
  wjson::value v; if (key) v[s] = 1; else v = s;
  std::wstring text = wjson::dump(v, { WS::with_unicode_escaping(esc) });
  wjson::value w = wjson::parse(text);
  if (key) CHECK(w.is_object() && w.size() == 1 && w.count(s) == 1, "C09 a wide key did not survive");
  else { CHECK(w.is_string(), "C09 a wide string did not stay a string"); std::wstring r = w.get<std::wstring>(); CHECK(r.size() == s.size(), "C09 wide string length"); for (size_t i = 0; i < s.size(); i++) CHECK(r[i] == s[i], "C09 a wide string did not survive"); }
  __sx_cover("wide");
}
// arbitrary bytes: well-formed ones survive, others make dump fail
SX_ENTRY(str_bytes) {
  int n = __sx_param(0); bool esc = __sx_param(1) & 1, key = __sx_param(1) & 2; Bytes b; for (int i = 0; i < n; i++) b.add((unsigned)sym(8, "b"));
  int i = 0; bool good = true; while (i < b.n) { uint32_t c; int k = ref_dec8(b.b + i, b.n - i, &c); if (!k) { good = false; break; } i += k; }
  std::string s = b.str(); jv v; if (key) v[s] = nullptr; else v = s;
  try { std::string text = json::dump(v, { JS::with_unicode_escaping(esc) }); CHECK(good, "C09 dump accepted a string that is not well-formed"); jv w = json::parse(text); CHECK(same_tree(v, w), "C09 a string did not survive dump and parse"); __sx_cover("bytes good"); }
  catch (const configor_serialization_error&) { CHECK(!good, "C09 dump failed on a well-formed string"); __sx_cover("bytes bad"); }
}
SX_ENTRY(wstr_units) {
  int n = __sx_param(0); bool esc = __sx_param(1) & 1; std::wstring s; bool good = true; for (int i = 0; i < n; i++) { uint32_t u = (uint32_t)sym(32, "u"); __sx_assume(u != 0xFFFFFFFFu); s.push_back((wchar_t)u); }
  for (int i = 0; i < n; i++) if (!is_scalar_value((uint32_t)s[(size_t)i])) good = false;
  wjson::value v = s;
  try { std::wstring t = wjson::dump(v, { WS::with_unicode_escaping(esc) }); CHECK(good, "C09 dump accepted a wide string that is not well-formed"); wjson::value w = wjson::parse(t); CHECK(w.is_string() && w.get<std::wstring>() == s, "C09 a wide string did not survive"); __sx_cover("units good"); }
  catch (const configor_serialization_error&) { CHECK(!good, "C09 dump failed on a well-formed wide string"); __sx_cover("units bad"); }
}

// ------------------------------------------------------------------ C10 C11
// whitespace outside strings, other text unchanged
static std::string strip(const std::string& t, bool* ws) { std::string o; bool in = false; *ws = false; for (size_t i = 0; i < t.size(); i++) { char c = t[i]; if (in) { o.push_back(c); if (c == '\\') { i++; if (i < t.size()) o.push_back(t[i]); } else if (c == '"') in = false; } else if (c == ' ' || c == '\t' || c == '\n' || c == '\r') *ws = true; else { o.push_back(c); if (c == '"') in = true; } } return o; }
static void dump_tree(jv& v, unsigned step, char ch, bool esc, bool prec, int mode) {
  std::string text, flat;
  if (prec) text = json::dump(v, { JS::with_indent((uint8_t)step, ch), JS::with_unicode_escaping(esc), JS::with_precision(9) });
  else text = json::dump(v, { JS::with_indent((uint8_t)step, ch), JS::with_unicode_escaping(esc) });
  __sx_observe_bytes("text", text.data(), text.size());
  bool ws; flat = strip(text, &ws);
  if (mode & 1) {
    Bytes b; if (text.size() >= BYTES_CAP) return; for (size_t i = 0; i < text.size(); i++) b.add((unsigned char)text[i]);
    Ref r(true); int root; int e = r.parse(b.b, b.n, &root);
    CHECK(e == R_ACCEPT, "C10 the dumped text is not one well-formed JSON document");
    if (step == 0) CHECK(!ws, "C10 whitespace without indentation");
    if (esc) for (size_t i = 0; i < text.size(); i++) CHECK((unsigned char)text[i] < 0x80, "C10 escaped text is not ASCII");
    __sx_cover("well-formed");
  }
  if (mode & 2) {
    jv w = json::parse(text);
    CHECK(same_tree(v, w), "C11 the tree did not survive dump and parse"); CHECK(w == v, "C11 the parsed value is not equal");
    __sx_cover("round trip");
  }
  if ((mode & 4) && step) { std::string compact = json::dump(v, { JS::with_unicode_escaping(esc) }); CHECK(bytes_eq(compact, flat), "C11 indentation changes more than whitespace"); __sx_cover("indent"); }
}
static char indent_char(unsigned i) { return " \t\n\r"[i]; }
// mode, nodes, depth, string length, option set
SX_ENTRY(tree_dump) {
  int mode = __sx_param(0); Gen g(__sx_param(1), __sx_param(2)); g.strlen_ = __sx_param(3); int opt = __sx_param(4); g.floats = mode & 8 ? 8 : 0; g.full_int = __sx_param(5);
  jv v = g.value(g.depth);
  unsigned step = 0; char ch = ' '; bool esc = false, prec = false;
  if (opt == 1) { step = 1 + choose(3, "step"); ch = indent_char(choose(4, "char")); }
  if (opt == 2) { step = choose(2, "step") * 4; esc = sym(1, "esc"); }
  if (opt == 3) { prec = true; step = 2; }
  if (opt == 4) { step = choose(2, "step") ? 255 : 7; ch = '\t'; }
  dump_tree(v, step, ch, esc, prec, mode);
}
// fixed shapes with symbolic leaves
SX_ENTRY(shape_dump) {
  int mode = __sx_param(0), shape = __sx_param(1), opt = __sx_param(2); Gen g(1, 0); g.full_int = true;
  std::string s1 = g.str(1); int64_t a = (int64_t)(int8_t)sym(8, "a"); jv v;
  switch (shape) {
    case 0: v = A(A(), O(), A(A()), a); break;
    case 1: v = O("a", O(), "b", A(), s1, O("x", a)); break;
    case 2: v = A(O("k", A(a, s1, nullptr)), O(s1, true), false); break;
    case 3: v = A(A(A(A(A(a))))); break;
    case 4: v = O("p", O("q", O("r", O(s1, a))), "z", nullptr); break;
    case 5: v = A("", s1, "\x01\x1f\x7f\"\\/", A(nullptr), O("", nullptr)); break;
    case 6: v = A(true, false, nullptr, a, s1, A(true, false), O("t", true, "f", false)); break;
    case 7: v = O("a", A(A(), A(O())), "b", O("c", A(1, a), "d", "x")); break;
    case 8: v = A(A(), A(A(), A()), O("a", O(), "b", O("c", A()))); break;
    case 9: v = O("a", 1, "b", O("c", 2, "d", A(3, O("e", a))), "f", A(O(), O())); break;
  }
  unsigned step = 0; char ch = ' ';
  if (opt == 1) { step = 1 + choose(4, "step"); ch = indent_char(choose(4, "char")); }
  if (opt == 2) { step = 16; ch = '\t'; }
  dump_tree(v, step, ch, false, false, mode);
}
// 256 consecutive integers around a base, and (base 99) every 64-bit integer
SX_ENTRY(int_roundtrip) {
  static const uint64_t B[] = { 0, 999, 32767, 99999, 2147483647ull, 4294967295ull, 999999999999ull, 999999999999999999ull, 9223372036854775680ull, (uint64_t)0 - 100, (uint64_t)0 - 2147483648ull, (uint64_t)0 - 1000000000000000000ull, 0x8000000000000080ull, 10000000000ull, 1ull << 53, (uint64_t)0 - 10000 };
  int k = __sx_param(0); int64_t x = k == 99 ? (int64_t)sym(64, "x") : (int64_t)(B[k] - 128 + sym(8, "x"));
  jv v = x; std::string t = json::dump(v); __sx_observe("n", t.size()); jv w = json::parse(t);
  CHECK(w.is_integer(), "C11 an integer did not stay an integer"); CHECK(w.get<int64_t>() == x, "C11 an integer did not survive dump and parse"); __sx_cover("integer");
}
// any narrow/wide value agrees
SX_ENTRY(wide_tree) {
  int shape = __sx_param(0); wchar_t c = (wchar_t)sym_scalar("cp"); int64_t a = (int64_t)(int8_t)sym(8, "a"); std::wstring s(1, c); wjson::value v;
  switch (shape) { case 0: v = wjson::array{ s, a, nullptr, wjson::object{ { s, true } } }; break; case 1: v = wjson::object{ { s, wjson::array{ a, wjson::array{} } } }; break; default: v = wjson::array{ wjson::object{}, s }; }
  std::wstring t = wjson::dump(v, { WS::with_indent((uint8_t)choose(3, "step"), L'\t') }); wjson::value w = wjson::parse(t);
  CHECK(w == v, "C11 a wide tree did not survive"); CHECK(w.size() == v.size() && w.type() == v.type(), "C11 a wide tree changed kind"); __sx_cover("wide tree");
}

// ------------------------------------------------------------------ C12
// finite floats with an integral value, by magnitude class
SX_ENTRY(float_integral) {
  int cls = __sx_param(0), opt = __sx_param(1); uint64_t bits; double f;
  if (cls == 0) { int64_t m = (int64_t)(int16_t)sym(16, "m"); f = (double)m; }                            // small integers
  else if (cls == 1) { uint64_t m = sym(53, "m"); f = (double)(int64_t)m; if (sym(1, "neg")) f = -f; }      // up to 2^53
  else if (cls == 2) { bits = sym(64, "bits"); __sx_assume(((bits >> 52) & 0x7FF) >= 1075 && ((bits >> 52) & 0x7FF) < 1086); memcpy(&f, &bits, 8); }  // 2^52 .. 2^63
  else { f = 0; bits = sym(1, "neg") << 63; memcpy(&f, &bits, 8); }                                        // +0.0, -0.0
  jv v = f; std::string t = opt ? json::dump(v, { JS::with_precision(3) }) : json::dump(v);
  jv w = json::parse(t);
  CHECK(w.is_floating(), "C12 a float with an integral value did not stay a float");
  double g = w.get<double>();
  if (cls == 0 || cls == 1 || cls == 3) CHECK(g == f, "C12 an integral float below 2^53 did not survive dump and parse");
  else { int64_t a, b; memcpy(&a, &f, 8); memcpy(&b, &g, 8); CHECK(a - b <= 4096 && b - a <= 4096, "C12 a large integral float changed"); }
  __sx_cover("integral");
}
// the text of a number is one JSON number (no other character), for integers and integral floats around the usual boundaries
static void number_text(const jv& v) {
  std::string t = json::dump(v); __sx_observe("n", t.size()); Bytes b; CHECK(t.size() < 64, "C10 a number is too long"); for (size_t i = 0; i < t.size(); i++) b.add((unsigned char)t[i]);
  Ref r(true); int root; CHECK(r.parse(b.b, b.n, &root) == R_ACCEPT, "C10 a number is not printed as a JSON number"); std::string u = json::dump(v, { JS::with_indent(2), JS::with_unicode_escaping(true) }); CHECK(bytes_eq(t, u), "C10 a number depends on the layout options"); jv a = A(v, 1); std::string w = json::dump(a); CHECK(bytes_eq(w, "[" + t + ",1]"), "C10 a number is printed differently inside an array");
}
static const uint64_t NB[] = { 0, 999, 32767, 99999, 2147483647ull, 4294967295ull, 999999999999ull, 999999999999999999ull, 9223372036854775680ull, (uint64_t)0 - 100, (uint64_t)0 - 2147483648ull, (uint64_t)0 - 1000000000000000000ull, 0x8000000000000080ull, 10000000000ull, 0x7FFFFFFFFFFFFFF0ull, 0x8000000000000010ull };
SX_ENTRY(int_text) { int k = __sx_param(0); int64_t x = (int64_t)(k == 0 || k == 12 ? NB[k] - 128 + sym(8, "x") : NB[k] - 16 + sym(5, "x")); jv v = x; number_text(v); __sx_cover("well-formed"); }
static const double FB[] = { 0, 1000, 32768, 8388608.0, 16777216.0, 2147483648.0, 4294967296.0, 1e9, 1e10, 1e12, 1e15, 4503599627370496.0, 9007199254740992.0 - 32, 99968.0, 1e14, 65536.0 };
SX_ENTRY(float_text) { int k = __sx_param(0); double f = FB[k] + (double)((int64_t)sym(4, "m") - 8); if (__sx_param(1)) f = -f; jv v = f; number_text(v); __sx_cover("well-formed"); }
SX_ENTRY(float_bases) {
  int k = __sx_param(0), opt = __sx_param(2); double f = FB[k] + (double)((int64_t)sym(6, "m") - 32); if (__sx_param(1)) f = -f; jv v = f, a = A(f, nullptr);
  std::string t = opt == 1 ? json::dump(v, { JS::with_precision(2) }) : opt == 2 ? json::dump(a, { JS::with_indent(3), JS::with_precision(1, std::ios_base::scientific) }) : json::dump(a); __sx_observe("n", t.size());
  jv w = json::parse(t); if (opt != 1) { CHECK(w.is_array() && w.size() == 2 && w[1].is_null(), "C12 a float breaks its array"); w = jv(w[0]); }
  CHECK(w.is_floating(), "C12 a float with an integral value did not stay a float"); CHECK(w.get<double>() == f, "C12 an integral float below 2^53 did not survive dump and parse"); __sx_cover("integral");
}
// above 2^53, up to the largest: base * 2^e plus steps of the spacing
SX_ENTRY(float_large) {
  int e = __sx_param(0), opt = __sx_param(2); uint64_t bits = ((uint64_t)(e + 1023) << 52) + sym(8, "m"); double f; memcpy(&f, &bits, 8); if (__sx_param(1)) f = -f; jv v = f; std::string t = opt ? json::dump(v, { JS::with_precision(5) }) : json::dump(v); __sx_observe("n", t.size()); jv w = json::parse(t);
  CHECK(w.is_floating(), "C12 a large float did not stay a float"); double g = w.get<double>(); int64_t a, b; memcpy(&a, &f, 8); memcpy(&b, &g, 8); CHECK(a - b <= 64 && b - a <= 64, "C12 a large integral float changed"); __sx_cover("integral");
}
// beyond 2^63: exponent and a few mantissa bits symbolic (printed through the platform's formatting)
SX_ENTRY(float_huge) {
  int lo = __sx_param(0), n = __sx_param(1), opt = __sx_param(2); uint64_t e = (uint64_t)lo + choose((unsigned)n, "e"); uint64_t m = choose(4, "m"); double f; uint64_t bits = (e + 1023) << 52 | m << 50; if (choose(2, "neg")) bits |= 1ull << 63; memcpy(&f, &bits, 8);
  jv v = f; std::string t = opt == 1 ? json::dump(v, { JS::with_precision(12, std::ios_base::scientific) }) : opt == 2 ? json::dump(v, { JS::with_precision(0) }) : json::dump(v);
  __sx_observe_bytes("t", t.data(), t.size());
  Bytes b; if (t.size() < BYTES_CAP) { for (size_t i = 0; i < t.size(); i++) b.add((unsigned char)t[i]); { Ref r(true); int root; CHECK(r.parse(b.b, b.n, &root) == R_ACCEPT, "C12 a large float is not printed as a JSON number"); } }
  jv w = json::parse(t); double g = w.is_floating() ? w.get<double>() : w.is_integer() ? (double)w.get<int64_t>() : 0.0;
  CHECK(w.is_number(), "C12 a large float is not a number any more"); double d = g > f ? g - f : f - g, a = f < 0 ? -f : f; CHECK(d <= a * 1e-5, "C12 a large float changed beyond the printing precision"); __sx_cover("huge");
}
SX_ENTRY(float_nonfinite) {   // every NaN and infinity, alone or inside a container
  uint64_t bits = sym(64, "bits"); __sx_assume(((bits >> 52) & 0x7FF) == 0x7FF); double f; memcpy(&f, &bits, 8); int where = __sx_param(0), opt = __sx_param(1);
  jv v = f; if (where == 1) v = json::array{ 1, f }; if (where == 2) v = json::object{ { "a", f } };
  bool threw = false; try { std::string t = opt ? json::dump(v, { JS::with_precision(4, std::ios_base::scientific) }) : json::dump(v); } catch (const configor_serialization_error&) { threw = true; }
  CHECK(threw, "C12 a non-finite float was dumped"); __sx_cover("non-finite");
}
// fractional floats still give a JSON number near the value
SX_ENTRY(float_fraction) {
  int k = __sx_param(0); int64_t m = (int64_t)choose(40, "m") - 20; static const double S[] = { 0.5, 0.001, 1e-9, 12345.675, 1e-300, 1.0 / 3 }; double f = (double)m * S[k]; int opt = (int)choose(3, "opt");
  jv v = f; std::string t = opt == 0 ? json::dump(v) : opt == 1 ? json::dump(v, { JS::with_precision(15, std::ios_base::scientific) }) : json::dump(v, { JS::with_precision(7) });
  Bytes b; for (size_t i = 0; i < t.size(); i++) b.add((unsigned char)t[i]);
  Ref r(true); int root; CHECK(r.parse(b.b, b.n, &root) == R_ACCEPT, "C12 a float is not printed as a JSON number"); __sx_observe_bytes("t", t.data(), t.size()); __sx_cover("fraction");
}
