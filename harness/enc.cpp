// C13: transcoding between narrow and wide text, and the selected encodings.
#include "ref.h"
#ifndef ENC_N
#define ENC_N 8           // code points per string
#define SYM_AT(i) true    // which of them are symbolic
#endif
static const uint32_t FIXED[] = { 'a', 0xE9, 0x4E2D, 0x1F600, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x20, 0x10FFFF, 0xD7FF, 0xE000, 0x80, 'z' };
namespace en = configor::encoding;
template <class C> static uint32_t unit(C c) { return sizeof(C) == 1 ? (uint32_t)(unsigned char)c : sizeof(C) == 2 ? (uint32_t)(uint16_t)c : (uint32_t)c; }
template <class C> static void put(std::basic_string<C>& s, int form, uint32_t c) {
  if (form == 8) { Bytes b; ref_enc8(b, c); for (int i = 0; i < b.n; i++) s.push_back((C)b.b[i]); }
  else if (form == 16) { uint32_t u[2]; int n = 0; ref_enc16(u, &n, c); for (int i = 0; i < n; i++) s.push_back((C)u[i]); }
  else s.push_back((C)c);
}
template <class C> static void lit(std::basic_string<C>& s, const char* t) { while (*t) s.push_back((C)*t++); }
template <class C> static bool units_eq(const std::basic_string<C>& a, const std::basic_string<C>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
// a symbolic code point that stands for itself inside a JSON string
static uint32_t sym_raw(const char* n, bool no_ffff) { uint32_t c = sym_scalar(n); __sx_assume((c >= 0x20) & (c != '"') & (c != '\\')); if (no_ffff) __sx_assume(c != 0xFFFF); return c; }

// parse `JV` from text of type C in form sf; strings expected in form tf
template <class J, class C> struct POpt { typedef std::initializer_list<typename detail::json_parser<typename J::value, C>::option> type; typedef detail::json_parser<typename J::value, C> P; };
template <class J, class C> static void tparse(int sf, int tf, int n, int shape, typename POpt<J, C>::type opts) {
  typedef typename J::value V; typedef typename V::char_type T; typedef std::basic_string<T> TS;
  std::basic_string<C> doc; TS want; bool nf = sizeof(C) == 2 || sizeof(T) == 2;
  lit(doc, shape == 1 ? "{\"" : shape == 2 ? "[1,\"" : "\"");
  for (int i = 0; i < n; i++) { uint32_t c = SYM_AT(i) ? sym_raw("cp", nf) : FIXED[i % 14]; put(doc, sf, c); put(want, tf, c); }
  lit(doc, "x\\u00e9\\uD83D\\uDE00"); put(want, tf, 'x'); put(want, tf, 0xE9); put(want, tf, 0x1F600);
  lit(doc, shape == 1 ? "\":null}" : shape == 2 ? "\"]" : "\"");
  V v; bool ok = true; try { v = J::parse(doc, opts); } catch (const configor_deserialization_error&) { ok = false; }
  CHECK(ok, "C13 a document in the selected encoding was rejected");
  TS got; if (shape == 0) { CHECK(v.is_string(), "C13 kind"); got = v.template get<TS>(); } else if (shape == 1) { CHECK(v.is_object() && v.size() == 1, "C13 kind"); got = v.begin().key(); } else { CHECK(v.is_array() && v.size() == 2, "C13 kind"); got = v[1].template get<TS>(); }
  CHECK(units_eq(got, want), "C13 a string does not have the code points of the text"); __sx_cover("parsed"); __sx_observe("n", got.size());
}
static void tc_parse_body(int k, int n, int shape) {
  typedef detail::json_parser<json::value, wchar_t> NW; typedef detail::json_parser<wjson::value, wchar_t> WW; typedef detail::json_parser<wjson::value, char> WN; typedef detail::json_parser<json::value, char> NN;
  switch (k) {
    case 0: tparse<json, wchar_t>(32, 8, n, shape, {}); break;
    case 1: tparse<json, wchar_t>(16, 8, n, shape, { NW::with_source_encoding<en::utf16>() }); break;
    case 2: tparse<json, char16_t>(16, 8, n, shape, {}); break;
    case 3: tparse<json, char32_t>(32, 8, n, shape, {}); break;
    case 4: tparse<wjson, char>(8, 32, n, shape, {}); break;
    case 5: tparse<wjson, char>(8, 16, n, shape, { WN::with_target_encoding<en::utf16>() }); break;
    case 6: tparse<wjson, wchar_t>(16, 16, n, shape, { WW::with_encoding<en::utf16>() }); break;
    case 7: tparse<wjson, wchar_t>(32, 32, n, shape, { WW::with_encoding<en::utf32>() }); break;
    case 8: tparse<wjson, wchar_t>(16, 32, n, shape, { WW::with_source_encoding<en::utf16>(), WW::with_target_encoding<en::utf32>() }); break;
    case 9: tparse<wjson, wchar_t>(32, 16, n, shape, { WW::with_target_encoding<en::utf16>() }); break;
    case 10: tparse<json, char>(8, 8, n, shape, { NN::with_encoding<en::utf8>() }); break;
    case 11: tparse<json, wchar_t>(32, 8, n, shape, { NW::with_source_encoding<en::utf32>(), NW::with_target_encoding<en::utf8>() }); break;
    case 12: tparse<wjson, wchar_t>(8, 32, n, shape, { WW::with_source_encoding<en::utf8>() }); break;   // UTF-8 units held in wide characters
  }
}
SX_ENTRY(tc_parse) { tc_parse_body(__sx_param(0), __sx_param(1), __sx_param(2)); }
// arbitrary wide units: accepted exactly when well-formed
static void tc_any_body(int form, int n) {
  typedef detail::json_parser<json::value, wchar_t> NW; std::wstring doc; std::string want; bool good = true; static uint32_t u[ENC_N + 8]; lit(doc, "\"");
  for (int i = 0; i < n; i++) { u[i] = SYM_AT(i) ? (uint32_t)sym(form == 16 ? 16 : 32, "u") : 0x4E00u + (uint32_t)i; __sx_assume((u[i] >= 0x20) & (u[i] != '"') & (u[i] != '\\') & (u[i] != 0xFFFFFFFFu)); doc.push_back((wchar_t)u[i]); }
  lit(doc, "\"");
  for (int i = 0; i < n && good;) { uint32_t c = u[i]; int k = 1;
    if (form == 16 && c >= 0xD800 && c <= 0xDBFF) { if (i + 1 < n && u[i + 1] >= 0xDC00 && u[i + 1] <= 0xDFFF) { c = 0x10000 + ((c - 0xD800) << 10) + (u[i + 1] - 0xDC00); k = 2; } else { good = false; break; } }
    if (!is_scalar_value(c)) { good = false; break; }
    put(want, 8, c); i += k; }
  json::value v; bool ok = true; try { v = form == 16 ? json::parse(doc, { NW::with_source_encoding<en::utf16>() }) : json::parse(doc); } catch (const configor_deserialization_error&) { ok = false; }
  CHECK(ok == good, "C13 ill-formed wide text accepted or well-formed rejected"); if (ok) { CHECK(v.is_string() && bytes_eq(v.get<std::string>(), want), "C13 a string does not have the code points of the text"); __sx_cover("any good"); } else __sx_cover("any bad");
}
SX_ENTRY(tc_parse_any) { tc_any_body(__sx_param(0), __sx_param(1)); }
// dump a value whose strings are in form sf to text of type C in form tf; the text is read back by the independent recogniser
template <class J, class C> static void tdump(int sf, int tf, int n, int shape, std::initializer_list<typename detail::json_serializer<typename J::value, C>::option> opts) {
  typedef typename J::value V; typedef typename V::char_type T; typedef std::basic_string<T> TS;
  static uint32_t cp[ENC_N + 2]; TS s; for (int i = 0; i < n; i++) { cp[i] = SYM_AT(i) ? sym_scalar("cp") : FIXED[i % 14]; if (sizeof(C) == 2) __sx_assume(cp[i] != 0xFFFF); put(s, sf, cp[i]); }
  put(s, sf, 'y'); cp[n] = 'y'; put(s, sf, 0x10FFFF); cp[n + 1] = 0x10FFFF; n += 2;
  V v; std::basic_string<C> text; if (shape == 1) v[s] = nullptr; else if (shape == 2) { v.push_back(V(true)); v.push_back(V(s)); } else v = s;
  bool ok = true; try { J::template dump<C>(text, v, opts); } catch (const configor_serialization_error&) { ok = false; }
  CHECK(ok, "C13 dumping well-formed text failed"); 
  static uint32_t t[ENC_N * 6 + 32]; int m = 0; for (size_t i = 0; i < text.size();) { uint32_t c = unit(text[i]);
    if (tf == 8) { unsigned char b[4]; int q = 0; for (; q < 4 && i + q < text.size(); q++) b[q] = (unsigned char)text[i + q]; int k = ref_dec8(b, q, &c); CHECK(k > 0, "C13 the dumped text is ill-formed"); i += k; }
    else if (tf == 16 && c >= 0xD800 && c <= 0xDBFF) { CHECK(i + 1 < text.size() && unit(text[i + 1]) >= 0xDC00 && unit(text[i + 1]) <= 0xDFFF, "C13 the dumped text is ill-formed"); c = 0x10000 + ((c - 0xD800) << 10) + (unit(text[i + 1]) - 0xDC00); i += 2; }
    else i++;
    CHECK(is_scalar_value(c) && !(tf == 16 && c > 0xFFFF && unit(text[i - 1]) > 0xFFFF), "C13 the dumped text is ill-formed"); t[m++] = c; }
  Ref r(true); int root; CHECK(r.parse32(t, m, &root) == R_ACCEPT, "C13 the dumped text is not JSON");
  int ss, sn; if (shape == 0) { CHECK(r.nd[root].kind == K_STR, "C13 shape"); ss = r.nd[root].s; sn = r.nd[root].sn; }
  else { int c = r.nd[root].child; if (shape == 2) c = r.nd[c].next; CHECK(c >= 0, "C13 shape"); if (shape == 2) { ss = r.nd[c].s; sn = r.nd[c].sn; } else { ss = r.nd[c].ks; sn = r.nd[c].kn; } }
  CHECK(sn == n, "C13 wrong number of code points in the dumped text"); for (int i = 0; i < n; i++) CHECK(r.pool[ss + i] == cp[i], "C13 the dumped text does not have the code points of the string"); __sx_cover("dumped"); __sx_observe("n", text.size());
}
static void tc_dump_body(int k, int n, int shape, bool esc) {
  typedef detail::json_serializer<json::value, wchar_t> NW; typedef detail::json_serializer<wjson::value, wchar_t> WW; typedef detail::json_serializer<wjson::value, char> WN; typedef detail::json_serializer<json::value, char> NN; typedef detail::json_serializer<json::value, char32_t> N32; typedef detail::json_serializer<json::value, char16_t> N16;
  switch (k) {
    case 0: tdump<json, wchar_t>(8, 32, n, shape, { NW::with_unicode_escaping(esc) }); break;
    case 1: tdump<json, wchar_t>(8, 16, n, shape, { NW::with_unicode_escaping(esc), NW::with_target_encoding<en::utf16>() }); break;
    case 2: tdump<wjson, char>(32, 8, n, shape, { WN::with_unicode_escaping(esc) }); break;
    case 3: tdump<wjson, char>(16, 8, n, shape, { WN::with_source_encoding<en::utf16>(), WN::with_unicode_escaping(esc) }); break;
    case 4: tdump<wjson, wchar_t>(16, 16, n, shape, { WW::with_encoding<en::utf16>(), WW::with_unicode_escaping(esc) }); break;
    case 5: tdump<wjson, wchar_t>(32, 16, n, shape, { WW::with_target_encoding<en::utf16>(), WW::with_unicode_escaping(esc) }); break;
    case 6: tdump<wjson, wchar_t>(16, 32, n, shape, { WW::with_source_encoding<en::utf16>(), WW::with_unicode_escaping(esc) }); break;
    case 7: tdump<json, char>(8, 8, n, shape, { NN::with_encoding<en::utf8>(), NN::with_unicode_escaping(esc) }); break;
    case 8: tdump<wjson, wchar_t>(32, 8, n, shape, { WW::with_target_encoding<en::utf8>(), WW::with_unicode_escaping(esc) }); break;
    case 9: tdump<wjson, wchar_t>(32, 32, n, shape, { WW::with_unicode_escaping(esc) }); break;
  }
}
SX_ENTRY(tc_dump) { tc_dump_body(__sx_param(0), __sx_param(1), __sx_param(2), __sx_param(3)); }
// the ignore encoding passes units through
static void ig_parse_body(int n, int wide) {
  if (!wide) { typedef detail::json_parser<json::value, char> P; std::string d = "\"", w; for (int i = 0; i < n; i++) { unsigned c = SYM_AT(i) ? (unsigned)sym(8, "b") : 128u + (unsigned)i % 128; __sx_assume((c >= 0x20) & (c != '"') & (c != '\\')); d.push_back((char)c); w.push_back((char)c); } d += "\\u0041\""; w += "A";
    json::value v; bool ok = true; try { v = json::parse(d, { P::with_encoding<en::ignore>() }); } catch (const configor_deserialization_error&) { ok = false; } CHECK(ok && v.is_string(), "C13 the ignore encoding rejected a unit"); CHECK(bytes_eq(v.get<std::string>(), w), "C13 the ignore encoding changed a unit"); }
  else { typedef detail::json_parser<wjson::value, wchar_t> P; std::wstring d = L"\"", w; for (int i = 0; i < n; i++) { uint32_t c = SYM_AT(i) ? (uint32_t)sym(32, "u") : 0xD800u + (uint32_t)i; __sx_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0xFFFFFFFFu)); d.push_back((wchar_t)c); w.push_back((wchar_t)c); } d += L"\"";
    wjson::value v; bool ok = true; try { v = wjson::parse(d, { P::with_encoding<en::ignore>() }); } catch (const configor_deserialization_error&) { ok = false; } CHECK(ok && v.is_string(), "C13 the ignore encoding rejected a unit"); CHECK(units_eq(v.get<std::wstring>(), w), "C13 the ignore encoding changed a unit"); }
  __sx_cover("ignore parse");
}
SX_ENTRY(ig_parse) { ig_parse_body(__sx_param(0), __sx_param(1)); }
static void ig_dump_body(int n, int wide) {
  if (!wide) { typedef detail::json_serializer<json::value, char> S; std::string s, w = "\""; for (int i = 0; i < n; i++) { unsigned c = SYM_AT(i) ? (unsigned)sym(8, "b") : 128u + (unsigned)i % 128; __sx_assume((c >= 0x20) & (c != '"') & (c != '\\')); s.push_back((char)c); w.push_back((char)c); } w += "\"";
    json::value v = s; std::string t; bool ok = true; try { t = json::dump(v, { S::with_encoding<en::ignore>() }); } catch (const configor_serialization_error&) { ok = false; } CHECK(ok, "C13 the ignore encoding rejected a unit"); CHECK(bytes_eq(t, w), "C13 the ignore encoding changed a unit"); }
  else { typedef detail::json_serializer<wjson::value, wchar_t> S; std::wstring s, w = L"\""; for (int i = 0; i < n; i++) { uint32_t c = SYM_AT(i) ? (uint32_t)sym(32, "u") : 0xD800u + (uint32_t)i; __sx_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0xFFFFFFFFu)); s.push_back((wchar_t)c); w.push_back((wchar_t)c); } w += L"\"";
    wjson::value v = s; std::wstring t; bool ok = true; try { t = wjson::dump(v, { S::with_encoding<en::ignore>() }); } catch (const configor_serialization_error&) { ok = false; } CHECK(ok, "C13 the ignore encoding rejected a unit"); CHECK(units_eq(t, w), "C13 the ignore encoding changed a unit"); }
  __sx_cover("ignore dump");
}
SX_ENTRY(ig_dump) { ig_dump_body(__sx_param(0), __sx_param(1)); }
// units read as they are, written in an encoding that has a form for some of them only: the same code point or an error
template <class J> static void bad_parse(int tf, int n, int at, typename POpt<J, wchar_t>::type opts) {
  typedef typename J::value V; typedef typename V::char_type T; std::wstring d = L"[\""; std::basic_string<T> want; uint32_t c = (uint32_t)sym(32, "u"); __sx_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0xFFFFFFFFu)); bool good = is_scalar_value(c);
  for (int i = 0; i < n; i++) { uint32_t e = i == at ? c : FIXED[i % 14]; d.push_back((wchar_t)e); if (i != at || good) put(want, tf, e); } d += L"\",1]";
  V v; bool ok = true; try { v = J::parse(d, opts); } catch (const configor_deserialization_error&) { ok = false; }
  if (!good) { CHECK(!ok, "C13 a unit without a form in the target encoding was accepted"); __sx_cover("unit refused"); return; }
  CHECK(ok && v.is_array() && v.size() == 2 && v[0].is_string(), "C13 a document in the selected encoding was rejected"); CHECK(units_eq(v[0].template get<std::basic_string<T>>(), want), "C13 a unit read as it is became another code point"); __sx_cover("unit kept"); }
template <class C> static void bad_dump(int tf, int n, int at, std::initializer_list<typename detail::json_serializer<wjson::value, C>::option> opts) {
  std::wstring s; std::basic_string<C> want; uint32_t c = (uint32_t)sym(32, "u"); __sx_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0xFFFFFFFFu)); bool good = is_scalar_value(c);
  want.push_back((C)'"'); for (int i = 0; i < n; i++) { uint32_t e = i == at ? c : FIXED[i % 14]; s.push_back((wchar_t)e); if (i != at || good) put(want, tf, e); } want.push_back((C)'"');
  wjson::value v = s; std::basic_string<C> t; bool ok = true; try { t = wjson::dump<C>(v, opts); } catch (const configor_serialization_error&) { ok = false; }
  if (!good) { CHECK(!ok, "C13 a unit without a form in the target encoding was written"); __sx_cover("unit refused"); return; }
  CHECK(ok && units_eq(t, want), "C13 a unit read as it is was written as another code point"); __sx_cover("unit kept"); }
SX_ENTRY(ig_unit) { int k = __sx_param(0), n = __sx_param(1), at = __sx_param(2); typedef detail::json_parser<json::value, wchar_t> P; typedef detail::json_parser<wjson::value, wchar_t> W; typedef detail::json_serializer<wjson::value, char> N; typedef detail::json_serializer<wjson::value, wchar_t> S;
  switch (k) {
    case 0: bad_parse<json>(8, n, at, { P::with_source_encoding<en::ignore>() }); break;
    case 1: bad_parse<wjson>(32, n, at, { W::with_source_encoding<en::ignore>() }); break;
    case 2: bad_parse<wjson>(16, n, at, { W::with_source_encoding<en::ignore>(), W::with_target_encoding<en::utf16>() }); break;
    case 3: bad_dump<char>(8, n, at, { N::with_source_encoding<en::ignore>() }); break;
    case 4: bad_dump<wchar_t>(32, n, at, { S::with_source_encoding<en::ignore>() }); break;
    case 5: bad_dump<wchar_t>(16, n, at, { S::with_source_encoding<en::ignore>(), S::with_target_encoding<en::utf16>() }); break;
  } }
// numbers, literals and structure of a whole document supplied in the other width
SX_ENTRY(tc_doc) {
  int k = __sx_param(0); int a = (int)choose(100, "a"); uint32_t c = sym_raw("cp", false); std::string s; put(s, 8, c); std::wstring w(1, (wchar_t)c);
  char num[4]; int m = 0; if (a > 9) num[m++] = (char)('0' + a / 10); num[m++] = (char)('0' + a % 10); num[m] = 0;
  if (k == 0) { std::wstring d; lit(d, "{\"a\":["); lit(d, num); lit(d, ",true,null,-"); lit(d, num); lit(d, ".5],\""); d += w; lit(d, "\":{\"k\":\""); d += w; lit(d, "\"}}");
    json::value v = json::parse(d); CHECK(v["a"].size() == 4 && v["a"][0] == a && v["a"][1] == true && v["a"][2].is_null() && v["a"][3].is_floating(), "C13 wide document"); CHECK(s == "a" || v[s]["k"].get<std::string>() == s, "C13 wide document string"); }
  else if (k == 1) { std::string d; lit(d, "{\"a\":["); lit(d, num); lit(d, ",false,null],\""); d += s; lit(d, "\":{\"k\":\""); d += s; lit(d, "\"}}");
    wjson::value v = wjson::parse(d); CHECK(v[L"a"].size() == 3 && v[L"a"][0] == a && v[L"a"][1] == false && v[L"a"][2].is_null(), "C13 narrow document"); CHECK(w == L"a" || v[w][L"k"].get<std::wstring>() == w, "C13 narrow document string"); }
  else { json::value v; v["n"] = a; v["s"] = s; v["b"] = true; v["z"] = nullptr; std::wstring t = json::dump<wchar_t>(v); std::wstring e; lit(e, "{\"b\":true,\"n\":"); lit(e, num); lit(e, ",\"s\":\""); e += w; lit(e, "\",\"z\":null}"); CHECK(c == 0x7F || units_eq(t, e), "C13 wide dump of a document"); }
  __sx_cover("document");
}

// several selections in one option list: the last one that names a side counts for it
template <class P> static typename P::option enc_opt(unsigned o) { switch (o) { case 0: return P::template with_encoding<en::ignore>(); case 1: return P::template with_encoding<en::utf16>(); case 2: return P::template with_source_encoding<en::ignore>(); case 3: return P::template with_source_encoding<en::utf16>(); case 4: return P::template with_target_encoding<en::ignore>(); default: return P::template with_target_encoding<en::utf16>(); } }
SX_ENTRY(enc_order) {
  unsigned o[3], which = (unsigned)__sx_param(0); for (int i = 0; i < 3; i++) o[i] = choose(6, "option"); int src = -1, dst = -1; for (int i = 0; i < 3; i++) { if (o[i] < 4) src = (int)(o[i] & 1); if (o[i] < 2 || o[i] > 3) dst = (int)(o[i] & 1); }
  static const wchar_t U[] = { 0xD800, 0x1F600, 'a', 0x20AC }; unsigned u = choose(4, "unit"); wchar_t c = U[u];
  if (which == 0) { typedef detail::json_parser<wjson::value, wchar_t> W; std::wstring d = L"[\"_\\ud83d\\ude00\"]"; d[2] = c; wjson::value a, b; bool ta = false, tb = false; typename W::option x = src < 0 ? enc_opt<W>(dst ? 5 : 4) : enc_opt<W>(src ? 3 : 2), y = dst < 0 ? x : enc_opt<W>(dst ? 5 : 4);
    try { a = wjson::parse(d, { enc_opt<W>(o[0]), enc_opt<W>(o[1]), enc_opt<W>(o[2]) }); } catch (const configor_deserialization_error&) { ta = true; } try { b = wjson::parse(d, { x, y }); } catch (const configor_deserialization_error&) { tb = true; }
    CHECK(ta == tb, "C13 the last selection of an encoding does not count"); if (!ta) CHECK(units_eq(a[0].get<std::wstring>(), b[0].get<std::wstring>()), "C13 the last selection of an encoding does not count"); }
  else { typedef detail::json_serializer<wjson::value, wchar_t> W; std::wstring s = L"_x"; s[0] = c; wjson::value v = s; std::wstring a, b; bool ta = false, tb = false; typename W::option x = src < 0 ? enc_opt<W>(dst ? 5 : 4) : enc_opt<W>(src ? 3 : 2), y = dst < 0 ? x : enc_opt<W>(dst ? 5 : 4);
    try { a = wjson::dump(v, { enc_opt<W>(o[0]), enc_opt<W>(o[1]), enc_opt<W>(o[2]) }); } catch (const configor_serialization_error&) { ta = true; } try { b = wjson::dump(v, { x, y }); } catch (const configor_serialization_error&) { tb = true; }
    CHECK(ta == tb, "C13 the last selection of an encoding does not count"); if (!ta) CHECK(units_eq(a, b), "C13 the last selection of an encoding does not count"); }
  __sx_cover("order");
}
