// C01 C02 C03 C04 C06 C07: the parser against the independent recogniser, over symbolic texts.
// parameter 0: mode (which property is asserted), further parameters select the text.
#include "ref.h"
#include <sstream>

enum { M_TOTAL = 1, M_TREE = 2, M_REJECT = 4 };

static int impl_parse(const Bytes& t, jv& v) {
  try { v = json::parse(t.str()); return 1; }
  catch (const configor_deserialization_error&) { return 0; }
}
static void judge(const Bytes& t, int mode) {
  jv v; int ok;
  try { ok = impl_parse(t, v); }
  catch (const std::exception&) { CHECK(false, "C01 an exception other than configor_deserialization_error left the parser"); return; }
  __sx_cover(ok ? "accepted" : "rejected");
  __sx_observe("ok", (uint64_t)ok);
  if (ok) __sx_observe("type", (uint64_t)v.type());
  if (mode == M_TOTAL) return;
  Ref r; int root = -1; int e = r.parse(t.b, t.n, &root);
  if (e == R_DONTCARE) { __sx_cover("outside the dialect"); if (!ok || root < 0) return; e = R_ACCEPT; }
  if (mode & M_REJECT) { CHECK(e == R_ACCEPT || !ok, "C03 a text that is not JSON was accepted"); }
  if (mode & M_TREE) {
    CHECK(e != R_ACCEPT || ok, "C02 a valid document was rejected");
    if (e == R_ACCEPT && ok) { TreeCmp c(r); bool same = c.eq(root, v); CHECK(same, "C02 the parsed value is not the tree the text denotes"); __sx_cover("compared"); }
  }
}

// n fully symbolic bytes
SX_ENTRY(text_any) { int mode = __sx_param(0), n = __sx_param(1); Bytes t; for (int i = 0; i < n; i++) t.add((unsigned)sym(8, "b")); judge(t, mode); }
// n bytes of one restricted class
SX_ENTRY(text_class) { int mode = __sx_param(0), n = __sx_param(1), k = __sx_param(2); Bytes t; for (int i = 0; i < n; i++) t.add(sym_class((char)k)); judge(t, mode); }

struct Tpl { const char* s; int n; };
#define T(x) {x, (int)sizeof(x) - 1}
static const Tpl TPL[] = {
  /*0*/ T("[~,~]"), T("{\"~\":~}"), T("\"~~\""), T("[[~]~]"), T("[1~2]"),
  /*5*/ T("{\"a\"~1}"), T("{\"a\":1~\"b\":2}"), T("tru~~"), T("fals~~"), T("nul~~"),
  /*10*/ T("[true~false~null]"), T("\"\\u~~~~\""), T("\"\\~\""), T("\"\\u$$$$\""), T("\"\\ud8$$\\ud~$$\""),
  /*15*/ T("\"\\ud$$$~u$$$$\""), T("-~.~"), T("~.~e~~"), T("/~~/1"), T("/*~~*/1"),
  /*20*/ T("1//~~"), T("[1/*~*/,2]"), T("{\"~\":1,\"~\":2}"), T("{\"a\":[~],\"b\":{\"c\":~}}"), T("[{},[],\"\",~]"),
  /*25*/ T("~~~~1"), T("\"a\\n~\xc3~\""), T("\"\xe0~~\""), T("\"\xf0~~~\""), T("\"\xed~~\""),
  /*30*/ T("\"\xf4~~~\""), T("1/~\n~"), T("/*\2\2\2\2*/1"), T("//\2\2\2\2\n1"), T("[1\5\5,\0052\5]"),
  /*35*/ T("\"~~~\""), T("-9223372036854775#~#"), T("+922337203685477#80#"), T("1844674407370955161#"), T("#########"),
  /*40*/ T("-0~"), T("\"\\u00$$\\\\~\""), T("\"\6\""), T("{~:1}"), T("[~]"),
  /*45*/ T("[[[~]]]~"), T("{\"k\":{\"k\":~}}"), T("1~\0~"), T("\1\1\1\1\1"), T("{\"\1\1\1\1}"),
  /*50*/ T("[\1\1\1\1]"), T("{\"a\":\1\1\1\1"), T("[\4\4\4\4\4]"), T("/*\2\2\2\2\2*/1"), T("[1,/\2\2\2\2/2]"),
  /*55*/ T("\"\\\"\\\\\\/\\b\\f\\n\\r\\t~\""), T("\"\\uD83D\\uDE0~\""), T("99999999999999999999#"), T("12345678901234567#~"), T("-922337203685477580#"),
  /*60*/ T("{\"~\":1,\"~\":null}"), T("{\"~\":null,\"~\":2}"), T("{\"~\":[1],\"~\":{\"b\":2},\"~\":true}"), T("{\"a\":\1\1\1,\"a\":0}"), T("[{\"a\":\4,\"a\":[\4]}]"),
  /*65*/ T("[\"~\",\"~\\n\",\"\"]"), T("[null,[true,[false,[~]]]]"), T("[-#,+#,#.#,0]"), T("{\"\\u00$$\":\"\\u0$00\"}"), T("\"a\\ud83d\\ude0$b\\u20a$\""),
};
SX_ENTRY(text_template) { int mode = __sx_param(0), k = __sx_param(1); Bytes t; fill_template(t, TPL[k].s, TPL[k].n); judge(t, mode); }
// objects of n members whose keys are empty, repeated, prefixes of one another, written with escapes or long; one member holds something other than a number
SX_ENTRY(text_members) {
  static const char* const K[] = { "", "a", "b", "aa", "\\u0061", "A", "\\\"", "a key that is longer than the strings kept in place", "\\n" }; static const char* const W[] = { "null", "\"\"", "[]", "{\"\":2}", "{\"a\":1,\"\":{}}" };
  int mode = __sx_param(0), n = __sx_param(1), tr = __sx_param(2); std::string t = "{"; unsigned sp = choose((unsigned)n, "special");
  for (int i = 0; i < n; i++) { unsigned k = choose(9, "key"); if (i) t += ','; t += '"'; t += K[k]; t += "\":"; if ((unsigned)i == sp) { unsigned w = choose(5, "value"); t += W[w]; } else t += (char)('1' + i); }
  if (tr) t += ','; t += '}'; Bytes b; for (char c : t) b.add((unsigned char)c); judge(b, mode); __sx_cover("members");
}
// m tokens between an opening and a closing text
SX_ENTRY(text_tokens) {
  static const char* const O[] = { "", "{", "[", "{\"a\":", "[1,", "{\"a\":[" }; static const char* const C[] = { "", "}", "]", "}", "]", "]}" };
  static const char* const W[] = { ",", ":", "\"\"", "\"a\"", "7", "null", "[", "]", "{", "}" };
  int mode = __sx_param(0), k = __sx_param(1), m = __sx_param(2); std::string t = O[k]; for (int i = 0; i < m; i++) { unsigned w = choose(10, "token"); t += W[w]; } t += C[k];
  Bytes b; for (char c : t) b.add((unsigned char)c); judge(b, mode); __sx_cover("tokens");
}
// parsing into a value that holds something of any kind gives what parsing into a fresh one gives, also when it fails half way and is used again
static jv held(unsigned k) { jv v; switch (k) { case 0: break; case 1: v = true; break; case 2: v = 77; break; case 3: v = -2.5; break; case 4: v = "held"; break; case 5: v = std::string(40, 'h'); break; case 6: v = value_constant::array; v.push_back(1); v.push_back("x"); v.push_back(nullptr); break; case 7: v = value_constant::object; v["a"] = 9; v["b"] = "old"; break; case 8: v = value_constant::array; break; default: v = value_constant::object; } return v; }
SX_ENTRY(text_into) {
  int k = __sx_param(0), how = __sx_param(1); Bytes t; fill_template(t, TPL[k].s, TPL[k].n); std::string s = t.str(); jv v = held(choose(10, "held")); int ok = 1, ok2 = 1; jv w;
  try { switch (how) { case 0: json::parse(v, s); break; case 1: json::parse(v, s.c_str()); break; default: { std::istringstream is(s); json::parse(v, is); } } } catch (const configor_deserialization_error&) { ok = 0; }
  if (how == 1) s = s.c_str();
  try { w = json::parse(s); } catch (const configor_deserialization_error&) { ok2 = 0; }
  CHECK(ok == ok2, "C02 the outcome depends on the value parsed into"); __sx_cover("into"); if (ok) { Bytes u; for (char c : s) u.add((unsigned char)c); Ref r; int root = -1; int e = r.parse(u.b, u.n, &root); if (e == R_ACCEPT) { TreeCmp c(r); CHECK(c.eq(root, v), "C02 parsing into a value leaves something of what it held"); } CHECK(v == w && v.type() == w.type() && v.size() == w.size(), "C02 parsing into a value leaves something of what it held"); }
  try { json::parse(v, "{\"n\":[\"t\",3]}"); } catch (...) { CHECK(false, "C02 a valid document was rejected"); } CHECK(v.is_object() && v.size() == 1 && v["n"].is_array() && v["n"].size() == 2 && v["n"][0] == "t" && v["n"][1] == 3, "C02 parsing into a value leaves something of what it held");
}
// long texts: n copies of one unit, then symbolic bytes; what recursion, or storage that is kept per level, would not survive
struct Unit { const char* s; const char* close; };
static const Unit UNITS[] = { { "[", "]" }, { "{\"a\":", "}" }, { "[{\"k\":[],\"l\":", "}]" }, { "/**/", "" }, { "//\n", "" }, { "/*x*/ //y\r\n", "" }, { " \n", "" }, { "[1,[],", "]" } };
SX_ENTRY(text_long) {
  int k = __sx_param(0), n = __sx_param(1), m = __sx_param(2); std::string t; t.reserve(400000); for (int i = 0; i < n; i++) t += UNITS[k].s; for (int i = 0; i < m; i++) t += (char)sym(8, "b");
  int ok = 0; try { jv v = json::parse(t); ok = 1; __sx_observe("type", (uint64_t)v.type()); } catch (const configor_deserialization_error&) {} catch (const std::exception&) { CHECK(false, "C01 an exception other than configor_deserialization_error left the parser"); }
  __sx_observe("ok", (uint64_t)ok); __sx_cover(ok ? "accepted" : "rejected");
}
// n levels deep, closed again: the tree is there
SX_ENTRY(text_nested) {
  int k = __sx_param(0), n = __sx_param(1); std::string t; for (int i = 0; i < n; i++) t += UNITS[k].s; unsigned d = (unsigned)sym(8, "b"); __sx_assume((d >= '1') & (d <= '9')); t += (char)d; for (int i = 0; i < n; i++) t += UNITS[k].close;
  jv v; bool ok = true; try { v = json::parse(t); } catch (const std::exception&) { ok = false; } CHECK(ok, "C02 a valid document was rejected");
  const jv* p = &v; for (int i = 0; i < n; i++) {
    if (k == 0) { CHECK(p->is_array() && p->size() == 1, "C02 the parsed value is not the tree the text denotes"); p = &(*p->data().vector)[0]; }
    else if (k == 1) { CHECK(p->is_object() && p->size() == 1 && p->count("a") == 1, "C02 the parsed value is not the tree the text denotes"); p = &p->data().object->begin()->second; }
    else if (k == 7) { CHECK(p->is_array() && p->size() == 3, "C02 the parsed value is not the tree the text denotes"); p = &(*p->data().vector)[2]; }
    else if (k == 2) { CHECK(p->is_array() && p->size() == 1, "C02 the parsed value is not the tree the text denotes"); p = &(*p->data().vector)[0]; CHECK(p->is_object() && p->size() == 2 && p->begin().key() == "k", "C02 the parsed value is not the tree the text denotes"); p = &(++p->data().object->begin())->second; } }
  CHECK(p->is_integer() && p->data().integer == (int64_t)(d - '0'), "C02 the parsed value is not the tree the text denotes"); __sx_cover("nested");
}
// C06: escapes when nothing behind the parser looks at the code points (the raw encoding as target, narrow or wide)
static uint32_t hex4(const unsigned* h) { uint32_t c = 0; for (int i = 0; i < 4; i++) { uint32_t g = h[i] <= '9' ? h[i] - '0' : (h[i] | 32) - 'a' + 10; c = c * 16 + g; } return c; }
template <class J, class C> static void escape_raw(int k, bool key) {
  typedef typename J::value V; typedef typename V::string_type S; typedef detail::json_parser<V, C> P;
  unsigned h[8] = { '0', '0', '4', '1', 'e', '0', '2', 'F' }; int n = k ? 8 : 4;
  if (k == 0) for (int i = 0; i < 4; i++) h[i] = (unsigned)sym_class('$');
  if (k == 1) { h[0] = choose(2, "d") ? 'd' : 'D'; h[1] = (unsigned)sym_class('$'); h[4] = (unsigned)sym_class('$'); h[5] = (unsigned)sym_class('$'); }   // a surrogate first, mostly
  if (k == 2) { h[0] = (unsigned)sym_class('$'); h[4] = 'd'; h[5] = (unsigned)sym_class('$'); h[7] = (unsigned)sym_class('$'); }
  std::basic_string<C> t; if (key) t += (C)'{'; t += (C)'"'; for (int i = 0; i < n; i++) { if (i % 4 == 0) { t += (C)'\\'; t += (C)'u'; } t += (C)h[i]; } t += (C)'"'; if (key) { t += (C)':'; t += (C)'1'; t += (C)'}'; }
  uint32_t a = hex4(h), b = n == 8 ? hex4(h + 4) : 0, cp[2]; int m = 0; bool bad = false;
  bool la = a >= 0xD800 && a <= 0xDBFF, ta = a >= 0xDC00 && a <= 0xDFFF, lb = b >= 0xD800 && b <= 0xDBFF, tb = b >= 0xDC00 && b <= 0xDFFF;
  if (n == 4) { bad = la || ta; cp[m++] = a; } else if (la) { bad = !tb; cp[m++] = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00); } else { bad = ta || lb || tb; cp[m++] = a; cp[m++] = b; }
  V v; bool ok = true; try { v = J::parse(t, { P::template with_target_encoding<encoding::ignore>() }); } catch (const configor_deserialization_error&) { ok = false; }
  CHECK(ok == !bad, bad ? "C06 an unpaired surrogate was accepted" : "C06 a valid escape was rejected"); if (bad) { __sx_cover("rejected"); return; }
  S s = key ? v.begin().key() : v.template get<S>(); CHECK((int)s.size() == m, "C06 an escape does not decode to one code point"); if ((int)s.size() != m) return;
  for (int i = 0; i < m; i++) CHECK(s[(size_t)i] == (typename S::value_type)cp[i], "C06 an escape does not decode to the code point it names");
  __sx_cover("compared");
}
SX_ENTRY(escape_target) { int k = __sx_param(1); bool key = __sx_param(2); switch (__sx_param(0)) { case 0: escape_raw<json, char>(k, key); break; case 1: escape_raw<wjson, wchar_t>(k, key); break; case 2: escape_raw<wjson, char>(k, key); break; default: escape_raw<json, wchar_t>(k, key); } }
