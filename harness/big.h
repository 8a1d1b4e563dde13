// Documents, strings and trees of a given size, concrete but for a few symbolic units at a chosen position.
#pragma once
#define BYTES_CAP 40000
#define REF_NODES 6000
#include "gen.h"
// the value of the position parameter: 0 first, 1 middle, 2 last, 3 last but one, 4 at one quarter
static inline int place(int pos, int n) { int i = pos == 0 ? 0 : pos == 1 ? n / 2 : pos == 2 ? n - 1 : pos == 3 ? n - 2 : n / 4; return i < 0 ? 0 : i; }
static inline void put(std::string& t, const char* s) { t += s; }
static inline void num(std::string& t, long v) { char b[24]; int n = 0; if (v < 0) { t += '-'; v = -v; } do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) t += b[--n]; }
static inline char letter(int i) { return (char)('a' + (i * 7 + i / 26) % 26); }
static const char* const MB[] = { "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xED\x9F\xBF", "\xEE\x80\x80", "\xDF\xBF", "\xF4\x8F\xBF\xBF", "\xE0\xA0\x80" };
static const char* const ESC[] = { "\\n", "\\t", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\u0041", "\\u20ac", "\\uD83D\\uDE00", "\\u0000", "\\ud7ff", "\\uffff" };
static const char* const WSP[] = { " ", "\n", "\t", "\r", "\r\n", "  " };
static const char* const CMT[] = { "/**/", "//\n", "/* x **/", "// y\r\n", "/*/*/", "//\r", "/***/" };
static const char* const LEAF[] = { "true", "false", "null", "[]", "{}", "\"\"", "0", "-1", "1.5", "\"s\"", "[1]", "{\"a\":1}", "1e3", "[[]]" };
enum { NBIG = 24 };
// the text; marks[] receives offsets where a symbolic unit may replace a byte (start, middle, end of the long part)
static inline std::string bigdoc(int kind, int n, int* mark) {
  std::string t; t.reserve((size_t)n * 24 + 256); int M[3] = { 0, 0, 0 }; auto at = [&](int i) { if (i == 0) M[0] = (int)t.size(); if (i == n / 2) M[1] = (int)t.size(); if (i == n - 1) M[2] = (int)t.size(); };
  switch (kind) {
    case 0: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; at(i); num(t, (long)(i * 37 % 1000) - 300); } t += ']'; break;
    case 1: t += '{'; for (int i = 0; i < n; i++) { if (i) t += ','; t += "\"k"; at(i); num(t, (long)i * 7919 % 100003); t += "\":"; num(t, i); } t += '}'; break;
    case 2: t += '"'; for (int i = 0; i < n; i++) { at(i); t += letter(i); } t += '"'; break;
    case 3: t += "{\""; for (int i = 0; i < n; i++) { at(i); t += letter(i); } t += "\":[1]}"; break;
    case 4: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; t += '"'; for (int k = 0; k < i; k++) { t += letter(k + i); } at(i); t += 'z'; t += '"'; } t += ']'; break;       // every length up to n
    case 5: t += '{'; for (int i = 0; i < n; i++) { if (i) t += ','; t += '"'; for (int k = 0; k < i; k++) t += letter(k); at(i); t += 'z'; t += "\":true"; } t += '}'; break;
    case 6: t += "[1,"; for (int i = 0; i < n; i++) { at(i); t += WSP[i % 6]; } t += "2]"; break;
    case 7: t += "[1"; for (int i = 0; i < n; i++) { at(i); t += CMT[i % 7]; } t += ",2]"; break;
    case 8: t += "/*"; for (int i = 0; i < n; i++) { at(i); t += i % 5 == 3 ? '*' : i % 11 == 4 ? '/' : letter(i); if (t.size() > 3 && t[t.size() - 1] == '/' && t[t.size() - 2] == '*') t[t.size() - 1] = 'q'; } t += " */[1]"; break;
    case 9: t += "[1]//"; for (int i = 0; i < n; i++) { at(i); t += letter(i); } t += "\n "; break;
    case 10: t += '"'; for (int i = 0; i < n; i++) { at(i); t += ESC[i % 14]; } t += '"'; break;
    case 11: t += '"'; for (int i = 0; i < n; i++) { at(i); t += MB[i % 8]; } t += '"'; break;
    case 12: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; at(i); t += LEAF[i % 14]; } t += ']'; break;
    case 13: t += '{'; for (int i = 0; i < n; i++) { if (i) t += ','; t += "\"m"; at(i); num(t, i % (n - n / 4 + 1)); t += "\":"; t += LEAF[i % 14]; } t += '}'; break;      // the last quarter repeats keys
    case 14: t += "[0."; for (int i = 0; i < n; i++) { at(i); t += (char)('0' + i * 3 % 10); } t += ",1]"; break;
    case 15: t += "[1e"; for (int i = 0; i < n; i++) { at(i); t += '0'; } t += "1]"; break;
    case 16: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; if (i & 1) t += '-'; for (int k = 0; k < i % 40; k++) t += (char)('1' + (k + i) % 9); at(i); t += '7'; } t += ']'; break;      // all digit counts
    case 17: for (int i = 0; i < n; i++) { at(i); t += i & 1 ? "{\"a\":" : "[0,"; } t += "[]"; for (int i = n; i-- > 0;) t += i & 1 ? "}" : ",1]"; break;
    case 18: t += '['; for (int i = 0; i < n; i++) { if (i) t += " , "; at(i); t += "{ \"a\" : [ "; num(t, i); t += " , \"x\" ] }"; } t += "\n]\n"; break;
    case 19: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; at(i); num(t, i); t += '.'; num(t, i % 97); if (i % 3 == 1) t += "e2"; if (i % 3 == 2) t += "E-3"; } t += ']'; break;
    case 20: t += "[\""; for (int i = 0; i < n; i++) { at(i); if (i % 3 == 0) t += ESC[i / 3 % 14]; else if (i % 3 == 1) t += MB[i / 3 % 8]; else t += letter(i); } t += "\",\"end\"]"; break;
    case 21: t += "{\"x\":["; for (int i = 0; i < n; i++) { if (i) t += ','; at(i); t += "[]"; } t += "],\"y\":{"; for (int i = 0; i < n; i++) { if (i) t += ','; t += '"'; num(t, i); t += "\":{}"; } t += "},\"z\":0}"; break;
    case 22: for (int i = 0; i < n; i++) { at(i); t += WSP[i % 6]; } t += "{\"a\""; for (int i = 0; i < n; i++) t += WSP[(i + 1) % 6]; t += ":1}"; for (int i = 0; i < n; i++) t += WSP[(i + 2) % 6]; break;
    default: t += '['; for (int i = 0; i < n; i++) { if (i) t += ','; at(i); t += "\"\\ud8"; t += "0123456789abcdefABCDEF"[i % 22]; t += "1\\udc"; t += "0123456789abcdefABCDEF"[(i + 5) % 22]; t += "0\""; } t += ']'; break;
  }
  mark[0] = M[0]; mark[1] = M[1]; mark[2] = M[2]; return t;
}
// a value of a given size; c a symbolic integer put at the chosen position
static inline std::string bigstr(int kind, int n) { std::string s; for (int i = 0; i < n; i++) { if (kind == 0) s += letter(i); else if (kind == 1) s += MB[i % 8]; else if (kind == 2) s += (char)(i % 32 == 0 ? 31 : i % 32); else s += i % 4 == 0 ? std::string(MB[i / 4 % 8]) : i % 4 == 1 ? std::string(1, "\n\t\"\\/\b\f\r\x7f"[i / 4 % 9]) : std::string(1, letter(i)); } return s; }
static inline jv bigtree(int kind, int n, int at, int64_t c) {
  jv v;
  switch (kind) {
    case 0: v = value_constant::array; for (int i = 0; i < n; i++) v.push_back(i == at ? c : (int64_t)i * 131 - 7000); break;
    case 1: v = value_constant::object; for (int i = 0; i < n; i++) { std::string k = "k"; num(k, (long)i * 7919 % 100003); v[k] = i == at ? c : (int64_t)i; } break;
    case 2: v = value_constant::array; for (int i = 0; i < n; i++) v.push_back(bigstr(i % 2 ? 0 : 3, i)); v.push_back(c); break;        // strings of every length
    case 3: v = value_constant::object; for (int i = 0; i < n; i++) { jv x = value_constant::array; x.push_back(i == at ? c : (int64_t)i); x.push_back(i % 3 == 0 ? jv(nullptr) : i % 3 == 1 ? jv(true) : jv("s")); v[bigstr(0, i)] = x; } break;       // keys of every length
    case 4: v = c; for (int i = 0; i < n; i++) { jv w; if (i % 2) { w = value_constant::array; w.push_back(std::move(v)); w.push_back(i); } else { w = value_constant::object; w["k"] = std::move(v); w["l"] = nullptr; } v = std::move(w); } break;
    case 5: v = value_constant::array; for (int i = 0; i < n; i++) { switch (i % 9) { case 0: v.push_back(nullptr); break; case 1: v.push_back(i % 2 == 0); break; case 2: v.push_back(value_constant::array); break; case 3: v.push_back(value_constant::object); break; case 4: v.push_back(i * 0.5); break; case 5: v.push_back(A(i, "x")); break; case 6: v.push_back(O("a", i)); break; case 7: v.push_back(bigstr(3, i % 50)); break; default: v.push_back(i / 9 == at / 9 ? c : (int64_t)i); } } break;
    case 6: v = value_constant::array; for (int i = 0; i < n; i++) { jv r = value_constant::array; for (int k = 0; k < 4; k++) r.push_back(i == at && k == 2 ? c : (int64_t)(i * k)); v.push_back(std::move(r)); } break;
    default: v = value_constant::array; for (int i = 0; i < n; i++) { jv r = value_constant::object; r["id"] = i; r["name"] = bigstr(0, i % 23); r["v"] = i == at ? c : (int64_t)-i; v.push_back(std::move(r)); } break;
  }
  return v;
}
// what a user did before: parses and dumps that work and that fail, with and without handlers
static inline void warm(int how) {
  if (how & 1) { try { json::parse("[1,{\"a\":[true,null,\"x\\u0041\"]}, 2.5e1] // c"); } catch (...) {} try { json::dump(O("a", A(1, 2.5, "x\n"), "b", nullptr), { json::serializer::with_indent(3, '\t'), json::serializer::with_unicode_escaping(true), json::serializer::with_precision(3, std::ios_base::scientific) }); } catch (...) {} }
  if (how & 2) { static const char* const B[] = { "[1,", "\"\\ud800x\"", "{\"a\" 1}", "tru", "-", "\"abc", "/*", "[\"\xff\"]", "1.", "\"\\q\"" }; for (const char* b : B) { try { json::parse(b); } catch (...) {} } try { json::dump(A(1, "\xff")); } catch (...) {} try { json::dump(A(1, A(std::string("ab\xC3")), 2), { json::serializer::with_indent(2), json::serializer::with_unicode_escaping(true) }); } catch (...) {} }
  if (how & 4) { error_handler_with<error_policy::record> r; error_handler_with<error_policy::ignore> g; jv v; try { json::parse(v, "[1,2", { json::parser::with_error_handler(&r) }); json::parse(v, "{\"k\":[\"\\u12", { json::parser::with_error_handler(&g) }); std::string s; json::dump(s, A("\xff"), { json::serializer::with_error_handler(&g), json::serializer::with_indent(2) }); } catch (...) {} }
}
