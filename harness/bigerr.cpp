// C14: errors far into long texts and values, handlers that are used again.
#include "big.h"
#include "err.cpp"
SX_ENTRY(big_err) {   // document, size, position, how (0 symbolic byte, 3 cut there), handlers
  int m[3], how = __sx_param(3); std::string t = bigdoc(__sx_param(0), __sx_param(1), m); int at = m[__sx_param(2)]; unsigned c = (unsigned)sym(8, "b"); if (how & 8) warm(7); if ((how & 7) == 3) { t.resize((size_t)at); t += (char)c; } else t[(size_t)at] = (char)c; parse_all(t, (unsigned)__sx_param(4)); __sx_cover("long");
}
// a bad leaf somewhere in a big value
static void replace_leaf(jv& v, int kind, int n, int pos, const jv& x) { (void)kind; int at = place(pos, n); if (v.is_array()) { jv& e = (*v.data().vector)[(size_t)at % v.size()]; if (e.is_array() && e.size()) e[0] = x; else if (e.is_object() && e.size()) e.begin().value() = x; else e = x; } else { auto it = v.begin(); for (int i = 0; i < at % (int)v.size(); i++) ++it; it.value() = x; } }
SX_ENTRY(big_dump_err) {
  int kind = __sx_param(0), n = __sx_param(1), leaf = __sx_param(3); jv x, v = bigtree(kind, n, 0, 1); if (leaf == 0) { Bytes b; b.add('x'); b.add((unsigned)sym(8, "b")); b.add('y'); x = b.str(); } else if (leaf == 1) { std::string s = bigstr(0, 300); s[(size_t)place(__sx_param(2), 300)] = (char)sym(8, "b"); x = s; } else { uint64_t bits = sym(1, "s") << 63 | 0x7FF0000000000000ull | sym(2, "m"); double d; memcpy(&d, &bits, 8); x = d; } replace_leaf(v, kind, n, __sx_param(2), x);
  std::string plain; Out o = run([&] { plain = json::dump(v); }); __sx_cover(o.threw ? "dump error" : "dump ok"); Count c; Rec r; Str st; Ign g;
  for (int i = 0; i < 2; i++) { std::string t; Out a = run([&] { t = json::dump(v, { S::with_error_handler(&c) }); }); CHECK(!a.threw && c.n == (o.threw ? i + 1 : 0), "C14 the handler was not called exactly once per dump error"); if (o.threw) CHECK(c.kind == o.kind && bytes_eq(c.msg, o.msg), "C14 the handler received another dump error"); else CHECK(bytes_eq(t, plain), "C14 the handler changed the dumped text");
    r.error.clear(); a = run([&] { json::dump(v, { S::with_indent(3), S::with_error_handler(&r) }); }); CHECK(!a.threw && (o.threw ? bytes_eq(r.error, o.msg) : r.error.empty()), "C14 the record policy kept another dump message"); a = run([&] { json::dump(v, { S::with_error_handler(&g) }); }); CHECK(!a.threw, "C14 an error escaped with the ignore policy"); a = run([&] { json::dump(v, { S::with_error_handler(&st) }); }); CHECK(a.threw == o.threw && (!o.threw || (a.kind == o.kind && bytes_eq(a.msg, o.msg))), "C14 the strict policy changed the dump error"); }
  __sx_cover("long");
}
// one handler, one value, a history of texts good and bad: each error once, each good text parsed
SX_ENTRY(big_history) {
  static const char* const T[] = { "[1]", "[1,", "{\"a\":[true,\"x\"]}", "\"\\q\"", "1.5e3", "tru", "\"\xff\"", "[]", "1 2", "/* x", "\"long enough to leave the small buffer of a string\"", "{\"a\" 1}", "null", "-", "[[[[1]]]]", "\"\\ud800\"" }; int len = __sx_param(0), pol = __sx_param(1); Count c; Rec r; Ign g; jv v; int errs = 0; std::string last;
  for (int i = 0; i < len; i++) { std::string t = T[i < len - 1 ? (i * 5 + len) % 16 : (int)choose(16, "text")]; if (i == len - 1) t += (char)sym(8, "b"); jv plain; Out o = run([&] { plain = json::parse(t); }); if (o.threw) { errs++; last = o.msg; }
    Out a = run([&] { if (pol == 0) json::parse(v, t, { P::with_error_handler(&c) }); else if (pol == 1) json::parse(v, t, { P::with_error_handler(&r) }); else json::parse(v, t, { P::with_error_handler(&g) }); }); CHECK(!a.threw, "C14 an error escaped although a handler is installed"); if (pol == 0) { CHECK(c.n == errs, "C14 the handler was not called exactly once per error"); if (o.threw) CHECK(bytes_eq(c.msg, o.msg) && c.kind == 2, "C14 the handler received another message"); } if (pol == 1 && o.threw) CHECK(bytes_eq(r.error, o.msg), "C14 the record policy kept another message"); if (!o.threw) CHECK(same_tree(v, plain), "C14 the handler changed the result"); }
  __sx_cover("history");
}
