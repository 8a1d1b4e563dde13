// C16: long documents through every sink.
#include "big.h"
#include "sink.cpp"
SX_ENTRY(big_sink) {
  int k = __sx_param(0), kind = __sx_param(1), n = __sx_param(2); if (__sx_param(4)) warm(7); jv v = bigtree(kind, n, place(__sx_param(3), n), (int64_t)sym(4, "c")); std::string want = "#" + json::dump(v), got = to<json, char>(k, v, "#"); CHECK(eq(want, got), "C16 the text differs with the sink"); __sx_cover("long");
}
SX_ENTRY(big_wsink) {
  int k = __sx_param(0), kind = __sx_param(1), n = __sx_param(2); jv x = bigtree(kind, n, place(__sx_param(3), n), (int64_t)sym(4, "c")); std::wstring t = json::dump<wchar_t>(x); wjson::value v = wjson::parse(t); std::wstring want = L"#" + wjson::dump(v), got = to<wjson, wchar_t>(k, v, L"#"); CHECK(eq(want, got), "C16 the wide text differs with the sink"); CHECK(kind == 5 || eq(want, L"#" + t), "C16 the wide text differs from the text of the same value"); __sx_cover("long");
}
// indentation by the stream's width, into every kind of stream, several times over
template <class OS> static void indented(OS& os, const jv& v, const std::string& one, const std::string& flat, unsigned w, char f, std::string& want) {
  for (int i = 0; i < 3; i++) { os << std::setfill(f) << std::setw((int)w) << json::wrap(v); want += one; CHECK(os.width() == 0 && os.fill() == f && os.good(), "C16 the stream's state after a dump"); os << json::wrap(v); want += flat; os << '|'; want += '|'; os.width((std::streamsize)w); json::dump(os, v); want += one; os << 7 << true << 0.5; want += "710.5"; }
}
SX_ENTRY(big_width) {
  int k = __sx_param(0), kind = __sx_param(1), n = __sx_param(2); unsigned w = (unsigned)__sx_param(3); char f = (char)sym(8, "fill"); __sx_assume(f != 0); jv v = bigtree(kind, n, n / 2, 5); std::string one = json::dump(v, { json::serializer::with_indent((uint8_t)w, f) }), flat = json::dump(v), want, got;
  if (k == 0) { std::ostringstream os; indented(os, v, one, flat, w, f, want); got = os.str(); } else if (k == 1) { Out1<char> a; { oadapterstream os(a); indented(os, v, one, flat, w, f, want); } got = a.t; } else if (k == 2) { OutN<char> a; { oadapterstream os(a); indented(os, v, one, flat, w, f, want); } got = a.t; } else { Small<char> b; { std::ostream os(&b); indented(os, v, one, flat, w, f, want); os.flush(); } got = b.t; }
  CHECK(eq(want, got), "C16 width and fill do not select the indentation, or a dump changes what follows"); __sx_cover("long width");
}
