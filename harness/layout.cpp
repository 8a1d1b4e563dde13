// C30: the layout of indented and compact output.
#define BYTES_CAP 4096
#include "gen.h"
#include "layout.h"
#include <sstream>
using JS = json::serializer; using WS = wjson::serializer;
static void same_text(const std::string& a, const std::string& b, const char* msg) { __sx_observe("n", a.size()); CHECK(a.size() == b.size(), msg); CHECK(bytes_eq(a, b), msg); }
static void check(const jv& v, unsigned step, char ch) {
  std::string want; ref_pretty<json>(want, v, 0, step, ch); std::string got = json::dump(v, { JS::with_indent((uint8_t)step, ch) }); same_text(got, want, "C30 the layout is not the documented one");
  if (ch == ' ') { std::string d = json::dump(v, { JS::with_indent((uint8_t)step) }); same_text(d, want, "C30 the default indent character is not a space"); }
}
// a symbolic tree, a step and any indent character
SX_ENTRY(layout_tree) {
  Gen g(__sx_param(0), __sx_param(1)); g.strlen_ = 1; jv v = g.value(g.depth); static const unsigned S[] = { 0, 1, 2, 3, 4, 7, 8, 255 }; unsigned step = S[choose((unsigned)__sx_param(2), "step")]; char ch = ' '; if (__sx_param(3)) { ch = (char)sym(8, "ch"); __sx_assume(ch != 0); } check(v, step, ch); __sx_cover("tree");
}
static jv fixed(int s) {
  int64_t a = (int64_t)(int8_t)sym(8, "a"); std::string t(1, (char)sym_lt(8, 0x7F, "t"));
  switch (s) {
    case 0: return A(A(), O(), A(A()), a); case 1: return O("a", O(), "b", A(), "c", t, "d", O("x", a)); case 2: return A(O("k", A(a, t, nullptr)), O("y", true), false); case 3: return A(A(A(A(A(a))))); case 4: return O("p", O("q", O("r", O("s", a))), "z", nullptr);
    case 5: return A(O(), O(), A(), A(), O("e", O()), A(O())); case 6: return O("a", A(O("b", A(O("c", A(a)))))); case 7: return O("", t, "k\n", 1, "z", A("x", 0.5, -3)); case 8: return A(a); case 9: return O(t, nullptr); case 10: return A(A(a, t), A(A(1, 2), A(3)), A());
    default: return A(nullptr, true, false, a, t, 1.5, A(), O(), A(1), O("k", 1));
  }
}
// fixed shapes: how 0 option, 1 into a string, 2 stream option, 3 stream width and fill, 4 wrapped insertion, 5 with a handler, 6 text dumped twice from one stream, 7 repeated and overridden options
SX_ENTRY(layout_shape) {
  jv v = fixed(__sx_param(0)); int how = __sx_param(1); static const unsigned S[] = { 2, 1, 4, 9 }; unsigned step = S[choose((unsigned)__sx_param(2), "step")]; char ch = " \t."[choose(3, "ch")]; std::string want, got; ref_pretty<json>(want, v, 0, step, ch);
  switch (how) {
    case 0: got = json::dump(v, { JS::with_indent((uint8_t)step, ch), JS::with_unicode_escaping(true) }); break;
    case 1: json::dump(got, v, { JS::with_indent((uint8_t)step, ch) }); break;
    case 2: { std::ostringstream os; json::dump(os, v, { JS::with_indent((uint8_t)step, ch) }); got = os.str(); break; }
    case 3: { std::ostringstream os; os.width((std::streamsize)step); os.fill(ch); json::dump(os, v); got = os.str(); break; }
    case 4: { std::ostringstream os; os.width((std::streamsize)step); os.fill(ch); os << json::wrap(v); got = os.str(); break; }
    case 5: { json::dump(got, v, { JS::with_precision(3), JS::with_indent((uint8_t)step, ch) }); want.clear(); jv z = v; ref_pretty<json>(want, z, 0, step, ch); std::string flat, wf; for (char c : got) if (c != '.' && !(c >= '0' && c <= '9')) flat.push_back(c); for (char c : want) if (c != '.' && !(c >= '0' && c <= '9')) wf.push_back(c); same_text(flat, wf, "C30 the layout depends on the precision"); __sx_cover("shape"); return; }
    case 6: { std::ostringstream os; json::dump(os, v, { JS::with_indent((uint8_t)step, ch) }); json::dump(os, v); json::dump(os, v, { JS::with_indent((uint8_t)step, ch) }); got = os.str(); std::string flat; ref_pretty<json>(flat, v, 0, 0, ch); want = want + flat + want; break; }
    default: { got = json::dump(v, { JS::with_indent(5, 'x'), JS::with_indent((uint8_t)step, ch) }); std::string none = json::dump(v, { JS::with_indent((uint8_t)step, ch), JS::with_indent(0) }), flat; ref_pretty<json>(flat, v, 0, 0, ch); same_text(none, flat, "C30 step 0 does not switch indentation off"); break; }
  }
  same_text(got, want, "C30 the layout is not the documented one"); __sx_cover("shape");
}
// deep nesting: every level indented by its depth, whatever the depth and the step
SX_ENTRY(layout_deep) {
  int depth = __sx_param(0), step = __sx_param(1), kind = __sx_param(2); jv v = (int64_t)(int8_t)sym(8, "a"); __sx_assume((v.get<int64_t>() >= 0) & (v.get<int64_t>() < 10)); int64_t leaf = v.get<int64_t>();
  for (int i = 0; i < depth; i++) { jv w; if (kind == 0 || (kind == 2 && (i & 1))) { w = value_constant::array; w.push_back(std::move(v)); if (i % 50 == 7) w.push_back(i); } else { w = value_constant::object; w["k"] = std::move(v); } v = std::move(w); }
  std::string want; want.reserve(64); // the text, opening brackets downwards and closing ones upwards
  auto isarr = [&](int i) { return kind == 0 || (kind == 2 && (i & 1)); };
  for (int i = depth; i-- > 0;) { bool arr = isarr(i); want += arr ? "[\n" : "{\n"; want.append((size_t)((depth - i) * step), ' '); if (!arr) want += "\"k\": "; }
  want.push_back((char)('0' + leaf));
  for (int i = 0; i < depth; i++) { if (isarr(i) && i % 50 == 7) { want += ",\n"; want.append((size_t)((depth - i) * step), ' '); want += std::to_string(i); } want.push_back('\n'); want.append((size_t)((depth - i - 1) * step), ' '); want.push_back(isarr(i) ? ']' : '}'); }
  std::string got = json::dump(v, { JS::with_indent((uint8_t)step) }); same_text(got, want, "C30 a deep level is not indented by its depth"); __sx_cover("deep");
}
SX_ENTRY(layout_wide) {
  int s = __sx_param(0); int64_t a = (int64_t)(int8_t)sym(8, "a"); wchar_t c = (wchar_t)sym_scalar("c"); std::wstring t(1, c); wjson::value v; switch (s) { case 0: v = wjson::array{ a, t, wjson::object{ { L"k", wjson::array{} }, { L"l", wjson::object{} } } }; break; case 1: v = wjson::object{ { t, wjson::array{ a, nullptr } } }; break; default: v = wjson::array{ wjson::array{ 1, 2 }, wjson::object{ { L"a", a } } }; }
  unsigned step = choose(4, "step"); wchar_t ch = L" \t\x3000"[choose(3, "ch")]; std::wstring want; ref_pretty<wjson>(want, v, 0, step, ch); std::wstring got = wjson::dump(v, { WS::with_indent((uint8_t)step, ch) }); CHECK(got.size() == want.size(), "C30 the layout of wide text is not the documented one"); bool eq = true; for (size_t i = 0; i < got.size(); i++) eq &= got[i] == want[i]; CHECK(eq, "C30 the layout of wide text is not the documented one"); __sx_cover("wide");
}
