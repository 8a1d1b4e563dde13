// More than 65536 units or elements: what a 16-bit counter, index or length somewhere would lose. Concrete but for a symbolic unit.
#define BYTES_CAP 64
#include "gen.h"
#include <sstream>
#include <vector>
#include <map>
static std::string fixed5(int i) { char b[8]; for (int k = 5; k-- > 0; i /= 10) b[k] = (char)('0' + i % 10); return std::string(b, 5); }
static bool eq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; size_t i = 0; bool r = true; for (; i < a.size(); i++) if (a[i] != b[i]) r = false; return r; }
static std::string doc(int k, int n, char c) {
  std::string t; t.reserve((size_t)n * 12 + 64);
  switch (k) {
    case 0: t += '"'; t.append((size_t)n, 'a'); t += c; t += '"'; break;
    case 1: t += "{\""; t.append((size_t)n, 'k'); t += c; t += "\":1}"; break;
    case 2: t += '['; for (int i = 0; i < n; i++) t += "3,"; t += c; t += ']'; break;
    case 3: t += '['; for (int i = 0; i < n; i++) t += i & 1 ? "[]," : "{},"; t += c; t += ']'; break;
    case 4: t += '{'; for (int i = 0; i < n; i++) { t += '"'; t += fixed5(i); t += "\":1,"; } t += "\"z\":"; t += c; t += '}'; break;
    case 5: t += "\""; for (int i = 0; i < n; i++) t += "\\n"; t += c; t += '"'; break;
    case 6: t += "\""; for (int i = 0; i < n / 2; i++) t += "\xC3\xA9"; t += c; t += '"'; break;
    case 7: t.append((size_t)n, ' '); t += '['; t.append((size_t)n, '\n'); t += c; t += ']'; t.append((size_t)n, '\t'); break;
    case 8: t += "/*"; t.append((size_t)n, '*'); t += "/["; t += c; t += "//"; t.append((size_t)n, '/'); t += "\n]"; break;
    case 9: t += "[0."; t.append((size_t)n, '0'); t += c; t += ']'; break;
    case 10: t += "[1.5e"; t += c; t += ']'; break;
    default: t += '['; for (int i = 0; i < n; i++) t += "\"s\","; t += c; t += ']'; break;
  }
  return t;
}
// digit or letter, decided by the solver on each path
static char unit(int k) { unsigned c = (unsigned)sym(8, "b"); if (k == 0 || k == 1 || k == 5 || k == 6) __sx_assume((c >= 'a') & (c <= 'z')); else __sx_assume((c >= '1') & (c <= '9')); return (char)c; }
static const char* W = "C02 a long document is not parsed into the tree it denotes";
SX_ENTRY(huge_text) {      // kind, size, property of the message by position: parse and compare, dump and compare
  int k = __sx_param(0), n = __sx_param(1), what = __sx_param(2); char c = unit(k); std::string t = doc(k, n, c); jv v; bool ok = true; try { v = json::parse(t); } catch (const std::exception&) { ok = false; } CHECK(ok, "C02 a valid long document was rejected");
  switch (k) {
    case 0: case 5: case 6: { CHECK(v.is_string(), W); const std::string& s = *v.get_ptr<std::string*>(); size_t want = k == 6 ? (size_t)n / 2 * 2 : (size_t)n; CHECK(s.size() == want + 1 && s[want] == c && s[want - 1] == (k == 0 ? 'a' : k == 5 ? '\n' : '\xA9') && s[0] == (k == 0 ? 'a' : k == 5 ? '\n' : '\xC3'), W); break; }
    case 1: { CHECK(v.is_object() && v.size() == 1, W); std::string s = v.begin().key(); CHECK(s.size() == (size_t)n + 1 && s[(size_t)n] == c && s[0] == 'k', W); break; }
    case 2: case 3: case 11: { CHECK(v.is_array() && v.size() == (size_t)n + 1 && v[(size_t)n].is_integer() && v[(size_t)n].get<int>() == c - '0', W); const jv& x = v[(size_t)n - 1]; CHECK(k == 2 ? x.is_integer() && x.get<int>() == 3 : k == 3 ? x.empty() && (x.is_array() || x.is_object()) : x.is_string() && x.get<const std::string&>() == "s", W); break; }
    case 4: { CHECK(v.is_object() && v.size() == (size_t)n + 1 && v.at("z").get<int>() == c - '0' && v.count(fixed5(n - 1)) == 1 && v.count(fixed5(0)) == 1 && v.count(fixed5(n)) == 0, W); break; }
    case 7: case 8: CHECK(v.is_array() && v.size() == 1 && v[0].is_integer() && v[0].get<int>() == c - '0', W); break;
    default: CHECK(v.is_array() && v.size() == 1 && v[0].is_floating(), W); break;
  }
  if (what & 1) { std::string d = json::dump(v); if (k == 7 || k == 8) CHECK(d.size() == 3 && d[1] == c, "C11 a long document does not survive"); else CHECK(eq(d, t), "C11 a long document does not survive"); }
  if (what & 2) { jv w = json::parse(json::dump(v, { json::serializer::with_indent(1, ' ') })); CHECK(w == v && w.size() == v.size(), "C11 a long document does not survive indented"); }
  __sx_cover("huge");
}
// an array beyond 65536 elements: a (position) symbolic element
SX_ENTRY(huge_array) {
  int n = __sx_param(0), op = __sx_param(1); int64_t c = (int64_t)sym(64, "c"); jv v = value_constant::array; for (int i = 0; i < n; i++) v.push_back(i == n - 1 ? c : (int64_t)i); size_t N = (size_t)n; CHECK(v.size() == N && !v.empty() && v[N - 1].get<int64_t>() == c, "C19 a long array lost elements");
  bool th = false;
  switch (op) {
    case 0: { try { v.at(N); } catch (const std::out_of_range&) { th = true; } CHECK(th, "C19 an index beyond a long array was accepted"); const jv& k = v; th = false; try { k[N]; } catch (const std::out_of_range&) { th = true; } CHECK(th, "C19 an index beyond a long array was accepted"); v[N + 3] = 5; CHECK(v.size() == N + 4 && v[N].is_null() && v[N + 3].get<int>() == 5 && v[N - 1].get<int64_t>() == c && v[65535].get<int64_t>() == 65535, "C19 growing a long array"); break; }
    case 1: { v.erase((size_t)3); CHECK(v.size() == N - 1 && v[3].get<int>() == 4 && v[N - 2].get<int64_t>() == c, "C19 erasing from a long array"); v.erase(N - 2); CHECK(v.size() == N - 2 && v[N - 3].get<int64_t>() == (int64_t)N - 2, "C19 erasing from a long array"); v.erase(v.begin() + 10, v.begin() + (ptrdiff_t)(N - 10)); CHECK(v.size() == 18 && v[9].get<int>() == 10 && v[10].get<int64_t>() == (int64_t)N - 9, "C19 erasing a range from a long array"); break; }
    case 2: { auto b = v.begin(), e = v.end(); CHECK(e - b == (ptrdiff_t)N, "C21 the distance in a long array"); auto it = b + 65537; CHECK((*it).get<int64_t>() == 65537 && it - b == 65537 && (b += 65536) - v.begin() == 65536 && (*(e - 1)).get<int64_t>() == c && b < it && it > b && it <= e, "C21 moving in a long array"); it -= 65536; CHECK((*it).get<int64_t>() == 1, "C21 moving in a long array"); size_t m = 0; for (auto i = v.cbegin(); i != v.cend(); ++i) m++; CHECK(m == N, "C21 walking a long array"); m = 0; for (auto i = v.rbegin(); i != v.rend(); ++i) { if (m == 0) CHECK((*i).get<int64_t>() == c, "C21 walking a long array"); m++; } CHECK(m == N, "C21 walking a long array"); break; }
    case 3: { jv w = v; CHECK(w == v && !(w < v) && !(v < w), "C22 a copy of a long array differs"); w[N - 1] = c ^ 1; CHECK(!(w == v) && w != v && (w < v) == ((c ^ 1) < c) && (v < w) == (c < (c ^ 1)), "C22 long arrays that differ at the end"); w = v; w.push_back(0); CHECK(v != w && v < w && !(w < v), "C22 a long array and its prefix"); break; }
    case 4: { jv w = v; w[65536] = "x"; CHECK(v[65536].is_integer() && w.size() == N, "C17 a copy of a long array shares its elements"); jv m = std::move(v); CHECK(m.size() == N && m[N - 1].get<int64_t>() == c && v.is_null(), "C17 moving a long array"); v = m; v.swap(w); CHECK(v[65536].is_string() && w[N - 1].get<int64_t>() == c, "C17 swapping long arrays"); break; }
    case 5: { std::vector<int64_t> l = v.get<std::vector<int64_t>>(); CHECK(l.size() == N && l[N - 1] == c && l[65536] == 65536, "C23 a long sequence does not survive"); jv w = l; CHECK(w.size() == N && w[N - 1].get<int64_t>() == c, "C23 a long sequence does not survive"); break; }
    case 6: { jv w = v; w.clear(); CHECK(w.is_array() && w.empty() && v.size() == N, "C26 clearing a long array"); break; }
  }
  __sx_cover("huge");
}
SX_ENTRY(huge_object) {
  int n = __sx_param(0), op = __sx_param(1); int64_t c = (int64_t)sym(64, "c"); jv v = value_constant::object; for (int i = 0; i < n; i++) v[fixed5(i)] = i == n - 1 ? c : (int64_t)i; size_t N = (size_t)n; CHECK(v.size() == N && v[fixed5(n - 1)].get<int64_t>() == c, "C20 a large object lost members");
  switch (op) {
    case 0: { CHECK(v.count(fixed5(n)) == 0 && v.find(fixed5(n)) == v.end() && v.find(fixed5(65536)).key() == fixed5(65536), "C20 looking up in a large object"); CHECK(v.erase(fixed5(n - 1)) == 1 && v.size() == N - 1 && v.erase(fixed5(n - 1)) == 0, "C20 erasing from a large object"); v["new"] = 1; CHECK(v.size() == N && v.at("new").get<int>() == 1, "C20 adding to a large object"); break; }
    case 1: { size_t m = 0; for (auto i = v.begin(); i != v.end(); ++i) m++; CHECK(m == N, "C21 walking a large object"); auto it = v.end(); --it; CHECK(it.key() == fixed5(n - 1) && it.value().get<int64_t>() == c, "C21 walking a large object"); break; }
    case 2: { jv w = v; CHECK(w == v && !(w < v), "C22 a copy of a large object differs"); w[fixed5(n - 1)] = c ^ 1; CHECK(w != v && (w < v) == ((c ^ 1) < c), "C22 large objects that differ at the end"); break; }
    case 3: { jv w = v; w.erase(fixed5(7)); CHECK(v.size() == N && w.size() == N - 1, "C17 a copy of a large object shares its members"); break; }
    case 4: { auto m = v.get<std::map<std::string, int64_t>>(); CHECK(m.size() == N && m[fixed5(n - 1)] == c, "C23 a large map does not survive"); jv w = m; CHECK(w.size() == N && w[fixed5(n - 1)].get<int64_t>() == c, "C23 a large map does not survive"); break; }
  }
  __sx_cover("huge");
}
static std::string wide_layout(int n, char c) { std::string t = "[\n"; for (int i = 0; i < n; i++) t += "\t3,\n"; t += '\t'; t += c; t += "\n]"; return t; }
SX_ENTRY(huge_layout) { int n = __sx_param(0); char c = unit(2); jv v = json::parse(doc(2, n, c)); CHECK(eq(json::dump(v, { json::serializer::with_indent(1, '\t') }), wide_layout(n, c)), "C30 the layout of a long array"); std::ostringstream os; os.fill('\t'); os.width(1); json::dump(os, v); CHECK(eq(os.str(), wide_layout(n, c)), "C30 the layout of a long array"); __sx_cover("huge"); }
// malformed at the very end: only the closing unit is accepted there
struct CountH : error_handler { int n; CountH() : n(0) {} void handle(std::exception_ptr) override { n++; } };
SX_ENTRY(huge_bad) {
  int k = __sx_param(0), n = __sx_param(1); std::string t = doc(k, n, k == 0 || k == 1 || k == 5 ? 'q' : '4'); char last = t[t.size() - 1], b; if (k == 0 || k == 1 || k == 5) b = (char)sym(8, "b"); else { static const char B[] = { 0, ',', '}', 'x' }; unsigned i = choose(k == 4 ? 2 : 4, "b"); b = i ? B[i] : last; if (k == 4 && i == 2) b = ']'; } t[t.size() - 1] = b; if (__sx_param(2)) t += ' ';
  int ok = b == last, bad = !ok; if (__sx_param(3) == 0) { int acc = 0, rej = 0; try { json::parse(t); acc = 1; } catch (const configor_deserialization_error&) { rej = 1; } catch (const std::exception&) {} CHECK(acc + rej == 1, "C01 an exception other than configor_deserialization_error"); CHECK(acc == ok, "C03 a long malformed text was accepted, or a valid one rejected"); __sx_cover("huge"); return; }
  CountH h; jv v; bool esc = false; try { json::parse(v, t, { json::parser::with_error_handler(&h) }); } catch (...) { esc = true; } CHECK(!esc && h.n == bad, "C14 the handler is not told exactly once of an error at the end of a long text"); __sx_cover("huge");
}
template <class C> struct InA : basic_iadapter<C> { const C* p; size_t n, i, fail; InA(const C* q, size_t m, size_t f) : p(q), n(m), i(0), fail(f) {} C read() override { if (i == fail) { throw std::runtime_error("source"); } if (i < n) return p[i++]; return (C)std::char_traits<C>::eof(); } };
struct OutA : oadapter { std::string t; size_t fail; OutA() : fail((size_t)-1) { } void write(const char c) override { if (t.size() == fail) throw std::runtime_error("sink"); t += c; } };
SX_ENTRY(huge_source) {
  int k = __sx_param(0), n = __sx_param(1), src = __sx_param(2); char c = unit(k); std::string t = doc(k, n, c); jv want = json::parse(t), v; bool ok = true;
  try { switch (src) { case 0: v = json::parse(t.c_str()); break; case 1: { std::istringstream is(t); v = json::parse(is); break; } case 2: { void* f = rt_file(t.data(), t.size(), 0); v = json::parse((std::FILE*)f); rt_file_close(f); break; } case 3: { InA<char> a(t.data(), t.size(), (size_t)-1); iadapterstream is(a); v = json::parse(is); break; } case 4: { std::istringstream is(t); is >> json::wrap(v); break; } default: { std::wstring w; for (size_t i = 0; i < t.size(); i++) w += (wchar_t)(unsigned char)t[i]; v = json::parse(w); break; } } } catch (const std::exception&) { ok = false; }
  CHECK(ok && v == want && v.size() == want.size(), "C15 a long text differs with the source"); __sx_cover("huge");
}
SX_ENTRY(huge_sink) {
  int k = __sx_param(0), n = __sx_param(1), snk = __sx_param(2); char c = unit(k); std::string t = doc(k, n, c), got; jv v = json::parse(t);
  switch (snk) { case 0: got = json::dump(v); break; case 1: { std::ostringstream os; json::dump(os, v); got = os.str(); break; } case 2: { OutA a; { oadapterstream os(a); json::dump(os, v); } got = a.t; break; } case 3: { std::ostringstream os; os << json::wrap(v); got = os.str(); break; } case 4: json::dump<char>(got, v); break; default: { std::wstring w = json::dump<wchar_t>(v); for (size_t i = 0; i < w.size(); i++) got += (char)w[i]; break; } }
  CHECK(eq(got, t), "C16 a long text differs with the sink"); __sx_cover("huge");
}
SX_ENTRY(huge_fault) {
  int k = __sx_param(0), n = __sx_param(1); std::string t = doc(k, n, '4'); size_t at = 65534 + (size_t)choose(4, "at"); bool th = false; jv v; InA<char> a(t.data(), t.size(), at); iadapterstream is(a); is.exceptions(__sx_param(2) ? std::ios_base::badbit : std::ios_base::goodbit); try { v = json::parse(is); } catch (const std::exception&) { th = true; } CHECK(th, "C27 a source that failed late was not reported");
  v = json::parse(t); OutA o; o.fail = at; { oadapterstream os(o); os.exceptions(__sx_param(2) ? std::ios_base::badbit : std::ios_base::goodbit); th = false; try { json::dump(os, v); } catch (const std::exception&) { th = true; } } CHECK(th && o.t.size() == at && eq(o.t, t.substr(0, at)), "C27 a sink that failed late was not reported"); __sx_cover("huge");
}
SX_ENTRY(huge_wide) {
  int n = __sx_param(0); uint32_t c = sym_scalar("cp"); __sx_assume((c >= 0x800) & (c < 0xD800)); std::wstring w(L"\""); w.append((size_t)n, L'\u20AC'); w += (wchar_t)c; w += L'"'; jv v = json::parse(w); const std::string& s = *v.get_ptr<std::string*>(); size_t m = s.size();
  CHECK(m == 3 * (size_t)n + 3 && (unsigned char)s[m - 3] == 0xE0 + (c >> 12) && (unsigned char)s[m - 2] == 0x80 + (c >> 6 & 63) && (unsigned char)s[m - 1] == 0x80 + (c & 63) && (unsigned char)s[m - 4] == 0xAC, "C13 a long wide text is not transcoded"); std::wstring o = json::dump<wchar_t>(v); CHECK(o.size() == w.size() && o[(size_t)n + 1] == (wchar_t)c && o[(size_t)n] == L'\u20AC', "C13 a long text is not transcoded to wide"); __sx_cover("huge");
}
