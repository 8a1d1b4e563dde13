// C29: the guarantees for template arguments chosen by the user.
#include "ref.h"
#include <list>
#include <vector>
#include <map>
#include <functional>
// ---- number types
template <class I, class F> struct NArgs : value_tplargs { using integer_type = I; using float_type = F; };
template <class J> struct NumLit {
  typedef typename J::value V; typedef typename V::integer_type I; typedef typename V::float_type F;
  static void lit(const char* s) {
    int n = (int)strlen(s); Bytes t; fill_template(t, s, n);
    bool neg = s[0] == '-'; int i = neg || s[0] == '+'; int first = i; uint64_t m = 0; bool big = false; double lo = 0, w = 0;
    if (s[first] == '#' && n > first + 1) __sx_assume(t.b[first] != '0');
    for (; i < n; i++) {
      int64_t g = (int64_t)((int)t.b[i] - '0'); lo *= 10; w *= 10; if (s[i] == '#') w += 9; else lo += (double)(s[i] - '0');
      if (i - first >= 19) { if (m > (UINT64_MAX - (uint64_t)g) / 10) big = true; }
      if (!big) m = m * 10 + (uint64_t)g;
    }
    const uint64_t top = neg ? (uint64_t)0 - (uint64_t)(int64_t)std::numeric_limits<I>::min() : (uint64_t)std::numeric_limits<I>::max();
    if (m > top) big = true;
    bool ok = true, isint = false, isfl = false; I r = 0; F f = 0;
    try { V v = J::parse(t.str()); isint = v.is_integer(); isfl = v.is_floating(); if (isint) r = v.template get<I>(); if (isfl) f = v.template get<F>(); }
    catch (const configor_deserialization_error&) { ok = false; }
    if (!big) { CHECK(ok && isint, "C29 an integer literal that fits did not become an integer"); CHECK(r == (I)(neg ? (uint64_t)0 - m : m), "C29 wrong integer value"); __sx_cover("fits"); }
    else {
      CHECK(!isint, "C29 a literal beyond the chosen integer type became an integer"); __sx_cover("beyond");
      if (isfl) { double a = neg ? -(double)f : (double)f, hi = (lo + w) * (1 + 1e-5); lo *= 1 - 1e-5; CHECK(a >= lo, "C29 the float for a large literal is too small"); CHECK(a <= hi, "C29 the float for a large literal is too large"); }
    }
  }
  static void trip(int where) {   // values around the limits and around zero survive
    uint64_t d = sym(8, "d"); I x = where == 0 ? (I)(std::numeric_limits<I>::max() - (I)d) : where == 1 ? (I)(std::numeric_limits<I>::min() + (I)d) : (I)(int64_t)(int8_t)d;
    V v = x; CHECK(v.is_integer() && v.template get<I>() == x, "C29 an integer is not stored exactly");
    V arr = value_constant::array; arr.push_back(v); arr.push_back(V("s")); V k = J::parse(J::dump(arr));
    CHECK(k.size() == 2 && k[0].is_integer() && k[0].template get<I>() == x && k == arr, "C29 an integer does not survive dump and parse"); __sx_cover("integer trip");
  }
  static void flt() {
    int64_t d = (int64_t)(int16_t)sym(12, "d") - 2048; F x = (F)d; V v = x; CHECK(v.is_floating() && v.template get<F>() == x, "C29 a float is not stored exactly");
    V k = J::parse(J::dump(v)); CHECK(k.is_floating() && k.template get<F>() == x, "C29 a float does not survive dump and parse"); __sx_cover("float trip");
  }
  static void cmp(int where) {   // an integer against a float: as C++ compares them, the integer converted to the float type
    uint64_t d = sym(8, "d"); I x = where == 0 ? (I)(std::numeric_limits<I>::max() - (I)d) : where == 1 ? (I)(std::numeric_limits<I>::min() + (I)d) : (I)(int64_t)(int8_t)d;
    I y = (I)(std::numeric_limits<I>::max() / 2 + (I)d); F f[] = { (F)x, (F)y, (F)0.5, (F)std::numeric_limits<I>::max(), (F)std::numeric_limits<I>::min(), (F)-1.0 }; V v = x;
    for (F g : f) { V w = g; F h = (F)x; CHECK((v == w) == (h == g) && (w == v) == (h == g) && (v != w) == (h != g), "C29 an integer is compared with a float in another way than C++ does"); CHECK((v < w) == (h < g) && (w < v) == (g < h) && (v <= w) == (h <= g) && (v >= w) == (h >= g) && (v > w) == (h > g), "C29 an integer is ordered against a float in another way than C++ does"); }
    V z = y; CHECK((v == z) == (x == y) && (v < z) == (x < y) && (v > z) == (x > y), "C29 integers are compared wrongly"); __sx_cover("compare");
  }
  static void frac(int i) { static const double X[] = { 0.5, -2.25, 1024.125, 0.015625 }; F x = (F)X[i]; V k = J::parse(J::dump(V(x), { J::serializer::with_precision(8) })); CHECK(k.is_floating() && k.template get<F>() == x, "C29 a float does not survive dump and parse"); }
};
typedef basic_json<NArgs<int32_t, double>> J0; typedef basic_json<NArgs<int16_t, float>> J1; typedef basic_json<NArgs<uint64_t, double>> J2; typedef basic_json<NArgs<uint32_t, float>> J3; typedef basic_json<NArgs<int64_t, float>> J4;
static const char* const L[] = { "##", "-##", "+##", "214748####", "-214748####", "327##", "-327##", "42949672##", "-42949672##", "184467440737095516##", "-184467440737095516##", "92233720368547758##", "-92233720368547758##", "9999999999###", "655##", "18446744073709551###", "3276#", "-9223372036854775###" };
SX_ENTRY(args_lit) { const char* s = L[__sx_param(1)]; switch (__sx_param(0)) { case 0: NumLit<J0>::lit(s); break; case 1: NumLit<J1>::lit(s); break; case 2: NumLit<J2>::lit(s); break; case 3: NumLit<J3>::lit(s); break; default: NumLit<J4>::lit(s); } }
SX_ENTRY(args_trip) { int w = __sx_param(1); switch (__sx_param(0)) { case 0: NumLit<J0>::trip(w); break; case 1: NumLit<J1>::trip(w); break; case 2: NumLit<J2>::trip(w); break; case 3: NumLit<J3>::trip(w); break; default: NumLit<J4>::trip(w); } }
SX_ENTRY(args_cmp) { int w = __sx_param(1); switch (__sx_param(0)) { case 0: NumLit<J0>::cmp(w); break; case 1: NumLit<J1>::cmp(w); break; case 2: NumLit<J2>::cmp(w); break; case 3: NumLit<J3>::cmp(w); break; default: NumLit<J4>::cmp(w); } }
SX_ENTRY(args_float) { switch (__sx_param(0)) { case 0: NumLit<J0>::flt(); break; case 1: NumLit<J1>::flt(); break; case 2: NumLit<J2>::flt(); break; case 3: NumLit<J3>::flt(); break; default: NumLit<J4>::flt(); } for (int i = 0; i < 4; i++) NumLit<J1>::frac(i); }

// ---- allocator
static long a_live = 0, a_calls = 0;
template <class T> struct Alloc {
  typedef T value_type; Alloc() {} template <class U> Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { a_live++; a_calls++; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { a_live--; ::operator delete(p); }
  friend bool operator==(const Alloc&, const Alloc&) { return true; } friend bool operator!=(const Alloc&, const Alloc&) { return false; }
};
struct AArgs : value_tplargs { template <class T> using allocator_type = Alloc<T>; };
typedef basic_value<AArgs> AV;
static AV amake(int k, char c) {
  AV::string_type s(20, c);
  switch (k) { case 0: return AV(5); case 1: return AV(s); case 2: { AV v; v.push_back(AV(s)); v.push_back(AV(1)); v[3] = true; return v; } case 3: { AV v; v[AV::string_type(18, 'k')] = s; v[AV::string_type("z")] = AV(); return v; } default: { AV v; v[AV::string_type("a")].push_back(AV(s)); v[AV::string_type("b")][AV::string_type("c")] = 2.5; return v; } }
}
SX_ENTRY(args_alloc) {
  int a = __sx_param(0), b = __sx_param(1), op = __sx_param(2); char c = (char)sym(8, "c"); uint64_t base = rt_news(); long l0 = a_live;
#define EVEN() CHECK((uint64_t)(a_live - l0) == rt_news() - base, "C29 storage of a value does not come from the chosen allocator")
  {
    AV v = amake(a, c); EVEN(); AV w = amake(b, 'w'); EVEN(); AV::string_type s20(20, c); EVEN();
    switch (op) {
      case 0: { AV x = v; CHECK(x == v, "C29 copy"); EVEN(); x = w; CHECK(x == w, "C29 assignment"); EVEN(); break; }
      case 1: { AV x(std::move(v)); CHECK(v.is_null(), "C29 move"); EVEN(); v = std::move(w); CHECK(w.is_null(), "C29 move"); EVEN(); x.swap(v); EVEN(); break; }
      case 2: v = w; EVEN(); v = v; EVEN(); v.clear(); EVEN(); break;
      case 3: { AV x; x.push_back(v); x.push_back(std::move(w)); x.emplace_back(3); EVEN(); x.erase((size_t)0); EVEN(); x[5] = v; EVEN(); x.clear(); EVEN(); break; }
      case 4: { AV x; x[s20] = v; x[AV::string_type("q")] = w; EVEN(); x.erase(s20); EVEN(); x.erase(x.begin()); EVEN(); break; }
      case 5: { AV x = detail::value_maker<AV>::array({ v, w, 1 }); CHECK(x.size() == 3, "C29 array"); EVEN(); AV y = detail::value_maker<AV>::object({ { s20, x }, { AV::string_type("k"), w } }); CHECK(y.size() == 2, "C29 object"); EVEN(); break; }
      case 6: { try { v.get<std::vector<int>>(); } catch (const configor_exception&) {} EVEN(); AV::string_type t; v.get(t); try { v.get<double>(); } catch (const configor_type_error&) {} EVEN(); break; }
      default: { v = AV::string_type(30, c); EVEN(); v = 5; EVEN(); v = nullptr; EVEN(); v = value_constant::object; v = value_constant::string; EVEN(); break; }
    }
    EVEN();
  }
  CHECK(a_live == l0 && rt_news() == base, "C29 storage is not returned to the chosen allocator"); CHECK(a_calls >= 0, ""); if (a || b) CHECK(a_calls > 0, "C29 the chosen allocator is not used"); a_calls = 0; __sx_cover("allocator");
}
// ---- binder
struct Tag { int n; Tag(int k = 0) : n(k) {} };
template <class V> void to_value(V& c, const Tag& t) { c = t.n + 7; }   // what the default binder would do
template <class V> void from_value(const V& c, Tag& t) { t.n = -1; }
template <class T> struct Bind : value_binder<T> {};
template <> struct Bind<Tag> { template <class V> static void to_value(V& c, const Tag& t) { c = value_constant::object; c["tag"] = t.n; } template <class V> static void from_value(const V& c, Tag& t) { t.n = c.at("tag").template get<int>() + 100; } };
struct BArgs : value_tplargs { template <class T> using binder_type = Bind<T>; };
typedef basic_json<BArgs> BJ;
SX_ENTRY(args_binder) {
  int n = (int)(int8_t)sym(8, "n"); BJ::value v = Tag(n); CHECK(v.is_object() && v.size() == 1 && v["tag"] == n, "C29 the chosen binder is not used for storing");
  CHECK(v.get<Tag>().n == n + 100, "C29 the chosen binder is not used for reading"); Tag t; CHECK(v.get(t) && t.n == n + 100, "C29 the chosen binder is not used for reading");
  std::vector<Tag> l; l.push_back(Tag(n)); l.push_back(Tag(2)); BJ::value a = l; CHECK(a.is_array() && a.size() == 2 && a[0]["tag"] == n && a[1]["tag"] == 2, "C29 the chosen binder is not used inside containers");
  std::vector<Tag> m = a.get<std::vector<Tag>>(); CHECK(m.size() == 2 && m[0].n == n + 100 && m[1].n == 102, "C29 the chosen binder is not used inside containers");
  BJ::value o; o["x"] = Tag(n); BJ::value p = BJ::parse(BJ::dump(o)); CHECK(p == o && p["x"].get<Tag>().n == n + 100, "C29 round trip"); std::map<std::string, Tag> mp = o.get<std::map<std::string, Tag>>(); CHECK(mp["x"].n == n + 100, "C29 the chosen binder is not used inside containers");
  __sx_cover("binder");
}
// ---- default encoding
typedef basic_json<value_tplargs, encoding::ignore> IJ; typedef basic_json<wvalue_tplargs, encoding::utf16> UJ;
SX_ENTRY(args_encoding) {
  int n = __sx_param(0); std::string t = "\"", b; for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)sym(8, "b"); __sx_assume(c >= 0x20 && c != '"' && c != '\\'); t += (char)c; b += (char)c; } t += '"';
  IJ::value v = IJ::parse(t); CHECK(v.is_string() && bytes_eq(v.get<const std::string&>(), b), "C29 the chosen default encoding is not used by parse"); CHECK(bytes_eq(IJ::dump(v), t), "C29 the chosen default encoding is not used by dump");
  std::istringstream is(t); CHECK(bytes_eq(IJ::parse(is).get<const std::string&>(), b), "C29 the chosen default encoding is not used by parse"); std::ostringstream os; os << IJ::wrap(v); CHECK(bytes_eq(os.str(), t), "C29 the chosen default encoding is not used by dump");
  json::value u; bool ok = true; try { u = json::parse(t, { json::parser::with_encoding<encoding::ignore>() }); } catch (const configor_deserialization_error&) { ok = false; } CHECK(ok && bytes_eq(u.get<const std::string&>(), b), "C29 the selected encoding is not used");
  __sx_cover("encoding");
}
SX_ENTRY(args_wencoding) {   // UTF-16 inside wchar_t
  uint32_t c = (uint32_t)sym(21, "c"); __sx_assume(is_scalar_value(c) && c >= 0x20 && c != '"' && c != '\\'); std::wstring t = L"\"", b; if (c <= 0xFFFF) b += (wchar_t)c; else { b += (wchar_t)(0xD800 + ((c - 0x10000) >> 10)); b += (wchar_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } t += b; t += L'"';
  UJ::value v = UJ::parse(t); CHECK(v.get<const std::wstring&>() == b, "C29 the chosen default encoding is not used by parse"); CHECK(UJ::dump(v) == t, "C29 the chosen default encoding is not used by dump");
  std::wstring lone = L"\""; lone += (wchar_t)0xD800; lone += L'"'; bool ok = true; try { UJ::parse(lone); } catch (const configor_deserialization_error&) { ok = false; } CHECK(!ok, "C29 the chosen default encoding is not used by parse");
  __sx_cover("wide encoding");
}
