// C17 C18 C19 C20: values under histories of operations, against plain models.
#include "gen.h"
#include <vector>
#include <utility>

// ------------------------------------------------------------------ C17
// model of a value: kind (0 null 1 bool 2 int 3 string 4 array 5 object with keys "a","b",...), contents held by plain C++ containers
struct M { int k; int64_t i; std::string s; std::vector<M> a; std::vector<std::string> ks; M() : k(0), i(0) {} };
static M mi(int64_t i) { M m; m.k = 2; m.i = i; return m; }
static M mb(bool b) { M m; m.k = 1; m.i = b; return m; }
static M ms(std::string s) { M m; m.k = 3; m.s = s; return m; }
static M ma() { M m; m.k = 4; return m; }
static M mo() { M m; m.k = 5; return m; }
static M& mput(M& m, const M& x) { M t = x; m.a.push_back(t); return m; }
static M& mset(M& m, const char* k, const M& x) { M t = x; for (size_t j = 0; j < m.ks.size(); j++) if (m.ks[j] == k) { m.a[j] = t; return m; } size_t p = 0; while (p < m.ks.size() && m.ks[p] < k) p++; m.ks.insert(m.ks.begin() + (long)p, k); m.a.insert(m.a.begin() + (long)p, t); return m; }
static bool match(const jv& v, const M& m) {
  switch (m.k) {
    case 0: return v.is_null();
    case 1: return v.is_bool() && v.data().boolean == (m.i != 0);
    case 2: return v.is_integer() && v.data().integer == m.i;
    case 3: return v.is_string() && bytes_eq(*v.data().string, m.s);
    case 4: { if (!v.is_array() || v.data().vector->size() != m.a.size()) return false; bool r = true; for (size_t i = 0; i < m.a.size(); i++) r = r & match((*v.data().vector)[i], m.a[i]); return r; }
    default: { if (!v.is_object() || v.data().object->size() != m.a.size()) return false; bool r = true; size_t i = 0; for (auto& p : *v.data().object) { r = r & (p.first == m.ks[i]) & match(p.second, m.a[i]); i++; } return r; }
  }
}
static void build(int shape, jv& v, M& m) {
  int64_t x = (int64_t)(int8_t)sym(8, "x"); std::string s(1, (char)sym(8, "c")); std::string lng = s + "a string that is longer than the small buffer"; M t, u;
  switch (shape) {
    case 0: v = jv(); m = M(); break;
    case 1: v = x; m = mi(x); break;
    case 2: v = lng; m = ms(lng); break;
    case 3: v = A(x, s, A(x)); m = ma(); mput(m, mi(x)); mput(m, ms(s)); t = ma(); mput(t, mi(x)); mput(m, t); break;
    case 4: v = O("a", x, "b", lng, "c", A(s)); m = mo(); mset(m, "a", mi(x)); mset(m, "b", ms(lng)); t = ma(); mput(t, ms(s)); mset(m, "c", t); break;
    case 5: v = A(O("b", A(s, x)), true); m = ma(); t = ma(); mput(t, ms(s)); mput(t, mi(x)); u = mo(); mset(u, "b", t); mput(m, u); mput(m, mb(true)); break;
    case 6: v = A(); m = ma(); break;
    default: v = O("a", O("a", O("b", x))); t = mo(); mset(t, "b", mi(x)); u = mo(); mset(u, "a", t); m = mo(); mset(m, "a", u); break;
  }
}
static jv pass(jv v) { return v; }
static const jv& child(const jv& v, size_t i) { auto it = v.begin(); while (i--) ++it; return *it; }
static jv& child(jv& v, size_t i) { auto it = v.begin(); while (i--) ++it; return *it; }
enum { NOPS17 = 17 };
static void step17(unsigned op, jv* v, M* m, unsigned i, unsigned j) {
  jv& a = v[i]; jv& b = v[j]; M& p = m[i]; M& q = m[j]; const M q0 = q, p0 = p;
  switch (op) {
    case 0: { jv& r = (a = b); CHECK(&r == &a, "C17 copy assignment returns something else"); p = q0; break; }
    case 1: { jv& r = (a = std::move(b)); CHECK(&r == &a, "C17 move assignment returns something else"); if (i != j) { p = q0; q = M(); } break; }
    case 2: a.swap(b); p = q0; q = p0; break;
    case 3: { using std::swap; if (i != j) { swap(a, b); p = q0; q = p0; } break; }
    case 4: { jv c(a); CHECK(match(c, p), "C17 a copy differs from its source"); c = 99; c = jv(value_constant::array); c.push_back(b); CHECK(c.size() == 1 && match(c[0], q), "C17 a copy holds something else"); break; }
    case 5: { jv c(std::move(a)); CHECK(a.is_null(), "C17 a moved-from value is not null"); CHECK(match(c, p0), "C17 a moved value differs from its source"); p = M(); if (j != i) { b = std::move(c); q = p0; CHECK(c.is_null(), "C17 a moved-from value is not null"); } break; }
    case 6: if (p.a.size()) { size_t n = choose((unsigned)p.a.size(), "child"); const jv& c = child(a, n); a = c; p = M(p0.a[n]); } break;       // own child, copied
    case 7: if (p.a.size()) { size_t n = choose((unsigned)p.a.size(), "child"); a = std::move(child(a, n)); p = M(p0.a[n]); } break;           // own child, moved
    case 8: if (p.a.size() && p.a[0].a.size()) { const jv& c = child(child((const jv&)a, 0), 0); a = c; p = M(p0.a[0].a[0]); } break;
    case 9: if (p.k == 4) { a.push_back(b); M t = q0; p.a.push_back(t); } else if (p.k == 5 && i != j) { a["k"] = b; mset(p, "k", q0); } break;
    case 10: if (p.k == 4 && i != j) { a.push_back(std::move(b)); p.a.push_back(q0); q = M(); } else if (p.k == 5 && i != j) { a["a"] = std::move(b); mset(p, "a", q0); q = M(); } break;
    case 11: if (p.a.size()) { child(a, p.a.size() - 1) = 5; p.a.back() = mi(5); } else { a = "text"; p = ms("text"); } break;
    case 12: { static const int K[] = { 0, 1, 2, 3 }; int k = K[choose(4, "scalar")]; if (k == 0) { a = nullptr; p = M(); } else if (k == 1) { a = true; p = mb(true); } else if (k == 2) { a = 77; p = mi(77); } else { std::string s("a string that does not fit into the small buffer"); a = s; p = ms(s); } break; }
    case 13: { a = pass(b); p = q0; break; }
    case 14: { jv c(a); c.swap(b); CHECK(match(c, q0), "C17 swap lost a value"); q = p0; break; }
    case 15: { jv c; c = a; a = A(c, b); p = ma(); mput(p, p0); mput(p, q0); break; }
    case 16: if (p.k == 4 && p.a.size()) { a.push_back(child(a, 0)); mput(p, p0.a[0]); } break;
  }
}
SX_ENTRY(copies) {   // shapes of the variables, number of operations, first operation
  int nv = 2; unsigned shapes = (unsigned)__sx_param(0); int len = __sx_param(1), first = __sx_param(2); if (__sx_param(3)) nv = 3; jv v[3]; M m[3];
  for (int i = 0; i < nv; i++) { build((int)(shapes % 8), v[i], m[i]); shapes /= 8; }
  for (int s = 0; s < len; s++) { unsigned op = s == 0 && first >= 0 ? (unsigned)first : choose(NOPS17, "op"); unsigned i = choose((unsigned)nv, "i"), j = choose((unsigned)nv, "j"); step17(op, v, m, i, j); for (int k = 0; k < nv; k++) CHECK(match(v[k], m[k]), "C17 a value changed unexpectedly, or holds something else"); }
  for (int k = 0; k < nv; k++) { jv c = v[k]; CHECK(c == v[k] && same_tree(c, v[k]), "C17 a copy is not equal to its source"); }
  __sx_cover("copies");
}
// a copy is independent at every depth: change one of them at a chosen place
static void poke(jv& v, M* m, unsigned d) {
  if (d == 0 || v.empty() || !(v.is_array() || v.is_object())) { v = "changed"; if (m) *m = ms("changed"); return; }
  unsigned n = choose((unsigned)v.size(), "at"); poke(child(v, n), m ? &m->a[n] : nullptr, d - 1);
}
SX_ENTRY(independent) {
  jv v, w; M m; build(__sx_param(0), v, m); M o = m; int how = __sx_param(2); if (how == 0) w = v; else if (how == 1) { jv t(v); w = std::move(t); } else { w = A(1, 2, "x"); w = v; }
  unsigned d = choose(4, "depth"); if (__sx_param(1)) { poke(v, &m, d); CHECK(match(w, o), "C17 changing the source changes the copy"); CHECK(match(v, m), "C17 a change went elsewhere"); } else { poke(w, &m, d); CHECK(match(v, o), "C17 changing the copy changes the source"); CHECK(match(w, m), "C17 a change went elsewhere"); }
  __sx_cover("independent");
}

// ------------------------------------------------------------------ C18
static int kinds_of(const jv& v) { return v.is_null() + v.is_bool() + v.is_integer() + v.is_floating() + v.is_string() + v.is_array() + v.is_object(); }
template <class T> static bool throws_type(const jv& v) { try { (void)v.get<T>(); } catch (const configor_type_error&) { return true; } return false; }
template <class T> static bool throws_ref(jv& v) { try { (void)v.get<T&>(); } catch (const configor_type_error&) { return true; } return false; }
template <class T> static bool throws_cref(const jv& v) { try { (void)v.get<const T&>(); } catch (const configor_type_error&) { return true; } return false; }
template <class T> static void wrong(jv& v, T keep) { jv before = v; const jv& c = v; CHECK(throws_type<T>(v), "C18 reading as another kind does not throw"); T t = keep; CHECK(!v.get(t), "C18 a try access to another kind claims success"); CHECK(t == keep, "C18 a failing try access changes the target"); bool th = false; try { T x = c; (void)x; } catch (const configor_type_error&) { th = true; } CHECK(th, "C18 an implicit conversion to another kind does not throw"); CHECK(same_tree(v, before), "C18 a failing access changes the value"); }
template <class T> static void wrong_ref(jv& v) { CHECK(v.get_ptr<T*>() == nullptr, "C18 a pointer of another kind is not null"); CHECK(((const jv&)v).get_ptr<const T*>() == nullptr, "C18 a const pointer of another kind is not null"); CHECK(v.get<T*>() == nullptr, "C18 a pointer of another kind is not null"); CHECK(throws_ref<T>(v), "C18 a reference of another kind does not throw"); CHECK(throws_cref<T>(v), "C18 a const reference of another kind does not throw"); }
// what: 0 bool 1 int 2 float 3 string 4 array 5 object 6 null
static void all_wrong(jv& v, int what) {
  CHECK(kinds_of(v) == 1, "C18 the kind queries do not name exactly one kind"); CHECK(v.is_number() == (what == 1 || what == 2), "C18 is_number is wrong");
  CHECK(v.is_bool() == (what == 0) && v.is_integer() == (what == 1) && v.is_floating() == (what == 2) && v.is_string() == (what == 3) && v.is_array() == (what == 4) && v.is_object() == (what == 5) && v.is_null() == (what == 6), "C18 the kind queries name another kind");
  if (what != 0) { wrong<bool>(v, true); wrong_ref<bool>(v); }
  if (what != 1) { wrong<int>(v, 7); wrong<int64_t>(v, -3); wrong<uint8_t>(v, 9); wrong<char>(v, 'c'); wrong_ref<int64_t>(v); }
  if (what != 2) { wrong<double>(v, 0.25); wrong<float>(v, 0.5f); wrong_ref<double>(v); }
  if (what != 3) { wrong<std::string>(v, "keep"); wrong_ref<std::string>(v); }
  if (what != 4) wrong_ref<jv::array_type>(v);
  if (what != 5) wrong_ref<jv::object_type>(v);
  if (what != 4 && what != 6) CHECK(throws_type<jv::array_type>(v), "C18 reading as an array does not throw");
  if (what != 5 && what != 6) CHECK(throws_type<jv::object_type>(v), "C18 reading as an object does not throw");
}
template <class T> static void same_int(unsigned w) {
  T x = (T)sym(w, "x"); jv v(x), u; u = x; const jv& c = v; CHECK(v.is_integer() && u.is_integer(), "C18 an integer is not stored as an integer"); CHECK(v.get<T>() == x && u.get<T>() == x && c.get<const T>() == x, "C18 an integer reads back differently"); T t = (T)0; CHECK(v.get(t) && t == x, "C18 a try access reads an integer differently"); T s = v; CHECK(s == x, "C18 an implicit conversion reads an integer differently");
  CHECK(v.get<int64_t>() == (int64_t)x, "C18 an integer reads back differently as a wide integer"); CHECK(*v.get_ptr<int64_t*>() == (int64_t)x && v.get<int64_t&>() == (int64_t)x && c.get<const int64_t&>() == (int64_t)x, "C18 pointer or reference access reads an integer differently"); __sx_cover("integer");
}
SX_ENTRY(typed_int) { switch (__sx_param(0)) { case 0: same_int<signed char>(8); break; case 1: same_int<unsigned char>(8); break; case 2: same_int<short>(16); break; case 3: same_int<unsigned short>(16); break; case 4: same_int<int>(32); break; case 5: same_int<unsigned>(32); break; case 6: same_int<long>(64); break; case 7: same_int<unsigned long>(64); break; case 8: same_int<long long>(64); break; case 9: same_int<unsigned long long>(64); break; case 10: same_int<char>(8); break; default: same_int<wchar_t>(32); break; } }
SX_ENTRY(typed_bool) { bool x = sym(1, "x"); jv v(x), u; u = x; CHECK(v.get<bool>() == x && u.get<bool>() == x && (bool)v == x && v.get<bool&>() == x && *((const jv&)v).get_ptr<const bool*>() == x, "C18 a boolean reads back differently"); bool t = !x; CHECK(v.get(t) && t == x, "C18 a try access reads a boolean differently"); v.get<bool&>() = !x; CHECK(v.get<bool>() == !x && v == !x, "C18 a write through a reference is not seen"); __sx_cover("bool"); }
SX_ENTRY(typed_double) { uint64_t b = sym(64, "bits"); double x; memcpy(&x, &b, 8); jv v(x), u; u = x; uint64_t r; double y = v.get<double>(); memcpy(&r, &y, 8); bool nan = (b & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull; CHECK(v.is_floating() && u.is_floating(), "C18 a float is not stored as a float"); CHECK(nan ? y != y : r == b, "C18 a double reads back differently"); y = u.get<double&>(); memcpy(&r, &y, 8); CHECK(nan ? y != y : r == b, "C18 a double reads back differently by reference"); double t = 0; CHECK(v.get(t), "C18 a try access to a double fails"); memcpy(&r, &t, 8); CHECK(nan ? t != t : r == b, "C18 a try access reads a double differently"); *v.get_ptr<double*>() = 1.5; CHECK(v.get<double>() == 1.5, "C18 a write through a pointer is not seen"); __sx_cover("float"); }
SX_ENTRY(typed_float) { uint32_t b = (uint32_t)sym(32, "bits"); __sx_assume((b & 0x7FFFFFFFu) <= 0x7F800000u); float x; memcpy(&x, &b, 4); jv v(x); float y = v.get<float>(); uint32_t r; memcpy(&r, &y, 4); CHECK(v.is_floating(), "C18 a float is not stored as a float"); CHECK(r == b, "C18 a float reads back differently"); __sx_cover("float"); }
SX_ENTRY(typed_string) {
  int n = __sx_param(0); std::string x; for (int i = 0; i < n; i++) x.push_back((char)sym(8, "c")); if (__sx_param(1)) x += "and enough to leave the small buffer behind"; jv v(x), u; u = std::string(x); jv w(u.get<std::string>());
  CHECK(v.is_string() && u.is_string(), "C18 a string is not stored as a string"); CHECK(bytes_eq(v.get<std::string>(), x) && bytes_eq(u.get<const std::string&>(), x) && bytes_eq(*w.get_ptr<std::string*>(), x), "C18 a string reads back differently"); std::string t = "old"; CHECK(v.get(t) && bytes_eq(t, x), "C18 a try access reads a string differently"); std::string s = v; CHECK(bytes_eq(s, x), "C18 an implicit conversion reads a string differently");
  t += "!"; CHECK(bytes_eq(v.get<std::string>(), x), "C18 a string read by value aliases the stored one"); v.get<std::string&>() += "?"; CHECK(v.get<std::string>().size() == x.size() + 1 && v == jv(x + "?"), "C18 a write through a reference is not seen"); *v.get<std::string*>() = "z"; CHECK(v == "z", "C18 a write through a pointer is not seen");
  const char* c = "from a literal"; jv l(c), k("lit"); CHECK(l.get<std::string>() == c && k.get<std::string>() == "lit", "C18 a C string reads back differently"); __sx_cover("string");
}
SX_ENTRY(typed_wrong) {
  int what = __sx_param(0); jv v; Gen g(1, 0); std::string s = g.str(1); int64_t x = (int64_t)sym(64, "x");
  switch (what) { case 0: v = (x & 1) != 0; break; case 1: v = x; break; case 2: { double d; memcpy(&d, &x, 8); __sx_assume(((x >> 52) & 0x7FF) != 0x7FF); v = d; break; } case 3: v = s; break; case 4: v = __sx_param(1) ? A(x, s) : A(); break; case 5: v = __sx_param(1) ? O("a", x) : O(); break; default: break; }
  all_wrong(v, what); __sx_cover("wrong");
}
// writes through references and pointers into containers, and value/const copies
SX_ENTRY(typed_alias) {
  int64_t x = (int64_t)sym(64, "x"), y = (int64_t)sym(64, "y"); jv v = A(x, "s", O("k", x)); jv::array_type& a = v.get<jv::array_type&>(); a[0].get<int64_t&>() = y; CHECK(v[0].get<int64_t>() == y, "C18 a write through nested references is not seen"); a.push_back(jv(x)); CHECK(v.size() == 4 && v[3] == x, "C18 growing through a reference is not seen");
  jv::object_type* o = v[2].get_ptr<jv::object_type*>(); CHECK(o && o->size() == 1, "C18 object pointer"); (*o)["k"] = y; (*o)["n"] = x; CHECK(v[2]["k"].get<int64_t>() == y && v[2].size() == 2, "C18 a write through an object pointer is not seen"); jv::array_type copy = v.get<jv::array_type>(); copy[0] = "other"; CHECK(v[0].get<int64_t>() == y, "C18 an array read by value aliases the stored one"); jv c = v.get<jv>(); c[1] = 5; CHECK(v[1] == "s", "C18 a value read by value aliases"); jv d; CHECK(v.get(d) && same_tree(d, v), "C18 try access to a value"); jv::object_type m = v[2].get<jv::object_type>(); CHECK(m.size() == 2 && m["n"] == x, "C18 an object read by value differs"); m.clear(); CHECK(v[2].size() == 2, "C18 an object read by value aliases");
  v[0].get<int64_t&>() ^= 1; CHECK(v[0].get<int64_t>() == (y ^ 1), "C18 an update through a reference is not seen"); __sx_cover("alias");
}

// ------------------------------------------------------------------ C19
struct El { int k; int64_t i; };     // 0 null 1 int 2 string of one unit
static bool el_eq(const jv& v, const El& e) { return e.k == 0 ? v.is_null() : e.k == 1 ? v.is_integer() && v.data().integer == e.i : v.is_string() && v.data().string->size() == 1 && (unsigned char)(*v.data().string)[0] == (unsigned char)e.i; }
struct Arr { El e[1200]; size_t n; Arr() : n(0) {} void ins(El x) { e[n++] = x; } void del(size_t a, size_t b) { for (size_t i = b; i < n; i++) e[i - (b - a)] = e[i]; n -= b - a; } };
static void check_arr(const jv& v, const Arr& m) { CHECK(v.is_array(), "C19 the value is not an array any more"); CHECK(v.size() == m.n && v.empty() == (m.n == 0) && v.data().vector->size() == m.n, "C19 size or emptiness is wrong"); for (size_t i = 0; i < m.n; i++) { CHECK(el_eq(v[i], m.e[i]), "C19 an element differs"); CHECK(&v.at(i) == &v[i], "C19 at and [] differ"); } }
static El rnd(jv& out) { if (choose(2, "elem")) { unsigned c = (unsigned)sym(8, "c"); out = std::string(1, (char)c); return El{ 2, (int64_t)c }; } int64_t x = (int64_t)sym(64, "x"); out = x; return El{ 1, x }; }
template <class F> static bool oor(F f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; }
// any position of a short array; of a long one the ends, the middle and the powers of two
static size_t at_(size_t n, const char* w) { if (n <= 24) return choose((unsigned)n, w); size_t p[16]; unsigned k = 0; p[k++] = 0; p[k++] = 1; p[k++] = n / 2; p[k++] = n - 1; p[k++] = n - 2; p[k++] = n - 3; for (size_t q = 16; q < n - 3 && k < 15; q *= 2) p[k++] = q; p[k++] = 15; return p[choose(k, w)]; }
enum { NOPS19 = 15 };
static void step19(unsigned op, jv& v, Arr& m, bool& null) {
  const jv& c = v; jv x; if (null && op >= 4 && op != 9) { // on a null value reads and erasures fail
    bool th = false; try { if (op == 4) v.erase((size_t)0); else if (op == 8) (void)c.at(0); else if (op == 10) (void)c[0]; else return; } catch (const configor_exception&) { th = true; } CHECK(th && v.is_null(), "C19 an array operation on null does not throw"); return; }
  switch (op) {
    case 0: { El e = rnd(x); v.push_back(x); CHECK(el_eq(x, e), "C19 push_back of a copy changes the source"); m.ins(e); null = false; break; }
    case 1: { El e = rnd(x); v.push_back(std::move(x)); m.ins(e); null = false; break; }
    case 2: { El e = rnd(x); if (e.k == 1) v.emplace_back(e.i); else v.emplace_back(std::string(1, (char)e.i)); m.ins(e); null = false; break; }
    case 3: { size_t i = at_(m.n + 3, "at"); El e = rnd(x); v[i] = x; while (m.n <= i) m.ins(El{ 0, 0 }); m.e[i] = e; null = false; break; }
    case 4: if (m.n) { size_t i = at_(m.n, "at"); v.erase(i); m.del(i, i + 1); } break;
    case 5: if (m.n) { size_t i = at_(m.n, "at"); auto it = v.erase(v.begin() + (long)i); m.del(i, i + 1); CHECK(it == v.begin() + (long)i && it - v.begin() == (long)i, "C19 erase returns the wrong position"); } break;
    case 6: { size_t a = at_(m.n + 1, "from"), b = a + at_(m.n - a + 1, "to"); auto it = v.erase(v.begin() + (long)a, v.begin() + (long)b); m.del(a, b); CHECK(it == v.begin() + (long)a, "C19 a range erase returns the wrong position"); break; }
    case 7: v.clear(); m.n = 0; break;
    case 8: { size_t i = at_(m.n + 2, "at"); CHECK(oor([&] { (void)c.at(i); }) == (i >= m.n) && oor([&] { (void)v.at(i); }) == (i >= m.n), "C19 at() out of range"); break; }
    case 9: { size_t i = at_(m.n + 2, "at"); jv& r = v[i]; while (m.n <= i) m.ins(El{ 0, 0 }); null = false; CHECK(el_eq(r, m.e[i]), "C19 indexing gives another element"); break; }
    case 10: { size_t i = at_(m.n + 2, "at"); bool far = sym(1, "far"); if (far) i = (size_t)0 - 1 - i; CHECK(oor([&] { (void)c[i]; }) == (i >= m.n), "C19 read-only indexing out of range"); break; }
    case 11: if (m.n && m.n < 1100) { size_t i = at_(m.n, "at"); v.push_back(v[i]); m.ins(m.e[i]); } break;            // an element of its own
    case 12: if (m.n > 1) { size_t i = at_(m.n, "i"), j = at_(m.n, "j"); v[i] = v[j]; m.e[i] = m.e[j]; } break;
    case 13: { El e = rnd(x); jv t = c; t.push_back(x); check_arr(v, m); m.ins(e); v = t; break; }
    case 14: if (m.n) { size_t i = at_(m.n, "at"); auto it = v.erase(v.cbegin() + (long)i); m.del(i, i + 1); CHECK(it == v.cbegin() + (long)i, "C19 erase through a const iterator returns the wrong position"); } break;
  }
}
SX_ENTRY(array_ops) {   // initial size (-1: null), operations, first operation
  int n = __sx_param(0), len = __sx_param(1), first = __sx_param(2); jv v; Arr m; bool null = n < 0; if (!null) v = jv(value_constant::array); for (int i = 0; i < n; i++) { int64_t x = (int64_t)sym(64, "x"); v.push_back(x); m.ins(El{ 1, x }); }
  for (int s = 0; s < len; s++) { step19(s == 0 && first >= 0 ? (unsigned)first : choose(NOPS19, "op"), v, m, null); if (null) CHECK(v.is_null() && v.size() == 0 && v.empty(), "C19 a null value changed"); else check_arr(v, m); }
  __sx_cover("array");
}
// growth past several reallocations
SX_ENTRY(array_grow) { int n = __sx_param(0); jv v; Arr m; for (int i = 0; i < n; i++) { jv x; El e = i % 3 ? El{ 1, (int64_t)sym(64, "x") } : El{ 2, (int64_t)sym(8, "c") }; if (e.k == 1) v.push_back(e.i); else v.emplace_back(std::string(1, (char)e.i)); m.ins(e); } check_arr(v, m); size_t g = (size_t)n + (size_t)choose(3, "gap"); v[g] = true; CHECK(v.size() == g + 1 && v[g] == true, "C19 extension"); for (size_t i = (size_t)n; i < g; i++) CHECK(v[i].is_null(), "C19 extension fills with something else than null"); for (size_t i = 0; i < m.n; i++) CHECK(el_eq(v[i], m.e[i]), "C19 an element changed while growing"); __sx_cover("grow"); }
static jv of_kind(int k) { Gen g(1, 0); switch (k) { case 0: return jv(); case 1: return jv(sym(1, "b") == 1); case 2: return jv((int64_t)sym(64, "i")); case 3: return jv(0.5); case 4: return jv(g.str(1)); case 5: return A(1, "x"); case 6: return A(); case 7: return O("a", 1, "b", A()); default: return O(); } }
SX_ENTRY(array_wrong) {
  int k = __sx_param(0); jv v = of_kind(k); const jv& c = v; jv before = v; unsigned op = choose(8, "op"); size_t i = (size_t)sym(64, "i"); bool th = false;
  try { switch (op) { case 0: v.push_back(1); break; case 1: v.emplace_back("x"); break; case 2: __sx_assume(i < 4); i = (size_t)__sx_concretize(i); v[i] = 1; break; case 3: (void)c[i]; break; case 4: (void)v.at(i); break; case 5: v.erase(i); break; case 6: if (k == 7 || k == 8) return; v.erase(v.begin()); break; default: if (k == 7 || k == 8) return; v.erase(v.begin(), v.end()); break; } }
  catch (const configor_exception&) { th = true; }
  if (k == 0 && op <= 2) { CHECK(!th && v.is_array(), "C19 a null value does not become an array"); CHECK(v.size() == (op == 2 ? i + 1 : 1), "C19 a null value becomes another array"); }
  else { CHECK(th, "C19 an array operation on another kind does not throw"); CHECK(same_tree(v, before), "C19 a failing array operation changes the value"); } __sx_cover("array wrong");
}

// ------------------------------------------------------------------ C20
struct Obj { std::string k[80]; El e[80]; size_t n; Obj() : n(0) {} size_t find(const std::string& s) const { for (size_t i = 0; i < n; i++) if (bytes_eq(k[i], s)) return i; return n; }
  static bool less(const std::string& a, const std::string& b) { size_t i = 0; for (; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i]; return a.size() < b.size(); }
  size_t set(const std::string& s, El x) { size_t i = find(s); if (i < n) { e[i] = x; return i; } i = 0; while (i < n && less(k[i], s)) i++; for (size_t j = n; j > i; j--) { k[j] = k[j - 1]; e[j] = e[j - 1]; } k[i] = s; e[i] = x; n++; return i; }
  void del(size_t i) { for (; i + 1 < n; i++) { k[i] = k[i + 1]; e[i] = e[i + 1]; } n--; } };
static void check_obj(const jv& v, const Obj& m) { CHECK(v.is_object(), "C20 the value is not an object any more"); CHECK(v.size() == m.n && v.empty() == (m.n == 0), "C20 size or emptiness is wrong"); size_t i = 0; for (auto& p : *v.data().object) { CHECK(i < m.n, "C20 too many members"); CHECK(bytes_eq(p.first, m.k[i]), "C20 a key differs, or the order"); CHECK(el_eq(p.second, m.e[i]), "C20 a member reads back differently"); i++; } }
enum { NOPS20 = 13 };
static void step20(unsigned op, jv& v, Obj& m, bool& null) {
  const jv& c = v; jv x; unsigned u = (unsigned)sym(8, "k"); if (op == 1 || op == 5) __sx_assume(u != 0); std::string key(1, (char)u); const char* cs = key.c_str();
  if (null) { if (op <= 2) null = false; else if (op == 3 || op == 4 || op == 5 || op == 8) { bool th = false; try { if (op == 3) (void)c.at(key); else if (op == 4) (void)c[key]; else if (op == 5) (void)c[cs]; else v.erase(key); } catch (const configor_exception&) { th = true; } CHECK(th && v.is_null(), "C20 an object operation on null does not throw"); return; } else if (op != 6) return; }
  switch (op) {
    case 0: { El e = rnd(x); v[key] = x; m.set(key, e); break; }
    case 1: { El e = rnd(x); v[cs] = x; m.set(key, e); break; }
    case 2: { jv& r = v[key]; size_t i = m.find(key); if (i == m.n) i = m.set(key, El{ 0, 0 }); CHECK(el_eq(r, m.e[i]), "C20 [] gives another member"); break; }
    case 3: { size_t i = m.find(key); bool miss = oor([&] { const jv& r = c.at(key); CHECK(i < m.n && el_eq(r, m.e[i]), "C20 at() gives another member"); }); CHECK(miss == (i == m.n), "C20 at() with a missing key"); CHECK(oor([&] { (void)v.at(key); }) == miss, "C20 at() with a missing key"); break; }
    case 4: { size_t i = m.find(key); CHECK(oor([&] { const jv& r = c[key]; CHECK(el_eq(r, m.e[i]), "C20 read-only [] gives another member"); }) == (i == m.n), "C20 read-only [] with a missing key"); break; }
    case 5: { size_t i = m.find(key); CHECK(oor([&] { const jv& r = c[cs]; CHECK(el_eq(r, m.e[i]), "C20 read-only [] gives another member"); }) == (i == m.n), "C20 read-only [] with a missing C string key"); CHECK(oor([&] { (void)c.at(cs); }) == (i == m.n), "C20 at() with a missing C string key"); break; }
    case 6: { size_t i = m.find(key); CHECK(c.count(key) == (i < m.n) && v.count(key) == (i < m.n), "C20 count is wrong"); auto it = c.find(key); auto jt = v.find(key); CHECK((it == c.end()) == (i == m.n) && (jt == v.end()) == (i == m.n), "C20 find is wrong"); if (i < m.n) { CHECK(bytes_eq(it.key(), key) && el_eq(*it, m.e[i]) && &*jt == &*it, "C20 find gives another member"); } break; }
    case 7: if (m.n) { size_t i = at_(m.n, "at"); auto it = v.begin(); for (size_t j = 0; j < i; j++) ++it; it = v.erase(it); m.del(i); if (i == m.n) CHECK(it == v.end(), "C20 erase returns the wrong position"); else CHECK(bytes_eq(it.key(), m.k[i]), "C20 erase returns the wrong position"); } break;
    case 8: { size_t i = m.find(key); size_t r = v.erase(key); CHECK(r == (i < m.n ? 1u : 0u), "C20 erase returns the wrong count"); if (i < m.n) m.del(i); break; }
    case 9: v.clear(); m.n = 0; break;
    case 10: { size_t i = m.find(key); if (i < m.n) { auto it = v.erase(v.find(key)); m.del(i); CHECK((it == v.end()) == (i == m.n), "C20 erase returns the wrong position"); } break; }
    case 11: if (m.n) { size_t a = at_(m.n + 1, "from"); auto f = v.begin(); for (size_t j = 0; j < a; j++) ++f; auto it = v.erase(f, v.end()); m.n = a; CHECK(it == v.end(), "C20 a range erase returns the wrong position"); } break;
    case 12: { El e = rnd(x); jv t = c; t[key] = x; check_obj(v, m); m.set(key, e); v = std::move(t); break; }
  }
}
SX_ENTRY(object_ops) {
  int n = __sx_param(0), len = __sx_param(1), first = __sx_param(2); jv v; Obj m; bool null = n < 0; if (!null) v = jv(value_constant::object); for (int i = 0; i < n; i++) { int64_t x = (int64_t)sym(64, "x"); std::string key(1, n < 8 ? (char)sym(8, "k0") : (char)(i * 37 % 256)); v[key] = x; m.set(key, El{ 1, x }); }
  for (int s = 0; s < len; s++) { step20(s == 0 && first >= 0 ? (unsigned)first : choose(NOPS20, "op"), v, m, null); if (null) CHECK(v.is_null(), "C20 a null value changed"); else check_obj(v, m); }
  __sx_cover("object");
}
// longer keys, with any bytes, and shared prefixes
SX_ENTRY(object_keys) { int na = __sx_param(0), nb = __sx_param(1); std::string a, b; for (int i = 0; i < na; i++) a.push_back((char)sym(8, "a")); for (int i = 0; i < nb; i++) b.push_back((char)sym(8, "b")); jv v; Obj m; v[a] = 1; m.set(a, El{ 1, 1 }); v[b] = 2; m.set(b, El{ 1, 2 }); check_obj(v, m); CHECK(v.count(a) == 1 && v.find(b) != v.end() && v[b] == 2, "C20 lookups"); v["kk"] = 3; m.set("kk", El{ 1, 3 }); check_obj(v, m); CHECK(v.erase(a) == 1, "C20 erase"); m.del(m.find(a)); check_obj(v, m); __sx_cover("keys"); }
SX_ENTRY(object_wrong) {
  int k = __sx_param(0); jv v = of_kind(k); const jv& c = v; jv before = v; unsigned op = choose(9, "op"); std::string key(1, (char)sym(8, "k")); bool th = false; if (k >= 7) return;
  try { switch (op) { case 0: v[key] = 1; break; case 1: v["k"] = 1; break; case 2: (void)c[key]; break; case 3: (void)c["k"]; break; case 4: (void)v.at(key); break; case 5: (void)c.at("k"); break; case 6: v.erase(key); break; case 7: CHECK(v.find(key) == v.end() && c.find(key) == c.end() && c.count(key) == 0, "C20 a lookup in another kind finds something"); CHECK(same_tree(v, before), "C20 a lookup changes the value"); return; default: if (k == 5 || k == 6) return; v.erase(v.begin()); break; } }
  catch (const configor_exception&) { th = true; }
  if (k == 0 && op <= 1) { CHECK(!th && v.is_object() && v.size() == 1, "C20 a null value does not become an object"); }
  else { CHECK(th, "C20 an object operation on another kind does not throw"); CHECK(same_tree(v, before), "C20 a failing object operation changes the value"); } __sx_cover("object wrong");
}
// an index no array can have: refused, and the value stays usable
SX_ENTRY(array_huge) {
  int n = __sx_param(0); jv v; Arr m; if (n >= 0) v = value_constant::array; for (int i = 0; i < n; i++) { v.push_back(i); m.ins(El{ 1, i }); } uint64_t at = sym(64, "at"); __sx_assume(at >= (1ull << 59)); bool th = false; int k = __sx_param(1);
  try { if (k == 0) v[(size_t)at] = 1; else if (k == 1) (void)((const jv&)v)[(size_t)at]; else (void)v.at((size_t)at); } catch (const std::exception&) { th = true; } CHECK(th, "C19 an index that no array can have is accepted"); CHECK(n < 0 ? (v.is_null() || (v.is_array() && v.empty())) : v.is_array() && v.size() == (size_t)n, "C19 a refused index changes the array"); if (n >= 0) check_arr(v, m); v.push_back(5); m.ins(El{ 1, 5 }); check_arr(v, m); __sx_cover("huge index");
}
