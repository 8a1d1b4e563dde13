// C21: iterators.
#include "gen.h"
#include <vector>
#include <iterator>
#include <algorithm>
typedef jv::iterator It; typedef jv::const_iterator CIt;
template <class F> static int outcome(F f) { try { f(); } catch (const std::out_of_range&) { return 1; } catch (const configor_invalid_iterator&) { return 2; } catch (const configor_exception&) { return 3; } return 0; }
// the elements by construction: addresses and keys taken from the underlying containers
struct Seq { const jv* e[1200]; const std::string* k[1200]; size_t n; };
static size_t at_(size_t n, const char* w) { if (n <= 14) return choose((unsigned)n, w); size_t p[16]; unsigned k = 0; p[k++] = 0; p[k++] = n / 2; p[k++] = n - 1; p[k++] = n - 2; for (size_t q = 16; q < n - 2 && k < 9; q *= 4) p[k++] = q; return p[choose(k, w)]; }
static Seq seq_of(const jv& v) { Seq s; s.n = 0; if (v.is_array()) for (auto& x : *v.data().vector) { s.k[s.n] = nullptr; s.e[s.n++] = &x; } else if (v.is_object()) for (auto& p : *v.data().object) { s.k[s.n] = &p.first; s.e[s.n++] = &p.second; } else if (!v.is_null()) { s.k[0] = nullptr; s.e[0] = &v; s.n = 1; } return s; }
template <class I> static void check_at(const I& it, const Seq& s, size_t i) {
  CHECK(&*it == s.e[i] && &it.value() == s.e[i] && it.operator->() == s.e[i], "C21 an iterator visits another element"); if (s.k[i]) CHECK(&it.key() == s.k[i], "C21 an iterator gives another key"); else CHECK(outcome([&] { (void)it.key(); }) == 2, "C21 asking a non-object for a key does not throw");
}
template <class I> static void check_end(const I& it) { CHECK(outcome([&] { (void)*it; }) == 1 && outcome([&] { (void)it.value(); }) == 1 && outcome([&] { (void)it.operator->(); }) == 1, "C21 dereferencing the end does not throw"); CHECK(outcome([&] { (void)it.key(); }) != 0, "C21 asking the end for a key does not throw"); }
template <class I> static void walk(I b, I e, const Seq& s, bool null) {
  I it = b; for (size_t i = 0; i < s.n; i++) { CHECK(it != e && !(it == e), "C21 the end comes too early"); check_at(it, s, i); I o = it; if (i & 1) { I r = it++; CHECK(r == o, "C21 post-increment returns something else"); } else { I& r = ++it; CHECK(&r == &it, "C21 pre-increment returns something else"); } CHECK(it != o, "C21 increment does not move"); I back = it; --back; CHECK(back == o, "C21 decrement does not undo increment"); I t = it; I q = t--; CHECK(q == it && t == o, "C21 post-decrement"); }
  CHECK(it == e && !(it != e), "C21 more elements than size()"); check_end(it);
  I r = e; for (size_t i = s.n; i-- > 0;) { --r; check_at(r, s, i); } CHECK(r == b, "C21 going backwards does not end at the begin"); if (null) { ++it; CHECK(it == e, "C21 null"); --it; CHECK(it == b, "C21 null"); }
}
template <class R> static void rwalk(R b, R e, const Seq& s) {
  R it = b; for (size_t i = s.n; i-- > 0;) { CHECK(it != e, "C21 the reverse end comes too early"); CHECK(&*it == s.e[i] && &it.value() == s.e[i], "C21 reverse iteration visits another element"); if (s.k[i]) CHECK(&it.key() == s.k[i], "C21 reverse iteration gives another key"); else CHECK(outcome([&] { (void)it.key(); }) == 2, "C21 asking a non-object for a key does not throw"); R o = it; ++it; R t = it; --t; CHECK(t == o, "C21 reverse decrement does not undo increment"); }
  CHECK(it == e, "C21 reverse iteration visits more than size()");
}
static void offsets(jv& v, const Seq& s) {
  It b = v.begin(), e = v.end(); CHECK(e - b == (long)s.n && b - e == -(long)s.n, "C21 iterator distance"); size_t n = s.n;
  size_t i = at_(n + 1, "i"), j = at_(n + 1, "j"); It x = b + (long)i, y = b; y += (long)j; CIt cx = ((const jv&)v).begin() + (long)i, cy = ((const jv&)v).end() - (long)(n - j);
  CHECK(x - y == (long)i - (long)j && cx - cy == (long)i - (long)j, "C21 iterator distance"); CHECK((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j), "C21 array iterator comparisons disagree with the indices"); CHECK((cx < cy) == (i < j) && (cx <= cy) == (i <= j) && (cx > cy) == (i > j) && (cx >= cy) == (i >= j) && (cx == cy) == (i == j), "C21 array const iterator comparisons disagree with the indices");
  if (i < n) { check_at(x, s, i); check_at(cx, s, i); } else { check_end(x); check_end(cx); } It z = e; z -= (long)(n - i); CHECK(z == x && (e - (long)(n - i)) == x, "C21 subtracting an offset"); It w = x + ((long)j - (long)i); CHECK(w == y, "C21 an offset leads elsewhere");
}
static void all(jv& v) {
  Seq s = seq_of(v); const jv& c = v; CHECK(v.size() == s.n && (v.empty() == (s.n == 0)), "C21 size"); bool null = v.is_null();
  walk<It>(v.begin(), v.end(), s, null); walk<CIt>(c.begin(), c.end(), s, null); walk<CIt>(v.cbegin(), v.cend(), s, null); rwalk(v.rbegin(), v.rend(), s); rwalk(c.rbegin(), c.rend(), s); rwalk(v.crbegin(), v.crend(), s);
  size_t i = 0; for (jv& x : v) { CHECK(i < s.n && &x == s.e[i], "C21 range-for visits another element"); i++; } CHECK(i == s.n, "C21 range-for visits fewer elements"); CHECK((size_t)std::distance(v.begin(), v.end()) == s.n, "C21 std::distance");
  CIt k = v.begin(); CIt l = v.end(); CHECK((k == l) == (s.n == 0) && k == c.begin(), "C21 a converted iterator differs");
  { It t = v.begin(); It u(v.end()); t = u; CHECK(t == v.end() && !(t != v.end()), "C21 an assigned iterator differs"); u = v.begin(); CHECK(u == v.begin() && (u == t) == (s.n == 0), "C21 an assigned iterator differs"); if (s.n) { check_at(u, s, 0); check_end(t); std::swap(t, u); check_at(t, s, 0); check_end(u); } It m(std::move(t)); CHECK(m == v.begin(), "C21 a moved iterator differs");
    CIt x = c.begin(); CIt y(c.end()); x = y; CHECK(x == c.end(), "C21 an assigned const iterator differs"); x = v.begin(); CHECK(x == c.begin() && (x == y) == (s.n == 0), "C21 an assigned const iterator differs"); y = x; CHECK(y == c.cbegin(), "C21 an assigned const iterator differs"); if (s.n) check_at(y, s, 0); CIt z(v.end()); CHECK(z == c.end(), "C21 a converted iterator differs"); It h(nullptr); h = v.end(); CHECK(h == v.end(), "C21 an iterator assigned over an empty one differs"); }
  if (v.is_object()) { CHECK(outcome([&] { (void)(v.begin() + 1); }) == 2 && outcome([&] { (void)(c.begin() - 1); }) == 2 && outcome([&] { It t = v.begin(); t += 0; }) == 2 && outcome([&] { (void)(v.end() - v.begin()); }) == 2, "C21 an offset on an object does not throw"); CHECK(outcome([&] { (void)(v.begin() < v.end()); }) == 2 && outcome([&] { (void)(c.begin() >= c.end()); }) == 2 && outcome([&] { (void)(v.begin() > v.begin()); }) == 2 && outcome([&] { (void)(c.begin() <= c.end()); }) == 2, "C21 an ordering on an object does not throw");
    for (size_t q = 0; q < s.n; q++) { CIt f = c.find(*s.k[q]); CHECK(f != c.end(), "C21 find misses a key"); check_at(f, s, q); It g = v.find(*s.k[q]); check_at(g, s, q); ++g; CHECK((g == v.end()) == (q + 1 == s.n), "C21 an iterator from find does not continue"); } }
  else if (v.is_array()) offsets(v, s);
  else { CHECK(outcome([&] { (void)(v.end() - v.begin()); }) == 2, "C21 distance on a scalar does not throw"); if (!null) { It b = v.begin(), e = v.end(); CHECK(b < e && b <= e && e > b && e >= b && !(e < b), "C21 scalar iterator order"); CHECK(b + 1 == e && e - 1 == b, "C21 scalar offsets"); } }
  __sx_cover(null ? "null" : v.is_object() ? "object" : v.is_array() ? "array" : "scalar");
}
SX_ENTRY(walk_tree) { Gen g(__sx_param(0), __sx_param(1)); g.strlen_ = 2; g.floats = 1; jv v = g.value(g.depth); all(v); if (v.is_array() || v.is_object()) for (jv& x : v) all(x); }
SX_ENTRY(walk_array) { int n = __sx_param(0); jv v = value_constant::array; for (int i = 0; i < n; i++) { if (i % 2) v.push_back((int64_t)sym(64, "x")); else v.push_back(std::string(1, (char)sym(8, "c"))); } all(v); }
SX_ENTRY(walk_object) { int n = __sx_param(0); jv v = value_constant::object; for (int i = 0; i < n; i++) { std::string k(1, n < 8 || i == 5 ? (char)sym(8, "k") : (char)(i * 37 % 256)); if (n > 100) { k += (char)('a' + i % 26); k += (char)('a' + i / 26 % 26); } v[k] = (int64_t)sym(64, "x"); } all(v); }
// writes through an iterator are seen; different values are never equal; comparisons between them throw
SX_ENTRY(iter_pairs) {
  int k = __sx_param(0); int64_t x = (int64_t)sym(64, "x"); jv a = k == 0 ? A(x, 1) : k == 1 ? O("a", x, "b", 1) : jv(x), b = a; It p = a.begin(), q = b.begin(); CHECK(p != q && !(p == q), "C21 iterators of different values compare equal"); CHECK(outcome([&] { (void)(p < q); }) == 2 && outcome([&] { (void)(p - q); }) == 2 && outcome([&] { (void)(p >= q); }) == 2, "C21 ordering iterators of different values does not throw");
  *p = 99; CHECK(k == 2 ? a == 99 : *a.begin() == 99, "C21 a write through an iterator is not seen"); CHECK(*b.begin() == x || x == 99, "C21 a write through an iterator reaches another value"); p.value() = "s"; CHECK(*a.begin() == "s", "C21 a write through an iterator is not seen");
  It r = p; CHECK(r == p, "C21 a copied iterator differs"); if (k < 2) { ++r; CHECK(r != p, "C21 a copied iterator follows"); r = p; CHECK(r == p && &*r == &*p, "C21 an assigned iterator differs"); CIt c = p; CHECK(&*c == &*p, "C21 a converted iterator differs"); c = a.end(); CHECK(c == a.cend(), "C21 an assigned const iterator differs"); }
  It empty(nullptr); CHECK(outcome([&] { (void)*empty; }) == 2 && outcome([&] { ++empty; }) == 2 && outcome([&] { (void)empty.key(); }) == 2 && outcome([&] { (void)(empty < empty); }) == 2, "C21 an empty iterator does not throw"); __sx_cover("pairs");
}
// algorithms of the standard library over iterators
SX_ENTRY(iter_algo) { int n = __sx_param(0); jv v = value_constant::array; int64_t x[6]; for (int i = 0; i < n; i++) { x[i] = (int64_t)(int8_t)sym(8, "x"); v.push_back(x[i]); } std::vector<int64_t> out; for (auto it = v.begin(); it != v.end(); ++it) out.push_back(it->get<int64_t>()); std::vector<int64_t> rev; for (auto it = v.rbegin(); it != v.rend(); ++it) rev.push_back(it->get<int64_t>()); for (int i = 0; i < n; i++) CHECK(out[(size_t)i] == x[i] && rev[(size_t)(n - 1 - i)] == x[i], "C21 order"); CHECK((long)std::count(v.begin(), v.end(), jv(x[0])) == (long)std::count(x, x + n, x[0]), "C21 std::count"); std::reverse(v.begin(), v.end()); for (int i = 0; i < n; i++) CHECK(v[(size_t)i] == x[n - 1 - i], "C21 std::reverse"); auto f = std::find(v.begin(), v.end(), jv(x[0])); CHECK(f != v.end() && *f == x[0], "C21 std::find"); __sx_cover("algorithms"); }
