// C22 comparisons, C26 factories and clear.
#include "cmp_ref.h"
static jv num(int k) { if (k == 0) return jv((int64_t)sym(64, "i")); if (k == 1) { uint64_t b = sym(64, "bits"); __sx_assume((b & 0x7FFFFFFFFFFFFFFFull) <= 0x7FF0000000000000ull); double d; memcpy(&d, &b, 8); return jv(d); } if (k == 2) return jv((double)(int64_t)(int8_t)sym(8, "d")); return jv((int64_t)(int8_t)sym(8, "i")); }
SX_ENTRY(cmp_numbers) { jv a = num(__sx_param(0)), b = num(__sx_param(1)); check_pair(a, b); __sx_cover("numbers"); }
SX_ENTRY(cmp_strings) { std::string a, b; for (int i = 0; i < __sx_param(0); i++) a.push_back((char)sym(8, "a")); for (int i = 0; i < __sx_param(1); i++) b.push_back((char)sym(8, "b")); check_pair(jv(a), jv(b)); __sx_cover("strings"); }
SX_ENTRY(cmp_trees) { Gen g(__sx_param(0), 2), h(__sx_param(1), 2); g.floats = h.floats = 2; g.full_int = h.full_int = true; jv a = g.value(2), b = h.value(2); check_pair(a, b); __sx_cover("trees"); }
static jv leaf(int k) { switch (k) { case 0: return jv((int64_t)sym(64, "i")); case 1: return jv(std::string(1, (char)sym(8, "c"))); case 2: return jv(sym(1, "b") == 1); case 3: return jv((double)(int64_t)(int8_t)sym(8, "d")); default: return jv(); } }
SX_ENTRY(cmp_shapes) {   // same shapes with independent leaves, and near misses
  int s = __sx_param(0), l = __sx_param(1); jv a, b, L[4]; for (int i = 0; i < 4; i++) L[i] = leaf(l);
  switch (s) {
    case 0: a = A(L[0], L[1]); b = A(L[2], L[3]); break; case 1: a = A(L[0], L[1]); b = A(L[2]); break; case 2: a = A(A(L[0]), L[1]); b = A(A(L[2]), L[3]); break;
    case 3: { std::string p(1, (char)sym(8, "p")), q(1, (char)sym(8, "q")); a = O(p, L[0]); b = O(q, L[1]); break; } case 4: { std::string p(1, (char)sym(8, "p")); a = O("a", L[0], p, L[1]); b = O("a", L[2], "b", L[3]); break; } case 5: a = O("k", A(L[0])); b = O("k", A(L[1], L[2])); break; case 6: a = A(O("x", L[0]), 1); b = A(O("x", L[1]), 1); break; case 7: a = A(L[0]); b = O("", L[1]); break; default: a = A(1, L[0]); b = A(1.0, L[1]); break;
  }
  check_pair(a, b); __sx_cover("shapes");
}
SX_ENTRY(cmp_kinds) { Gen g(1, 0), h(1, 0); int ka = __sx_param(0), kb = __sx_param(1); auto mk = [](int k, Gen& q) { switch (k) { case 0: return jv(); case 1: return jv(sym(1, "b") == 1); case 2: return jv((int64_t)sym(64, "i")); case 3: return jv(q.str(1)); case 4: return A(1); case 5: return A(); case 6: return O("a", 1); case 7: return O(); default: return jv(0.5); } }; jv a = mk(ka, g), b = mk(kb, h); check_pair(a, b); __sx_cover("kinds"); }
// transitivity of < and == over integers, strings and arrays of them
SX_ENTRY(cmp_triple) { int l = __sx_param(0); jv a = leaf(l), b = leaf(l), c = leaf(l); if (__sx_param(1)) { jv x = leaf(l), y = leaf(l), z = leaf(l); a = A(a, x); b = A(b, y); c = A(c, z); } if (a < b && b < c) CHECK(a < c, "C22 < is not transitive"); if (a == b && b == c) CHECK(a == c, "C22 == is not transitive"); if (a == b && b < c) CHECK(a < c, "C22 == and < disagree"); __sx_cover("triple"); }
template <class T> static void scalar(const jv& v, T x) {
  jv w(x); CHECK((v == x) == (v == w) && (x == v) == (w == v) && (v != x) == (v != w) && (x != v) == (w != v) && (v < x) == (v < w) && (x < v) == (w < v) && (v > x) == (v > w) && (x > v) == (w > v) && (v <= x) == (v <= w) && (x <= v) == (w <= v) && (v >= x) == (v >= w) && (x >= v) == (w >= v), "C22 comparison with a scalar differs from comparison with its value");
}
SX_ENTRY(cmp_scalars) {
  int k = __sx_param(0), t = __sx_param(1); Gen g(1, 0); jv v; switch (k) { case 0: v = nullptr; break; case 1: v = sym(1, "b") == 1; break; case 2: v = (int64_t)sym(64, "i"); break; case 3: v = num(2); break; case 4: v = g.str(1); break; case 5: v = A(1); break; default: v = O("a", 1); break; }
  switch (t) { case 0: scalar(v, (int)sym(32, "s")); break; case 1: scalar(v, (int64_t)sym(64, "s")); break; case 2: scalar(v, (unsigned)sym(32, "s")); break; case 3: scalar(v, sym(1, "s") == 1); break; case 4: scalar(v, (double)(int64_t)(int8_t)sym(8, "s")); break; case 5: { char b[2] = { (char)sym(8, "s"), 0 }; scalar(v, (const char*)b); break; } case 6: scalar(v, (char)sym(8, "s")); break; case 7: scalar(v, nullptr); break; default: scalar(v, 0.5f); break; }
  if (t == 3) { bool x = sym(1, "y"); CHECK((v == x) == (v.is_bool() && v.get<bool>() == x), "C22 comparison with a boolean"); } if (t == 0) { int x = (int)(int8_t)sym(8, "y"); CHECK((v == x) == ((v.is_integer() && v.data().integer == x) || (v.is_floating() && v.data().floating == x)), "C22 comparison with an integer"); } __sx_cover("scalars");
}

// ------------------------------------------------------------------ C26
static void check_kind(const jv& v, int k) { CHECK((v.is_null() + v.is_bool() + v.is_integer() + v.is_floating() + v.is_string() + v.is_array() + v.is_object()) == 1, "C26 not exactly one kind"); bool r; switch (k) { case 0: r = v.is_null() && v.size() == 0 && v.empty(); break; case 1: r = v.is_object() && v.size() == 0 && v.empty() && v.data().object->empty(); break; case 2: r = v.is_array() && v.size() == 0 && v.empty() && v.data().vector->empty(); break; case 3: r = v.is_string() && v.get<std::string>().empty() && v.size() == 1 && !v.empty(); break; case 4: r = v.is_integer() && v.get<int64_t>() == 0 && v.size() == 1 && !v.empty(); break; case 5: { double d = v.is_floating() ? v.get<double>() : 1; uint64_t b; memcpy(&b, &d, 8); r = v.is_floating() && b == 0 && v.size() == 1 && !v.empty(); break; } default: r = v.is_bool() && v.get<bool>() == false && v.size() == 1 && !v.empty(); } CHECK(r, "C26 not the empty or zero value of its kind"); }
static const value_constant::type KT[] = { value_constant::null, value_constant::object, value_constant::array, value_constant::string, value_constant::integer, value_constant::floating, value_constant::boolean };
SX_ENTRY(kind_ctor) { int k = __sx_param(0); jv v(KT[k]); check_kind(v, k); jv w = A(1, "x"); w = KT[k]; check_kind(w, k); jv c(v); check_kind(c, k); c.clear(); check_kind(c, k); CHECK(v == w && v.type() == KT[k], "C26 two empty values differ"); jv d; check_kind(d, 0); jv n(nullptr); check_kind(n, 0); __sx_cover("kind"); }
// clear() of any content of the kind
SX_ENTRY(clear_any) {
  int k = __sx_param(0); Gen g(3, 2); g.full_int = true; jv v; switch (k) { case 0: break; case 1: { jv a = g.value(1); std::string k = g.str(1); int64_t i = (int64_t)sym(64, "i"); v = O("a", a, k, i); break; } case 2: { jv a = g.value(1); std::string t = g.str(1); v = A(a, t); break; } case 3: v = g.str(2); break; case 4: v = (int64_t)sym(64, "i"); break; case 5: { uint64_t b = sym(64, "d"); double d; memcpy(&d, &b, 8); v = d; break; } default: v = sym(1, "b") == 1; break; }
  jv copy = v; v.clear(); check_kind(v, k); v.clear(); check_kind(v, k); if (k == 1) { v["z"] = 1; CHECK(v.size() == 1, "C26 a cleared object is not usable"); } if (k == 2) { v.push_back(1); CHECK(v.size() == 1 && v[0] == 1, "C26 a cleared array is not usable"); } CHECK(copy.type() == v.type(), "C26 clear() changes the kind"); __sx_cover("clear");
}
SX_ENTRY(size_empty) { Gen g(__sx_param(0), 2); g.floats = 1; jv v = g.value(2); size_t n = v.is_null() ? 0 : v.is_array() ? v.data().vector->size() : v.is_object() ? v.data().object->size() : 1; CHECK(v.size() == n, "C26 size() disagrees with the contents"); CHECK(v.empty() == (n == 0), "C26 empty() disagrees with the contents"); __sx_cover("size"); }
SX_ENTRY(factory_array) {
  int n = __sx_param(0), how = __sx_param(1); Gen g(1, 0); g.full_int = true; jv e[4]; for (int i = 0; i < n; i++) { if (i == 1) e[i] = A(1, g.str(1)); else if (i == 2) e[i] = nullptr; else e[i] = g.value(0); }
  int rot = __sx_param(2); if (rot) e[rot % n].swap(e[(rot + 1) % n]);
  jv v; switch (how * 4 + n) { case 0: v = json::array{}; break; case 1: v = json::array{ e[0] }; break; case 2: v = json::array{ e[0], e[1] }; break; case 3: v = json::array{ e[0], e[1], e[2] }; break; case 4: v = make_array<jv>({}); break; case 5: { std::initializer_list<jv> l = { e[0] }; v = make_array<jv>(l); break; } case 6: v = make_array<jv>({ e[0], e[1] }); break; case 7: v = make_array<jv>({ e[0], e[1], e[2] }); break; }
  CHECK(v.is_array() && v.size() == (size_t)n, "C26 make_array gives another number of elements"); for (int i = 0; i < n; i++) CHECK(same_tree(v[(size_t)i], e[i]), "C26 make_array gives other elements"); if (n) { v[0] = "changed"; CHECK(!(e[0].is_string() && e[0] == "changed"), "C26 make_array aliases its elements"); } __sx_cover("array");
}
// elements of every kind, also the empty ones, in every position
static jv any_elem(unsigned k) { switch (k) { case 0: return nullptr; case 1: return jv(sym(1, "b") == 1); case 2: return jv((int64_t)sym(8, "i")); case 3: return jv((double)(int64_t)sym(8, "f")); case 4: return jv(""); case 5: return jv(std::string(1, (char)sym(8, "c"))); case 6: return A(); case 7: return O(); case 8: return A(nullptr); case 9: return A("k", 1); default: return O("k", nullptr); } }
SX_ENTRY(factory_kinds) {
  int how = __sx_param(0), n = __sx_param(1); jv e[3]; for (int i = 0; i < n; i++) e[i] = any_elem(choose(11, "kind")); jv c[3]; for (int i = 0; i < n; i++) c[i] = e[i]; jv v, w;
  switch (n) {
    case 1: if (how) { v = make_array<jv>(std::initializer_list<jv>{ e[0] }); w = make_object<jv>({ { "a", e[0] } }); } else { v = json::array(std::initializer_list<jv>{ e[0] }); w = json::object{ { "a", e[0] } }; } break;
    case 2: if (how) { v = make_array<jv>({ e[0], e[1] }); w = make_object<jv>({ { "a", e[0] }, { "b", e[1] } }); } else { v = json::array{ e[0], e[1] }; w = json::object{ { "a", e[0] }, { "b", e[1] } }; } break;
    default: if (how) { v = make_array<jv>({ e[0], e[1], e[2] }); w = make_object<jv>({ { "a", e[0] }, { "b", e[1] }, { "c", e[2] } }); } else { v = json::array{ e[0], e[1], e[2] }; w = json::object{ { "a", e[0] }, { "b", e[1] }, { "c", e[2] } }; } break;
  }
  CHECK(v.is_array() && v.size() == (size_t)n && w.is_object() && w.size() == (size_t)n, "C26 a factory gives another number of elements"); for (int i = 0; i < n; i++) { std::string k(1, (char)('a' + i)); CHECK(same_tree(v[(size_t)i], c[i]), "C26 make_array gives other elements"); CHECK(w.count(k) == 1 && same_tree(w[k], c[i]), "C26 make_object gives other members"); CHECK(same_tree(e[i], c[i]), "C26 a factory changes what it is given"); } __sx_cover("kinds");
}
SX_ENTRY(factory_object) {
  int n = __sx_param(0), how = __sx_param(1); Gen g(1, 0); g.full_int = true; std::string k[3]; jv e[3]; for (int i = 0; i < n; i++) { k[i] = std::string(1, (char)sym(8, "k")); e[i] = i == 1 ? O("in", g.str(1)) : jv((int64_t)sym(64, "x")); }
  jv v; switch (how * 4 + n) { case 0: v = json::object{}; break; case 1: v = json::object{ { k[0], e[0] } }; break; case 2: v = json::object{ { k[0], e[0] }, { k[1], e[1] } }; break; case 3: v = json::object{ { k[0], e[0] }, { k[1], e[1] }, { k[2], e[2] } }; break; case 4: v = make_object<jv>({}); break; case 5: v = make_object<jv>({ { k[0], e[0] } }); break; case 6: v = make_object<jv>({ { k[0], e[0] }, { k[1], e[1] } }); break; case 7: v = make_object<jv>({ { k[0], e[0] }, { k[1], e[1] }, { k[2], e[2] } }); break; }
  size_t distinct = 0; for (int i = 0; i < n; i++) { bool first = true; for (int j = 0; j < i; j++) if (bytes_eq(k[j], k[i])) first = false; if (first) distinct++; bool any = false; for (int j = 0; j < n; j++) if (bytes_eq(k[i], k[j]) && v.count(k[i]) == 1 && same_tree(v[k[i]], e[j])) any = true; CHECK(any, "C26 make_object loses a listed member"); if (distinct == (size_t)i + 1 && i + 1 == n) for (int j = 0; j < n; j++) CHECK(same_tree(v[k[j]], e[j]), "C26 make_object gives another member"); } CHECK(v.is_object() && v.size() == distinct, "C26 make_object gives another number of members"); __sx_cover("object");
}
SX_ENTRY(names) {
  const char* n[7]; for (int i = 0; i < 7; i++) { n[i] = to_string(KT[i]); CHECK(n[i] && n[i][0], "C26 a kind has no name"); } unsigned a = (unsigned)sym(8, "a"), b = (unsigned)sym(8, "b"); __sx_assume((a < 7) & (b < 7) & (a != b)); a = (unsigned)__sx_concretize(a); b = (unsigned)__sx_concretize(b); CHECK(strcmp(n[a], n[b]) != 0, "C26 two kinds share a name");
  __sx_cover("names");
}
SX_ENTRY(token_names) {
  static const token_type T[] = { token_type::uninitialized, token_type::literal_true, token_type::literal_false, token_type::literal_null, token_type::value_string, token_type::value_integer, token_type::value_float, token_type::begin_array, token_type::end_array, token_type::begin_object, token_type::end_object, token_type::name_separator, token_type::value_separator, token_type::end_of_input }; const unsigned N = sizeof T / sizeof *T;
  unsigned a = (unsigned)sym(8, "a"), b = (unsigned)sym(8, "b"); __sx_assume((a < N) & (b < N) & (a != b)); a = (unsigned)__sx_concretize(a); b = (unsigned)__sx_concretize(b); const char *x = to_string(T[a]), *y = to_string(T[b]); CHECK(x && x[0] && strcmp(x, y) != 0, "C26 two tokens share a name"); __sx_cover("token names");
}
