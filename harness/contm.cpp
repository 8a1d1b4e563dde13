// C23: maps, the value's own containers, wide values.
#include "cont.h"
SX_ENTRY(cont_map) { N = __sx_param(1); int t = __sx_param(0); bool strict = t != 7; switch (t) { MAPS(RUN) } }
SX_ENTRY(cont_wrong_map) { N = 2; switch (__sx_param(0)) { MAPS(WRONG) } }
SX_ENTRY(cont_null_map) { switch (__sx_param(0)) { MAPS(NUL) } }
// the value's own containers
SX_ENTRY(cont_null_own) { if (__sx_param(0)) from_null<jv::object_type>(); else from_null<jv::array_type>(); }
SX_ENTRY(cont_own) { N = __sx_param(0); jv::array_type a; for (int i = 0; i < N; i++) { jv x; K<jv>::make(x, 1); a.push_back(x); } jv::object_type o; for (int i = 0; i < N; i++) { jv x; K<jv>::make(x, 1); o[std::string(1, (char)sym(8, "k"))] = x; } jv v = a, w = o; CHECK(v.is_array() && v.size() == a.size() && w.is_object() && w.size() == o.size(), "C23 the value's own container"); for (size_t i = 0; i < a.size(); i++) CHECK(same_tree((*v.data().vector)[i], a[i]), "C23 the value's own container"); for (auto& p : o) CHECK(same_tree(w.data().object->find(p.first)->second, p.second), "C23 the value's own container"); jv::array_type b; b.push_back(5); jv::object_type q; q["zzz"] = 1; v.get_to(b); w.get_to(q); CHECK(b.size() == a.size() && q.size() == o.size(), "C23 converting into a non-empty container does not replace its contents"); for (size_t i = 0; i < a.size(); i++) CHECK(same_tree(a[i], b[i]), "C23 the value's own container"); for (auto& p : o) CHECK(q.count(p.first) && same_tree(q[p.first], p.second), "C23 the value's own container"); CHECK(outcome([&] { w.get_to(b); }) == 1 && outcome([&] { v.get_to(q); }) == 1, "C23 a value of the wrong kind is not rejected"); __sx_cover("own"); }
// wide values
SX_ENTRY(cont_wide) { typedef wjson::value wv; typedef std::wstring W; int n = __sx_param(0); std::vector<W> a; std::map<W, std::vector<int>> m; for (int i = 0; i < n; i++) { a.push_back(W(1, (wchar_t)sym(32, "w"))); std::vector<int> t; t.push_back((int)sym(32, "i")); m[W(1, (wchar_t)sym(32, "k"))] = t; } wv v = a, w = m; CHECK(v.is_array() && v.size() == a.size() && w.is_object() && w.size() == m.size(), "C23 wide containers"); for (size_t i = 0; i < a.size(); i++) CHECK(v[i].is_string() && *v[i].data().string == a[i], "C23 wide containers"); std::vector<W> b(5); std::map<W, std::vector<int>> q; q[L"zz"]; v.get_to(b); w.get_to(q); CHECK(b == a && q == m, "C23 wide containers do not survive"); __sx_cover("wide"); }
