// The documented layout, written down independently.
#pragma once
#include "gen.h"
// reference printer: appends to o; a leaf is printed as it is printed alone
template <class S, class C> static void ref_indent(S& o, unsigned depth, unsigned step, C ch) { for (unsigned i = 0; i < depth * step; i++) o.push_back(ch); }
template <class J, class S, class C> static void ref_pretty(S& o, const typename J::value& v, unsigned depth, unsigned step, C ch) {
  if (v.is_array()) { const auto& a = *v.data().vector; o.push_back('['); bool first = true; for (const auto& x : a) { if (!first) o.push_back(','); first = false; if (step) { o.push_back('\n'); ref_indent(o, depth + 1, step, ch); } ref_pretty<J>(o, x, depth + 1, step, ch); } if (step) { o.push_back('\n'); ref_indent(o, depth, step, ch); } o.push_back(']'); }
  else if (v.is_object()) { const auto& m = *v.data().object; o.push_back('{'); bool first = true; for (const auto& p : m) { if (!first) o.push_back(','); first = false; if (step) { o.push_back('\n'); ref_indent(o, depth + 1, step, ch); } typename J::value k = p.first; o += J::dump(k); o.push_back(':'); if (step) o.push_back(ch); ref_pretty<J>(o, p.second, depth + 1, step, ch); } if (step) { o.push_back('\n'); ref_indent(o, depth, step, ch); } o.push_back('}'); }
  else o += J::dump(v);
}
