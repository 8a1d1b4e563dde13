// The comparison operators against an independent reference (C22).
#pragma once
#include "gen.h"
// three-way reference: -1 less, 0 equal, 1 greater, 2 not ordered (different kinds); NaN excluded
static int num3(const jv& a, const jv& b) {
  if (a.is_integer() && b.is_integer()) { int64_t x = a.data().integer, y = b.data().integer; return x < y ? -1 : x > y; }
  double x = a.is_integer() ? (double)a.data().integer : a.data().floating, y = b.is_integer() ? (double)b.data().integer : b.data().floating; return x < y ? -1 : x > y;
}
static int str3(const std::string& a, const std::string& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
static bool ref_eq(const jv& a, const jv& b) {
  if (a.is_number() && b.is_number()) return num3(a, b) == 0;
  if (a.type() != b.type()) return false;
  if (a.is_null()) return true; if (a.is_bool()) return a.data().boolean == b.data().boolean; if (a.is_string()) return str3(*a.data().string, *b.data().string) == 0;
  if (a.size() != b.size()) return false;
  if (a.is_array()) { for (size_t i = 0; i < a.size(); i++) if (!ref_eq((*a.data().vector)[i], (*b.data().vector)[i])) return false; return true; }
  auto i = a.data().object->begin(); auto j = b.data().object->begin(); for (; i != a.data().object->end(); ++i, ++j) if (str3(i->first, j->first) || !ref_eq(i->second, j->second)) return false; return true;
}
static int ref3(const jv& a, const jv& b) {   // lexicographic; 0: neither is less than the other
  if (a.is_number() && b.is_number()) return num3(a, b);
  if (a.type() != b.type() || a.is_null()) return 0;
  if (a.is_bool()) return (int)a.data().boolean - (int)b.data().boolean; if (a.is_string()) return str3(*a.data().string, *b.data().string);
  size_t n = a.size() < b.size() ? a.size() : b.size(); int len = a.size() < b.size() ? -1 : a.size() > b.size();
  if (a.is_array()) { for (size_t i = 0; i < n; i++) { int c = ref3((*a.data().vector)[i], (*b.data().vector)[i]); if (c) return c; } return len; }
  auto i = a.data().object->begin(); auto j = b.data().object->begin(); for (size_t k = 0; k < n; k++, ++i, ++j) { int c = str3(i->first, j->first); if (c) return c; c = ref3(i->second, j->second); if (c) return c; } return len;
}
static bool ref_lt(const jv& a, const jv& b) { return ref3(a, b) < 0; }
static void check_pair(const jv& a, const jv& b) {
  bool eq = a == b, lt = a < b, gt = b < a; __sx_observe("eq", eq); __sx_observe("lt", lt);
  CHECK(eq == ref_eq(a, b), "C22 == disagrees with kinds and contents"); CHECK(eq == (b == a), "C22 == is not symmetric"); CHECK((a != b) == !eq && (b != a) == !eq, "C22 != is not the negation of =="); CHECK(a == a && b == b && !(a != a) && !(a < a) && !(b > b) && a <= a && b >= b, "C22 == is not reflexive, or a value is less than itself");
  CHECK(lt == ref_lt(a, b) && gt == ref_lt(b, a), "C22 < disagrees with the contents"); CHECK(!(lt && gt), "C22 two values are less than each other"); CHECK((a > b) == gt && (b > a) == lt && (a <= b) == !gt && (b <= a) == !lt && (a >= b) == !lt && (b >= a) == !gt, "C22 the ordering operators disagree with each other"); if (eq) CHECK(!lt && !gt, "C22 equal values are ordered");
}
