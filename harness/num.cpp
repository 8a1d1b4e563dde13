// C04 C05: number literals.
#include "ref.h"
static int64_t I(bool& isint, bool& isfl, double& f, const std::string& s, bool& ok) {
  isint = isfl = false; f = 0; int64_t r = 0; ok = true;
  try { jv v = json::parse(s); isint = v.is_integer(); isfl = v.is_floating(); if (isint) r = v.get<int64_t>(); if (isfl) f = v.get<double>(); }
  catch (const configor_deserialization_error&) { ok = false; }
  return r;
}
// a literal given as a template of at most 24 characters; '#' = any digit
static const char* const IT[] = {
  "###", "-###", "+###", "922337203685477####", "-922337203685477####", "+922337203685477####", "1844674407370955####", "-1844674407370955####", "9999999999999999###", "1000000000000000000#",
  /*10*/ "18446744073709551615##", "92233720368547758070000000000000000000##", "100000000000000000000000000000000000000000000000000000000000##", "-9223372036854775808##", "#223372036854775807", "#9223372036854775807", "9###372036854775807", "9223###036854775807", "9223372###854775807", "9223372036###775807",
  /*20*/ "9223372036854###807", "-#223372036854775808", "-92##372036854775808", "-92233720368547758##", "#########", "##################", "-##################", "4294967###", "-2147483###", "2147483###",
  /*30*/ "-0", "+0", "0", "-#", "99999999999999999999#", "36893488147419103###", "-36893488147419103###", "10376293541461622###", "12345678901234567###", "1###########",
};
SX_ENTRY(int_digits) {
  const char* s = IT[__sx_param(0)]; int n = (int)strlen(s);
  Bytes t; fill_template(t, s, n);
  bool neg = s[0] == '-'; int i = neg || s[0] == '+'; int first = i;
  uint64_t m = 0; bool big = false; double lo = 0, w = 0;
  if (s[first] == '#' && n > first + 1) __sx_assume(t.b[first] != '0');
  for (; i < n; i++) {
    int64_t g = (int64_t)((int)t.b[i] - '0'); lo *= 10; w *= 10; if (s[i] == '#') w += 9; else lo += (double)(s[i] - '0');
    if (i - first >= 19) { if (m > (UINT64_MAX - (uint64_t)g) / 10) big = true; }      // 19 digits always fit 64 bits
    if (!big) m = m * 10 + (uint64_t)g;
  }
  if (!big && m > (neg ? 0x8000000000000000ull : 0x7FFFFFFFFFFFFFFFull)) big = true;
  bool isint, isfl, ok; double f; int64_t r = I(isint, isfl, f, t.str(), ok);
  if (!big) { CHECK(ok, "C04 an integer literal in range was rejected"); CHECK(isint, "C04 an integer literal in range did not become an integer"); CHECK((uint64_t)r == (neg ? (uint64_t)0 - m : m), "C04 wrong integer value"); __sx_cover("integer"); __sx_observe("r", (uint64_t)r); }
  else {
    CHECK(!isint, "C04 a literal beyond the integer range became an integer"); __sx_cover("beyond");
    if (isfl) {
      double a = neg ? -f : f, hi = (lo + w) * (1 + 1e-9); lo *= 1 - 1e-9;
      CHECK(a >= lo, "C04 the float for a large literal is too small"); CHECK(a <= hi, "C04 the float for a large literal is too large");
    }
  }
}
// symbolic 64-bit integer printed by the harness in decimal (digits by division), parsed back
SX_ENTRY(int_limits) {   // k digits below the limit: every literal within `span` of a boundary
  int which = __sx_param(0); uint64_t span = (uint64_t)__sx_param(1);
  static const uint64_t B[] = { 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0x7FFFFFFFull, 0xFFFFFFFFull, 1000000000000000000ull, 0 };
  uint64_t d = sym(16, "d"); __sx_assume(d < span); uint64_t x = B[which] - span / 2 + d; if (which == 6) x = d;
  bool neg = choose(2, "neg") == 1;
  char buf[24]; int k = 24; uint64_t y = x; do { buf[--k] = (char)('0' + y % 10); y /= 10; } while (y);
  std::string s = neg ? "-" : ""; s.append(buf + k, (size_t)(24 - k));
  bool isint, isfl, ok; double f; int64_t r = I(isint, isfl, f, s, ok);
  bool fits = x <= (neg ? 0x8000000000000000ull : 0x7FFFFFFFFFFFFFFFull);
  if (fits) { CHECK(ok && isint, "C04 an integer literal in range did not become an integer"); CHECK((uint64_t)r == (neg ? (uint64_t)0 - x : x), "C04 wrong integer value"); __sx_cover("integer"); }
  else { CHECK(!isint, "C04 a literal beyond the integer range became an integer"); __sx_cover("beyond"); }
}

// ---- C05: literal = template with '#' digits and a concrete layout; compared with N / 10^k or N * 10^k
static const char* const FT[] = { "#.#", "-#.##", "0.0#", "0.00000#", "#.#e1", "1.5e#", "1.#e-3", "#e5", "#e-5", "-#.#E+2", /*10*/ "12#.45#", "#.5e100", "#.5e-100", "1#e300", "#.25e-290", "+#.75", "123456789.#", "0.1234567#9", "#00000000000.5", "3#0e-2", /*20*/ "9.#9e+307", "2.#e-307", "0.00000000000000000001#", "98765432109876543210.#", "1234567890123456789#.5e-3", "#E7", "#.0", "-0.#", "-0.0#e2", "0.#e12", /*30*/ "#.5", "3.#", "1#.45", "#7.25e-1", "0.00#5", "##.5", "7.#e10", "#.75E-12", "1#0.0e+0", "4.#5e-08", /*40*/ "0.0e40#" , "0.0#e-310", "#00.125e-2" };
SX_ENTRY(float_lit) {
  int k = __sx_param(0); const char* s = FT[k]; int n = (int)strlen(s);
  Bytes t; fill_template(t, s, n);
  // the number denoted: digits N, scale e
  int i = 0; bool neg = false; if (t.b[0] == '-' || t.b[0] == '+') { neg = t.b[0] == '-'; i++; }
  if (s[i] == '#' && i + 1 < n && s[i + 1] != '.' ) __sx_assume(t.b[i] != '0');
  uint64_t M = 0; double C = 0; bool wide = false; int nd = 0; int scale = 0; bool frac = false; int ex = 0; bool en = false, ine = false, zero_e = false;
  for (; i < n; i++) {
    unsigned c = t.b[i];
    if (s[i] == '.') { frac = true; continue; }
    if (s[i] == 'e' || s[i] == 'E') { ine = true; if (s[i + 1] == '#') { __sx_assume(t.b[i + 1] != '0'); } continue; }
    if (ine) { if (s[i] == '-') { en = true; continue; } if (s[i] == '+') continue; int g = 0; if (s[i] == '#') g = (int)__sx_concretize(c) - '0'; else g = (int)c - '0'; ex = ex * 10 + g; }
    else { int64_t g = (int64_t)((int)c - '0'); if (++nd <= 18) M = M * 10 + (uint64_t)g; else { if (!wide) { wide = true; C = (double)M; } C = C * 10 + (double)g; } if (frac) scale--; }
  }
  (void)zero_e; if (en) ex = -ex; scale += ex;
  std::string text = t.str(); bool ok = true, fl = false; double v = 0;
  try { jv x = json::parse(text); fl = x.is_floating(); if (fl) v = x.get<double>(); } catch (const configor_deserialization_error&) { ok = false; }
  CHECK(ok, "C05 a float literal was rejected"); CHECK(fl, "C05 a float literal did not become a float");
  double N = wide ? C : (double)(int64_t)M; if (!wide && M == 0) { CHECK(v == 0, "C05 wrong value for zero"); __sx_cover("zero"); return; }
  double p = 1, b = 10; int e = scale < 0 ? -scale : scale; bool split = e > 300; if (split) e -= 30; for (; e; e >>= 1, b *= b) if (e & 1) p *= b;
  double want = scale < 0 ? N * (1 / p) : N * p; if (split) want = scale < 0 ? want * 1e-30 : want * 1e30;
  if (neg) { v = -v; }
  // positive doubles are ordered like their bit patterns; 1e-9 is more than 4500000 units in the last place
  int64_t bv, bw; memcpy(&bv, &v, 8); memcpy(&bw, &want, 8);
  CHECK(bv >= bw - 4500000, "C05 the value is too small"); CHECK(bv <= bw + 4500000, "C05 the value is too large"); __sx_cover("value");
}
SX_ENTRY(float_reject) {  // a missing digit
  static const char* const R[] = { "#.", "-#.", "#.e1", "#.#e", "#.#e+", "#.#e-", "#e+", "-.#", ".#", "#.#.#", "#.#e#.#", "#e1e#", "#.+#", "#.#e+-#", "-" , "+", "#.-#", "+e#" };
  int k = __sx_param(0); Bytes t; fill_template(t, R[k], (int)strlen(R[k])); int pad = __sx_param(1); if (pad) { unsigned c = (unsigned)sym(8, "b"); __sx_assume(!((c >= '0') & (c <= '9'))); if (k == 0 || k == 1) {} t.add(c); }
  bool ok = true; try { jv x = json::parse(t.str()); } catch (const configor_deserialization_error&) { ok = false; }
  if (pad) { Ref r; int root; if (r.parse(t.b, t.n, &root) != R_REJECT) return; }
  CHECK(!ok, "C05 a literal with a missing digit was accepted"); __sx_cover("rejected");
}
// long literals: runs of concrete digits around symbolic ones; the run and the exponent cancel, so that the digits alone leave the range
static double p10(int e) { double p = 1, b = 10; for (int n = e < 0 ? -e : e; n; n >>= 1, b *= b) if (n & 1) p *= b; return e < 0 ? 1 / p : p; }
SX_ENTRY(float_long) {
  int k = __sx_param(0), n = __sx_param(1), neg = __sx_param(2);
  char d, c = '0';
  if (k == 2 || k == 7 || k >= 10) { d = (char)('1' + choose(9, "d")); c = (char)('0' + choose(10, "c")); }   // too many roundings for the solver: one path per digit
  else { d = (char)sym(8, "d"); __sx_assume(d >= '1'); __sx_assume(d <= '9'); c = (char)sym(8, "c"); __sx_assume(c >= '0'); __sx_assume(c <= '9'); }
  double D = (double)((int)d - '0'), C = (double)((int)c - '0'), want = 0; std::string z((size_t)n, '0'), e = std::to_string(n), s = neg ? "-" : "";
  s.reserve(s.size() + z.size() + 64);
  switch (k) {
  case 0: s += d; s += z; s += "e-" + e; want = D; break;                                                    // d000..e-n
  case 1: s += "0." + z; s += d; s += "e+" + e; want = D * 0.1; break;                                       // 0.000..de+n
  case 2: s += d; s += z; s += '.'; s += c; s += "e-" + std::to_string(n + 3); want = D * 1e-3; break;
  case 3: s += d; s += z; s += c; s += "e-" + e; want = D * 10; break;                                       // the last digit is below the tolerance
  case 4: s += d; s += std::string((size_t)n, '9'); s += "E-" + e; want = D + 1; break;
  case 5: s += d; s += z; s += "e+0"; want = D * p10(n); break;
  case 6: s += d; s += z; want = D * p10(n); break;
  case 7: s += "0." + z; s += d; s += c; want = (D * 10 + C) * p10(-n) * 0.01; break;
  case 8: s += d; s += "."; s += c; s += "e+" + z + "7"; want = (D * 10 + C) * 1e6; break;                   // zeros in front of the exponent
  case 9: s += d; s += c; s += "e-" + z + "12"; want = (D * 10 + C) * 1e-12; break;
  case 10: s += d; s += "."; s += c; s += z; s += "1e+5"; want = (D * 10 + C) * 1e4; break;                  // a long fraction
  case 11: s += d; s += c; s += "."; s += z; want = D * 10 + C; break;
  case 12: s += d; s += c; s += z; s += "."; s += z; s += "e-" + std::to_string(n + 1); want = (D * 10 + C) * 0.1; break;
  case 13: s += "0." + z; s += c; s += d; s += z; s += "e+" + std::to_string(n + 2); want = C * 10 + D; break;
  case 14: s += "0." + z; s += "e+" + e; want = 0; break;
  default: s += d; s += c; s += (k == 15 ? "e+" : "e-"); s += std::string((size_t)n, '9'); want = k == 15 ? HUGE_VAL : 0; break;
  }
  bool isint, isfl, ok; double v; I(isint, isfl, v, s, ok);
  if (k >= 15) { if (!ok) return; CHECK(isfl, "C05 a float literal did not become a float"); CHECK((neg ? -v : v) == want, "C05 a literal beyond the range of the float type became a finite value"); __sx_cover("beyond"); return; }
  CHECK(ok, "C05 a float literal was rejected"); CHECK(isfl, "C05 a float literal did not become a float");
  if (k == 14) { CHECK(v == 0, "C05 wrong value for zero"); __sx_cover("zero"); return; }
  if (neg) v = -v;
  int64_t bv, bw; memcpy(&bv, &v, 8); memcpy(&bw, &want, 8);
  CHECK(bv >= bw - 4500000, "C05 the value is too small"); CHECK(bv <= bw + 4500000, "C05 the value is too large"); __sx_cover("long");
}
