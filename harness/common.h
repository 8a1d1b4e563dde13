// Shared by all harnesses: symbolic inputs, templates, independent UTF coding (RFC 3629 / Unicode table 3-7).
#pragma once
#include <configor/json.hpp>
#include "sx.h"
#include "entry.h"
#include <cstring>
#include <string>
using namespace configor;
using jv = json::value;

#define CHECK(c, msg) __sx_assert((bool)(c), msg)

static inline uint64_t sym(unsigned w, const char* n) { return __sx_sym(w, n); }
static inline uint64_t sym_lt(unsigned w, uint64_t hi, const char* n) { uint64_t v = __sx_sym(w, n); __sx_assume(v < hi); return v; }
// symbolic choice in [0,n), one path per value
static inline unsigned choose(unsigned n, const char* name) { if (n <= 1) return 0; uint64_t v = __sx_sym(8, name); __sx_assume(v < n); return (unsigned)__sx_concretize(v); }

static inline bool is_scalar_value(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
// symbolic Unicode scalar value (one path)
static inline uint32_t sym_scalar(const char* n) { uint32_t c = (uint32_t)sym(21, n); __sx_assume((c <= 0x10FFFF) & !((c >= 0xD800) & (c <= 0xDFFF))); return c; }

#ifndef BYTES_CAP
#define BYTES_CAP 256
#endif
struct Bytes { unsigned char b[BYTES_CAP]; int n; Bytes() : n(0) {} void add(unsigned c) { b[n++] = (unsigned char)c; } std::string str() const { return std::string((const char*)b, (size_t)n); } };
struct Cps { uint32_t c[128]; int n; Cps() : n(0) {} void add(uint32_t v) { c[n++] = v; } };

static inline void ref_enc8(Bytes& o, uint32_t c) {
  if (c < 0x80) o.add(c);
  else if (c < 0x800) { o.add(0xC0 + (c >> 6)); o.add(0x80 + (c & 63)); }
  else if (c < 0x10000) { o.add(0xE0 + (c >> 12)); o.add(0x80 + ((c >> 6) & 63)); o.add(0x80 + (c & 63)); }
  else { o.add(0xF0 + (c >> 18)); o.add(0x80 + ((c >> 12) & 63)); o.add(0x80 + ((c >> 6) & 63)); o.add(0x80 + (c & 63)); }
}
// Unicode table 3-7: well-formed byte sequences. Returns the number of bytes (0 = ill-formed), *out the scalar value.
static inline int ref_dec8(const unsigned char* p, int n, uint32_t* out) {
  if (n < 1) return 0;
  unsigned a = p[0];
  if (a <= 0x7F) { *out = a; return 1; }
  if (a < 0xC2 || a > 0xF4) return 0;
  if (a <= 0xDF) { if (n < 2 || p[1] < 0x80 || p[1] > 0xBF) return 0; *out = (a & 0x1F) << 6 | (p[1] & 0x3F); return 2; }
  if (n < 2) return 0;
  unsigned lo = 0x80, hi = 0xBF;
  if (a == 0xE0) lo = 0xA0; else if (a == 0xED) hi = 0x9F; else if (a == 0xF0) lo = 0x90; else if (a == 0xF4) hi = 0x8F;
  if (p[1] < lo || p[1] > hi) return 0;
  if (n < 3 || p[2] < 0x80 || p[2] > 0xBF) return 0;
  if (a <= 0xEF) { *out = (a & 0x0F) << 12 | (p[1] & 0x3Fu) << 6 | (p[2] & 0x3Fu); return 3; }
  if (n < 4 || p[3] < 0x80 || p[3] > 0xBF) return 0;
  *out = (a & 7) << 18 | (p[1] & 0x3Fu) << 12 | (p[2] & 0x3Fu) << 6 | (p[3] & 0x3Fu); return 4;
}
static inline void ref_enc16(uint32_t* u, int* n, uint32_t c) { if (c < 0x10000) u[(*n)++] = c; else { u[(*n)++] = 0xD800 + ((c - 0x10000) >> 10); u[(*n)++] = 0xDC00 + ((c - 0x10000) & 0x3FF); } }

// Text templates: '~' any byte, '#' a digit, '$' a hex digit, '\1' one of []{}:,1"space, '\2' one of * / newline a,
// '\3' printable ASCII or a two-byte unit, '\4' letters tfn and friends, '\5' whitespace, '\6' a byte below 0x20
static inline unsigned sym_class(char k) {
  unsigned c = (unsigned)sym(8, "b");
  switch (k) {
    case '#': __sx_assume((c >= '0') & (c <= '9')); break;
    case '$': __sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); break;
    case 1: __sx_assume((c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == ':') | (c == ',') | (c == '1') | (c == '"') | (c == ' ')); break;
    case 2: __sx_assume((c == '*') | (c == '/') | (c == '\n') | (c == 'a') | (c == '"')); break;
    case 3: __sx_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c < 0x80)); break;
    case 4: __sx_assume((c == '[') | (c == ']') | (c == ',') | (c == '0') | (c == ' ')); break;
    case 5: __sx_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')); break;
    case 6: __sx_assume(c < 0x20); break;
    default: break;
  }
  return c;
}
static inline void fill_template(Bytes& o, const char* t, int n) {
  for (int i = 0; i < n; i++) { char k = t[i]; if (k == '~' || k == '#' || k == '$' || (k >= 1 && k <= 6)) o.add(sym_class(k)); else o.add((unsigned char)k); }
}
