// C08: the UTF coders against RFC 3629 / UTF-16 / UTF-32.
#include "common.h"
#ifndef UTF_N
#define UTF_N 4
#define SYM_AT(i) true
#endif
#include <istream>
#include <ostream>
template <class C> using obuf = detail::fast_string_ostreambuf<C>;
template <class C> using ibuf = detail::fast_string_istreambuf<C>;

enum { D_END, D_OK, D_ERR };
template <template <class> class E, class C> static int dec(std::basic_istream<C>& is, uint32_t& c) { bool r = E<C>::decode(is, c); if (!r) return D_END; return is.good() ? D_OK : D_ERR; }

// the reference decoders on units; returns units consumed (0 = ill-formed)
static int rdec(int form, const uint32_t* u, int n, uint32_t* c) {
  if (form == 8) { unsigned char b[8]; int m = n < 4 ? n : 4; for (int i = 0; i < m; i++) b[i] = (unsigned char)u[i]; return ref_dec8(b, m, c); }
  if (form == 16) {
    if (u[0] >= 0xD800 && u[0] <= 0xDBFF) { if (n < 2 || u[1] < 0xDC00 || u[1] > 0xDFFF) return 0; *c = 0x10000 + ((u[0] - 0xD800) << 10) + (u[1] - 0xDC00); return 2; }
    if (u[0] > 0xFFFF || (u[0] >= 0xDC00 && u[0] <= 0xDFFF)) return 0;
    *c = u[0]; return 1;
  }
  if (!is_scalar_value(u[0])) return 0;
  *c = u[0]; return 1;
}
static int renc(int form, uint32_t c, uint32_t* u) {
  if (form == 8) { Bytes b; ref_enc8(b, c); for (int i = 0; i < b.n; i++) u[i] = b.b[i]; return b.n; }
  if (form == 16) { int n = 0; ref_enc16(u, &n, c); return n; }
  u[0] = c; return 1;
}
template <class C> static uint32_t unit(C c) { return sizeof(C) == 1 ? (uint32_t)(unsigned char)c : sizeof(C) == 2 ? (uint32_t)(uint16_t)c : (uint32_t)c; }

template <template <class> class E, class C> static void encode_all(int form, int count) {
  std::basic_string<C> out; static uint32_t u[UTF_N * 4]; int n = 0; static uint32_t cp[UTF_N]; static const uint32_t FIXED[] = { 0x41, 0xE9, 0x4E2D, 0x1F600, 0x7FF, 0x800, 0xFFFD, 0x10000, 0, 0x10FFFF, 0xD7FF, 0xE000, 0x80, 0x7F };
  {
    obuf<C> b(out); std::basic_ostream<C> os(&b);
    for (int i = 0; i < count; i++) { cp[i] = SYM_AT(i) ? sym_scalar("cp") : FIXED[i % 14]; if (sizeof(C) == 2) __sx_assume(cp[i] != 0xFFFF); E<C>::encode(os, cp[i]); CHECK(os.good(), "C08 encoding a Unicode scalar value failed"); n += renc(form, cp[i], u + n); }
  }
  CHECK(out.size() == (size_t)n, "C08 wrong number of units");
  for (int i = 0; i < n; i++) CHECK(unit(out[(size_t)i]) == u[i], "C08 wrong unit");
  ibuf<C> ib(out); std::basic_istream<C> is(&ib);
  for (int i = 0; i < count; i++) { uint32_t c = 0; CHECK((dec<E, C>(is, c)) == D_OK, "C08 a well-formed sequence did not decode"); CHECK(c == cp[i], "C08 decoding is not the inverse of encoding"); }
  uint32_t c = 0; CHECK((dec<E, C>(is, c)) == D_END, "C08 units left over"); __sx_cover("round trip"); __sx_observe("n", (uint64_t)n);
}
template <template <class> class E, class C> static void decode_all(int form, int n) {
  static uint32_t u[UTF_N * 3 + 1]; std::basic_string<C> s; static const uint32_t FIX8[] = { 0xF0, 0x9F, 0x98, 0x80, 0xE4, 0xB8, 0xAD, 0xC3, 0xA9, 0x61 }, FIX16[] = { 0xD83D, 0xDE00, 0x4E2D, 0xE9, 0xDBFF, 0xDFFF, 0x61 };
  for (int i = 0; i < n; i++) { u[i] = SYM_AT(i) ? (uint32_t)sym(8 * sizeof(C), "u") : form == 8 ? FIX8[i % 10] : form == 16 ? FIX16[i % 7] : 0xE000u + (uint32_t)i; if (sizeof(C) == 4) __sx_assume(u[i] != 0xFFFFFFFFu); if (sizeof(C) == 2) __sx_assume(u[i] != 0xFFFFu); s.push_back((C)u[i]); }
  ibuf<C> ib(s); std::basic_istream<C> is(&ib);
  int i = 0;
  for (;;) {
    uint32_t c = 0, e = 0; int r = dec<E, C>(is, c);
    if (i >= n) { CHECK(r == D_END, "C08 decoding past the end"); __sx_cover("end"); return; }
    int k = rdec(form, u + i, n - i, &e);
    if (!k) { CHECK(r == D_ERR, "C08 an ill-formed sequence was not reported as an error"); __sx_cover("ill-formed"); return; }
    CHECK(r == D_OK, "C08 a well-formed sequence was reported as an error"); CHECK(c == e, "C08 wrong code point"); __sx_observe("c", c);
    i += k;
  }
}
template <template <class> class E, class C> static void encode_bad() {   // not a scalar value
  uint32_t c = (uint32_t)sym(32, "cp"); __sx_assume(!((c <= 0x10FFFF) & !((c >= 0xD800) & (c <= 0xDFFF))));
  std::basic_string<C> out; obuf<C> b(out); std::basic_ostream<C> os(&b); E<C>::encode(os, c);
  CHECK(!os.good(), "C08 encoding something that is not a scalar value was not reported"); __sx_cover("not encodable");
}
#define ALL(f, F, ...) switch (__sx_param(0)) { case 0: f<encoding::utf8, char>(F 8 __VA_ARGS__); break; case 1: f<encoding::utf16, wchar_t>(F 16 __VA_ARGS__); break; case 2: f<encoding::utf32, wchar_t>(F 32 __VA_ARGS__); break; \
  case 3: f<encoding::auto_utf, char>(F 8 __VA_ARGS__); break; case 4: f<encoding::auto_utf, wchar_t>(F 32 __VA_ARGS__); break; case 5: f<encoding::utf16, char16_t>(F 16 __VA_ARGS__); break; case 6: f<encoding::auto_utf, char16_t>(F 16 __VA_ARGS__); break; case 7: f<encoding::utf32, char32_t>(F 32 __VA_ARGS__); break; case 8: f<encoding::utf8, wchar_t>(F 8 __VA_ARGS__); break; }
SX_ENTRY(utf_encode) { ALL(encode_all, , , __sx_param(1)) }
SX_ENTRY(utf_decode) { ALL(decode_all, , , __sx_param(1)) }
SX_ENTRY(utf_encode_bad) { switch (__sx_param(0)) { case 0: encode_bad<encoding::utf8, char>(); break; case 1: encode_bad<encoding::utf16, wchar_t>(); break; case 2: encode_bad<encoding::utf32, wchar_t>(); break; case 3: encode_bad<encoding::auto_utf, char>(); break; case 4: encode_bad<encoding::auto_utf, wchar_t>(); break; } }
