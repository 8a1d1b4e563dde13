// C08: long sequences.
#include "common.h"
static int at_lo = 0, at_hi = 0;
#define UTF_N 1100
#define SYM_AT(i) ((i) >= at_lo && (i) < at_hi)
#include "utf.cpp"
static void where(int n, int pos, int w) { at_lo = pos == 0 ? 0 : pos == 1 ? n / 2 : n - w; if (at_lo < 0) at_lo = 0; at_hi = at_lo + w; }
SX_ENTRY(big_utf_encode) { where(__sx_param(1), __sx_param(2), 1); ALL(encode_all, , , __sx_param(1)) }
SX_ENTRY(big_utf_decode) { where(__sx_param(1), __sx_param(2), 2); ALL(decode_all, , , __sx_param(1)) }
