// C13: long strings through every pair of encodings.
#include "big.h"
static int at_lo = 0, at_hi = 0;
#define ENC_N 1200
#define SYM_AT(i) ((i) >= at_lo && (i) < at_hi)
#include "enc.cpp"
static void where(int n, int pos, int w) { at_lo = place(pos, n); at_hi = at_lo + w; if (at_hi > n) at_hi = n; }
SX_ENTRY(big_tc_parse) { where(__sx_param(1), __sx_param(3), 1); tc_parse_body(__sx_param(0), __sx_param(1), __sx_param(2)); }
SX_ENTRY(big_tc_dump) { where(__sx_param(1), __sx_param(3), 1); tc_dump_body(__sx_param(0), __sx_param(1), __sx_param(2), __sx_param(4)); }
SX_ENTRY(big_tc_any) { where(__sx_param(1), __sx_param(2), 2); tc_any_body(__sx_param(0), __sx_param(1)); }
SX_ENTRY(big_ignore) { where(__sx_param(0), __sx_param(2), 2); ig_parse_body(__sx_param(0), __sx_param(1)); ig_dump_body(__sx_param(0), __sx_param(1)); }
