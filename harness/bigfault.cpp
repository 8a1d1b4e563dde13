// C27: failures far into long texts.
#include "big.h"
#include "fault.cpp"
SX_ENTRY(big_fault_read) { int m[3]; std::string s = bigdoc(__sx_param(1), __sx_param(2), m); s.resize((size_t)m[__sx_param(3)] + choose(6, "cut")); read_case<json, char>(__sx_param(0), s); __sx_cover("long"); }
SX_ENTRY(big_fault_write) {
  int how = __sx_param(0), mode = __sx_param(1), kind = __sx_param(2), n = __sx_param(3); jv v = bigtree(kind, n, n / 2, 7); uint64_t len = json::dump(v).size(), base = __sx_param(4) == 0 ? 14 : __sx_param(4) == 1 ? len / 2 : __sx_param(4) == 2 ? (len > 6 ? len - 6 : 0) : 510, at = base + sym_lt(8, 12, "at"); write_case<json, char>(how, mode, v, at); __sx_cover("long");
}
