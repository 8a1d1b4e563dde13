// C01 C02 C03 C06 C07: long documents against the independent recogniser.
#include "big.h"
#include <sstream>
enum { M_TOTAL = 1, M_TREE = 2, M_REJECT = 4 };
static Ref R;
static void judge(const std::string& t, int mode, bool again) {
  jv v; int ok = 0; R.~Ref(); new (&R) Ref(); int root = -1;
  for (int k = 0; k <= (again ? 1 : 0); k++) {
    try { v = json::parse(t); ok = 1; } catch (const configor_deserialization_error&) { ok = 0; } catch (const std::exception&) { CHECK(false, "C01 an exception other than configor_deserialization_error left the parser"); return; }
  }
  __sx_cover(ok ? "accepted" : "rejected"); __sx_observe("ok", (uint64_t)ok); if (ok) __sx_observe("type", (uint64_t)v.type());
  if (mode == M_TOTAL) return;
  int e = R.parse((const unsigned char*)t.data(), (int)t.size(), &root);
  if (e == R_DONTCARE) { if (!ok || root < 0) return; e = R_ACCEPT; }
  if (mode & M_REJECT) { CHECK(e == R_ACCEPT || !ok, "C03 a text that is not JSON was accepted"); }
  if (mode & M_TREE) { CHECK(e != R_ACCEPT || ok, "C02 a valid document was rejected"); if (e == R_ACCEPT && ok) { TreeCmp c(R); bool same = c.eq(root, v); CHECK(same, "C02 the parsed value is not the tree the text denotes"); __sx_cover("compared"); } }
}
// mode, document, size, position; how: 0 the byte there is any byte, 1 any byte is inserted there, 2 two bytes are replaced, 3 the text ends there, 4 appended at the end; 8: after other work
SX_ENTRY(big_text) {
  int mode = __sx_param(0), k = __sx_param(1), n = __sx_param(2), pos = __sx_param(3), how = __sx_param(4); int m[3]; std::string t = bigdoc(k, n, m); int at = pos < 3 ? m[pos] : (int)t.size() - 1; if (how & 8) warm(7);
  switch (how & 7) { case 0: t[(size_t)at] = (char)sym(8, "b"); break; case 1: t.insert((size_t)at, 1, (char)sym(8, "b")); break; case 2: t[(size_t)at] = (char)sym(8, "b"); t[(size_t)at + 1] = (char)sym(8, "b"); break; case 3: t.resize((size_t)at); t += (char)sym(8, "b"); break; default: t += (char)sym(8, "b"); }
  CHECK(t.size() < BYTES_CAP, "harness: too long"); judge(t, mode, (how & 8) != 0);
}
