// Hash-consed bit-vector / floating-point expression DAG (widths 1..64).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point over bit patterns (operand width 32 or 64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FP2SI, O_FP2UI, O_SI2FP, O_UI2FP, O_FPCONV, O_FCEIL, O_FFLOOR, O_FTRUNC, O_FRINT, O_FSQRT,
  O_SMULO, O_UMULO
};

typedef std::vector<u32> VarSet;

struct Expr {
  Op op; u8 w; u32 id; u32 lo; // lo: extract low bit, var id
  u64 val;                     // const value
  const Expr* k[3];
  const VarSet* vars;
  size_t h;
  mutable u64 stamp = 0, ev = 0;   // evaluation memo
  mutable u64 cstamp = 0, ch0 = 0, ch1 = 0; // canonical hash memo
  mutable u64 depth = 0;
};
typedef const Expr* E;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static inline double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float asf(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline u64 fbits(float f) { u32 v; memcpy(&v, &f, 4); return v; }
static inline u64 canonnan(u64 v, unsigned w) {
  if (w == 64) { if (std::isnan(asd(v))) return 0x7ff8000000000000ull; }
  else if (std::isnan(asf(v))) return 0x7fc00000ull;
  return v;
}

// concrete semantics shared by interpreter and evaluator
static inline u64 fpbin(Op op, u64 a, u64 b, unsigned w) {
  if (w == 64) {
    double x = asd(a), y = asd(b), r = 0;
    switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
      case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; default: abort(); }
    return canonnan(dbits(r), 64);
  }
  float x = asf(a), y = asf(b), r = 0;
  switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
    case O_FDIV: r = x / y; break; case O_FREM: r = fmodf(x, y); break; default: abort(); }
  return canonnan(fbits(r), 32);
}
static inline u64 fpcmp(Op op, u64 a, u64 b, unsigned w) {
  double x = w == 64 ? asd(a) : asf(a), y = w == 64 ? asd(b) : asf(b);
  switch (op) { case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y;
    case O_FUNO: return std::isnan(x) || std::isnan(y); default: abort(); }
}
static inline u64 fpun(Op op, u64 a, unsigned w) {
  if (w == 64) { double x = asd(a), r;
    switch (op) { case O_FCEIL: r = ceil(x); break; case O_FFLOOR: r = floor(x); break; case O_FTRUNC: r = trunc(x); break;
      case O_FRINT: r = nearbyint(x); break; case O_FSQRT: r = sqrt(x); break; default: abort(); }
    return canonnan(dbits(r), 64); }
  float x = asf(a), r;
  switch (op) { case O_FCEIL: r = ceilf(x); break; case O_FFLOOR: r = floorf(x); break; case O_FTRUNC: r = truncf(x); break;
    case O_FRINT: r = nearbyintf(x); break; case O_FSQRT: r = sqrtf(x); break; default: abort(); }
  return canonnan(fbits(r), 32);
}
static inline u64 fp2int(bool sg, u64 a, unsigned fw, unsigned w) {
  double x = fw == 64 ? asd(a) : asf(a);
  // out-of-range is poison in LLVM; x86 semantics used for the concrete value
  if (sg) { if (!(x > -9223372036854777856.0 && x < 9223372036854775808.0)) return 0x8000000000000000ull & maskw(w);
            return (u64)(i64)x & maskw(w); }
  if (!(x > -1.0 && x < 18446744073709551616.0)) return 0x8000000000000000ull & maskw(w);
  return (u64)x & maskw(w);
}
static inline u64 int2fp(bool sg, u64 a, unsigned w, unsigned fw) {
  if (fw == 64) return dbits(sg ? (double)sext(a, w) : (double)(a & maskw(w)));
  return fbits(sg ? (float)sext(a, w) : (float)(a & maskw(w)));
}
static inline u64 fpconv(u64 a, unsigned fw, unsigned tw) {
  if (fw == tw) return a;
  return fw == 64 ? canonnan(fbits((float)asd(a)), 32) : canonnan(dbits((double)asf(a)), 64);
}
static inline u64 binop(Op op, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w); a &= m; b &= m;
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { i64 x = sext(a, w), y = sext(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(0 - (u64)x) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sext(a, w), y = sext(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { i64 x = sext(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sext(a, w) < sext(b, w); case O_SLE: return sext(a, w) <= sext(b, w);
    case O_SMULO: { __int128 r = (__int128)sext(a, w) * sext(b, w); return r != (__int128)sext((u64)r & m, w); }
    case O_UMULO: { unsigned __int128 r = (unsigned __int128)a * b; return r > m; }
    default: abort();
  }
}

struct ExprPool {
  struct H { size_t operator()(E e) const { return e->h; } };
  struct Q { bool operator()(E a, E b) const {
    return a->op == b->op && a->w == b->w && a->lo == b->lo && a->val == b->val && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
  std::unordered_set<E, H, Q> tab;
  struct VH { size_t operator()(const VarSet* v) const { size_t h = 1469598103934665603ull; for (u32 x : *v) h = (h ^ x) * 1099511628211ull; return h; } };
  struct VQ { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
  std::unordered_set<const VarSet*, VH, VQ> vtab;
  std::unordered_map<u64, const VarSet*> unionMemo;
  const VarSet* empty;
  std::vector<E> all;
  u32 nextId = 0;
  ExprPool() { empty = internVS(VarSet()); tab.reserve(1 << 16); }
  const VarSet* internVS(const VarSet& v) { auto it = vtab.find(&v); if (it != vtab.end()) return *it; auto* n = new VarSet(v); vtab.insert(n); return n; }
  const VarSet* uni(const VarSet* a, const VarSet* b) {
    if (a == b || b->empty()) return a; if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    u64 key = (u64)a * 1000003ull ^ (u64)b;
    // memo on pointer pair (collision checked by recomputation being cheap is skipped: use map of pair)
    static std::unordered_map<u64, std::vector<std::pair<std::pair<const VarSet*, const VarSet*>, const VarSet*>>> memo;
    auto& v = memo[key];
    for (auto& p : v) if (p.first.first == a && p.first.second == b) return p.second;
    VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    auto* n = internVS(r); v.push_back({{a, b}, n}); return n;
  }
  E mk(Op op, unsigned w, u32 lo, u64 val, E a, E b, E c) {
    Expr t; t.op = op; t.w = (u8)w; t.lo = lo; t.val = val; t.k[0] = a; t.k[1] = b; t.k[2] = c;
    size_t h = op * 0x9E3779B97F4A7C15ull + w * 131 + lo * 10007;
    h ^= val * 0xff51afd7ed558ccdull; h ^= h >> 29;
    for (int i = 0; i < 3; i++) if (t.k[i]) h = (h ^ (t.k[i]->id + 1)) * 0xc4ceb9fe1a85ec53ull + i, h ^= h >> 31;
    t.h = h;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    Expr* n = new Expr(t); n->id = nextId++;
    const VarSet* vs = empty;
    if (op == O_VAR) { VarSet v{lo}; vs = internVS(v); }
    else for (int i = 0; i < 3; i++) if (t.k[i]) { vs = uni(vs, t.k[i]->vars); n->depth = std::max(n->depth, t.k[i]->depth + 1); }
    n->vars = vs; tab.insert(n); all.push_back(n);
    return n;
  }
};
extern ExprPool P;

static inline bool isC(E e) { return e->op == O_CONST; }
static inline E mkC(u64 v, unsigned w) { return P.mk(O_CONST, w, 0, v & maskw(w), 0, 0, 0); }
static inline E mkVar(u32 id, unsigned w) { return P.mk(O_VAR, w, id, 0, 0, 0, 0); }
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);
E mkFUn(Op op, E a, unsigned w);
static inline bool isT(E e) { return isC(e) && e->val == 1; }
static inline bool isF(E e) { return isC(e) && e->val == 0; }
E mkAnd(E a, E b); E mkOr(E a, E b);

u64 evalE(E e, const std::vector<u64>& model, u64 stamp);
std::string show(E e, int depth = 6);
// unsigned interval [lo,hi] from structure only
void urange(E e, u64& lo, u64& hi, int d = 0);
