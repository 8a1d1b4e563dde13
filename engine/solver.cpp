#include "solver.h"
#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Solver::Solver() {}

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

void Solver::canon(E e, std::unordered_map<u32, u32>& ren, std::vector<u32>& order, u64& h0, u64& h1) {
  if (e->op == O_CONST) { h0 = mix(11, e->val * 257 + e->w); h1 = mix(13, e->val * 263 + e->w); return; }
  if (e->cstamp == canonStamp) { h0 = e->ch0; h1 = e->ch1; return; }
  if (e->op == O_VAR) {
    auto it = ren.find(e->lo); u32 n;
    if (it == ren.end()) { n = order.size(); ren[e->lo] = n; order.push_back(e->lo); } else n = it->second;
    h0 = mix(17, n * 67 + e->w); h1 = mix(19, n * 71 + e->w);
  } else {
    h0 = mix(23, e->op * 100003ull + e->w * 1009 + e->lo); h1 = mix(29, e->op * 100019ull + e->w * 1013 + e->lo);
    for (int i = 0; i < 3; i++) if (e->k[i]) { u64 a, b; canon(e->k[i], ren, order, a, b); h0 = mix(h0, a + i); h1 = mix(h1, b + i * 3); }
  }
  e->cstamp = canonStamp; e->ch0 = h0; e->ch1 = h1;
}

z3::expr Solver::bv(E e) { return z3::expr(ctx, tr(e)); }
z3::expr Solver::fp(E e) {
  z3::sort so = e->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24);
  return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, tr(e), so));
}

Z3_ast Solver::tr(E e) {
  if (e->id < memo.size() && memo[e->id]) return memo[e->id];
  Z3_context c = ctx;
  z3::expr r(ctx);
  auto b1 = [&](z3::expr p) { return z3::ite(p, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
  auto K = [&](int i) { return bv(e->k[i]); };
  auto rne = [&]() { return z3::expr(ctx, Z3_mk_fpa_rne(c)); };
  auto rm = [&](Op o) { return z3::expr(ctx, o == O_FCEIL ? Z3_mk_fpa_rtp(c) : o == O_FFLOOR ? Z3_mk_fpa_rtn(c) : o == O_FTRUNC ? Z3_mk_fpa_rtz(c) : Z3_mk_fpa_rne(c)); };
  auto toBV = [&](z3::expr f, unsigned w) {
    z3::expr raw(ctx, Z3_mk_fpa_to_ieee_bv(c, f));
    z3::expr nan = w == 64 ? ctx.bv_val((uint64_t)0x7ff8000000000000ull, 64) : ctx.bv_val((uint64_t)0x7fc00000ull, 32);
    return z3::ite(z3::expr(ctx, Z3_mk_fpa_is_nan(c, f)), nan, raw);
  };
  switch (e->op) {
    case O_CONST: r = ctx.bv_val((uint64_t)e->val, e->w); break;
    case O_VAR: { char n[32]; snprintf(n, 32, "v%u", e->lo); r = ctx.bv_const(n, e->w); break; }
    case O_ADD: r = K(0) + K(1); break; case O_SUB: r = K(0) - K(1); break; case O_MUL: r = K(0) * K(1); break;
    case O_UDIV: r = z3::udiv(K(0), K(1)); break; case O_SDIV: r = K(0) / K(1); break;
    case O_UREM: r = z3::urem(K(0), K(1)); break; case O_SREM: r = z3::srem(K(0), K(1)); break;
    case O_AND: r = K(0) & K(1); break; case O_OR: r = K(0) | K(1); break; case O_XOR: r = e->w == 1 && isC(e->k[1]) ? ~K(0) : (K(0) ^ K(1)); break;
    case O_SHL: r = z3::shl(K(0), K(1)); break; case O_LSHR: r = z3::lshr(K(0), K(1)); break; case O_ASHR: r = z3::ashr(K(0), K(1)); break;
    case O_EQ: r = b1(K(0) == K(1)); break; case O_ULT: r = b1(z3::ult(K(0), K(1))); break; case O_ULE: r = b1(z3::ule(K(0), K(1))); break;
    case O_SLT: r = b1(K(0) < K(1)); break; case O_SLE: r = b1(K(0) <= K(1)); break;
    case O_ITE: r = z3::ite(K(0) == ctx.bv_val(1, 1), K(1), K(2)); break;
    case O_CONCAT: r = z3::concat(K(0), K(1)); break;
    case O_EXTRACT: r = K(0).extract(e->lo + e->w - 1, e->lo); break;
    case O_ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break; case O_SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
    case O_FADD: r = toBV(z3::expr(ctx, Z3_mk_fpa_add(c, rne(), fp(e->k[0]), fp(e->k[1]))), e->w); break;
    case O_FSUB: r = toBV(z3::expr(ctx, Z3_mk_fpa_sub(c, rne(), fp(e->k[0]), fp(e->k[1]))), e->w); break;
    case O_FMUL: r = toBV(z3::expr(ctx, Z3_mk_fpa_mul(c, rne(), fp(e->k[0]), fp(e->k[1]))), e->w); break;
    case O_FDIV: r = toBV(z3::expr(ctx, Z3_mk_fpa_div(c, rne(), fp(e->k[0]), fp(e->k[1]))), e->w); break;
    case O_FEQ: r = b1(z3::expr(ctx, Z3_mk_fpa_eq(c, fp(e->k[0]), fp(e->k[1])))); break;
    case O_FLT: r = b1(z3::expr(ctx, Z3_mk_fpa_lt(c, fp(e->k[0]), fp(e->k[1])))); break;
    case O_FLE: r = b1(z3::expr(ctx, Z3_mk_fpa_leq(c, fp(e->k[0]), fp(e->k[1])))); break;
    case O_FUNO: r = b1(z3::expr(ctx, Z3_mk_fpa_is_nan(c, fp(e->k[0]))) || z3::expr(ctx, Z3_mk_fpa_is_nan(c, fp(e->k[1])))); break;
    case O_FP2SI: r = z3::expr(ctx, Z3_mk_fpa_to_sbv(c, rm(O_FTRUNC), fp(e->k[0]), e->w)); break;
    case O_FP2UI: r = z3::expr(ctx, Z3_mk_fpa_to_ubv(c, rm(O_FTRUNC), fp(e->k[0]), e->w)); break;
    case O_SI2FP: { z3::sort so = e->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); r = toBV(z3::expr(ctx, Z3_mk_fpa_to_fp_signed(c, rne(), K(0), so)), e->w); break; }
    case O_UI2FP: { z3::sort so = e->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); r = toBV(z3::expr(ctx, Z3_mk_fpa_to_fp_unsigned(c, rne(), K(0), so)), e->w); break; }
    case O_FPCONV: { z3::sort so = e->w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); r = toBV(z3::expr(ctx, Z3_mk_fpa_to_fp_float(c, rne(), fp(e->k[0]), so)), e->w); break; }
    case O_FCEIL: case O_FFLOOR: case O_FTRUNC: case O_FRINT: r = toBV(z3::expr(ctx, Z3_mk_fpa_round_to_integral(c, rm(e->op), fp(e->k[0]))), e->w); break;
    case O_FSQRT: r = toBV(z3::expr(ctx, Z3_mk_fpa_sqrt(c, rne(), fp(e->k[0]))), e->w); break;
    case O_SMULO: r = b1(!z3::bvmul_no_overflow(K(0), K(1), true) || !z3::bvmul_no_underflow(K(0), K(1))); break;
    case O_UMULO: r = b1(!z3::bvmul_no_overflow(K(0), K(1), false)); break;
    default: fprintf(stderr, "z3 translate: op %d\n", e->op); abort();
  }
  Z3_inc_ref(c, r);
  if (memo.size() <= e->id) memo.resize(e->id * 2 + 1024, nullptr);
  memo[e->id] = r;
  return r;
}

static bool hasFP(E e, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->op >= O_FADD && e->op <= O_FSQRT) return true;
  for (int i = 0; i < 3; i++) if (e->k[i] && hasFP(e->k[i], seen)) return true;
  return false;
}
static bool hasMul(E e, std::unordered_set<E>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->op == O_MUL || (e->op >= O_UDIV && e->op <= O_SREM) || e->op == O_SMULO || e->op == O_UMULO) return true;
  for (int i = 0; i < 3; i++) if (e->k[i] && hasMul(e->k[i], seen)) return true;
  return false;
}

SatRes Solver::checkRaw(const std::vector<E>& conj, std::vector<std::pair<u32, u64>>& assign) {
  double t0 = now();
  st.z3calls++;
  static bool dmp = getenv("SX_DUMPQ") != nullptr; if (dmp) { fprintf(stderr, "Z3 slice %zu vars", conj.size()); std::unordered_set<u32> vs_; for (E e : conj) for (u32 x : *e->vars) vs_.insert(x); for (u32 x : vs_) fprintf(stderr, " v%u:%d", x, varw[x]); fprintf(stderr, "  Q %s\n", show(conj[0], 14).substr(0, 1500).c_str()); }
  bool fpq = false, mulq = false; { std::unordered_set<E> seen; for (E e : conj) if (hasFP(e, seen)) { fpq = true; break; } }
  { std::unordered_set<E> seen; for (E e : conj) if (hasMul(e, seen)) { mulq = true; break; } }
  SatRes res = R_UNKNOWN;
  try {
    z3::check_result cr; 
    std::unique_ptr<z3::solver> loc; z3::solver* sv;
    bool heavy = fpq || mulq;
    if (heavy) {
      z3::tactic t = fpq ? z3::tactic(ctx, "qffpbv") : z3::tactic(ctx, "qfbv");
      loc.reset(new z3::solver(t.mk_solver())); sv = loc.get();
      z3::params p(ctx); p.set("timeout", timeout_ms); sv->set(p);
    } else {
      if (!s) { s.reset(new z3::solver(ctx, z3::solver::simple())); z3::params p(ctx); p.set("timeout", timeout_ms); s->set(p); }
      sv = s.get(); sv->reset();
    }
    for (E e : conj) {
      // assert as boolean
      z3::expr b = bv(e) == ctx.bv_val(1, 1);
      sv->add(b);
    }
    cr = sv->check();
    if (cr == z3::sat) {
      res = R_SAT;
      z3::model m = sv->get_model();
      std::unordered_set<u32> vs; for (E e : conj) for (u32 x : *e->vars) vs.insert(x);
      for (E e : conj) (void)e;
      for (u32 x : vs) {
        char n[32]; snprintf(n, 32, "v%u", x);
        z3::expr v = m.eval(ctx.bv_const(n, varw[x]), true);
        uint64_t val = 0; if (v.is_numeral()) val = v.get_numeral_uint64();
        assign.push_back({x, val});
      }
    } else if (cr == z3::unsat) res = R_UNSAT;
  } catch (z3::exception& ex) { fprintf(stderr, "z3 exception: %s\n", ex.msg()); res = R_UNKNOWN; }
  double dt = now() - t0; st.z3time += dt; if (dt > st.maxq) st.maxq = dt;
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  return res;
}

// ---- interval layer: sound bounds of every sub-expression from the single-variable constraints of the slice
namespace {
typedef __int128 w128;
struct R { u64 ul, uh; i64 sl, sh; };
struct Interval {
  std::unordered_map<u32, std::pair<u64, u64>> dom; std::unordered_map<E, R> memo;
  static R full(unsigned w) { R r; r.ul = 0; r.uh = maskw(w); r.sl = w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1)); r.sh = w >= 64 ? INT64_MAX : (i64)((1ull << (w - 1)) - 1); return r; }
  static void cross(R& r, unsigned w) {
    u64 sb = 1ull << (w - 1);
    if (r.sl >= 0) { r.ul = std::max(r.ul, (u64)r.sl); r.uh = std::min(r.uh, (u64)r.sh); }
    else if (r.sh < 0) { r.ul = std::max(r.ul, (u64)r.sl & maskw(w)); r.uh = std::min(r.uh, (u64)r.sh & maskw(w)); }
    if (r.uh < sb) { r.sl = std::max(r.sl, (i64)r.ul); r.sh = std::min(r.sh, (i64)r.uh); }
    else if (r.ul >= sb) { r.sl = std::max(r.sl, sext(r.ul, w)); r.sh = std::min(r.sh, sext(r.uh, w)); }
  }
  static R U(u64 l, u64 h, unsigned w) { R r = full(w); r.ul = l; r.uh = h; cross(r, w); return r; }
  static R un(const R& a, const R& b) { R r; r.ul = std::min(a.ul, b.ul); r.uh = std::max(a.uh, b.uh); r.sl = std::min(a.sl, b.sl); r.sh = std::max(a.sh, b.sh); return r; }
  static void setU(R& r, w128 l, w128 h, unsigned w) { if (l >= 0 && h <= (w128)maskw(w)) { r.ul = (u64)l; r.uh = (u64)h; } }
  static void setS(R& r, w128 l, w128 h, unsigned w) { R f = full(w); if (l >= f.sl && h <= f.sh) { r.sl = (i64)l; r.sh = (i64)h; } }
  R bit(int t) { return t < 0 ? full(1) : U((u64)t, (u64)t, 1); }
  R get(E e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    R r = comp(e); memo[e] = r; return r;
  }
  R comp(E e) {
    unsigned w = e->w; R r = full(w);
    if (w > 64) return r;
    switch (e->op) {
      case O_CONST: return U(e->val, e->val, w);
      case O_VAR: { auto it = dom.find(e->lo); if (it != dom.end()) return U(it->second.first, it->second.second, w); return r; }
      case O_ZEXT: { R a = get(e->k[0]); return U(a.ul, a.uh, w); }
      case O_SEXT: { R a = get(e->k[0]); r.sl = a.sl; r.sh = a.sh; cross(r, w); return r; }
      case O_ADD: case O_SUB: { R a = get(e->k[0]), b = get(e->k[1]); bool s = e->op == O_SUB;
        setU(r, (w128)a.ul + (s ? -(w128)b.uh : (w128)b.ul), (w128)a.uh + (s ? -(w128)b.ul : (w128)b.uh), w);
        setS(r, (w128)a.sl + (s ? -(w128)b.sh : (w128)b.sl), (w128)a.sh + (s ? -(w128)b.sl : (w128)b.sh), w);
        if (!s && isC(e->k[1]) && sext(e->k[1]->val, w) < 0) { w128 c = sext(e->k[1]->val, w); setU(r, (w128)a.ul + c, (w128)a.uh + c, w); }
        cross(r, w); return r; }
      case O_MUL: { R a = get(e->k[0]), b = get(e->k[1]);
        if (!a.uh || !b.uh || a.uh <= maskw(w) / b.uh) { r.ul = a.ul * b.ul; r.uh = a.uh * b.uh; }
        w128 p[4] = { (w128)a.sl * b.sl, (w128)a.sl * b.sh, (w128)a.sh * b.sl, (w128)a.sh * b.sh }; setS(r, *std::min_element(p, p + 4), *std::max_element(p, p + 4), w);
        cross(r, w); return r; }
      case O_SMULO: { R a = get(e->k[0]), b = get(e->k[1]); R f = full(e->k[0]->w); w128 p[4] = { (w128)a.sl * b.sl, (w128)a.sl * b.sh, (w128)a.sh * b.sl, (w128)a.sh * b.sh };
        return *std::min_element(p, p + 4) >= f.sl && *std::max_element(p, p + 4) <= f.sh ? bit(0) : r; }
      case O_UMULO: { R a = get(e->k[0]), b = get(e->k[1]); unsigned __int128 p = (unsigned __int128)a.uh * b.uh; return p <= maskw(e->k[0]->w) ? bit(0) : r; }
      case O_UDIV: { R a = get(e->k[0]), b = get(e->k[1]); if (b.ul > 0) return U(a.ul / b.uh, a.uh / b.ul, w); return r; }
      case O_UREM: { R a = get(e->k[0]), b = get(e->k[1]); if (b.ul > 0) return U(0, std::min(a.uh, b.uh - 1), w); return r; }
      case O_SDIV: { R a = get(e->k[0]), b = get(e->k[1]); if (b.sl > 0 && a.sl >= 0) { r.sl = a.sl / b.sh; r.sh = a.sh / b.sl; cross(r, w); } return r; }
      case O_SREM: { R a = get(e->k[0]), b = get(e->k[1]); if (b.sl > 0) { i64 m = b.sh - 1; r.sl = a.sl >= 0 ? 0 : -m; r.sh = a.sh < 0 ? 0 : m; if (a.sl >= 0) r.sh = std::min(r.sh, a.sh); cross(r, w); } return r; }
      case O_AND: { if (w == 1) { R a = get(e->k[0]), b = get(e->k[1]); if (!a.uh || !b.uh) return bit(0); if (a.ul && b.ul) return bit(1); return r; } R a = get(e->k[0]), b = get(e->k[1]); return U(0, std::min(a.uh, b.uh), w); }
      case O_OR: { R a = get(e->k[0]), b = get(e->k[1]); if (w == 1) { if (a.ul || b.ul) return bit(1); if (!a.uh && !b.uh) return bit(0); return r; } u64 m = a.uh | b.uh, h = m; for (int k = 1; k < 64; k <<= 1) h |= h >> k; return U(std::max(a.ul, b.ul), h, w); }
      case O_XOR: { R a = get(e->k[0]), b = get(e->k[1]); if (w == 1) { if (a.ul == a.uh && b.ul == b.uh) return bit((int)(a.ul ^ b.ul)); return r; } u64 h = a.uh | b.uh; for (int k = 1; k < 64; k <<= 1) h |= h >> k; return U(0, h, w); }
      case O_SHL: { R a = get(e->k[0]); if (isC(e->k[1]) && e->k[1]->val < w) { unsigned s = (unsigned)e->k[1]->val; if (a.uh <= maskw(w) >> s) return U(a.ul << s, a.uh << s, w); } return r; }
      case O_LSHR: { R a = get(e->k[0]); if (isC(e->k[1]) && e->k[1]->val < w) return U(a.ul >> e->k[1]->val, a.uh >> e->k[1]->val, w); return U(0, a.uh, w); }
      case O_ASHR: { R a = get(e->k[0]); if (isC(e->k[1]) && e->k[1]->val < w) { r.sl = a.sl >> e->k[1]->val; r.sh = a.sh >> e->k[1]->val; cross(r, w); } return r; }
      case O_EQ: { R a = get(e->k[0]), b = get(e->k[1]); if (a.uh < b.ul || b.uh < a.ul || a.sh < b.sl || b.sh < a.sl) return bit(0); if (a.ul == a.uh && b.ul == b.uh && a.ul == b.ul) return bit(1); return r; }
      case O_ULT: { R a = get(e->k[0]), b = get(e->k[1]); if (a.uh < b.ul) return bit(1); if (a.ul >= b.uh) return bit(0); return r; }
      case O_ULE: { R a = get(e->k[0]), b = get(e->k[1]); if (a.uh <= b.ul) return bit(1); if (a.ul > b.uh) return bit(0); return r; }
      case O_SLT: { R a = get(e->k[0]), b = get(e->k[1]); if (a.sh < b.sl) return bit(1); if (a.sl >= b.sh) return bit(0); return r; }
      case O_SLE: { R a = get(e->k[0]), b = get(e->k[1]); if (a.sh <= b.sl) return bit(1); if (a.sl > b.sh) return bit(0); return r; }
      case O_ITE: { R c = get(e->k[0]); if (c.ul) return get(e->k[1]); if (!c.uh) return get(e->k[2]); return un(get(e->k[1]), get(e->k[2])); }
      case O_CONCAT: { R a = get(e->k[0]), b = get(e->k[1]); unsigned lw = e->k[1]->w; if (a.ul == a.uh) return U(a.ul << lw | b.ul, a.uh << lw | b.uh, w); return U(a.ul << lw, a.uh << lw | maskw(lw), w); }
      case O_EXTRACT: { R a = get(e->k[0]); u64 l = a.ul >> e->lo, h = a.uh >> e->lo; if (h <= maskw(w)) return U(l, h, w); if (e->lo == 0) { R f = full(w); if (a.sl >= f.sl && a.sh <= f.sh) { r.sl = a.sl; r.sh = a.sh; cross(r, w); } } return r; }
      default: return r;
    }
  }
  void bound(E e, bool pos) {      // bounds of a wide variable from a constraint
    if (e->op == O_AND && e->w == 1 && pos) { bound(e->k[0], true); bound(e->k[1], true); return; }
    if (e->op == O_XOR && e->w == 1 && isT(e->k[1])) { bound(e->k[0], !pos); return; }
    if (e->op == O_OR && e->w == 1 && !pos) { bound(e->k[0], false); bound(e->k[1], false); return; }
    if (e->op != O_ULT && e->op != O_ULE && !(e->op == O_EQ && pos)) return;
    E a = e->k[0], b = e->k[1]; bool sw = false; if (isC(a)) { std::swap(a, b); sw = true; }
    if (!isC(b)) return;
    E v = a; while (v->op == O_ZEXT) v = v->k[0];
    if (v->op != O_VAR) return;
    auto it = dom.find(v->lo); if (it == dom.end()) it = dom.emplace(v->lo, std::make_pair((u64)0, maskw(v->w))).first;
    u64& lo = it->second.first; u64& hi = it->second.second; u64 c = b->val;
    if (e->op == O_EQ) { lo = std::max(lo, c); hi = std::min(hi, c); return; }
    bool lt = e->op == O_ULT;                       // v < c, or c < v when swapped; negated: c <= v, v <= c
    if (!sw) { if (pos) { if (lt) { if (c) hi = std::min(hi, c - 1); } else hi = std::min(hi, c); } else { if (lt) lo = std::max(lo, c); else if (c < ~0ull) lo = std::max(lo, c + 1); } }
    else { if (pos) { if (lt) { if (c < ~0ull) lo = std::max(lo, c + 1); } else lo = std::max(lo, c); } else { if (lt) hi = std::min(hi, c); else if (c) hi = std::min(hi, c - 1); } }
  }
};
}

// Decides cheap cases: one byte-sized variable (complete evaluation of the formula), or refutation by intervals.
SatRes Solver::fast(const std::vector<E>& slice, const VarSet* vs, std::vector<std::pair<u32, u64>>& assign) {
  std::vector<u64> m; u32 top = vs->empty() ? 0 : vs->back(); 
  if (vs->size() == 1 && varw[(*vs)[0]] <= 8) {
    u32 v = (*vs)[0]; m.assign(v + 1, 0);
    for (u64 x = 0; x < (1ull << varw[v]); x++) { m[v] = x; u64 st_ = newStamp(); bool ok = true; for (E e : slice) if (evalE(e, m, st_) != 1) { ok = false; break; } if (ok) { assign.push_back({v, x}); st.enum8++; return R_SAT; } }
    st.enum8++; return R_UNSAT;
  }
  if (vs->size() > 64) return R_UNKNOWN;
  Interval I; m.assign(top + 1, 0);
  for (u32 v : *vs) if (varw[v] <= 8) {
    std::vector<E> un; for (size_t i = 1; i < slice.size(); i++) if (slice[i]->vars->size() == 1 && (*slice[i]->vars)[0] == v) un.push_back(slice[i]);
    if (un.empty()) continue;
    u64 key = v; for (E e : un) key = mix(key, e->id + 1);
    auto it = domCache.find(key);
    if (it == domCache.end()) {
      u64 lo = 1, hi = 0; bool any = false;
      for (u64 x = 0; x < (1ull << varw[v]); x++) { m[v] = x; u64 st_ = newStamp(); bool ok = true; for (E e : un) if (evalE(e, m, st_) != 1) { ok = false; break; } if (ok) { if (!any) lo = x; hi = x; any = true; } }
      if (!any) return R_UNSAT;
      it = domCache.emplace(key, std::make_pair(lo, hi)).first;
    }
    I.dom[v] = it->second;
  }
  for (size_t i = 1; i < slice.size(); i++) if (slice[i]->vars->size() == 1 && varw[(*slice[i]->vars)[0]] > 8) I.bound(slice[i], true);
  for (auto& d : I.dom) if (d.second.first > d.second.second) return R_UNKNOWN;
  if (I.get(slice[0]).uh == 0) { st.interval++; return R_UNSAT; }
  return R_UNKNOWN;
}

SatRes Solver::check(const std::vector<E>& cons, E q, const Model& base, ModelP* out) {
  st.queries++;
  if (isF(q)) return R_UNSAT;
  // independence slice
  std::vector<E> slice{q};
  std::vector<char> used(cons.size(), 0);
  const VarSet* vs = q->vars;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
      const VarSet* cv = cons[i]->vars; bool hit = false;
      size_t a = 0, b = 0;
      while (a < vs->size() && b < cv->size()) { if ((*vs)[a] == (*cv)[b]) { hit = true; break; } if ((*vs)[a] < (*cv)[b]) a++; else b++; }
      if (hit) { used[i] = 1; slice.push_back(cons[i]); if (P.uni(vs, cv) != vs) { vs = P.uni(vs, cv); ch = true; } if (cons[i] == q) {} }
    }
  }
  E nq = mkNot(q);
  for (size_t i = 1; i < slice.size(); i++) if (slice[i] == nq) { st.evalhits++; return R_UNSAT; }
  // slice order: path order for canonical key
  std::sort(slice.begin() + 1, slice.end(), [](E a, E b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin() + 1, slice.end()), slice.end());
  std::unordered_map<u32, u32> ren; std::vector<u32> order; canonStamp++;
  u64 h0, h1; canon(q, ren, order, h0, h1);
  // sum-combine of conjunct hashes is order independent only up to renaming; keep sequential
  for (size_t i = 1; i < slice.size(); i++) { u64 a, b; canon(slice[i], ren, order, a, b); h0 = mix(h0, a); h1 = mix(h1, b); }
  Key k{h0, h1};
  auto it = cache.find(k);
  SatRes r;
  if (it != cache.end()) {
    st.cachehits++;
    r = it->second.r;
    if (r == R_SAT && out) { auto m = std::make_shared<Model>(base); for (size_t i = 0; i < order.size(); i++) { if (m->v.size() <= order[i]) m->v.resize(order[i] + 1, 0); m->v[order[i]] = it->second.vals[i]; } m->stamp = newStamp(); *out = m; }
    return r;
  }
  std::vector<std::pair<u32, u64>> as;
  r = strict ? R_UNKNOWN : fast(slice, vs, as);
  if (r == R_UNKNOWN) r = checkRaw(slice, as);
  if (r == R_UNKNOWN) return r;
  Ent e; e.r = r;
  if (r == R_SAT) {
    e.vals.resize(order.size(), 0);
    for (auto& p : as) { auto f = ren.find(p.first); if (f != ren.end()) e.vals[f->second] = p.second; }
    auto m = std::make_shared<Model>(base);
    for (auto& p : as) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
    m->stamp = newStamp();
    for (E c : slice) if (evalE(c, m->v, m->stamp) != 1) { fprintf(stderr, "ENGINE BUG: model does not satisfy %s\n", show(c, 12).c_str()); st.unknown++; return R_UNKNOWN; }
    if (out) *out = m;
  }
  cache.emplace(k, std::move(e));
  return r;
}
