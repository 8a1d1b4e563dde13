#include "expr.h"
ExprPool P;

E mkNot(E a) { return mkBin(O_XOR, a, mkC(1, 1)); }
E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
E mkOr(E a, E b) { return mkBin(O_OR, a, b); }

// ite tree all of whose leaves are constants, with few leaves
static int constLeaves(E e, int lim) {
  if (isC(e)) return 1;
  if (e->op != O_ITE || lim <= 0) return 1000;
  int a = constLeaves(e->k[1], lim - 1); if (a > 300) return 1000;
  return a + constLeaves(e->k[2], lim - 1);
}
static E mapIte(E e, E other, Op op, bool left) {
  if (isC(e)) return left ? mkBin(op, e, other) : mkBin(op, other, e);
  return mkIte(e->k[0], mapIte(e->k[1], other, op, left), mapIte(e->k[2], other, op, left));
}

void urange(E e, u64& lo, u64& hi, int d) {
  lo = 0; hi = maskw(e->w);
  if (isC(e)) { lo = hi = e->val; return; }
  if (d > 12) return;
  u64 a, b, c, f;
  switch (e->op) {
    case O_ZEXT: urange(e->k[0], lo, hi, d + 1); return;
    case O_ITE: urange(e->k[1], a, b, d + 1); urange(e->k[2], c, f, d + 1); lo = std::min(a, c); hi = std::max(b, f); return;
    case O_AND: if (isC(e->k[1])) { urange(e->k[0], a, b, d + 1); hi = std::min(e->k[1]->val, b); } return;
    case O_UREM: if (isC(e->k[1]) && e->k[1]->val) { hi = e->k[1]->val - 1; } return;
    case O_LSHR: if (isC(e->k[1]) && e->k[1]->val < e->w) { urange(e->k[0], a, b, d + 1); lo = a >> e->k[1]->val; hi = b >> e->k[1]->val; } return;
    case O_UDIV: if (isC(e->k[1]) && e->k[1]->val) { urange(e->k[0], a, b, d + 1); lo = a / e->k[1]->val; hi = b / e->k[1]->val; } return;
    case O_ADD: urange(e->k[0], a, b, d + 1); urange(e->k[1], c, f, d + 1);
      if ((unsigned __int128)b + f <= maskw(e->w)) { lo = a + c; hi = b + f; } return;
    case O_MUL: urange(e->k[0], a, b, d + 1); urange(e->k[1], c, f, d + 1);
      if ((unsigned __int128)b * f <= maskw(e->w)) { lo = a * c; hi = b * f; } return;
    case O_SHL: if (isC(e->k[1]) && e->k[1]->val < e->w) { urange(e->k[0], a, b, d + 1); unsigned s = e->k[1]->val;
      if (((unsigned __int128)b << s) <= maskw(e->w)) { lo = a << s; hi = b << s; } } return;
    case O_CONCAT: urange(e->k[0], a, b, d + 1); urange(e->k[1], c, f, d + 1); lo = (a << e->k[1]->w) | c; hi = (b << e->k[1]->w) | f; return;
    default: return;
  }
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(a->val >> lo, w);
  switch (a->op) {
    case O_EXTRACT: return mkExtract(a->k[0], a->lo + lo, w);
    case O_CONCAT: { unsigned lw = a->k[1]->w;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case O_ZEXT: { unsigned iw = a->k[0]->w; if (lo >= iw) return mkC(0, w); if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, iw - lo), w); }
    case O_SEXT: { unsigned iw = a->k[0]->w; if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo < iw) return mkSExt(mkExtract(a->k[0], lo, iw - lo), w); break; }
    case O_ITE: if (isC(a->k[1]) || isC(a->k[2]) ) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case O_AND: case O_OR: case O_XOR: if (isC(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case O_SHL: if (isC(a->k[1])) { unsigned s = a->k[1]->val; if (lo >= s) return mkExtract(a->k[0], lo - s, w); if (lo + w <= s) return mkC(0, w); } break;
    case O_LSHR: if (isC(a->k[1])) { unsigned s = a->k[1]->val; if (lo + s + w <= a->w) return mkExtract(a->k[0], lo + s, w); if (lo + s >= a->w) return mkC(0, w); } break;
    default: break;
  }
  return P.mk(O_EXTRACT, w, lo, 0, a, 0, 0);
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkC((hi->val << lo->w) | lo->val, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w)
    return mkExtract(lo->k[0], lo->lo, hi->w + lo->w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->lo == lo->w) return mkExtract(lo, 0, hi->w + lo->w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, hi->w + lo->w);
  if (lo->op == O_CONCAT) { // right-assoc: (hi ++ lo.hi) ++ lo.lo when mergeable
    E t = lo->k[0]; if (hi->op == O_EXTRACT && t->op == O_EXTRACT && hi->k[0] == t->k[0] && hi->lo == t->lo + t->w) return mkConcat(mkConcat(hi, t), lo->k[1]);
    if (isC(hi) && isC(t)) return mkConcat(mkConcat(hi, t), lo->k[1]); }
  if (hi->op == O_CONCAT) { E t = hi->k[1]; if (lo->op == O_EXTRACT && t->op == O_EXTRACT && t->k[0] == lo->k[0] && t->lo == lo->lo + lo->w) return mkConcat(hi->k[0], mkConcat(t, lo));
    if (isC(t) && isC(lo)) return mkConcat(hi->k[0], mkConcat(t, lo)); }
  // zero-extended hi
  if (hi->op == O_ZEXT) return mkZExt(mkConcat(hi->k[0], lo), hi->w + lo->w);
  // sext(x) bytes
  if (hi->op == O_SEXT && hi->k[0]->op == O_EXTRACT && hi->k[0]->w == 1) { }
  return P.mk(O_CONCAT, hi->w + lo->w, 0, 0, hi, lo, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkC(a->val, w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == O_ITE && (isC(a->k[1]) && isC(a->k[2]))) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  if (a->op == O_ITE && constLeaves(a, 40) <= 64) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return P.mk(O_ZEXT, w, 0, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkC((u64)sext(a->val, a->w), w);
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  u64 lo, hi; urange(a, lo, hi); if (hi < (1ull << (a->w - 1))) return mkZExt(a, w);
  if (a->op == O_ITE && constLeaves(a, 40) <= 64) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return P.mk(O_SEXT, w, 0, 0, a, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isT(a)) return mkOr(c, b); if (isF(a)) return mkAnd(mkNot(c), b);
    if (isT(b)) return mkOr(mkNot(c), a); if (isF(b)) return mkAnd(c, a);
  }
  if (c->op == O_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return P.mk(O_ITE, a->w, 0, 0, c, a, b);
}
static inline bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ || o == O_SMULO || o == O_UMULO; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w; assert(a->w == b->w);
  bool pred = op == O_EQ || (op >= O_ULT && op <= O_SLE) || op == O_SMULO || op == O_UMULO || (op >= O_FEQ && op <= O_FUNO);
  unsigned rw = pred ? 1 : w;
  if (isC(a) && isC(b)) {
    if (op >= O_FADD && op <= O_FREM) return mkC(fpbin(op, a->val, b->val, w), rw);
    if (op >= O_FEQ && op <= O_FUNO) return mkC(fpcmp(op, a->val, b->val, w), rw);
    return mkC(binop(op, a->val, b->val, w), rw);
  }
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u64 m = maskw(w);
  // push ops with a constant through small constant-leaf ite trees
  if (isC(b) && a->op == O_ITE && constLeaves(a, 60) <= 80) {
    if (op != O_AND || w != 1) return mapIte(a, b, op, true);
  }
  if (isC(a) && b->op == O_ITE && constLeaves(b, 60) <= 80) return mapIte(b, a, op, false);
  u64 al, ah, bl, bh;
  switch (op) {
    case O_ADD:
      if (isC(b)) { if (!b->val) return a;
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkC(a->k[1]->val + b->val, w));
        // zext(x + c1) not merged
      }
      if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
      if (b->op == O_MUL && isC(b->k[1]) && b->k[1]->val == m && b->k[0] == a) return mkC(0, w);
      break;
    case O_SUB:
      if (a == b) return mkC(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkC(0 - b->val, w));
      if (a->op == O_ADD && a->k[0] == b) return a->k[1];
      if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b->k[0]), mkC(a->k[1]->val - b->k[1]->val, w));
      if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkC(0 - b->k[1]->val, w));
      if (b->op == O_SUB && isC(a) && !a->val && isC(b->k[0]) && !b->k[0]->val) return b->k[1];
      break;
    case O_MUL:
      if (isC(b)) { if (!b->val) return b; if (b->val == 1) return a;
        if (a->op == O_MUL && isC(a->k[1])) return mkBin(O_MUL, a->k[0], mkC(a->k[1]->val * b->val, w));
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_MUL, a->k[0], b), mkC(a->k[1]->val * b->val, w)); }
      break;
    case O_UDIV: if (isC(b) && b->val == 1) return a; if (isC(b) && b->val) { urange(a, al, ah); if (ah < b->val) return mkC(0, w); } break;
    case O_UREM: if (isC(b) && b->val == 1) return mkC(0, w); if (isC(b) && b->val) { urange(a, al, ah); if (ah < b->val) return a; } break;
    case O_AND:
      if (isC(b)) { if (!b->val) return b; if (b->val == m) return a;
        if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkC(a->k[1]->val & b->val, w));
        // low mask
        u64 v = b->val; if ((v & (v + 1)) == 0) { unsigned n = __builtin_popcountll(v); return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; return mkZExt(mkBin(O_AND, a->k[0], mkC(v, iw)), w); }
      }
      if (a == b) return a;
      if (w == 1) { if (mkNot(a) == b) return mkC(0, 1);
        if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; }
      break;
    case O_OR:
      if (isC(b)) { if (!b->val) return a; if (b->val == m) return b; }
      if (a == b) return a;
      if (w == 1) { if (mkNot(a) == b) return mkC(1, 1);
        if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b; }
      // disjoint or: concat shape  (zext(x) << n) | zext(y), y fits in n bits
      for (int s = 0; s < 2 && w > 1; s++) { E x = s ? b : a, y = s ? a : b;
        if (x->op == O_SHL && isC(x->k[1]) && x->k[1]->val < w) { unsigned n = x->k[1]->val; if (n) { urange(y, bl, bh); if (bh <= maskw(n))
          return mkConcat(mkExtract(x->k[0], 0, w - n), mkExtract(y, 0, n)); } } }
      break;
    case O_XOR:
      if (isC(b)) { if (!b->val) return a; if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkC(a->k[1]->val ^ b->val, w));
        if (w == 1) { // not
          if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
          if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
          if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
          if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
        } }
      if (a == b) return mkC(0, w);
      break;
    case O_SHL:
      if (isC(b)) { if (!b->val) return a; if (b->val >= w) return mkC(0, w);
        if (a->op == O_SHL && isC(a->k[1])) { u64 s = a->k[1]->val + b->val; return s >= w ? mkC(0, w) : mkBin(O_SHL, a->k[0], mkC(s, w)); } }
      if (isC(a) && !a->val) return a;
      break;
    case O_LSHR:
      if (isC(b)) { if (!b->val) return a; if (b->val >= w) return mkC(0, w); unsigned s = b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      if (isC(a) && !a->val) return a;
      break;
    case O_ASHR:
      if (isC(b)) { if (!b->val) return a; unsigned s = b->val >= w ? w - 1 : b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case O_EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
      if (isC(b)) {
        switch (a->op) {
          case O_ZEXT: { unsigned iw = a->k[0]->w; if (b->val > maskw(iw)) return mkC(0, 1); return mkBin(O_EQ, a->k[0], mkC(b->val, iw)); }
          case O_SEXT: { unsigned iw = a->k[0]->w; if ((u64)(sext(b->val, iw)) != (u64)sext(b->val, w)) return mkC(0, 1); return mkBin(O_EQ, a->k[0], mkC(b->val, iw)); }
          case O_ADD: if (isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkC(b->val - a->k[1]->val, w)); break;
          case O_SUB: if (isC(a->k[0])) return mkBin(O_EQ, a->k[1], mkC(a->k[0]->val - b->val, w)); break;
          case O_XOR: if (isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkC(b->val ^ a->k[1]->val, w)); break;
          case O_CONCAT: { unsigned lw = a->k[1]->w; return mkAnd(mkBin(O_EQ, a->k[0], mkC(b->val >> lw, a->k[0]->w)), mkBin(O_EQ, a->k[1], mkC(b->val, lw))); }
          case O_SHL: if (isC(a->k[1])) { unsigned s = a->k[1]->val; if (b->val & maskw(s)) return mkC(0, 1); return mkBin(O_EQ, mkExtract(a->k[0], 0, w - s), mkC(b->val >> s, w - s)); } break;
          case O_AND: if (isC(a->k[1]) && (b->val & ~a->k[1]->val)) return mkC(0, 1); break;
          case O_OR: if (isC(a->k[1]) && (a->k[1]->val & ~b->val)) return mkC(0, 1); break;
          case O_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkBin(O_EQ, a->k[1], b), mkBin(O_EQ, a->k[2], b)); break;
          default: break;
        }
        urange(a, al, ah); if (b->val < al || b->val > ah) return mkC(0, 1);
      } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT) {
          if (a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
          unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(O_EQ, mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mkBin(O_EQ, a->k[0], b->k[0]);
      }
      break;
    case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
      if (a == b) return mkC(op == O_ULE || op == O_SLE, 1);
      bool sg = op == O_SLT || op == O_SLE;
      urange(a, al, ah); urange(b, bl, bh);
      if (sg) { u64 half = 1ull << (w - 1); if (ah < half && bh < half) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b); }
      if (!sg) {
        if (op == O_ULT) { if (ah < bl) return mkC(1, 1); if (al >= bh) return mkC(0, 1); }
        else { if (ah <= bl) return mkC(1, 1); if (al > bh) return mkC(0, 1); }
        if (a->op == O_ZEXT && isC(b)) { unsigned iw = a->k[0]->w; if (b->val <= maskw(iw)) return mkBin(op, a->k[0], mkC(b->val, iw)); }
        if (b->op == O_ZEXT && isC(a)) { unsigned iw = b->k[0]->w; if (a->val <= maskw(iw)) return mkBin(op, mkC(a->val, iw), b->k[0]); }
        if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); if (n < w) return mkBin(op, mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
        if (op == O_ULT && isC(b) && b->val == 1) return mkBin(O_EQ, a, mkC(0, w));
        if (op == O_ULT && isC(a) && a->val == 0) return mkNot(mkBin(O_EQ, b, mkC(0, w)));
        if (op == O_ULE && isC(b)) return b->val == m ? mkC(1, 1) : mkBin(O_ULT, a, mkC(b->val + 1, w));
        if (op == O_ULE && isC(a) && a->val) return mkBin(O_ULT, mkC(a->val - 1, w), b);
      } else {
        if (a->op == O_SEXT && isC(b)) { unsigned iw = a->k[0]->w; i64 v = sext(b->val, w); if (v >= -(1ll << (iw - 1)) && v < (1ll << (iw - 1))) return mkBin(op, a->k[0], mkC((u64)v, iw)); if (v < 0) return mkC(0, 1); return mkC(1, 1); }
        if (b->op == O_SEXT && isC(a)) { unsigned iw = b->k[0]->w; i64 v = sext(a->val, w); if (v >= -(1ll << (iw - 1)) && v < (1ll << (iw - 1))) return mkBin(op, mkC((u64)v, iw), b->k[0]); if (v < 0) return mkC(1, 1); return mkC(0, 1); }
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        if (op == O_SLE && isC(b) && sext(b->val, w) != (i64)(m >> 1)) return mkBin(O_SLT, a, mkC(b->val + 1, w));
        if (op == O_SLE && isC(a) && a->val != (1ull << (w - 1))) return mkBin(O_SLT, mkC(a->val - 1, w), b);
      }
      break; }
    case O_UMULO: if (isC(b)) { if (b->val < 2) return mkC(0, 1); return mkBin(O_ULT, mkC(m / b->val, w), a); }
      urange(a, al, ah); urange(b, bl, bh); if ((unsigned __int128)ah * bh <= m) return mkC(0, 1); break;
    case O_SMULO: if (isC(b)) { i64 c = sext(b->val, w); if (c == 0 || c == 1) return mkC(0, 1);
        i64 mx = (i64)(m >> 1), mn = -mx - 1; i64 lo, hi; // lo <= a <= hi  no overflow
        if (c > 0) { hi = mx / c; lo = mn / c; } else if (c == -1) { hi = mx; lo = -mx; } else { lo = mx / c; hi = mn / c; }
        return mkOr(mkBin(O_SLT, a, mkC((u64)lo, w)), mkBin(O_SLT, mkC((u64)hi, w), a)); }
      break;
    default: break;
  }
  return P.mk(op, rw, 0, 0, a, b, 0);
}
E mkFUn(Op op, E a, unsigned w) {
  if (isC(a)) {
    switch (op) {
      case O_FP2SI: return mkC(fp2int(true, a->val, a->w, w), w);
      case O_FP2UI: return mkC(fp2int(false, a->val, a->w, w), w);
      case O_SI2FP: return mkC(int2fp(true, a->val, a->w, w), w);
      case O_UI2FP: return mkC(int2fp(false, a->val, a->w, w), w);
      case O_FPCONV: return mkC(fpconv(a->val, a->w, w), w);
      default: return mkC(fpun(op, a->val, w), w);
    }
  }
  if (a->op == O_ITE && constLeaves(a, 60) <= 80) return mkIte(a->k[0], mkFUn(op, a->k[1], w), mkFUn(op, a->k[2], w));
  if (op == O_SI2FP) { u64 lo, hi; urange(a, lo, hi); if (hi < (1ull << (a->w - 1))) op = O_UI2FP; }
  if (op == O_UI2FP && a->op == O_ZEXT) return mkFUn(O_UI2FP, a->k[0], w);
  return P.mk(op, w, 0, 0, a, 0, 0);
}

u64 evalE(E e, const std::vector<u64>& M, u64 st) {
  if (e->op == O_CONST) return e->val;
  if (e->op == O_VAR) return e->lo < M.size() ? M[e->lo] & maskw(e->w) : 0;
  if (e->stamp == st) return e->ev;
  u64 r;
  switch (e->op) {
    case O_ITE: r = evalE(e->k[0], M, st) ? evalE(e->k[1], M, st) : evalE(e->k[2], M, st); break;
    case O_CONCAT: r = (evalE(e->k[0], M, st) << e->k[1]->w) | evalE(e->k[1], M, st); break;
    case O_EXTRACT: r = (evalE(e->k[0], M, st) >> e->lo) & maskw(e->w); break;
    case O_ZEXT: r = evalE(e->k[0], M, st); break;
    case O_SEXT: r = (u64)sext(evalE(e->k[0], M, st), e->k[0]->w) & maskw(e->w); break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r = fpbin(e->op, evalE(e->k[0], M, st), evalE(e->k[1], M, st), e->w); break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: r = fpcmp(e->op, evalE(e->k[0], M, st), evalE(e->k[1], M, st), e->k[0]->w); break;
    case O_FP2SI: r = fp2int(true, evalE(e->k[0], M, st), e->k[0]->w, e->w); break;
    case O_FP2UI: r = fp2int(false, evalE(e->k[0], M, st), e->k[0]->w, e->w); break;
    case O_SI2FP: r = int2fp(true, evalE(e->k[0], M, st), e->k[0]->w, e->w); break;
    case O_UI2FP: r = int2fp(false, evalE(e->k[0], M, st), e->k[0]->w, e->w); break;
    case O_FPCONV: r = fpconv(evalE(e->k[0], M, st), e->k[0]->w, e->w); break;
    case O_FCEIL: case O_FFLOOR: case O_FTRUNC: case O_FRINT: case O_FSQRT: r = fpun(e->op, evalE(e->k[0], M, st), e->w); break;
    case O_AND: { u64 x = evalE(e->k[0], M, st); r = x ? (x & evalE(e->k[1], M, st)) : 0; break; }
    default: r = binop(e->op, evalE(e->k[0], M, st), evalE(e->k[1], M, st), e->k[0]->w); break;
  }
  e->stamp = st; e->ev = r; return r;
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext",
"fadd","fsub","fmul","fdiv","frem","feq","flt","fle","funo","fp2si","fp2ui","si2fp","ui2fp","fpconv","fceil","ffloor","ftrunc","frint","fsqrt","smulo","umulo"};
std::string show(E e, int d) {
  char b[64];
  if (e->op == O_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->op == O_VAR) { snprintf(b, 64, "v%u:%d", e->lo, e->w); return b; }
  if (d == 0) return "..";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, 64, "[%u+%d]", e->lo, e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], d - 1);
  return s + ")";
}
