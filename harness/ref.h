// Independent recogniser and tree builder for JSON over code points, and comparison of its tree with a json::value.
#pragma once
#include "common.h"

#ifndef REF_NODES
#define REF_NODES 64
#endif
enum { R_REJECT = 0, R_ACCEPT = 1, R_DONTCARE = 2 };
enum { K_NULL, K_TRUE, K_FALSE, K_INT, K_FLOAT, K_STR, K_ARR, K_OBJ };

struct RNode { int kind; bool neg, big; uint64_t mag; int s, sn; int ks, kn; int child, next; int lex, lexn; };

struct Ref {
  static const uint32_t END = 0xFFFFFFFEu, BAD = 0xFFFFFFFFu;
  const unsigned char* p; int n; int i; uint32_t cur; bool strict, utf32; const uint32_t* w;
  bool dontcare; int depth;
  RNode nd[REF_NODES]; int nn; uint32_t pool[BYTES_CAP]; int np; unsigned char lex[BYTES_CAP]; int nl;
  bool saw_ws;

  explicit Ref(bool st = false) : p(nullptr), n(0), i(0), cur(0), strict(st), utf32(false), w(nullptr), dontcare(false), depth(0), nn(0), np(0), nl(0), saw_ws(false) {}

  void adv() {
    if (cur == BAD || cur == END) return;
    if (i >= n) { cur = END; return; }
    if (utf32) { uint32_t c = w[i++]; cur = is_scalar_value(c) ? c : BAD; return; }
    uint32_t c = 0; int k = ref_dec8(p + i, n - i, &c);
    if (!k) { cur = BAD; return; }
    i += k; cur = c;
  }
  bool ws() { return cur == ' ' || cur == '\t' || cur == '\n' || cur == '\r'; }
  bool skip() {       // whitespace and comments; false = malformed
    for (;;) {
      if (ws()) { saw_ws = true; adv(); continue; }
      if (cur != '/' || strict) return cur != BAD;
      adv();
      if (cur == '/') {
        adv();
        while (cur != '\n' && cur != '\r') { if (cur == END) return true; if (cur == BAD) return false; if (cur == 0) { dontcare = true; return false; } adv(); }
      } else if (cur == '*') {
        adv(); bool star = false;
        for (;;) {
          if (cur == END || cur == BAD) return false;
          if (cur == 0) { dontcare = true; return false; }
          if (star && cur == '/') break;
          star = cur == '*'; adv();
        }
        adv();
      } else return false;
    }
  }
  bool lit(const char* t, int kind, int id) { for (; *t; t++) { if (cur != (uint32_t)(unsigned char)*t) return false; adv(); } nd[id].kind = kind; return cur != BAD; }
  bool dig() { return cur >= '0' && cur <= '9'; }
  void keep() { lex[nl++] = (unsigned char)cur; adv(); }
  bool number(int id) {
    RNode& d = nd[id]; d.kind = K_INT; d.neg = false; d.big = false; d.mag = 0; d.lex = nl;
    if (cur == '-' || cur == '+') { if (cur == '+' && strict) return false; d.neg = cur == '-'; keep(); }
    if (!dig()) return false;
    bool zero = cur == '0';
    if (zero) keep();
    else while (dig()) { uint64_t g = cur - '0'; if (d.mag > (UINT64_MAX - g) / 10) d.big = true; else d.mag = d.mag * 10 + g; keep(); }
    bool frac = false;
    if (cur == '.') { d.kind = K_FLOAT; frac = true; keep(); if (!dig()) return false; while (dig()) keep(); }
    if (cur == 'e' || cur == 'E') {
      bool dc = zero && !frac; d.kind = K_FLOAT; keep();
      if (cur == '+' || cur == '-') keep(); else if (cur == '0') dc = true;
      if (!dig()) return false;
      while (dig()) keep();
      if (dc && !strict) dontcare = true;
    }
    d.lexn = nl - d.lex;
    if (d.kind == K_INT && d.mag > (d.neg ? 0x8000000000000000ull : 0x7FFFFFFFFFFFFFFFull)) d.big = true;
    return cur != BAD;
  }
  int hex4() {
    int v = 0;
    for (int k = 0; k < 4; k++) {
      int h; if (dig()) h = (int)cur - '0'; else if (cur >= 'a' && cur <= 'f') h = (int)cur - 'a' + 10; else if (cur >= 'A' && cur <= 'F') h = (int)cur - 'A' + 10; else return -1;
      v = v * 16 + h; adv();
    }
    return v;
  }
  bool string(int* s, int* sn) {
    *s = np; adv();
    for (;;) {
      if (cur == '"') break;
      if (cur == END || cur == BAD || cur < 0x20) return false;
      if (cur != '\\') { pool[np++] = cur; adv(); continue; }
      adv();
      switch (cur) {
        case '"': pool[np++] = '"'; adv(); break;
        case '\\': pool[np++] = '\\'; adv(); break;
        case '/': pool[np++] = '/'; adv(); break;
        case 'b': pool[np++] = 8; adv(); break;
        case 'f': pool[np++] = 12; adv(); break;
        case 'n': pool[np++] = 10; adv(); break;
        case 'r': pool[np++] = 13; adv(); break;
        case 't': pool[np++] = 9; adv(); break;
        case 'u': {
          adv(); int h = hex4(); if (h < 0) return false;
          if (h >= 0xDC00 && h <= 0xDFFF) return false;
          if (h >= 0xD800 && h <= 0xDBFF) {
            if (cur != '\\') return false; adv(); if (cur != 'u') return false; adv();
            int l = hex4(); if (l < 0xDC00 || l > 0xDFFF) return false;
            pool[np++] = 0x10000u + ((uint32_t)(h - 0xD800) << 10) + (uint32_t)(l - 0xDC00);
          } else pool[np++] = (uint32_t)h;
          break;
        }
        default: return false;
      }
    }
    *sn = np - *s; adv(); return cur != BAD;
  }
  // parse one value; returns node id or -1
  int value() {
    if (!skip()) return -1;
    int id = nn++; nd[id].child = -1; nd[id].next = -1; nd[id].kn = -1; nd[id].neg = nd[id].big = false;
    switch (cur) {
      case 't': return lit("true", K_TRUE, id) ? id : -1;
      case 'f': return lit("false", K_FALSE, id) ? id : -1;
      case 'n': return lit("null", K_NULL, id) ? id : -1;
      case '"': nd[id].kind = K_STR; return string(&nd[id].s, &nd[id].sn) ? id : -1;
      case '[': case '{': {
        bool obj = cur == '{'; uint32_t close = obj ? '}' : ']'; nd[id].kind = obj ? K_OBJ : K_ARR;
        adv(); int last = -1; bool first = true;
        for (;;) {
          if (!skip()) return -1;
          if (cur == close) { if (!first && strict) return -1; break; }    // after a comma: tolerated trailing comma
          int ks = 0, kn = -1;
          if (obj) { if (cur != '"') return -1; if (!string(&ks, &kn) || !skip() || cur != ':') return -1; adv(); }
          int c = value(); if (c < 0) return -1;
          nd[c].ks = ks; nd[c].kn = kn;
          if (last < 0) nd[id].child = c; else nd[last].next = c;
          last = c; first = false;
          if (!skip()) return -1;
          if (cur == ',') { adv(); continue; }
          if (cur == close) break;
          return -1;
        }
        adv(); return cur == BAD ? -1 : id;
      }
      default: return number(id) ? id : -1;
    }
  }
  int run(int* root) {
    adv(); int id = value();
    bool ok = id >= 0 && skip() && (cur == END || (cur == 0 && !strict));
    *root = id; if (dontcare) return R_DONTCARE;
    return ok ? R_ACCEPT : R_REJECT;
  }
  int parse(const unsigned char* b, int len, int* root) { p = b; n = len; return run(root); }
  int parse32(const uint32_t* b, int len, int* root) { w = b; utf32 = true; n = len; return run(root); }

  bool same_key(int a, int b) { if (nd[a].kn != nd[b].kn) return false; for (int k = 0; k < nd[a].kn; k++) if (pool[nd[a].ks + k] != pool[nd[b].ks + k]) return false; return true; }
  std::string utf8(int s, int sn) { Bytes o; for (int k = 0; k < sn; k++) ref_enc8(o, pool[s + k]); return o.str(); }
};

static inline bool bytes_eq(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }

enum { T_OK = 0, T_KIND, T_VALUE, T_SIZE, T_KEY };
// Compares the value with the reference tree. float values are compared by cmp_float if given, else only by kind.
struct TreeCmp {
  Ref& r; int why; bool floats_only_kind;
  explicit TreeCmp(Ref& rr) : r(rr), why(T_OK), floats_only_kind(true) {}
  bool bad(int w) { why = w; return false; }
  bool eq(int id, const jv& v) {
    RNode& d = r.nd[id];
    switch (d.kind) {
      case K_NULL: return v.is_null() ? true : bad(T_KIND);
      case K_TRUE: case K_FALSE: if (!v.is_bool()) return bad(T_KIND); return v.get<bool>() == (d.kind == K_TRUE) ? true : bad(T_VALUE);
      case K_INT:
        if (d.big) return v.is_floating() ? true : bad(T_KIND);
        if (!v.is_integer()) return bad(T_KIND);
        return (uint64_t)v.get<int64_t>() == (d.neg ? (uint64_t)0 - d.mag : d.mag) ? true : bad(T_VALUE);
      case K_FLOAT: return v.is_floating() ? true : bad(T_KIND);
      case K_STR: if (!v.is_string()) return bad(T_KIND); return bytes_eq(v.get<std::string>(), r.utf8(d.s, d.sn)) ? true : bad(T_VALUE);
      case K_ARR: {
        if (!v.is_array()) return bad(T_KIND);
        size_t k = 0; for (int c = d.child; c >= 0; c = r.nd[c].next, k++) { if (k >= v.size()) return bad(T_SIZE); if (!eq(c, v[k])) return false; }
        return k == v.size() ? true : bad(T_SIZE);
      }
      default: {
        if (!v.is_object()) return bad(T_KIND);
        size_t k = 0;
        for (int c = d.child; c >= 0; c = r.nd[c].next) {
          bool dup = false; for (int e = d.child; e != c; e = r.nd[e].next) if (r.same_key(e, c)) dup = true;
          if (dup) continue;
          k++;
          std::string key = r.utf8(r.nd[c].ks, r.nd[c].kn);
          if (v.count(key) != 1) return bad(T_KEY);
          if (!eq(c, v[key])) return false;
        }
        return k == v.size() ? true : bad(T_SIZE);
      }
    }
  }
};
