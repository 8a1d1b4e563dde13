#pragma once
#include "expr.h"
#include <z3++.h>
#include <memory>

struct Model { // assignment var id -> value, ref counted via shared_ptr
  std::vector<u64> v; u64 stamp;
};
typedef std::shared_ptr<Model> ModelP;

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverStats { u64 queries = 0, z3calls = 0, cachehits = 0, sat = 0, unsat = 0, unknown = 0, evalhits = 0, enum8 = 0, interval = 0; double z3time = 0; double maxq = 0; };

struct Solver {
  z3::context ctx;
  std::unique_ptr<z3::solver> s;
  SolverStats st;
  unsigned timeout_ms = 30000;
  std::vector<Z3_ast> memo; // expr id -> ast (ref'd)
  std::unordered_map<u32, u8> varw;
  u64 stampCounter = 1;
  std::string dumpDir; // when set: dump slow queries
  Solver();
  // Is conj(cons slice relevant to q) && q satisfiable? On SAT fills 'out' as base model overlaid.
  SatRes check(const std::vector<E>& cons, E q, const Model& base, ModelP* out);
  SatRes fast(const std::vector<E>& slice, const VarSet* vs, std::vector<std::pair<u32, u64>>& assign);
  std::unordered_map<u64, std::pair<u64, u64>> domCache;
  SatRes checkRaw(const std::vector<E>& conj, std::vector<std::pair<u32, u64>>& assign);
  bool strict = false;            // property assertions: always decided by Z3
  u64 newStamp() { return ++stampCounter; }
private:
  Z3_ast tr(E e);
  z3::expr fp(E e); z3::expr bv(E e);
  struct Key { u64 a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
  struct KH { size_t operator()(const Key& k) const { return k.a ^ (k.b * 31); } };
  struct Ent { SatRes r; std::vector<u64> vals; };
  std::unordered_map<Key, Ent, KH> cache;
  u64 canonStamp = 0;
  void canon(E e, std::unordered_map<u32, u32>& ren, std::vector<u32>& order, u64& h0, u64& h1);
};
