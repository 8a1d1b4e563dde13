// sx: bounded symbolic executor for LLVM IR (C++ programs), deciding every branch and assertion with Z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Unsupported { std::string msg; };
[[noreturn]] static void unsup(const std::string& s) { throw Unsupported{s}; }

// ---------------------------------------------------------------- ref counting
template <class T> struct Rc {
  T* p = nullptr;
  Rc() {} explicit Rc(T* q) : p(q) { if (p) p->rc++; }
  Rc(const Rc& o) : p(o.p) { if (p) p->rc++; } Rc(Rc&& o) noexcept : p(o.p) { o.p = nullptr; }
  Rc& operator=(const Rc& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Rc& operator=(Rc&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~Rc() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
  T* uniq() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

struct Val { u64 c; E e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(E e) { return isC(e) ? Val{e->val, nullptr} : Val{0, e}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }

// ---------------------------------------------------------------- memory
enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
enum { M_UNINIT = 0, M_CONC = 1, M_SYM = 2 };
struct Obj {
  int rc = 0; u32 size; ObjKind kind; bool ro = false, exempt = false, shared = false;
  std::vector<u8> b, m; std::vector<E> s;
  Obj(u32 n, ObjKind k) : size(n), kind(k), b(n, 0), m(n, M_UNINIT) {}
};
struct Chunk { int rc = 0; Rc<Obj> o[64]; };
static const unsigned OBJSHIFT = 24;
static const u64 MAXOBJ = 1ull << OBJSHIFT;

// ---------------------------------------------------------------- decoded code
enum IOp : u8 {
  I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET,
  I_UNREACHABLE, I_RESUME, I_LPAD, I_EXTRACTV, I_INSERTV, I_COPY, I_INTRIN, I_UNSUP, I_ATOMICRMW, I_CMPXCHG, I_NOP
};
enum Builtin : int {
  B_NONE = 0, B_SYM, B_ASSUME, B_ASSERT, B_FAIL, B_COVER, B_OBSERVE, B_OBSERVE_BYTES, B_CONCRETIZE, B_IS_SYM, B_PARAM, B_MALLOC, B_FREE,
  B_UNWIND, B_FMTD, B_TERMINATE, B_LIVE, B_ENGINE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_WMEMCMP, B_UBSAN, B_NOPCALL, B_CEIL, B_FLOOR, B_FABS,
  B_SQRT, B_FMOD, B_TRUNC, B_RINT, B_FMTI_DIGITS, B_MEMCHR, B_POW, B_OBJSIZE, B_FORGET, B_SYMBUF, B_TICK, B_FREEZE, B_INIT, B_STATIC_LIVE
};
struct FnInfo;
struct Edge { int pc; std::vector<std::pair<int, int>> copies; }; // dst slot, operand
struct Inst {
  IOp op; u8 sub = 0; u8 w = 0, w2 = 0; int dst = -1; int n = 1; // n: number of slots
  int a = 0, b = 0, c = 0;
  std::vector<int> ops; // extra operands / leaf widths etc
  std::vector<i64> imm;
  std::vector<Edge> edges;
  FnInfo* callee = nullptr; int bi = 0; bool invoke = false; bool fl = false;
  const Instruction* I = nullptr; std::string msg;
  bool hit = false;
};
struct FnInfo {
  const Function* F; bool decoded = false; bool hit = false; u64 addr = 0; int bi = 0;
  std::string name;
  std::vector<Inst> code; std::vector<Val> consts; int nslots = 0; std::vector<std::pair<int,int>> args; // slot,count
  std::vector<std::pair<int,u64>> byval; // arg index,size
  u64 calls = 0;
};

struct Frame {
  int rc = 0; FnInfo* f = nullptr; int pc = 0; std::vector<Val> r; std::vector<u32> allocas; u64 excPtr = 0, excSel = 0, va = 0;
};
struct Input { u32 var; u8 w; std::string name; };
struct Obs { std::string tag; std::vector<Val> bytes; std::vector<u8> w; };

struct State {
  std::vector<Rc<Chunk>> mem; u32 nobj = 0; u32 liveHeap = 0;
  std::vector<Rc<Frame>> st;
  std::vector<E> cons; ModelP model;
  std::vector<Input> inputs; u32 nvars = 0, nundef = 0;
  std::vector<Obs> obs;
  u64 ninst = 0; u32 depth = 0; u32 freeze = 0; int initDepth = 0; std::string why;
  std::set<std::string> covers;
};

// ---------------------------------------------------------------- engine
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<Input, u64>> inputs; std::string obs; u64 ninst; };
struct Trace { std::vector<std::pair<Input, u64>> inputs; std::string obs; };

struct Engine {
  std::unique_ptr<Module> M; const DataLayout* DL;
  Solver S;
  std::unordered_map<const Function*, FnInfo*> fns; std::unordered_map<u32, FnInfo*> fnByObj;
  std::unordered_map<const GlobalVariable*, u64> gaddr;
  std::map<std::pair<u32, u32>, u32> varIntern; std::vector<bool> isUndefVar; u32 nextVar = 0;
  std::vector<int> params;
  u64 maxInst = 20000000; double timeLimit = 600, t0; u64 maxPaths = ~0ull; int maxViol = 8; u64 maxForkConc = 4096;
  size_t nSamples = 24; u64 rng = 1;
  std::deque<State*> work;
  // results
  u64 paths = 0, forks = 0, insts = 0, infeasible = 0, assumeKilled = 0, asserts = 0, assertQ = 0, errPaths = 0; u64 maxDepth = 0, maxPathInst = 0;
  std::vector<Violation> viols; std::set<std::string> violKeys; std::set<std::string> incomplete; std::map<std::string, u64> covers; std::vector<Trace> samples; u64 sampleSeen = 0;
  u64 leakIgnored = 0; bool leakCheck = true;
  std::vector<u32> roots; u32 entryObj = 0;   // writable globals of the code under test; first object created by the entry
  u64 siVT = 0, vmiVT = 0, clsVT = 0; std::map<u64, u64> typeIds;
  std::map<std::string, bool> unsupportedSeen;
  bool stopFirst = false; bool trace = false;

  // ---- objects
  Rc<Obj>* slot(State& s, u32 id) { u32 c = id >> 6; if (c >= s.mem.size() || !s.mem[c]) return nullptr; return &s.mem[c]->o[id & 63]; }
  Obj* ro(State& s, u32 id) { Rc<Obj>* p = slot(s, id); return p ? p->p : nullptr; }
  Obj* rw(State& s, u32 id) { u32 c = id >> 6; Chunk* k = s.mem[c].uniq(); return k->o[id & 63].uniq(); }
  u32 newObj(State& s, u64 size, ObjKind k) {
    if (size >= MAXOBJ) unsup("object too large");
    u32 id = s.nobj++; u32 c = id >> 6;
    if (c >= s.mem.size()) s.mem.push_back(Rc<Chunk>(new Chunk()));
    if (!s.mem[c]) s.mem[c] = Rc<Chunk>(new Chunk());
    s.mem[c].uniq()->o[id & 63] = Rc<Obj>(new Obj((u32)size, k));
    if (k == K_HEAP) { s.liveHeap++; if (s.initDepth && s.freeze) ro(s, id)->shared = true; }
    return id;
  }
  void delObj(State& s, u32 id) { u32 c = id >> 6; s.mem[c].uniq()->o[id & 63].drop(); }
  static u64 addrOf(u32 id) { return (u64)(id + 1) << OBJSHIFT; }
  static u32 idOf(u64 a) { return (u32)(a >> OBJSHIFT) - 1; }

  // ---- constants
  unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) { unsigned n = t->getIntegerBitWidth(); if (n > 64) unsup("integer wider than 64 bits"); return n; }
    if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
    std::string s; raw_string_ostream o(s); t->print(o); unsup("type " + o.str());
  }
  void leaves(Type* t, u64 off, std::vector<std::pair<unsigned, u64>>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + L->getElementOffset(i), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
    out.push_back({widthOf(t), off});
  }
  unsigned nslots(Type* t) { if (t->isVoidTy()) return 0; if (!t->isAggregateType()) return 1; std::vector<std::pair<unsigned, u64>> l; leaves(t, 0, l); return l.size(); }

  u64 constAddr(const Constant* c) { Val v = constScalar(c); return v.c; }
  Val constScalar(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) unsup("wide const"); return VC(ci->getZExtValue()); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { return VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return VC(0);
    if (auto* f = dyn_cast<Function>(c)) return VC(fn(f)->addr);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return VC(gaddr.at(g));
    if (auto* al = dyn_cast<GlobalAlias>(c)) return constScalar(al->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) unsup("gep constexpr"); return VC(constScalar(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return VC(constScalar(ce->getOperand(0)).c & maskw(widthOf(ce->getType())));
        case Instruction::Trunc: return VC(constScalar(ce->getOperand(0)).c & maskw(widthOf(ce->getType())));
        case Instruction::Add: return VC((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskw(widthOf(ce->getType())));
        case Instruction::Sub: return VC((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskw(widthOf(ce->getType())));
        case Instruction::ICmp: { auto p = (CmpInst::Predicate)ce->getPredicate(); u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
          if (p == CmpInst::ICMP_EQ) return VC(a == b); if (p == CmpInst::ICMP_NE) return VC(a != b); }
        default: break;
      }
    }
    std::string s; raw_string_ostream o(s); c->print(o); unsup("constant " + o.str());
  }
  void constFlat(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (!t->isAggregateType()) { out.push_back(constScalar(c)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nslots(t); for (unsigned i = 0; i < n; i++) out.push_back(VC(0)); return; }
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constFlat(c->getAggregateElement(i), out);
  }
  void writeInit(Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (u64 i = 0; i < sz; i++) o->b[off + i] = 0, o->m[off + i] = M_CONC; return; }
    if (isa<UndefValue>(c)) { for (u64 i = 0; i < sz; i++) o->b[off + i] = 0, o->m[off + i] = M_CONC; return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { if (cd->isString() || cd->getElementByteSize() == 1) { StringRef r = cd->getRawDataValues(); for (u64 i = 0; i < r.size(); i++) o->b[off + i] = r[i], o->m[off + i] = M_CONC; return; }
      u64 es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) writeInit(o, off + i * es, cd->getElementAsConstant(i)); return; }
    if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (u64 i = 0; i < sz; i++) o->b[off + i] = 0, o->m[off + i] = M_CONC; for (unsigned i = 0; i < st->getNumElements(); i++) writeInit(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) writeInit(o, off + i * es, c->getAggregateElement(i)); return; }
    Val v = constScalar(c); unsigned w = widthOf(t); for (unsigned i = 0; i < (w + 7) / 8; i++) o->b[off + i] = (u8)(v.c >> (8 * i)), o->m[off + i] = M_CONC;
  }

  FnInfo* fn(const Function* F) { auto it = fns.find(F); return it == fns.end() ? nullptr : it->second; }

  static int builtinId(StringRef n) {
    static const std::map<std::string, int> t = {
      {"__sx_sym", B_SYM}, {"__sx_assume", B_ASSUME}, {"__sx_assert", B_ASSERT}, {"__sx_fail", B_FAIL}, {"__sx_cover", B_COVER}, {"__sx_observe", B_OBSERVE},
      {"__sx_observe_bytes", B_OBSERVE_BYTES}, {"__sx_concretize", B_CONCRETIZE}, {"__sx_is_symbolic", B_IS_SYM}, {"__sx_param", B_PARAM}, {"__sx_malloc", B_MALLOC}, {"__sx_free", B_FREE},
      {"__sx_unwind", B_UNWIND}, {"__sx_fmt_double", B_FMTD}, {"__sx_terminate", B_TERMINATE}, {"__sx_live", B_LIVE}, {"__sx_engine", B_ENGINE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE},
      {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"ceil", B_CEIL}, {"floor", B_FLOOR}, {"fabs", B_FABS}, {"sqrt", B_SQRT}, {"fmod", B_FMOD}, {"trunc", B_TRUNC}, {"rint", B_RINT}, {"nearbyint", B_RINT},
      {"__sx_forget_leaks", B_FORGET}, {"__sx_sym_buf", B_SYMBUF}, {"__sx_tick", B_TICK}, {"__sx_wmemcmp_eq", B_WMEMCMP}, {"__sx_pow", B_POW}, {"__sx_freeze", B_FREEZE}, {"__sx_init", B_INIT}, {"__sx_static_live", B_STATIC_LIVE} };
    auto it = t.find(n.str()); if (it != t.end()) return it->second;
    if (n.startswith("__ubsan_handle_")) return B_UBSAN;
    return B_NONE;
  }

  void load(const std::string& path, LLVMContext& C) {
    SMDiagnostic err; M = parseIRFile(path, err, C);
    if (!M) { err.print("sx", errs()); exit(3); }
    DL = &M->getDataLayout();
  }
  State* initial() {
    State* s = new State();
    s->model = std::make_shared<Model>(); s->model->stamp = S.newStamp();
    for (Function& F : *M) { FnInfo* f = new FnInfo(); f->F = &F; f->name = F.getName().str(); f->bi = builtinId(F.getName()); u32 id = newObj(*s, 1, K_FUNC); f->addr = addrOf(id); fns[&F] = f; fnByObj[id] = f; }
    for (GlobalVariable& G : M->globals()) {
      u64 sz = 64; if (G.getValueType()->isSized()) sz = DL->getTypeAllocSize(G.getValueType());
      if (!G.hasInitializer()) sz = std::max<u64>(sz, 256);
      u32 id = newObj(*s, sz, K_GLOBAL); gaddr[&G] = addrOf(id);
      if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVT = addrOf(id) + 16;
      if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVT = addrOf(id) + 16;
      if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") clsVT = addrOf(id) + 16;
    }
    for (GlobalVariable& G : M->globals()) if (G.hasInitializer()) { Obj* o = rw(*s, idOf(gaddr[&G])); writeInit(o, 0, G.getInitializer()); o->ro = G.isConstant(); bool rt = G.hasAttribute("data-section") || G.hasAttribute("bss-section"); o->exempt = G.isThreadLocal() || rt; if (!rt && !o->ro && G.hasName() /* not the sanitizer's source locations */) roots.push_back(idOf(gaddr[&G])); }
    return s;
  }

  // ---- decoding
  struct Dec { FnInfo* f; std::unordered_map<const Value*, int> slotOf; std::unordered_map<u64, int> constIdx; };
  int opd(Dec& d, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<Val> fl; constFlat(c, fl);
      int base = d.f->consts.size(); for (auto& x : fl) d.f->consts.push_back(x);
      if (fl.empty()) d.f->consts.push_back(VC(0));
      return -1 - base;   // consts laid out contiguously: operand i-th leaf = -1-(base+i)
    }
    auto it = d.slotOf.find(v); if (it == d.slotOf.end()) { unsup("operand"); } return it->second;
  }
  static int opdAt(int o, int i) { return o >= 0 ? o + i : o - i; }
  void decode(FnInfo* f) {
    f->decoded = true; const Function& F = *f->F; Dec d; d.f = f;
    int ns = 0;
    for (auto& A : F.args()) { int n = nslots(A.getType()); d.slotOf[&A] = ns; f->args.push_back({ns, n}); if (A.hasByValAttr()) f->byval.push_back({(int)A.getArgNo(), DL->getTypeAllocSize(A.getParamByValType())}); ns += n; }
    for (auto& B : F) for (auto& I : B) { if (I.getType()->isVoidTy()) continue; int n = 1; try { n = nslots(I.getType()); } catch (Unsupported&) { n = 1; } d.slotOf[&I] = ns; ns += n; }
    f->nslots = ns;
    std::unordered_map<const BasicBlock*, int> start; std::vector<std::pair<size_t, std::vector<const BasicBlock*>>> fix;
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) { Edge e; e.pc = -1; for (auto& P : to->phis()) { const Value* v = P.getIncomingValueForBlock(from); int n = nslots(P.getType()); int o = opd(d, v); for (int i = 0; i < n; i++) e.copies.push_back({d.slotOf[&P] + i, opdAt(o, i)}); } return e; };
    for (auto& B : F) {
      start[&B] = f->code.size();
      for (auto& I : B) {
        if (isa<PHINode>(I)) continue;
        Inst in; in.I = &I; in.op = I_NOP; std::vector<const BasicBlock*> targets;
        auto addEdge = [&](const BasicBlock* to) { in.edges.push_back(edge(&B, to)); targets.push_back(to); };
        try {
          if (!I.getType()->isVoidTy()) { in.dst = d.slotOf[&I]; in.n = nslots(I.getType()); } else in.n = 0;
          if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            in.a = opd(d, bo->getOperand(0)); in.b = opd(d, bo->getOperand(1)); in.w = widthOf(I.getType());
            switch (bo->getOpcode()) {
              case Instruction::Add: in.op = I_BIN; in.sub = O_ADD; break; case Instruction::Sub: in.op = I_BIN; in.sub = O_SUB; break; case Instruction::Mul: in.op = I_BIN; in.sub = O_MUL; break;
              case Instruction::UDiv: in.op = I_BIN; in.sub = O_UDIV; break; case Instruction::SDiv: in.op = I_BIN; in.sub = O_SDIV; break; case Instruction::URem: in.op = I_BIN; in.sub = O_UREM; break; case Instruction::SRem: in.op = I_BIN; in.sub = O_SREM; break;
              case Instruction::And: in.op = I_BIN; in.sub = O_AND; break; case Instruction::Or: in.op = I_BIN; in.sub = O_OR; break; case Instruction::Xor: in.op = I_BIN; in.sub = O_XOR; break;
              case Instruction::Shl: in.op = I_BIN; in.sub = O_SHL; break; case Instruction::LShr: in.op = I_BIN; in.sub = O_LSHR; break; case Instruction::AShr: in.op = I_BIN; in.sub = O_ASHR; break;
              case Instruction::FAdd: in.op = I_FBIN; in.sub = O_FADD; break; case Instruction::FSub: in.op = I_FBIN; in.sub = O_FSUB; break; case Instruction::FMul: in.op = I_FBIN; in.sub = O_FMUL; break;
              case Instruction::FDiv: in.op = I_FBIN; in.sub = O_FDIV; break; case Instruction::FRem: in.op = I_FBIN; in.sub = O_FREM; break; default: unsup("binop");
            }
          } else if (auto* u = dyn_cast<UnaryOperator>(&I)) { in.op = I_FNEG; in.a = opd(d, u->getOperand(0)); in.w = widthOf(I.getType());
          } else if (auto* ic = dyn_cast<ICmpInst>(&I)) { in.op = I_ICMP; in.sub = ic->getPredicate(); in.a = opd(d, ic->getOperand(0)); in.b = opd(d, ic->getOperand(1)); in.w = 1; in.w2 = widthOf(ic->getOperand(0)->getType());
          } else if (auto* fc = dyn_cast<FCmpInst>(&I)) { in.op = I_FCMP; in.sub = fc->getPredicate(); in.a = opd(d, fc->getOperand(0)); in.b = opd(d, fc->getOperand(1)); in.w = 1; in.w2 = widthOf(fc->getOperand(0)->getType());
          } else if (auto* ca = dyn_cast<CastInst>(&I)) { in.op = I_CAST; in.sub = ca->getOpcode(); in.a = opd(d, ca->getOperand(0)); in.w = widthOf(I.getType()); in.w2 = widthOf(ca->getSrcTy());
          } else if (auto* se = dyn_cast<SelectInst>(&I)) { in.op = I_SELECT; in.a = opd(d, se->getCondition()); in.b = opd(d, se->getTrueValue()); in.c = opd(d, se->getFalseValue());
            std::vector<std::pair<unsigned, u64>> l; leaves(I.getType(), 0, l); for (auto& x : l) in.ops.push_back(x.first);
          } else if (auto* ld = dyn_cast<LoadInst>(&I)) { in.op = I_LOAD; in.a = opd(d, ld->getPointerOperand()); std::vector<std::pair<unsigned, u64>> l; leaves(I.getType(), 0, l); for (auto& x : l) { in.ops.push_back(x.first); in.imm.push_back(x.second); }
          } else if (auto* s = dyn_cast<StoreInst>(&I)) { in.op = I_STORE; in.fl = s->isAtomic(); in.a = opd(d, s->getPointerOperand()); in.b = opd(d, s->getValueOperand()); std::vector<std::pair<unsigned, u64>> l; leaves(s->getValueOperand()->getType(), 0, l); for (auto& x : l) { in.ops.push_back(x.first); in.imm.push_back(x.second); }
          } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { in.op = I_GEP; in.a = opd(d, g->getPointerOperand()); i64 off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
              const Value* ix = it.getOperand();
              if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
              else { i64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto* c = dyn_cast<ConstantInt>(ix)) off += es * c->getSExtValue(); else { in.ops.push_back(opd(d, ix)); in.ops.push_back(widthOf(ix->getType())); in.imm.push_back(es); } }
            }
            in.imm.insert(in.imm.begin(), off);
          } else if (auto* al = dyn_cast<AllocaInst>(&I)) { in.op = I_ALLOCA; in.imm.push_back(DL->getTypeAllocSize(al->getAllocatedType())); in.a = opd(d, al->getArraySize());
          } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isUnconditional()) { in.op = I_BR; addEdge(br->getSuccessor(0)); } else { in.op = I_CBR; in.a = opd(d, br->getCondition()); addEdge(br->getSuccessor(0)); addEdge(br->getSuccessor(1)); }
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { in.op = I_SWITCH; in.a = opd(d, sw->getCondition()); in.w2 = widthOf(sw->getCondition()->getType()); 
            addEdge(sw->getDefaultDest()); std::map<const BasicBlock*, int> idx; idx[sw->getDefaultDest()] = 0;
            for (auto& c : sw->cases()) { const BasicBlock* t = c.getCaseSuccessor(); auto it = idx.find(t); int k; if (it == idx.end()) { k = in.edges.size(); idx[t] = k; addEdge(t); } else k = it->second; in.imm.push_back((i64)c.getCaseValue()->getZExtValue()); in.ops.push_back(k); }
          } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            if (auto* inv = dyn_cast<InvokeInst>(&I)) { in.invoke = true; addEdge(inv->getNormalDest()); addEdge(inv->getUnwindDest()); }
            decodeCall(d, in, cb);
          } else if (auto* rt = dyn_cast<ReturnInst>(&I)) { in.op = I_RET; if (rt->getReturnValue()) { in.a = opd(d, rt->getReturnValue()); in.n = nslots(rt->getReturnValue()->getType()); } else in.n = 0;
          } else if (isa<UnreachableInst>(I)) { in.op = I_UNREACHABLE;
          } else if (auto* rs = dyn_cast<ResumeInst>(&I)) { in.op = I_RESUME; in.a = opd(d, rs->getValue());
          } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { in.op = I_LPAD; in.fl = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) in.imm.push_back((i64)constAddr(lp->getClause(i))); else in.imm.push_back(-1); }
          } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { in.op = I_COPY; int o = opd(d, ev->getAggregateOperand()); int off = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); in.a = opdAt(o, off);
          } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { in.op = I_INSERTV; in.a = opd(d, iv->getAggregateOperand()); in.b = opd(d, iv->getInsertedValueOperand()); in.c = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices()); in.imm.push_back(nslots(iv->getInsertedValueOperand()->getType()));
          } else if (auto* fz = dyn_cast<FreezeInst>(&I)) { in.op = I_COPY; in.a = opd(d, fz->getOperand(0));
          } else if (auto* ar = dyn_cast<AtomicRMWInst>(&I)) { in.op = I_ATOMICRMW; in.sub = ar->getOperation(); in.a = opd(d, ar->getPointerOperand()); in.b = opd(d, ar->getValOperand()); in.w = widthOf(I.getType());
          } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { in.op = I_CMPXCHG; in.a = opd(d, cx->getPointerOperand()); in.b = opd(d, cx->getCompareOperand()); in.c = opd(d, cx->getNewValOperand()); in.w = widthOf(cx->getCompareOperand()->getType());
          } else if (isa<FenceInst>(I)) { in.op = I_NOP;
          } else { std::string s; raw_string_ostream o(s); I.print(o); unsup(o.str()); }
        } catch (Unsupported& u) { in.op = I_UNSUP; in.msg = u.msg; }
        fix.push_back({f->code.size(), targets});
        f->code.push_back(std::move(in));
      }
    }
    for (auto& x : fix) for (size_t i = 0; i < x.second.size() && i < f->code[x.first].edges.size(); i++) f->code[x.first].edges[i].pc = start[x.second[i]];
  }
  int aggOff(Type* t, ArrayRef<unsigned> idx) {
    int off = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nslots(st->getElementType(k)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * nslots(at->getElementType()); t = at->getElementType(); } } return off;
  }
  void decodeCall(Dec& d, Inst& in, const CallBase* cb) {
    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
      in.op = I_INTRIN;
      auto id = ii->getIntrinsicID();
      switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: in.op = I_NOP; if (in.n) in.op = I_COPY, in.a = opd(d, cb->getArgOperand(0)); return;
        default: break;
      }
      in.imm.push_back((i64)id);
      if (in.n) { if (!ii->getType()->isAggregateType()) in.w = widthOf(ii->getType()); }
      if (cb->arg_size()) { Type* t = cb->getArgOperand(0)->getType(); if (!t->isMetadataTy()) in.w2 = widthOf(t); }
      if (id == Intrinsic::eh_typeid_for) { in.op = I_COPY; u64 a = constAddr(cast<Constant>(cb->getArgOperand(0)->stripPointerCasts())); in.a = -1 - (int)d.f->consts.size(); d.f->consts.push_back(VC(typeId(a))); return; }
      if (id == Intrinsic::threadlocal_address || id == Intrinsic::expect || id == Intrinsic::launder_invariant_group || id == Intrinsic::strip_invariant_group || id == Intrinsic::ptr_annotation) { in.op = I_COPY; in.a = opd(d, cb->getArgOperand(0)); return; }
      for (auto& A : cb->args()) in.ops.push_back(isa<MetadataAsValue>(A) ? 0 : opd(d, A));
      return;
    }
    if (isa<InlineAsm>(cv)) { in.op = I_NOP; if (in.n) unsup("inline asm"); return; }
    in.op = I_CALL;
    if (auto* cf = dyn_cast<Function>(cv)) { in.callee = fn(cf); if (cf->isDeclaration() || in.callee->bi) in.bi = in.callee->bi; } else in.a = opd(d, cb->getCalledOperand());
    for (auto& A : cb->args()) { int n = nslots(A->getType()); int o = opd(d, A); in.ops.push_back(o); in.imm.push_back(n); }
  }
  u64 typeId(u64 tiAddr) { auto it = typeIds.find(tiAddr); if (it != typeIds.end()) return it->second; u64 n = typeIds.size() + 1; typeIds[tiAddr] = n; return n; }

  // ---- running
  State* cur = nullptr; bool dead = false; // current state finished
  Frame* top(State& s) { return s.st.back().uniq(); }
  std::string locOf(const Instruction* I) {
    if (!I) return "?"; const DebugLoc& dl = I->getDebugLoc(); if (!dl) return I->getFunction()->getName().str();
    std::string r = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); return r;
  }
  const Instruction* curInst(State& s) { if (s.st.empty()) return nullptr; Frame* f = s.st.back().p; int pc = f->pc > 0 ? f->pc - 1 : 0; return f->f->code.empty() ? nullptr : f->f->code[pc].I; }
  std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r; for (int i = (int)s.st.size() - 1; i >= 0 && r.size() < 40; i--) { Frame* f = s.st[i].p; int pc = f->pc > 0 ? f->pc - 1 : 0; const Instruction* I = f->f->code[pc].I; 
      if (I && I->getDebugLoc()) for (const DILocation* L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) r.push_back(L->getScope()->getSubprogram()->getName().str() + " @ " + L->getFilename().str() + ":" + std::to_string(L->getLine())); else r.push_back(llvm::demangle(f->f->name)); } return r;
  }
  u64 ev(State& s, E e) { return evalE(e, s.model->v, s.model->stamp); }
  std::string obsText(State& s) {
    std::string r; for (auto& o : s.obs) { r += o.tag; r += '='; char b[32]; for (size_t i = 0; i < o.bytes.size(); i++) { u64 v = o.bytes[i].e ? ev(s, o.bytes[i].e) : o.bytes[i].c; if (o.w[i] == 8 && o.bytes.size() > 1) snprintf(b, 32, "%02llx", (unsigned long long)v); else if (o.w[i] == 9) snprintf(b, 32, "%02llx", (unsigned long long)v); else snprintf(b, 32, "%llu", (unsigned long long)v); r += b; } r += '\n'; } return r;
  }
  std::vector<std::pair<Input, u64>> inputsOf(State& s) { std::vector<std::pair<Input, u64>> r; for (auto& i : s.inputs) { u64 v = i.var < s.model->v.size() ? s.model->v[i.var] & maskw(i.w) : 0; r.push_back({i, v}); } return r; }
  void violation(State& s, const std::string& kind, const std::string& msg) {
    errPaths++;
    const Instruction* I = curInst(s); std::string loc = locOf(I);
    auto stk = stackOf(s); std::string key = kind + "|" + msg; 
    // innermost configor or harness frame as part of identity
    std::string anchor; for (auto& f : stk) if (f.find("configor/") != std::string::npos || f.find("harness/") != std::string::npos) { anchor = f; break; }
    key += "|" + anchor;
    if (violKeys.insert(key).second && viols.size() < (size_t)maxViol * 4) { Violation v; v.kind = kind; v.msg = msg; v.loc = anchor.empty() ? loc : anchor; v.stack = stk; v.inputs = inputsOf(s); v.obs = obsText(s); v.ninst = s.ninst; viols.push_back(v); }
    dead = true;
  }
  void addCons(State& s, E e) { if (isC(e)) return; if (e->op == O_AND && e->w == 1) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; } s.cons.push_back(e); }
  bool zeroUninit = false;      // storage that was not initialised holds zeros
  bool touchesUndef(E e) { for (u32 v : *e->vars) if (isUndefVar[v]) return true; return false; }
  // e with every uninitialised variable set to 0
  E zeroUndef(E e, std::unordered_map<E, E>& memo) {
    if (!touchesUndef(e)) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r, k[3] = {0, 0, 0};
    if (e->op == O_VAR) r = mkC(0, e->w);
    else { for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = zeroUndef(e->k[i], memo);
      switch (e->op) { case O_ITE: r = mkIte(k[0], k[1], k[2]); break; case O_CONCAT: r = mkConcat(k[0], k[1]); break; case O_EXTRACT: r = mkExtract(k[0], e->lo, e->w); break; case O_ZEXT: r = mkZExt(k[0], e->w); break; case O_SEXT: r = mkSExt(k[0], e->w); break;
        case O_FP2SI: case O_FP2UI: case O_SI2FP: case O_UI2FP: case O_FPCONV: case O_FCEIL: case O_FFLOOR: case O_FTRUNC: case O_FRINT: case O_FSQRT: r = mkFUn(e->op, k[0], e->w); break; default: r = mkBin(e->op, k[0], k[1]); } }
    memo[e] = r; return r;
  }
  // does the value of e depend on uninitialised memory? If not, e without it.
  E defined(State& s, E e, const char* what) {
    if (!touchesUndef(e)) return e;
    std::unordered_map<E, E> memo; E z = zeroUndef(e, memo); if (zeroUninit) return z; ModelP m; SatRes r = S.check(s.cons, mkNot(mkBin(O_EQ, e, z)), *s.model, &m);
    if (r == R_UNKNOWN) incomplete.insert("solver timeout (uninitialised) at " + locOf(curInst(s)));
    if (r == R_SAT) { s.model = m; violation(s, "uninit", what); return e; }
    return z;
  }

  State* clone(State& s) { forks++; State* n = new State(s); n->depth++; return n; }
  // decide cond in state s. If both feasible, other receives a clone constrained to the opposite side.
  // Returns truth in s (constrained).
  bool decide(State& s, E cond, State** other, bool& both) {
    both = false; if (other) *other = nullptr;
    if (isC(cond)) return cond->val;
    cond = defined(s, cond, "branch depends on an uninitialised value"); if (dead) return true; if (isC(cond)) return cond->val;
    bool v = ev(s, cond) == 1;
    E take = v ? cond : mkNot(cond), neg = v ? mkNot(cond) : cond;
    ModelP m; SatRes r = S.check(s.cons, neg, *s.model, &m);
    if (r == R_UNKNOWN) { incomplete.insert("solver timeout at " + locOf(curInst(s))); r = R_UNSAT; /* path continues on the known side; run is marked incomplete */ }
    if (r == R_SAT) {
      both = true;
      if (other) { State* o = clone(s); o->model = m; addCons(*o, neg); *other = o; }
      addCons(s, take); s.depth++;
    }
    return v;
  }
  void push(State* o) { work.push_back(o); }
  // make e concrete in s, forking a sibling (re-executing the current instruction) for other values
  u64 concretize(State& s, E e, int pcOfInst) {
    e = defined(s, e, "address or size depends on an uninitialised value"); if (dead) return 0; if (isC(e)) return e->val;
    u64 v = ev(s, e); E eq = mkBin(O_EQ, e, mkC(v, e->w));
    if (isC(eq)) return v;
    ModelP m; SatRes r = S.check(s.cons, mkNot(eq), *s.model, &m);
    if (r == R_UNKNOWN) incomplete.insert("solver timeout (concretize) at " + locOf(curInst(s)));
    if (r == R_SAT) {
      State* o = clone(s); o->model = m; addCons(*o, mkNot(eq)); o->st.back().uniq()->pc = pcOfInst; push(o); addCons(s, eq); s.depth++;
    }
    return v;
  }
  E newVar(State& s, unsigned w, bool undef) {
    u32 idx = undef ? s.nundef++ : s.nvars++;
    auto key = std::make_pair(idx, w | (undef ? 256u : 0u)); auto it = varIntern.find(key); u32 id;
    if (it == varIntern.end()) { id = nextVar++; varIntern[key] = id; isUndefVar.push_back(undef); S.varw[id] = w; } else id = it->second;
    // a reused variable id must not carry constraints of this path: ids are unique per path since idx increases
    if (id < s.model->v.size() && s.model->v[id] != 0) { auto m = std::make_shared<Model>(*s.model); m->v[id] = 0; m->stamp = S.newStamp(); s.model = m; }
    return mkVar(id, w);
  }

  // ---- memory access
  bool inBounds(State& s, u64 addr, u64 n, Obj*& o, u32& id, u64& off) {
    if (addr < (1ull << OBJSHIFT)) return false; id = idOf(addr); o = nullptr; if (id >= s.nobj) return false; o = ro(s, id); if (!o) return false; off = addr & (MAXOBJ - 1); return off + n <= o->size && o->kind != K_FUNC;
  }
  void badAccess(State& s, u64 addr, u64 n, bool wr) {
    u32 id; u64 off; Obj* o; char b[160];
    if (addr < (1ull << OBJSHIFT)) { snprintf(b, 160, "null or wild pointer %s", wr ? "write" : "read"); violation(s, "memory", b); return; }
    inBounds(s, addr, 0, o, id, off);
    if (!o) snprintf(b, 160, "%s of freed or out-of-scope memory", wr ? "write" : "read"); else if (o->kind == K_FUNC) snprintf(b, 160, "access to function memory"); else snprintf(b, 160, "out-of-bounds %s of %s object", wr ? "write" : "read", o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global");
    violation(s, "memory", b);
  }
  E byteAt(State& s, Obj* o, u32 id, u64 off) {
    u8 m = o->m[off]; if (m == M_CONC) return mkC(o->b[off], 8); if (m == M_SYM) return o->s[off];
    E e = newVar(s, 8, true); Obj* w = rw(s, id); if (w->s.empty()) w->s.resize(w->size, nullptr); w->m[off] = M_SYM; w->s[off] = e; return e;
  }
  Val loadN(State& s, u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; Obj* o; u32 id; u64 off;
    if (!inBounds(s, addr, n, o, id, off)) { badAccess(s, addr, n, false); return VC(0); }
    bool conc = true; for (unsigned i = 0; i < n; i++) if (o->m[off + i] != M_CONC) { conc = false; break; }
    if (conc) { u64 v = 0; memcpy(&v, &o->b[off], n); return VC(v & maskw(w)); }
    E e = byteAt(s, o, id, off); for (unsigned i = 1; i < n; i++) { o = ro(s, id); E b = byteAt(s, o, id, off + i); e = mkConcat(b, e); }
    if (e->w > w) e = mkExtract(e, 0, w); return VE(e);
  }
  // storage that existed before __sx_freeze may be in use by other threads
  bool frozen(State& s, Obj* o, u32 id, const char* what = "write to") {
    if (!s.freeze || s.initDepth || o->exempt || !(id < s.freeze || o->shared)) return false;
    violation(s, "race", std::string(what) + " storage that another thread may be using"); return true;
  }
  void storeN(State& s, u64 addr, unsigned w, const Val& v, bool atomic = false) {
    unsigned n = (w + 7) / 8; Obj* o; u32 id; u64 off;
    if (!inBounds(s, addr, n, o, id, off)) { badAccess(s, addr, n, true); return; }
    if (o->ro) { violation(s, "memory", "write to constant memory"); return; }
    if (!atomic && frozen(s, o, id)) return;
    o = rw(s, id);
    if (!v.e) { memcpy(&o->b[off], &v.c, n); if (w < 8) o->b[off] &= maskw(w); memset(&o->m[off], M_CONC, n); return; }
    if (o->s.empty()) o->s.resize(o->size, nullptr);
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) { E b = n == 1 ? e : mkExtract(e, 8 * i, 8); if (isC(b)) { o->b[off + i] = b->val; o->m[off + i] = M_CONC; } else { o->m[off + i] = M_SYM; o->s[off + i] = b; } }
  }
  // the address leaves its object: report a witness next to the object, which a sanitizer recognises in the replay
  void preferNear(State& s, E a, unsigned n) {
    Obj* o; u32 id; u64 off; u64 v = ev(s, a); if (inBounds(s, v, n, o, id, off)) return;
    std::vector<E> st{ a }; u64 c = 0; int fuel = 64;
    while (!st.empty() && fuel--) { E e = st.back(); st.pop_back(); if (isC(e)) { if (e->val >= (1ull << OBJSHIFT) && idOf(e->val) < s.nobj && ro(s, idOf(e->val))) { c = e->val; break; } continue; } if (e->op == O_ADD || e->op == O_SUB || e->op == O_ITE) for (E k : e->k) if (k && k->w == 64) st.push_back(k); }
    if (!c) return; id = idOf(c); o = ro(s, id); if (!o) return;
    u64 base = addrOf(id); E rel = mkBin(O_SUB, a, mkC(base, 64)); ModelP m;
    for (E q : { mkBin(O_ULE, mkBin(O_SUB, rel, mkC(o->size, 64)), mkC(7, 64)), mkBin(O_ULE, mkBin(O_SUB, mkC(0, 64), rel), mkC(8, 64)) })
      if (!isC(q) && S.check(s.cons, q, *s.model, &m) == R_SAT) { s.model = m; return; }
  }
  // symbolic-address load of scalar
  Val loadSym(State& s, E a, unsigned w, int pc) {
    unsigned n = (w + 7) / 8; u64 v = ev(s, a); Obj* o; u32 id; u64 off;
    if (inBounds(s, v, n, o, id, off)) {
      u64 base = addrOf(id);
      E inb = mkBin(O_ULE, mkBin(O_SUB, a, mkC(base, 64)), mkC(o->size - n, 64));
      ModelP m; SatRes r = S.check(s.cons, mkNot(inb), *s.model, &m);
      if (r == R_SAT) { // some values leave the object: split
        State* x = clone(s); x->model = m; addCons(*x, mkNot(inb)); x->st.back().uniq()->pc = pc; push(x); addCons(s, inb); s.depth++; }
      else if (r == R_UNKNOWN) incomplete.insert("solver timeout (address)");
      E rel = mkBin(O_SUB, a, mkC(base, 64));
      u64 lo, hi; urange(rel, lo, hi); if (hi > o->size - n) hi = o->size - n;
      if (o->size <= 4096 && hi - lo <= 1100) {
        bool conc = true; for (u64 i = lo; i <= hi + n - 1 && conc; i++) if (o->m[i] != M_CONC) conc = false;
        if (conc) {
          // restrict to feasible stride: determine step from element size of rel (mul by const)
          u64 step = 1; E x = rel; if (x->op == O_ZEXT) x = x->k[0]; if (x->op == O_CONCAT && isC(x->k[1]) && x->k[1]->val == 0) step = 1ull << x->k[1]->w; else if (x->op == O_SHL && isC(x->k[1])) step = 1ull << x->k[1]->val; else if (x->op == O_MUL && isC(x->k[1])) step = x->k[1]->val & -x->k[1]->val;
          if (lo % step) lo += step - lo % step;
          auto get = [&](u64 i) { u64 q = 0; memcpy(&q, &o->b[i], n); return q & maskw(w); };
          std::vector<std::pair<u64, u64>> runs; // start offset, value
          for (u64 i = lo; i <= hi; i += step) { u64 q = get(i); if (runs.empty() || runs.back().second != q) runs.push_back({i, q}); }
          if (runs.size() <= 300) { E r = mkC(runs.back().second, w); for (int i = (int)runs.size() - 2; i >= 0; i--) r = mkIte(mkBin(O_ULT, rel, mkC(runs[i + 1].first, 64)), mkC(runs[i].second, w), r); return VE(r); }
        } else if ((hi - lo) / 1 <= 64) {
          E r = nullptr; for (i64 i = hi; i >= (i64)lo; i--) { Val q = loadN(s, base + i, w); E x = toE(q, w); r = r ? mkIte(mkBin(O_EQ, rel, mkC(i, 64)), x, r) : x; } return VE(r);
        }
      }
    }
    else preferNear(s, a, n);
    u64 c = concretize(s, a, pc); if (dead) return VC(0); return loadN(s, c, w);
  }

  void copyMem(State& s, u64 dst, u64 src, u64 n) {
    if (!n) return; Obj *a, *b; u32 ia, ib; u64 oa, ob;
    if (!inBounds(s, src, n, b, ib, ob)) { badAccess(s, src, n, false); return; }
    if (!inBounds(s, dst, n, a, ia, oa)) { badAccess(s, dst, n, true); return; }
    if (a->ro) { violation(s, "memory", "write to constant memory"); return; }
    if (frozen(s, a, ia)) return;
    a = rw(s, ia); b = ro(s, ib);
    memmove(&a->b[oa], &b->b[ob], n); bool sy = false; for (u64 i = 0; i < n; i++) if (b->m[ob + i] == M_SYM) { sy = true; break; }
    memmove(&a->m[oa], &b->m[ob], n);
    if (sy) { if (a->s.empty()) a->s.resize(a->size, nullptr); b = ro(s, ib); memmove(&a->s[oa], &b->s[ob], n * sizeof(E)); }
  }
  std::string cstr(State& s, u64 a) { std::string r; Obj* o; u32 id; u64 off; while (r.size() < 4000 && inBounds(s, a, 1, o, id, off) && o->m[off] != M_UNINIT) { u8 c = o->m[off] == M_SYM ? (u8)ev(s, o->s[off]) : o->b[off]; if (!c) break; r += (char)c; a++; } return r; }

  Val get(Frame* f, int o) { return o >= 0 ? f->r[o] : f->f->consts[-1 - o]; }
  void jump(Frame* f, const Edge& e) {
    if (e.copies.size() == 1) f->r[e.copies[0].first] = get(f, e.copies[0].second);
    else if (!e.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); } for (size_t i = 0; i < e.copies.size(); i++) t[i] = get(f, e.copies[i].second); for (size_t i = 0; i < e.copies.size(); i++) f->r[e.copies[i].first] = t[i]; }
    f->pc = e.pc;
  }
  void popFrame(State& s) { Frame* f = s.st.back().p; for (u32 id : f->allocas) delObj(s, id); s.st.pop_back(); }
  void pushCall(State& s, FnInfo* g, const std::vector<Val>& args) {
    if (!g->decoded) decode(g);
    g->hit = true; g->calls++;
    if (s.st.size() > 10000) { violation(s, "stack", "call depth exceeds 10000 (unbounded recursion)"); return; }
    Frame* n = new Frame(); n->f = g; n->r.assign(g->nslots, VC(0)); size_t k = 0; for (auto& a : g->args) for (int i = 0; i < a.second; i++) { if (k < args.size()) n->r[a.first + i] = args[k]; k++; }
    for (auto& bv : g->byval) { u32 id = newObj(s, bv.second, K_STACK); u64 src = n->r[g->args[bv.first].first].c; copyMem(s, addrOf(id), src, bv.second); if (dead) { delete n; return; } n->r[g->args[bv.first].first] = VC(addrOf(id)); n->allocas.push_back(id); }
    if (g->F->isVarArg()) { // the variable arguments, one slot of 8 bytes each, as in the overflow area of the x86-64 va_list
      size_t extra = args.size() > k ? args.size() - k : 0; u32 id = newObj(s, 8 * extra + 8, K_STACK); n->va = addrOf(id); n->allocas.push_back(id);
      for (size_t i = 0; i < extra; i++) { const Val& v = args[k + i]; storeN(s, n->va + 8 * i, v.e ? v.e->w : 64, v); if (dead) { delete n; return; } }
    }
    s.st.push_back(Rc<Frame>(n));
  }
  void ret(State& s, const std::vector<Val>& rv) {
    popFrame(s);
    if (s.st.empty()) { finish(s); return; }
    Frame* f = top(s); Inst& ci = f->f->code[f->pc - 1];
    for (int i = 0; i < ci.n && ci.dst >= 0; i++) f->r[ci.dst + i] = i < (int)rv.size() ? rv[i] : VC(0);
    if (ci.invoke) jump(f, ci.edges[0]);
  }
  // heap objects that static or thread-local objects of the program own: reachable from its globals
  u64 staticLive(State& s) {
    if (!s.liveHeap) return 0;
    std::unordered_set<u32> seen; std::vector<u32> q; u64 n = 0;
    auto scan = [&](Obj* o) {
      for (u32 i = 0; i + 8 <= o->size; i += 8) {
        u64 v = 0; bool ok = true; for (int k = 0; k < 8; k++) { if (o->m[i + k] != M_CONC) { ok = false; break; } v |= (u64)o->b[i + k] << (8 * k); }
        if (!ok || v < MAXOBJ) continue; u64 id = (v >> OBJSHIFT) - 1; if (id < entryObj || id >= s.nobj) continue;
        Obj* t = ro(s, (u32)id); if (t && t->kind == K_HEAP && (v & ((1ull << OBJSHIFT) - 1)) <= t->size && seen.insert((u32)id).second) { n++; q.push_back((u32)id); } } };
    for (u32 r : roots) if (Obj* o = ro(s, r)) scan(o);
    while (!q.empty()) { u32 i = q.back(); q.pop_back(); scan(ro(s, i)); }
    return n;
  }
  void finish(State& s) {
    if (leakCheck && s.liveHeap) s.liveHeap -= (u32)staticLive(s);
    if (leakCheck && s.liveHeap) { violation(s, "leak", std::to_string(s.liveHeap) + " heap object(s) never released"); return; }
    paths++; for (auto& c : s.covers) covers[c]++;
    if (s.depth > maxDepth) maxDepth = s.depth; if (s.ninst > maxPathInst) maxPathInst = s.ninst;
    sampleSeen++;
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    size_t j = samples.size() < nSamples ? samples.size() : (size_t)((rng >> 33) % sampleSeen);
    if (j < nSamples) { Trace t; t.inputs = inputsOf(s); t.obs = obsText(s); if (j == samples.size()) samples.push_back(t); else samples[j] = t; }
    dead = true;
  }
  // ---- exceptions
  bool tiMatch(State& s, u64 want, u64 have, u64& obj) {
    if (want == have) return true;
    Val vt = loadN(s, have, 64); if (dead) return false;
    if (vt.c == siVT) { u64 base = loadN(s, have + 16, 64).c; return tiMatch(s, want, base, obj); }
    if (vt.c == vmiVT) { u64 n = loadN(s, have + 20, 32).c; for (u64 i = 0; i < n; i++) { u64 b = loadN(s, have + 24 + 16 * i, 64).c; i64 fl = (i64)loadN(s, have + 32 + 16 * i, 64).c; if (!(fl & 2)) continue; u64 o2 = obj; i64 off = fl >> 8;
        if (fl & 1) { u64 vp = loadN(s, obj, 64).c; off = (i64)loadN(s, vp + off, 64).c; } o2 += off; if (tiMatch(s, want, b, o2)) { obj = o2; return true; } } }
    return false;
  }
  void unwind(State& s, u64 exc) {
    u64 ti = loadN(s, exc - 64, 64).c; if (dead) return; u64 prim = loadN(s, exc - 8, 64).c; // primary object
    while (!s.st.empty()) {
      Frame* f = s.st.back().p; Inst& ci = f->f->code[f->pc - 1];
      if ((ci.op == I_CALL || ci.op == I_INTRIN) && ci.invoke) {
        int lpc = ci.edges[1].pc; Inst& lp = f->f->code[lpc]; 
        if (lp.op == I_LPAD) {
          bool land = lp.fl; u64 sel = 0; u64 obj = prim;
          for (i64 c : lp.imm) { if (c == -1) unsup("exception filter"); if (c == 0 || tiMatch(s, (u64)c, ti, obj)) { land = true; sel = typeId((u64)c); storeN(s, exc - 56, 64, VC(obj)); break; } }
          if (dead) return;
          if (land) { Frame* g = top(s); jump(g, ci.edges[1]); g->excPtr = exc; g->excSel = sel; return; }
        } else unsup("unwind destination");
      }
      if (s.st.size() == 1) { // uncaught
        u64 nm = loadN(s, ti + 8, 64).c; violation(s, "uncaught", "uncaught exception of type " + cstr(s, nm)); return; }
      popFrame(s);
    }
  }

  Val binv(Op op, const Val& a, const Val& b, unsigned w) { if (!a.e && !b.e) return VC(binop(op, a.c, b.c, w)); return VE(mkBin(op, toE(a, w), toE(b, w))); }
  Val fbinv(Op op, const Val& a, const Val& b, unsigned w) { if (!a.e && !b.e) return VC(fpbin(op, a.c, b.c, w)); return VE(mkBin(op, toE(a, w), toE(b, w))); }
  Val fcmpv(Op op, const Val& a, const Val& b, unsigned w) { if (!a.e && !b.e) return VC(fpcmp(op, a.c, b.c, w)); return VE(mkBin(op, toE(a, w), toE(b, w))); }
  Val notv(const Val& a) { return a.e ? VE(mkNot(a.e)) : VC(!a.c); }
  Val orv(const Val& a, const Val& b) { return binv(O_OR, a, b, 1); }
  Val andv(const Val& a, const Val& b) { return binv(O_AND, a, b, 1); }
  Val itev(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return VE(mkIte(c.e, toE(a, w), toE(b, w))); }
  Val fun(Op op, const Val& a, unsigned sw, unsigned w) { return VE(mkFUn(op, toE(a, sw), w)); }

  void run(State* sp) {
    cur = sp; State& s = *sp; dead = false;
    while (!dead) {
      Frame* f = top(s);
      FnInfo* fi = f->f;
      // straight-line inner loop
      for (;;) {
        Inst& in = fi->code[f->pc]; f->pc++; in.hit = true; s.ninst++; insts++;
        if (s.ninst > maxInst) { violation(s, "hang", "path exceeds the instruction limit (non-termination suspected)"); break; }
        if ((insts & 0xfffff) == 0 && now() - t0 > timeLimit) { incomplete.insert("time limit"); work.push_back(nullptr); dead = true; break; }
        switch (in.op) {
          case I_BIN: { Val a = get(f, in.a), b = get(f, in.b);
            if ((in.sub == O_UDIV || in.sub == O_SDIV || in.sub == O_UREM || in.sub == O_SREM)) { if (!b.e) { if (!b.c) { violation(s, "arith", "division by zero"); goto next; } } else { bool both; State* o; int pc = f->pc - 1; bool t = decide(s, mkBin(O_EQ, b.e, mkC(0, in.w)), &o, both); f = top(s); if (o) { o->st.back().uniq()->pc = pc; push(o); } if (dead) goto next; if (t) { violation(s, "arith", "division by zero"); goto next; } } }
            f->r[in.dst] = binv((Op)in.sub, a, b, in.w); continue; }
          case I_FBIN: f->r[in.dst] = fbinv((Op)in.sub, get(f, in.a), get(f, in.b), in.w); continue;
          case I_FNEG: { Val a = get(f, in.a); f->r[in.dst] = binv(O_XOR, a, VC(1ull << (in.w - 1)), in.w); continue; }
          case I_ICMP: { Val a = get(f, in.a), b = get(f, in.b); unsigned w = in.w2; Val r;
            switch (in.sub) {
              case CmpInst::ICMP_EQ: r = binv(O_EQ, a, b, w); break; case CmpInst::ICMP_NE: r = notv(binv(O_EQ, a, b, w)); break;
              case CmpInst::ICMP_ULT: r = binv(O_ULT, a, b, w); break; case CmpInst::ICMP_ULE: r = binv(O_ULE, a, b, w); break; case CmpInst::ICMP_UGT: r = binv(O_ULT, b, a, w); break; case CmpInst::ICMP_UGE: r = binv(O_ULE, b, a, w); break;
              case CmpInst::ICMP_SLT: r = binv(O_SLT, a, b, w); break; case CmpInst::ICMP_SLE: r = binv(O_SLE, a, b, w); break; case CmpInst::ICMP_SGT: r = binv(O_SLT, b, a, w); break; default: r = binv(O_SLE, b, a, w); break; }
            f->r[in.dst] = r; continue; }
          case I_FCMP: { Val a = get(f, in.a), b = get(f, in.b); unsigned w = in.w2; Val r; auto un = [&]() { return fcmpv(O_FUNO, a, b, w); };
            switch (in.sub) {
              case CmpInst::FCMP_FALSE: r = VC(0); break; case CmpInst::FCMP_TRUE: r = VC(1); break;
              case CmpInst::FCMP_OEQ: r = fcmpv(O_FEQ, a, b, w); break; case CmpInst::FCMP_OLT: r = fcmpv(O_FLT, a, b, w); break; case CmpInst::FCMP_OLE: r = fcmpv(O_FLE, a, b, w); break;
              case CmpInst::FCMP_OGT: r = fcmpv(O_FLT, b, a, w); break; case CmpInst::FCMP_OGE: r = fcmpv(O_FLE, b, a, w); break; case CmpInst::FCMP_ONE: r = andv(notv(fcmpv(O_FEQ, a, b, w)), notv(un())); break;
              case CmpInst::FCMP_ORD: r = notv(un()); break; case CmpInst::FCMP_UNO: r = un(); break;
              case CmpInst::FCMP_UEQ: r = orv(fcmpv(O_FEQ, a, b, w), un()); break; case CmpInst::FCMP_ULT: r = notv(fcmpv(O_FLE, b, a, w)); break; case CmpInst::FCMP_ULE: r = notv(fcmpv(O_FLT, b, a, w)); break;
              case CmpInst::FCMP_UGT: r = notv(fcmpv(O_FLE, a, b, w)); break; case CmpInst::FCMP_UGE: r = notv(fcmpv(O_FLT, a, b, w)); break; default: r = notv(fcmpv(O_FEQ, a, b, w)); break; }
            f->r[in.dst] = r; continue; }
          case I_CAST: { Val a = get(f, in.a); Val r; unsigned w = in.w, sw = in.w2;
            switch (in.sub) {
              case Instruction::Trunc: r = a.e ? VE(mkExtract(a.e, 0, w)) : VC(a.c & maskw(w)); break;
              case Instruction::ZExt: r = a.e ? VE(mkZExt(a.e, w)) : a; break;
              case Instruction::SExt: r = a.e ? VE(mkSExt(a.e, w)) : VC((u64)sext(a.c, sw) & maskw(w)); break;
              case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; break;
              case Instruction::PtrToInt: case Instruction::IntToPtr: r = a.e ? VE(w < sw ? mkExtract(a.e, 0, w) : mkZExt(a.e, w)) : VC(a.c & maskw(w)); break;
              case Instruction::FPToSI: r = fun(O_FP2SI, a, sw, w); break; case Instruction::FPToUI: r = fun(O_FP2UI, a, sw, w); break;
              case Instruction::SIToFP: r = fun(O_SI2FP, a, sw, w); break; case Instruction::UIToFP: r = fun(O_UI2FP, a, sw, w); break;
              default: r = fun(O_FPCONV, a, sw, w); break; }
            f->r[in.dst] = r; continue; }
          case I_SELECT: { Val c = get(f, in.a); for (int i = 0; i < in.n; i++) f->r[in.dst + i] = itev(c, get(f, opdAt(in.b, i)), get(f, opdAt(in.c, i)), in.ops[i]); continue; }
          case I_LOAD: { Val a = get(f, in.a); 
            if (!a.e) { for (int i = 0; i < in.n; i++) { Val v = loadN(s, a.c + in.imm[i], in.ops[i]); if (dead) goto next; f->r[in.dst + i] = v; } continue; }
            int pc = f->pc - 1;
            for (int i = 0; i < in.n; i++) { Val v = loadSym(s, mkBin(O_ADD, a.e, mkC(in.imm[i], 64)), in.ops[i], pc); if (dead) goto next; f = top(s); f->r[in.dst + i] = v; }
            continue; }
          case I_STORE: { Val a = get(f, in.a); u64 ad = a.c; if (a.e) { preferNear(s, a.e, 1); ad = concretize(s, a.e, f->pc - 1); if (dead) goto next; f = top(s); } for (size_t i = 0; i < in.ops.size(); i++) { storeN(s, ad + in.imm[i], in.ops[i], get(f, opdAt(in.b, i)), in.fl); if (dead) goto next; } continue; }
          case I_GEP: { Val a = get(f, in.a); Val r = a.e ? VE(mkBin(O_ADD, a.e, mkC(in.imm[0], 64))) : VC(a.c + in.imm[0]);
            for (size_t i = 0; i < in.ops.size(); i += 2) { Val x = get(f, in.ops[i]); unsigned w = in.ops[i + 1]; u64 sc = in.imm[1 + i / 2]; if (!x.e && !r.e) r = VC(r.c + sc * (u64)sext(x.c, w)); else { E e = toE(x, w); if (w < 64) e = mkSExt(e, 64); r = VE(mkBin(O_ADD, toE(r, 64), mkBin(O_MUL, e, mkC(sc, 64)))); } }
            f->r[in.dst] = r; continue; }
          case I_ALLOCA: { Val n = get(f, in.a); u64 c = n.c; if (n.e) { c = concretize(s, n.e, f->pc - 1); if (dead) goto next; f = top(s); } u32 id = newObj(s, c * in.imm[0], K_STACK); f->allocas.push_back(id); f->r[in.dst] = VC(addrOf(id)); continue; }
          case I_BR: jump(f, in.edges[0]); continue;
          case I_CBR: { Val c = get(f, in.a); if (!c.e) { jump(f, in.edges[c.c ? 0 : 1]); continue; }
            State* o; bool both; bool t = decide(s, c.e, &o, both); if (o) { jump(top(*o), in.edges[t ? 1 : 0]); push(o); } if (dead) goto next; f = top(s); jump(f, in.edges[t ? 0 : 1]); continue; }
          case I_SWITCH: { Val c = get(f, in.a); if (c.e) { E d = defined(s, c.e, "switch on an uninitialised value"); if (dead) goto next; c = VE(d); } if (!c.e) { int k = 0; for (size_t i = 0; i < in.imm.size(); i++) if ((u64)in.imm[i] == c.c) { k = in.ops[i]; break; } jump(f, in.edges[k]); continue; }
            // group by target
            std::vector<E> conds(in.edges.size(), mkC(0, 1)); E any = mkC(0, 1);
            for (size_t i = 0; i < in.imm.size(); i++) { E q = mkBin(O_EQ, c.e, mkC((u64)in.imm[i], in.w2)); if (in.ops[i]) { conds[in.ops[i]] = mkOr(conds[in.ops[i]], q); any = mkOr(any, q); } }
            conds[0] = mkNot(any);
            int kt = 0; for (size_t k = 0; k < conds.size(); k++) if (ev(s, conds[k]) == 1) { kt = k; break; }
            bool multi = false;
            for (size_t k = 0; k < conds.size(); k++) if ((int)k != kt && !isF(conds[k])) { ModelP m; SatRes r = S.check(s.cons, conds[k], *s.model, &m); if (r == R_UNKNOWN) incomplete.insert("solver timeout (switch)"); if (r == R_SAT) { multi = true; State* o = clone(s); o->model = m; addCons(*o, conds[k]); jump(top(*o), in.edges[k]); push(o); } }
            if (multi) { addCons(s, conds[kt]); s.depth++; } f = top(s); jump(f, in.edges[kt]); continue; }
          case I_COPY: for (int i = 0; i < in.n; i++) f->r[in.dst + i] = get(f, opdAt(in.a, i)); continue;
          case I_INSERTV: { for (int i = 0; i < in.n; i++) f->r[in.dst + i] = get(f, opdAt(in.a, i)); for (int i = 0; i < in.imm[0]; i++) f->r[in.dst + in.c + i] = get(f, opdAt(in.b, i)); continue; }
          case I_NOP: continue;
          case I_LPAD: f->r[in.dst] = VC(f->excPtr); f->r[in.dst + 1] = VC(f->excSel); continue;
          case I_RESUME: { Val e = get(f, in.a); u64 x = e.c; if (s.st.size() == 1) { u64 ti = loadN(s, x - 64, 64).c; u64 nm = loadN(s, ti + 8, 64).c; violation(s, "uncaught", "uncaught exception of type " + cstr(s, nm)); goto next; } popFrame(s); unwind(s, x); goto next; }
          case I_RET: { std::vector<Val> rv; for (int i = 0; i < in.n; i++) rv.push_back(get(f, opdAt(in.a, i))); ret(s, rv); goto next; }
          case I_UNREACHABLE: violation(s, "unreachable", "unreachable code reached"); goto next;
          case I_UNSUP: unsup(in.msg + " at " + locOf(in.I));
          case I_ATOMICRMW: { Val a = get(f, in.a), b = get(f, in.b); Val o = loadN(s, a.c, in.w); if (dead) goto next; Val n; switch (in.sub) { case AtomicRMWInst::Add: n = binv(O_ADD, o, b, in.w); break; case AtomicRMWInst::Sub: n = binv(O_SUB, o, b, in.w); break; case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::And: n = binv(O_AND, o, b, in.w); break; case AtomicRMWInst::Or: n = binv(O_OR, o, b, in.w); break; default: unsup("atomicrmw"); } storeN(s, a.c, in.w, n, true); if (dead) goto next; f->r[in.dst] = o; continue; }
          case I_CMPXCHG: { Val a = get(f, in.a); Val o = loadN(s, a.c, in.w); if (dead) goto next; Val eq = binv(O_EQ, o, get(f, in.b), in.w); if (eq.e) unsup("symbolic cmpxchg"); if (eq.c) storeN(s, a.c, in.w, get(f, in.c), true); if (dead) goto next; f->r[in.dst] = o; f->r[in.dst + 1] = eq; continue; }
          case I_INTRIN: if (intrin(s, f, in)) { f = top(s); continue; } goto next;
          case I_CALL: {
            FnInfo* g = in.callee; int bi = in.bi;
            if (!g) { Val t = get(f, in.a); u64 a = t.c; if (t.e) { a = concretize(s, t.e, f->pc - 1); if (dead) goto next; f = top(s); } u32 id = idOf(a); auto it = fnByObj.find(id); if (a < (1ull << OBJSHIFT) || it == fnByObj.end() || (a & (MAXOBJ - 1))) { violation(s, "memory", "call through an invalid function pointer"); goto next; } g = it->second; if (g->F->isDeclaration()) bi = g->bi; }
            std::vector<Val> args; for (size_t i = 0; i < in.ops.size(); i++) for (int j = 0; j < in.imm[i]; j++) args.push_back(get(f, opdAt(in.ops[i], j)));
            if (bi) { Val r = VC(0); int pc = f->pc - 1; bool unwound = builtin(s, bi, g, args, r, pc, in); if (dead || unwound) goto next; f = top(s); if (in.dst >= 0) f->r[in.dst] = r; if (in.invoke) { jump(f, in.edges[0]); } continue; }
            if (g->F->isDeclaration()) unsup("call to external function " + llvm::demangle(g->name));
            pushCall(s, g, args); goto next; }
          default: unsup("opcode");
        }
      }
      next:;
    }
  }

  bool intrin(State& s, Frame* f, Inst& in) {
    auto A = [&](int i) { return get(f, in.ops[i]); }; unsigned w = in.w;
    auto conc = [&](Val v, bool& ok) { ok = true; if (!v.e) return v.c; u64 c = concretize(s, v.e, f->pc - 1); ok = !dead; return c; };
    bool ok;
    switch (in.imm[0]) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 d = conc(A(0), ok); if (!ok) return false; f = top(s); u64 r = conc(A(1), ok); if (!ok) return false; f = top(s); u64 n = conc(A(2), ok); if (!ok) return false; copyMem(s, d, r, n); return !dead; }
      case Intrinsic::memset: { u64 d = conc(A(0), ok); if (!ok) return false; f = top(s); u64 n = conc(A(2), ok); if (!ok) return false; f = top(s); doMemset(s, d, A(1), n); return !dead; }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Val p = A(1); if (p.e) return true; Obj* o; u32 id; u64 off; if (inBounds(s, p.c, 0, o, id, off) && o->kind == K_STACK) { Obj* q = rw(s, id); memset(q->m.data(), M_UNINIT, q->size); } return true; }
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { Val a = A(0), b = A(1); Op o = (in.imm[0] == Intrinsic::umax || in.imm[0] == Intrinsic::umin) ? O_ULT : O_SLT; Val c = binv(o, a, b, w); bool mx = in.imm[0] == Intrinsic::umax || in.imm[0] == Intrinsic::smax; f->r[in.dst] = mx ? itev(c, b, a, w) : itev(c, a, b, w); return true; }
      case Intrinsic::abs: { Val a = A(0); f->r[in.dst] = itev(binv(O_SLT, a, VC(0), w), binv(O_SUB, VC(0), a, w), a, w); return true; }
      case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val r = binv(O_ADD, a, b, w); f->r[in.dst] = itev(binv(O_ULT, r, a, w), VC(maskw(w)), r, w); return true; }
      case Intrinsic::usub_sat: { Val a = A(0), b = A(1); f->r[in.dst] = itev(binv(O_ULT, a, b, w), VC(0), binv(O_SUB, a, b, w), w); return true; }
      case Intrinsic::uadd_with_overflow: { w = in.w2; Val a = A(0), b = A(1), r = binv(O_ADD, a, b, w); f->r[in.dst] = r; f->r[in.dst + 1] = binv(O_ULT, r, a, w); return true; }
      case Intrinsic::usub_with_overflow: { w = in.w2; Val a = A(0), b = A(1); f->r[in.dst] = binv(O_SUB, a, b, w); f->r[in.dst + 1] = binv(O_ULT, a, b, w); return true; }
      case Intrinsic::sadd_with_overflow: { w = in.w2; Val a = A(0), b = A(1), r = binv(O_ADD, a, b, w); f->r[in.dst] = r;
        if (!a.e && a.c == 0) { f->r[in.dst + 1] = VC(0); return true; }
        Val ov; if (!b.e) { i64 bv = sext(b.c, w); i64 mx = (i64)(maskw(w) >> 1), mn = -mx - 1; ov = bv >= 0 ? binv(O_SLT, VC((u64)(mx - bv) & maskw(w)), a, w) : binv(O_SLT, a, VC((u64)(mn - bv) & maskw(w)), w); }
        else { Val sa = binv(O_SLT, a, VC(0), w), sb = binv(O_SLT, b, VC(0), w), sr = binv(O_SLT, r, VC(0), w); ov = andv(notv(binv(O_XOR, sa, sb, 1)), binv(O_XOR, sa, sr, 1)); }
        f->r[in.dst + 1] = ov; return true; }
      case Intrinsic::ssub_with_overflow: { w = in.w2; Val a = A(0), b = A(1), r = binv(O_SUB, a, b, w); f->r[in.dst] = r; 
        Val ov; if (!b.e) { i64 bv = sext(b.c, w); i64 mx = (i64)(maskw(w) >> 1), mn = -mx - 1; ov = bv >= 0 ? binv(O_SLT, a, VC((u64)(mn + bv) & maskw(w)), w) : binv(O_SLT, VC((u64)(mx + bv) & maskw(w)), a, w); }
        else { Val sa = binv(O_SLT, a, VC(0), w), sb = binv(O_SLT, b, VC(0), w), sr = binv(O_SLT, r, VC(0), w); ov = andv(binv(O_XOR, sa, sb, 1), binv(O_XOR, sa, sr, 1)); }
        f->r[in.dst + 1] = ov; return true; }
      case Intrinsic::smul_with_overflow: { w = in.w2; Val a = A(0), b = A(1); f->r[in.dst] = binv(O_MUL, a, b, w); f->r[in.dst + 1] = binv(O_SMULO, a, b, w); return true; }
      case Intrinsic::umul_with_overflow: { w = in.w2; Val a = A(0), b = A(1); f->r[in.dst] = binv(O_MUL, a, b, w); f->r[in.dst + 1] = binv(O_UMULO, a, b, w); return true; }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { Val a = A(0); u64 c = conc(a, ok); if (!ok) return false; f = top(s); u64 r; if (in.imm[0] == Intrinsic::ctpop) r = __builtin_popcountll(c); else if (in.imm[0] == Intrinsic::ctlz) r = c ? __builtin_clzll(c) - (64 - w) : w; else r = c ? __builtin_ctzll(c) : w; f->r[in.dst] = VC(r); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr: { Val a = A(0), b = A(1), c = A(2); if (c.e) unsup("fsh symbolic"); unsigned k = c.c % w; bool l = in.imm[0] == Intrinsic::fshl; if (!k) { f->r[in.dst] = l ? a : b; return true; } unsigned sl = l ? k : w - k; f->r[in.dst] = binv(O_OR, binv(O_SHL, a, VC(sl), w), binv(O_LSHR, b, VC(w - sl), w), w); return true; }
      case Intrinsic::bswap: { Val a = A(0); E e = toE(a, w); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } f->r[in.dst] = VE(r); return true; }
      case Intrinsic::is_constant: f->r[in.dst] = VC(0); return true;
      case Intrinsic::objectsize: f->r[in.dst] = VC(maskw(w)); return true;
      case Intrinsic::fabs: f->r[in.dst] = binv(O_AND, A(0), VC(maskw(w) >> 1), w); return true;
      case Intrinsic::copysign: f->r[in.dst] = binv(O_OR, binv(O_AND, A(0), VC(maskw(w) >> 1), w), binv(O_AND, A(1), VC(1ull << (w - 1)), w), w); return true;
      case Intrinsic::ceil: f->r[in.dst] = fun(O_FCEIL, A(0), w, w); return true; case Intrinsic::floor: f->r[in.dst] = fun(O_FFLOOR, A(0), w, w); return true; case Intrinsic::trunc: f->r[in.dst] = fun(O_FTRUNC, A(0), w, w); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: f->r[in.dst] = fun(O_FRINT, A(0), w, w); return true; case Intrinsic::sqrt: f->r[in.dst] = fun(O_FSQRT, A(0), w, w); return true;
      case Intrinsic::fmuladd: f->r[in.dst] = fbinv(O_FADD, fbinv(O_FMUL, A(0), A(1), w), A(2), w); return true;
      case Intrinsic::is_fpclass: { unsigned m = A(1).c; Val a = A(0); unsigned sw = in.w2; u64 inf = sw == 64 ? 0x7ff0000000000000ull : 0x7f800000ull; Val ab = binv(O_AND, a, VC(maskw(sw) >> 1), sw); Val r = VC(0); Val neg = binv(O_SLT, a, VC(0), sw);
        if ((m & 3) == 3) r = orv(r, binv(O_ULT, VC(inf), ab, sw)); else if (m & 3) unsup("fpclass snan"); Val isinf = binv(O_EQ, ab, VC(inf), sw); if (m & 4) r = orv(r, andv(isinf, neg)); if (m & 512) r = orv(r, andv(isinf, notv(neg))); if (m & ~(3u | 4 | 512)) { 
          u64 minn = sw == 64 ? 0x0010000000000000ull : 0x00800000ull; Val isz = binv(O_EQ, ab, VC(0), sw), issub = andv(notv(isz), binv(O_ULT, ab, VC(minn), sw)), isn = andv(binv(O_ULE, VC(minn), ab, sw), binv(O_ULT, ab, VC(inf), sw));
          if (m & 8) r = orv(r, andv(isn, neg)); if (m & 256) r = orv(r, andv(isn, notv(neg))); if (m & 16) r = orv(r, andv(issub, neg)); if (m & 128) r = orv(r, andv(issub, notv(neg))); if (m & 32) r = orv(r, andv(isz, neg)); if (m & 64) r = orv(r, andv(isz, notv(neg))); }
        f->r[in.dst] = r; return true; }
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation(s, "trap", "trap"); return false;
      case Intrinsic::vastart: { u64 l = A(0).c; storeN(s, l, 32, VC(48)); if (!dead) storeN(s, l + 4, 32, VC(176)); if (!dead) storeN(s, l + 8, 64, VC(f->va)); if (!dead) storeN(s, l + 16, 64, VC(0)); return !dead; }
      case Intrinsic::vaend: return true;
      case Intrinsic::vacopy: copyMem(s, A(0).c, A(1).c, 24); return !dead;
      case Intrinsic::stacksave: f->r[in.dst] = VC(0); return true;
      default: unsup("intrinsic " + in.I->getOperand(in.I->getNumOperands() - 1)->getName().str());
    }
  }
  void doMemset(State& s, u64 d, Val v, u64 n) { if (!n) return; Obj* o; u32 id; u64 off; if (!inBounds(s, d, n, o, id, off)) { badAccess(s, d, n, true); return; } if (o->ro) { violation(s, "memory", "write to constant memory"); return; } if (frozen(s, o, id)) return; o = rw(s, id); if (v.e) { E e = mkExtract(v.e, 0, 8); if (o->s.empty()) o->s.resize(o->size, nullptr); for (u64 i = 0; i < n; i++) { o->m[off + i] = M_SYM; o->s[off + i] = e; } } else { memset(&o->b[off], (int)(u8)v.c, n); memset(&o->m[off], M_CONC, n); } }

  // returns true when control was transferred by unwinding
  bool builtin(State& s, int bi, FnInfo* g, std::vector<Val>& a, Val& r, int pc, Inst& in) {
    auto C = [&](size_t i) -> u64 { if (!a[i].e) return a[i].c; u64 v = concretize(s, a[i].e, pc); return v; };
    switch (bi) {
      case B_SYM: { unsigned w = a[0].c; E e = newVar(s, w, false); std::string nm = cstr(s, a[1].c); s.inputs.push_back({e->lo, (u8)w, nm}); r = VE(w < 64 ? mkZExt(e, 64) : e); return false; }
      case B_ASSUME: { if (!a[0].e) { if (!(a[0].c & 1)) { assumeKilled++; dead = true; } return false; } E c = a[0].e->w == 1 ? a[0].e : mkNot(mkBin(O_EQ, a[0].e, mkC(0, a[0].e->w)));
        if (isC(c)) { if (!c->val) { assumeKilled++; dead = true; } return false; }
        if (ev(s, c) != 1) { ModelP m; SatRes x = S.check(s.cons, c, *s.model, &m); if (x == R_UNKNOWN) incomplete.insert("solver timeout (assume)"); if (x != R_SAT) { assumeKilled++; dead = true; return false; } s.model = m; } addCons(s, c); return false; }
      case B_ASSERT: { asserts++; std::string msg; Val v = a[0]; if (!v.e) { if (!(v.c & 1)) violation(s, "assert", cstr(s, a[1].c)); return false; } E c = v.e->w == 1 ? v.e : mkNot(mkBin(O_EQ, v.e, mkC(0, v.e->w)));
        if (isC(c)) { if (!c->val) violation(s, "assert", cstr(s, a[1].c)); return false; }
        assertQ++;
        if (ev(s, c) != 1) { violation(s, "assert", cstr(s, a[1].c)); return false; }
        ModelP m; S.strict = true; SatRes x = S.check(s.cons, mkNot(c), *s.model, &m); S.strict = false; if (x == R_UNKNOWN) { incomplete.insert("solver timeout (assert: " + cstr(s, a[1].c) + ")"); return false; }
        if (x == R_SAT) { State* o = clone(s); o->model = m; State* keep = cur; (void)keep; violation(*o, "assert", cstr(*o, a[1].c)); dead = false; delete o; addCons(s, c); if (stopFirst) dead = true; return false; }
        return false; }
      case B_FAIL: violation(s, "assert", cstr(s, a[0].c)); return false;
      case B_COVER: s.covers.insert(cstr(s, a[0].c)); return false;
      case B_OBSERVE: { Obs o; o.tag = cstr(s, a[0].c); o.bytes.push_back(a[1]); o.w.push_back(64); s.obs.push_back(o); return false; }
      case B_OBSERVE_BYTES: { Obs o; o.tag = cstr(s, a[0].c); u64 p = C(1); if (dead) return false; u64 n = C(2); if (dead) return false; for (u64 i = 0; i < n; i++) { o.bytes.push_back(loadN(s, p + i, 8)); o.w.push_back(9); if (dead) return false; } s.obs.push_back(o); return false; }
      case B_CONCRETIZE: r = VC(C(0)); return false;
      case B_IS_SYM: r = VC(a[0].e != nullptr); return false;
      case B_PARAM: { u64 i = a[0].c; if (i >= params.size()) unsup("missing parameter"); r = VC((u64)(i64)params[i]); if (in.n && in.I) { unsigned w = widthOf(in.I->getType()); r.c &= maskw(w); } return false; }
      case B_MALLOC: { u64 n = C(0); if (dead) return false; if (n > (1u << 22)) { r = VC(0); return false; } u32 id = newObj(s, n, K_HEAP); r = VC(addrOf(id)); return false; }
      case B_FREEZE: { u64 on = C(0); s.freeze = on ? s.nobj : 0; return false; }
      case B_INIT: { s.initDepth += (int)C(0); return false; }
      case B_FREE: { u64 p = C(0); if (dead) return false; if (!p) return false; Obj* o; u32 id; u64 off; if (!inBounds(s, p, 0, o, id, off) || off || o->kind != K_HEAP) { violation(s, "memory", o ? "invalid free" : "double free or free of a wild pointer"); return false; } if (frozen(s, o, id, "release of")) return false; delObj(s, id); s.liveHeap--; return false; }
      case B_UNWIND: { u64 p = C(0); if (dead) return false; popFrameForUnwind(s); unwind(s, p); return true; }
      case B_FMTD: { u64 buf = C(0), cap = C(1); std::string fmt = cstr(s, C(2)); u64 prec = C(3); u64 bits = C(4); if (dead) return false; char* b = (char*)malloc(cap + 1); int n = snprintf(b, cap, fmt.c_str(), (int)prec, asd(bits)); if (n >= (int)cap) n = cap - 1; for (int i = 0; i <= n && !dead; i++) storeN(s, buf + i, 8, VC((u8)b[i])); free(b); r = VC((u64)n); return false; }
      case B_TERMINATE: violation(s, "terminate", cstr(s, a[0].c)); return false;
      case B_LIVE: r = VC(s.liveHeap - staticLive(s)); return false;
      case B_STATIC_LIVE: r = VC(staticLive(s)); return false;
      case B_FORGET: leakIgnored++; s.liveHeap = 0; return false;
      case B_ENGINE: r = VC(1); return false;
      case B_TICK: r = VC(s.ninst); return false;
      case B_MEMCPY: case B_MEMMOVE: { u64 d = C(0); if (dead) return false; u64 q = C(1); if (dead) return false; u64 n = C(2); if (dead) return false; copyMem(s, d, q, n); r = VC(d); return false; }
      case B_MEMSET: { u64 d = C(0); if (dead) return false; u64 n = C(2); if (dead) return false; doMemset(s, d, a[1], n); r = VC(d); return false; }
      case B_MEMCMP: case B_BCMP: { u64 p = C(0); if (dead) return false; u64 q = C(1); if (dead) return false; u64 n = C(2); if (dead) return false;
        if (!n) { r = VC(0); return false; }
        Obj* o; u32 id; u64 off; if (!inBounds(s, p, n, o, id, off)) { badAccess(s, p, n, false); return false; } if (!inBounds(s, q, n, o, id, off)) { badAccess(s, q, n, false); return false; }
        Val res = VC(0);
        for (i64 i = n - 1; i >= 0; i--) { Val x = loadN(s, p + i, 8), y = loadN(s, q + i, 8); if (dead) return false; Val eq = binv(O_EQ, x, y, 8); Val lt = binv(O_ULT, x, y, 8); Val d = itev(lt, VC(0xffffffffu), VC(1), 32); res = itev(eq, res, d, 32); }
        r = res; return false; }
      case B_WMEMCMP: unsup("wmemcmp");
      case B_CEIL: r = fun(O_FCEIL, a[0], 64, 64); return false; case B_FLOOR: r = fun(O_FFLOOR, a[0], 64, 64); return false; case B_FABS: r = binv(O_AND, a[0], VC(maskw(63)), 64); return false;
      case B_SQRT: r = fun(O_FSQRT, a[0], 64, 64); return false; case B_TRUNC: r = fun(O_FTRUNC, a[0], 64, 64); return false; case B_RINT: r = fun(O_FRINT, a[0], 64, 64); return false;
      case B_FMOD: r = VC(fpbin(O_FREM, C(0), C(1), 64)); return false;
      case B_UBSAN: { // SourceLocation is the first field of the data block
        std::string file; u64 line = 0; if (!a.empty() && !a[0].e) { u64 fp = loadN(s, a[0].c, 64).c; if (dead) return false; file = cstr(s, fp); line = loadN(s, a[0].c + 8, 32).c; }
        std::string nm = g->name.substr(15); if (nm.size() > 6 && nm.substr(nm.size() - 6) == "_abort") nm = nm.substr(0, nm.size() - 6);
        if (nm.size() > 3 && nm.substr(nm.size() - 3) == "_v1") nm = nm.substr(0, nm.size() - 3);
        violation(s, "ub", "undefined behaviour: " + nm + " at " + file.substr(file.find_last_of('/') == std::string::npos ? 0 : file.find_last_of('/') + 1)); (void)line; return false; }
      default: unsup("builtin " + g->name);
    }
  }
  void popFrameForUnwind(State& s) { popFrame(s); } // frame of the runtime function that called __sx_unwind

  void setup(State* s, const std::string& entry) {
    // constructors, then the entry function
    std::vector<FnInfo*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, FnInfo*>> v; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); u64 pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue(); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({pr, fn(F)}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) ctors.push_back(x.second); }
    leakCheck = false;
    for (FnInfo* c : ctors) { pushCall(*s, c, {}); u64 p = paths; run(s); if (paths != p + 1) { fprintf(stderr, "global constructor failed: %s %s\n", c->name.c_str(), viols.empty() ? "" : (viols[0].msg + " " + viols[0].loc).c_str()); for (auto& v : viols) for (auto& l : v.stack) fprintf(stderr, "   %s\n", l.c_str()); exit(3); } paths = 0; samples.clear(); sampleSeen = 0; }
    leakCheck = true; s->liveHeap = 0; entryObj = s->nobj; s->ninst = 0; s->covers.clear(); insts = 0;
    Function* F = M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
    pushCall(*s, fn(F), {}); work.push_back(s);
  }
  bool stopNow() { return now() - t0 > timeLimit || (int)viols.size() >= maxViol || paths >= maxPaths; }
  void loop(bool bfs, size_t until) {
    while (!work.empty()) {
      if (until && work.size() >= until) return;
      if (stopNow()) { if ((int)viols.size() < maxViol) incomplete.insert(paths >= maxPaths ? "path limit" : "time limit"); return; }
      State* s; if (bfs) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
      if (!s) return;
      try { run(s); } catch (Unsupported& u) { incomplete.insert("unsupported: " + u.msg + " [" + locOf(curInst(*s)) + "]"); auto st = stackOf(*s); if (!unsupportedSeen[u.msg]) { unsupportedSeen[u.msg] = true; fprintf(stderr, "unsupported: %s\n", u.msg.c_str()); for (auto& l : st) fprintf(stderr, "   %s\n", l.c_str()); } }
      delete s;
    }
  }
};

static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void dumpInputs(FILE* o, const std::vector<std::pair<Input, u64>>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[%s,%d,\"%llu\"]", i ? "," : "", js(v[i].first.name).c_str(), v[i].first.w, (unsigned long long)v[i].second); fprintf(o, "]"); }

static void report(Engine& e, const std::string& out) {
  FILE* o = fopen(out.c_str(), "w"); if (!o) { perror(out.c_str()); exit(3); }
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"assumeKilled\":%llu,\"asserts\":%llu,\"assertQueries\":%llu,\"errPaths\":%llu,\"maxDepth\":%llu,\"maxPathInst\":%llu,\n", (unsigned long long)e.paths, (unsigned long long)e.forks, (unsigned long long)e.insts, (unsigned long long)e.assumeKilled, (unsigned long long)e.asserts, (unsigned long long)e.assertQ, (unsigned long long)e.errPaths, (unsigned long long)e.maxDepth, (unsigned long long)e.maxPathInst);
  auto& st = e.S.st; fprintf(o, "\"queries\":%llu,\"z3calls\":%llu,\"cachehits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"enum8\":%llu,\"interval\":%llu,\"z3time\":%.3f,\"maxq\":%.3f,\"wall\":%.3f,\n", (unsigned long long)st.queries, (unsigned long long)st.z3calls, (unsigned long long)st.cachehits, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.enum8, (unsigned long long)st.interval, st.z3time, st.maxq, now() - e.t0);
  fprintf(o, "\"incomplete\":["); bool f = true; for (auto& s : e.incomplete) { fprintf(o, "%s%s", f ? "" : ",", js(s).c_str()); f = false; }
  fprintf(o, "],\n\"covers\":{"); f = true; for (auto& c : e.covers) { fprintf(o, "%s%s:%llu", f ? "" : ",", js(c.first).c_str(), (unsigned long long)c.second); f = false; }
  fprintf(o, "},\n\"violations\":["); f = true; for (auto& v : e.viols) { fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"ninst\":%llu,\"stack\":[", f ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), (unsigned long long)v.ninst); for (size_t i = 0; i < v.stack.size(); i++) fprintf(o, "%s%s", i ? "," : "", js(v.stack[i]).c_str()); fprintf(o, "],\"inputs\":"); dumpInputs(o, v.inputs); fprintf(o, ",\"obs\":%s}", js(v.obs).c_str()); f = false; }
  fprintf(o, "],\n\"samples\":["); f = true; for (auto& t : e.samples) { fprintf(o, "%s{\"inputs\":", f ? "" : ",\n"); dumpInputs(o, t.inputs); fprintf(o, ",\"obs\":%s}", js(t.obs).c_str()); f = false; }
  // functions and lines executed (incl. inlined) inside configor
  std::set<std::string> fnset, lines; for (auto& p : e.fns) if (p.second->decoded) for (auto& in : p.second->code) if (in.hit && in.I && in.I->getDebugLoc()) for (const DILocation* L = in.I->getDebugLoc().get(); L; L = L->getInlinedAt()) { std::string fl = L->getFilename().str(); if (fl.find("configor/") == std::string::npos) continue; size_t k = fl.rfind('/'); std::string b = fl.substr(k + 1); fnset.insert(b + ":" + L->getScope()->getSubprogram()->getName().str()); if (L->getLine()) lines.insert(b + ":" + std::to_string(L->getLine())); }
  fprintf(o, "],\n\"functions\":["); f = true; for (auto& s : fnset) { fprintf(o, "%s%s", f ? "" : ",", js(s).c_str()); f = false; }
  fprintf(o, "],\n\"lines\":["); f = true; for (auto& s : lines) { fprintf(o, "%s%s", f ? "" : ",", js(s).c_str()); f = false; }
  fprintf(o, "]}\n"); fclose(o);
}

int main(int argc, char** argv) {
  std::string mod, entry, out = "out.json"; int jobs = 1; size_t split = 0; Engine e; e.t0 = now();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--param") { std::string v = nx(); size_t p = 0; while (p < v.size()) { size_t q = v.find(',', p); if (q == std::string::npos) q = v.size(); e.params.push_back(atoi(v.substr(p, q - p).c_str())); p = q + 1; } }
    else if (a == "--time") e.timeLimit = atof(nx().c_str()); else if (a == "--max-inst") e.maxInst = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") e.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--samples") e.nSamples = atoi(nx().c_str()); else if (a == "--seed") e.rng = strtoull(nx().c_str(), 0, 10) * 7919 + 1; else if (a == "--query-timeout") e.S.timeout_ms = atoi(nx().c_str()); else if (a == "--max-viol") e.maxViol = atoi(nx().c_str()); else if (a == "--stop-first") e.stopFirst = true; else if (a == "--zero-uninit") e.zeroUninit = true; else mod = a; }
  LLVMContext C; e.load(mod, C);
  State* s = e.initial();
  try { e.setup(s, entry); } catch (Unsupported& u) { fprintf(stderr, "unsupported in setup: %s\n", u.msg.c_str()); for (auto& l : e.stackOf(*s)) fprintf(stderr, "   %s\n", l.c_str()); return 3; }
  if (jobs > 1) {
    e.loop(true, split ? split : jobs * 24);
    if (!e.work.empty() && !e.stopNow()) {
      std::vector<pid_t> kids; std::vector<State*> all(e.work.begin(), e.work.end());
      for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (p == 0) {
          e.work.clear(); for (size_t i = 0; i < all.size(); i++) if ((int)(i % jobs) == j) e.work.push_back(all[i]);
          e.paths = e.forks = e.insts = e.assumeKilled = e.asserts = e.assertQ = e.errPaths = 0; e.S.st = SolverStats(); e.samples.clear(); e.sampleSeen = 0; e.covers.clear(); e.viols.clear(); e.incomplete.clear(); e.rng += j * 104729;
          e.loop(false, 0); report(e, out + "." + std::to_string(j)); fflush(0); _exit(0); } kids.push_back(p); }
      for (size_t j = 0; j < kids.size(); j++) { int stt; waitpid(kids[j], &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) e.incomplete.insert("worker died"); }
    }
  } else e.loop(false, 0);
  report(e, out); fflush(0); _exit(0);
}
