// symex: merging symbolic executor for LLVM IR.
//
// Every program value is a set of (concrete value, guard) pairs, guards being
// BDDs over the symbolic input bits.  States that reach the same program point
// in the same calling context are merged, so one run covers every input of the
// stated shape.  Output is a log of guarded texts, guarded faults (memory
// errors, use of uninitialised values, ...) and exits; the obligations over
// them are decided by an SMT solver (see lib/).
#include "bdd.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace llvm;
static Bdd B;

//===------------------------------------------------------------------===//
// Values
//===------------------------------------------------------------------===//
static const uint32_t OU = 0xffffffffu; // undefined
static const uint32_t OE = 0xfffffffeu; // no value at all
struct Val {
  uint64_t b; uint32_t o;
  bool operator==(const Val &x) const { return b == x.b && o == x.o; }
};
static inline Val VI(uint64_t b) { return {b, 0}; }
static const Val UNDEF = {0, OU};
// partly undefined integers (LLVM's SROA packs small structs into words): undefined values whose b names
// the defined bits and the mask of the undefined ones; b = 0 is wholly undefined
struct Part { uint64_t bits, mask; };
static std::vector<Part> parts{{0, ~0ull}};
static std::map<std::pair<uint64_t, uint64_t>, uint64_t> partIx;
static Val mkPart(uint64_t bits, uint64_t mask) {
  if (!mask) return VI(bits);
  bits &= ~mask;
  if (mask == ~0ull) return UNDEF;
  auto r = partIx.insert({{bits, mask}, parts.size()});
  if (r.second) parts.push_back({bits, mask});
  return {r.first->second, OU};
}
struct Ent { Val v; G g; };
struct MV { int rc; std::vector<Ent> e; };
struct VS {
  Val v; MV *m;
  VS() : v{0, OE}, m(nullptr) {}
  VS(Val x) : v(x), m(nullptr) {}
  VS(const VS &o) : v(o.v), m(o.m) { if (m) m->rc++; }
  VS(VS &&o) noexcept : v(o.v), m(o.m) { o.m = nullptr; o.v.o = OE; }
  VS &operator=(const VS &o) { if (o.m) o.m->rc++; drop(); v = o.v; m = o.m; return *this; }
  VS &operator=(VS &&o) noexcept { if (this != &o) { drop(); v = o.v; m = o.m; o.m = nullptr; o.v.o = OE; } return *this; }
  ~VS() { drop(); }
  void drop() { if (m && --m->rc == 0) delete m; m = nullptr; }
  bool empty() const { return !m && v.o == OE; }
  bool single() const { return !m; }
  bool isConst(uint64_t x) const { return !m && v.o == 0 && v.b == x; }
};
struct Builder {
  std::vector<Ent> e;
  void add(Val v, G g) {
    if (g == GF) return;
    for (auto &x : e) if (x.v == v) { x.g = B.Or(x.g, g); return; }
    e.push_back({v, g});
  }
  VS done() {
    if (e.empty()) return VS();
    if (e.size() == 1) return VS(e[0].v);
    VS r; r.m = new MV{1, std::move(e)};
    return r;
  }
};
template <class F> static inline void each(const VS &s, G g, F f) {
  if (!s.m) { if (s.v.o != OE) f(s.v, g); return; }
  for (auto &x : s.m->e) { G h = B.And(x.g, g); if (h != GF) f(x.v, h); }
}
static VS view(const VS &s, G g) {
  if (!s.m) return s;
  bool chg = false; Builder bl;
  for (auto &x : s.m->e) { G h = B.And(x.g, g); if (h != x.g) chg = true; if (h != GF) bl.e.push_back({x.v, h}); }
  if (!chg) return s;
  return bl.done();
}
static VS mergeVS(const VS &old, const VS &neu, G g, G live) {
  if (g == live || old.empty()) return view(neu, g);
  if (!old.m && !neu.m && old.v == neu.v) return old;
  G rest = B.Diff(live, g);
  if (rest == GF) return view(neu, g);
  Builder bl;
  each(neu, g, [&](Val v, G h) { bl.add(v, h); });
  each(old, rest, [&](Val v, G h) { bl.add(v, h); });
  return bl.done();
}
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sext(uint64_t b, unsigned w) { return w >= 64 ? (int64_t)b : ((int64_t)(b << (64 - w))) >> (64 - w); }

//===------------------------------------------------------------------===//
// Objects
//===------------------------------------------------------------------===//
struct Cell { VS v; int16_t sz = 0; }; // sz>0: start, <0: interior at -sz bytes, 0: none
enum Kind { KHeap, KGlobal, KStack, KConst, KFunc };
struct Obj {
  uint64_t size = 0; Kind kind = KHeap; bool arr = false;
  G alloc = GF, freed = GF;
  std::vector<Cell> c;
  Function *fn = nullptr; std::string name;
  void lazy() { if (c.size() < size) c.resize(size); }
};
static std::vector<Obj *> objs(1, nullptr);
static uint32_t newObj(uint64_t size, Kind k, std::string name = "") {
  Obj *o = new Obj; o->size = size; o->kind = k; o->name = std::move(name);
  objs.push_back(o);
  return objs.size() - 1;
}
static uint64_t matz(Val v) { return v.o == 0 ? v.b : ((uint64_t)v.o << 32) + 0x10000 + v.b; }

//===------------------------------------------------------------------===//
// Program representation
//===------------------------------------------------------------------===//
struct Opnd { int slot = -1; VS c; };
struct Edge { int target = -1; std::vector<std::pair<int, Opnd>> phis; };
struct PFunc;
typedef std::function<void(struct Frame *, struct PInst &, G &)> Intr;
struct Leaf { Type *t; uint64_t off; };
struct PInst {
  unsigned op = 0; Instruction *I = nullptr; int dst = -1; int nd = 0;
  std::vector<Opnd> a; std::vector<Edge> e; std::vector<uint64_t> k;
  unsigned w = 0, w2 = 0; uint64_t sz = 0; int x = 0;
  Function *callee = nullptr; PFunc *pf = nullptr; Intr *intr = nullptr;
  std::vector<Leaf> leaves;
  uint64_t hits = 0;
};
struct PFunc { Function *F; int nslots = 0; std::vector<PInst> in; std::vector<int> argslot; uint64_t entered = 0; };
struct Frame {
  PFunc *fn; Frame *parent; int callpos; int depth;
  std::vector<VS> r; G live = GF;
  std::map<int, G> pend;
  std::map<std::pair<int, PFunc *>, Frame *> kids;
  std::map<std::pair<int, PFunc *>, Frame *> act;
  DenseMap<int, uint32_t> allocas;
};

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static DenseMap<const GlobalValue *, uint32_t> gobj;
static std::map<Function *, PFunc *> pfs;
static std::map<std::string, Intr> intrs;
static G Live = GT, Care = GT;
static G Spin = GF;  // what was running last: when a run is cut short, the inputs that kept it busy
static Frame *Root;
static uint64_t nExec = 0, nBlocks = 0, budget = 0, nCalls = 0;
static int maxDepth = 400;
static double tlimit = 1e9, memlimit = 0;
static bool stopped = false; static std::string stopWhy;
static Frame *curF; static PInst *curI;

struct Viol { std::string kind, loc, stack; G g; };
static std::vector<Viol> viols;
struct Event { G g; std::vector<std::pair<std::string, G>> t; };
static std::map<std::string, std::vector<Event>> streams;
static std::map<std::string, uint64_t> seqOf;
static uint64_t evSeq = 0;
struct ExitF { int code; G g; std::string how; };
static std::vector<ExitF> exits;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return I->getFunction()->getName().str();
  // outermost-inlined location that is not in a system header
  DILocation *L = d.get();
  std::string best;
  for (DILocation *x = L; x; x = x->getInlinedAt()) {
    std::string f = x->getFilename().str();
    if (f.find("/usr/") == std::string::npos && f.find("/model/") == std::string::npos) {
      size_t p = f.rfind('/');
      return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(x->getLine());
    }
    best = f + ":" + std::to_string(x->getLine());
  }
  return best;
}
static std::string stackOf(Frame *f, const Instruction *I) {
  std::string s; int n = 0;
  // the first location outside system headers, walking up
  while (f && n < 6) {
    if (I) { s += locOf(I); s += " < "; }
    I = f->parent ? f->parent->fn->in[f->callpos].I : nullptr;
    f = f->parent; n++;
  }
  return s;
}
static void kill(Frame *f, G gk, G &g) {
  for (; f; f = f->parent) {
    f->live = B.Diff(f->live, gk);
    if (f->live == GF && f->parent) f->parent->act.erase({f->callpos, f->fn});
  }
  Live = B.Diff(Live, gk);
  g = B.Diff(g, gk);
}
static void violate(const char *kind, G gk, G &g) {
  if (gk == GF) return;
  std::string st = stackOf(curF, curI ? curI->I : nullptr);
  std::string loc = st.substr(0, st.find(" < "));
  if (loc.find("/usr/") != std::string::npos || loc.find(".cc:") == std::string::npos) {
    // attribute to the nearest repository line on the stack
    size_t p = st.find(".cc:");
    if (p != std::string::npos) { size_t a = st.rfind(" < ", p); a = a == std::string::npos ? 0 : a + 3; loc = st.substr(a, st.find(" < ", p) - a); }
  }
  for (auto &v : viols) if (v.kind == kind && v.loc == loc) { v.g = B.Or(v.g, gk); kill(curF, gk, g); return; }
  viols.push_back({kind, loc, st, gk});
  kill(curF, gk, g);
}
[[noreturn]] static void unsupported(const std::string &w) {
  errs() << "UNSUPPORTED: " << w << " at " << stackOf(curF, curI ? curI->I : nullptr) << "\n";
  printf("{\"unsupported\": \"%s\"}\n", w.c_str());
  exit(3);
}

//===------------------------------------------------------------------===//
// Memory access
//===------------------------------------------------------------------===//
static void splitCell(Obj *o, uint64_t st) { // into byte cells
  Cell old = o->c[st]; int n = old.sz;
  if (n <= 1) return;
  for (int i = 0; i < n; i++) {
    Cell &c = o->c[st + i]; c.sz = 1;
    Builder bl; bool u = false; (void)u;
    each(old.v, GT, [&](Val v, G g) {
      if (v.o == OU) bl.add(v.b ? mkPart(parts[v.b].bits >> (8 * i) & 0xff, parts[v.b].mask >> (8 * i) & 0xff) : UNDEF, g);
      else if (v.o != 0) bl.add({(matz(v) >> (8 * i)) & 0xff, 0}, g);
      else bl.add(VI((v.b >> (8 * i)) & 0xff), g);
    });
    c.v = bl.done();
  }
}
static uint64_t cellStart(Obj *o, uint64_t off) { return o->c[off].sz < 0 ? off + o->c[off].sz : off; }
// read without checks; result may contain UNDEF
static VS rawRead(Obj *o, uint64_t off, unsigned sz, G g) {
  o->lazy();
  Cell &c = o->c[off];
  if (c.sz == (int)sz) return view(c.v, g);
  if (c.sz == 0) {
    bool any = false;
    for (unsigned i = 0; i < sz; i++) if (o->c[off + i].sz != 0) any = true;
    if (!any) return VS(UNDEF);
  }
  // within one larger cell: extract bits
  uint64_t st = cellStart(o, off);
  if (c.sz != 0 && st + o->c[st].sz >= off + sz) {
    Builder bl; unsigned sh = (off - st) * 8;
    each(o->c[st].v, g, [&](Val v, G h) {
      if (v.o == OU) bl.add(v.b ? mkPart(parts[v.b].bits >> sh & maskw(sz * 8), parts[v.b].mask >> sh & maskw(sz * 8)) : UNDEF, h);
      else bl.add(VI(((v.o ? matz(v) : v.b) >> sh) & maskw(sz * 8)), h);
    });
    return bl.done();
  }
  // compose from pieces
  std::vector<Ent> acc{{VI(0), g}};
  std::vector<G> undefAll; bool anyInit = false; G init = GF;
  uint64_t p = off;
  while (p < off + sz) {
    uint64_t s = cellStart(o, p);
    if (o->c[p].sz == 0) { p++; continue; }
    uint64_t e = s + o->c[s].sz; uint64_t pe = e < off + sz ? e : off + sz;
    unsigned drop = (p - s) * 8, nb = (pe - p) * 8, at = (p - off) * 8;
    std::vector<Ent> nx;
    for (auto &x : acc)
      each(o->c[s].v, x.g, [&](Val v, G h) {
        uint64_t bits = 0;
        if (v.o != OU) { bits = ((v.o ? matz(v) : v.b) >> drop) & maskw(nb); init = B.Or(init, h); anyInit = true; }
        Val nv = VI(x.v.b | (at >= 64 ? 0 : bits << at));
        bool f = false;
        for (auto &y : nx) if (y.v == nv) { y.g = B.Or(y.g, h); f = true; break; }
        if (!f) nx.push_back({nv, h});
      });
    acc.swap(nx);
    p = pe;
  }
  Builder bl;
  for (auto &x : acc) {
    bl.add(x.v, B.And(x.g, init));
    bl.add(UNDEF, B.Diff(x.g, init));
  }
  return bl.done();
}
static void rawWrite(Obj *o, uint64_t off, unsigned sz, const VS &v, G g) {
  o->lazy();
  Cell &c = o->c[off];
  if (c.sz == (int)sz) {
    c.v = mergeVS(c.v.empty() ? VS(UNDEF) : c.v, v, g, Live);
    return;
  }
  VS old;
  bool full = g == Live;
  if (!full) { G rest = B.Diff(Live, g); if (rest == GF) full = true; else old = rawRead(o, off, sz, rest); }
  // split partially overlapped neighbours
  if (c.sz < 0) splitCell(o, off + c.sz);
  uint64_t last = off + sz - 1;
  if (o->c[last].sz != 0) { uint64_t s = cellStart(o, last); if (s + o->c[s].sz > off + sz) splitCell(o, s); }
  for (unsigned i = 0; i < sz; i++) { o->c[off + i].v = VS(); o->c[off + i].sz = i ? -(int)i : (int)sz; }
  o->c[off].v = full ? view(v, g) : mergeVS(old, v, g, Live);
}
// pointer check; kills bad guards
static bool checkPtr(Val p, uint64_t sz, G &h, G &g, bool write) {
  if (p.o == OU) { violate("uninit-pointer", h, g); return false; }
  if (p.o == 0) { violate(p.b < 4096 ? "null-dereference" : "wild-pointer", h, g); return false; }
  Obj *o = objs[p.o];
  if (o->kind == KFunc) { violate("access-to-code", h, g); return false; }
  if ((int64_t)p.b < 0 || p.b + sz > o->size) { violate(write ? "out-of-bounds-write" : "out-of-bounds-read", h, g); return false; }
  if (o->freed != GF) {
    G f = B.And(h, o->freed);
    if (f != GF) { violate("use-after-free", f, g); h = B.Diff(h, f); if (h == GF) return false; }
  }
  if (write && o->kind == KConst) { violate("write-to-constant", h, g); return false; }
  return true;
}
static VS loadMem(const VS &p, unsigned sz, G &g) {
  if (p.single() && p.v.o && p.v.o < OE) {
    G h = g;
    if (!checkPtr(p.v, sz, h, g, false)) return VS();
    return rawRead(objs[p.v.o], p.v.b, sz, h);
  }
  Builder bl;
  std::vector<Ent> ps; each(p, g, [&](Val v, G h) { ps.push_back({v, h}); });
  for (auto &x : ps) {
    G h = x.g;
    if (!checkPtr(x.v, sz, h, g, false)) continue;
    VS r = rawRead(objs[x.v.o], x.v.b, sz, h);
    each(r, h, [&](Val v, G k) { bl.add(v, k); });
  }
  return bl.done();
}
static void storeMem(const VS &p, unsigned sz, const VS &v, G &g) {
  std::vector<Ent> ps; each(p, g, [&](Val x, G h) { ps.push_back({x, h}); });
  for (auto &x : ps) {
    G h = x.g;
    if (!checkPtr(x.v, sz, h, g, true)) continue;
    rawWrite(objs[x.v.o], x.v.b, sz, v, h);
  }
}

static bool isLeaf(Type *T) { return T->isIntegerTy() || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy() || T->isX86_FP80Ty(); }
static void flatten(Type *T, uint64_t off, std::vector<Leaf> &out) {
  if (isLeaf(T)) { out.push_back({T, off}); return; }
  if (auto *S = dyn_cast<StructType>(T)) {
    const StructLayout *SL = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + SL->getElementOffset(i), out);
    return;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * es, out);
    return;
  }
  if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return;
  std::string s; raw_string_ostream os(s); T->print(os);
  unsupported("type " + os.str());
}
static unsigned leafIndex(Type *T, ArrayRef<unsigned> idx, unsigned &cnt) {
  unsigned base = 0;
  for (unsigned i : idx) {
    if (auto *S = dyn_cast<StructType>(T)) {
      for (unsigned k = 0; k < i; k++) { std::vector<Leaf> l; flatten(S->getElementType(k), 0, l); base += l.size(); }
      T = S->getElementType(i);
    } else {
      auto *A = cast<ArrayType>(T); std::vector<Leaf> l; flatten(A->getElementType(), 0, l);
      base += l.size() * i; T = A->getElementType();
    }
  }
  std::vector<Leaf> l; flatten(T, 0, l); cnt = l.size();
  return base;
}
static unsigned leafSize(Type *T) { return (unsigned)DL->getTypeStoreSize(T).getFixedValue(); }
static unsigned widthOf(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32;
  return 64;
}

//===------------------------------------------------------------------===//
// Constants
//===------------------------------------------------------------------===//
static uint32_t fnObj(Function *F) {
  auto it = gobj.find(F);
  if (it != gobj.end()) return it->second;
  uint32_t o = newObj(1, KFunc, F->getName().str()); objs[o]->fn = F; gobj[F] = o;
  return o;
}
static Val constLeaf(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() > 64) unsupported("wide integer");
    return VI(I->getZExtValue());
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    if (F->getType()->isX86_FP80Ty()) { double d = F->getValueAPF().convertToDouble(); uint64_t b; memcpy(&b, &d, 8); return VI(b); }
    return VI(F->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(C)) return VI(0);
  if (isa<UndefValue>(C)) return UNDEF;
  if (C->isNullValue()) return VI(0);
  if (auto *F = dyn_cast<Function>(C)) return {0, fnObj(const_cast<Function *>(F))};
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constLeaf(A->getAliasee());
  if (auto *V = dyn_cast<GlobalVariable>(C)) {
    auto it = gobj.find(V);
    if (it == gobj.end()) unsupported("global " + V->getName().str());
    return {0, it->second};
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
      Val v = constLeaf(cast<Constant>(E->getOperand(0)));
      v.b += off.getZExtValue();
      return v;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return constLeaf(cast<Constant>(E->getOperand(0)));
    case Instruction::Sub: {
      Val a = constLeaf(E->getOperand(0)), b = constLeaf(E->getOperand(1));
      if (a.o == b.o) return VI(a.b - b.b);
      break;
    }
    case Instruction::Trunc: { Val a = constLeaf(E->getOperand(0)); a.b &= maskw(E->getType()->getIntegerBitWidth()); return a; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  unsupported("constant " + os.str());
}
static void constLeaves(const Constant *C, std::vector<VS> &out) {
  Type *T = C->getType();
  if (isLeaf(T)) { out.push_back(VS(constLeaf(C))); return; }
  std::vector<Leaf> l; flatten(T, 0, l);
  if (isa<UndefValue>(C)) { for (size_t i = 0; i < l.size(); i++) out.push_back(VS(UNDEF)); return; }
  if (isa<ConstantAggregateZero>(C)) { for (size_t i = 0; i < l.size(); i++) out.push_back(VS(VI(0))); return; }
  unsigned n = isa<StructType>(T) ? cast<StructType>(T)->getNumElements() : cast<ArrayType>(T)->getNumElements();
  for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out);
}
static void initGlobals() {
  for (auto &V : M->globals()) {
    Type *T = V.getValueType();
    uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T).getFixedValue() : 8;
    uint32_t o = newObj(sz, V.isConstant() ? KConst : KGlobal, V.getName().str());
    gobj[&V] = o; objs[o]->alloc = GT;
  }
  for (auto &V : M->globals()) {
    if (!V.hasInitializer()) continue;
    Obj *o = objs[gobj[&V]];
    if (V.getName().startswith("llvm.")) continue;
    o->lazy();
    const Constant *C = V.getInitializer();
    if (isa<ConstantAggregateZero>(C)) {
      for (uint64_t i = 0; i < o->size; i++) { o->c[i].sz = 1; o->c[i].v = VS(VI(0)); }
      continue;
    }
    std::vector<Leaf> l; flatten(C->getType(), 0, l);
    std::vector<VS> v; constLeaves(C, v);
    for (size_t i = 0; i < l.size(); i++) {
      unsigned s = leafSize(l[i].t);
      for (unsigned k = 0; k < s; k++) o->c[l[i].off + k].sz = k ? -(int)k : (int)s;
      o->c[l[i].off].v = v[i];
    }
  }
}

//===------------------------------------------------------------------===//
// Translation of functions into linear, loop-contiguous order
//===------------------------------------------------------------------===//
static void layoutRegion(Function &F, LoopInfo &LI, Loop *L, std::vector<BasicBlock *> &out) {
  // nodes: blocks whose innermost loop is L, and direct sub-loops of L
  auto nodeOf = [&](BasicBlock *b) -> void * {
    Loop *l = LI.getLoopFor(b);
    if (l == L) return b;
    if (L && !L->contains(b)) return nullptr;
    while (l && l->getParentLoop() != L) l = l->getParentLoop();
    return l ? (void *)l : nullptr;
  };
  std::set<void *> seen; std::vector<std::pair<void *, bool>> post;
  std::function<void(void *, bool)> dfs = [&](void *n, bool isLoop) {
    if (!seen.insert(n).second) return;
    auto go = [&](BasicBlock *b) {
      // visit exits of the region last so that they come later in reverse postorder
      SmallVector<BasicBlock *, 4> ss(successors(b));
      for (BasicBlock *s : ss) {
        if (L && s == L->getHeader()) continue;
        void *m = nodeOf(s);
        if (!m || m == n) continue;
        dfs(m, LI.getLoopFor(s) != L);
      }
    };
    if (isLoop) { for (BasicBlock *b : ((Loop *)n)->blocks()) go(b); }
    else go((BasicBlock *)n);
    post.push_back({n, isLoop});
  };
  BasicBlock *entry = L ? L->getHeader() : &F.getEntryBlock();
  void *en = nodeOf(entry);
  dfs(en, LI.getLoopFor(entry) != L);
  for (auto it = post.rbegin(); it != post.rend(); ++it) {
    if (it->second) layoutRegion(F, LI, (Loop *)it->first, out);
    else out.push_back((BasicBlock *)it->first);
  }
}
static bool skipCall(const CallBase *C) {
  if (isa<DbgInfoIntrinsic>(C)) return true;
  if (auto *I = dyn_cast<IntrinsicInst>(C)) switch (I->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start:
    case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch: return true;
    default: return false;
    }
  return false;
}
static PFunc *getPF(Function *F) {
  auto it = pfs.find(F);
  if (it != pfs.end()) return it->second;
  PFunc *P = new PFunc; P->F = F; pfs[F] = P;
  DominatorTree DT(*F); LoopInfo LI(DT);
  std::vector<BasicBlock *> order; layoutRegion(*F, LI, nullptr, order);
  DenseMap<const Value *, int> slot;
  auto alloc = [&](const Value *v) {
    std::vector<Leaf> l; flatten(v->getType(), 0, l);
    slot[v] = P->nslots; P->nslots += l.size();
  };
  for (auto &A : F->args()) { alloc(&A); P->argslot.push_back(slot[&A]); }
  for (BasicBlock *b : order) for (auto &I : *b) if (!I.getType()->isVoidTy()) alloc(&I);
  auto ops = [&](const Value *v, std::vector<Opnd> &out) {
    if (auto *C = dyn_cast<Constant>(v)) {
      std::vector<VS> vs; constLeaves(C, vs);
      for (auto &x : vs) { Opnd o; o.c = x; out.push_back(o); }
      return;
    }
    std::vector<Leaf> l; flatten(v->getType(), 0, l);
    for (size_t i = 0; i < l.size(); i++) { Opnd o; o.slot = slot[v] + i; out.push_back(o); }
  };
  std::map<BasicBlock *, int> start;
  for (BasicBlock *b : order) {
    start[b] = P->in.size();
    for (auto &I : *b) {
      if (isa<PHINode>(I)) continue;
      if (auto *C = dyn_cast<CallBase>(&I)) if (skipCall(C) && !C->isTerminator()) continue;
      PInst p; p.op = I.getOpcode(); p.I = &I;
      if (!I.getType()->isVoidTy()) {
        p.dst = slot[&I]; std::vector<Leaf> l; flatten(I.getType(), 0, l); p.nd = l.size();
        if (isLeaf(I.getType())) p.w = widthOf(I.getType());
      }
      switch (p.op) {
      case Instruction::GetElementPtr: {
        auto &Gp = cast<GetElementPtrInst>(I);
        ops(Gp.getPointerOperand(), p.a);
        uint64_t cst = 0;
        for (gep_type_iterator gi = gep_type_begin(Gp), ge = gep_type_end(Gp); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *S = gi.getStructTypeOrNull()) {
            cst += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *CI = dyn_cast<ConstantInt>(ix)) cst += es * CI->getSExtValue();
            else { ops(ix, p.a); p.k.push_back(es); p.k.push_back(widthOf(ix->getType())); }
          }
        }
        p.sz = cst;
        break;
      }
      case Instruction::Load: {
        flatten(I.getType(), 0, p.leaves); ops(I.getOperand(0), p.a);
        break;
      }
      case Instruction::Store: {
        flatten(I.getOperand(0)->getType(), 0, p.leaves);
        ops(I.getOperand(1), p.a); ops(I.getOperand(0), p.a);
        break;
      }
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        p.sz = DL->getTypeAllocSize(A.getAllocatedType());
        ops(A.getArraySize(), p.a);
        break;
      }
      case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I); unsigned cnt;
        p.x = leafIndex(E.getAggregateOperand()->getType(), E.getIndices(), cnt);
        ops(E.getAggregateOperand(), p.a);
        break;
      }
      case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I); unsigned cnt;
        p.x = leafIndex(E.getAggregateOperand()->getType(), E.getIndices(), cnt); p.w2 = cnt;
        ops(E.getAggregateOperand(), p.a); ops(E.getInsertedValueOperand(), p.a);
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I);
        p.callee = C.getCalledFunction();
        if (!p.callee) { auto *A = dyn_cast<GlobalAlias>(C.getCalledOperand()); if (A) p.callee = dyn_cast<Function>(A->getAliaseeObject()); }
        if (!p.callee) { ops(C.getCalledOperand(), p.a); p.x = 1; }
        for (auto &U : C.args()) {
          if (U->getType()->isMetadataTy()) continue;
          p.k.push_back(p.a.size()); ops(U, p.a);
        }
        break;
      }
      case Instruction::Br: case Instruction::Switch: {
        if (p.op == Instruction::Br) { auto &Br = cast<BranchInst>(I); if (Br.isConditional()) ops(Br.getCondition(), p.a); }
        else ops(cast<SwitchInst>(I).getCondition(), p.a);
        break;
      }
      case Instruction::Unreachable: break;
      default:
        if (isa<CmpInst>(I) || isa<CastInst>(I)) p.w2 = widthOf(I.getOperand(0)->getType());
        if (auto *Cm = dyn_cast<CmpInst>(&I)) p.x = Cm->getPredicate();
        for (auto &U : I.operands()) if (!isa<BasicBlock>(U)) ops(U, p.a);
      }
      P->in.push_back(std::move(p));
    }
  }
  for (auto &p : P->in) {
    auto mk = [&](BasicBlock *from, BasicBlock *to) {
      Edge e; auto it = start.find(to);
      e.target = it == start.end() ? -1 : it->second;
      for (PHINode &ph : to->phis()) {
        std::vector<Opnd> o; ops(ph.getIncomingValueForBlock(from), o);
        for (size_t i = 0; i < o.size(); i++) e.phis.push_back({slot[&ph] + (int)i, o[i]});
      }
      p.e.push_back(e);
    };
    if (auto *Br = dyn_cast<BranchInst>(p.I)) { for (unsigned i = 0; i < Br->getNumSuccessors(); i++) mk(Br->getParent(), Br->getSuccessor(i)); }
    else if (auto *Sw = dyn_cast<SwitchInst>(p.I)) {
      mk(Sw->getParent(), Sw->getDefaultDest());
      for (auto &c : Sw->cases()) { mk(Sw->getParent(), c.getCaseSuccessor()); p.k.push_back(c.getCaseValue()->getZExtValue()); }
    } else if (auto *Iv = dyn_cast<InvokeInst>(p.I)) mk(Iv->getParent(), Iv->getNormalDest());
  }
  return P;
}

//===------------------------------------------------------------------===//
// Expression evaluation
//===------------------------------------------------------------------===//
static inline const VS &opv(Frame *f, const Opnd &o) { return o.slot >= 0 ? f->r[o.slot] : o.c; }
static inline void setReg(Frame *f, int slot, const VS &v, G g) { f->r[slot] = mergeVS(f->r[slot], v, g, f->live); }

template <class F> static VS map1(const VS &a, G g, F fn) {
  if (a.single()) { if (a.v.o == OE) return VS(); if (a.v.o == OU) return VS(UNDEF); return VS(fn(a.v)); }
  Builder bl;
  each(a, g, [&](Val v, G h) { bl.add(v.o == OU ? UNDEF : fn(v), h); });
  return bl.done();
}
template <class F, class U> static VS map2u(const VS &a, const VS &b, G g, F fn, U un) {
  if (a.single() && b.single()) {
    if (a.v.o == OE || b.v.o == OE) return VS();
    if (a.v.o == OU || b.v.o == OU) return VS(un(a.v, b.v));
    return VS(fn(a.v, b.v));
  }
  Builder bl;
  each(a, g, [&](Val x, G h) {
    each(b, h, [&](Val y, G k) { bl.add(x.o == OU || y.o == OU ? un(x, y) : fn(x, y), k); });
  });
  return bl.done();
}
template <class F> static VS map2(const VS &a, const VS &b, G g, F fn) { return map2u(a, b, g, fn, [](Val, Val) { return UNDEF; }); }
// bitwise operators with (partly) undefined operands
static Val bitop(unsigned op, unsigned w, Val a, Val b) {
  auto get = [w](Val v) { return v.o == OU ? Part{parts[v.b].bits, parts[v.b].mask & maskw(w)} : Part{matz(v), 0}; };
  Part x = get(a), y = get(b); uint64_t m = maskw(w);
  switch (op) {
  case Instruction::And: { uint64_t z = (~x.mask & ~x.bits) | (~y.mask & ~y.bits); return mkPart(x.bits & y.bits, (x.mask | y.mask) & ~z & m); }
  case Instruction::Or: { uint64_t o = x.bits | y.bits; return mkPart(o, (x.mask | y.mask) & ~o & m); }
  case Instruction::Shl: if (y.mask || y.bits >= w) return UNDEF; return mkPart((x.bits << y.bits) & m, (x.mask << y.bits) & m);
  case Instruction::LShr: if (y.mask || y.bits >= w) return UNDEF; return mkPart((x.bits & m) >> y.bits, x.mask >> y.bits);
  case Instruction::Trunc: return mkPart(x.bits & m, x.mask & m);
  default: return UNDEF;
  }
}
static double asD(uint64_t b, bool f32) {
  if (f32) { float f; uint32_t u = b; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &b, 8); return d;
}
static uint64_t fromD(double d, bool f32) {
  if (f32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t b; memcpy(&b, &d, 8); return b;
}
static Val binop(unsigned op, unsigned w, Val a, Val b) {
  uint64_t m = maskw(w);
  switch (op) {
  case Instruction::Add:
    if (a.o && b.o) return VI((matz(a) + matz(b)) & m);
    return {(a.b + b.b) & m, a.o | b.o};
  case Instruction::Sub:
    if (a.o == b.o) return VI((a.b - b.b) & m);
    if (a.o && !b.o) return {(a.b - b.b) & m, a.o};
    return VI((matz(a) - matz(b)) & m);
  default: break;
  }
  uint64_t x = matz(a), y = matz(b); int64_t sx = sext(x, w), sy = sext(y, w);
  switch (op) {
  case Instruction::Mul: return VI((x * y) & m);
  case Instruction::UDiv: return VI((x / y) & m);
  case Instruction::URem: return VI((x % y) & m);
  case Instruction::SDiv: return sy == -1 ? VI((0 - x) & m) : VI((uint64_t)(sx / sy) & m);
  case Instruction::SRem: return sy == -1 ? VI(0) : VI((uint64_t)(sx % sy) & m);
  case Instruction::And: if (a.o && !b.o && (b.b | 15) == m) return {a.b & b.b, a.o}; return VI(x & y & m);
  case Instruction::Or: return VI((x | y) & m);
  case Instruction::Xor: return VI((x ^ y) & m);
  case Instruction::Shl: return y >= w ? UNDEF : VI((x << y) & m);
  case Instruction::LShr: return y >= w ? UNDEF : VI((x & m) >> y);
  case Instruction::AShr: return y >= w ? UNDEF : VI((uint64_t)(sx >> y) & m);
  }
  unsupported("binop");
}
static bool icmp(int pred, unsigned w, Val a, Val b) {
  uint64_t x, y;
  if (a.o == b.o) { x = a.b; y = b.b; }
  else {
    if (pred == CmpInst::ICMP_EQ) return matz(a) == matz(b);
    x = matz(a); y = matz(b);
  }
  x &= maskw(w); y &= maskw(w);
  int64_t sx = sext(x, w), sy = sext(y, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
  case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
  case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
  case CmpInst::ICMP_SGT: return sx > sy; case CmpInst::ICMP_SGE: return sx >= sy;
  case CmpInst::ICMP_SLT: return sx < sy; case CmpInst::ICMP_SLE: return sx <= sy;
  }
  unsupported("icmp");
}
static bool fcmp(int p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) {
  case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
  case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b;
  case CmpInst::FCMP_OGE: return !un && a >= b; case CmpInst::FCMP_OLT: return !un && a < b;
  case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b;
  case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b;
  case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b;
  case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b;
  }
  return false;
}
// kill guards under which the value is undefined
static VS needDef(const VS &v, G &g, const char *kind) {
  if (v.single()) { if (v.v.o == OU) violate(kind, g, g); return v; }
  G bad = GF;
  each(v, g, [&](Val x, G h) { if (x.o == OU) bad = B.Or(bad, h); });
  if (bad != GF) { violate(kind, bad, g); return view(v, g); }
  return v;
}
static VS castop(unsigned op, unsigned w, unsigned w2, Type *ST, Type *DT, const VS &a, G g) {
  bool sf = ST->isFloatTy(), df = DT->isFloatTy();
  if (op == Instruction::Trunc || op == Instruction::ZExt) {
    bool und = false;
    if (a.single()) und = a.v.o == OU; else each(a, g, [&](Val v, G) { und |= v.o == OU; });
    if (und) {
      unsigned k = op == Instruction::Trunc ? w : w2;
      Builder bl;
      each(a, g, [&](Val v, G h) { bl.add(v.o == OU ? bitop(Instruction::Trunc, k, v, v) : v.o && k < 64 ? VI(matz(v) & maskw(k)) : Val{v.b & maskw(k), v.o}, h); });
      return bl.done();
    }
  }
  return map1(a, g, [&](Val v) -> Val {
    switch (op) {
    case Instruction::Trunc: return v.o && w < 64 ? VI(matz(v) & maskw(w)) : Val{v.b & maskw(w), v.o};
    case Instruction::ZExt: return v;
    case Instruction::SExt: return VI((uint64_t)sext(v.b, w2) & maskw(w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
    case Instruction::FPTrunc: case Instruction::FPExt: return VI(fromD(asD(v.b, sf), df));
    case Instruction::SIToFP: return VI(fromD((double)sext(v.b, w2), df));
    case Instruction::UIToFP: return VI(fromD((double)v.b, df));
    case Instruction::FPToSI: return VI((uint64_t)(int64_t)asD(v.b, sf) & maskw(w));
    case Instruction::FPToUI: return VI((uint64_t)asD(v.b, sf) & maskw(w));
    }
    unsupported("cast");
  });
}

//===------------------------------------------------------------------===//
// Scheduling and execution
//===------------------------------------------------------------------===//
static void pushState(Frame *f, int pos, G g) {
  if (g == GF) return;
  auto it = f->pend.find(pos);
  if (it == f->pend.end()) f->pend[pos] = g; else it->second = B.Or(it->second, g);
}
static void takeEdge(Frame *f, const Edge &e, G g) {
  if (g == GF) return;
  if (e.target < 0) return;
  if (e.phis.size() == 1) setReg(f, e.phis[0].first, opv(f, e.phis[0].second), g);
  else if (!e.phis.empty()) {
    std::vector<VS> t; t.reserve(e.phis.size());
    for (auto &p : e.phis) t.push_back(opv(f, p.second));
    for (size_t i = 0; i < t.size(); i++) setReg(f, e.phis[i].first, t[i], g);
  }
  pushState(f, e.target, g);
}
static std::vector<G> pendKillDummy;
static void enter(Frame *f, int pos, PFunc *pf, const std::vector<VS> &args, G g) {
  auto key = std::make_pair(pos, pf);
  Frame *&k = f->kids[key];
  if (!k) {
    k = new Frame; k->fn = pf; k->parent = f; k->callpos = pos; k->depth = f->depth + 1;
    k->r.resize(pf->nslots);
  }
  if (k->depth > maxDepth) {
    // treat as undecided: too deep
    stopped = true; stopWhy = "depth"; return;
  }
  pf->entered++; nCalls++;
  if (k->live == GF) f->act[key] = k;
  k->live = B.Or(k->live, g);
  size_t n = 0;
  for (size_t i = 0; i < pf->argslot.size(); i++) {
    std::vector<Leaf> l; int lo = pf->argslot[i];
    int hi = i + 1 < pf->argslot.size() ? pf->argslot[i + 1] : lo + 1;
    if (i + 1 == pf->argslot.size()) { flatten(pf->F->getArg(i)->getType(), 0, l); hi = lo + l.size(); }
    for (int s = lo; s < hi; s++) { if (n < args.size()) setReg(k, s, args[n], g); n++; }
  }
  pushState(k, 0, g);
}
static Intr *findIntr(Function *F) {
  std::string n = F->getName().str();
  auto it = intrs.find(n);
  if (it != intrs.end()) return &it->second;
  if (F->isIntrinsic()) {
    // overloaded intrinsics: strip type suffixes
    while (true) {
      size_t p = n.rfind('.');
      if (p == std::string::npos || p <= 4) break;
      n = n.substr(0, p);
      it = intrs.find(n);
      if (it != intrs.end()) return &it->second;
    }
  }
  return nullptr;
}
static std::vector<VS> retv;
static G peak = GF;

static void doExit(int code, const char *how, G &g) {
  exits.push_back({code, g, how});
  kill(curF, g, g);
}

static void callFn(Frame *f, PInst &I, int pos, Function *F, G &g, const std::vector<VS> &args) {
  Intr *in = findIntr(F);
  if (in) {
    PInst tmp;
    I.callee = F; // for intrinsics that inspect the callee
    (*in)(f, I, g);
    return;
  }
  if (F->isDeclaration()) {
    std::string n = F->getName().str();
    if (n.find("__throw_") != std::string::npos) { violate("exception", g, g); return; }
    unsupported("external function " + n);
  }
  enter(f, pos, getPF(F), args, g);
  g = GF; // continuation is scheduled on return
}

static void exec(Frame *f, int pos, G g) {
  curF = f;
  PFunc *P = f->fn;
  for (;;) {
    PInst &I = P->in[pos];
    curI = &I; nExec++; I.hits++;
    switch (I.op) {
    case Instruction::Alloca: {
      uint64_t n = opv(f, I.a[0]).v.b; uint64_t sz = I.sz * n;
      auto it = f->allocas.find(pos);
      uint32_t o;
      if (it == f->allocas.end()) { o = newObj(sz, KStack, ""); f->allocas[pos] = o; objs[o]->alloc = GT; }
      else o = it->second;
      if (objs[o]->size < sz) objs[o]->size = sz;
      if (g == f->live) objs[o]->c.clear();
      setReg(f, I.dst, VS(Val{0, o}), g);
      break;
    }
    case Instruction::Load: {
      if (I.leaves.size() == 1) {
        VS v = loadMem(opv(f, I.a[0]), leafSize(I.leaves[0].t), g);
        if (g == GF) return;
        if (I.w < 8 || (I.w & 7)) { unsigned w = I.w; v = map1(v, g, [w](Val x) { return Val{x.b & maskw(w), x.o}; }); }
        setReg(f, I.dst, v, g);
      } else {
        VS p = opv(f, I.a[0]);
        for (size_t i = 0; i < I.leaves.size(); i++) {
          uint64_t off = I.leaves[i].off;
          VS q = map1(p, g, [off](Val x) { return Val{x.b + off, x.o}; });
          VS v = loadMem(q, leafSize(I.leaves[i].t), g);
          if (g == GF) return;
          setReg(f, I.dst + i, v, g);
        }
      }
      break;
    }
    case Instruction::Store: {
      const VS p = opv(f, I.a[0]);
      if (I.leaves.size() == 1) storeMem(p, leafSize(I.leaves[0].t), opv(f, I.a[1]), g);
      else for (size_t i = 0; i < I.leaves.size(); i++) {
        uint64_t off = I.leaves[i].off;
        VS q = map1(p, g, [off](Val x) { return Val{x.b + off, x.o}; });
        storeMem(q, leafSize(I.leaves[i].t), opv(f, I.a[1 + i]), g);
      }
      if (g == GF) return;
      break;
    }
    case Instruction::GetElementPtr: {
      VS v = opv(f, I.a[0]); uint64_t c = I.sz;
      if (c) v = map1(v, g, [c](Val x) { return Val{x.b + c, x.o}; });
      for (size_t i = 0; i + 1 < I.k.size(); i += 2) {
        uint64_t es = I.k[i]; unsigned w = I.k[i + 1];
        v = map2(v, opv(f, I.a[1 + i / 2]), g, [es, w](Val x, Val y) { return Val{x.b + es * (uint64_t)sext(y.b, w), x.o}; });
      }
      setReg(f, I.dst, v, g);
      break;
    }
    case Instruction::ICmp: {
      int pr = I.x; unsigned w = I.w2;
      setReg(f, I.dst, map2(opv(f, I.a[0]), opv(f, I.a[1]), g, [pr, w](Val a, Val b) { return VI(icmp(pr, w, a, b)); }), g);
      break;
    }
    case Instruction::FCmp: {
      int pr = I.x; bool f32 = I.w2 == 32;
      setReg(f, I.dst, map2(opv(f, I.a[0]), opv(f, I.a[1]), g, [pr, f32](Val a, Val b) { return VI(fcmp(pr, asD(a.b, f32), asD(b.b, f32))); }), g);
      break;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      VS d = needDef(opv(f, I.a[1]), g, "division-by-uninit");
      if (g == GF) return;
      G z = GF; each(d, g, [&](Val v, G h) { if (v.o == 0 && v.b == 0) z = B.Or(z, h); });
      if (z != GF) { violate("division-by-zero", z, g); if (g == GF) return; }
    } [[fallthrough]];
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      unsigned w = I.w, op = I.op;
      if (auto *O = dyn_cast<OverflowingBinaryOperator>(I.I))
        if (O->hasNoSignedWrap() && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul)) {
          G bad = GF;
          auto chk = [&](Val a, Val b, G h) {
            if (a.o || b.o) return;
            int64_t x = sext(a.b, w), y = sext(b.b, w), r; bool ov;
            if (op == Instruction::Add) ov = __builtin_add_overflow(x, y, &r);
            else if (op == Instruction::Sub) ov = __builtin_sub_overflow(x, y, &r);
            else ov = __builtin_mul_overflow(x, y, &r);
            if (ov || sext((uint64_t)r & maskw(w), w) != r) bad = B.Or(bad, h);
          };
          const VS &A = opv(f, I.a[0]), &C = opv(f, I.a[1]);
          if (A.single() && C.single()) chk(A.v, C.v, g);
          else each(A, g, [&](Val a, G h) { each(C, h, [&](Val b, G k) { chk(a, b, k); }); });
          if (bad != GF) { violate("signed-overflow", bad, g); if (g == GF) return; }
        }
      setReg(f, I.dst, map2u(opv(f, I.a[0]), opv(f, I.a[1]), g, [op, w](Val a, Val b) {
        if ((op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) && matz(b) == 0) return UNDEF;
        return binop(op, w, a, b); }, [op, w](Val a, Val b) { return bitop(op, w, a, b); }), g);
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      unsigned op = I.op; bool f32 = I.w == 32;
      setReg(f, I.dst, map2(opv(f, I.a[0]), opv(f, I.a[1]), g, [op, f32](Val a, Val b) {
        double x = asD(a.b, f32), y = asD(b.b, f32), r = 0;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break;
          case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
        return VI(fromD(r, f32)); }), g);
      break;
    }
    case Instruction::FNeg: {
      bool f32 = I.w == 32;
      setReg(f, I.dst, map1(opv(f, I.a[0]), g, [f32](Val a) { return VI(fromD(-asD(a.b, f32), f32)); }), g);
      break;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      setReg(f, I.dst, castop(I.op, I.w, I.w2, I.I->getOperand(0)->getType(), I.I->getType(), opv(f, I.a[0]), g), g);
      break;
    case Instruction::Freeze:
      setReg(f, I.dst, [&] { Builder bl; each(opv(f, I.a[0]), g, [&](Val v, G h) { bl.add(v.o == OU ? VI(0) : v, h); }); return bl.done(); }(), g);
      break;
    case Instruction::Select: {
      VS c = needDef(opv(f, I.a[0]), g, "uninit-condition");
      if (g == GF) return;
      int n = I.nd;
      for (int i = 0; i < n; i++) {
        const VS &a = opv(f, I.a[1 + i]), &b = opv(f, I.a[1 + n + i]);
        if (c.single()) setReg(f, I.dst + i, view((c.v.b & 1) ? a : b, g), g);
        else {
          Builder bl;
          each(c, g, [&](Val v, G h) { each((v.b & 1) ? a : b, h, [&](Val x, G k) { bl.add(x, k); }); });
          setReg(f, I.dst + i, bl.done(), g);
        }
      }
      break;
    }
    case Instruction::ExtractValue:
      for (int i = 0; i < I.nd; i++) setReg(f, I.dst + i, view(opv(f, I.a[I.x + i]), g), g);
      break;
    case Instruction::InsertValue: {
      std::vector<VS> t;
      for (int i = 0; i < I.nd; i++) t.push_back(view(i >= I.x && i < I.x + (int)I.w2 ? opv(f, I.a[I.nd + i - I.x]) : opv(f, I.a[i]), g));
      for (int i = 0; i < I.nd; i++) setReg(f, I.dst + i, t[i], g);
      break;
    }
    case Instruction::Br: {
      nBlocks++;
      if (I.a.empty()) { takeEdge(f, I.e[0], g); return; }
      VS c = needDef(opv(f, I.a[0]), g, "uninit-branch");
      if (g == GF) return;
      if (c.single()) { takeEdge(f, I.e[(c.v.b & 1) ? 0 : 1], g); return; }
      G t = GF; each(c, g, [&](Val v, G h) { if (v.b & 1) t = B.Or(t, h); });
      G e = B.Diff(g, t);
      takeEdge(f, I.e[0], t); takeEdge(f, I.e[1], e);
      return;
    }
    case Instruction::Switch: {
      nBlocks++;
      VS c = needDef(opv(f, I.a[0]), g, "uninit-branch");
      if (g == GF) return;
      std::map<int, G> to;
      each(c, g, [&](Val v, G h) {
        int e = 0;
        for (size_t i = 0; i < I.k.size(); i++) if (I.k[i] == v.b) { e = i + 1; break; }
        auto it = to.find(e); if (it == to.end()) to[e] = h; else it->second = B.Or(it->second, h);
      });
      for (auto &x : to) takeEdge(f, I.e[x.first], x.second);
      return;
    }
    case Instruction::Ret: {
      std::vector<VS> rv;
      for (auto &o : I.a) rv.push_back(view(opv(f, o), g));
      Frame *p = f->parent;
      f->live = B.Diff(f->live, g);
      if (!p) { // main returned
        int code = 0;
        if (!rv.empty()) { // one exit per value
          each(rv[0], g, [&](Val v, G h) { exits.push_back({(int)v.b, h, "return"}); });
        } else exits.push_back({code, g, "return"});
        Live = B.Diff(Live, g);
        return;
      }
      if (f->live == GF) { p->act.erase({f->callpos, f->fn}); f->pend.clear(); for (auto &r : f->r) r = VS(); }
      PInst &C = p->fn->in[f->callpos];
      if (C.dst >= 0) for (int i = 0; i < C.nd && i < (int)rv.size(); i++) setReg(p, C.dst + i, rv[i], g);
      if (C.op == Instruction::Invoke) takeEdge(p, C.e[0], g);
      else pushState(p, f->callpos + 1, g);
      return;
    }
    case Instruction::Unreachable:
      violate("unreachable", g, g);
      return;
    case Instruction::Call: case Instruction::Invoke: {
      auto &CB = cast<CallBase>(*I.I);
      if (skipCall(&CB)) { if (I.op == Instruction::Invoke) { takeEdge(f, I.e[0], g); return; } break; }
      std::vector<VS> args;
      for (size_t i = I.x ? 1 : 0; i < I.a.size(); i++) args.push_back(view(opv(f, I.a[i]), g));
      bool defined = false;
      if (!I.x) {
        Function *F = I.callee;
        defined = !F->isDeclaration() && !findIntr(F);
        callFn(f, I, pos, F, g, args);
      } else {
        VS t = needDef(opv(f, I.a[0]), g, "uninit-call-target");
        if (g == GF) return;
        std::vector<Ent> ts; each(t, g, [&](Val v, G h) { ts.push_back({v, h}); });
        G cont = GF;
        for (auto &x : ts) {
          if (x.v.o == 0 || x.v.o >= OE || !objs[x.v.o]->fn || x.v.b) { violate("bad-call-target", x.g, g); continue; }
          G h = x.g;
          callFn(f, I, pos, objs[x.v.o]->fn, h, args);
          cont = B.Or(cont, h);
        }
        g = cont; I.callee = nullptr;
      }
      (void)defined;
      curF = f; curI = &I;
      if (stopped || g == GF) return;
      // intrinsic: continue here
      if (I.op == Instruction::Invoke) { takeEdge(f, I.e[0], g); return; }
      break;
    }
    case Instruction::Resume: case Instruction::LandingPad:
      violate("exception", g, g); return;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: unsupported("atomicrmw");
    default: unsupported(std::string("instruction ") + I.I->getOpcodeName());
    }
    pos++;
    // merge with states waiting at this position (after a call)
    if (!f->pend.empty()) {
      auto it = f->pend.find(pos);
      if (it != f->pend.end()) { g = B.Or(g, it->second); f->pend.erase(it); }
    }
  }
}

static void runAll() {
  auto t0 = std::chrono::steady_clock::now();
  uint64_t it = 0;
  for (;;) {
    if (Live == GF) break;
    Frame *f = Root;
    for (;;) {
      auto p = f->pend.begin(); auto c = f->act.begin();
      if (c != f->act.end() && (p == f->pend.end() || c->first.first < p->first)) { f = c->second; continue; }
      if (p == f->pend.end()) { errs() << "scheduler: no state\n"; stopped = true; stopWhy = "scheduler"; break; }
      int pos = p->first; G g = p->second;
      f->pend.erase(p);
      g = B.And(g, f->live);
      if (g != GF) { Spin = g; exec(f, pos, g); }
      break;
    }
    if (stopped) break;
    if (budget && nBlocks > budget) { stopped = true; stopWhy = "budget"; break; }
    if ((++it & 0xff) == 0) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > tlimit) { stopped = true; stopWhy = "time"; break; }
      if (memlimit && B.n.size() * 16.0 + 0 > memlimit * 1e6) { stopped = true; stopWhy = "bdd-memory"; break; }
    }
  }
}

#include "intrinsics.h"

//===------------------------------------------------------------------===//
// Input specification, driver
//===------------------------------------------------------------------===//
int main(int argc, char **argv) {
  if (argc >= 4 && !strcmp(argv[1], "--prepare")) return prepare(argv[2], argv[3]);
  if (argc < 4) { errs() << "usage: symex prog.bc spec.json out.json\n"; return 2; }
  return drive(argv[1], argv[2], argv[3]);
}
