// bta - an abstract interpreter (disjunctive completion over typestate + interval +
// lazily initialised heap domains) for LLVM 18 IR.  See DESIGN.md, section "Engine".
//
// It never executes the program: every value is an element of the abstract domain below,
// every branch whose condition the domain does not decide is followed both ways, and the set
// of (program point, abstract state) pairs is computed to a fixpoint (states that are equal up
// to renaming of regions and symbols are merged at join points and at function returns).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/xxhash.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/ADT/StringSet.h"
#include <map>
#include <deque>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <chrono>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
typedef std::string str;

// ------------------------------------------------------------------ values
struct Val {
  enum Kind : uint8_t { UND, INT, SYM, PTR, FN, AGG, FP } k = UND;
  uint8_t w = 0;
  int32_t id = 0;
  int64_t a = 0;
  std::shared_ptr<const std::vector<Val>> agg;
  bool operator==(const Val &o) const {
    if (k != o.k || id != o.id || a != o.a) return false;
    if (k == INT || k == SYM) return w == o.w;
    if (k == AGG) return *agg == *o.agg;
    return true;
  }
};
static int64_t sx(int64_t v, unsigned w) { if (w >= 64) return v; if (!w) return 0; uint64_t m = (uint64_t)v << (64 - w); return (int64_t)m >> (64 - w); }
static uint64_t zx(int64_t v, unsigned w) { return w >= 64 ? (uint64_t)v : ((uint64_t)v & ((1ull << w) - 1)); }
static Val mkInt(int64_t v, unsigned w) { Val r; r.k = Val::INT; r.w = w; r.a = sx(v, w); return r; }
static Val mkNull() { return mkInt(0, 64); }
static Val mkPtr(int id, int64_t off) { Val r; r.k = Val::PTR; r.w = 64; r.id = id; r.a = off; return r; }
static Val mkSym(int id, unsigned w, int64_t a = 0) { Val r; r.k = Val::SYM; r.w = w; r.id = id; r.a = a; return r; }
static Val mkAgg(std::vector<Val> v) { Val r; r.k = Val::AGG; r.agg = std::make_shared<const std::vector<Val>>(std::move(v)); return r; }
static int64_t smin(unsigned w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static int64_t smax(unsigned w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

struct Sym { int64_t lo, hi; std::vector<int64_t> neq; Val bind; bool bound = false; uint8_t w = 64;
  bool full() const { return !bound && lo == smin(w) && hi == smax(w) && neq.empty(); } };
struct Cell { Val v; int32_t sz; };
struct Region {
  enum K : uint8_t { STACK, HEAP, GLOBAL, LAZY, EXC } kind = HEAP;
  enum D : uint8_t { ZERO, UNDEF, LAZYD } def = UNDEF;
  bool freed = false, dirty = false, external = false;
  int64_t size = -1;
  std::map<int64_t, Cell> cells;
  const GlobalVariable *gv = nullptr; int tid = 0;
  const Constant *ti = nullptr; // exception type
  const Instruction *site = nullptr;
};
typedef std::shared_ptr<Region> RP;
struct FuncInfo {
  std::unordered_map<const Value *, int> num; int n = 0;
  std::unordered_map<const Instruction *, std::vector<int>> live; // live after the instruction (or, for phis' last, block entry)
  std::unordered_map<const BasicBlock *, std::vector<int>> liveIn;
  std::unordered_map<const Instruction *, std::vector<int>> liveBefore; // of the instruction after a scheduling point
  std::set<const BasicBlock *> loopHead;
  bool inSrc = false, inTU = false;
};
struct Frame {
  const Function *F = nullptr; FuncInfo *fi = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::const_iterator it;
  std::vector<Val> regs; std::vector<Val> varargs;
  std::map<const BasicBlock *, int> visits;
  std::vector<int> allocas;
  bool hookFrame = false; // pushed by the engine (event hook): returns resume `it` unchanged semantics handled by caller
  Val hookRet; bool hasHookRet = false;
};
typedef std::shared_ptr<Frame> FP_;
struct Trace { std::shared_ptr<Trace> prev; const Instruction *I; int kind; int64_t val; str txt; int depth; };
struct Caught { int region; int64_t off; const Constant *ti; int64_t adj; int count; bool rethrown; };
struct Stack { std::vector<FP_> fr; std::vector<Caught> caught; int resumer = -1; int status = 0; // 0 active 1 parked 2 finished
  Val yieldVal; int tid = 0; int uncaught = 0; };
struct Fact { int op; Val x, y; Val res; };
struct State {
  std::vector<Stack> st; int cur = 0;
  std::map<int, RP> mem; std::map<int, Sym> syms;
  std::vector<Fact> facts; // op<1000: icmp predicate facts ; op>=1000: expression memo
  std::map<std::pair<const GlobalVariable *, int>, int> gmap;
  int nextR = 1, nextS = 1; int tid = 0;
  struct Guard { int region; int64_t lo, hi; int mreg; int64_t moff; int tag; int64_t on = 0; };
  std::vector<Guard> guards;              // tag: >= 1000 lock-set discipline of an object, >= 0 guarded by a given mutex, -1 hooked
  struct Lk { int first; int64_t second; int tag; };
  std::vector<Lk> locks; // the mutexes in existence (lock-set discipline and lock order only)
  std::map<str, int64_t> opts;
  std::shared_ptr<Trace> tr; int trlen = 0;
  // exception in flight
  bool unwinding = false; int excR = 0; int64_t excOff = 0; const Constant *excTI = nullptr; int64_t excAdj = 0;
  int64_t loops = 0;
};
// ------------------------------------------------------------------ globals
static Module *M; static const DataLayout *DL;
static bool hooksUsed = false; // the unit uses __sa_atomic_hook
static str SRC = "/repo/"; static str TUDIR = "/verif/";
static std::map<const Function *, FuncInfo> FI;
static std::map<const Constant *, int> tiIds; static std::vector<const Constant *> tiRev(1, nullptr);
static std::vector<const Function *> fnTab; static std::map<const Function *, int> fnIds;
struct Violation { str rule, loc, func; std::vector<str> stack, trace; };
struct Result {
  std::map<str, Violation> viol; std::set<str> incomplete; std::map<str, int64_t> opaque; std::map<str, int64_t> imprecise;
  std::vector<std::shared_ptr<Frame>> lastMerge; // where the last path joined an earlier state
  std::map<str, int64_t> asserts; std::set<str> assertFail; std::set<str> musts, mustsReached; std::map<str,int64_t> ends;
  std::set<str> srcFuncs; std::set<str> srcSites; int64_t states = 0, steps = 0, forks = 0, merged = 0, paths = 0;
  // lock-set discipline: accesses to each byte of the objects under observation
  struct Acc { str loc, func; bool wr, atomic; std::set<int64_t> locks; bool operator<(const Acc &o) const { return std::tie(loc, func, wr, atomic, locks) < std::tie(o.loc, o.func, o.wr, o.atomic, o.locks); } };
  std::map<str, std::map<int64_t, std::map<Acc, unsigned>>> acc; // object -> byte -> access -> threads
  struct Take { std::set<int> held; int want; str loc, func; bool operator<(const Take &o) const { return std::tie(want, held, loc, func) < std::tie(o.want, o.held, o.loc, o.func); } };
  std::map<Take, unsigned> takes; // lock taken while others are held -> threads
} *R;
static bool locksetUsed = false, lockOrder = false; static std::vector<str> locksetLabels;
static int64_t MAXSTATES = 4000000, MAXSTEPS = 2000000000, LOOPCAP = 300, WIDEN = 40; static double TLIM = 300;
static std::unordered_set<uint64_t> seen; static std::vector<std::unique_ptr<State>> work; static std::deque<std::unique_ptr<State>> deferred;
static std::chrono::steady_clock::time_point T0;
static bool VERB = false, PROF = false; static std::map<const Function *, int64_t> prof;

static str locOf(const Instruction *I) {
  if (!I) return "?";
  DebugLoc d = I->getDebugLoc(); if (!d) return "?";
  const DILocation *L = d.get();
  str f = L->getFilename().str(); if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f; return f + ":" + std::to_string(L->getLine());
}
static str fileOfF(const Function *F) { if (auto *sp = F->getSubprogram()) { str f = sp->getFilename().str(); return f.empty() || f[0] == '/' ? f : sp->getDirectory().str() + "/" + f; } return ""; }
static str dem(const str &n) { return llvm::demangle(n); }
static str shortDem(const Function *F) { str s = dem(F->getName().str()); if (s.size() > 160) s = s.substr(0, 157) + "..."; return s; }

static FuncInfo *getFI(const Function *F) {
  auto it = FI.find(F); if (it != FI.end()) return &it->second;
  FuncInfo &fi = FI[F];
  for (auto &A : F->args()) fi.num[&A] = fi.n++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) fi.num[&I] = fi.n++;
  str f = fileOfF(F); fi.inSrc = f.find(SRC) != str::npos; fi.inTU = f.find(TUDIR) != str::npos;
  // liveness
  std::map<const BasicBlock *, std::vector<char>> in, out;
  for (auto &B : *F) { in[&B].assign(fi.n, 0); out[&B].assign(fi.n, 0); }
  auto use = [&](const Value *V, std::vector<char> &L) { auto q = fi.num.find(V); if (q != fi.num.end()) L[q->second] = 1; };
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto bi = F->end(); bi != F->begin();) {
      --bi; const BasicBlock *B = &*bi;
      std::vector<char> L(fi.n, 0);
      for (auto *S : successors(B)) {
        auto &si = in[S]; for (int i = 0; i < fi.n; i++) if (si[i]) L[i] = 1;
        for (auto &P : S->phis()) { auto q = fi.num.find(&P); if (q != fi.num.end()) {} }
        for (auto &P : S->phis()) use(P.getIncomingValueForBlock(B), L);
      }
      out[B] = L;
      for (auto ii = B->rbegin(); ii != B->rend(); ++ii) {
        const Instruction *I = &*ii; auto q = fi.num.find(I); if (q != fi.num.end()) L[q->second] = 0;
        if (isa<PHINode>(I)) continue;
        for (auto &U : I->operands()) use(U.get(), L);
      }
      if (L != in[B]) { in[B] = L; ch = true; }
    }
  }
  for (auto &B : *F) {
    std::vector<char> L = out[&B];
    const Instruction *firstNP = B.getFirstNonPHI();
    for (auto ii = B.rbegin(); ii != B.rend(); ++ii) {
      const Instruction *I = &*ii;
      if (isa<CallBase>(I)) {
        std::vector<int> v;
        for (int i = 0; i < fi.n; i++) if (L[i]) v.push_back(i);
        if (auto *IV = dyn_cast<InvokeInst>(I)) { // union with unwind dest
          (void)IV;
        }
        // exclude own result
        fi.live[I] = v;
      }
      auto q = fi.num.find(I); if (q != fi.num.end()) L[q->second] = 0;
      if (!isa<PHINode>(I)) for (auto &U : I->operands()) use(U.get(), L);
      if (hooksUsed && (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I))) { std::vector<int> v; for (int i = 0; i < fi.n; i++) if (L[i]) v.push_back(i); fi.live[I] = v; } // the instruction is executed after the hook
      if (auto *PC = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (PC->getCalledFunction() && PC->getCalledFunction()->getName() == "__sa_defer") { std::vector<int> v; for (int i = 0; i < fi.n; i++) if (L[i]) v.push_back(i); fi.liveBefore[I] = v; }
      if (I == firstNP) { std::vector<int> v; for (int i = 0; i < fi.n; i++) if (L[i]) v.push_back(i); fi.liveIn[&B] = v; }
    }
  }
  // loop heads: targets of DFS back edges
  std::map<const BasicBlock *, int> col; std::vector<std::pair<const BasicBlock *, int>> stk;
  stk.push_back({&F->getEntryBlock(), 0}); col[&F->getEntryBlock()] = 1;
  while (!stk.empty()) {
    auto &t = stk.back(); auto *TI = t.first->getTerminator();
    if (t.second < (int)TI->getNumSuccessors()) {
      auto *s = TI->getSuccessor(t.second++);
      if (col[s] == 1) fi.loopHead.insert(s); else if (!col[s]) { col[s] = 1; stk.push_back({s, 0}); }
    } else { col[t.first] = 2; stk.pop_back(); }
  }
  return &fi;
}
static int fnId(const Function *F) { auto it = fnIds.find(F); if (it != fnIds.end()) return it->second; int id = fnTab.size(); fnTab.push_back(F); fnIds[F] = id; return id; }
static int tiId(const Constant *C) { auto it = tiIds.find(C); if (it != tiIds.end()) return it->second; int id = tiRev.size(); tiRev.push_back(C); tiIds[C] = id; return id; }

struct EndPath { };      // thrown internally to terminate the current abstract path
struct Forked { };       // current state was replaced by refined copies
// ------------------------------------------------------------------ state helpers
static State *S; // state being interpreted
static Frame &top() { auto &p = S->st[S->cur].fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
static Stack &stk() { return S->st[S->cur]; }
static Region &regW(int id) { auto &p = S->mem.at(id); if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }
static const Region &regR(int id) { return *S->mem.at(id); }
static int newRegion(Region::K k, Region::D d, int64_t size) { auto r = std::make_shared<Region>(); r->kind = k; r->def = d; r->size = size; int id = S->nextR++; S->mem[id] = r; return id; }
static Val freshSym(unsigned w) { Sym s; s.w = w > 64 ? 64 : w; s.lo = smin(s.w); s.hi = smax(s.w); int id = S->nextS++; S->syms[id] = s; return mkSym(id, s.w); }
static Val freshFor(Type *T) {
  if (T->isIntegerTy()) return freshSym(std::min(64u, T->getIntegerBitWidth()));
  if (T->isPointerTy()) return freshSym(64);
  if (auto *ST = dyn_cast<StructType>(T)) { std::vector<Val> v; for (auto *e : ST->elements()) v.push_back(freshFor(e)); return mkAgg(v); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < AT->getNumElements(); i++) v.push_back(freshFor(AT->getElementType())); return mkAgg(v); }
  Val r; r.k = Val::UND; return r;
}
static Val resolve(Val v) {
  while (v.k == Val::SYM) {
    auto it = S->syms.find(v.id); if (it == S->syms.end()) return v;
    if (it->second.bound) {
      Val b = it->second.bind; int64_t add = v.a; unsigned w = v.w;
      if (b.k == Val::INT) return mkInt(b.a + add, w);
      b.a += add; b.w = w; if (b.k == Val::SYM) b.a = sx(b.a, w);
      v = b; continue;
    }
    if (it->second.lo == it->second.hi) return mkInt(it->second.lo + v.a, v.w);
    return v;
  }
  return v;
}
static void traceEv(const Instruction *I, int kind, int64_t val, str txt = "") {
  auto t = std::make_shared<Trace>(); t->prev = S->tr; t->I = I; t->kind = kind; t->val = val; t->txt = txt; t->depth = stk().fr.size(); S->tr = t; S->trlen++;
}
static std::vector<str> stackStr() {
  std::vector<str> v; auto &fr = stk().fr;
  for (int i = (int)fr.size() - 1; i >= 0; i--) { const Instruction *I = fr[i]->it == fr[i]->bb->end() ? nullptr : &*fr[i]->it; v.push_back(locOf(I) + " in " + shortDem(fr[i]->F)); }
  return v;
}
static void violation(const str &rule) {
  str loc, fn;
  auto &fr = stk().fr;
  for (int i = (int)fr.size() - 1; i >= 0 && loc.empty(); i--) if (fr[i]->fi->inSrc) { loc = locOf(&*fr[i]->it); fn = shortDem(fr[i]->F); }
  std::vector<str> tr; int n = 0; bool have = !loc.empty();
  for (auto t = S->tr; t && n < 400; t = t->prev, n++) {
    str s; if (t->kind == 0) s = locOf(t->I) + ": branch taken: " + (t->val ? "true" : "false") + (t->txt.empty() ? "" : " (" + t->txt + ")");
    else if (t->kind == 1) { s = locOf(t->I) + ": calls " + t->txt; if (!have) { fn = t->txt; if (t->val) { loc = t->txt; } } if (!have && t->val == 0) {} }
    else s = locOf(t->I) + ": " + t->txt;
    tr.push_back(s);
  }
  std::reverse(tr.begin(), tr.end());
  if (!have) { // last library construct used on this path
    for (auto t = S->tr; t; t = t->prev) if (t->kind == 4) { loc = locOf(t->I); fn = t->txt; have = true; break; }
    if (!have) for (auto t = S->tr; t; t = t->prev) if (t->kind == 1) { fn = t->txt; break; }
    if ((loc.empty() || !have) && !fr.empty()) { const Instruction *I = &*fr.back()->it; loc = locOf(I); }
  }
  str key = rule;
  auto it = R->viol.find(key);
  if (it != R->viol.end()) { R->assertFail.insert(key); return; }
  Violation v; v.rule = rule; v.loc = loc; v.func = fn; v.stack = stackStr(); v.trace = tr; R->viol[key] = v;
}
static void incomplete(const str &why) { str l; auto &fr = stk().fr; if (!fr.empty()) l = locOf(&*fr.back()->it) + " in " + shortDem(fr.back()->F); R->incomplete.insert(why + " @ " + l); throw EndPath(); }
static void impreciseN(const str &why) { R->imprecise[why + " @ " + (stk().fr.empty() ? "" : locOf(&*stk().fr.back()->it))]++; }

static bool liveAndSame() { return true; }
// push copies of the current state, each refined by one alternative, and abandon it
static void fork(std::vector<std::function<bool()>> alts) {
  State *orig = S; R->forks++;
  for (int i = (int)alts.size() - 1; i >= 0; i--) {
    auto c = std::make_unique<State>(*orig); S = c.get();
    bool ok = alts[i](); if (ok) work.push_back(std::move(c));
  }
  S = orig; throw Forked();
}
static bool bindSym(int id, Val v) {
  Sym &s = S->syms[id];
  if (v.k == Val::INT) { int64_t x = v.a; if (x < s.lo || x > s.hi) return false; for (auto n : s.neq) if (n == x) return false; s.lo = s.hi = x; return true; }
  if (v.k == Val::SYM) { auto q = S->syms.find(v.id); if (q != S->syms.end() && v.a == 0) { q->second.lo = std::max(q->second.lo, s.lo); q->second.hi = std::min(q->second.hi, s.hi); for (auto n : s.neq) q->second.neq.push_back(n); if (q->second.lo > q->second.hi) return false; } }
  s.bound = true; s.bind = v; return true;
}
static bool tightenEnds(Sym &s) { bool ch = true; while (ch) { ch = false; for (auto n : s.neq) { if (n == s.lo && s.lo < INT64_MAX) { s.lo++; ch = true; } if (n == s.hi && s.hi > INT64_MIN) { s.hi--; ch = true; } if (s.lo > s.hi) return false; } }
  std::vector<int64_t> k; for (auto n : s.neq) if (n > s.lo && n < s.hi) k.push_back(n); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); s.neq = k; return s.lo <= s.hi; }

// ------------------------------------------------------------------ globals & constants
static void initCells(Region &r, const Constant *C, int64_t off);
static Val constVal(const Constant *C);
static int globalRegion(const GlobalVariable *G) {
  int tid = G->isThreadLocal() ? S->tid : 0;
  auto key = std::make_pair(G, tid);
  auto it = S->gmap.find(key); if (it != S->gmap.end()) return it->second;
  int id = newRegion(Region::GLOBAL, Region::ZERO, DL->getTypeAllocSize(G->getValueType()));
  S->gmap[key] = id;
  Region &r = regW(id); r.gv = G; r.tid = tid;
  if (G->hasInitializer()) initCells(r, G->getInitializer(), 0); else { r.def = Region::LAZYD; r.external = true; }
  return id;
}
static Val constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) { if (CI->getValue().isSignedIntN(64)) return mkInt(CI->getSExtValue(), 64); return freshSym(64); } return mkInt(CI->getSExtValue(), CI->getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return mkNull();
  if (isa<UndefValue>(C)) return freshFor(C->getType());
  if (auto *F = dyn_cast<Function>(C)) { Val v; v.k = Val::FN; v.w = 64; v.id = fnId(F); return v; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) return mkPtr(globalRegion(G), 0);
  if (auto *F = dyn_cast<ConstantFP>(C)) { Val v; v.k = Val::FP; double d = 0; APFloat f = F->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); d = f.convertToDouble(); memcpy(&v.a, &d, 8); return v; }
  if (isa<ConstantAggregateZero>(C)) {
    Type *T = C->getType(); std::vector<Val> v;
    if (T->isVectorTy()) { Val u; return u; }
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constVal(cast<Constant>(C->getAggregateElement(i)))); return mkAgg(v);
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) {
    std::vector<Val> v; unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constVal(C->getAggregateElement(i))); return mkAgg(v);
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *G = cast<GEPOperator>(E); APInt off(64, 0); Val b = constVal(cast<Constant>(G->getPointerOperand()));
      if (G->accumulateConstantOffset(*DL, off) && b.k == Val::PTR) { b.a += off.getSExtValue(); return b; }
      return freshSym(64);
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(E->getOperand(0));
    case Instruction::Sub: { Val a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1)); if (a.k == Val::PTR && b.k == Val::PTR && a.id == b.id) return mkInt(a.a - b.a, 64); return freshFor(E->getType()); }
    default: return freshFor(E->getType());
    }
  }
  return freshFor(C->getType());
}
static void initCells(Region &r, const Constant *C, int64_t off) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || C->isNullValue()) return; // def ZERO
  if (isa<UndefValue>(C)) return;
  if (auto *CDA = dyn_cast<ConstantDataSequential>(C)) {
    int64_t es = DL->getTypeAllocSize(CDA->getElementType());
    if (CDA->getNumElements() > 4096) return;
    for (unsigned i = 0; i < CDA->getNumElements(); i++) { Val v = constVal(CDA->getElementAsConstant(i)); r.cells[off + i * es] = Cell{v, (int32_t)es}; }
    return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) initCells(r, C->getAggregateElement(i), off + SL->getElementOffset(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { int64_t es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) initCells(r, C->getAggregateElement(i), off + i * es); return; }
  int rid = 0; (void)rid;
  Val v = constVal(C); r.cells[off] = Cell{v, (int32_t)DL->getTypeStoreSize(T)};
}
static Val get(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto &f = *stk().fr.back(); auto it = f.fi->num.find(V);
  if (it == f.fi->num.end()) return freshFor(V->getType());
  Val &v = f.regs[it->second];
  if (v.k == Val::UND && (V->getType()->isIntegerTy() || V->getType()->isPointerTy())) { Val s = freshFor(V->getType()); top().regs[it->second] = s; return s; }
  return resolve(v);
}
static void setReg(const Value *V, Val v) { auto &f = top(); auto it = f.fi->num.find(V); if (it != f.fi->num.end()) f.regs[it->second] = v; }

// ------------------------------------------------------------------ memory
static bool userRule(const char *opt) { auto it = S->opts.find(opt); return it != S->opts.end() && it->second; }
static bool oomHere() { auto it = S->opts.find("oom_tid"); return it == S->opts.end() || it->second == S->tid; } // allocations fail only in this thread
static void breakCells(Region &r, int64_t off, int64_t sz) { // remove overlap, splitting integer cells
  auto it = r.cells.lower_bound(off); 
  std::vector<std::pair<int64_t, Cell>> add;
  if (it != r.cells.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > off) it = p; }
  while (it != r.cells.end() && it->first < off + sz) {
    int64_t o = it->first; Cell c = it->second;
    if (o < off || o + c.sz > off + sz) {
      Val v = resolve(c.v);
      for (int i = 0; i < c.sz; i++) { int64_t p = o + i; if (p >= off && p < off + sz) continue;
        if (v.k == Val::INT) add.push_back({p, Cell{mkInt((int64_t)((uint64_t)v.a >> (8 * i)), 8), 1}});
        else if (v.k == Val::SYM && v.w == 64 && 0) {}
        else add.push_back({p, Cell{freshSym(8), 1}}); }
    }
    it = r.cells.erase(it);
  }
  for (auto &x : add) r.cells[x.first] = x.second;
}
// make pointer value usable: returns PTR, forks/binds symbolic pointers
static Val derefable(Val p, const Instruction *I) {
  p = resolve(p);
  if (p.k == Val::PTR) return p;
  if (p.k == Val::SYM) {
    // lazily initialised object (non-null; a null dereference is reported by the TU specs, not here)
    if (p.a != 0) { /* pointer plus offset: materialise the base */ }
    int rid = newRegion(Region::LAZY, Region::LAZYD, -1);
    Sym &s = S->syms[p.id]; s.bound = true; s.bind = mkPtr(rid, 0);
    return resolve(p);
  }
  if (p.k == Val::INT) {
    if (p.a > -4096 && p.a < 65536) { if (!userRule("null_ok")) violation("null-dereference"); throw EndPath(); }
  }
  if (p.k == Val::FN) { impreciseN("deref of function"); throw EndPath(); }
  impreciseN("deref of unknown pointer"); int rid = newRegion(Region::LAZY, Region::LAZYD, -1); return mkPtr(rid, 0);
}
static bool heldBySelf(const State::Lk &m) {
  auto it = S->mem.find(m.first); if (it == S->mem.end()) return false;
  auto c = it->second->cells.find(m.second); if (c == it->second->cells.end()) return false;
  Val o = resolve(c->second.v); return o.k == Val::INT && o.a == S->tid + 1;
}
// lock order: mutexes are told apart by where (and by which thread) the object they live in was made
struct LockName { const void *site; int64_t off; int tid, nth; str txt; };
static std::vector<LockName> lockNames;
static bool lockHelper(const Function *F) { const DISubprogram *d = F->getSubprogram(); if (!d) return true; StringRef f = d->getFilename(); return f.ends_with("pthread_helpers.hpp") || f.ends_with("pthread/mutex.hpp") || f.ends_with("pthread_mutex_scoped_lock.hpp") || f.ends_with("recursive_mutex.hpp") || f.ends_with("lock_guard.hpp") || f.ends_with("lock_types.hpp"); }
static void lockMade(Val p) {
  const Region &r = regR(p.id); const void *site = r.kind == Region::GLOBAL ? (const void *)r.gv : (const void *)r.site; int nth = 0, tag = -1;
  for (bool again = true; again;) { again = false; tag = -1;
    for (size_t i = 0; i < lockNames.size(); i++) { auto &n = lockNames[i]; if (n.site == site && n.off == p.a && n.tid == S->tid && n.nth == nth) tag = (int)i; }
    if (tag >= 0) for (auto &m : S->locks) if (m.tag == tag) { nth++; again = true; break; } }
  if (tag < 0) { auto &fr = stk().fr; str t; for (int i = (int)fr.size() - 1; i >= 0 && t.empty(); i--) if ((fr[i]->fi->inSrc || fr[i]->fi->inTU) && (!lockHelper(fr[i]->F) || !i)) t = locOf(&*fr[i]->it) + " in " + shortDem(fr[i]->F);
    tag = (int)lockNames.size(); lockNames.push_back({site, p.a, S->tid, nth, "mutex made at " + t + " by thread " + std::to_string(S->tid) + (nth ? " (" + std::to_string(nth + 1) + ")" : "")}); }
  S->locks.push_back({p.id, p.a, tag});
}
static void noteTake(Val p, int kind) { // 0: blocks on a mutex, 1: waits on a condition with it, 2: joins a thread
  int want = -1; std::set<int> held;
  for (auto &m : S->locks) if (kind != 2 && m.first == p.id && m.second == p.a) want = m.tag; else if (heldBySelf(m)) held.insert(m.tag);
  if (kind != 2 && want < 0) { lockMade(p); want = S->locks.back().tag; }
  R->asserts[kind ? "lock order: nothing is held while waiting" : "lock order: acquisitions"]++;
  if (held.empty()) return;
  auto &fr = stk().fr; str loc, fn; for (int i = (int)fr.size() - 1; i >= 0 && loc.empty(); i--) if (fr[i]->fi->inSrc && !lockHelper(fr[i]->F)) { loc = locOf(&*fr[i]->it); fn = shortDem(fr[i]->F); }
  if (loc.empty()) for (int i = (int)fr.size() - 1; i >= 0 && loc.empty(); i--) if (fr[i]->fi->inTU) { loc = locOf(&*fr[i]->it); fn = shortDem(fr[i]->F); }
  if (kind) { violation(kind == 1 ? "lock order: a thread waits on a condition while it holds another lock" : "lock order: a thread waits for the end of another thread while it holds a lock"); return; }
  R->takes[{held, want, loc, fn}] |= 1u << (S->tid & 31);
}
static void orderReport() {
  if (getenv("BTA_TAKES")) for (auto &t : R->takes) { errs() << "TAKE " << t.first.loc << " " << t.first.func << " wants " << lockNames[t.first.want].txt << " holding"; for (int h : t.first.held) errs() << " [" << lockNames[h].txt << "]"; errs() << " threads " << t.second << "\n"; }
  std::vector<std::pair<Result::Take, unsigned>> e(R->takes.begin(), R->takes.end()); R->asserts["lock order: nested acquisitions"] += (long)e.size();
  std::vector<int> path; std::set<str> done;
  std::function<bool(int)> go = [&](int i) -> bool {
    if (path.size() > 1 && e[path[0]].first.held.count(e[i].first.want)) {           // the last one waits for what the first one holds
      unsigned all = 0; for (int k : path) all |= e[k].second; if (!(all & (all - 1))) return false; // only one thread
      Violation v; v.rule = "lock order: threads wait for each other's locks"; v.loc = e[path[0]].first.loc; v.func = e[path[0]].first.func; if (!done.insert(v.loc).second) return true;
      for (int k : path) { str h; for (int t : e[k].first.held) h += (h.empty() ? "" : ", ") + lockNames[t].txt; v.trace.push_back(e[k].first.loc + ": " + e[k].first.func + " takes the " + lockNames[e[k].first.want].txt + " holding the " + h); }
      if (R->viol.count(v.rule)) v.rule += " (" + v.loc + ")";
      R->viol[v.rule] = v; return true; }
    if (path.size() == 4) return false;
    for (int j = 0; j < (int)e.size(); j++) { if (!e[j].first.held.count(e[i].first.want)) continue;
      bool apart = true; for (int k : path) for (int t : e[k].first.held) if (e[j].first.held.count(t)) apart = false; if (!apart) continue;
      path.push_back(j); bool f = go(j); path.pop_back(); if (f) return true; }
    return false; };
  for (int i = 0; i < (int)e.size(); i++) { path.assign(1, i); go(i); }
}
// records an access to an object under lock-set observation: where, by which thread, holding which of the object's mutexes
static void noteAccess(const State::Guard &g, Val p, int64_t sz, bool wr, bool atomic) {
  auto &fr = stk().fr; int i = (int)fr.size() - 1;
  { StringRef n = fr[i]->F->getName(); if (n.starts_with("pthread_") || n.starts_with("sa_") || n.starts_with("env_")) return; }
  while (i >= 0 && !fr[i]->fi->inSrc) { if (fr[i]->fi->inTU) return; i--; }
  if (i < 0) return;
  Result::Acc a; a.loc = locOf(&*fr[i]->it); a.func = shortDem(fr[i]->F); a.wr = wr; a.atomic = atomic;
  for (auto &m : S->locks) if (m.first == g.mreg && m.second >= g.moff && m.second < g.moff + g.on && heldBySelf(m)) a.locks.insert(m.second - g.moff);
  const str &L = locksetLabels[g.tag - 1000]; R->asserts["lock-set: " + L]++;
  for (int64_t b = std::max(p.a, g.lo); b < std::min(p.a + sz, g.hi); b++) R->acc[L][b - g.lo][a] |= 1u << (S->tid & 31);
}
static void locksetReport() {
  for (auto &o : R->acc) { std::set<str> done;
    for (auto &b : o.second) for (auto &x : b.second) for (auto &y : b.second) {
      const Result::Acc &p = x.first, &q = y.first;
      if (!p.wr || (p.atomic && q.atomic)) continue;                         // p writes
      if (x.second == y.second && !(x.second & (x.second - 1))) continue;     // only one thread
      bool common = false; for (auto l : p.locks) if (q.locks.count(l)) common = true; if (common) continue;
      const Result::Acc &bad = q.locks.size() <= p.locks.size() ? q : p, &other = &bad == &q ? p : q;
      str key = bad.loc + bad.func; if (!done.insert(key).second) continue;
      Violation v; v.rule = "lock-set: " + o.first + ": state " + (bad.wr ? "written" : "read") + " by one thread and " + (other.wr ? "written" : "read") + " by another with no common lock";
      if (R->viol.count(v.rule)) v.rule += " (" + bad.loc + ")";
      v.loc = bad.loc; v.func = bad.func; v.trace = {"offset " + std::to_string(b.first) + " of the object", bad.loc + ": " + (bad.wr ? "write" : "read") + " in " + bad.func + " holding " + std::to_string(bad.locks.size()) + " of the object's mutexes",
        other.loc + ": " + (other.wr ? "write" : "read") + " in " + other.func + " holding " + std::to_string(other.locks.size()) + " of the object's mutexes"};
      R->viol[v.rule] = v;
    } }
}
static void checkAccess(Val p, int64_t sz, bool wr, bool atomic) {
  const Region &r = regR(p.id);
  if (r.freed) { if (!userRule("uaf_ok")) violation(str("use-after-free: object accessed after it was released")); throw EndPath(); }
  if (r.size >= 0 && (p.a < 0 || p.a + sz > r.size) && !r.external && r.kind != Region::LAZY) { if (!userRule("oob_ok")) violation("out-of-bounds access"); throw EndPath(); }
  if (locksetUsed) for (auto &g : S->guards) if (g.tag >= 1000 && g.region == p.id && p.a < g.hi && p.a + sz > g.lo) noteAccess(g, p, sz, wr, atomic);
  if (!atomic && !S->guards.empty()) {
    for (auto &g : S->guards) if (g.tag >= 0 && g.tag < 1000 && g.region == p.id && p.a < g.hi && p.a + sz > g.lo) {
      const Region &mr = regR(g.mreg); auto c = mr.cells.find(g.moff); Val o = c == mr.cells.end() ? mkInt(0, 32) : resolve(c->second.v);
      R->asserts["guarded-by#" + std::to_string(g.tag)]++;
      if (!(o.k == Val::INT && o.a == S->tid + 1)) violation(str("guarded-by: shared state ") + (wr ? "written" : "read") + " without holding the mutex that protects it");
    }
  }
}
static Val loadV(Type *T, Val p, const Instruction *I, bool atomic = false);
static Val loadScalar(int id, int64_t off, int64_t sz, Type *T, const Instruction *I) {
  const Region &r = regR(id);
  unsigned w = T->isPointerTy() ? 64 : T->isIntegerTy() ? std::min(64u, T->getIntegerBitWidth()) : 64;
  auto it = r.cells.find(off);
  if (it != r.cells.end() && it->second.sz == sz) {
    Val v = resolve(it->second.v);
    if (v.k == Val::INT) return mkInt(v.a, w); 
    if (v.k == Val::SYM && v.w != w) { if (sz * 8 <= 64) { // e.g. i8 cell read as i1
        if (v.w > w) { auto &si = S->syms[v.id]; if (v.a == 0 && si.lo >= 0 && (w == 1 ? si.hi <= 1 : si.hi <= smax(w))) { v.w = w; return v; } }
        else { v.w = w; return v; } }
      Val f = freshFor(T); return f; }
    if (v.k == Val::UND) { Val f = freshFor(T); regW(id).cells[off] = Cell{f, (int32_t)sz}; return f; }
    return v;
  }
  // overlap?
  auto lo = r.cells.lower_bound(off); bool ov = false;
  if (lo != r.cells.begin()) { auto p = std::prev(lo); if (p->first + p->second.sz > off) ov = true; }
  if (lo != r.cells.end() && lo->first < off + sz) ov = true;
  if (!ov) {
    if (r.def == Region::ZERO) { if (T->isIntegerTy() || T->isPointerTy()) return mkInt(0, w); Val z; z.k = Val::FP; z.a = 0; return z; }
    Val f = freshFor(T);
    if (f.k == Val::SYM) { if (auto *MD = I ? I->getMetadata(LLVMContext::MD_range) : nullptr) {
        auto *l = mdconst::extract<ConstantInt>(MD->getOperand(0)), *h = mdconst::extract<ConstantInt>(MD->getOperand(1));
        Sym &s = S->syms[f.id]; if (l->getSExtValue() == 0 && h->getSExtValue() == 2) { s.lo = 0; s.hi = 1; } }
      Region &rw = regW(id); rw.cells[off] = Cell{f, (int32_t)sz}; if (rw.kind == Region::GLOBAL) rw.dirty = true; }
    return f;
  }
  // compose bytes
  uint64_t acc = 0; bool ok = sz <= 8;
  for (int i = 0; ok && i < sz; i++) {
    int64_t p = off + i; auto u = r.cells.upper_bound(p); bool found = false;
    if (u != r.cells.begin()) { auto c = std::prev(u); if (c->first + c->second.sz > p) { found = true; Val v = resolve(c->second.v); if (v.k != Val::INT) { ok = false; break; } acc |= ((uint64_t)(v.a >> (8 * (p - c->first))) & 0xff) << (8 * i); } }
    if (!found) { if (r.def == Region::ZERO) continue; ok = false; }
  }
  if (ok) return mkInt((int64_t)acc, w);
  return freshFor(T);
}
static Val loadV(Type *T, Val p, const Instruction *I, bool atomic) {
  p = derefable(p, I);
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); std::vector<Val> v; for (unsigned i = 0; i < ST->getNumElements(); i++) { Val q = p; q.a += SL->getElementOffset(i); v.push_back(loadV(ST->getElementType(i), q, nullptr, atomic)); } return mkAgg(v); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v; int64_t es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) { Val q = p; q.a += i * es; v.push_back(loadV(AT->getElementType(), q, nullptr, atomic)); } return mkAgg(v); }
  int64_t sz = DL->getTypeStoreSize(T);
  checkAccess(p, sz, false, atomic);
  return loadScalar(p.id, p.a, sz, T, I);
}
static void storeV(Type *T, Val p, Val v, const Instruction *I, bool atomic = false) {
  p = derefable(p, I);
  if (T->isStructTy() && v.k == Val::AGG) { auto *ST = cast<StructType>(T); auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) { Val q = p; q.a += SL->getElementOffset(i); storeV(ST->getElementType(i), q, (*v.agg)[i], I, atomic); } return; }
  if (T->isArrayTy() && v.k == Val::AGG) { auto *AT = cast<ArrayType>(T); int64_t es = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) { Val q = p; q.a += i * es; storeV(AT->getElementType(), q, (*v.agg)[i], I, atomic); } return; }
  int64_t sz = DL->getTypeStoreSize(T);
  checkAccess(p, sz, true, atomic);
  if (v.k == Val::INT && T->isIntegerTy() && T->getIntegerBitWidth() <= 64 && T->getIntegerBitWidth() % 8) v = mkInt((int64_t)zx(v.a, T->getIntegerBitWidth()), sz * 8);
  Region &r = regW(p.id); r.dirty = true;
  breakCells(r, p.a, sz);
  r.cells[p.a] = Cell{v, (int32_t)sz};
}
static void memCopy(Val d, Val s, int64_t n, const Instruction *I) {
  if (n == 0) return;
  d = derefable(d, I); s = derefable(s, I);
  checkAccess(s, n, false, false); checkAccess(d, n, true, false);
  // lazily initialised source: leave absent cells unmaterialised unless destination must see same symbols
  { const Region &sr0 = regR(s.id);
    if (sr0.def != Region::ZERO && sr0.kind != Region::STACK && n <= 256) { // materialise 8-byte holes so both copies agree
      int64_t o = s.a; while (o < s.a + n) { auto it = regR(s.id).cells.upper_bound(o); 
        bool cov = false; int64_t e = 0; if (it != regR(s.id).cells.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > o) { cov = true; e = p->first + p->second.sz; } }
        if (cov) { o = e; continue; }
        int64_t nxt = it == regR(s.id).cells.end() ? s.a + n : std::min(it->first, s.a + n);
        int64_t sz = (o % 8 == 0 && nxt - o >= 8) ? 8 : (o % 4 == 0 && nxt - o >= 4) ? 4 : 1;
        Region &rw = regW(s.id); rw.cells[o] = Cell{freshSym(sz * 8), (int32_t)sz}; rw.dirty = true; o += sz; } } }
  std::vector<std::pair<int64_t, Cell>> cp; const Region &sr = regR(s.id);
  std::vector<char> cov(n, 0);
  auto it = sr.cells.lower_bound(s.a); if (it != sr.cells.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > s.a) it = p; }
  for (; it != sr.cells.end() && it->first < s.a + n; ++it) {
    int64_t o = it->first; 
    if (o >= s.a && o + it->second.sz <= s.a + n) { cp.push_back({o - s.a, it->second}); for (int i = 0; i < it->second.sz; i++) cov[o - s.a + i] = 1; }
    else { Val v = resolve(it->second.v); for (int i = 0; i < it->second.sz; i++) { int64_t p = o + i; if (p < s.a || p >= s.a + n) continue; cov[p - s.a] = 1; cp.push_back({p - s.a, Cell{v.k == Val::INT ? mkInt(v.a >> (8 * i), 8) : freshSym(8), 1}}); } }
  }
  auto sdef = sr.def; 
  Region &dr = regW(d.id); dr.dirty = true; breakCells(dr, d.a, n);
  for (auto &c : cp) dr.cells[d.a + c.first] = c.second;
  if (sdef != dr.def && n <= 65536) { // fill holes with source's default
    for (int64_t i = 0; i < n;) { if (cov[i]) { i++; continue; } int64_t sz = 1; if ((d.a + i) % 8 == 0 && i + 8 <= n) { bool f = true; for (int k = 0; k < 8; k++) if (cov[i + k]) f = false; if (f) sz = 8; }
      if (sdef == Region::ZERO) dr.cells[d.a + i] = Cell{mkInt(0, sz * 8), (int32_t)sz}; else if (dr.def == Region::ZERO) dr.cells[d.a + i] = Cell{freshSym(sz * 8), (int32_t)sz};
      i += sz; }
  }
}
static void memSet(Val d, Val b, int64_t n, const Instruction *I) {
  if (n == 0) return; d = derefable(d, I); checkAccess(d, n, true, false); Region &r = regW(d.id); r.dirty = true; breakCells(r, d.a, n);
  if (b.k == Val::INT && b.a == 0 && r.def == Region::ZERO) return;
  uint64_t p = b.k == Val::INT ? zx(b.a, 8) * 0x0101010101010101ull : 0;
  for (int64_t i = 0; i < n;) { int64_t sz = 1; if ((d.a + i) % 8 == 0 && i + 8 <= n) sz = 8; r.cells[d.a + i] = Cell{b.k == Val::INT ? mkInt(p, sz * 8) : freshSym(sz * 8), (int32_t)sz}; i += sz; }
}
// ------------------------------------------------------------------ comparisons
static bool symRange(Val v, int64_t &lo, int64_t &hi) { // signed range of a value
  if (v.k == Val::INT) { lo = hi = v.a; return true; }
  if (v.k != Val::SYM) return false;
  auto it = S->syms.find(v.id); if (it == S->syms.end()) return false;
  __int128 l = (__int128)it->second.lo + v.a, h = (__int128)it->second.hi + v.a;
  if (l < smin(v.w) || h > smax(v.w)) { lo = smin(v.w); hi = smax(v.w); return v.a == 0; }
  lo = l; hi = h; return true;
}
static str vstr(Val v) { switch (v.k) { case Val::INT: return std::to_string(v.a); case Val::SYM: return "s" + std::to_string(v.id) + (v.a ? "+" + std::to_string(v.a) : ""); case Val::PTR: return "&r" + std::to_string(v.id) + "+" + std::to_string(v.a); case Val::FN: return fnTab[v.id]->getName().str(); default: return "?"; } }
// returns 0/1 decided, or forks
static int cmpVals(CmpInst::Predicate P, Val x, Val y, unsigned w, const Instruction *I) {
  x = resolve(x); y = resolve(y);
  auto fold = [&](int64_t a, int64_t b) -> int {
    uint64_t ua = zx(a, w), ub = zx(b, w);
    switch (P) { case CmpInst::ICMP_EQ: return ua == ub; case CmpInst::ICMP_NE: return ua != ub; case CmpInst::ICMP_SLT: return a < b; case CmpInst::ICMP_SLE: return a <= b; case CmpInst::ICMP_SGT: return a > b; case CmpInst::ICMP_SGE: return a >= b;
    case CmpInst::ICMP_ULT: return ua < ub; case CmpInst::ICMP_ULE: return ua <= ub; case CmpInst::ICMP_UGT: return ua > ub; case CmpInst::ICMP_UGE: return ua >= ub; default: return 0; } };
  if (x.k == Val::INT && y.k == Val::INT) return fold(x.a, y.a);
  bool eq = P == CmpInst::ICMP_EQ, ne = P == CmpInst::ICMP_NE;
  auto isAddr = [](Val &v) { return v.k == Val::PTR || v.k == Val::FN; };
  if (isAddr(x) && isAddr(y)) {
    bool same = x.k == y.k && x.id == y.id;
    if (same) return fold(x.a, y.a);
    if (eq) return 0; if (ne) return 1;
  } else if (isAddr(x) && y.k == Val::INT) { if (eq) return 0; if (ne) return 1; return P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_UGE || P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_SGE; }
  else if (isAddr(y) && x.k == Val::INT) { if (eq) return 0; if (ne) return 1; return P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_SLT || P == CmpInst::ICMP_SLE; }
  // normalise const to the right
  if (x.k != Val::SYM && y.k == Val::SYM) { std::swap(x, y); P = CmpInst::getSwappedPredicate(P); eq = P == CmpInst::ICMP_EQ; ne = P == CmpInst::ICMP_NE; }
  if (x.k == Val::SYM && y.k == Val::SYM && x.id == y.id) { if (eq || ne) return fold(x.a, y.a); if (CmpInst::isSigned(P) || true) return fold(x.a, y.a); }
  if (x.k == Val::SYM) {
    int64_t xl, xh, yl, yh; bool okx = symRange(x, xl, xh), oky = symRange(y, yl, yh);
    if (okx && oky) {
      bool sgn = CmpInst::isSigned(P); bool cmpok = eq || ne || sgn || (xl >= 0 && yl >= 0);
      if (!cmpok && w > 1 && yl == yh && yl == 0) { if (P == CmpInst::ICMP_ULT) return 0; if (P == CmpInst::ICMP_UGE) return 1; if (P == CmpInst::ICMP_UGT) { P = CmpInst::ICMP_NE; ne = true; cmpok = true; } if (P == CmpInst::ICMP_ULE) { P = CmpInst::ICMP_EQ; eq = true; cmpok = true; } }
      if (cmpok) {
        CmpInst::Predicate Q = (eq || ne) ? P : CmpInst::isSigned(P) ? P : CmpInst::getSignedPredicate(P);
        switch (Q) { case CmpInst::ICMP_EQ: if (xh < yl || xl > yh) return 0; break; case CmpInst::ICMP_NE: if (xh < yl || xl > yh) return 1; break;
        case CmpInst::ICMP_SLT: if (xh < yl) return 1; if (xl >= yh) return 0; break; case CmpInst::ICMP_SLE: if (xh <= yl) return 1; if (xl > yh) return 0; break;
        case CmpInst::ICMP_SGT: if (xl > yh) return 1; if (xh <= yl) return 0; break; case CmpInst::ICMP_SGE: if (xl >= yh) return 1; if (xh < yl) return 0; break; default: break; }
        if (y.k == Val::INT) {
          Sym &s = S->syms[x.id]; int64_t c = y.a - x.a; if (w < 64) c = sx(c, w);
          if (eq || ne) { for (auto n : s.neq) if (n == c) return ne; if (c < s.lo || c > s.hi) return ne; }
          // refine
          int id = x.id; auto mk = [=](bool tv) { return [=]() -> bool {
              Sym &q = S->syms[id]; traceEv(I, 0, tv);
              CmpInst::Predicate PP = tv ? Q : CmpInst::getInversePredicate(Q);
              switch (PP) { case CmpInst::ICMP_EQ: q.lo = q.hi = c; break; case CmpInst::ICMP_NE: q.neq.push_back(c); break;
              case CmpInst::ICMP_SLT: if (c == INT64_MIN) return false; q.hi = std::min(q.hi, c - 1); break; case CmpInst::ICMP_SLE: q.hi = std::min(q.hi, c); break;
              case CmpInst::ICMP_SGT: if (c == INT64_MAX) return false; q.lo = std::max(q.lo, c + 1); break; case CmpInst::ICMP_SGE: q.lo = std::max(q.lo, c); break; default: break; }
              return tightenEnds(q); }; };
          fork({mk(true), mk(false)});
        }
      }
    }
    if (isAddr(y) && (eq || ne)) {
      // symbolic pointer against an address: alias or not
      for (auto &f : S->facts) if (f.op == CmpInst::ICMP_EQ && resolve(f.x) == x && resolve(f.y) == y) return eq ? f.res.a : !f.res.a;
      Sym &s = S->syms[x.id]; if (y.k == Val::PTR && S->mem.count(y.id) && regR(y.id).kind != Region::LAZY && !userRule("alias")) { (void)s; return ne; } // an arbitrary argument does not alias locals
      int id = x.id; Val xx = x, yy = y;
      fork({[=]() { traceEv(I, 0, eq); Val b = yy; b.a -= xx.a; return bindSym(id, b); }, [=]() { traceEv(I, 0, ne); S->facts.push_back({CmpInst::ICMP_EQ, xx, yy, mkInt(0, 1)}); return true; }});
    }
  }
  // general fact memo
  auto canon = [&](CmpInst::Predicate p, Val a, Val b, bool &neg, CmpInst::Predicate &q, Val &ra, Val &rb) {
    neg = false; ra = a; rb = b; q = p;
    switch (p) { case CmpInst::ICMP_NE: q = CmpInst::ICMP_EQ; neg = true; break; case CmpInst::ICMP_SGT: q = CmpInst::ICMP_SLT; std::swap(ra, rb); break; case CmpInst::ICMP_UGT: q = CmpInst::ICMP_ULT; std::swap(ra, rb); break;
    case CmpInst::ICMP_SGE: q = CmpInst::ICMP_SLT; neg = true; break; case CmpInst::ICMP_UGE: q = CmpInst::ICMP_ULT; neg = true; break;
    case CmpInst::ICMP_SLE: q = CmpInst::ICMP_SLT; std::swap(ra, rb); neg = true; break; case CmpInst::ICMP_ULE: q = CmpInst::ICMP_ULT; std::swap(ra, rb); neg = true; break; default: break; }
    if (q == CmpInst::ICMP_EQ && ra.k == Val::SYM && rb.k == Val::SYM && rb.id < ra.id) std::swap(ra, rb);
  };
  bool neg; CmpInst::Predicate q; Val a, b; canon(P, x, y, neg, q, a, b);
  if ((q == CmpInst::ICMP_SLT || q == CmpInst::ICMP_ULT) && a.k == Val::PTR && b.k == Val::PTR) { // distinct objects: some strict order, the same at every comparison
    a.a = b.a = 0; q = CmpInst::ICMP_ULT; if (a.id > b.id) { std::swap(a, b); neg = !neg; }
    auto reach = [&](int from, int to) { std::set<int> seenp{from}; std::vector<int> w{from}; while (!w.empty()) { int k = w.back(); w.pop_back(); if (k == to) return true;
        for (auto &f : S->facts) if (f.op == CmpInst::ICMP_ULT) { Val fx = resolve(f.x), fy = resolve(f.y); if (fx.k != Val::PTR || fy.k != Val::PTR || fx.id == fy.id) continue; int lo = f.res.a ? fx.id : fy.id, hi = f.res.a ? fy.id : fx.id; if (lo == k && seenp.insert(hi).second) w.push_back(hi); } } return false; };
    if (reach(a.id, b.id)) return neg ? 0 : 1; if (reach(b.id, a.id)) return neg ? 1 : 0; }
  auto bump = [](Val v, int64_t d) { v.a += d; return v; };
  for (auto &f : S->facts) if (f.op < 1000) {
    Val fx = resolve(f.x), fy = resolve(f.y);
    if (f.op == (int)q && ((fx == a && fy == b) || (q == CmpInst::ICMP_EQ && fx == b && fy == a))) return neg ? !f.res.a : f.res.a;
    if (q == CmpInst::ICMP_EQ && (f.op == CmpInst::ICMP_SLT || f.op == CmpInst::ICMP_ULT) && f.res.a && ((fx == a && fy == b) || (fx == b && fy == a))) return neg ? 1 : 0;
    if ((q == CmpInst::ICMP_SLT || q == CmpInst::ICMP_ULT) && f.op == (int)q && f.res.a && fx == b && fy == a) return neg ? 1 : 0; // b<a => !(a<b)
  }
  (void)bump;
  if (q == CmpInst::ICMP_EQ && a.k == Val::SYM && b.k == Val::SYM) {
    Val aa = a, bb = b; bool ng = neg;
    fork({[=]() { traceEv(I, 0, !ng); Val t = aa; t.a -= bb.a; int hi = std::max(aa.id, bb.id); if (hi == aa.id) { Val u = bb; u.a -= aa.a; return bindSym(aa.id, u); } return bindSym(bb.id, t); },
          [=]() { traceEv(I, 0, ng); S->facts.push_back({(int)q, aa, bb, mkInt(0, 1)}); return true; }});
  }
  { Val aa = a, bb = b; bool ng = neg; int qq = q;
    fork({[=]() { traceEv(I, 0, !ng); S->facts.push_back({qq, aa, bb, mkInt(1, 1)}); return true; }, [=]() { traceEv(I, 0, ng); S->facts.push_back({qq, aa, bb, mkInt(0, 1)}); return true; }}); }
  return 0;
}
// decide a symbolic truth value, forking when unknown
static int truth(Val v, const Instruction *I) {
  v = resolve(v);
  if (v.k == Val::INT) return zx(v.a, v.w) != 0;
  if (v.k == Val::PTR || v.k == Val::FN) return 1;
  if (v.k == Val::SYM) return cmpVals(CmpInst::ICMP_NE, v, mkInt(0, v.w), v.w, I);
  fork({[=]() { return true; }, [=]() { return true; }});
  return 0;
}
static Val exprSym(int op, Val a, Val b, unsigned w) {
  for (auto &f : S->facts) if (f.op == 1000 + op && resolve(f.x) == a && resolve(f.y) == b && f.res.w == w) return resolve(f.res);
  Val r = freshSym(w); S->facts.push_back({1000 + op, a, b, r}); return r;
}
// ------------------------------------------------------------------ binary ops
static Val binop(unsigned op, Val x, Val y, unsigned w, const Instruction *I) {
  if (w > 64) return freshSym(64);
  if (x.k == Val::FP || y.k == Val::FP || (op >= Instruction::FAdd && (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv || op == Instruction::FRem))) { Val u; return u; }
  if (w == 1) { x = mkInt(truth(x, I), 1); y = mkInt(truth(y, I), 1); }
  if (x.k == Val::INT && y.k == Val::INT) {
    uint64_t a = zx(x.a, w), b = zx(y.a, w); int64_t sa = x.a, sb = y.a;
    switch (op) {
    case Instruction::Add: return mkInt(a + b, w); case Instruction::Sub: return mkInt(a - b, w); case Instruction::Mul: return mkInt(a * b, w);
    case Instruction::And: return mkInt(a & b, w); case Instruction::Or: return mkInt(a | b, w); case Instruction::Xor: return mkInt(a ^ b, w);
    case Instruction::Shl: return mkInt(b >= w ? 0 : a << b, w); case Instruction::LShr: return mkInt(b >= w ? 0 : a >> b, w); case Instruction::AShr: return mkInt(b >= w ? (sa < 0 ? -1 : 0) : sa >> b, w);
    case Instruction::UDiv: if (!b) { violation("division by zero"); throw EndPath(); } return mkInt(a / b, w); case Instruction::URem: if (!b) { violation("division by zero"); throw EndPath(); } return mkInt(a % b, w);
    case Instruction::SDiv: if (!sb) { violation("division by zero"); throw EndPath(); } return mkInt(sb == -1 ? -(uint64_t)sa : sa / sb, w); case Instruction::SRem: if (!sb) { violation("division by zero"); throw EndPath(); } return mkInt(sb == -1 ? 0 : sa % sb, w);
    default: return freshSym(w); }
  }
  if (x.k == Val::FN && y.k == Val::INT && op == Instruction::And && y.a >= 0 && y.a < 16) return mkInt(0, w); // code addresses are aligned
  if (x.k == Val::FN && y.k == Val::INT && y.a == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Sub)) return x;
  if (x.k == Val::PTR && y.k == Val::INT) {
    if (op == Instruction::Add) { x.a += y.a; return x; } if (op == Instruction::Sub) { x.a -= y.a; return x; }
    if (op == Instruction::And) { if (y.a < 0) { int64_t al = -y.a; if (al <= 16) { x.a &= y.a; return x; } } else if (y.a < 16) { return mkInt(x.a & y.a, w); } }
    if (op == Instruction::Or && y.a >= 0 && y.a < 8) { x.a |= y.a; return x; } if (op == Instruction::Xor && y.a >= 0 && y.a < 8) { x.a ^= y.a; return x; }
  }
  if (x.k == Val::INT && y.k == Val::PTR && op == Instruction::Add) { y.a += x.a; return y; }
  if (x.k == Val::PTR && y.k == Val::PTR && op == Instruction::Sub && x.id == y.id) return mkInt(x.a - y.a, w);
  if (x.k == Val::SYM && y.k == Val::INT && (op == Instruction::Add || op == Instruction::Sub)) { x.a = sx(op == Instruction::Add ? x.a + y.a : x.a - y.a, w); return x; }
  if (x.k == Val::INT && y.k == Val::SYM && op == Instruction::Add) { y.a = sx(x.a + y.a, w); return y; }
  if (x.k == Val::SYM && y.k == Val::SYM && x.id == y.id && op == Instruction::Sub) return mkInt(x.a - y.a, w);
  if (y.k == Val::INT) {
    if (y.a == 0 && (op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return x;
    if (y.a == 0 && (op == Instruction::And || op == Instruction::Mul)) return mkInt(0, w);
    if (y.a == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return x;
    if (op == Instruction::And && x.k == Val::SYM) { int64_t l, h; if (symRange(x, l, h) && l >= 0 && ((uint64_t)(y.a + 1) & y.a) == 0 && h <= y.a) return x; }
    if ((op == Instruction::URem || op == Instruction::SRem) && x.k == Val::SYM && y.a > 0) { int64_t l, h; if (symRange(x, l, h) && l >= 0 && h < y.a) return x; Val r = exprSym(op, x, y, w); if (r.k == Val::SYM) { Sym &s = S->syms[r.id]; if (op == Instruction::URem || (l >= 0)) { s.lo = std::max(s.lo, (int64_t)0); s.hi = std::min(s.hi, y.a - 1); } } return resolve(r); }
  }
  if (w <= 64 && (x.k == Val::SYM || y.k == Val::SYM || x.k == Val::PTR || y.k == Val::PTR)) {
    bool comm = op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor;
    if (comm && x.k == Val::INT) std::swap(x, y);
    int64_t xl, xh, yl, yh; bool kx = symRange(x, xl, xh), ky = symRange(y, yl, yh);
    Val r = exprSym(op, x, y, w);
    if (r.k == Val::SYM && kx && ky) { Sym &s = S->syms[r.id];
      __int128 lo, hi; bool set = false;
      if (op == Instruction::Add) { lo = (__int128)xl + yl; hi = (__int128)xh + yh; set = true; }
      if (op == Instruction::Sub) { lo = (__int128)xl - yh; hi = (__int128)xh - yl; set = true; }
      if (op == Instruction::Mul && xl >= 0 && yl >= 0) { lo = (__int128)xl * yl; hi = (__int128)xh * yh; set = true; }
      if ((op == Instruction::SDiv || op == Instruction::UDiv) && xl >= 0 && yl > 0) { lo = xl / yh; hi = xh / yl; set = true; }
      if (op == Instruction::And && (xl >= 0 || yl >= 0)) { lo = 0; hi = xl >= 0 && yl >= 0 ? std::min(xh, yh) : xl >= 0 ? xh : yh; set = true; }
      if (set && lo >= smin(w) && hi <= smax(w)) { s.lo = std::max(s.lo, (int64_t)lo); s.hi = std::min(s.hi, (int64_t)hi); } }
    return resolve(r);
  }
  return freshSym(w);
}
// ------------------------------------------------------------------ RTTI
static const char *stdBase(StringRef n) {
  static const std::map<std::string, const char *> B = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt8bad_weak_ptr","_ZTISt9exception"}};
  auto it = B.find(n.str()); return it == B.end() ? nullptr : it->second;
}
static bool tiBase(const Constant *D, const Constant *B, int64_t off, int64_t &res) {
  if (D == B) { res = off; return true; }
  auto *G = dyn_cast<GlobalVariable>(D); if (!G) return false;
  auto *GB = dyn_cast<GlobalVariable>(B); if (GB && G->getName() == GB->getName()) { res = off; return true; }
  if (!G->hasInitializer()) { const char *b = stdBase(G->getName()); if (b) { auto *bg = M->getNamedGlobal(b); if (GB && GB->getName() == b) { res = off; return true; } if (bg) return tiBase(bg, B, off, res); // base not in module: continue by name
        const char *bb = b; while ((bb = stdBase(bb))) if (GB && GB->getName() == bb) { res = off; return true; } } return false; }
  auto *I = dyn_cast<ConstantStruct>(G->getInitializer()); if (!I) return false;
  unsigned n = I->getNumOperands();
  if (n == 3) { return tiBase(cast<Constant>(I->getOperand(2)->stripPointerCasts()), B, off, res); }
  if (n > 4) for (unsigned i = 4; i + 1 < n; i += 2) {
    auto *fl = dyn_cast<ConstantInt>(I->getOperand(i + 1)); if (!fl) continue; int64_t f = fl->getSExtValue();
    if (f & 1) { // virtual base: offset unknown statically; treat as offset 0 adjust via first match
      int64_t r; if (tiBase(cast<Constant>(I->getOperand(i)->stripPointerCasts()), B, 0, r)) { res = -999999; return true; } continue; }
    if (!(f & 2)) continue;
    if (tiBase(cast<Constant>(I->getOperand(i)->stripPointerCasts()), B, off + (f >> 8), res)) return true;
  }
  return false;
}
// ------------------------------------------------------------------ canonical form
struct Canon {
  std::string buf; std::unordered_map<int, int> rmap, smap; std::vector<int> order; std::unordered_map<int, int> srefs;
  void u(uint64_t x) { char b[10]; int n = 0; while (x >= 0x80) { b[n++] = (char)(x | 0x80); x >>= 7; } b[n++] = (char)x; buf.append(b, n); }
  void s(int64_t x) { u(((uint64_t)x << 1) ^ (uint64_t)(x >> 63)); }
  int reg(int id) { auto it = rmap.find(id); if (it != rmap.end()) return it->second; int n = rmap.size(); rmap[id] = n; order.push_back(id); return n; }
  // pass 1
  void visit(const Val &v0) { Val v = resolve(v0); if (v.k == Val::PTR) reg(v.id); else if (v.k == Val::SYM) srefs[v.id]++; else if (v.k == Val::AGG) for (auto &e : *v.agg) visit(e); }
  void emit(const Val &v0) {
    Val v = resolve(v0); u(v.k);
    switch (v.k) { case Val::INT: u(v.w); s(v.a); break; case Val::PTR: u(reg(v.id)); s(v.a); break; case Val::FN: u(v.id); break; case Val::FP: s(v.a); break;
    case Val::SYM: { auto it = smap.find(v.id); int n; if (it == smap.end()) { n = smap.size(); smap[v.id] = n; u(n); auto q = S->syms.find(v.id); if (q != S->syms.end() && !q->second.full()) { u(1); s(q->second.lo); s(q->second.hi); for (auto e : q->second.neq) s(e); } else u(0); } else u(it->second); s(v.a); u(v.w); break; }
    case Val::AGG: u(v.agg->size()); for (auto &e : *v.agg) emit(e); break; default: break; }
  }
};
static const std::vector<int> &liveAt(const Frame &f, bool isTop) {
  if (isTop) return f.fi->liveIn[f.bb];
  auto it = f.fi->live.find(&*f.it); static std::vector<int> none; return it == f.fi->live.end() ? none : it->second;
}
static uint64_t canonHash(int atBlockEntry) { // 0: at a call in progress; 1: at a block entry; 2: just after a scheduling point
  Canon c;
  auto vf = [&](auto &&fn) {
    for (size_t si = 0; si < S->st.size(); si++) { auto &st = S->st[si]; if (st.status == 2) continue;
      for (size_t i = 0; i < st.fr.size(); i++) { const Frame &f = *st.fr[i]; bool isTop = (int)si == S->cur && i + 1 == st.fr.size();
        std::vector<int> tmp; const std::vector<int> *L;
        if (isTop && atBlockEntry == 2) { auto q = f.fi->liveBefore.find(&*f.it); if (q != f.fi->liveBefore.end()) L = &q->second; else { if (&*f.it != f.bb->getFirstNonPHI()) { errs() << "no liveness\n"; exit(3); } L = &f.fi->liveIn[f.bb]; } }
        else if (isTop && atBlockEntry) L = &f.fi->liveIn[f.bb];
        else L = &liveAt(f, false);
        if (!(isTop && atBlockEntry) && isa<InvokeInst>(&*f.it)) { auto *IV = cast<InvokeInst>(&*f.it); // union normal/unwind live-ins (phi inputs included by out[])
          (void)IV; }
        fn(f, *L, isTop); } } };
  vf([&](const Frame &f, const std::vector<int> &L, bool isTop) { for (int r : L) c.visit(f.regs[r]); if (f.hasHookRet) c.visit(f.hookRet); for (auto &v : f.varargs) c.visit(v); });
  for (auto &st : S->st) { c.visit(st.yieldVal); for (auto &k : st.caught) c.reg(k.region); }
  if (S->unwinding) c.reg(S->excR);
  std::vector<std::pair<std::string, int>> gl;
  for (auto &g : S->gmap) if (regR(g.second).dirty) c.reg(g.second);
  for (auto &g : S->guards) { c.reg(g.region); c.reg(g.mreg); }
  for (size_t i = 0; i < c.order.size(); i++) { const Region &r = regR(c.order[i]); if (r.kind == Region::GLOBAL && !r.dirty) continue; for (auto &k : r.cells) c.visit(k.second.v); }
  // drop dead memory
  for (auto it = S->mem.begin(); it != S->mem.end();) { if (!c.rmap.count(it->first) && it->second->kind != Region::GLOBAL) it = S->mem.erase(it); else ++it; }
  if (!S->locks.empty()) { std::vector<State::Lk> l; for (auto &m : S->locks) { auto it = S->mem.find(m.first); if (it != S->mem.end() && !it->second->freed && (it->second->kind == Region::GLOBAL || c.rmap.count(m.first))) l.push_back(m); } S->locks.swap(l); }
  { std::vector<Fact> nf; for (auto &f : S->facts) { auto lv = [&](const Val &v0) { Val v = resolve(v0); if (v.k == Val::SYM) return c.srefs.count(v.id) > 0; if (v.k == Val::PTR) return S->mem.count(v.id) > 0; return true; };
      Val x = resolve(f.x), y = resolve(f.y); if (x.k == Val::INT && y.k == Val::INT && f.op < 1000) continue;
      if (lv(f.x) && lv(f.y) && (f.op < 1000 || lv(f.res))) nf.push_back(f); } S->facts.swap(nf); }
  std::unordered_set<int> infact; for (auto &f : S->facts) { for (const Val *v : {&f.x, &f.y, &f.res}) { Val r = resolve(*v); if (r.k == Val::SYM) infact.insert(r.id); } }
  for (auto it = S->syms.begin(); it != S->syms.end();) { if (!it->second.bound && !c.srefs.count(it->first)) { it = S->syms.erase(it); } else ++it; }
  // emit
  c.u(S->cur); c.u(S->tid); c.u(S->st.size());
  for (auto &st : S->st) { c.u(st.status); c.u(st.resumer + 1); c.u(st.tid); c.u(st.uncaught); c.emit(st.yieldVal); c.u(st.fr.size()); for (auto &k : st.caught) { c.u(c.reg(k.region)); c.s(k.off); c.u((uintptr_t)k.ti); c.s(k.adj); c.s(k.count); c.u(k.rethrown); } }
  vf([&](const Frame &f, const std::vector<int> &L, bool isTop) { c.u((uintptr_t)f.F); c.u((uintptr_t)f.bb); c.u((uintptr_t)&*f.it); c.u(f.hookFrame); if (f.hasHookRet) c.emit(f.hookRet); c.u(f.varargs.size()); for (int r : L) { c.u(r); c.emit(f.regs[r]); } });
  c.u(S->unwinding); if (S->unwinding) { c.u(c.reg(S->excR)); c.u((uintptr_t)S->excTI); }
  for (auto &o : S->opts) { c.buf += o.first; c.s(o.second); }
  for (auto &g : S->guards) { c.u(c.reg(g.region)); c.s(g.lo); c.s(g.hi); c.u(c.reg(g.mreg)); c.s(g.moff); c.s(g.tag >= 1000 ? g.tag : g.tag == -1); }
  for (auto &m : S->locks) { if (regR(m.first).kind == Region::GLOBAL) c.u(77); else c.u(c.reg(m.first)); c.s(m.second); }
  // a lone, unconstrained symbol in a lazily initialised cell carries no information
  auto lone = [&](const Region &r, const Cell &k) { if (r.def == Region::ZERO) return false; Val v = resolve(k.v); if (v.k == Val::UND) return true; if (v.k != Val::SYM || v.a) return false; if (c.srefs[v.id] != 1 || infact.count(v.id)) return false; auto q = S->syms.find(v.id); return q == S->syms.end() || q->second.full(); };
  for (size_t i = 0; i < c.order.size(); i++) { int id = c.order[i]; const Region &r = regR(id); c.u(r.kind); c.u(r.def); c.u(r.freed); if (r.kind == Region::GLOBAL) { c.u((uintptr_t)r.gv); c.u(r.tid); if (!r.dirty) continue; } c.u((uintptr_t)r.ti); c.s(r.size);
    for (auto &k : r.cells) { if (lone(r, k.second)) continue; c.s(k.first); c.u(k.second.sz); c.emit(k.second.v); } c.u(77); }
  c.u(S->facts.size());
  { std::vector<str> fs; for (auto &f : S->facts) { size_t b = c.buf.size(); c.s(f.op); c.emit(f.x); c.emit(f.y); c.emit(f.res); fs.push_back(c.buf.substr(b)); c.buf.resize(b); } std::sort(fs.begin(), fs.end()); for (auto &x : fs) c.buf += x; }
  return xxh3_64bits(ArrayRef<uint8_t>((const uint8_t *)c.buf.data(), c.buf.size()));
}
static void dedup(int atBlockEntry) {
  uint64_t h = canonHash(atBlockEntry);
  if (!seen.insert(h).second) { R->merged++; R->lastMerge = stk().fr; throw EndPath(); }
  R->states++;
  if (R->states > MAXSTATES) { R->incomplete.insert("state budget exhausted"); throw EndPath(); }
}
// ------------------------------------------------------------------ control flow
static bool coarse() { auto i = S->opts.find("coarse"); return i != S->opts.end() && i->second; }
static std::unordered_set<const BasicBlock *> covB; // blocks entered
static void enterBlock(const BasicBlock *to) {
  covB.insert(to);
  Frame &f = top(); const BasicBlock *from = f.bb;
  std::vector<std::pair<int, Val>> ph;
  bool widen = false;
  if (f.fi->loopHead.count(to)) { int v = ++f.visits[to]; if (v > LOOPCAP) incomplete("loop bound"); widen = v > WIDEN; }
  for (auto &P : to->phis()) {
    Val v = get(P.getIncomingValueForBlock(from)); int n = f.fi->num[&P];
    if (widen && v.k == Val::INT && P.getType()->isIntegerTy()) { Val old = resolve(top().regs[n]); if (old.k == Val::INT && !(old == v)) { Val s = freshSym(v.w); if (v.a > old.a) S->syms[s.id].lo = old.a; else S->syms[s.id].hi = old.a; v = s; } }
    ph.push_back({n, v});
  }
  Frame &g = top(); for (auto &p : ph) g.regs[p.first] = p.second;
  g.prev = from; g.bb = to; g.it = to->getFirstNonPHI()->getIterator();
  if ((coarse() ? (f.fi->loopHead.count(to) && g.visits[to] > 8) : f.fi->loopHead.count(to)) || (!coarse() && (!to->hasNPredecessors(1) || to->isLandingPad()))) dedup(true);
}
static void pushCall(const Function *F, const std::vector<Val> &args, const Instruction *site) {
  if (stk().fr.size() > 220) incomplete("call depth");
  auto f = std::make_shared<Frame>(); f->F = F; f->fi = getFI(F); f->bb = &F->getEntryBlock(); f->it = f->bb->begin(); f->regs.resize(f->fi->n);
  unsigned i = 0; for (auto &A : F->args()) { if (i < args.size()) { Val v = args[i];
      if (A.hasByValAttr() && v.k == Val::PTR) { Type *T = A.getParamByValType(); int64_t sz = DL->getTypeAllocSize(T); int id = newRegion(Region::STACK, Region::UNDEF, sz); memCopy(mkPtr(id, 0), v, sz, site); f->allocas.push_back(id); v = mkPtr(id, 0); }
      f->regs[f->fi->num[&A]] = v; } i++; }
  for (; i < args.size(); i++) f->varargs.push_back(args[i]);
  if (f->fi->inSrc) { R->srcFuncs.insert(F->getName().str()); bool fromTU = !stk().fr.empty() && stk().fr.back()->fi->inTU; if (fromTU) traceEv(site, 1, 0, shortDem(F)); }
  stk().fr.push_back(f);
}
static void popFrame() { for (int a : stk().fr.back()->allocas) { auto it = S->mem.find(a); if (it != S->mem.end()) regW(a).freed = true; } stk().fr.pop_back(); }
static void afterCall(Val ret, bool hasRet) { // complete the call at top frame's current instruction
  Frame &f = top(); const Instruction *I = &*f.it;
  if (hasRet && !I->getType()->isVoidTy()) setReg(I, ret);
  if (auto *IV = dyn_cast<InvokeInst>(I)) { enterBlock(IV->getNormalDest()); }
  else { Frame &g = top(); ++g.it; }
}
static void stackFinished(const char *how);
static void doReturn(Val v, bool has) {
  bool hook = stk().fr.back()->hookFrame; 
  const Instruction *rI = &*stk().fr.back()->it; bool src = stk().fr.back()->fi->inSrc;
  str nm; if (src) nm = shortDem(stk().fr.back()->F);
  popFrame();
  if (stk().fr.empty()) { stackFinished("return"); return; }
  if (src && stk().fr.back()->fi->inTU) traceEv(rI, 4, 0, nm + " returned");
  if (hook) { return; }
  // ret value type adaptation
  afterCall(v, has);
}
static void unwind() {
  // propagate exception to nearest handler on the current stack
  while (!stk().fr.empty()) {
    const Instruction *I = &*stk().fr.back()->it;
    if (auto *IV = dyn_cast<InvokeInst>(I)) {
      const LandingPadInst *LP = IV->getLandingPadInst();
      int sel = -1; int64_t adj = 0; bool cleanup = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses() && sel < 0; i++) {
        if (LP->isCatch(i)) { const Constant *C = LP->getClause(i)->stripPointerCasts(); if (C->isNullValue()) { sel = 0x7ffffff; tiId(C); sel = tiId(C); adj = 0; break; }
          int64_t off; if (S->excTI && tiBase(S->excTI, C, 0, off)) { sel = tiId(C); adj = off == -999999 ? 0 : off; } }
        else if (LP->isFilter(i)) { /* throw() specification */ auto *A = LP->getClause(i); if (A->getType()->getArrayNumElements() == 0) { sel = 0x6fffff; } }
      }
      if (sel >= 0 || cleanup) {
        S->excAdj = adj; S->unwinding = true; 
        Frame &f = top(); f.bb = f.bb; 
        const BasicBlock *ub = IV->getUnwindDest();
        // evaluate landing pad
        S->opts["__sel"] = sel < 0 ? 0 : sel;
        enterBlock(ub); return;
      }
    } else if (auto *CI = dyn_cast<CallInst>(I)) {
      // a nounwind call site that lets an exception out calls std::terminate
      if (CI->doesNotThrow() && !stk().fr.back()->hookFrame && !(CI->getCalledFunction() && CI->getCalledFunction()->getName().startswith("__sa"))) {
        if (!userRule("terminate_ok")) violation("terminate: exception escapes a noexcept function"); R->ends["terminate"]++; throw EndPath();
      }
    }
    if (stk().fr.back()->F->doesNotThrow()) { if (!userRule("terminate_ok")) violation("terminate: exception escapes a noexcept function"); R->ends["terminate"]++; throw EndPath(); }
    if (stk().fr.back()->hookFrame) { /* exception out of a model hook: continue in the interrupted frame */ }
    popFrame();
  }
  stackFinished("unwind");
}
static void stackFinished(const char *how) {
  if (S->cur == 0) { if (str(how) == "unwind" && !userRule("terminate_ok")) violation("an exception no rule allows reaches the caller"); R->ends[how]++; R->paths++; throw EndPath(); }
  // coroutine finished
  if (str(how) == "unwind") { if (!userRule("terminate_ok")) violation("terminate: exception escapes a thread function"); throw EndPath(); }
  Stack &st = stk(); st.status = 2; int r = st.resumer; st.caught.clear(); S->cur = r; S->tid = stk().tid; afterCall(mkInt(2, 32), true);
}
static void throwExc(int region, int64_t off, const Constant *ti) {
  S->unwinding = true; S->excR = region; S->excOff = off; S->excTI = ti; S->excAdj = 0; stk().uncaught++;
  unwind();
}
static void throwStd(const char *tname, const Instruction *I) {
  Constant *ti = M->getNamedGlobal(tname);
  if (!ti) ti = M->getOrInsertGlobal(tname, PointerType::getUnqual(M->getContext()));
  int id = newRegion(Region::EXC, Region::ZERO, 64); regW(id).ti = ti; traceEv(I, 2, 0, str("throws ") + tname); throwExc(id, 0, ti);
}
#include "builtins.inc"
