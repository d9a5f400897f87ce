#include "svx.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Attributes.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

ExprMgr M; Solver* SV;
static LLVMContext Ctx; static std::unique_ptr<Module> Mod; static const DataLayout* DL;

// ---------------------------------------------------------------- options
static int optMaxLevels = 2000, optPreempt = -1, optMaxSpin = 8, optVerbose = 0; static double optTime = 600; static bool optRace = true, optLeak = true, optMerge = true;
static u64 optStepInsts = 1000000; static std::vector<std::string> optIgnore; static std::string optOut, optTrace; static int optSamples = 3; static u64 optMaxStates = 20000000;
static u64 optSeed = 1; static int optMergeVars = 0;

// ---------------------------------------------------------------- primitives
enum Prim { P_NONE, P_ASSERT, P_ASSUME, P_NONDET, P_TCREATE, P_TJOIN, P_SELF, P_AWAIT, P_POINT, P_MALLOC, P_FREE, P_FREESZ, P_HBA, P_HBR, P_THROW, P_YIELD, P_LOG, P_COVER,
  P_MEMCPY, P_MEMMOVE, P_MEMSET, P_ABORT, P_ASSERTFAIL, P_NOOP0, P_ATBEGIN, P_ATEND, P_MERGE, P_EXCTYPE, P_NOLEAK, P_QUIESCENT, P_NTHREADS, P_AWAITIDLE, P_ENGINE, P_DYNCAST, P_WROTE };
static const std::map<std::string, int> primTab = {
  {"sv_assert_", P_ASSERT}, {"sv_assume", P_ASSUME}, {"sv_nondet_", P_NONDET}, {"sv_thread_create", P_TCREATE}, {"sv_thread_join", P_TJOIN}, {"sv_self", P_SELF},
  {"sv_await", P_AWAIT}, {"sv_await_idle", P_AWAITIDLE}, {"sv_point", P_POINT}, {"sv_malloc", P_MALLOC}, {"sv_free", P_FREE}, {"sv_free_sized", P_FREESZ}, {"sv_hb_acquire", P_HBA}, {"sv_hb_release", P_HBR}, {"sv_throw", P_THROW},
  {"sv_yield", P_YIELD}, {"sv_log", P_LOG}, {"sv_cover_", P_COVER}, {"memcpy", P_MEMCPY}, {"memmove", P_MEMMOVE}, {"memset", P_MEMSET}, {"abort", P_ABORT}, {"_ZSt9terminatev", P_ABORT},
  {"__cxa_pure_virtual", P_ABORT}, {"__assert_fail", P_ASSERTFAIL}, {"printf", P_NOOP0}, {"puts", P_NOOP0}, {"fprintf", P_NOOP0}, {"__cxa_atexit", P_NOOP0}, {"fflush", P_NOOP0},
  {"sv_atomic_begin", P_ATBEGIN}, {"sv_atomic_end", P_ATEND}, {"sv_merge", P_MERGE}, {"sv_noleak", P_NOLEAK}, {"sv_quiescent", P_QUIESCENT}, {"sv_in_engine", P_ENGINE}, {"__dynamic_cast", P_DYNCAST},
  {"sched_yield", P_YIELD}, {"sv_wrote", P_WROTE}, {"std::terminate", P_ABORT}, {"exit", P_ABORT}, {"_exit", P_ABORT}, {"_ZNSt8ios_base4InitC1Ev", P_NOOP0}, {"_ZNSt8ios_base4InitD1Ev", P_NOOP0}};

// ---------------------------------------------------------------- global tables
static std::vector<SvAlloc> AI; static std::vector<u64> aiBase; static u64 nextAddr = 0x100000;
static std::unordered_map<const GlobalValue*, int> gvAlloc; static std::map<std::tuple<u64, int>, int> nameAlloc; static std::map<std::pair<const GlobalValue*, int>, int> tlsAlloc;
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnTab; static std::unordered_map<u64, const Function*> fnAddr;
static std::set<std::string> repoFns; static std::set<std::string> unmodelled;

static int newAlloc(SvAlloc ai, u64 align) {
  if (align < 16) align = 16;
  u64 a = std::max<u64>(align, 64); u64 b = (nextAddr + a - 1) / a * a; if (align <= 16) b += 16;
  ai.base = b; nextAddr = b + ai.size + 64; AI.push_back(ai); aiBase.push_back(b); return (int)AI.size() - 1;
}
static int findAlloc(u64 addr) {
  auto it = std::upper_bound(aiBase.begin(), aiBase.end(), addr); if (it == aiBase.begin()) return -1;
  int id = int(it - aiBase.begin()) - 1; if (addr > AI[id].base + AI[id].size) return -1; return id;
}
static int gvId(const GlobalValue* g) {
  auto it = gvAlloc.find(g); if (it != gvAlloc.end()) return it->second;
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { int id = gvId(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())); gvAlloc[g] = id; return id; }
  SvAlloc ai; ai.gv = g; ai.name = g->getName().str();
  int id;
  if (auto* f = dyn_cast<Function>(g)) { ai.kind = AK::Func; ai.size = 16; ai.fn = f; ai.isConst = true; id = newAlloc(ai, 16); fnAddr[AI[id].base] = f; }
  else { auto* gv = cast<GlobalVariable>(g); ai.kind = AK::Global; ai.isConst = gv->isConstant();
    ai.size = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 0; if (!gv->hasInitializer() && ai.size < 128) ai.size = 128;
    id = newAlloc(ai, gv->getAlign() ? gv->getAlign()->value() : 16); }
  gvAlloc[g] = id; return id;
}

static std::string demang(const std::string& s) { std::string r = llvm::demangle(s); if (r.size() > 160) r = r.substr(0, 157) + "..."; return r; }
static std::string locOf(const Instruction* I) {
  std::string r;
  if (auto dl = I->getDebugLoc()) { const DILocation* d = dl.get(); r = d->getFilename().str(); auto p = r.rfind('/'); if (p != std::string::npos) r = r.substr(p + 1); r += ":" + std::to_string(d->getLine()); }
  else r = I->getFunction()->getName().str();
  return r;
}
static std::string stackOf(const Thread& t) {
  std::string r; int n = 0;
  for (int i = (int)t.stack.size() - 1; i >= 0 && n < 12; i--, n++) {
    auto& f = t.stack[i]; const Instruction* I = f->fn->insts[f->pc].I; std::string chain;
    if (auto dl = I->getDebugLoc()) { for (const DILocation* d = dl.get(); d && n < 16; d = d->getInlinedAt()) { std::string fl = d->getFilename().str(); auto p = fl.rfind('/'); if (p != std::string::npos) fl = fl.substr(p + 1);
        auto* sp = d->getScope()->getSubprogram(); chain += " < " + fl + ":" + std::to_string(d->getLine()) + (sp ? "(" + sp->getName().str().substr(0, 40) + ")" : ""); n++; } }
    else chain = " < " + demang(f->fn->F->getName().str()).substr(0, 80);
    r += chain;
  }
  return r;
}

// ---------------------------------------------------------------- types
static unsigned tw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += tw(e); return n ? n : 1; }
  if (auto* a = dyn_cast<ArrayType>(t)) { unsigned n = tw(a->getElementType()) * a->getNumElements(); return n ? n : 1; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) return tw(v->getElementType()) * v->getNumElements();
  if (t->isVoidTy()) return 0; if (t->isTokenTy()) return 1; if (t->isMetadataTy()) return 1;
  std::string s; raw_string_ostream o(s); t->print(o); throw EngineError("type " + o.str());
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 aggOff(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); if (auto* a = dyn_cast<ArrayType>(t)) return i * (u64)DL->getTypeAllocSize(a->getElementType()); return i * (u64)DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()); }
static unsigned aggBit(Type* t, unsigned i) { unsigned b = 0; for (unsigned k = 0; k < i; k++) b += tw(aggT(t, k)); return b; }
static Ex insertBits(Ex agg, unsigned lo, Ex v) {
  Ex r = v; if (lo) r = M.concat(v, M.extract(agg, 0, lo)); unsigned hi = lo + v->w; if (hi < agg->w) r = M.concat(M.extract(agg, hi, agg->w - hi), r); return r;
}

// ---------------------------------------------------------------- constants
static std::unordered_map<const Constant*, Ex> constCache;
static Ex constEx(const Constant* c);
static Ex cmpEx(unsigned pred, Ex a, Ex b);
static Ex gepConst(const GEPOperator* g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw EngineError("const gep");
  return M.bin(Op::ADD, constEx(cast<Constant>(g->getPointerOperand())), M.mkc(64, (u64)off.getSExtValue()));
}
static Ex constEx0(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w > 128) throw EngineError("wide int"); u128 v = ci->getValue().getRawData()[0]; if (w > 64) v |= (u128)ci->getValue().getRawData()[1] << 64; return M.mkc(w, v); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); u128 v = b.getRawData()[0]; if (b.getBitWidth() > 64) v |= (u128)b.getRawData()[1] << 64; return M.mkc(b.getBitWidth(), v); }
  if (isa<ConstantPointerNull>(c)) return M.mkc(64, 0);
  if (isa<UndefValue>(c)) return M.undef(tw(t));
  if (auto* g = dyn_cast<GlobalValue>(c)) return M.mkc(64, AI[gvId(g)].base);
  if (isAgg(t)) {
    unsigned n = aggN(t); Ex r = nullptr; if (tw(t) == 1 && n == 0) return M.mkc(1, 0);
    for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); if (tw(aggT(t, i)) == 0) continue; Ex x = constEx(e); r = r ? M.concat(x, r) : x; }
    return r ? r : M.mkc(1, 0);
  }
  if (c->isNullValue()) return M.mkc(tw(t), 0);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(ce));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: { Ex x = constEx(ce->getOperand(0)); unsigned w = tw(t); return w <= x->w ? M.extract(x, 0, w) : M.zext(x, w); }
      case Instruction::Sub: return M.bin(Op::SUB, constEx(ce->getOperand(0)), constEx(ce->getOperand(1)));
      case Instruction::Add: return M.bin(Op::ADD, constEx(ce->getOperand(0)), constEx(ce->getOperand(1)));
      case Instruction::ICmp: { Ex a = constEx(ce->getOperand(0)), b = constEx(ce->getOperand(1)); return cmpEx(ce->getPredicate(), a, b); }
      case Instruction::And: return M.bin(Op::AND, constEx(ce->getOperand(0)), constEx(ce->getOperand(1)));
      case Instruction::Or: return M.bin(Op::OR, constEx(ce->getOperand(0)), constEx(ce->getOperand(1)));
      case Instruction::Xor: return M.bin(Op::XOR, constEx(ce->getOperand(0)), constEx(ce->getOperand(1)));
      default: break; } }
  if (isa<NoCFIValue>(c) || isa<DSOLocalEquivalent>(c)) return constEx(cast<Constant>(c->getOperand(0)));
  std::string s; raw_string_ostream o(s); c->print(o); throw EngineError("constant " + o.str());
}
static Ex constEx(const Constant* c) { auto it = constCache.find(c); if (it != constCache.end()) return it->second; Ex e = constEx0(c); constCache[c] = e; return e; }

// ---------------------------------------------------------------- functions
static bool inRepoFile(const DILocation* d) { StringRef f = d->getFilename(); StringRef dir = d->getDirectory(); return f.contains("/repo/") || f.starts_with("stdexec/") || f.starts_with("exec/") || dir.contains("/repo/"); }
static FnInfo* getFn(const Function* F) {
  auto& p = fnTab[F]; if (p) return p.get();
  p.reset(new FnInfo); FnInfo* fi = p.get(); fi->F = F; fi->id = fnTab.size(); fi->model = F->getSection() == "svm"; fi->nounwind = F->doesNotThrow();
  auto addSlot = [&](const Value* v) { fi->slot[v] = fi->nslots++; };
  for (auto& a : F->args()) { addSlot(&a); fi->nargs++; }
  for (auto& bb : *F) { fi->bbIdx[&bb] = fi->bbStart.size(); fi->bbStart.push_back(-1); for (auto& I : bb) if (!I.getType()->isVoidTy()) addSlot(&I); }
  auto mkop = [&](const Value* v) -> Oprnd { if (auto* c = dyn_cast<Constant>(v)) return {-1, constEx(c)}; auto it = fi->slot.find(v); if (it != fi->slot.end()) return {it->second, nullptr}; return {-1, M.mkc(1, 0)}; };
  fi->phis.resize(fi->bbStart.size()); fi->firstNonPhi.resize(fi->bbStart.size());
  int bi = 0;
  for (auto& bb : *F) {
    fi->bbStart[bi] = fi->insts.size();
    std::map<int, std::vector<std::pair<int, Oprnd>>> ph;
    for (auto& I : bb) {
      if (auto* pn = dyn_cast<PHINode>(&I)) { for (unsigned k = 0; k < pn->getNumIncomingValues(); k++) { int pb = fi->bbIdx[pn->getIncomingBlock(k)]; auto& v = ph[pb]; int d = fi->slot[&I]; bool dup = false; for (auto& q : v) if (q.first == d) dup = true; if (!dup) v.push_back({d, mkop(pn->getIncomingValue(k))}); } continue; }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DI d; d.I = &I; d.opc = I.getOpcode(); d.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I]; d.w = I.getType()->isVoidTy() ? 0 : tw(I.getType());
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        const Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        d.callee = dyn_cast<Function>(cv); for (auto& a : cb->args()) d.ops.push_back(a->getType()->isMetadataTy() ? Oprnd{-1, M.mkc(1, 0)} : mkop(a));
        if (!d.callee && !isa<InlineAsm>(cv)) d.ops.push_back(mkop(cb->getCalledOperand())); else d.ops.push_back({-1, M.mkc(64, 0)});
        d.nounwind = cb->doesNotThrow(); if (auto* ci = dyn_cast<CallInst>(cb)) d.musttail = ci->isMustTailCall();
        if (d.callee) { auto it = primTab.find(d.callee->getName().str()); if (it != primTab.end()) { if (d.callee->isDeclaration()) d.prim = it->second; } }
        if (auto* iv = dyn_cast<InvokeInst>(cb)) { d.t0 = fi->bbIdx[iv->getNormalDest()]; d.t1 = fi->bbIdx[iv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { d.ops.push_back(mkop(br->getCondition())); d.t1 = fi->bbIdx[br->getSuccessor(1)]; } d.t0 = fi->bbIdx[br->getSuccessor(0)]; }
      else for (auto& o : I.operands()) { if (isa<BasicBlock>(o)) d.ops.push_back({-1, nullptr}); else d.ops.push_back(mkop(o)); }
      for (const DILocation* dl = I.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) if (inRepoFile(dl)) { fi->inRepo = true; }
      fi->instBB.push_back(bi); fi->insts.push_back(std::move(d));
    }
    for (auto& q : ph) fi->phis[bi].push_back({q.first, q.second});
    bi++;
  }
  for (auto& bb : *F) for (auto& I : bb) for (const DILocation* dl = I.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) if (inRepoFile(dl)) { auto* sp = dl->getScope()->getSubprogram(); if (sp) { std::string fl = dl->getFilename().str(); auto q = fl.find("include/"); if (q != std::string::npos) fl = fl.substr(q + 8); repoFns.insert(fl + ":" + sp->getName().str()); } }
  return fi;
}
// liveness
static void computeLive(FnInfo* f) {
  if (f->liveDone) return; f->liveDone = true; int nb = f->bbStart.size(); int W = (f->nslots + 63) / 64; f->liveIn.assign(nb, std::vector<u64>(W, 0));
  auto endOf = [&](int b) { return b + 1 < nb ? f->bbStart[b + 1] : (int)f->insts.size(); };
  std::vector<std::vector<int>> succ(nb); std::vector<const BasicBlock*> bbs; for (auto& bb : *f->F) bbs.push_back(&bb);
  for (int b = 0; b < nb; b++) for (const BasicBlock* s : successors(bbs[b])) succ[b].push_back(f->bbIdx[s]);
  bool ch = true;
  while (ch) { ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      std::vector<u64> l(W, 0);
      for (int s : succ[b]) { auto ls = f->liveIn[s]; for (auto& ph : f->phis[s]) for (auto& q : ph.second) ls[q.first / 64] &= ~(1ull << (q.first % 64));
        for (int i = 0; i < W; i++) l[i] |= ls[i];
        for (auto& ph : f->phis[s]) if (ph.first == b) for (auto& q : ph.second) if (q.second.slot >= 0) l[q.second.slot / 64] |= 1ull << (q.second.slot % 64); }
      for (int i = endOf(b) - 1; i >= f->bbStart[b]; i--) { auto& d = f->insts[i]; if (d.dst >= 0) l[d.dst / 64] &= ~(1ull << (d.dst % 64)); for (auto& o : d.ops) if (o.slot >= 0) l[o.slot / 64] |= 1ull << (o.slot % 64); }
      if (l != f->liveIn[b]) { f->liveIn[b] = l; ch = true; }
    } }
}
// live registers when frame is stopped at inst index i; before=true: before executing; false: after the call returned normally or by unwinding (dst not counted)
static const std::vector<u64>& liveAt(FnInfo* f, int i, bool before) {
  int key = i * 2 + before; auto it = f->liveCache.find(key); if (it != f->liveCache.end()) return it->second;
  computeLive(f); int nb = f->bbStart.size(), W = (f->nslots + 63) / 64; int b = f->instBB[i]; int end = b + 1 < nb ? f->bbStart[b + 1] : (int)f->insts.size();
  std::vector<const BasicBlock*> bbs; for (auto& bb : *f->F) bbs.push_back(&bb);
  std::vector<u64> l(W, 0);
  for (const BasicBlock* sb : successors(bbs[b])) { int s = f->bbIdx[sb]; auto ls = f->liveIn[s]; for (auto& ph : f->phis[s]) for (auto& q : ph.second) ls[q.first / 64] &= ~(1ull << (q.first % 64));
    for (int k = 0; k < W; k++) l[k] |= ls[k]; for (auto& ph : f->phis[s]) if (ph.first == b) for (auto& q : ph.second) if (q.second.slot >= 0) l[q.second.slot / 64] |= 1ull << (q.second.slot % 64); }
  for (int k = end - 1; k >= i; k--) { auto& d = f->insts[k]; if (d.dst >= 0) l[d.dst / 64] &= ~(1ull << (d.dst % 64)); if (k > i || before) for (auto& o : d.ops) if (o.slot >= 0) l[o.slot / 64] |= 1ull << (o.slot % 64); }
  return f->liveCache[key] = l;
}

// ---------------------------------------------------------------- engine state
struct Violation { std::string kind, loc, stack; ModelP model; int level; int tid; bool ignored = false; };
static std::vector<Violation> viols; static bool stopAll = false;
static std::set<std::pair<int, u32>> visible, seenMulti; static std::map<std::pair<int, u32>, unsigned> touch; static std::map<int, unsigned> objTouch; static std::set<int> sharedObj; static bool visChanged;
static u64 nInst = 0, nTrans = 0, nStates = 0, nPaths = 0, nMerges = 0, nStutter = 0, nSpinCut = 0, nTerm = 0, nPruned = 0, nStepCut = 0; static int curLevel = 0, maxLevelSeen = 0; static bool boundHit = false;
static std::map<std::string, int> covers; static std::vector<ModelP> termSamples; static std::set<std::string> coverDecl;
static std::map<std::string, u128>* guide = nullptr; static std::vector<std::string> glog; static std::string guidedEnd; static bool gEnded = false;
static std::unordered_map<std::string, Ex> varByName; static std::chrono::steady_clock::time_point T0;
static std::vector<int> gSchedTids;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct Killed {};

static Ex namedVar(const std::string& n, unsigned w) {
  if (guide) { auto it = guide->find(n); return M.mkc(w, it == guide->end() ? 0 : it->second); }
  std::string k = n + "#" + std::to_string(w); auto it = varByName.find(k); if (it != varByName.end()) return it->second; return varByName[k] = M.var(n, w);
}
static int qcheck(Ex pc, Ex c, ModelP* m) {
  int r = SV->check(pc, c, m);
  if (r < 0) throw EngineError("solver returned unknown");
  return r;
}
using VarSet = std::vector<unsigned>; static const VarSet* varsOf(Ex e); static void conjuncts(Ex e, std::vector<Ex>& out); static Ex conjoin(const std::vector<Ex>& v);
// the part of the path condition connected with c through shared variables (the rest is satisfied by the state's model already)
static std::vector<unsigned> slStamp; static unsigned slN = 0;
static Ex slice(Ex pc, Ex c) {
  static std::unordered_map<Ex, std::vector<Ex>> memo; if (pc == M.T) return pc; if (memo.size() > 200000) memo.clear();
  auto it = memo.find(pc); if (it == memo.end()) { std::vector<Ex> v; conjuncts(pc, v); it = memo.emplace(pc, std::move(v)).first; } auto& cs = it->second;
  slN++; auto st = [&](const VarSet* v) { for (unsigned x : *v) { if (x >= slStamp.size()) slStamp.resize(x + 256, 0); slStamp[x] = slN; } }; st(varsOf(c));
  std::vector<char> in(cs.size(), 0); size_t n = 0; bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cs.size(); i++) if (!in[i]) { auto v = varsOf(cs[i]); bool t = v->empty(); for (unsigned x : *v) if (x < slStamp.size() && slStamp[x] == slN) { t = true; break; } if (t) { in[i] = 1; n++; st(v); ch = true; } } }
  if (n == cs.size()) return pc; std::vector<Ex> r; for (size_t i = 0; i < cs.size(); i++) if (in[i]) r.push_back(cs[i]); return conjoin(r);
}
static bool evalT(State& S, Ex c) { if (c == M.T) return true; if (c == M.F) return false; return S.model->ev->ev(c) != 0; }
// is pc & c satisfiable?  may update nothing; m optional
static bool feasible(State& S, Ex c, std::shared_ptr<EvalModel>* m) {
  if (c == M.F) return false; if (c == M.T) { if (m) *m = S.model; return true; }
  if (guide) return S.model->ev->ev(c) != 0 ? (m ? (*m = S.model, true) : true) : false;
  if (evalT(S, c)) { if (m) *m = S.model; return true; }
  ModelP mp; Ex sl = slice(S.pc, c); int r = qcheck(sl, c, m ? &mp : nullptr);
  if (r == 1 && m) { auto nm = std::make_shared<Model>(*S.model->m); auto ov = [&](Ex e) { for (unsigned x : *varsOf(e)) { auto i = mp->find(x); (*nm)[x] = i == mp->end() ? (u128)0 : i->second; } }; ov(sl); ov(c); *m = std::make_shared<EvalModel>(nm); }
  return r == 1;
}
static void assume(State& S, Ex c, const std::shared_ptr<EvalModel>& m) { S.pc = M.andb(S.pc, c); S.model = m; }

// variables eliminated from the path condition get the values recorded along the path (newest first)
static ModelP expandModel(const ModelP& m, Rc<Wit> w) {
  auto r = std::make_shared<Model>(*m);
  while (w) { for (auto& p : w->asg) (*r)[p.first] = p.second; if (w->var >= 0) { auto it = r->find((unsigned)w->var); w = it != r->end() && it->second ? w->a : w->b; } else w = w->a; }
  return r;
}
static void report(State& S, const std::string& kind, const std::string& loc, Ex cond, std::shared_ptr<EvalModel> m) {
  Violation v; v.kind = kind; v.loc = loc; v.model = guide ? m->m : expandModel(m->m, S.wit); v.level = curLevel; v.tid = S.cur; if (!S.th.empty() && S.cur < (int)S.th.size()) v.stack = stackOf(*S.th[S.cur]);
  for (auto& ig : optIgnore) if ((kind + " @" + loc).find(ig) != std::string::npos) v.ignored = true;
  if (guide) { guidedEnd = kind + " @" + loc; gEnded = true; throw Killed(); }
  for (auto& o : viols) if (o.kind == v.kind && o.loc == v.loc) return;
  if (optVerbose) fprintf(stderr, "VIOL %s @%s%s\n   %s\n", kind.c_str(), loc.c_str(), v.ignored ? " (known)" : "", v.stack.c_str());
  viols.push_back(v); if (!v.ignored) stopAll = true;
}
// bad: a condition that must not hold
static void flush(State& S) {
  while (!S.pend.empty()) {
    Ex any = M.F; for (auto& p : S.pend) any = M.orb(any, p.cond);
    std::shared_ptr<EvalModel> m; if (!feasible(S, any, &m)) { S.pend.clear(); return; }
    size_t k = 0; for (; k < S.pend.size(); k++) if (S.pend[k].cond == M.T || m->ev->ev(S.pend[k].cond)) break;
    if (k == S.pend.size()) throw EngineError("flush model");
    Pending p = S.pend[k]; report(S, p.kind, p.loc, p.cond, m); if (stopAll) throw Killed();
    S.pend.erase(S.pend.begin() + k); Ex n = M.notb(p.cond); std::shared_ptr<EvalModel> m2; if (!feasible(S, n, &m2)) throw Killed(); assume(S, n, m2);
    std::vector<Pending> keep; for (auto& q : S.pend) if (M.andb(q.cond, n) != M.F) keep.push_back(q); S.pend = keep;
  }
}
static void bad(State& S, Ex cond, const std::string& kind, const std::string& loc) {
  if (cond == M.F) return; S.pend.push_back({cond, kind, loc}); if (cond == M.T || S.pend.size() > 24) flush(S);
}

// ---------------------------------------------------------------- memory
static void initCells(Obj& o, const Constant* c, u64 off) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (c->isNullValue()) { u64 n = DL->getTypeAllocSize(t); if (n == 0) return; // zero filled object: nothing to write
    return; }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { unsigned es = DL->getTypeStoreSize(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) { Ex e = constEx(cds->getElementAsConstant(i)); o.cells.push_back({(u32)(off + i * es), es, M.zext(e, es * 8)}); } return; }
  if (isAgg(t)) { for (unsigned i = 0; i < aggN(t); i++) initCells(o, c->getAggregateElement(i), off + aggOff(t, i)); return; }
  Ex e = constEx(c); unsigned es = DL->getTypeStoreSize(t); o.cells.push_back({(u32)off, es, M.zext(e, es * 8)});
}
static std::vector<Rc<Obj>> globInit;
static const Rc<Obj>& mkGlobal(int id) {
  if ((int)globInit.size() <= id) globInit.resize(id + 256); if (globInit[id]) return globInit[id];
  Rc<Obj> o(new Obj); o->id = id; o->alive = M.T; o->fill = Fill::Zero;
  if (AI[id].gv) if (auto* gv = dyn_cast<GlobalVariable>(AI[id].gv)) if (gv->hasInitializer()) { initCells(*o, gv->getInitializer(), 0); std::sort(o->cells.begin(), o->cells.end(), [](const Cell& a, const Cell& b) { return a.off < b.off; }); }
  globInit[id] = o; return globInit[id];
}
static Obj* objR(State& S, int id) {
  if ((int)S.mem.size() <= id) S.mem.resize(std::max<size_t>(AI.size(), id + 1));
  auto& r = S.mem[id]; if (!r) { if (AI[id].kind == AK::Global || AI[id].kind == AK::Tls || AI[id].kind == AK::Func) r = mkGlobal(id); else return nullptr; }
  return r.p;
}
static Obj* objW(State& S, int id) { if (!objR(S, id)) return nullptr; Obj* o = S.mem[id].mut(); o->vs = nullptr; o->epOk = false; o->chOk = false; return o; }
static Ex fillv(const Obj& o, unsigned bits) { return o.fill == Fill::Zero ? M.mkc(std::min(bits, 128u), 0) : M.undef(bits); }
static Ex readObj(const Obj& o, u32 off, u32 len) {
  auto it = std::lower_bound(o.cells.begin(), o.cells.end(), off, [](const Cell& c, u32 x) { return c.off + c.len <= x; });
  if (it != o.cells.end() && it->off == off && it->len == len) return it->v;
  Ex r = nullptr; u32 pos = off, end = off + len;
  auto app = [&](Ex v) { r = r ? M.concat(v, r) : v; };
  auto appFill = [&](u32 n) { while (n) { u32 k = std::min<u32>(n, 8); app(fillv(o, k * 8)); n -= k; } };
  while (pos < end) {
    if (it == o.cells.end() || it->off >= end) { appFill(end - pos); break; }
    if (it->off > pos) { appFill(it->off - pos); pos = it->off; }
    u32 lo = pos - it->off, n = std::min(it->off + it->len, end) - pos; app(M.extract(it->v, lo * 8, n * 8)); pos += n; ++it;
  }
  return r;
}
static void writeObj(Obj& o, u32 off, u32 len, Ex v) {
  auto it = std::lower_bound(o.cells.begin(), o.cells.end(), off, [](const Cell& c, u32 x) { return c.off + c.len <= x; });
  if (it != o.cells.end() && it->off == off && it->len == len) { it->v = v; return; }
  size_t i = it - o.cells.begin(), j = i; std::vector<Cell> repl;
  while (j < o.cells.size() && o.cells[j].off < off + len) {
    Cell c = o.cells[j]; if (c.off < off) repl.push_back({c.off, off - c.off, M.extract(c.v, 0, (off - c.off) * 8)}); j++;
  }
  repl.push_back({off, len, v});
  if (j > i) { Cell c = o.cells[j - 1]; if (c.off + c.len > off + len) { u32 n = c.off + c.len - (off + len); repl.push_back({off + len, n, M.extract(c.v, (off + len - c.off) * 8, n * 8)}); } }
  if (j - i == repl.size()) std::copy(repl.begin(), repl.end(), o.cells.begin() + i);
  else { o.cells.erase(o.cells.begin() + i, o.cells.begin() + j); o.cells.insert(o.cells.begin() + i, repl.begin(), repl.end()); }
}
static void clearRange(Obj& o, u32 off, u32 len) { // back to fill
  std::vector<Cell> out; for (auto& c : o.cells) { if (c.off + c.len <= off || c.off >= off + len) { out.push_back(c); continue; }
    if (c.off < off) out.push_back({c.off, off - c.off, M.extract(c.v, 0, (off - c.off) * 8)}); if (c.off + c.len > off + len) { u32 n = c.off + c.len - off - len; out.push_back({off + len, n, M.extract(c.v, (off + len - c.off) * 8, n * 8)}); } }
  o.cells = out;
}

// ---------------------------------------------------------------- happens-before
static Ex Z64; static Ex vz(Ex e) { return e ? e : Z64; }
static Ex vor(Ex a, Ex b) { if (!a || a == Z64) return b; if (!b || b == Z64) return a; return M.bin(Op::OR, a, b); }
static Ex vite(Ex g, Ex a, Ex b) { if (a == b) return a; if (!a && !b) return a; return M.ite(g, vz(a), vz(b)); }
static Ex notLeq(Ex e, Ex v) { // e not included in v
  if (!e || e == Z64 || e == v) return M.F; Ex n = M.bin(Op::AND, e, M.bin(Op::XOR, vz(v), M.mkc(VCW, maskw(VCW)))); return M.notb(M.eq(n, Z64)); }
static void bumpEpoch(Thread& t, int tid) { t.vc[tid] = M.bin(Op::OR, M.bin(Op::SHL, vz(t.vc[tid]), M.mkc(VCW, 1)), M.mkc(VCW, 1)); }
enum Acc { RD = 0, WR = 1, ARD = 2, AWR = 3 };
static void hbAccess(State& S, Thread& T, int tid, Obj& o, u32 off, u32 len, Acc a, Ex cond, const std::string& loc) {
  Ex me = T.vc[tid]; o.last[tid] = cond == M.T ? me : vite(cond, me, o.last[tid]);
  if (!optRace || !sharedObj.count(o.id)) return;
  Shadow* mine = nullptr; Ex race = M.F;
  for (auto& s : o.sh) {
    if (s.off >= off + len || off >= s.off + s.len) continue;
    for (int u = 0; u < (int)S.th.size(); u++) { if (u == tid) continue; Ex v = T.vc[u];
      if (s.pw[u]) race = M.orb(race, notLeq(s.pw[u], v));
      if ((a == WR || a == AWR) && s.pr[u]) race = M.orb(race, notLeq(s.pr[u], v));
      if ((a == RD || a == WR) && s.aw[u]) race = M.orb(race, notLeq(s.aw[u], v));
      if (a == WR && s.ar[u]) race = M.orb(race, notLeq(s.ar[u], v)); }
    if (s.off == off && s.len == len) mine = &s;
  }
  if (race != M.F) bad(S, M.andb(cond, race), "data-race", loc);
  if (!mine) { o.sh.push_back(Shadow{off, len, {}, {}, {}, {}}); mine = &o.sh.back(); }
  Ex* f = a == RD ? mine->pr : a == WR ? mine->pw : a == ARD ? mine->ar : mine->aw;
  f[tid] = cond == M.T ? me : vite(cond, me, f[tid]);
}
static RelVC* relAt(Obj& o, u32 off, bool create) { for (auto& r : o.rel) if (r.off == off) return &r; if (!create) return nullptr; o.rel.push_back(RelVC{off, {}}); return &o.rel.back(); }
static void relClear(Obj& o, u32 off, u32 len) { for (size_t i = 0; i < o.rel.size();) if (o.rel[i].off >= off && o.rel[i].off < off + len) o.rel.erase(o.rel.begin() + i); else i++; }
static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static void hbAtomicLoad(State& S, Thread& T, Obj& o, u32 off, AtomicOrdering ord, Ex cond) {
  RelVC* r = relAt(o, off, false); if (!r) return;
  for (int u = 0; u < MAXT; u++) if (r->v[u]) { Ex v = cond == M.T ? r->v[u] : M.ite(cond, r->v[u], Z64); if (isAcq(ord)) T.vc[u] = vor(T.vc[u], v); else T.acqF[u] = vor(T.acqF[u], v); }
}
static void hbAtomicStore(State& S, Thread& T, int tid, Obj& o, u32 off, AtomicOrdering ord, bool rmw, Ex cond) {
  RelVC* r = relAt(o, off, true);
  for (int u = 0; u < MAXT; u++) { Ex nv = isRel(ord) ? T.vc[u] : T.relF[u]; if (rmw) nv = vor(nv, r->v[u]); r->v[u] = cond == M.T ? nv : vite(cond, nv, r->v[u]); }
  if (isRel(ord)) bumpEpoch(T, tid);
}

// ---------------------------------------------------------------- accesses
static void touchObj(int id, int tid) { unsigned& m = objTouch[id]; unsigned n = m | (1u << tid); if (n != m) { m = n; if (n & (n - 1)) if (!sharedObj.count(id)) { sharedObj.insert(id); visChanged = true; } } }
static void touchAtomic(int id, u32 off, int tid) { unsigned& m = touch[{id, off}]; unsigned n = m | (1u << tid); if (n != m) { m = n; if (n & (n - 1)) if (visible.insert({id, off}).second) visChanged = true; } }

struct Leaf { Ex cond; u64 v; };
static Ex leavesOf(State& S, Ex p, std::vector<Leaf>& out, unsigned lim = 64) { // returns pruned expression
  out.clear();
  if (p->op == Op::CONST) { out.push_back({M.T, (u64)p->val}); return p; }
  if (p->hasUndef) { bad(S, M.notb(M.defined(p)), "use of uninitialised pointer", locOf(S.th[S.cur]->stack.back()->fn->insts[S.th[S.cur]->stack.back()->pc].I)); flush(S); }
  if (guide) { u64 v = (u64)S.model->ev->ev(p); out.push_back({M.T, v}); return M.mkc(p->w, v); }
  if (p->cl) {
    std::vector<u64> vals; std::unordered_set<u64> sv; std::unordered_set<Ex> seen; std::vector<Ex> st{p};
    while (!st.empty()) { Ex e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == Op::CONST) { if (sv.insert((u64)e->val).second) vals.push_back((u64)e->val); } else { st.push_back(e->c); st.push_back(e->b); } }
    u64 mv = (u64)S.model->ev->ev(p);
    for (u64 v : vals) { Ex c = M.eq(p, M.mkc(p->w, v)); if (v == mv || feasible(S, c, nullptr)) out.push_back({c, v}); }
  } else {
    Ex rest = M.T;
    for (;;) { std::shared_ptr<EvalModel> m; if (!feasible(S, rest, &m)) break; u64 v = (u64)m->ev->ev(p); Ex c = M.eq(p, M.mkc(p->w, v)); out.push_back({c, v}); rest = M.andb(rest, M.notb(c)); if (out.size() > 300) throw EngineError("symbolic value with too many concrete values at " + stackOf(*S.th[S.cur])); }
  }
  if (out.empty()) throw Killed();
  if (out.size() == 1) { out[0].cond = M.T; return M.mkc(p->w, out[0].v); }
  Ex r = M.mkc(p->w, out.back().v); for (int i = (int)out.size() - 2; i >= 0; i--) r = M.ite(out[i].cond, M.mkc(p->w, out[i].v), r);
  return r;
}
// Validate an access; returns alloc id or -1 (invalid leaf: reported)
static int chk(State& S, u64 addr, u64 len, Ex cond, bool write, const char* what) {
  auto loc = [&] { auto& f = S.th[S.cur]->stack.back(); return locOf(f->fn->insts[f->pc].I); };
  if (addr < 4096) { bad(S, cond, std::string("null dereference"), loc()); return -1; }
  int id = findAlloc(addr);
  if (id < 0 || addr + len > AI[id].base + AI[id].size) { bad(S, cond, "out-of-bounds access", loc()); return -1; }
  if (AI[id].kind == AK::Func) { bad(S, cond, "data access to code", loc()); return -1; }
  if (write && AI[id].isConst) { bad(S, cond, "write to constant", loc()); return -1; }
  Obj* o = objR(S, id); if (!o) { bad(S, cond, "use of dead object", loc()); return -1; }
  if (o->alive != M.T) { Ex d = M.andb(cond, M.notb(o->alive)); bad(S, d, AI[id].kind == AK::Heap ? "heap use after free" : "stack use after scope", loc()); if (cond == M.T && o->alive == M.F) return -1; }
  return id;
}
static void noteAccess(State& S, int id, u32 off, u32 len, Acc a, Ex cond) {
  SvAlloc& ai = AI[id]; if (ai.isConst) return; Thread* T = S.th[S.cur].p; bool model = T->stack.back()->fn->model;
  touchObj(id, S.cur);
  Obj* o = objR(S, id);
  if (model) { if (a == AWR || a == WR) { S.wrote = true; S.sw.push_back(ai.base + off); } else S.sr.push_back(ai.base + off); Ex me = T->vc[S.cur]; if (o->last[S.cur] != me) { o = objW(S, id); o->last[S.cur] = cond == M.T ? me : vite(cond, me, o->last[S.cur]); } return; }
  if (!sharedObj.count(id)) { Ex me = T->vc[S.cur]; if (o->last[S.cur] != me) { o = objW(S, id); o->last[S.cur] = cond == M.T ? me : vite(cond, me, o->last[S.cur]); } return; }
  o = objW(S, id); auto& f = T->stack.back(); hbAccess(S, *T, S.cur, *o, off, len, a, cond, locOf(f->fn->insts[f->pc].I));
}
static Ex loadTyped(State& S, int id, u32 off, Type* t) {
  if (isAgg(t)) { Ex r = nullptr; for (unsigned i = 0; i < aggN(t); i++) { if (tw(aggT(t, i)) == 0) continue; Ex e = loadTyped(S, id, off + aggOff(t, i), aggT(t, i)); r = r ? M.concat(e, r) : e; } return r ? r : M.mkc(1, 0); }
  unsigned n = DL->getTypeStoreSize(t), w = tw(t); Ex e = readObj(*objR(S, id), off, n); return w == n * 8 ? e : M.extract(e, 0, w);
}
static void storeTyped(State& S, int id, u32 off, Type* t, Ex v, Ex cond) {
  if (isAgg(t)) { unsigned b = 0; for (unsigned i = 0; i < aggN(t); i++) { unsigned w = tw(aggT(t, i)); storeTyped(S, id, off + aggOff(t, i), aggT(t, i), M.extract(v, b, w), cond); b += w; } return; }
  unsigned n = DL->getTypeStoreSize(t); Obj* o = objW(S, id); Ex x = v->w == n * 8 ? v : M.zext(v, n * 8);
  if (cond != M.T) x = M.ite(cond, x, readObj(*o, off, n)); writeObj(*o, off, n, x);
}
static Ex doLoad(State& S, Ex& ptr, Type* t, Acc a) {
  std::vector<Leaf> L; ptr = leavesOf(S, ptr, L); u32 n = DL->getTypeStoreSize(t); Ex r = nullptr; std::vector<std::pair<Ex, Ex>> vals;
  for (auto& l : L) { int id = chk(S, l.v, n, l.cond, false, "load"); if (id < 0) continue; u32 off = l.v - AI[id].base; noteAccess(S, id, off, n, a, l.cond); if (a >= ARD) { touchAtomic(id, off, S.cur); S.sr.push_back(l.v); } vals.push_back({l.cond, loadTyped(S, id, off, t)}); }
  if (vals.empty()) { flush(S); throw Killed(); }
  r = vals.back().second; for (int i = (int)vals.size() - 2; i >= 0; i--) r = M.ite(vals[i].first, vals[i].second, r);
  return r;
}
static void doStore(State& S, Ex& ptr, Type* t, Ex v, Acc a) {
  std::vector<Leaf> L; ptr = leavesOf(S, ptr, L); u32 n = DL->getTypeStoreSize(t);
  for (auto& l : L) { int id = chk(S, l.v, n, l.cond, true, "store"); if (id < 0) continue; u32 off = l.v - AI[id].base; noteAccess(S, id, off, n, a, l.cond);
    if (a >= ARD) { touchAtomic(id, off, S.cur); S.wrote = true; S.sw.push_back(l.v); } else if (S.th[S.cur]->spin && !S.changed) { unsigned tb = tw(t); Ex ov = loadTyped(S, id, off, t); if (ov != v && !ov->hasUndef) S.changed = true; }
    if (a >= ARD) {} else if (!objR(S, id)->rel.empty() && l.cond == M.T && !S.th[S.cur]->stack.back()->fn->model) relClear(*objW(S, id), off, n); storeTyped(S, id, off, t, v, l.cond); }
}
// free / end of lifetime by thread: all other threads' accesses must happen before
static void killObj(State& S, int id, Ex cond, const char* what) {
  Obj* o = objW(S, id); if (!o) return; Thread* T = S.th[S.cur].p; Ex race = M.F;
  if (optRace) for (int u = 0; u < (int)S.th.size(); u++) if (u != S.cur && o->last[u]) race = M.orb(race, notLeq(o->last[u], T->vc[u]));
  o->alive = M.andb(o->alive, M.notb(cond)); if (cond == M.T) { o->cells.clear(); o->sh.clear(); o->rel.clear(); for (auto& l : o->last) l = nullptr; }
  if (race != M.F) { auto& f = S.th[S.cur]->stack.back(); bad(S, M.andb(cond, race), std::string("lifetime race: ") + what + " while another thread may still access the object", locOf(f->fn->insts[f->pc].I)); }
}
static int occNext(State& S, u64 key) { return S.occ.mut()->m[key]++; }
static u64 hmix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 29); }

static u64 heapAlloc(State& S, u64 size, u64 align) {
  Thread& T = *S.th[S.cur]; u64 key = hmix(0x4eaf, S.cur); int n = 0; for (int i = (int)T.stack.size() - 1; i >= 0 && n < 40; i--, n++) key = hmix(hmix(key, T.stack[i]->fn->id), T.stack[i]->pc); key = hmix(hmix(key, size), align);
  int occ = occNext(S, key); auto& id = nameAlloc.try_emplace({key, occ}, -1).first->second;
  if (id < 0) { SvAlloc ai; ai.size = size; ai.kind = AK::Heap; ai.owner = S.cur; ai.align = align; for (int i = (int)T.stack.size() - 1; i >= 0; i--) { ai.name = locOf(T.stack[i]->fn->insts[T.stack[i]->pc].I); if (!T.stack[i]->fn->model) break; } id = newAlloc(ai, align ? align : 16); }
  if ((int)S.mem.size() <= id) S.mem.resize(AI.size()); Rc<Obj> o(new Obj); o->id = id; o->alive = M.T; S.mem[id] = o; return AI[id].base;
}
static int stackAlloc(State& S, Frame& f, const DI& d, u64 size, u64 align) {
  u64 base = hmix(f.ctx, (u64)d.I); int occ = 0;
  for (;; occ++) { auto& id = nameAlloc.try_emplace({base, occ}, -1).first->second;
    if (id < 0) { SvAlloc ai; ai.size = size; ai.kind = AK::Stack; ai.name = "alloca " + locOf(d.I); ai.owner = S.cur; id = newAlloc(ai, align); }
    if ((int)S.mem.size() <= id) S.mem.resize(AI.size());
    if (AI[id].size != size) continue;
    bool inUse = false; for (int a : f.allocas) if (a == id) inUse = true;
    if (inUse || (S.mem[id] && S.mem[id]->alive != M.F)) continue;
    Rc<Obj> o(new Obj); o->id = id; o->alive = M.T; S.mem[id] = o; f.allocas.push_back(id); return id; }
}
static int tlsId(const GlobalVariable* gv, int tid) {
  auto k = std::make_pair((const GlobalValue*)gv, tid); auto it = tlsAlloc.find(k); if (it != tlsAlloc.end()) return it->second;
  SvAlloc ai; ai.kind = AK::Tls; ai.gv = gv; ai.size = DL->getTypeAllocSize(gv->getValueType()); ai.name = gv->getName().str(); int id = newAlloc(ai, gv->getAlign() ? gv->getAlign()->value() : 16); tlsAlloc[k] = id; return id;
}

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string> stdBase = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
static bool typeDerives(u64 t, u64 base, int depth = 0) {
  if (t == base) return true; if (depth > 60) return false; int id = findAlloc(t); if (id < 0 || !AI[id].gv) return false; int bid = findAlloc(base);
  if (bid >= 0 && AI[bid].name == AI[id].name) return true;
  auto* gv = dyn_cast<GlobalVariable>(AI[id].gv); if (!gv) return false;
  auto it = stdBase.find(AI[id].name); if (it != stdBase.end()) { for (std::string n = it->second;;) { if (bid >= 0 && AI[bid].name == n) return true; auto j = stdBase.find(n); if (j == stdBase.end()) break; n = j->second; } }
  if (!gv->hasInitializer()) return false;
  const Constant* c = gv->getInitializer(); std::string vt; Ex v0 = constEx(c->getAggregateElement(0u)); int vid = findAlloc((u64)v0->val); if (vid >= 0) vt = AI[vid].name;
  if (vt.find("20__si_class_type_info") != std::string::npos) return typeDerives((u64)constEx(c->getAggregateElement(2u))->val, base, depth + 1);
  if (vt.find("21__vmi_class_type_info") != std::string::npos) { unsigned n = (unsigned)constEx(c->getAggregateElement(3u))->val; for (unsigned i = 0; i < n; i++) if (typeDerives((u64)constEx(c->getAggregateElement(4 + 2 * i))->val, base, depth + 1)) return true; }
  return false;
}
static std::map<u64, int> typeIds; static int typeIdFor(u64 t) { int id = findAlloc(t); if (id >= 0) { for (auto& p : typeIds) { int q = findAlloc(p.first); if (q >= 0 && AI[q].name == AI[id].name) return p.second; } } auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[t] = n; }

static std::string here(State& S) { auto& f = S.th[S.cur]->stack.back(); return locOf(f->fn->insts[f->pc].I); }
static void jump(State& S, Frame& f, int from, int to) {
  auto& ph = f.fn->phis[to]; if (!ph.empty()) { for (auto& p : ph) if (p.first == from) { std::vector<Ex> tmp; for (auto& q : p.second) tmp.push_back(q.second.slot >= 0 ? f.regs[q.second.slot] : q.second.c); for (size_t i = 0; i < tmp.size(); i++) f.regs[p.second[i].first] = tmp[i]; break; } }
  f.pc = f.fn->bbStart[to]; f.prevBB = from;
}
static void popFrame(State& S, Thread& T) {
  Rc<Frame> f = T.stack.back(); for (int id : f->allocas) { Obj* o = objR(S, id); if (o && o->alive != M.F) killObj(S, id, M.T, "stack object destroyed"); }
  T.stack.pop_back();
}
static void terminateNow(State& S, const std::string& why) { bad(S, M.T, why, here(S)); flush(S); throw Killed(); }
static void unwind(State& S, Ex exc, u64 type) {
  Thread& T = *S.th[S.cur].mut();
  std::string tn; int ti = findAlloc(type); if (ti >= 0) tn = demang(AI[ti].name);
  // the frame on top is paused at a call or invoke
  for (;;) {
    if (T.stack.empty()) throw EngineError("unwind past base");
    Frame& f = *T.stack.back().mut(); const DI& d = f.fn->insts[f.pc];
    if (d.nounwind && !isa<InvokeInst>(d.I)) terminateNow(S, "std::terminate: exception " + tn + " leaves a noexcept call");
    if (isa<InvokeInst>(d.I)) {
      int ub = d.t1; const BasicBlock* bb = cast<InvokeInst>(d.I)->getUnwindDest(); auto* lp = bb->getLandingPadInst(); int sel = 0; bool take = lp->isCleanup(); bool caught = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !caught; i++) { Constant* cl = lp->getClause(i);
        if (lp->isCatch(i)) { u64 ct = (u64)constEx(cl)->val; if (ct == 0 || typeDerives(type, ct)) { sel = typeIdFor(ct); caught = true; } }
        else { bool in = false; for (unsigned k = 0; k < cl->getType()->getArrayNumElements(); k++) if (typeDerives(type, (u64)constEx(cl->getAggregateElement(k))->val)) in = true; if (!in) { sel = -1; caught = true; } } }
      if (caught || take) { if (!caught) sel = 0; T.excPtr = exc; int from = f.fn->instBB[f.pc]; jump(S, f, from, ub);
        // find landingpad instruction
        const DI& ld = f.fn->insts[f.pc]; if (ld.opc != Instruction::LandingPad) throw EngineError("landingpad expected"); f.regs[ld.dst] = M.concat(M.mkc(32, (u64)(i64)sel), exc); f.pc++; return; }
    }
    if (f.fn->nounwind) terminateNow(S, "std::terminate: exception " + tn + " leaves noexcept function " + demang(f.fn->F->getName().str()).substr(0, 80));
    if (T.stack.size() == 1) terminateNow(S, "std::terminate: uncaught exception " + tn);
    popFrame(S, T);
  }
}

// ---------------------------------------------------------------- instruction execution
struct ForkAgain { }; // instruction must be re-executed (operand was constrained)
static std::vector<State>* workq;
// returns concrete value of a register operand, forking the state when several are possible
static u64 concretise(State& S, const Oprnd& op, Ex v) {
  if (v->op == Op::CONST) return (u64)v->val;
  std::vector<Leaf> L; leavesOf(S, v, L, 300); 
  if (L.size() > 1) {
    if (op.slot < 0) throw EngineError("concretise constant");
    for (size_t i = 1; i < L.size(); i++) { std::shared_ptr<EvalModel> m; if (!feasible(S, L[i].cond, &m)) continue; State C = S; assume(C, L[i].cond, m); C.th[C.cur].mut()->stack.back().mut()->regs[op.slot] = M.mkc(v->w, L[i].v); workq->push_back(std::move(C)); }
    std::shared_ptr<EvalModel> m; if (!feasible(S, L[0].cond, &m)) throw Killed(); assume(S, L[0].cond, m);
  }
  if (op.slot >= 0) S.th[S.cur].mut()->stack.back().mut()->regs[op.slot] = M.mkc(v->w, L[0].v);
  return L[0].v;
}
static std::string cstr(State& S, u64 a) { std::string r; int id = findAlloc(a); if (id < 0) return "?"; for (u32 o = a - AI[id].base; o < AI[id].size && r.size() < 300; o++) { Ex e = readObj(*objR(S, id), o, 1); if (e->op != Op::CONST || e->val == 0) break; r += (char)e->val; } return r; }

static void pushCall(State& S, Thread& T, const Function* F, const std::vector<Ex>& args) {
  if (F->isDeclaration()) { unmodelled.insert(F->getName().str()); throw EngineError("unmodelled external function " + F->getName().str() + " at " + stackOf(T)); }
  FnInfo* fi = getFn(F); if (T.stack.size() > 1500) { bad(S, M.T, "recursion is not bounded (1500 frames)", F->getName().str()); flush(S); throw Killed(); }
  Rc<Frame> f(new Frame); f->fn = fi; f->regs.resize(fi->nslots, nullptr); for (int i = 0; i < fi->nargs && i < (int)args.size(); i++) f->regs[i] = args[i];
  f->ctx = T.stack.empty() ? hmix(77, S.cur) : hmix(T.stack.back()->ctx, hmix(T.stack.back()->fn->id, T.stack.back()->pc)); f->pc = 0;
  T.stack.push_back(f);
}
static void doReturn(State& S, Thread& T, Ex rv) {
  popFrame(S, T);
  if (T.stack.empty()) { T.st = TS::Done; return; }
  Frame& c = *T.stack.back().mut(); const DI& d = c.fn->insts[c.pc]; if (d.dst >= 0 && rv) c.regs[d.dst] = rv;
  if (isa<InvokeInst>(d.I)) jump(S, c, c.fn->instBB[c.pc], d.t0); else c.pc++;
}
static void finishCall(Frame& c, const DI& d, Ex rv, State& S) { if (d.dst >= 0 && rv) c.regs[d.dst] = rv; if (isa<InvokeInst>(d.I)) jump(S, c, c.fn->instBB[c.pc], d.t0); else c.pc++; }

static void copyMem(State& S, u64 dst, u64 src, u64 n) {
  if (!n) return; int si = chk(S, src, n, M.T, false, "memcpy"), di = chk(S, dst, n, M.T, true, "memcpy"); if (si < 0 || di < 0) { flush(S); throw Killed(); }
  u32 so = src - AI[si].base, doff = dst - AI[di].base; noteAccess(S, si, so, n, RD, M.T); noteAccess(S, di, doff, n, WR, M.T);
  Obj snap = *objR(S, si); Obj* d = objW(S, di); relClear(*d, doff, n); if (d->fill == snap.fill) clearRange(*d, doff, n);
  else for (u64 i = 0; i < n;) { u32 k = std::min<u64>(8, n - i); writeObj(*d, doff + i, k, fillv(snap, k * 8)); i += k; }
  for (auto& c : snap.cells) { if (c.off + c.len <= so || c.off >= so + n) continue; u32 lo = std::max(c.off, so), hi = std::min<u64>(c.off + c.len, so + n); writeObj(*d, doff + lo - so, hi - lo, M.extract(c.v, (lo - c.off) * 8, (hi - lo) * 8)); }
}
static Ex cmpEx(unsigned pred, Ex a, Ex b) {
  switch (pred) { case CmpInst::ICMP_EQ: return M.eq(a, b); case CmpInst::ICMP_NE: return M.notb(M.eq(a, b)); case CmpInst::ICMP_ULT: return M.ult(a, b); case CmpInst::ICMP_ULE: return M.ule(a, b); case CmpInst::ICMP_UGT: return M.ult(b, a); case CmpInst::ICMP_UGE: return M.ule(b, a);
    case CmpInst::ICMP_SLT: return M.slt(a, b); case CmpInst::ICMP_SLE: return M.sle(a, b); case CmpInst::ICMP_SGT: return M.slt(b, a); case CmpInst::ICMP_SGE: return M.sle(b, a); }
  throw EngineError("icmp");
}
static double bitsToD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; } static u64 dToBits(double d) { u64 x; memcpy(&x, &d, 8); return x; }

enum StepRes { CONT, STOP_VISIBLE, THREAD_DONE };
static bool awaitCond(State& S, int t, Ex& out, bool noIdle = false);

static bool atomicVisible(State& S, Ex p, unsigned len) {
  if (p->op == Op::CONST) { int id = findAlloc((u64)p->val); return id >= 0 && visible.count({id, (u32)((u64)p->val - AI[id].base)}); }
  if (guide) { u64 v = (u64)S.model->ev->ev(p); int id = findAlloc(v); return id >= 0 && visible.count({id, (u32)(v - AI[id].base)}); }
  if (!p->cl) return true;
  std::unordered_set<Ex> seen; std::vector<Ex> st{p};
  while (!st.empty()) { Ex e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == Op::CONST) { int id = findAlloc((u64)e->val); if (id >= 0 && visible.count({id, (u32)((u64)e->val - AI[id].base)})) return true; } else { st.push_back(e->b); st.push_back(e->c); } }
  return false;
}
static void gop(State& S, const char* what) { S.th[S.cur].mut()->opcount++; if (guide) { gSchedTids.push_back(S.cur); if (optVerbose > 1) fprintf(stderr, "%zu T%d %s %s\n", gSchedTids.size() - 1, S.cur, what, stackOf(*S.th[S.cur]).substr(0, 300).c_str()); } }
static void glogv(State& S, const std::string& s) { if (guide) glog.push_back(s); }

static Ex extraConst(Type* t) { return M.undef(tw(t)); }

static StepRes execOne(State& S, bool first, u64 stepInsts) {
  Thread& T = *S.th[S.cur].mut(); Frame* fp = T.stack.back().mut(); Frame& f = *fp; const DI& d = f.fn->insts[f.pc]; const Instruction* I = d.I;
  auto opv = [&](int i) -> Ex { const Oprnd& o = d.ops[i]; if (o.slot < 0) return o.c; Ex e = f.regs[o.slot]; if (!e) { std::string s; raw_string_ostream os(s); I->print(os); throw EngineError("read of unset register in " + os.str() + " op " + std::to_string(i) + " at " + stackOf(T)); } return e; };
  auto setp = [&](int i, Ex v) { if (d.ops[i].slot >= 0) f.regs[d.ops[i].slot] = v; };
  auto set = [&](Ex v) { f.regs[d.dst] = v; f.pc++; };
  nInst++;
  switch (d.opc) {
    case Instruction::Ret: {
      Ex rv = I->getNumOperands() ? opv(0) : nullptr; bool lastf = T.stack.size() == 1;
      doReturn(S, T, rv); return lastf ? THREAD_DONE : CONT; }
    case Instruction::Br: {
      int from = f.fn->instBB[f.pc];
      if (d.ops.empty()) { jump(S, f, from, d.t0); return CONT; }
      Ex c = opv(0); if (c->hasUndef) { Ex df = M.defined(c); if (df != M.T) { bad(S, M.notb(df), "branch on uninitialised value", locOf(I)); flush(S); } }
      if (c == M.T) { jump(S, f, from, d.t0); return CONT; } if (c == M.F) { jump(S, f, from, d.t1); return CONT; }
      if (d.t0 == d.t1) { jump(S, f, from, d.t0); return CONT; }
      bool mv = evalT(S, c); if (guide) { jump(S, f, from, mv ? d.t0 : d.t1); return CONT; }
      Ex nc = M.notb(c); std::shared_ptr<EvalModel> m; bool other = feasible(S, mv ? nc : c, &m);
      if (other) { State C = S; assume(C, mv ? nc : c, m); C.first = false; Frame& cf = *C.th[C.cur].mut()->stack.back().mut(); jump(C, cf, from, mv ? d.t1 : d.t0); workq->push_back(std::move(C)); assume(S, mv ? c : nc, S.model); }
      jump(S, *S.th[S.cur].mut()->stack.back().mut(), from, mv ? d.t0 : d.t1); return CONT; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); Ex c = opv(0); if (c->hasUndef) { bad(S, M.notb(M.defined(c)), "switch on uninitialised value", locOf(I)); flush(S); }
      int from = f.fn->instBB[f.pc]; if (c->op == Op::CONST || guide) { u128 v = c->op == Op::CONST ? c->val : S.model->ev->ev(c); const BasicBlock* dst = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (constEx(cs.getCaseValue())->val == v) dst = cs.getCaseSuccessor(); jump(S, f, from, f.fn->bbIdx[dst]); return CONT; }
      std::map<int, Ex> dests; Ex any = M.F; for (auto& cs : sw->cases()) { Ex e = M.eq(c, constEx(cs.getCaseValue())); any = M.orb(any, e); int b = f.fn->bbIdx[cs.getCaseSuccessor()]; auto it = dests.find(b); if (it == dests.end()) dests[b] = e; else it->second = M.orb(it->second, e); }
      { int b = f.fn->bbIdx[sw->getDefaultDest()]; Ex e = M.notb(any); auto it = dests.find(b); if (it == dests.end()) dests[b] = e; else it->second = M.orb(it->second, e); }
      std::vector<std::pair<int, std::pair<Ex, std::shared_ptr<EvalModel>>>> ok; for (auto& p : dests) { std::shared_ptr<EvalModel> m; if (feasible(S, p.second, &m)) ok.push_back({p.first, {p.second, m}}); }
      if (ok.empty()) throw Killed();
      for (size_t i = 1; i < ok.size(); i++) { State C = S; assume(C, ok[i].second.first, ok[i].second.second); C.first = false; jump(C, *C.th[C.cur].mut()->stack.back().mut(), from, ok[i].first); workq->push_back(std::move(C)); }
      if (ok.size() > 1) assume(S, ok[0].second.first, ok[0].second.second); jump(S, *S.th[S.cur].mut()->stack.back().mut(), from, ok[0].first); return CONT; }
    case Instruction::Unreachable: terminateNow(S, "unreachable code reached"); return CONT;
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(ai->getAllocatedType()); if (ai->isArrayAllocation()) n *= concretise(S, d.ops[0], opv(0));
      Frame& ff = *S.th[S.cur].mut()->stack.back().mut(); int id = stackAlloc(S, ff, d, n, ai->getAlign().value()); ff.regs[d.dst] = M.mkc(64, AI[id].base); ff.pc++; return CONT; }
    case Instruction::Load: {
      auto* L = cast<LoadInst>(I); Ex p = opv(0);
      if (L->isAtomic()) { if (!first && T.atomicDepth == 0 && (atomicVisible(S, p, 0) || stepInsts > optStepInsts)) return STOP_VISIBLE; if (T.atomicDepth == 0) gop(S, "load"); }
      if (L->isAtomic()) { std::vector<Leaf> Lv; p = leavesOf(S, p, Lv); Ex v = doLoad(S, p, L->getType(), ARD); Thread& T2 = *S.th[S.cur].mut(); for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0 && S.mem[id]) hbAtomicLoad(S, T2, *objR(S, id), l.v - AI[id].base, L->getOrdering(), l.cond); } setp(0, p); set(v); return CONT; }
      Ex v = doLoad(S, p, L->getType(), RD); setp(0, p);
      if (L->getType()->isPointerTy() && v->op == Op::ITE && v->cl && p->op == Op::CONST) { std::vector<Leaf> Lv; Ex v2 = leavesOf(S, v, Lv); if (v2 != v) { int id = findAlloc((u64)p->val); if (!AI[id].isConst) writeObj(*objW(S, id), (u64)p->val - AI[id].base, 8, v2); v = v2; } }
      set(v); return CONT; }
    case Instruction::Store: {
      auto* s = cast<StoreInst>(I); Ex p = opv(1), v = opv(0);
      if (s->isAtomic()) { if (!first && T.atomicDepth == 0 && (atomicVisible(S, p, 0) || stepInsts > optStepInsts)) return STOP_VISIBLE; if (T.atomicDepth == 0) gop(S, "store"); }
      doStore(S, p, s->getValueOperand()->getType(), v, s->isAtomic() ? AWR : WR);
      if (s->isAtomic()) { std::vector<Leaf> Lv; leavesOf(S, p, Lv); Thread& T2 = *S.th[S.cur].mut(); for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0) hbAtomicStore(S, T2, S.cur, *objW(S, id), l.v - AI[id].base, s->getOrdering(), false, l.cond); } }
      setp(1, p); f.pc++; return CONT; }
    case Instruction::Fence: {
      auto o = cast<FenceInst>(I)->getOrdering(); if (isAcq(o)) for (int u = 0; u < MAXT; u++) T.vc[u] = vor(T.vc[u], T.acqF[u]); if (isRel(o)) { for (int u = 0; u < MAXT; u++) T.relF[u] = T.vc[u]; bumpEpoch(T, S.cur); } f.pc++; return CONT; }
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I); Ex p = opv(0), v = opv(1); if (!first && T.atomicDepth == 0 && (atomicVisible(S, p, 0) || stepInsts > optStepInsts)) return STOP_VISIBLE; if (T.atomicDepth == 0) gop(S, "rmw");
      std::vector<Leaf> Lv; p = leavesOf(S, p, Lv); setp(0, p); Ex old = doLoad(S, p, r->getType(), AWR); Thread& T2 = *S.th[S.cur].mut();
      for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0 && S.mem[id]) { Obj* o = objW(S, id); hbAtomicLoad(S, T2, *o, l.v - AI[id].base, r->getOrdering(), l.cond); } }
      Ex nv; switch (r->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = M.bin(Op::ADD, old, v); break; case AtomicRMWInst::Sub: nv = M.bin(Op::SUB, old, v); break; case AtomicRMWInst::And: nv = M.bin(Op::AND, old, v); break; case AtomicRMWInst::Or: nv = M.bin(Op::OR, old, v); break; case AtomicRMWInst::Xor: nv = M.bin(Op::XOR, old, v); break;
        case AtomicRMWInst::Max: nv = M.ite(M.slt(old, v), v, old); break; case AtomicRMWInst::Min: nv = M.ite(M.slt(old, v), old, v); break; case AtomicRMWInst::UMax: nv = M.ite(M.ult(old, v), v, old); break; case AtomicRMWInst::UMin: nv = M.ite(M.ult(old, v), old, v); break; case AtomicRMWInst::Nand: nv = M.bin(Op::XOR, M.bin(Op::AND, old, v), M.mkc(v->w, maskw(v->w))); break; default: throw EngineError("rmw op"); }
      bool w0 = S.wrote; size_t n0 = S.sw.size(); doStore(S, p, r->getType(), nv, AWR); S.wrote = w0 || nv != old; if (nv == old) S.sw.resize(n0);
      for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0 && S.mem[id]) hbAtomicStore(S, *S.th[S.cur].mut(), S.cur, *objW(S, id), l.v - AI[id].base, r->getOrdering(), true, l.cond); }
      set(old); return CONT; }
    case Instruction::AtomicCmpXchg: {
      auto* r = cast<AtomicCmpXchgInst>(I); Ex p = opv(0), ev = opv(1), nv = opv(2); if (!first && T.atomicDepth == 0 && (atomicVisible(S, p, 0) || stepInsts > optStepInsts)) return STOP_VISIBLE; if (T.atomicDepth == 0) gop(S, "cas");
      std::vector<Leaf> Lv; p = leavesOf(S, p, Lv); setp(0, p); Type* vt = r->getNewValOperand()->getType(); Ex old = doLoad(S, p, vt, AWR); Ex ok = M.eq(old, ev); Thread& T2 = *S.th[S.cur].mut();
      if (ok->hasUndef) { bad(S, M.notb(M.defined(ok)), "compare-exchange on uninitialised value", locOf(I)); flush(S); }
      for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0 && S.mem[id]) { Obj* o = objW(S, id); Ex sc = M.andb(l.cond, ok), fc = M.andb(l.cond, M.notb(ok)); hbAtomicLoad(S, T2, *o, l.v - AI[id].base, r->getSuccessOrdering(), sc); hbAtomicLoad(S, T2, *o, l.v - AI[id].base, r->getFailureOrdering(), fc); } }
      bool w0 = S.wrote; if (ok != M.F) { size_t n0 = S.sw.size(); doStore(S, p, vt, M.ite(ok, nv, old), AWR); bool chg = M.ite(ok, nv, old) != old; S.wrote = w0 || chg; if (!chg) S.sw.resize(n0); }
      for (auto& l : Lv) { int id = findAlloc(l.v); if (id >= 0 && S.mem[id]) { Ex sc = M.andb(l.cond, ok); if (sc != M.F) hbAtomicStore(S, *S.th[S.cur].mut(), S.cur, *objW(S, id), l.v - AI[id].base, r->getSuccessOrdering(), true, sc); } }
      set(M.concat(ok, old)); return CONT; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I); Ex a = opv(0); int i = 1;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++i) {
        if (StructType* st = gi.getStructTypeOrNull()) { a = M.bin(Op::ADD, a, M.mkc(64, DL->getStructLayout(st)->getElementOffset((unsigned)opv(i)->val))); continue; }
        u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); Ex ix = opv(i); ix = ix->w < 64 ? M.sext(ix, 64) : M.extract(ix, 0, 64); a = M.bin(Op::ADD, a, M.bin(Op::MUL, ix, M.mkc(64, sz))); }
      set(a); return CONT; }
    case Instruction::Add: set(M.bin(Op::ADD, opv(0), opv(1))); return CONT;
    case Instruction::Sub: set(M.bin(Op::SUB, opv(0), opv(1))); return CONT;
    case Instruction::Mul: set(M.bin(Op::MUL, opv(0), opv(1))); return CONT;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      bad(S, M.eq(opv(1), M.mkc(d.w, 0)), "division by zero", locOf(I)); if (opv(1)->op != Op::CONST) flush(S); Op o = d.opc == Instruction::UDiv ? Op::UDIV : d.opc == Instruction::SDiv ? Op::SDIV : d.opc == Instruction::URem ? Op::UREM : Op::SREM; set(M.bin(o, opv(0), opv(1))); return CONT; }
    case Instruction::And: set(M.bin(Op::AND, opv(0), opv(1))); return CONT;
    case Instruction::Or: set(M.bin(Op::OR, opv(0), opv(1))); return CONT;
    case Instruction::Xor: set(M.bin(Op::XOR, opv(0), opv(1))); return CONT;
    case Instruction::Shl: set(M.bin(Op::SHL, opv(0), opv(1))); return CONT;
    case Instruction::LShr: set(M.bin(Op::LSHR, opv(0), opv(1))); return CONT;
    case Instruction::AShr: set(M.bin(Op::ASHR, opv(0), opv(1))); return CONT;
    case Instruction::Trunc: set(M.extract(opv(0), 0, d.w)); return CONT;
    case Instruction::ZExt: set(M.zext(opv(0), d.w)); return CONT;
    case Instruction::SExt: set(M.sext(opv(0), d.w)); return CONT;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Ex x = opv(0); set(d.w <= x->w ? M.extract(x, 0, d.w) : M.zext(x, d.w)); return CONT; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: set(opv(0)); return CONT;
    case Instruction::ICmp: { if (I->getOperand(0)->getType()->isVectorTy()) throw EngineError("vector icmp"); set(cmpEx(cast<ICmpInst>(I)->getPredicate(), opv(0), opv(1))); return CONT; }
    case Instruction::Select: { Ex c = opv(0); set(M.ite(c, opv(1), opv(2))); return CONT; }
    case Instruction::Freeze: { Ex x = opv(0); if (x->hasUndef) { Ex df = M.defined(x); if (df != M.T) x = M.ite(df, x, namedVar("fz" + std::to_string(S.cur) + "_" + std::to_string(T.nd++), d.w)); } set(x); return CONT; }
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(I); Type* t = ev->getAggregateOperand()->getType(); unsigned lo = 0; for (unsigned ix : ev->indices()) { lo += aggBit(t, ix); t = aggT(t, ix); } set(M.extract(opv(0), lo, d.w)); return CONT; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(I); Type* t = iv->getType(); unsigned lo = 0; for (unsigned ix : iv->indices()) { lo += aggBit(t, ix); t = aggT(t, ix); } set(insertBits(opv(0), lo, opv(1))); return CONT; }
    case Instruction::ExtractElement: { Ex ix = opv(1); if (ix->op != Op::CONST) throw EngineError("extractelement"); set(M.extract(opv(0), (unsigned)ix->val * d.w, d.w)); return CONT; }
    case Instruction::InsertElement: { Ex ix = opv(2); if (ix->op != Op::CONST) throw EngineError("insertelement"); set(insertBits(opv(0), (unsigned)ix->val * opv(1)->w, opv(1))); return CONT; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType()); unsigned ew = tw(vt->getElementType()), n = vt->getNumElements(); Ex r = nullptr; for (int m : sv->getShuffleMask()) { Ex e = m < 0 ? M.undef(ew) : M.extract(opv(m < (int)n ? 0 : 1), (m % n) * ew, ew); r = r ? M.concat(e, r) : e; } set(r); return CONT; }
    case Instruction::LandingPad: throw EngineError("landingpad at " + stackOf(T));
    case Instruction::Resume: { Ex v = opv(0); Ex exc = M.extract(v, 0, 64); std::vector<Leaf> L; exc = leavesOf(S, exc, L); if (L.size() != 1) { Oprnd o = d.ops[0]; if (o.slot < 0) throw EngineError("resume"); for (size_t i = 0; i < L.size(); i++) { std::shared_ptr<EvalModel> m; if (!feasible(S, L[i].cond, &m)) continue; State C = S; assume(C, L[i].cond, m); C.th[C.cur].mut()->stack.back().mut()->regs[o.slot] = M.concat(M.extract(v, 64, 32), M.mkc(64, L[i].v)); workq->push_back(std::move(C)); } throw Killed(); }
      int id = findAlloc((u64)exc->val); if (id < 0) throw EngineError("resume ptr"); Ex ty = readObj(*objR(S, id), (u64)exc->val - AI[id].base, 8); if (ty->op != Op::CONST) throw EngineError("resume type"); 
      // leave this frame
      { Frame& ff = *T.stack.back().mut(); if (ff.fn->nounwind) terminateNow(S, "std::terminate: exception leaves noexcept function " + demang(ff.fn->F->getName().str())); if (T.stack.size() == 1) terminateNow(S, "std::terminate: uncaught exception"); popFrame(S, T); unwind(S, exc, (u64)ty->val); } return CONT; }
    case Instruction::FCmp: { Ex a = opv(0), b = opv(1); if (a->op != Op::CONST || b->op != Op::CONST || a->w != 64) throw EngineError("fcmp"); double x = bitsToD(a->val), y = bitsToD(b->val); bool r; switch (cast<FCmpInst>(I)->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; default: throw EngineError("fcmp pred"); } set(r ? M.T : M.F); return CONT; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Ex a = opv(0), b = opv(1); if (a->op != Op::CONST || b->op != Op::CONST || a->w != 64) throw EngineError("fp op at " + stackOf(T)); double x = bitsToD(a->val), y = bitsToD(b->val); double r = d.opc == Instruction::FAdd ? x + y : d.opc == Instruction::FSub ? x - y : d.opc == Instruction::FMul ? x * y : x / y; set(M.mkc(64, dToBits(r))); return CONT; }
    case Instruction::SIToFP: case Instruction::UIToFP: { Ex a = opv(0); if (a->op != Op::CONST || d.w != 64) throw EngineError("itofp at " + stackOf(T)); set(M.mkc(64, dToBits(d.opc == Instruction::SIToFP ? (double)(i64)sx(a->val, a->w) : (double)(u64)a->val))); return CONT; }
    case Instruction::FPToSI: case Instruction::FPToUI: { Ex a = opv(0); if (a->op != Op::CONST || a->w != 64) throw EngineError("fptoi"); double x = bitsToD(a->val); set(M.mkc(d.w, d.opc == Instruction::FPToSI ? (u128)(i64)x : (u128)(u64)x)); return CONT; }
    case Instruction::Call: case Instruction::Invoke: break;
    default: { std::string s; raw_string_ostream o(s); I->print(o); throw EngineError("instruction " + o.str()); }
  }
  // ------------------------------------------------ calls
  auto* cb = cast<CallBase>(I); const Function* callee = d.callee;
  auto doYield = [&]() -> StepRes { // a thread that comes back to the same yield with the same registers waits until a location it read since then is written
    if (!first) return STOP_VISIBLE; gop(S, "yield"); u64 g = 1; for (auto& fr : T.stack) { g = hmix(g, fr->fn->id << 32 | (u64)fr->pc); for (Ex r : fr->regs) g = hmix(g, r ? r->id + 1 : 0); }
    if (T.spin && T.ysig == g) { T.spin = 2; T.blockedYield = true; } else { T.spin = 1; T.ysig = g; T.rd.clear(); }
    finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, d.dst >= 0 ? M.mkc(d.w, 0) : nullptr, S); return CONT; };
  if (isa<InlineAsm>(cb->getCalledOperand())) { std::string s = cast<InlineAsm>(cb->getCalledOperand())->getAsmString(); if (d.dst >= 0) throw EngineError("inline asm: " + s); if (s.find("pause") != std::string::npos || s.find("rep; nop") != std::string::npos) return doYield(); f.pc++; return CONT; }
  if (!callee) { u64 a = concretise(S, d.ops.back(), opv((int)d.ops.size() - 1)); auto it = fnAddr.find(a); if (it == fnAddr.end()) { bad(S, M.T, a < 4096 ? "call of null function" : "call of invalid function pointer", locOf(I)); flush(S); throw Killed(); } callee = it->second; 
    auto pi = primTab.find(callee->getName().str()); if (callee->isDeclaration() && pi != primTab.end()) throw EngineError("indirect call of primitive " + callee->getName().str()); }
  if (callee->isIntrinsic()) {
    switch (callee->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        Ex p = opv(1); if (p->op != Op::CONST) { f.pc++; return CONT; } int id = findAlloc((u64)p->val); if (id < 0 || AI[id].kind != AK::Stack) { f.pc++; return CONT; } Obj* o = objR(S, id); if (!o) { f.pc++; return CONT; }
        if (callee->getIntrinsicID() == Intrinsic::lifetime_end) { if (o->alive != M.F) killObj(S, id, M.T, "stack object went out of scope"); } else { o = objW(S, id); o->alive = M.T; o->cells.clear(); o->sh.clear(); o->rel.clear(); for (auto& l : o->last) l = nullptr; }
        f.pc++; return CONT; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = concretise(S, d.ops[2], opv(2)); Frame& g = *S.th[S.cur].mut()->stack.back().mut(); if (!n) { g.pc++; return CONT; } u64 dst = concretise(S, d.ops[0], opv(0)); u64 src = concretise(S, d.ops[1], opv(1)); copyMem(S, dst, src, n); S.th[S.cur].mut()->stack.back().mut()->pc++; return CONT; }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = concretise(S, d.ops[2], opv(2)); if (!n) { S.th[S.cur].mut()->stack.back().mut()->pc++; return CONT; } u64 dst = concretise(S, d.ops[0], opv(0)); Ex v = opv(1); int id = chk(S, dst, n, M.T, true, "memset"); if (id < 0) { flush(S); throw Killed(); } noteAccess(S, id, dst - AI[id].base, n, WR, M.T); Obj* o = objW(S, id); u32 off = dst - AI[id].base; relClear(*o, off, n);
        Ex v8 = v; for (int i = 0; i < 3; i++) v8 = M.concat(v8, v8); if (v->op == Op::CONST && v->val == 0 && off == 0 && n == AI[id].size) { o->cells.clear(); o->fill = Fill::Zero; } else for (u64 i = 0; i < n;) { u32 k = std::min<u64>(8 - (off + i) % 8, n - i); writeObj(*o, off + i, k, M.extract(v8, 0, k * 8)); i += k; } 
        S.th[S.cur].mut()->stack.back().mut()->pc++; return CONT; }
      case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::donothing: f.pc++; return CONT;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: set(M.mkc(64, 0)); return CONT;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address:
        if (callee->getIntrinsicID() == Intrinsic::threadlocal_address) { auto* gv = cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); set(M.mkc(64, AI[tlsId(gv, S.cur)].base)); return CONT; }
        set(opv(0)); return CONT;
      case Intrinsic::is_constant: set(M.F); return CONT;
      case Intrinsic::objectsize: set(M.mkc(d.w, opv(1)->val ? 0 : maskw(d.w))); return CONT;
      case Intrinsic::umax: set(M.ite(M.ult(opv(0), opv(1)), opv(1), opv(0))); return CONT;
      case Intrinsic::umin: set(M.ite(M.ult(opv(0), opv(1)), opv(0), opv(1))); return CONT;
      case Intrinsic::smax: set(M.ite(M.slt(opv(0), opv(1)), opv(1), opv(0))); return CONT;
      case Intrinsic::smin: set(M.ite(M.slt(opv(0), opv(1)), opv(0), opv(1))); return CONT;
      case Intrinsic::abs: set(M.ite(M.slt(opv(0), M.mkc(d.w, 0)), M.bin(Op::SUB, M.mkc(d.w, 0), opv(0)), opv(0))); return CONT;
      case Intrinsic::usub_sat: set(M.ite(M.ult(opv(0), opv(1)), M.mkc(d.w, 0), M.bin(Op::SUB, opv(0), opv(1)))); return CONT;
      case Intrinsic::uadd_sat: { Ex s = M.bin(Op::ADD, opv(0), opv(1)); set(M.ite(M.ult(s, opv(0)), M.mkc(d.w, maskw(d.w)), s)); return CONT; }
      case Intrinsic::ctpop: { Ex x = opv(0), r = M.mkc(d.w, 0); for (unsigned i = 0; i < d.w; i++) r = M.bin(Op::ADD, r, M.zext(M.extract(x, i, 1), d.w)); set(r); return CONT; }
      case Intrinsic::ctlz: { Ex x = opv(0), r = M.mkc(d.w, d.w); for (unsigned i = 0; i < d.w; i++) r = M.ite(M.extract(x, i, 1), M.mkc(d.w, d.w - 1 - i), r); set(r); return CONT; }
      case Intrinsic::cttz: { Ex x = opv(0), r = M.mkc(d.w, d.w); for (int i = d.w - 1; i >= 0; i--) r = M.ite(M.extract(x, i, 1), M.mkc(d.w, i), r); set(r); return CONT; }
      case Intrinsic::bswap: { Ex x = opv(0), r = nullptr; for (unsigned i = 0; i < d.w; i += 8) { Ex b = M.extract(x, i, 8); r = r ? M.concat(r, b) : b; } set(r); return CONT; }
      case Intrinsic::fshl: case Intrinsic::fshr: { Ex a = opv(0), b = opv(1), s = M.bin(Op::UREM, opv(2), M.mkc(d.w, d.w)); if (d.w > 64) throw EngineError("fsh"); Ex cc = M.concat(a, b); Ex s2 = M.zext(s, 2 * d.w); set(callee->getIntrinsicID() == Intrinsic::fshl ? M.extract(M.bin(Op::SHL, cc, s2), d.w, d.w) : M.extract(M.bin(Op::LSHR, cc, s2), 0, d.w)); return CONT; }
      case Intrinsic::uadd_with_overflow: { Ex s = M.bin(Op::ADD, opv(0), opv(1)); set(M.concat(M.ult(s, opv(0)), s)); return CONT; }
      case Intrinsic::usub_with_overflow: { Ex s = M.bin(Op::SUB, opv(0), opv(1)); set(M.concat(M.ult(opv(0), opv(1)), s)); return CONT; }
      case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { Ex a = opv(0), b = opv(1); unsigned w = a->w; if (w > 64) throw EngineError("mulo"); bool sg = callee->getIntrinsicID() != Intrinsic::umul_with_overflow; Op o = callee->getIntrinsicID() == Intrinsic::sadd_with_overflow ? Op::ADD : callee->getIntrinsicID() == Intrinsic::ssub_with_overflow ? Op::SUB : Op::MUL;
        Ex A = sg ? M.sext(a, 2 * w) : M.zext(a, 2 * w), B = sg ? M.sext(b, 2 * w) : M.zext(b, 2 * w); Ex r = M.bin(o, A, B); Ex lo = M.extract(r, 0, w); Ex back = sg ? M.sext(lo, 2 * w) : M.zext(lo, 2 * w); set(M.concat(M.notb(M.eq(back, r)), lo)); return CONT; }
      case Intrinsic::eh_typeid_for: { Ex t = opv(0); set(M.mkc(32, typeIdFor((u64)t->val))); return CONT; }
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: terminateNow(S, "trap"); return CONT;
      case Intrinsic::x86_sse2_pause: return doYield();
      case Intrinsic::returnaddress: case Intrinsic::frameaddress: set(M.mkc(64, 0)); return CONT;
      case Intrinsic::vastart: case Intrinsic::vaend: f.pc++; return CONT;   // the list is never read: reading it is an uninitialised read
      default: throw EngineError("intrinsic " + callee->getName().str() + " at " + stackOf(T));
    }
  }
  auto adv = [&] { finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, nullptr, S); };
  switch (d.prim) {
    case P_NONE: break;
    case P_ASSERT: { Ex c = M.notb(M.eq(opv(0), M.mkc(opv(0)->w, 0))); if (c->hasUndef) bad(S, M.notb(M.defined(c)), "assertion on uninitialised value", locOf(I)); if (c != M.T) { std::string msg = cstr(S, (u64)opv(1)->val); bad(S, M.notb(c), "assertion: " + msg, locOf(I)); flush(S); } adv(); return CONT; }
    case P_ASSUME: { Ex c = M.notb(M.eq(opv(0), M.mkc(opv(0)->w, 0))); if (c != M.T) { flush(S); std::shared_ptr<EvalModel> m; if (!feasible(S, c, &m)) throw Killed(); if (!guide) assume(S, c, m); } adv(); return CONT; }
    case P_NONDET: { std::string n = "nd" + std::to_string(S.cur) + "_" + std::to_string(T.nd++); unsigned bits = (unsigned)opv(0)->val; Ex v = namedVar(n, bits); if (guide) glog.push_back("ND " + std::to_string(S.cur) + " " + std::to_string((u64)v->val)); finishCall(f, d, M.zext(v, 64), S); return CONT; }
    case P_TCREATE: {
      u64 fn = concretise(S, d.ops[0], opv(0)); Ex arg = opv(1); S.wroteAll = true; if (S.th.size() >= MAXT) throw EngineError("too many threads"); int tid = S.th.size(); Rc<Thread> nt(new Thread); int creator = S.cur; Thread& me = *S.th[creator].mut();
      for (int u = 0; u < MAXT; u++) nt->vc[u] = me.vc[u]; nt->vc[tid] = M.mkc(VCW, 1); bumpEpoch(me, creator); S.th.push_back(nt); auto it = fnAddr.find(fn); if (it == fnAddr.end()) throw EngineError("thread fn"); int sv = S.cur; S.cur = tid; pushCall(S, *S.th[tid].mut(), it->second, {arg}); S.cur = sv; S.wrote = true;
      finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, M.mkc(32, tid), S); return CONT; }
    case P_TJOIN: { if (!first) return STOP_VISIBLE; gop(S, "join"); int tid = (int)opv(0)->val; if (tid < 0 || tid >= (int)S.th.size()) throw EngineError("join tid"); for (int u = 0; u < MAXT; u++) T.vc[u] = vor(T.vc[u], S.th[tid]->vc[u]); finishCall(f, d, nullptr, S); return CONT; }
    case P_SELF: finishCall(f, d, M.mkc(32, S.cur), S); return CONT;
    case P_AWAIT: { if (T.atomicDepth) throw EngineError("await in atomic"); if (!first) return STOP_VISIBLE; gop(S, "await"); Ex p = opv(0); Ex v = doLoad(S, p, Type::getInt32Ty(Ctx), ARD); Ex c = M.eq(v, opv(1)); if (c != M.T && !guide) { std::shared_ptr<EvalModel> m; if (!feasible(S, c, &m)) throw Killed(); assume(S, c, m); } adv(); return CONT; }
    case P_AWAITIDLE: { if (!first) return STOP_VISIBLE; gop(S, "await_idle"); adv(); return CONT; }
    case P_POINT: { Ex p = opv(0); if (!first && T.atomicDepth == 0) return STOP_VISIBLE; if (T.atomicDepth == 0) gop(S, "point"); adv(); return CONT; }
    case P_MERGE: { if (!first) return STOP_VISIBLE; adv(); return CONT; }
    case P_ATBEGIN: T.atomicDepth++; adv(); return CONT;
    case P_ATEND: T.atomicDepth--; adv(); return CONT;
    case P_WROTE: S.wrote = S.wroteAll = true; adv(); return CONT;
    case P_MALLOC: { u64 n = concretise(S, d.ops[0], opv(0)); u64 al = concretise(S, d.ops[1], opv(1)); u64 a = heapAlloc(S, n, al); finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, M.mkc(64, a), S); return CONT; }
    case P_NOLEAK: { Ex p = opv(0); if (p->op == Op::CONST) { int id = findAlloc((u64)p->val); if (id >= 0) AI[id].noleak = true; } adv(); return CONT; }
    case P_FREE: case P_FREESZ: {
      Ex p = opv(0); u64 fsz = ~0ull, fal = ~0ull; if (d.prim == P_FREESZ) { fsz = concretise(S, d.ops[1], opv(1)); fal = concretise(S, d.ops[2], opv(2)); } std::vector<Leaf> L; p = leavesOf(S, p, L); for (auto& l : L) { if (l.v == 0) continue; int id = findAlloc(l.v); if (id < 0 || AI[id].kind != AK::Heap || AI[id].base != l.v) { bad(S, l.cond, "free of invalid pointer", locOf(I)); continue; }
        Obj* o = objR(S, id); if (!o || o->alive == M.F) { bad(S, l.cond, "double free", locOf(I)); continue; } if (o->alive != M.T) bad(S, M.andb(l.cond, M.notb(o->alive)), "double free", locOf(I)); if (fsz != ~0ull && fsz != AI[id].size) bad(S, l.cond, "deallocated with a size it was not allocated with", locOf(I)); if (fal != ~0ull && fal != AI[id].align) bad(S, l.cond, "deallocated with an alignment it was not allocated with", locOf(I)); touchObj(id, S.cur); killObj(S, id, l.cond, "free"); }
      flush(S); adv(); return CONT; }
    case P_HBA: { Ex p = opv(0); std::vector<Leaf> L; leavesOf(S, p, L); for (auto& l : L) { int id = findAlloc(l.v); if (id >= 0 && objR(S, id)) hbAtomicLoad(S, T, *objR(S, id), l.v - AI[id].base, AtomicOrdering::Acquire, l.cond); } adv(); return CONT; }
    case P_HBR: { Ex p = opv(0); std::vector<Leaf> L; leavesOf(S, p, L); for (auto& l : L) { int id = findAlloc(l.v); if (id >= 0 && objW(S, id)) hbAtomicStore(S, T, S.cur, *objW(S, id), l.v - AI[id].base, AtomicOrdering::Release, true, l.cond); } adv(); return CONT; }
    case P_THROW: { u64 a = concretise(S, d.ops[0], opv(0)); int id = findAlloc(a); if (id < 0) throw EngineError("throw ptr"); Ex ty = readObj(*objR(S, id), a - AI[id].base, 8); if (ty->op != Op::CONST) { std::vector<Leaf> L; leavesOf(S, ty, L); for (size_t i = 0; i < L.size(); i++) { std::shared_ptr<EvalModel> m; if (!feasible(S, L[i].cond, &m)) continue; State C = S; assume(C, L[i].cond, m); writeObj(*objW(C, id), a - AI[id].base, 8, M.mkc(64, L[i].v)); workq->push_back(std::move(C)); } throw Killed(); } unwind(S, M.mkc(64, a), (u64)ty->val); return CONT; }
    case P_YIELD: return doYield();
    case P_LOG: { Ex v = opv(1); if (guide) { std::vector<Leaf> L; Ex q = leavesOf(S, v, L); glog.push_back("LOG " + std::to_string((u64)opv(0)->val) + " " + std::to_string((u64)q->val)); } adv(); return CONT; }
    case P_COVER: { std::string n = cstr(S, (u64)opv(0)->val); covers[n]++; adv(); return CONT; }
    case P_MEMCPY: case P_MEMMOVE: { u64 n = concretise(S, d.ops[2], opv(2)); u64 dst = concretise(S, d.ops[0], opv(0)); u64 src = concretise(S, d.ops[1], opv(1)); copyMem(S, dst, src, n); Frame& g = *S.th[S.cur].mut()->stack.back().mut(); finishCall(g, d, M.mkc(64, dst), S); return CONT; }
    case P_MEMSET: throw EngineError("memset call");
    case P_ABORT: terminateNow(S, "abort: " + callee->getName().str()); return CONT;
    case P_ASSERTFAIL: { std::string msg = cstr(S, (u64)opv(0)->val); std::string fl = cstr(S, (u64)opv(1)->val); auto q = fl.rfind('/'); if (q != std::string::npos) fl = fl.substr(q + 1); bad(S, M.T, "library assertion failed: " + msg, fl + ":" + std::to_string((unsigned)opv(2)->val)); flush(S); throw Killed(); }
    case P_NOOP0: finishCall(f, d, d.dst >= 0 ? M.mkc(d.w, 0) : nullptr, S); return CONT;
    case P_ENGINE: finishCall(f, d, M.mkc(32, 1), S); return CONT;
    case P_QUIESCENT: { // true when no other thread can take a step
      Ex any = M.F; for (int u = 0; u < (int)S.th.size(); u++) if (u != S.cur) { Ex en; if (awaitCond(S, u, en)) any = M.orb(any, en); } finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, M.zext(M.notb(any), d.w), S); return CONT; }
    case P_DYNCAST: { // single inheritance, offset 0: compare dynamic type
      Ex p = opv(0); u64 pv = concretise(S, d.ops[0], p); if (pv == 0) { finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, M.mkc(64, 0), S); return CONT; } Ex pc = M.mkc(64, pv); Ex vt = doLoad(S, pc, PointerType::get(Ctx, 0), RD); std::vector<Leaf> L; vt = leavesOf(S, vt, L); Ex r = M.mkc(64, 0); u64 target = (u64)opv(2)->val; for (auto& l : L) { int id = findAlloc(l.v); Ex ti = readObj(*objR(S, id), l.v - AI[id].base - 8, 8); Ex ott = readObj(*objR(S, id), l.v - AI[id].base - 16, 8); if (typeDerives((u64)ti->val, target)) r = M.ite(l.cond, M.mkc(64, pv + (u64)ott->val), r); } finishCall(*S.th[S.cur].mut()->stack.back().mut(), d, r, S); return CONT; }
    default: throw EngineError("prim");
  }
  { std::vector<Ex> args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(opv(i));
    // byval arguments: copy
    for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); u64 n = DL->getTypeAllocSize(bt); u64 src = concretise(S, d.ops[i], args[i]); Frame& g = *S.th[S.cur].mut()->stack.back().mut(); DI fake = d; fake.I = (const Instruction*)((const char*)d.I + 1 + i); SvAlloc ai; 
        u64 base = hmix(g.ctx, hmix((u64)d.I, i + 1)); int occ = 0; int id; for (;; occ++) { auto& r = nameAlloc.try_emplace({base, occ}, -1).first->second; if (r < 0) { ai.size = n; ai.kind = AK::Stack; ai.name = "byval " + locOf(d.I); r = newAlloc(ai, std::max<u64>(16, cb->getParamAlign(i).valueOrOne().value())); } id = r; if ((int)S.mem.size() <= id) S.mem.resize(AI.size()); if (!S.mem[id] || S.mem[id]->alive == M.F) break; bool mine = false; for (int a : g.allocas) if (a == id) mine = true; if (mine) { break; } }
        Rc<Obj> o(new Obj); o->id = id; o->alive = M.T; S.mem[id] = o; bool mine = false; for (int a : g.allocas) if (a == id) mine = true; if (!mine) g.allocas.push_back(id); copyMem(S, AI[id].base, src, n); args[i] = M.mkc(64, AI[id].base); }
    Thread& T2 = *S.th[S.cur].mut();
    if (d.musttail && !callee->isDeclaration()) { popFrame(S, T2); pushCall(S, T2, callee, args); }
    else pushCall(S, T2, callee, args); }
  return CONT;
}

// ---------------------------------------------------------------- scheduling
static bool awaitCond(State& S, int t, Ex& out, bool noIdle) { // false: never enabled in this state
  Thread& T = *S.th[t]; out = M.F; if (T.st == TS::Done || T.blockedYield) return false; out = M.T; if (T.st == TS::Start) return true;
  Frame& f = *T.stack.back(); const DI& d = f.fn->insts[f.pc];
  auto opv = [&](int i) { const Oprnd& o = d.ops[i]; return o.slot < 0 ? o.c : f.regs[o.slot]; };
  if (d.prim == P_TJOIN) { int tid = (int)opv(0)->val; out = S.th[tid]->st == TS::Done ? M.T : M.F; return out != M.F; }
  if (d.prim == P_AWAIT || d.prim == P_AWAITIDLE) {
    Ex p = opv(0); int sv = S.cur; S.cur = t; std::vector<Leaf> L; leavesOf(S, p, L); S.cur = sv; Ex r = M.F;
    for (auto& l : L) { int id = findAlloc(l.v); if (id < 0) { r = M.orb(r, l.cond); continue; } Obj* o = objR(S, id); if (!o || o->alive == M.F) { r = M.orb(r, l.cond); continue; } Ex v = readObj(*o, l.v - AI[id].base, 4); r = M.orb(r, M.andb(l.cond, M.eq(v, opv(1)))); }
    if (d.prim == P_AWAITIDLE && !noIdle) { Ex any = M.F; for (int u = 0; u < (int)S.th.size(); u++) if (u != t) { Ex c; if (awaitCond(S, u, c, true)) any = M.orb(any, c); } r = M.orb(r, M.notb(any)); }
    out = r; if (guide && out != M.F && out != M.T) out = S.model->ev->ev(out) ? M.T : M.F; return out != M.F; }
  return true;
}

static void endChecks(State& S) {
  if (optLeak) { Ex any = M.F; int which = -1; for (auto& o : S.mem) if (o && AI[o->id].kind == AK::Heap && o->alive != M.F && !AI[o->id].noleak) { bad(S, o->alive, "memory leak", AI[o->id].name); } }
  flush(S); nTerm++;
  if (guide) { guidedEnd = "terminated"; gEnded = true; return; }
  if ((int)termSamples.size() < 2000) termSamples.push_back(expandModel(S.model->m, S.wit));
}

struct KeyHash { size_t operator()(const std::vector<u64>& v) const { u64 h = v.size(); for (u64 x : v) h = hmix(h, x); return h; } };
static std::vector<u64> keyOf(State& S) {
  std::vector<u64> k; k.push_back(S.th.size()); if (optPreempt >= 0) { k.push_back(S.last); k.push_back(S.preempt); }
  for (auto& t : S.th) { k.push_back((u64)t->st | (u64)t->spin << 8 | (u64)t->blockedYield << 24 | (u64)t->nd << 32); if (t->spin) { u64 q = t->ysig; for (u64 r : t->rd) q = hmix(q, r); k.push_back(q); } k.push_back(t->stack.size()); for (auto& f : t->stack) k.push_back(f->fn->id << 32 | (u64)f->pc); for (auto& f : t->stack) k.push_back(f->ctx); }
  if (guide || !optMerge) k.push_back(nPaths++ + 1000000);
  return k;
}
static int clk(Ex e) { if (!e || e == Z64) return 0; if (e->op != Op::CONST) return -1; u64 v = (u64)e->val; return __builtin_popcountll(v); }
// Key of the symbolic contents.  Happens-before clocks enter by rank among the epochs that can still matter, so states that differ only
// in how many release operations were executed are recognised as equal.
static void contentKey(State& S, std::vector<u64>& k) {
  auto px = [&](Ex e) { k.push_back(e && e != Z64 ? (u64)e->id : 0); };
  bool canon = optRace; u64 E[MAXT] = {}; int low[MAXT]; int nt = S.th.size();
  if (optRace) {
    for (int u = 0; u < MAXT; u++) low[u] = 64;
    for (int t = 0; t < nt; t++) { auto& T = S.th[t]; for (int u = 0; u < MAXT; u++) { for (Ex e : {T->vc[u], T->acqF[u], T->relF[u]}) if (clk(e) < 0) canon = false; if (T->st != TS::Done && t != u && clk(T->vc[u]) < low[u]) low[u] = clk(T->vc[u]); } if (T->st != TS::Done && clk(T->vc[t]) > 0) E[t] |= 1ull << (clk(T->vc[t]) - 1); }
    for (size_t id = 0; id < S.mem.size() && canon; id++) { auto& o = S.mem[id]; if (!o || AI[id].isConst || o->alive == M.F) continue;
      if (!o->epOk) { u64 m[MAXT] = {}; bool bad = false; for (int u = 0; u < MAXT; u++) o->rm[u] = 0; auto ad = [&](Ex e, int u) { int n = clk(e); if (n < 0) bad = true; else if (n) m[u] |= 1ull << (n - 1); };
        for (int u = 0; u < MAXT; u++) { if (AI[id].kind != AK::Global) ad(o->last[u], u); for (auto& s : o->sh) for (Ex e : {s.pw[u], s.pr[u], s.aw[u], s.ar[u]}) ad(e, u); for (auto& r : o->rel) { int n = clk(r.v[u]); if (n < 0) bad = true; else if (n > o->rm[u]) o->rm[u] = n; } }
        memcpy(o->ep, m, sizeof m); o->epBad = bad; o->epOk = true; }
      if (o->epBad) canon = false; for (int u = 0; u < MAXT; u++) E[u] |= o->ep[u]; }
    if (canon) for (size_t id = 0; id < S.mem.size(); id++) { // access and release epochs that every thread already knows can take part in no race: forget them
      auto& o = S.mem[id]; if (!o || (o->sh.empty() && o->rel.empty()) || AI[id].isConst || o->alive == M.F) continue;
      auto dead = [&](Ex const* e) { for (int u = 0; u < MAXT; u++) if (clk(e[u]) > (u < nt ? low[u] : 64)) return false; return true; };
      auto deadS = [&](const Shadow& s) { return dead(s.pw) && dead(s.pr) && dead(s.aw) && dead(s.ar); }; auto deadR = [&](const RelVC& r) { return dead(r.v); };
      size_t n = 0, m = 0; for (auto& s : o->sh) n += deadS(s); for (auto& r : o->rel) m += deadR(r); if (!n && !m) continue;
      Obj* w = S.mem[id].mut(); w->vs = nullptr; w->epOk = false; if (n) w->sh.erase(std::remove_if(w->sh.begin(), w->sh.end(), deadS), w->sh.end()); if (m) w->rel.erase(std::remove_if(w->rel.begin(), w->rel.end(), deadR), w->rel.end());
      u64 q[MAXT] = {}; for (int u = 0; u < MAXT; u++) w->rm[u] = 0; auto ad = [&](Ex e, int u) { int c = clk(e); if (c) q[u] |= 1ull << (c - 1); };
      for (int u = 0; u < MAXT; u++) { if (AI[id].kind != AK::Global) ad(w->last[u], u); for (auto& s : w->sh) for (Ex e : {s.pw[u], s.pr[u], s.aw[u], s.ar[u]}) ad(e, u); for (auto& r : w->rel) w->rm[u] = std::max(w->rm[u], clk(r.v[u])); }
      memcpy(w->ep, q, sizeof q); w->epBad = false; w->epOk = true; }
    if (canon) for (int u = 0; u < MAXT; u++) if (low[u] > 0) E[u] &= low[u] >= 64 ? 0 : ~((1ull << low[u]) - 1);
  }
  auto rk = [&](Ex e, int u) -> u64 { if (!canon) return e && e != Z64 ? (u64)e->id : 0; int n = clk(e); if (n == 0) return 0; return __builtin_popcountll(E[u] & (n >= 64 ? ~0ull : (1ull << n) - 1)); };
  k.push_back(canon);
  for (auto& t : S.th) { if (optRace) for (int u = 0; u < MAXT; u++) k.push_back(rk(t->vc[u], u) | rk(t->acqF[u], u) << 32), k.push_back(rk(t->relF[u], u)); px(t->excPtr); for (auto& f : t->stack) for (Ex r : f->regs) px(r); }
  u64 A = 1, B = 2;
  for (size_t id = 0; id < S.mem.size(); id++) { auto& o = S.mem[id]; if (!o) continue; const SvAlloc& ai = AI[id]; if (ai.isConst || o->alive == M.F) continue; if ((ai.kind == AK::Global || ai.kind == AK::Tls) && o == mkGlobal(id)) continue;
    if (!o->chOk) { u64 a = id, b = ~(u64)id; auto ad = [&](u64 x) { a = hmix(a, x); b = (b ^ (x * 0x9E3779B97F4A7C15ull)) * 0xD6E8FEB86659FD93ull; b ^= b >> 32; }; ad(o->alive->id); for (auto& c : o->cells) { ad((u64)c.off << 32 | c.len); ad(c.v ? c.v->id : 0); } o->ch[0] = a; o->ch[1] = b; o->chOk = true; }
    A += hmix(o->ch[0], 0x51ull); B += o->ch[1] * 0x9E3779B97F4A7C15ull;
    if (optRace) { if (canon) { bool any = false; for (int u = 0; u < nt; u++) if ((low[u] < 64 && (o->ep[u] >> low[u])) || o->rm[u] > low[u]) { any = true; break; } if (!any) continue; }   // every epoch is known to all threads
      u64 t = hmix(id, 77); bool put = false; if (AI[id].kind != AK::Global) for (int u = 0; u < nt; u++) { u64 r = rk(o->last[u], u); if (r) put = true; t = hmix(t, r); } u64 h = 0;
      for (auto& s : o->sh) { u64 q = hmix(s.off, s.len); bool any = false; for (int u = 0; u < nt; u++) for (Ex e : {s.pw[u], s.pr[u], s.aw[u], s.ar[u]}) { u64 r = rk(e, u); if (r) any = true; q = hmix(q, r); } if (any) h += q; }
      if (h) put = true; t = hmix(t, h); h = 0; for (auto& r : o->rel) { u64 q = r.off; bool any = false; for (int u = 0; u < nt; u++) { u64 x = rk(r.v[u], u); if (x) any = true; q = hmix(q, x); } if (any) h += q; } if (h) put = true; t = hmix(t, h);
      if (put) { A += t; B += hmix(t, 0x1357) | 1; } } }
  k.push_back(A); k.push_back(B);
}
static void pruneRegs(Thread& T) { for (size_t i = 0; i < T.stack.size(); i++) { Frame* f = T.stack[i].p; bool top = i + 1 == T.stack.size(); auto& l = liveAt(f->fn, f->pc, top); bool need = false; for (size_t r = 0; r < f->regs.size(); r++) if (f->regs[r] && !(l[r / 64] >> (r % 64) & 1)) { need = true; break; }
    if (need && !(T.st == TS::Start)) { f = T.stack[i].mut(); for (size_t r = 0; r < f->regs.size(); r++) if (!(l[r / 64] >> (r % 64) & 1)) f->regs[r] = nullptr; } } }

// ---- variable sets and elimination of variables that no longer influence the state
static std::set<VarSet> vsIntern; static const VarSet* vsEmpty; static std::unordered_map<Ex, const VarSet*> vsMemo;
static const VarSet* vsUnion(const VarSet* a, const VarSet* b) { if (a == b || b->empty()) return a; if (a->empty()) return b; VarSet r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); return &*vsIntern.insert(std::move(r)).first; }
static const VarSet* varsOf(Ex e) {
  if (!vsEmpty) vsEmpty = &*vsIntern.insert(VarSet{}).first;
  if (!e || e->op == Op::CONST || e->op == Op::UNDEF) return vsEmpty;
  auto it = vsMemo.find(e); if (it != vsMemo.end()) return it->second;
  const VarSet* r = vsEmpty; if (e->op == Op::VAR) r = &*vsIntern.insert(VarSet{(unsigned)e->val}).first; else for (Ex x : {e->a, e->b, e->c}) if (x) r = vsUnion(r, varsOf(x));
  return vsMemo[e] = r;
}
static void conjuncts(Ex e, std::vector<Ex>& out) { std::vector<Ex> st{e}; std::unordered_set<Ex> seen; while (!st.empty()) { Ex x = st.back(); st.pop_back(); if (x == M.T || !seen.insert(x).second) continue; if (x->op == Op::AND && x->w == 1) { st.push_back(x->a); st.push_back(x->b); } else out.push_back(x); } std::sort(out.begin(), out.end(), [](Ex a, Ex b) { return a->id < b->id; }); }
static Ex conjoin(const std::vector<Ex>& v) { Ex r = M.T; for (Ex x : v) r = M.andb(r, x); return r; }
static std::vector<unsigned> stampV; static unsigned stampN;
static void stampSet(const VarSet* v) { for (unsigned x : *v) { if (x >= stampV.size()) stampV.resize(x + 256, 0); stampV[x] = stampN; } }
static bool stamped(unsigned x) { return x < stampV.size() && stampV[x] == stampN; }
static void contentVars(State& S) { // stamps all variables the contents depend on
  stampN++; auto arr = [&](Ex const* a) { for (int u = 0; u < MAXT; u++) if (a[u]) stampSet(varsOf(a[u])); };
  for (auto& t : S.th) { arr(t->vc); arr(t->acqF); arr(t->relF); if (t->excPtr) stampSet(varsOf(t->excPtr)); for (auto& f : t->stack) for (Ex r : f->regs) if (r) stampSet(varsOf(r)); }
  for (auto& o : S.mem) { if (!o || AI[o->id].isConst) continue;
    if (!o->vs) { const VarSet* v = varsOf(o->alive); auto ad = [&](Ex e) { if (e) v = vsUnion(v, varsOf(e)); };
      for (auto& c : o->cells) ad(c.v); for (auto e : o->last) ad(e); for (auto& s : o->sh) for (int u = 0; u < MAXT; u++) ad(s.pw[u]), ad(s.pr[u]), ad(s.aw[u]), ad(s.ar[u]); for (auto& r : o->rel) for (auto e : r.v) ad(e); o->vs = v; }
    stampSet(o->vs); }
}
static u64 nElim = 0, nSame = 0;
static void project(State& S) {
  if (S.pc == M.T || guide) return; std::vector<Ex> cs; conjuncts(S.pc, cs); contentVars(S); unsigned live = stampN;
  // grow the live set through connected conjuncts
  std::vector<char> keep(cs.size(), 0); bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < cs.size(); i++) if (!keep[i]) { auto v = varsOf(cs[i]); bool l = v->empty(); for (unsigned x : *v) if (stampV.size() > x && stampV[x] == live) { l = true; break; } if (l) { keep[i] = 1; ch = true; stampSet(v); } } }
  Rc<Wit> w; auto nm = std::make_shared<Model>(); for (auto& p : *S.model->m) { if (stamped(p.first)) (*nm)[p.first] = p.second; }
  std::vector<Ex> rest; std::set<unsigned> dropped; for (size_t i = 0; i < cs.size(); i++) if (keep[i]) rest.push_back(cs[i]); else for (unsigned x : *varsOf(cs[i])) dropped.insert(x);
  if (dropped.empty()) return;
  w = Rc<Wit>(new Wit); w->a = S.wit; for (unsigned x : dropped) { auto it = S.model->m->find(x); w->asg.push_back({x, it == S.model->m->end() ? (u128)0 : it->second}); nElim++; }
  S.wit = w; S.pc = conjoin(rest); S.model = std::make_shared<EvalModel>(nm);
}
static std::map<std::string,int> diffStat; static std::string diffWhat;
static bool mergeDiff; static std::vector<Ex> mvPool;
static Ex mergeV(Ex g, Ex a, Ex b) { if (a == b) return a; mergeDiff = true; diffStat[diffWhat]++; return M.ite(g, a, b); }
static Ex vmerge(Ex g, Ex a, Ex b) { if (a == b || (!a && b == Z64) || (!b && a == Z64)) return a; mergeDiff = true; diffStat["vc " + diffWhat]++; return M.ite(g, vz(a), vz(b)); }
static void mergeInto(State& A, State& B, Ex g) { // A := A or B, told apart by g where contents differ
  nMerges++; mergeDiff = false;
  for (size_t i = 0; i < A.th.size(); i++) {
    if (A.th[i] == B.th[i]) continue; Thread* T = A.th[i].mut(); const Thread* U = B.th[i].p; diffWhat = "thread";
    for (int u = 0; u < MAXT; u++) { T->vc[u] = vmerge(g, T->vc[u], U->vc[u]); T->acqF[u] = vmerge(g, T->acqF[u], U->acqF[u]); T->relF[u] = vmerge(g, T->relF[u], U->relF[u]); }
    for (size_t k = 0; k < T->stack.size(); k++) { if (T->stack[k] == U->stack[k]) continue; Frame* f = T->stack[k].mut(); const Frame* h = U->stack[k].p;
      for (size_t r = 0; r < f->regs.size(); r++) { Ex a = f->regs[r], b = h->regs[r]; if (a == b) continue; if (!a || !b) { f->regs[r] = nullptr; continue; } f->regs[r] = mergeV(g, a, b); }
      for (int al : h->allocas) if (std::find(f->allocas.begin(), f->allocas.end(), al) == f->allocas.end()) f->allocas.push_back(al); } }
  size_t n = std::max(A.mem.size(), B.mem.size()); A.mem.resize(n); B.mem.resize(n);
  for (size_t id = 0; id < n; id++) {
    if (A.mem[id] == B.mem[id]) continue; bool glob = AI[id].kind == AK::Global || AI[id].kind == AK::Tls || AI[id].kind == AK::Func;
    if (glob) { objR(A, id); objR(B, id); if (A.mem[id] == B.mem[id]) continue; }
    Rc<Obj>& ra = A.mem[id]; Rc<Obj>& rb = B.mem[id]; if (optVerbose > 2) diffWhat = AI[id].name;
    if (!ra) { if (rb->alive == M.F) continue; mergeDiff = true; ra = rb; Obj* o = ra.mut(); o->alive = M.andb(o->alive, M.notb(g)); continue; }
    if (!rb) { if (ra->alive == M.F) continue; mergeDiff = true; Obj* o = ra.mut(); o->alive = M.andb(o->alive, g); continue; }
    Obj* o = ra.mut(); o->vs = nullptr; o->epOk = false; o->chOk = false; const Obj& q = *rb;
    if (o->alive == M.F && q.alive == M.F) continue;
    for (int u = 0; u < MAXT; u++) o->last[u] = vmerge(g, o->last[u], q.last[u]);
    if (q.alive == M.F) { mergeDiff = true; o->alive = M.andb(o->alive, g); continue; } 
    if (o->alive == M.F) { mergeDiff = true; Ex l[MAXT]; memcpy(l, o->last, sizeof l); Ex al = M.andb(q.alive, M.notb(g)); *o = q; o->rc = 1; memcpy(o->last, l, sizeof l); o->alive = al; continue; }
    o->alive = mergeV(g, o->alive, q.alive);
    if (o->fill != q.fill) { // materialise
      Obj tmp = *o; for (u32 off = 0; off < AI[id].size;) { u32 k = std::min<u64>(8, AI[id].size - off); writeObj(tmp, off, k, readObj(*o, off, k)); off += k; } tmp.fill = Fill::Undef; o->cells = tmp.cells; o->fill = Fill::Undef; Obj t2 = q; for (u32 off = 0; off < AI[id].size;) { u32 k = std::min<u64>(8, AI[id].size - off); writeObj(t2, off, k, readObj(q, off, k)); off += k; }
      for (auto& c : t2.cells) { Ex a = readObj(*o, c.off, c.len); if (a != c.v) writeObj(*o, c.off, c.len, mergeV(g, a, c.v)); }
    } else {
    bool same = o->cells.size() == q.cells.size(); if (same) for (size_t i = 0; i < q.cells.size(); i++) if (o->cells[i].off != q.cells[i].off || o->cells[i].len != q.cells[i].len) { same = false; break; }
    if (same) { for (size_t i = 0; i < q.cells.size(); i++) o->cells[i].v = mergeV(g, o->cells[i].v, q.cells[i].v); }
    else {
      std::set<u32> bnd; std::vector<std::pair<u32, u32>> ranges; for (const std::vector<Cell>* cs : {(const std::vector<Cell>*)&o->cells, &q.cells}) for (auto& c : *cs) { bnd.insert(c.off); bnd.insert(c.off + c.len); }
      std::vector<Cell> out; std::vector<u32> bv(bnd.begin(), bnd.end());
      auto covered = [&](const std::vector<Cell>& cs, u32 a) { auto it = std::lower_bound(cs.begin(), cs.end(), a, [](const Cell& c, u32 x) { return c.off + c.len <= x; }); return it != cs.end() && it->off <= a; };
      for (size_t i = 0; i + 1 < bv.size(); i++) { u32 a = bv[i], l = bv[i + 1] - a; if (!covered(o->cells, a) && !covered(q.cells, a)) continue; out.push_back({a, l, mergeV(g, readObj(*o, a, l), readObj(q, a, l))}); }
      o->cells = out; } }
    for (auto& s : q.sh) { Shadow* m = nullptr; for (auto& x : o->sh) if (x.off == s.off && x.len == s.len) m = &x; if (!m) { o->sh.push_back(Shadow{s.off, s.len, {}, {}, {}, {}}); m = &o->sh.back(); }
      for (int u = 0; u < MAXT; u++) { m->pw[u] = vmerge(g, m->pw[u], s.pw[u]); m->pr[u] = vmerge(g, m->pr[u], s.pr[u]); m->aw[u] = vmerge(g, m->aw[u], s.aw[u]); m->ar[u] = vmerge(g, m->ar[u], s.ar[u]); } }
    for (auto& x : o->sh) { bool in = false; for (auto& s : q.sh) if (x.off == s.off && x.len == s.len) in = true; if (!in) for (int u = 0; u < MAXT; u++) { x.pw[u] = vmerge(g, x.pw[u], nullptr); x.pr[u] = vmerge(g, x.pr[u], nullptr); x.aw[u] = vmerge(g, x.aw[u], nullptr); x.ar[u] = vmerge(g, x.ar[u], nullptr); } }
    for (auto& r : q.rel) { RelVC* m = relAt(*o, r.off, true); for (int u = 0; u < MAXT; u++) m->v[u] = vmerge(g, m->v[u], r.v[u]); }
    for (auto& r : o->rel) { bool in = false; for (auto& s : q.rel) if (s.off == r.off) in = true; if (!in) for (int u = 0; u < MAXT; u++) r.v[u] = vmerge(g, r.v[u], nullptr); }
  }
  if (!(A.occ == B.occ)) { OccMap* m = A.occ.mut(); for (auto& p : B.occ->m) { int& x = m->m[p.first]; x = std::max(x, p.second); } }
  A.preempt = std::min(A.preempt, B.preempt);
  std::vector<Ex> ca, cb, common, ra, rb; conjuncts(A.pc, ca); conjuncts(B.pc, cb); std::unordered_set<Ex> sa(ca.begin(), ca.end()), sb(cb.begin(), cb.end());
  for (Ex x : ca) if (sb.count(x)) common.push_back(x); else ra.push_back(x); for (Ex x : cb) if (!sa.count(x)) rb.push_back(x);
  if (!mergeDiff && (ra.empty() || rb.empty())) { if (!ra.empty()) { A.pc = B.pc; A.wit = B.wit; A.model = B.model; } nSame++; return; }
  unsigned gv = (unsigned)g->val; Rc<Wit> w(new Wit); w->var = (int)gv; w->a = A.wit; w->b = B.wit; A.wit = w;
  Ex ng = M.notb(g); for (Ex x : ra) common.push_back(M.orb(ng, x)); for (Ex x : rb) common.push_back(M.orb(g, x)); A.pc = conjoin(common);
  auto nm = std::make_shared<Model>(*A.model->m); (*nm)[gv] = 1; A.model = std::make_shared<EvalModel>(nm);
}

struct PH { size_t operator()(const std::pair<u64, u64>& p) const { return p.first ^ p.second * 0x9E3779B97F4A7C15ull; } };
static std::unordered_set<std::pair<u64, u64>, PH> seenAll;   // states reached on any level of the current search
struct Level { std::vector<State> st; std::unordered_map<std::vector<u64>, std::vector<size_t>, KeyHash> idx; };
static u64 nDrop = 0; static std::pair<u64, u64> h128(const std::vector<u64>& v) { u64 a = 0x1234567, b = 0x9876543210fedcbaull; for (u64 x : v) { a = hmix(a, x); b = (b ^ (x * 0x9E3779B97F4A7C15ull)) * 0xD6E8FEB86659FD93ull; b ^= b >> 32; } return {a, b}; }
static void liveMergeVars(State& S) { S.mvs.clear(); if (mvPool.empty()) return; contentVars(S); std::vector<Ex> cs; conjuncts(S.pc, cs); for (Ex c : cs) stampSet(varsOf(c)); for (size_t i = 0; i < mvPool.size(); i++) if (stamped((unsigned)mvPool[i]->val)) S.mvs.insert(i); }
static void addState(Level& L, State&& S) {
  auto k = keyOf(S); auto full = k; contentKey(S, full); full.push_back(S.pc->id);
  if (!seenAll.insert(h128(full)).second) { nDrop++; return; }          // same symbolic state reached again
  auto& c = L.idx[k]; liveMergeVars(S);
  if (optMergeVars) for (size_t i : c) { std::set<size_t> u = L.st[i].mvs; u.insert(S.mvs.begin(), S.mvs.end()); if ((int)u.size() + 1 > optMergeVars) continue;
    size_t f = 0; while (u.count(f)) f++; if (f >= mvPool.size()) mvPool.push_back(M.var("m" + std::to_string(f), 1)); mergeInto(L.st[i], S, mvPool[f]); liveMergeVars(L.st[i]); auto fk = k; contentKey(L.st[i], fk); fk.push_back(L.st[i].pc->id); seenAll.insert(h128(fk)); return; }
  if (optVerbose > 2) for (size_t i : c) { State& A = L.st[i]; auto tag = [&](const std::string& x) { diffStat[x]++; };
    for (size_t t = 0; t < S.th.size(); t++) { bool d = false; for (int u = 0; u < MAXT; u++) if (vz(S.th[t]->vc[u]) != vz(A.th[t]->vc[u])) d = true; if (d) tag("vc of thread"); d = false; for (size_t f = 0; f < S.th[t]->stack.size(); f++) for (size_t r = 0; r < S.th[t]->stack[f]->regs.size(); r++) if (S.th[t]->stack[f]->regs[r] != A.th[t]->stack[f]->regs[r]) d = true; if (d) tag("regs"); }
    for (size_t id = 0; id < S.mem.size() && id < A.mem.size(); id++) { auto &o = S.mem[id], &q = A.mem[id]; if (!o || !q || o == q) continue; if (o->alive != q->alive) { tag("alive " + AI[id].name); continue; } if (o->alive == M.F) continue; std::string nm = AI[id].name;
      for (auto& x : o->cells) { Ex y = readObj(*q, x.off, x.len); if (y != x.v) tag("cell " + nm + "+" + std::to_string(x.off)); } bool d = false; for (int u = 0; u < MAXT; u++) if (vz(o->last[u]) != vz(q->last[u])) d = true; if (d) tag("last " + nm);
      for (auto& r : o->rel) { for (auto& r2 : q->rel) if (r.off == r2.off) { d = false; for (int u = 0; u < MAXT; u++) if (vz(r.v[u]) != vz(r2.v[u])) d = true; if (d) tag("rel " + nm + "+" + std::to_string(r.off)); } }
      for (auto& r : o->sh) { for (auto& r2 : q->sh) if (r.off == r2.off && r.len == r2.len) { d = false; for (int u = 0; u < MAXT; u++) if (vz(r.pw[u]) != vz(r2.pw[u]) || vz(r.pr[u]) != vz(r2.pr[u]) || vz(r.aw[u]) != vz(r2.aw[u]) || vz(r.ar[u]) != vz(r2.ar[u])) d = true; if (d) tag("shadow " + nm + "+" + std::to_string(r.off)); } } }
    break; }
  c.push_back(L.st.size()); L.st.push_back(std::move(S));
}
// run thread S.cur until its next visible operation; collect resulting states
static void runThread(State S0, Level& out, const State* before) {
  std::vector<State> work; workq = &work; S0.first = true; int tid = S0.cur; const Rc<Thread> oldT = before->th[tid];
  work.push_back(std::move(S0));
  while (!work.empty()) {
    State S = std::move(work.back()); work.pop_back(); u64 n = 0; nPaths++;
    try {
      bool first = S.first;
      if (S.th[tid]->st == TS::Start) { Thread& T = *S.th[tid].mut(); T.st = TS::Run; gop(S, "start"); first = true; }
      StepRes r = CONT;
      for (;;) {
        S.first = first; r = execOne(S, first, n++); if (r != CONT) break; first = false; 
        if (n > 2 * optStepInsts) { auto& tf = S.th[tid]->stack.back(); bad(S, M.T, "a step does not terminate", locOf(tf->fn->insts[tf->pc].I)); flush(S); }
        if ((n & 0xffff) == 0 && elapsed() > optTime) throw EngineError("time budget exhausted");
      }
      S.first = false; flush(S); nTrans++;
      bool stutter = false;
      if (r == STOP_VISIBLE) {
        pruneRegs(*S.th[tid].mut());
        if (!S.wrote && oldT->st == TS::Run && oldT->stack.size() == S.th[tid]->stack.size() && oldT->nd == S.th[tid]->nd) { stutter = true; for (size_t i = 0; i < oldT->stack.size() && stutter; i++) { auto& a = *oldT->stack[i]; auto& b = *S.th[tid]->stack[i]; if (a.fn != b.fn || a.pc != b.pc || a.ctx != b.ctx) stutter = false; else if (a.regs != b.regs) stutter = false; } }
        if (stutter && oldT->spin != S.th[tid]->spin) stutter = false;
      }
      if (stutter) { nStutter++; Thread& X = *S.th[tid].mut(); X.blockedYield = true; X.spin = 2; X.rd = S.sr; }
      else if (S.th[tid]->spin) { Thread& X = *S.th[tid].mut(); if (S.wrote || S.changed) { X.spin = 0; X.ysig = 0; X.rd.clear(); X.blockedYield = false; } else if (!X.blockedYield) { X.rd.insert(X.rd.end(), S.sr.begin(), S.sr.end()); std::sort(X.rd.begin(), X.rd.end()); X.rd.erase(std::unique(X.rd.begin(), X.rd.end()), X.rd.end()); } }
      if (S.wrote) for (size_t u = 0; u < S.th.size(); u++) if ((int)u != tid && S.th[u]->spin) { bool hit = S.wroteAll; for (u64 w : S.sw) if (!hit) for (u64 r : S.th[u]->rd) if (r == w) { hit = true; break; } if (!hit) continue; Thread& X = *S.th[u].mut(); X.blockedYield = false; X.spin = 0; X.ysig = 0; X.rd.clear(); }
      S.wrote = S.wroteAll = S.changed = false; S.sr.clear(); S.sw.clear(); S.last = tid;
      if (S.th[tid]->spin > optMaxSpin) { nSpinCut++; continue; }
      project(S); addState(out, std::move(S));
    } catch (Killed&) { nPruned++; if (stopAll || gEnded) return; }
  }
}
static void explore(State init) {
  Level cur; curLevel = 0; seenAll.clear(); addState(cur, std::move(init)); 
  while (!cur.st.empty() && !stopAll && !gEnded) {
    maxLevelSeen = std::max(maxLevelSeen, curLevel); nStates += cur.st.size();
    if (optVerbose > 1) fprintf(stderr, "level %d states %zu nodes %zu queries %lu t=%.1f solver=%.1f\n", curLevel, cur.st.size(), M.nodes.size(), SV->queries, elapsed(), SV->time);
    if (nStates > optMaxStates) throw EngineError("state budget exhausted");
    if (curLevel >= optMaxLevels) { boundHit = true; break; }
    Level next; std::string sname = "s" + std::to_string(curLevel);
    for (auto& S : cur.st) {
      if (stopAll || gEnded) break; if (elapsed() > optTime) throw EngineError("time budget exhausted at level " + std::to_string(curLevel));
      std::vector<std::pair<int, Ex>> en; bool allDone = true; Ex any = M.F;
      try {
        for (int t = 0; t < (int)S.th.size(); t++) { if (S.th[t]->st != TS::Done) allDone = false; Ex c; if (awaitCond(S, t, c)) { en.push_back({t, c}); any = M.orb(any, c); } }
        if (allDone) { S.cur = 0; endChecks(S); continue; }
        if (any != M.T) { // deadlock?
          std::string w; for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t]->st != TS::Done) { auto& f = S.th[t]->stack.back(); std::string s = stackOf(*S.th[t]); S.cur = t; w += " [T" + std::to_string(t) + (S.th[t]->blockedYield ? " spinning" : "") + s.substr(0, 200) + "]"; }
          std::string firstLoc; for (int t = 0; t < (int)S.th.size(); t++) if (S.th[t]->st != TS::Done) { auto& f = S.th[t]->stack.back(); firstLoc += (firstLoc.empty() ? "" : ",") + std::string("T") + std::to_string(t) + ":" + [&] { for (int i = (int)S.th[t]->stack.size() - 1; i >= 0; i--) if (!S.th[t]->stack[i]->fn->model) return locOf(S.th[t]->stack[i]->fn->insts[S.th[t]->stack[i]->pc].I); return std::string("?"); }(); }
          bad(S, M.notb(any), "deadlock or lost wake-up (no thread can ever proceed)", firstLoc); flush(S); if (stopAll) break; }
      } catch (Killed&) { continue; }
      // starting a thread and joining a finished one commute with every other operation: explore only that step
      for (auto& e : en) if (e.second == M.T) { auto& T = *S.th[e.first]; if (T.st == TS::Start || (T.st == TS::Run && T.stack.back()->fn->insts[T.stack.back()->pc].prim == P_TJOIN)) { auto k = e; en.clear(); en.push_back(k); break; } }
      if (guide) { // concrete choice
        int pick = -1; if (en.size() == 1) pick = en[0].first; else { auto it = guide->find(sname); int v = it == guide->end() ? 0 : (int)it->second; for (auto& e : en) if (e.first == v) pick = v; if (pick < 0) { pick = en[0].first; } }
        State C = S; C.cur = pick; runThread(std::move(C), next, &S); continue; }
      Ex sv = en.size() > 1 ? namedVar(sname, 3) : nullptr;
      for (auto& e : en) {
        int pre = S.preempt; if (optPreempt >= 0 && e.first != S.last) { for (auto& q : en) if (q.first == S.last && q.second == M.T) pre++; if (pre > optPreempt) { continue; } }
        State C = S; C.cur = e.first; C.preempt = pre;
        if (sv) { Ex c = M.eq(sv, M.mkc(3, e.first)); // fresh variable: always satisfiable together with pc
          auto nm = std::make_shared<Model>(*S.model->m); (*nm)[(unsigned)sv->val] = e.first; C.pc = M.andb(C.pc, c); C.model = std::make_shared<EvalModel>(nm); }
        if (e.second != M.T) { std::shared_ptr<EvalModel> m; if (!feasible(C, e.second, &m)) continue; assume(C, e.second, m); }
        runThread(std::move(C), next, &S); if (stopAll) break;
      }
      S.mem.clear(); S.th.clear(); S.pend.clear();
    }
    cur = std::move(next); curLevel++;
  }
}
static State initialState() {
  State S; S.pc = M.T; S.model = std::make_shared<EvalModel>(std::make_shared<Model>()); S.occ = Rc<OccMap>(new OccMap); S.mem.resize(AI.size());
  Rc<Thread> t(new Thread); t->vc[0] = M.mkc(VCW, 1); t->st = TS::Run; S.th.push_back(t);
  return S;
}
static State bootState() { // run global constructors concretely, then position at sv_main
  State S = initialState(); std::vector<std::pair<u64, const Function*>> ctors;
  if (auto* g = Mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<State> work; workq = &work; auto sg = guide; 
  for (auto& c : ctors) { S.th[0].mut()->stack.clear(); pushCall(S, *S.th[0].mut(), c.second, {}); S.th[0].mut()->st = TS::Run; for (u64 n = 0;; n++) { StepRes r = execOne(S, true, 0); if (r == THREAD_DONE) break; if (!work.empty()) throw EngineError("symbolic fork in global constructor"); } }
  for (auto& o : S.mem) if (o && AI[o->id].kind == AK::Heap) AI[o->id].noleak = true;
  gSchedTids.clear();
  const Function* mf = Mod->getFunction("sv_main"); if (!mf || mf->isDeclaration()) throw EngineError("no sv_main"); S.th[0].mut()->stack.clear(); pushCall(S, *S.th[0].mut(), mf, {}); S.th[0].mut()->st = TS::Start; return S;
}
static std::string js(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

struct GRun { std::vector<int> sched; std::vector<std::string> log; std::string end; };
static GRun guidedRun(const ModelP& m) {
  std::map<std::string, u128> g; for (auto& p : *m) g[M.vars[p.first].name] = p.second; guide = &g; glog.clear(); gSchedTids.clear(); gEnded = false; guidedEnd = "";
  GRun R; bool sa = stopAll; stopAll = false; int lv = curLevel;
  try { explore(bootState()); } catch (Killed&) {}
  R.sched = gSchedTids; R.log = glog; R.end = guidedEnd; guide = nullptr; gEnded = false; stopAll = sa; curLevel = lv; return R;
}
static void dumpRun(std::ostream& o, const GRun& r, const std::string& expect) {
  o << "EXPECT " << expect << "\nSCHED"; for (int t : r.sched) o << " " << t; o << "\n"; for (auto& l : r.log) o << l << "\n"; o << "END " << r.end << "\n";
}
static void addRtPoints(const std::string& outbc); static void prep(const std::string& outbc);

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now(); std::string in, outbc, prepbc;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "arg\n"); exit(2); } return std::string(argv[++i]); };
    if (a == "-v") optVerbose++; else if (a == "--merge-vars") optMergeVars = atoi(nx().c_str()); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--max-levels") optMaxLevels = atoi(nx().c_str()); else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--no-race") optRace = false; else if (a == "--no-leak") optLeak = false; else if (a == "--no-merge") optMerge = false;
    else if (a == "--step-insts") optStepInsts = atoll(nx().c_str()); else if (a == "--max-spin") optMaxSpin = atoi(nx().c_str()); else if (a == "--ignore") optIgnore.push_back(nx()); else if (a == "--out") optOut = nx(); else if (a == "--traces") optTrace = nx(); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--instrument") outbc = nx(); else if (a == "--prep") prepbc = nx(); else if (a == "--max-states") optMaxStates = atoll(nx().c_str()); else if (a == "--seed") optSeed = atoll(nx().c_str()); else in = a; }
  SMDiagnostic err; Mod = parseIRFile(in, err, Ctx); if (!Mod) { err.print("svx", errs()); return 2; } DL = &Mod->getDataLayout();
  if (!outbc.empty()) { addRtPoints(outbc); return 0; } if (!prepbc.empty()) { prep(prepbc); return 0; }
  Z64 = M.mkc(VCW, 0); SV = new Solver; std::string error; int iters = 0;
  for (auto& F : *Mod) for (auto& bb : F) for (auto& I : bb) if (auto* c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "sv_cover_") { if (auto* gv = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts())) if (gv->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) coverDecl.insert(cd->getAsCString().str()); }
  struct rlimit rl = {512u << 20, RLIM_INFINITY}; (void)rl;
  try {
    bool pre = optPreempt < 0 || optPreempt > 1; int realP = optPreempt;
    for (;;) { iters++; optPreempt = pre ? 1 : realP; visChanged = false; nTrans = nStates = nPaths = nMerges = nStutter = nSpinCut = nTerm = nPruned = 0; termSamples.clear(); covers.clear(); viols.clear(); stopAll = false; boundHit = false; maxLevelSeen = 0;
      explore(bootState()); if (optVerbose) fprintf(stderr, "iter %d: states %lu trans %lu visible %zu viol %zu t=%.1f solver %.1f q=%lu\n", iters, nStates, nTrans, visible.size(), viols.size(), elapsed(), SV->time, SV->queries);
      if (stopAll && !visChanged) break; if (!visChanged) { if (!pre) break; pre = false; } } // a violation found while the set of visible locations still grew is searched again, so that its schedule can be replayed
    optPreempt = realP;
  } catch (EngineError& e) { error = e.what(); } catch (Killed&) { error = "killed"; }
  if (optVerbose > 2) for (auto& p : diffStat) fprintf(stderr, "diff %6d %s\n", p.second, p.first.c_str());
  int nTraces = 0; std::vector<std::string> sampleTxt;
  if (error.empty() && !optTrace.empty()) {
    int k = 0; for (auto& v : viols) { if (v.ignored) continue; GRun r; try { r = guidedRun(v.model); } catch (EngineError& e) { error = std::string("guided run: ") + e.what(); break; } std::ofstream o(optTrace + ".viol" + std::to_string(k++)); dumpRun(o, r, v.kind + " @" + v.loc); if (r.end != v.kind + " @" + v.loc) fprintf(stderr, "guided run ended with '%s' instead of '%s @%s'\n", r.end.c_str(), v.kind.c_str(), v.loc.c_str()); break; }
    if (viols.empty() || std::all_of(viols.begin(), viols.end(), [](auto& v) { return v.ignored; })) { size_t n = termSamples.size(); for (int i = 0; i < optSamples && (size_t)i < n; i++) { size_t ix = (size_t)((i * 2654435761ull + optSeed * 40503) % n);
        // randomise: ask the solver for a model of this end state different from earlier ones through random phase on schedule variables
        ModelP m = termSamples[ix]; GRun r; try { r = guidedRun(m); } catch (EngineError& e) { error = std::string("guided run: ") + e.what(); break; } std::ofstream o(optTrace + ".ok" + std::to_string(i)); dumpRun(o, r, "terminated"); if (r.end != "terminated") fprintf(stderr, "guided sample ended with %s\n", r.end.c_str()); nTraces++; } }
  }
  std::ostringstream o; o << "{\"error\":\"" << js(error) << "\",\"iterations\":" << iters << ",\"states\":" << nStates << ",\"transitions\":" << nTrans << ",\"paths\":" << nPaths << ",\"merges\":" << nMerges << ",\"same_states\":" << nDrop << ",\"same_merges\":" << nSame << ",\"merge_vars\":" << mvPool.size() << ",\"eliminated_vars\":" << nElim << ",\"stutter\":" << nStutter << ",\"spin_cut\":" << nSpinCut << ",\"terminal_states\":" << nTerm << ",\"levels\":" << maxLevelSeen << ",\"bound_hit\":" << (boundHit ? "true" : "false")
    << ",\"instructions\":" << nInst << ",\"queries\":" << SV->queries << ",\"sat\":" << SV->satq << ",\"unsat\":" << SV->unsatq << ",\"cached\":" << SV->cached << ",\"solver_s\":" << SV->time << ",\"wall_s\":" << elapsed() << ",\"expr_nodes\":" << M.nodes.size() << ",\"visible\":" << visible.size() << ",\"traces\":" << nTraces << ",\"violations\":[";
  for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; o << (i ? "," : "") << "{\"kind\":\"" << js(v.kind) << "\",\"loc\":\"" << js(v.loc) << "\",\"stack\":\"" << js(v.stack) << "\",\"level\":" << v.level << ",\"tid\":" << v.tid << ",\"ignored\":" << (v.ignored ? "true" : "false") << "}"; }
  o << "],\"covers\":{"; bool f1 = true; for (auto& n : coverDecl) { o << (f1 ? "" : ",") << "\"" << js(n) << "\":" << (covers.count(n) ? covers[n] : 0); f1 = false; } o << "},\"functions\":["; f1 = true; for (auto& n : repoFns) { o << (f1 ? "" : ",") << "\"" << js(n) << "\""; f1 = false; } o << "]}";
  if (optOut.empty()) { std::string q = o.str(); auto f = q.find(",\"functions\""); std::cout << q.substr(0, f) << "}\n"; } else { std::ofstream f(optOut); f << o.str() << "\n"; }
  fflush(stdout); if (!error.empty()) { fprintf(stderr, "svx error: %s\n", error.c_str()); _exit(2); } bool real = false; for (auto& v : viols) if (!v.ignored) real = true; _exit(real ? 1 : 0);
}

// ---------------------------------------------------------------- instrumentation for native replay
static void addRtPoints(const std::string& outbc) {
  auto* vt = Type::getVoidTy(Ctx); FunctionCallee rt = Mod->getOrInsertFunction("sv_rt_point", FunctionType::get(vt, {PointerType::get(Ctx, 0)}, false));
  for (auto& F : *Mod) { if (F.isDeclaration()) continue; bool model = F.getSection() == "svm"; if (model) F.setSection("");
    std::vector<Instruction*> pts; for (auto& bb : F) for (auto& I : bb) {
      if (auto* L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) pts.push_back(&I); } else if (auto* s = dyn_cast<StoreInst>(&I)) { if (s->isAtomic()) pts.push_back(&I); } else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) pts.push_back(&I);
      else if (auto* ci = dyn_cast<CallInst>(&I)) { if (auto* as = dyn_cast<InlineAsm>(ci->getCalledOperand())) { if (as->getAsmString().find("pause") != std::string::npos || as->getAsmString().find("rep; nop") != std::string::npos) pts.push_back(&I); } else if (auto* cf = ci->getCalledFunction()) if (cf->getIntrinsicID() == Intrinsic::x86_sse2_pause) pts.push_back(&I); } }
    FunctionCallee kill = Mod->getOrInsertFunction("sv_rt_kill", FunctionType::get(vt, {PointerType::get(Ctx, 0), Type::getInt64Ty(Ctx)}, false)); std::vector<IntrinsicInst*> ends; std::vector<CallInst*> ylds;
    for (auto& bb : F) for (auto& I : bb) { if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { if (ii->getIntrinsicID() == Intrinsic::lifetime_end) ends.push_back(ii); } else if (auto* ci = dyn_cast<CallInst>(&I)) if (auto* cf = ci->getCalledFunction()) if (cf->getName() == "sched_yield") ylds.push_back(ci); }
    if (!model) for (auto* e : ends) { auto* al = dyn_cast<AllocaInst>(e->getArgOperand(1)->stripPointerCasts()); if (!al) continue; u64 n = DL->getTypeAllocSize(al->getAllocatedType()); CallInst* c = CallInst::Create(kill, {al, ConstantInt::get(Type::getInt64Ty(Ctx), n)}, "", e); c->setDoesNotThrow(); if (F.getSubprogram()) c->setDebugLoc(e->getDebugLoc()); }
    FunctionCallee yf = Mod->getOrInsertFunction("sv_yield", FunctionType::get(vt, {}, false));
    for (auto* y : ylds) { CallInst* c = CallInst::Create(yf, {}, "", y); if (F.getSubprogram()) c->setDebugLoc(y->getDebugLoc()); if (!y->use_empty()) y->replaceAllUsesWith(ConstantInt::get(y->getType(), 0)); y->eraseFromParent(); }
    for (auto* I : pts) { Value* p = ConstantPointerNull::get(PointerType::get(Ctx, 0)); CallInst* c = CallInst::Create(rt, {p}, "", I); c->setDoesNotThrow(); if (F.getSubprogram()) c->setDebugLoc(I->getDebugLoc()); }
    if (!model) { F.addFnAttr(Attribute::SanitizeAddress); F.addFnAttr(Attribute::SanitizeThread); } }
  std::error_code ec; raw_fd_ostream os(outbc, ec); WriteBitcodeToFile(*Mod, os);
}

// the back-off of stop_token's spin lock is a scheduling hint: its pause counter would only multiply states, so it becomes a plain yield
static void prep(const std::string& outbc) {
  // thread-local variables used directly (the guarded initialisation of function-local ones): go through the intrinsic, which the engine resolves per thread
  { std::vector<Constant*> tl; for (auto& g : Mod->globals()) if (g.isThreadLocal()) tl.push_back(&g);
    if (!tl.empty()) { convertUsersOfConstantsToInstructions(tl);
      for (auto* c : tl) { auto* g = cast<GlobalVariable>(c); std::vector<Use*> us; for (auto& u : g->uses()) us.push_back(&u);
        for (auto* u : us) { auto* I = dyn_cast<Instruction>(u->getUser()); if (!I) continue; if (auto* ii = dyn_cast<IntrinsicInst>(I)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
          Instruction* at = I; if (auto* ph = dyn_cast<PHINode>(I)) at = ph->getIncomingBlock(*u)->getTerminator();
          auto* ci = CallInst::Create(Intrinsic::getDeclaration(Mod.get(), Intrinsic::threadlocal_address, {g->getType()}), {g}, "", at); ci->setDebugLoc(at->getDebugLoc()); u->set(ci); } } } }
  auto* vt = Type::getVoidTy(Ctx); FunctionCallee yf = Mod->getOrInsertFunction("sv_yield", FunctionType::get(vt, {}, false));
  for (auto& F : *Mod) { if (F.isDeclaration() || F.getReturnType() != vt) continue; std::string n = demangle(F.getName().str()); if (n.find("__spin_wait::__wait(") == std::string::npos) continue;
    auto lk = F.getLinkage(); auto* cd = F.getComdat(); F.setSubprogram(nullptr); F.deleteBody(); F.setLinkage(lk); F.setComdat(cd); auto* bb = BasicBlock::Create(Ctx, "e", &F); CallInst::Create(yf, {}, "", bb)->setDoesNotThrow(); ReturnInst::Create(Ctx, bb); }
  std::error_code ec; raw_fd_ostream os(outbc, ec); WriteBitcodeToFile(*Mod, os);
}
