// svx: symbolic execution of LLVM IR with symbolic schedules and state merging.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <stdexcept>
#include <unordered_set>

template <class T> struct Rc { // non-atomic intrusive pointer
  T* p = nullptr;
  Rc() = default; explicit Rc(T* q) : p(q) { if (p) p->rc++; }
  Rc(const Rc& o) : p(o.p) { if (p) p->rc++; }
  Rc(Rc&& o) noexcept : p(o.p) { o.p = nullptr; }
  Rc& operator=(Rc o) noexcept { std::swap(p, o.p); return *this; }
  ~Rc() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
  T* mut() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
  bool operator==(const Rc& o) const { return p == o.p; }
};
struct RcBase { unsigned rc = 0; RcBase() = default; RcBase(const RcBase&) : rc(0) {} RcBase& operator=(const RcBase&) { return *this; } };

constexpr int MAXT = 6;   // threads
constexpr unsigned VCW = 64;

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Cell { uint32_t off, len; Ex v; };
enum class Fill : uint8_t { Undef, Zero };
struct Shadow { uint32_t off, len; Ex pw[MAXT], pr[MAXT], aw[MAXT], ar[MAXT]; };   // epochs as thermometer bit-vectors (null = 0)
struct RelVC { uint32_t off; Ex v[MAXT]; };
struct Obj : RcBase {
  int id = 0;
  std::vector<Cell> cells; Fill fill = Fill::Undef; Ex alive = nullptr;
  Ex last[MAXT] = {};               // last access epoch per thread
  std::vector<Shadow> sh; std::vector<RelVC> rel;
  const std::vector<unsigned>* vs = nullptr;   // cached set of variables in the contents
  u64 ep[MAXT]; bool epOk = false, epBad = false, chOk = false; u64 ch[2]; int rm[MAXT];         // cached set of access epochs
};
enum class AK : uint8_t { Global, Heap, Stack, Func, Tls };
struct SvAlloc { u64 base, size; AK kind; u64 align = 0; bool isConst = false; bool noleak = false; const llvm::GlobalValue* gv = nullptr; const llvm::Function* fn = nullptr; std::string name; int owner = 0; };

struct Oprnd { int slot; Ex c; };
struct DI {
  const llvm::Instruction* I; unsigned opc; int dst; unsigned w; std::vector<Oprnd> ops;
  const llvm::Function* callee = nullptr; int prim = 0; bool musttail = false; bool nounwind = false;
  int t0 = -1, t1 = -1;                 // successors (block idx)
  bool pos = false;
};
struct FnInfo {
  const llvm::Function* F; std::vector<DI> insts; std::vector<int> bbStart; std::vector<int> instBB; int nslots = 0; int nargs = 0;
  llvm::DenseMap<const llvm::Value*, int> slot; llvm::DenseMap<const llvm::BasicBlock*, int> bbIdx;
  std::vector<std::vector<u64>> liveIn; bool liveDone = false; std::unordered_map<int, std::vector<u64>> liveCache;
  std::vector<std::vector<std::pair<int, std::vector<std::pair<int, Oprnd>>>>> phis; // per bb: (pred, [(dst, op)])
  std::vector<int> firstNonPhi; bool model = false; bool nounwind = false; bool inRepo = false; u64 id;
};
struct Frame : RcBase {
  FnInfo* fn; int pc = 0; int prevBB = -1; std::vector<Ex> regs; std::vector<int> allocas; u64 ctx = 0;
};
enum class TS : uint8_t { Start, Run, Done };
struct Thread : RcBase {
  TS st = TS::Start; std::vector<Rc<Frame>> stack; int spin = 0; bool blockedYield = false; int nd = 0; int ncreate = 0; int atomicDepth = 0;
  Ex vc[MAXT] = {}; Ex acqF[MAXT] = {}; Ex relF[MAXT] = {};
  Ex excPtr = nullptr;
  u64 opcount = 0;
  std::vector<u64> rd; u64 ysig = 0;    // spinning: locations read since the last yield; position and registers at that yield
};
struct Wit : RcBase { int var = -1; Rc<Wit> a, b; std::vector<std::pair<unsigned, u128>> asg; };   // witness chain for eliminated variables (newest first)
struct Pending { Ex cond; std::string kind, loc; };
struct EvalModel { ModelP m; std::unique_ptr<Evaluator> ev; explicit EvalModel(ModelP mm) : m(mm), ev(new Evaluator(*m)) {} };
struct OccMap : RcBase { std::map<u64, int> m; };
struct State {
  std::vector<Rc<Thread>> th; std::vector<Rc<Obj>> mem; Ex pc; std::shared_ptr<EvalModel> model;
  Rc<Wit> wit; std::vector<Pending> pend; Rc<OccMap> occ; int last = 0; int preempt = 0; int cur = 0;
  bool wrote = false; // performed a write visible to others in this step
  bool wroteAll = false, changed = false; std::vector<u64> sr, sw;   // locations read / written in this step (atomics and model code)
  bool first = false; std::set<size_t> mvs;
};
