// wsym: a path-forking symbolic executor for LLVM bitcode with Z3 as the decision procedure.
#include <cmath>
#include "expr.h"
#include "solver.h"

#include <llvm/ADT/StringRef.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

// ---------------------------------------------------------------- values
struct Val {
  E e = nullptr;   // symbolic (or wide / aggregate); null => concrete c
  uint64_t c = 0;
};
static inline Val cv(uint64_t x) { Val v; v.c = x; return v; }
static inline Val evl(E e) {
  Val v;
  if (e->op == O_CONST && e->w <= 64) { v.c = (uint64_t)e->c; return v; }
  v.e = e; return v;
}
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct EngineError { std::string msg; };
[[noreturn]] static void engErr(const std::string& m) { throw EngineError{m}; }

// ---------------------------------------------------------------- options
static std::string optOut = "wsym.json", optCexDir = ".", optEntry = "main", optHarness;
static double optMaxTime = 600;
static uint64_t optMaxPaths = ~0ull, optMaxInstrPerPath = 20000000ull;
static unsigned optSolverTimeout = 60000;
static int optMaxViol = 8;
static bool optVerbose = false, optRace = true, optTrace = false, optForkSel = false;
static std::vector<std::string> optArgs;
static unsigned optCrossEvery = 0;
static unsigned optMaxCand = 300;

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_NONE, K_HEAP, K_STACK, K_GLOBAL, K_FUNC, K_RO };
struct Epoch { uint16_t t = 0; uint32_t c = 0; };
struct ShadowCell { Epoch w; std::vector<Epoch> r; };
struct Content {
  std::vector<uint8_t> b;
  std::vector<E> s;
  std::vector<ShadowCell> sh;
};
struct Obj {
  uint64_t base = 0, size = 0;
  Kind kind = K_NONE;
  bool freed = false;
  bool atomicOnly = false;
  std::shared_ptr<Content> c;
  const Value* site = nullptr;
};
struct ObjPage { Obj o[32]; };
static const uint64_t kOff = 0x40000000ull;

struct Memory {
  std::vector<std::shared_ptr<ObjPage>> pages;
  uint32_t next = 0;
  std::vector<uint32_t> freeStack;
  const Obj* get(uint32_t id) const {
    uint32_t p = id >> 5;
    if (p >= pages.size() || !pages[p]) return nullptr;
    const Obj* o = &pages[p]->o[id & 31];
    return o->kind == K_NONE ? nullptr : o;
  }
  Obj* getW(uint32_t id) {
    uint32_t p = id >> 5;
    if (pages[p].use_count() > 1) pages[p] = std::make_shared<ObjPage>(*pages[p]);
    return &pages[p]->o[id & 31];
  }
  Content* contentW(uint32_t id) {
    Obj* o = getW(id);
    if (o->c.use_count() > 1) o->c = std::make_shared<Content>(*o->c);
    return o->c.get();
  }
  static uint32_t idOf(uint64_t a) { return (uint32_t)(a >> 32) - 16; }
  uint64_t alloc(uint64_t size, Kind k, uint8_t fill, const Value* site, uint64_t align = 16) {
    if (size > (1u << 28)) engErr("allocation too large: " + std::to_string(size));
    uint32_t id;
    if (k == K_STACK && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
    else id = next++;
    uint32_t p = id >> 5;
    if (p >= pages.size()) pages.resize(p + 1);
    if (!pages[p]) pages[p] = std::make_shared<ObjPage>();
    Obj* o = getW(id);
    o->base = ((uint64_t)(id + 16) << 32) + kOff + (align <= 16 ? 16 : 0);
    o->size = size; o->kind = k; o->freed = false; o->site = site;
    o->c = std::make_shared<Content>();
    o->c->b.assign(size, fill);
    return o->base;
  }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int reg = -1; Val v; };
struct GepTerm { Opnd o; unsigned w; int64_t scale; };
struct DBlock;
struct DInst {
  const Instruction* I;
  unsigned op;
  int dst = -1;
  unsigned w = 0;      // result / operand width
  unsigned w2 = 0;     // source width
  std::vector<Opnd> ops;
  std::vector<GepTerm> gep;
  int64_t goff = 0;
  DBlock* s0 = nullptr; DBlock* s1 = nullptr;
  std::vector<std::pair<Val, DBlock*>> cases;
  const Function* callee = nullptr;
  uint64_t sz = 0;
};
struct DPhi { int dst; std::vector<std::pair<const BasicBlock*, Opnd>> in; };
struct DBlock {
  const BasicBlock* bb;
  std::vector<DPhi> phis;
  std::vector<DInst> insts;
  mutable bool seen = false;
};
struct DFunc {
  const Function* F;
  unsigned nregs = 0;
  std::unordered_map<const BasicBlock*, std::unique_ptr<DBlock>> blocks;
  DBlock* entry = nullptr;
  mutable uint64_t calls = 0;
};

// ---------------------------------------------------------------- state
struct Frame {
  const DFunc* f = nullptr;
  const DBlock* b = nullptr;
  uint32_t ip = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  std::vector<Val> va;          // variadic arguments
  std::vector<unsigned> vaW;
};
typedef std::vector<uint32_t> VC;
struct Exc { uint64_t obj, ti; };
struct Thread {
  std::vector<std::shared_ptr<Frame>> stk;
  std::vector<uint64_t> caught;
  std::map<const GlobalVariable*, uint64_t> tls;
  bool done = false;
  VC vc;
};
struct SymRec { std::string name; unsigned w; uint32_t var; };
struct State {
  Memory mem;
  std::vector<Thread> th;
  uint32_t cur = 0;
  std::vector<E> pc;
  std::unordered_map<uint32_t, bool> known;
  std::unordered_map<uint32_t, u128> eqc;
  Model model;
  std::vector<SymRec> syms;
  std::vector<Exc> excs;
  std::map<uint64_t, VC> syncVC;
  uint64_t instrs = 0;
  uint32_t concretized = 0;
  bool dead = false, completed = false;
  Frame& top() {
    auto& s = th[cur].stk;
    if (s.back().use_count() > 1) s.back() = std::make_shared<Frame>(*s.back());
    return *s.back();
  }
};

// ---------------------------------------------------------------- engine
struct Violation { std::string kind, msg, loc, cex; std::vector<std::string> stack; };
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unique_ptr<Solver> S;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function*> faddr;
static std::vector<const GlobalVariable*> tlsVars;
static std::unordered_map<const Function*, std::unique_ptr<DFunc>> dfuncs;
static std::vector<std::unique_ptr<State>> work;
static std::vector<Violation> viols;
static std::set<std::string> violKeys;
static std::map<std::string, uint64_t> covers;
static std::map<std::pair<uint32_t, unsigned>, uint32_t> varIds;
static uint32_t nextVar = 0;
static uint64_t stInstr = 0, stForks = 0, stPaths = 0, stPathsDone = 0, stAssumeKilled = 0, stAsserts = 0, stAssertsConc = 0, stViolPaths = 0, stInfeasible = 0, stChecksMem = 0;
static bool gUnknown = false, gIncomplete = false;
static std::string gIncompleteWhy;
static std::vector<std::string> gSamples, gTraces;
static int optTraceSamples = 0;
static uint64_t gNextTrace = 1;
static auto tStart = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

struct PathEnd {};            // thrown to stop executing the current state

static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isHalfTy()) return 16;
  return 0;
}

// ---- constants
static uint64_t funcAddr(const Function* f);
static uint64_t initAddr(const GlobalValue* g);
static Memory* gInitMem = nullptr;

static Val evalConst(const Constant* c);
static E evalConstE(const Constant* c, unsigned w) { Val v = evalConst(c); return toE(v, w); }

static int64_t gepConst(const GEPOperator* g, std::function<int64_t(const Value*)> iv) {
  int64_t off = 0;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    if (StructType* st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
    } else {
      off += iv(it.getOperand()) * (int64_t)DL->getTypeAllocSize(it.getIndexedType());
    }
  }
  return off;
}

static Val evalConst(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return cv(ci->getZExtValue());
    APInt a = ci->getValue();
    u128 x = a.getRawData()[0];
    if (a.getNumWords() > 1) x |= (u128)a.getRawData()[1] << 64;
    return evl(mkConst(x, w));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (!c->getType()->isDoubleTy() && !c->getType()->isFloatTy()) return cv(0);
    return cv(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type* t = c->getType();
    unsigned w = widthOf(t);
    if (w) return cv(0);
    std::vector<E> v;
    unsigned n = 0;
    if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
    else if (auto* at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
    else return cv(0);
    for (unsigned i = 0; i < n; i++) {
      Constant* el = c->getAggregateElement(i);
      v.push_back(evalConstE(el, widthOf(el->getType())));
    }
    Val r; r.e = mkAgg(v); return r;
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    std::vector<E> v;
    for (unsigned i = 0; Constant* el = c->getAggregateElement(i); i++)
      v.push_back(evalConstE(el, widthOf(el->getType())));
    Val r; r.e = mkAgg(v); return r;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* al = dyn_cast<GlobalAlias>(g)) return evalConst(al->getAliasee());
    return cv(initAddr(g));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = evalConst(ce->getOperand(0));
        int64_t off = gepConst(cast<GEPOperator>(ce), [](const Value* v) {
          return (int64_t)cast<ConstantInt>(v)->getSExtValue(); });
        return cv(b.c + off);
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        Val v = evalConst(ce->getOperand(0));
        v.c &= m64(widthOf(ce->getType()));
        return v; }
      case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); v.c &= m64(widthOf(ce->getType())); return v; }
      case Instruction::Add: return cv((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & m64(widthOf(ce->getType())));
      case Instruction::Sub: return cv((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & m64(widthOf(ce->getType())));
      case Instruction::Xor: return cv(evalConst(ce->getOperand(0)).c ^ evalConst(ce->getOperand(1)).c);
      case Instruction::ICmp: {
        uint64_t a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
        switch (cast<ConstantExpr>(ce)->getPredicate()) {
          case CmpInst::ICMP_EQ: return cv(a == b);
          case CmpInst::ICMP_NE: return cv(a != b);
          default: break;
        }
        break;
      }
      default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os);
    engErr("constant expr: " + os.str());
  }
  if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return evalConst(d->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os);
  engErr("constant: " + os.str());
}

static void writeConst(std::vector<uint8_t>& buf, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      writeConst(buf, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
      StringRef r = cds->getRawDataValues();
      memcpy(&buf[off], r.data(), r.size());
      return;
    }
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; Constant* el = c->getAggregateElement(i); i++) writeConst(buf, off + i * es, el);
    return;
  }
  if (t->isX86_FP80Ty()) {
    APInt a = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt();
    memcpy(&buf[off], a.getRawData(), 10);
    return;
  }
  unsigned w = widthOf(t);
  E e = evalConstE(c, w);
  for (unsigned i = 0; i < (w + 7) / 8; i++) buf[off + i] = (uint8_t)(e->c >> (8 * i));
}

static uint64_t initAddr(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  engErr("no address for global " + g->getName().str());
}

// ---- decoding
static DFunc* decode(const Function* F) {
  auto& slot = dfuncs[F];
  if (slot) return slot.get();
  slot = std::make_unique<DFunc>();
  DFunc* d = slot.get();
  d->F = F;
  std::unordered_map<const Value*, int> reg;
  int n = 0;
  for (auto& a : F->args()) reg[&a] = n++;
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++;
  d->nregs = n;
  for (auto& bb : *F) { auto b = std::make_unique<DBlock>(); b->bb = &bb; d->blocks[&bb] = std::move(b); }
  d->entry = d->blocks[&F->getEntryBlock()].get();
  auto opn = [&](const Value* v) {
    Opnd o;
    auto it = reg.find(v);
    if (it != reg.end()) { o.reg = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) {
      if (isa<GlobalVariable>(c) && cast<GlobalVariable>(c)->isThreadLocal()) { o.reg = -2; return o; }
      o.v = evalConst(c); return o; }
    o.reg = -3;  // metadata, asm, blocks
    return o;
  };
  for (auto& bb : *F) {
    DBlock* db = d->blocks[&bb].get();
    for (auto& I : bb) {
      if (auto* p = dyn_cast<PHINode>(&I)) {
        DPhi ph; ph.dst = reg[p];
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
          ph.in.push_back({p->getIncomingBlock(i), opn(p->getIncomingValue(i))});
        db->phis.push_back(std::move(ph));
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch)
          continue;
      }
      DInst di; di.I = &I; di.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) { di.dst = reg[&I]; di.w = widthOf(I.getType()); }
      switch (di.op) {
        case Instruction::GetElementPtr: {
          auto* g = cast<GetElementPtrInst>(&I);
          di.ops.push_back(opn(g->getPointerOperand()));
          if (g->getType()->isVectorTy()) engErr("vector gep");
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            if (StructType* st = it.getStructTypeOrNull()) {
              di.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
            } else {
              int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(it.getOperand())) di.goff += ci->getSExtValue() * sc;
              else di.gep.push_back({opn(it.getOperand()), widthOf(it.getOperand()->getType()), sc});
            }
          }
          break;
        }
        case Instruction::Br: {
          auto* b = cast<BranchInst>(&I);
          di.s0 = d->blocks[b->getSuccessor(0)].get();
          if (b->isConditional()) { di.ops.push_back(opn(b->getCondition())); di.s1 = d->blocks[b->getSuccessor(1)].get(); }
          break;
        }
        case Instruction::Switch: {
          auto* s = cast<SwitchInst>(&I);
          di.ops.push_back(opn(s->getCondition()));
          di.w = widthOf(s->getCondition()->getType());
          di.s0 = d->blocks[s->getDefaultDest()].get();
          for (auto c : s->cases()) di.cases.push_back({evalConst(c.getCaseValue()), d->blocks[c.getCaseSuccessor()].get()});
          break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto* cb = cast<CallBase>(&I);
          for (auto& a : cb->args()) di.ops.push_back(a->getType()->isMetadataTy() ? Opnd() : opn(a.get()));
          const Value* cval = cb->getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cval)) cval = al->getAliaseeObject();
          di.callee = dyn_cast<Function>(cval);
          if (!di.callee && !isa<InlineAsm>(cval)) di.ops.push_back(opn(cb->getCalledOperand()));
          if (auto* iv = dyn_cast<InvokeInst>(&I)) {
            di.s0 = d->blocks[iv->getNormalDest()].get();
            di.s1 = d->blocks[iv->getUnwindDest()].get();
          }
          break;
        }
        case Instruction::Alloca: {
          auto* a = cast<AllocaInst>(&I);
          di.sz = DL->getTypeAllocSize(a->getAllocatedType());
          di.ops.push_back(opn(a->getArraySize()));
          break;
        }
        case Instruction::Load: di.ops.push_back(opn(I.getOperand(0))); di.sz = DL->getTypeStoreSize(I.getType()); break;
        case Instruction::Store:
          di.ops.push_back(opn(I.getOperand(0))); di.ops.push_back(opn(I.getOperand(1)));
          di.w = widthOf(I.getOperand(0)->getType()); di.sz = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
        default:
          for (auto& o : I.operands()) { if (isa<BasicBlock>(o.get())) continue; di.ops.push_back(opn(o.get())); }
          if (I.getNumOperands()) di.w2 = widthOf(I.getOperand(0)->getType());
      }
      // thread local operands used directly
      for (auto& o : di.ops) if (o.reg == -2) engErr("direct TLS operand in " + F->getName().str());
      db->insts.push_back(std::move(di));
    }
  }
  return d;
}

// ---- locations
static std::string locOf(const Instruction* I, bool full = false) {
  if (!I) return "?";
  const DebugLoc& dl = I->getDebugLoc();
  std::string fn = demangle(I->getFunction()->getName().str());
  if (fn.size() > 160) fn = fn.substr(0, 160) + "...";
  if (!dl) return fn;
  auto* sc = cast<DIScope>(dl.getScope());
  std::string s = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
  if (full) {
    const DILocation* l = dl.get();
    while ((l = l->getInlinedAt())) s += " <- " + cast<DIScope>(l->getScope())->getFilename().str() + ":" + std::to_string(l->getLine());
  }
  return s + " (" + fn + ")";
}
static std::vector<std::string> stackOf(State& s, int t = -1) {
  std::vector<std::string> r;
  auto& st = s.th[t < 0 ? s.cur : t].stk;
  for (size_t i = st.size(); i-- > 0;) {
    auto& f = *st[i];
    const Instruction* I = f.ip < f.b->insts.size() ? f.b->insts[f.ip].I : nullptr;
    r.push_back(locOf(I, true));
  }
  return r;
}

// ---- violation reporting
static std::string hexs(u128 v, unsigned w) {
  char b[64];
  if (w > 64) snprintf(b, 64, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, 64, "%llx", (unsigned long long)v);
  return b;
}
static void writeCex(const State& s, const Model& m, const std::string& fn, const std::string& head) {
  std::ofstream f(fn);
  std::string h = head; for (auto& ch : h) if (ch == '\n') ch = ' ';
  f << "# " << h << "\n";
  for (auto& r : s.syms) f << r.name << " " << r.w << " " << hexs(m.get(r.var) & maskw(r.w), r.w) << "\n";
}
static void report(State& s, const Model& m, const std::string& kind, const std::string& msg) {
  auto st = stackOf(s);
  if (kind == "deadlock") for (size_t t = 0; t < s.th.size(); t++) if ((int)t != (int)s.cur && !s.th[t].stk.empty()) { st.push_back("-- thread " + std::to_string(t)); for (auto& x : stackOf(s, (int)t)) st.push_back(x); }
  std::string loc = st.empty() ? "?" : st[0];
  // choose the innermost frame in /repo or a harness for the key
  std::string keyLoc = loc;
  for (auto& x : st) if (x.find("/repo/") != std::string::npos || x.find("wdt/") != std::string::npos || x.find("harness") != std::string::npos) { keyLoc = x; break; }
  std::string m2 = msg;
  if (kind != "assert") { std::string t; for (char c : m2) if (c < '0' || c > '9') t += c; m2 = t; }
  std::string key = kind + "|" + m2 + "|" + (kind == "assert" || kind == "deadlock" ? std::string() : keyLoc);
  if (!violKeys.insert(key).second) return;
  if ((int)viols.size() >= optMaxViol) return;
  Violation v; v.kind = kind; v.msg = msg; v.loc = keyLoc; v.stack = st;
  v.cex = optCexDir + "/" + optHarness + ".v" + std::to_string(viols.size()) + ".cex";
  writeCex(s, m, v.cex, kind + ": " + msg + " at " + keyLoc);
  viols.push_back(v);
  if (optVerbose) { fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), keyLoc.c_str()); for (auto& x : st) fprintf(stderr, "    %s\n", x.c_str()); }
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) {
  report(s, s.model, kind, msg);
  stViolPaths++;
  s.dead = true;
  throw PathEnd();
}

// ---- constraints and decisions
static void addC(State& s, E c) {
  if (isC(c)) return;
  s.known[c->id] = true;
  if (c->w == 1 && c->op == O_XOR && isC(c->k[1])) s.known[c->k[0]->id] = false;
  if (c->op == O_AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  if (c->op == O_XOR && isC(c->k[1]) && c->k[0]->op == O_OR) { addC(s, mkNot(c->k[0]->k[0])); addC(s, mkNot(c->k[0]->k[1])); return; }
  if (c->op == O_EQ && isC(c->k[1])) s.eqc[c->k[0]->id] = c->k[1]->c;
  s.pc.push_back(c);
}
static E substEq(State& s, E e) {
  if (s.eqc.empty()) return e;
  auto it = s.eqc.find(e->id);
  if (it != s.eqc.end()) return mkConst(it->second, e->w);
  return e;
}
static std::map<std::string, long>* gForkProf; // with WSYM_FORKS set: where paths split
// Is c decided?  Forks when both outcomes are possible; the forked state re-executes.
static bool decide(State& s, E c, bool noFork = false) {
  if (isC(c)) return c->c;
  auto k = s.known.find(c->id);
  if (k != s.known.end()) return k->second;
  E nc = mkNot(c);
  bool mv = evalExpr(c, s.model);
  E q = mv ? nc : c;
  Model m2;
  SatRes r = S->check(s.pc, q, s.model, m2);
  if (r == R_UNKNOWN) { gUnknown = true; gIncompleteWhy = "solver unknown at " + (s.th[s.cur].stk.empty() ? std::string() : stackOf(s)[0]); r = R_UNSAT; }
  if (r == R_UNSAT) { s.known[c->id] = mv; s.known[nc->id] = !mv; return mv; }
  auto o = std::make_unique<State>(s);
  stForks++;
  if (gForkProf) { auto st = stackOf(s); std::string k; for (size_t i = 0; i < st.size() && i < 4; i++) k += st[i].substr(0, 110) + " < "; (*gForkProf)[k]++; }
  addC(*o, q);
  o->model = m2;
  work.push_back(std::move(o));
  addC(s, mv ? c : nc);
  return mv;
}
static uint64_t concretize(State& s, E e, const char* what) {
  if (isC(e)) return (uint64_t)e->c;
  auto it = s.eqc.find(e->id);
  if (it != s.eqc.end()) return (uint64_t)it->second;
  u128 v = evalExpr(e, s.model);
  E q = mkBin(O_EQ, e, mkConst(v, e->w));
  if (++s.concretized > 20000) engErr(std::string("too many concretizations: ") + what + " at " + stackOf(s)[0]);
  decide(s, q);  // model satisfies q, so current state takes q
  s.eqc[e->id] = v;
  return (uint64_t)v;
}
static uint64_t conc(State& s, const Val& v, const char* what) {
  if (!v.e) return v.c;
  return concretize(s, v.e, what);
}

// ---- memory access
static std::string addrInfo(State& s, uint64_t a, uint64_t n) {
  const Obj* o = a < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(a));
  char b[256];
  if (!o) { snprintf(b, 256, "address 0x%llx size %llu: no object", (unsigned long long)a, (unsigned long long)n); return b; }
  snprintf(b, 256, "offset %lld size %llu in %s object of size %llu%s", (long long)(a - o->base), (unsigned long long)n,
           o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : o->kind == K_FUNC ? "function" : "global", (unsigned long long)o->size, o->freed ? " (freed)" : "");
  return b;
}
static bool inBounds(const Obj* o, uint64_t a, uint64_t n) {
  return a >= o->base && n <= o->size && a - o->base <= o->size - n;
}
static const Obj* resolveConc(State& s, uint64_t a, uint64_t n, bool write) {
  stChecksMem++;
  const Obj* o = a < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(a));
  if (!o || o->freed || !inBounds(o, a, n) || o->kind == K_FUNC || (write && o->kind == K_RO)) {
    std::string cls = !o ? (a < 4096 ? "null-deref" : "wild-pointer") : o->freed ? "use-after-free" : (write && o->kind == K_RO) ? "write-readonly" : write ? "oob-write" : "oob-read";
    fail(s, "memory", cls + ": " + addrInfo(s, a, n));
  }
  return o;
}
// race detection (happens-before, vector clocks)
static bool vcLeq(const Epoch& e, const VC& v) { return e.c == 0 || (e.t < v.size() && e.c <= v[e.t]); }
// runtime models and harnesses (whose variables are not the program's)
static bool isModelCode(const Instruction* I) {
  static std::unordered_map<const Instruction*, bool> cache;
  auto it = cache.find(I);
  if (it != cache.end()) return it->second;
  const DIScope* sc = nullptr;
  if (I->getDebugLoc()) sc = cast<DIScope>(I->getDebugLoc().getScope());
  else if (auto* sp = I->getFunction()->getSubprogram()) sc = sp;
  bool m = I->getFunction()->getName().starts_with("__model_");
  if (sc) {
    std::string f = sc->getFilename().str();
    if (f.empty() || f[0] != '/') f = sc->getDirectory().str() + "/" + f;
    if (f.find("/inc/wdt/") == std::string::npos && (f.find("/harness/") != std::string::npos || f.find("/rt/") != std::string::npos)) m = true;
  }
  return cache[I] = m;
}
static void raceCheck(State& s, const Obj* o, uint64_t off, uint64_t n, bool write) {
  if (!optRace || s.th.size() < 2 || o->kind == K_RO) return;
  if (s.th[s.cur].vc.empty()) return;
  // ignore runtime-model code
  const Instruction* I = nullptr;
  { auto& f = *s.th[s.cur].stk.back(); if (f.ip < f.b->insts.size()) I = f.b->insts[f.ip].I; }
  if (I && isModelCode(I)) return;
  VC& vc = s.th[s.cur].vc;
  Content* c = s.mem.contentW(Memory::idOf(o->base));
  if (c->sh.size() < o->size) c->sh.resize(o->size);
  Epoch me; me.t = s.cur; me.c = vc[s.cur];
  for (uint64_t i = off; i < off + n; i++) {
    ShadowCell& sc = c->sh[i];
    if (sc.w.t != me.t && !vcLeq(sc.w, vc)) fail(s, "race", std::string(write ? "write" : "read") + " races with write");
    if (write) {
      for (auto& r : sc.r) if (r.t != me.t && !vcLeq(r, vc)) fail(s, "race", "write races with read");
      sc.w = me; sc.r.clear();
    } else {
      bool f = false;
      for (auto& r : sc.r) if (r.t == me.t) { r.c = me.c; f = true; }
      if (!f) sc.r.push_back(me);
    }
  }
}

static E byteAt(const Content* c, uint64_t i) {
  if (!c->s.empty() && c->s[i]) return c->s[i];
  return mkConst(c->b[i], 8);
}
static Val loadObj(const Obj* o, uint64_t off, unsigned nbytes, unsigned w) {
  const Content* c = o->c.get();
  bool sym = false;
  if (!c->s.empty()) for (unsigned i = 0; i < nbytes; i++) if (c->s[off + i]) { sym = true; break; }
  if (!sym && w <= 64) {
    uint64_t x = 0;
    memcpy(&x, &c->b[off], nbytes);
    return cv(x & m64(w));
  }
  E r = byteAt(c, off);
  for (unsigned i = 1; i < nbytes; i++) r = mkConcat(byteAt(c, off + i), r);
  if (r->w != w) r = mkExtract(r, 0, w);
  else if (r->op == O_EXTRACT) r = mkExtract(r->k[0], r->aux, w);
  return evl(r);
}
static void storeByte(Content* c, uint64_t i, E e) {
  if (isC(e)) { c->b[i] = (uint8_t)e->c; if (!c->s.empty()) c->s[i] = nullptr; return; }
  if (c->s.empty()) c->s.assign(c->b.size(), nullptr);
  c->s[i] = e;
}
static void storeObj(State& s, const Obj* o, uint64_t off, unsigned nbytes, const Val& v, unsigned w) {
  Content* c = s.mem.contentW(Memory::idOf(o->base));
  if (!v.e) {
    memcpy(&c->b[off], &v.c, nbytes > 8 ? 8 : nbytes);
    if (nbytes > 8) memset(&c->b[off + 8], 0, nbytes - 8);
    if (!c->s.empty()) for (unsigned i = 0; i < nbytes; i++) c->s[off + i] = nullptr;
    return;
  }
  E e = v.e;
  if (e->w != nbytes * 8) e = mkZExt(e, nbytes * 8);
  for (unsigned i = 0; i < nbytes; i++) storeByte(c, off + i, mkExtractByte(e, 8 * i));
}

// make a symbolic address point inside one object (forks if it may point elsewhere);
// returns object; off is symbolic or concrete.
static const Obj* resolveSym(State& s, E a, uint64_t n, bool write, Val& off) {
  a = substEq(s, a);
  if (isC(a)) { const Obj* o = resolveConc(s, (uint64_t)a->c, n, write); off = cv((uint64_t)a->c - o->base); return o; }
  if (a->op == O_ITE) {
    bool t = decide(s, a->k[0]);
    return resolveSym(s, t ? a->k[1] : a->k[2], n, write, off);
  }
  uint64_t v = (uint64_t)evalExpr(a, s.model);
  const Obj* o = v < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(v));
  if (!o || o->freed || !inBounds(o, v, n) || o->kind == K_FUNC || (write && o->kind == K_RO)) {
    resolveConc(s, v, n, write);  // reports
  }
  E eo = mkBin(O_SUB, a, mkConst(o->base, 64));
  if (o->size < n) fail(s, "memory", "access larger than object");
  E in = mkNot(mkBin(O_ULT, mkConst(o->size - n, 64), eo));
  decide(s, in);  // model value is inside, current state continues inside
  off = evl(substEq(s, eo));
  return o;
}
// candidate offsets of a symbolic in-bounds offset
static bool candidates(State& s, E off, uint64_t maxOff, std::vector<uint64_t>& out, unsigned limit) {
  std::vector<E> cs = s.pc;
  Model m = s.model;
  for (;;) {
    uint64_t v = (uint64_t)evalExpr(off, m);
    out.push_back(v);
    if (out.size() > limit) return false;
    cs.push_back(mkNot(mkBin(O_EQ, off, mkConst(v, 64))));
    E q = cs.back(); cs.pop_back();
    Model m2;
    SatRes r = S->check(cs, q, m, m2);
    if (r == R_UNKNOWN) { gUnknown = true; return false; }
    if (r == R_UNSAT) break;
    cs.push_back(q);
    m = m2;
  }
  (void)maxOff;
  std::sort(out.begin(), out.end());
  return true;
}

static Val loadMem(State& s, const Val& addr, unsigned nbytes, unsigned w) {
  if (!addr.e) {
    const Obj* o = resolveConc(s, addr.c, nbytes, false);
    if (s.th.size() > 1) { raceCheck(s, o, addr.c - o->base, nbytes, false); o = s.mem.get(Memory::idOf(addr.c)); }
    return loadObj(o, addr.c - o->base, nbytes, w);
  }
  Val off;
  const Obj* o = resolveSym(s, addr.e, nbytes, false, off);
  if (!off.e) return loadObj(o, off.c, nbytes, w);
  std::vector<uint64_t> cand;
  if (!candidates(s, off.e, o->size - nbytes, cand, optMaxCand)) {
    uint64_t x = concretize(s, off.e, "load offset");
    return loadObj(o, x, nbytes, w);
  }
  E r = nullptr;
  for (auto x : cand) {
    E v = toE(loadObj(o, x, nbytes, w), w);
    r = r ? mkIte(mkBin(O_EQ, off.e, mkConst(x, 64)), v, r) : v;
  }
  return evl(r);
}
static void storeMem(State& s, const Val& addr, unsigned nbytes, const Val& v, unsigned w) {
  if (!addr.e) {
    const Obj* o = resolveConc(s, addr.c, nbytes, true);
    if (s.th.size() > 1) { raceCheck(s, o, addr.c - o->base, nbytes, true); o = s.mem.get(Memory::idOf(addr.c)); }
    storeObj(s, o, addr.c - o->base, nbytes, v, w);
    return;
  }
  Val off;
  const Obj* o = resolveSym(s, addr.e, nbytes, true, off);
  uint64_t x = off.e ? concretize(s, off.e, "store offset") : off.c;
  o = s.mem.get(Memory::idOf(o->base));
  storeObj(s, o, x, nbytes, v, w);
}
static E loadByteE(State& s, uint64_t a) {
  const Obj* o = resolveConc(s, a, 1, false);
  return byteAt(o->c.get(), a - o->base);
}
static std::string readCStr(State& s, uint64_t a) {
  std::string r;
  for (;; a++) {
    E e = loadByteE(s, a);
    uint64_t c = concretize(s, e, "cstr");
    if (!c) return r;
    r.push_back((char)c);
    if (r.size() > 65536) engErr("runaway string");
  }
}

// ---------------------------------------------------------------- typed helpers (vectors / aggregates)
static Val getOp(State& s, const Frame& f, const Opnd& o) {
  (void)s;
  if (o.reg >= 0) return f.regs[o.reg];
  return o.v;
}
static Val loadTyped(State& s, const Val& a, Type* t) {
  unsigned w = widthOf(t);
  if (w) return loadMem(s, a, DL->getTypeStoreSize(t), w);
  std::vector<E> v;
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      uint64_t off = sl->getElementOffset(i);
      Val ea = a.e ? evl(mkBin(O_ADD, a.e, mkConst(off, 64))) : cv(a.c + off);
      v.push_back(toE(loadTyped(s, ea, st->getElementType(i)), widthOf(st->getElementType(i))));
    }
  } else {
    Type* et; unsigned n;
    if (auto* at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
    else engErr("load type");
    uint64_t es = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; i++) {
      Val ea = a.e ? evl(mkBin(O_ADD, a.e, mkConst(i * es, 64))) : cv(a.c + i * es);
      v.push_back(toE(loadTyped(s, ea, et), widthOf(et)));
    }
  }
  Val r; r.e = mkAgg(v); return r;
}
static void storeTyped(State& s, const Val& a, const Val& v, Type* t) {
  unsigned w = widthOf(t);
  if (w) { storeMem(s, a, DL->getTypeStoreSize(t), v, w); return; }
  auto el = [&](unsigned i, uint64_t off, Type* et) {
    Val ea = a.e ? evl(mkBin(O_ADD, a.e, mkConst(off, 64))) : cv(a.c + off);
    storeTyped(s, ea, v.e ? evl(v.e->agg[i]) : cv(0), et);
  };
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) el(i, sl->getElementOffset(i), st->getElementType(i));
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    for (unsigned i = 0; i < at->getNumElements(); i++) el(i, i * DL->getTypeAllocSize(at->getElementType()), at->getElementType());
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    for (unsigned i = 0; i < vt->getNumElements(); i++) el(i, i * DL->getTypeAllocSize(vt->getElementType()), vt->getElementType());
  } else engErr("store type");
}

static Op binOp(unsigned o) {
  switch (o) {
    case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
    case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM;
    case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR;
    case Instruction::Xor: return O_XOR; case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR;
    case Instruction::AShr: return O_ASHR; case Instruction::FAdd: return O_FADD; case Instruction::FSub: return O_FSUB;
    case Instruction::FMul: return O_FMUL; case Instruction::FDiv: return O_FDIV;
    default: engErr("binop " + std::to_string(o));
  }
}
// ---- exact integer rewriting of floating point operations: an operand that is a
// converted integer x with |x| <= 2^53 is represented exactly, so comparisons, sums and
// truncated quotients by an integral constant equal the integer operation.
static bool provenFalse(State& s, E out) {
  if (isC(out)) return !out->c;
  auto k = s.known.find(out->id);
  if (k != s.known.end()) return !k->second;
  if (evalExpr(out, s.model)) return false;
  Model m2;
  if (S->check(s.pc, out, s.model, m2) != R_UNSAT) return false;
  s.known[out->id] = false;
  return true;
}
static bool provenWithin(State& s, E x, int64_t B) {
  if (B < 0) return false;
  if (isC(x)) { __int128 v = sextw(x->c, x->w); return v >= -B && v <= B; }
  E x64 = x->w < 64 ? mkSExt(x, 64) : x;
  E out = mkBin(O_ULT, mkConst((u128)(2 * (uint64_t)B), 64), mkBin(O_ADD, x64, mkConst((u128)(uint64_t)B, 64)));
  return provenFalse(s, out);
}
static const int64_t TWO53 = 1ll << 53;
static double constD(E e) { uint64_t u = (uint64_t)e->c; double d; memcpy(&d, &u, 8); return d; }
// e as an exact 64 bit integer, or null
static E fpInt(State& s, E e) {
  if (e->w != 64) return nullptr;
  if (isC(e)) { double d = constD(e); if (!(d >= -9e15 && d <= 9e15) || d != (double)(int64_t)d || (d == 0 && e->c)) return nullptr; return mkConst((u128)(uint64_t)(int64_t)d, 64); }
  if (e->op != O_SITOFP && e->op != O_UITOFP) return nullptr;
  E x = e->k[0];
  if (x->w > 64) return nullptr;
  if (e->op == O_UITOFP) { if (x->w < 64) x = mkZExt(x, 64); } else if (x->w < 64) x = mkSExt(x, 64);
  return provenWithin(s, x, TWO53) ? x : nullptr;
}
static E fpFromInt(E x) { return mkFp(O_SITOFP, x, nullptr, 64); }
static E fpArith(State& s, Op op, E a, E b) {
  if (a->w == 64 && !(isC(a) && isC(b))) {
    E x = fpInt(s, a), y = x ? fpInt(s, b) : nullptr;
    if (x && y) {
      if (op == O_FADD || op == O_FSUB) {
        E r = mkBin(op == O_FADD ? O_ADD : O_SUB, x, y);
        // -0 appears only as the sum of two negative zeroes, which integers are not
        if (provenWithin(s, r, TWO53)) return fpFromInt(r);
      }
      if (op == O_FMUL && (isC(x) || isC(y))) {
        int64_t c = (int64_t)(isC(x) ? x : y)->c; E v = isC(x) ? y : x;
        int64_t ac = c < 0 ? -c : c;
        // 0 * negative gives -0: only positive constants
        if (c > 0 && provenWithin(s, v, TWO53 / ac)) return fpFromInt(mkBin(O_MUL, v, mkConst((u128)(uint64_t)c, 64)));
      }
    }
  }
  return mkFp(op, a, b, a->w);
}
static E fpToInt(State& s, E e, unsigned w, bool sg) {
  E r = nullptr;
  if (e->w == 64 && !isC(e)) {
    r = fpInt(s, e);
    if (!r && e->op == O_FDIV && isC(e->k[1])) {
      // |x| < 2^53 and integral c > 0: the rounded quotient has the same integral part
      E x = fpInt(s, e->k[0]), c = fpInt(s, e->k[1]);
      if (x && c && isC(c) && (int64_t)c->c > 0 && provenWithin(s, x, TWO53 - 1)) r = mkBin(O_SDIV, x, c);
    }
    if (r && w < 64) { if (!provenWithin(s, r, (int64_t)((1ull << (w - 1)) - 1))) r = nullptr; else r = mkExtract(r, 0, w); }
    if (r && !sg && !provenWithin(s, mkBin(O_SUB, mkSExt(r, 64), mkConst(1ull << 53, 64)), TWO53)) r = nullptr;
  }
  return r ? r : mkFp(sg ? O_FPTOSI : O_FPTOUI, e, nullptr, w);
}
static Val doBin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w) {
  Op op = binOp(opc);
  if (op >= O_FADD) return evl(fpArith(s, op, toE(a, w), toE(b, w)));
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
    E be = toE(b, w);
    if (decide(s, mkBin(O_EQ, be, mkConst(0, w)))) fail(s, "div0", "division by zero");
    if (op == O_SDIV || op == O_SREM) {
      E ae = toE(a, w);
      E ov = mkBoolAnd(mkBin(O_EQ, be, mkConst(maskw(w), w)), mkBin(O_EQ, ae, mkConst((u128)1 << (w - 1), w)));
      if (decide(s, ov)) fail(s, "div0", "signed division overflow");
      // a power of two divides a number known not to be negative: shift and mask
      if (isC(be) && !isC(ae) && !(be->c >> (w - 1)) && !(be->c & (be->c - 1)) && provenFalse(s, mkBin(O_SLT, ae, mkConst(0, w)))) op = op == O_SDIV ? O_UDIV : O_UREM;
    }
  }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = m64(w);
    switch (op) {
      case O_ADD: return cv((x + y) & m);
      case O_SUB: return cv((x - y) & m);
      case O_MUL: return cv((x * y) & m);
      case O_AND: return cv(x & y);
      case O_OR: return cv(x | y);
      case O_XOR: return cv(x ^ y);
      default: { bool ok; return cv((uint64_t)foldBin(op, x, y, w, ok)); }
    }
  }
  return evl(mkBin(op, toE(a, w), toE(b, w)));
}
static Val doICmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    int64_t sx = (int64_t)sextw(x, w), sy = (int64_t)sextw(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
      case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
      case CmpInst::ICMP_SGT: return cv(sx > sy); case CmpInst::ICMP_SGE: return cv(sx >= sy);
      case CmpInst::ICMP_SLT: return cv(sx < sy); case CmpInst::ICMP_SLE: return cv(sx <= sy);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return evl(mkBin(O_EQ, x, y));
    case CmpInst::ICMP_NE: return evl(mkNot(mkBin(O_EQ, x, y)));
    case CmpInst::ICMP_UGT: return evl(mkBin(O_ULT, y, x));
    case CmpInst::ICMP_UGE: return evl(mkNot(mkBin(O_ULT, x, y)));
    case CmpInst::ICMP_ULT: return evl(mkBin(O_ULT, x, y));
    case CmpInst::ICMP_ULE: return evl(mkNot(mkBin(O_ULT, y, x)));
    case CmpInst::ICMP_SGT: return evl(mkBin(O_SLT, y, x));
    case CmpInst::ICMP_SGE: return evl(mkNot(mkBin(O_SLT, x, y)));
    case CmpInst::ICMP_SLT: return evl(mkBin(O_SLT, x, y));
    case CmpInst::ICMP_SLE: return evl(mkNot(mkBin(O_SLT, y, x)));
  }
  engErr("icmp");
}
static Val doFCmp(State& s, unsigned p, const Val& a, const Val& b, unsigned w) {
  E x = toE(a, w), y = toE(b, w);
  E ix = nullptr, iy = nullptr;
  if (w == 64 && !(isC(x) && isC(y))) {
    ix = fpInt(s, x); iy = ix ? fpInt(s, y) : nullptr;
    if (ix && !iy && isC(y)) { // integer against a fractional constant
      double d = constD(y);
      if (d > -9e15 && d < 9e15 && d != 0) {
        E fl = mkConst((u128)(uint64_t)(int64_t)std::floor(d), 64);
        switch (p) {
          case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return evl(mkNot(mkBin(O_SLT, fl, ix)));
          case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return evl(mkBin(O_SLT, fl, ix));
          default: break;
        }
      }
    } else if (!ix && isC(x)) {
      E jy = fpInt(s, y); double d = constD(x);
      if (jy && d > -9e15 && d < 9e15 && d != 0) {
        E fl = mkConst((u128)(uint64_t)(int64_t)std::floor(d), 64);
        switch (p) {
          case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return evl(mkNot(mkBin(O_SLT, fl, jy)));
          case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return evl(mkBin(O_SLT, fl, jy));
          default: break;
        }
      }
    }
  }
  bool ii = ix && iy;
  auto F = [&](Op o, E l, E r) {
    if (ii) {
      if (o == O_FUNO) return mkConst(0, 1);
      E il = l == x ? ix : iy, ir = r == x ? ix : iy;
      return o == O_FEQ ? mkBin(O_EQ, il, ir) : o == O_FLT ? mkBin(O_SLT, il, ir) : mkNot(mkBin(O_SLT, ir, il));
    }
    return mkFp(o, l, r, 1); };
  E un = F(O_FUNO, x, y);
  E ord = mkNot(un);
  E r;
  switch (p) {
    case CmpInst::FCMP_FALSE: return cv(0);
    case CmpInst::FCMP_TRUE: return cv(1);
    case CmpInst::FCMP_ORD: r = ord; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_OEQ: r = F(O_FEQ, x, y); break;
    case CmpInst::FCMP_UNE: r = mkNot(F(O_FEQ, x, y)); break;
    case CmpInst::FCMP_UEQ: r = mkBoolOr(un, F(O_FEQ, x, y)); break;
    case CmpInst::FCMP_ONE: r = mkBoolAnd(ord, mkNot(F(O_FEQ, x, y))); break;
    case CmpInst::FCMP_OLT: r = F(O_FLT, x, y); break;
    case CmpInst::FCMP_OLE: r = F(O_FLE, x, y); break;
    case CmpInst::FCMP_OGT: r = F(O_FLT, y, x); break;
    case CmpInst::FCMP_OGE: r = F(O_FLE, y, x); break;
    case CmpInst::FCMP_ULT: r = mkNot(F(O_FLE, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(F(O_FLT, y, x)); break;
    case CmpInst::FCMP_UGT: r = mkNot(F(O_FLE, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(F(O_FLT, x, y)); break;
    default: engErr("fcmp");
  }
  return evl(r);
}

static void freeFrameAllocas(State& s, Frame& f) {
  for (auto id : f.allocas) {
    Obj* o = s.mem.getW(id);
    o->freed = true; o->c.reset();
    s.mem.freeStack.push_back(id);
  }
  f.allocas.clear();
}

static void jump(State& s, Frame& f, const DBlock* to) {
  const BasicBlock* from = f.b->bb;
  if (!to->phis.empty()) {
    std::vector<Val> tmp;
    tmp.reserve(to->phis.size());
    for (auto& p : to->phis) {
      for (auto& in : p.in) if (in.first == from) { tmp.push_back(getOp(s, f, in.second)); break; }
    }
    for (size_t i = 0; i < tmp.size(); i++) f.regs[to->phis[i].dst] = tmp[i];
  }
  f.b = to; f.ip = 0;
  to->seen = true;
}

static void pushFrame(State& s, uint32_t tid, const Function* F, const std::vector<Val>& args, const std::vector<unsigned>& argW) {
  DFunc* d = decode(F);
  d->calls++;
  auto f = std::make_shared<Frame>();
  f->f = d; f->b = d->entry; f->ip = 0;
  d->entry->seen = true;
  f->regs.resize(d->nregs);
  size_t n = F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); i++) f->regs[i] = args[i];
  for (size_t i = n; i < args.size(); i++) { f->va.push_back(args[i]); f->vaW.push_back(argW[i]); }
  if (s.th[tid].stk.size() > 4000) fail(s, "stack", "stack overflow (recursion depth)");
  s.th[tid].stk.push_back(f);
}

// after a call returned value v into the caller's current call instruction
static void finishCall(State& s, const Val& v, bool hasVal) {
  Frame& f = s.top();
  const DInst& di = f.b->insts[f.ip];
  if (di.dst >= 0 && hasVal) f.regs[di.dst] = v;
  if (di.op == Instruction::Invoke) jump(s, f, di.s0);
  else f.ip++;
}

static void doReturn(State& s, const Val& v, bool hasVal) {
  Frame& f = s.top();
  freeFrameAllocas(s, f);
  Thread& t = s.th[s.cur];
  t.stk.pop_back();
  if (t.stk.empty()) {
    if (s.cur == 0) { s.dead = true; s.completed = true; stPathsDone++; throw PathEnd(); }
    if (!t.done) {
      t.done = true;
      const Function* ex = M->getFunction("wsym_rt_thread_exit");
      if (!ex) engErr("no wsym_rt_thread_exit");
      pushFrame(s, s.cur, ex, {}, {});
      return;
    }
    engErr("thread exit returned");
  }
  finishCall(s, v, hasVal);
}

// ---- exceptions
static bool typeMatch(State& s, uint64_t thrown, uint64_t want, int depth = 0) {
  if (thrown == want) return true;
  if (depth > 16) return false;
  auto vt = [&](const char* n) { auto* g = M->getNamedValue(n); return g && gaddr.count(g) ? gaddr[g] + 16 : 0ull; };
  const Obj* o = s.mem.get(Memory::idOf(thrown));
  if (!o || o->size < 16) return false;
  uint64_t vp = loadObj(o, thrown - o->base, 8, 64).c;
  if (vp && vp == vt("_ZTVN10__cxxabiv120__si_class_type_infoE") && o->size >= 24)
    return typeMatch(s, loadObj(o, thrown - o->base + 16, 8, 64).c, want, depth + 1);
  if (vp && vp == vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE") && o->size >= 24) {
    uint32_t n = loadObj(o, thrown - o->base + 20, 4, 32).c;
    for (uint32_t i = 0; i < n; i++)
      if (typeMatch(s, loadObj(o, thrown - o->base + 24 + 16 * i, 8, 64).c, want, depth + 1)) return true;
  }
  return false;
}
static void unwind(State& s, uint64_t obj) {
  uint64_t ti = 0;
  for (auto& x : s.excs) if (x.obj == obj) ti = x.ti;
  // phase 1: any handler?
  Thread& t = s.th[s.cur];
  auto tryPad = [&](Frame& f, const DInst& di, uint64_t& sel, bool& handler) {
    const LandingPadInst* lp = cast<InvokeInst>(di.I)->getLandingPadInst();
    handler = false;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) {
        uint64_t want = evalConst(lp->getClause(i)).c;
        if (!want || typeMatch(s, ti, want)) { sel = want ? (want >> 32) : 1; handler = true; return true; }
      } else {
        // filter (exception specification): treat as terminate unless empty-match
        handler = true; sel = (uint64_t)-1; return true;
      }
    }
    if (lp->isCleanup()) { sel = 0; return true; }
    return false;
  };
  bool any = false;
  for (size_t i = t.stk.size(); i-- > 0 && !any;) {
    Frame& f = *t.stk[i];
    const DInst& di = f.b->insts[f.ip];
    if (di.op == Instruction::Invoke) { uint64_t sel; bool h; if (tryPad(f, di, sel, h) && h) any = true; }
  }
  if (!any) {
    const Obj* o = s.mem.get(Memory::idOf(ti));
    (void)o;
    std::string tn = "?";
    for (auto& g : gaddr) if (g.second == ti) tn = demangle(g.first->getName().str());
    fail(s, "abort", "uncaught exception " + tn);
  }
  while (!t.stk.empty()) {
    Frame& f = s.top();
    const DInst& di = f.b->insts[f.ip];
    if (di.op == Instruction::Invoke) {
      uint64_t sel; bool h;
      if (tryPad(f, di, sel, h)) {
        const LandingPadInst* lp = cast<InvokeInst>(di.I)->getLandingPadInst();
        const DBlock* pad = di.s1;
        jump(s, f, pad);
        // set landingpad result
        for (uint32_t i = 0; i < pad->insts.size(); i++) if (pad->insts[i].I == lp) {
          Val r; r.e = mkAgg({mkConst(obj, 64), mkConst(sel, 32)});
          f.regs[pad->insts[i].dst] = r;
        }
        return;
      }
    }
    freeFrameAllocas(s, f);
    t.stk.pop_back();
  }
  fail(s, "abort", "unwound past the stack");
}

#include "builtins.inc"

// ---------------------------------------------------------------- the interpreter
static void step(State& s) {
  Frame& f = s.top();
  const DInst& di = f.b->insts[f.ip];
  const Instruction& I = *di.I;
  auto OP = [&](unsigned i) -> Val { return getOp(s, f, di.ops[i]); };
  switch (di.op) {
    case Instruction::Ret:
      if (I.getNumOperands()) { Val v = OP(0); doReturn(s, v, true); }
      else doReturn(s, Val(), false);
      return;
    case Instruction::Br:
      if (!di.s1) { jump(s, f, di.s0); return; }
      {
        Val c = OP(0);
        bool t = c.e ? decide(s, c.e) : (c.c & 1);
        jump(s, s.top(), t ? di.s0 : di.s1);
        return;
      }
    case Instruction::Switch: {
      Val c = OP(0);
      if (!c.e) {
        for (auto& k : di.cases) if (k.first.c == c.c) { jump(s, f, k.second); return; }
        jump(s, f, di.s0); return;
      }
      // group by target
      for (auto& k : di.cases)
        if (decide(s, mkBin(O_EQ, c.e, toE(k.first, di.w)))) { jump(s, s.top(), k.second); return; }
      jump(s, s.top(), di.s0);
      return;
    }
    case Instruction::Unreachable: fail(s, "abort", "reached unreachable code");
    case Instruction::Alloca: {
      uint64_t n = conc(s, OP(0), "alloca");
      if ((int64_t)n < 0 || n > (1u << 26)) fail(s, "memory", "bad stack allocation size");
      Frame& g = s.top();
      uint64_t a = s.mem.alloc(di.sz * n, K_STACK, 0xAA, &I);
      g.allocas.push_back(Memory::idOf(a));
      g.regs[di.dst] = cv(a);
      g.ip++;
      return;
    }
    case Instruction::Load: {
      Val a = OP(0);
      if (cast<LoadInst>(I).isAtomic()) syncAccess(s, a, true, false);
      Val r = di.w ? loadMem(s, a, di.sz, di.w) : loadTyped(s, a, I.getType());
      Frame& g = s.top();
      g.regs[di.dst] = r;
      g.ip++;
      return;
    }
    case Instruction::Store: {
      Val v = OP(0), a = OP(1);
      if (cast<StoreInst>(I).isAtomic()) syncAccess(s, a, false, true);
      if (di.w) storeMem(s, a, di.sz, v, di.w);
      else storeTyped(s, a, v, I.getOperand(0)->getType());
      s.top().ip++;
      return;
    }
    case Instruction::GetElementPtr: {
      Val b = OP(0);
      uint64_t off = di.goff;
      E sym = b.e;
      if (!sym) off += b.c;
      for (auto& t : di.gep) {
        Val x = getOp(s, f, t.o);
        if (!x.e) off += (uint64_t)((int64_t)sextw(x.c, t.w) * t.scale);
        else {
          E y = t.w < 64 ? mkSExt(x.e, 64) : x.e;
          y = mkBin(O_MUL, y, mkConst((uint64_t)t.scale, 64));
          sym = sym ? mkBin(O_ADD, sym, y) : y;
        }
      }
      f.regs[di.dst] = sym ? evl(mkBin(O_ADD, sym, mkConst(off, 64))) : cv(off);
      f.ip++;
      return;
    }
    case Instruction::ICmp: {
      auto& c = cast<ICmpInst>(I);
      Type* t = c.getOperand(0)->getType();
      if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        Val a = OP(0), b = OP(1); std::vector<E> r; unsigned ew = widthOf(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(toE(doICmp(c.getPredicate(), evl(a.e->agg[i]), evl(b.e->agg[i]), ew), 1));
        Val v; v.e = mkAgg(r); f.regs[di.dst] = v;
      } else f.regs[di.dst] = doICmp(c.getPredicate(), OP(0), OP(1), di.w2);
      f.ip++;
      return;
    }
    case Instruction::FCmp: f.regs[di.dst] = doFCmp(s, cast<FCmpInst>(I).getPredicate(), OP(0), OP(1), di.w2); f.ip++; return;
    case Instruction::Select: {
      Val c = OP(0), a = OP(1), b = OP(2);
      Val r;
      if (!c.e) r = (c.c & 1) ? a : b;
      else if (!di.w || optForkSel) { bool t = decide(s, c.e); r = t ? a : b; }
      else {
        auto k = s.known.find(c.e->id);
        if (k != s.known.end()) r = k->second ? a : b;
        else r = evl(mkIte(c.e, toE(a, di.w), toE(b, di.w)));
      }
      Frame& g = s.top(); g.regs[di.dst] = r; g.ip++;
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Val v = OP(0);
      Type* dt = I.getType(); Type* stp = I.getOperand(0)->getType();
      if (dt->isVectorTy() || stp->isVectorTy()) {
        if (di.op == Instruction::BitCast) {
          E e;
          if (stp->isVectorTy()) { auto& g = v.e->agg; e = g[0]; for (size_t i = 1; i < g.size(); i++) e = mkConcat(g[i], e); }
          else e = toE(v, di.w2);
          if (auto* vt = dyn_cast<FixedVectorType>(dt)) {
            unsigned ew = widthOf(vt->getElementType()); std::vector<E> r;
            for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(mkExtract(e, i * ew, ew));
            Val x; x.e = mkAgg(r); f.regs[di.dst] = x;
          } else f.regs[di.dst] = evl(e);
        } else {
          unsigned ew = widthOf(cast<VectorType>(dt)->getElementType()); std::vector<E> r;
          for (auto* x : v.e->agg) r.push_back(di.op == Instruction::ZExt ? mkZExt(x, ew) : di.op == Instruction::SExt ? mkSExt(x, ew) : mkExtract(x, 0, ew));
          Val x; x.e = mkAgg(r); f.regs[di.dst] = x;
        }
        f.ip++; return;
      }
      Val r;
      if (di.w > 64 || v.e) {
        E e = toE(v, di.w2);
        if (di.w < di.w2) e = mkExtract(e, 0, di.w);
        else if (di.w > di.w2) e = di.op == Instruction::SExt ? mkSExt(e, di.w) : mkZExt(e, di.w);
        r = evl(e);
      } else if (di.op == Instruction::SExt) r = cv((uint64_t)sextw(v.c, di.w2) & m64(di.w));
      else r = cv(v.c & m64(di.w));
      f.regs[di.dst] = r; f.ip++;
      return;
    }
    case Instruction::FPToSI: f.regs[di.dst] = evl(fpToInt(s, toE(OP(0), di.w2), di.w, true)); f.ip++; return;
    case Instruction::FPToUI: f.regs[di.dst] = evl(fpToInt(s, toE(OP(0), di.w2), di.w, false)); f.ip++; return;
    case Instruction::SIToFP: f.regs[di.dst] = evl(mkFp(O_SITOFP, toE(OP(0), di.w2), nullptr, di.w)); f.ip++; return;
    case Instruction::UIToFP: f.regs[di.dst] = evl(mkFp(O_UITOFP, toE(OP(0), di.w2), nullptr, di.w)); f.ip++; return;
    case Instruction::FPExt: f.regs[di.dst] = evl(mkFp(O_FPEXT, toE(OP(0), di.w2), nullptr, di.w)); f.ip++; return;
    case Instruction::FPTrunc: f.regs[di.dst] = evl(mkFp(O_FPTRUNC, toE(OP(0), di.w2), nullptr, di.w)); f.ip++; return;
    case Instruction::FNeg: f.regs[di.dst] = evl(mkBin(O_XOR, toE(OP(0), di.w), mkConst((u128)1 << (di.w - 1), di.w))); f.ip++; return;
    case Instruction::Freeze: f.regs[di.dst] = OP(0); f.ip++; return;
    case Instruction::ExtractValue: {
      Val v = OP(0);
      E e = v.e;
      auto& x = cast<ExtractValueInst>(I);
      for (auto i : x.indices()) e = e->agg[i];
      f.regs[di.dst] = evl(e); f.ip++;
      return;
    }
    case Instruction::InsertValue: {
      Val v = OP(0), el = OP(1);
      auto& x = cast<InsertValueInst>(I);
      unsigned ew = widthOf(x.getInsertedValueOperand()->getType());
      std::function<E(E, unsigned)> ins = [&](E a, unsigned d) -> E {
        if (d == x.getNumIndices()) return toE(el, ew);
        std::vector<E> g = a->agg;
        g[x.getIndices()[d]] = ins(g[x.getIndices()[d]], d + 1);
        return mkAgg(g);
      };
      Val r; r.e = ins(v.e, 0);
      f.regs[di.dst] = r; f.ip++;
      return;
    }
    case Instruction::ExtractElement: {
      Val v = OP(0); uint64_t i = conc(s, OP(1), "extractelement");
      Frame& g = s.top(); g.regs[di.dst] = evl(v.e->agg[i]); g.ip++; return;
    }
    case Instruction::InsertElement: {
      Val v = OP(0), el = OP(1); uint64_t i = conc(s, OP(2), "insertelement");
      std::vector<E> a = v.e->agg; a[i] = toE(el, widthOf(I.getOperand(1)->getType()));
      Val r; r.e = mkAgg(a); Frame& g = s.top(); g.regs[di.dst] = r; g.ip++; return;
    }
    case Instruction::ShuffleVector: {
      auto& sv = cast<ShuffleVectorInst>(I);
      Val a = OP(0), b = OP(1);
      unsigned n = a.e->agg.size();
      std::vector<E> r;
      for (int m : sv.getShuffleMask()) r.push_back(m < 0 ? a.e->agg[0] : m < (int)n ? a.e->agg[m] : b.e->agg[m - n]);
      Val v; v.e = mkAgg(r); f.regs[di.dst] = v; f.ip++; return;
    }
    case Instruction::LandingPad: f.ip++; return;  // value already set by unwind
    case Instruction::Resume: {
      Val v = OP(0);
      uint64_t obj = (uint64_t)v.e->agg[0]->c;
      // pop this frame and continue unwinding in the caller
      freeFrameAllocas(s, f);
      s.th[s.cur].stk.pop_back();
      unwind(s, obj);
      return;
    }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto& a = cast<AtomicRMWInst>(I);
      Val p = OP(0), v = OP(1);
      syncAccess(s, p, true, true);
      unsigned w = widthOf(a.getValOperand()->getType());
      Val old = loadMem(s, p, w / 8 ? w / 8 : 1, w);
      Val nv;
      switch (a.getOperation()) {
        case AtomicRMWInst::Add: nv = doBin(s, Instruction::Add, old, v, w); break;
        case AtomicRMWInst::Sub: nv = doBin(s, Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = doBin(s, Instruction::And, old, v, w); break;
        case AtomicRMWInst::Or: nv = doBin(s, Instruction::Or, old, v, w); break;
        case AtomicRMWInst::Xor: nv = doBin(s, Instruction::Xor, old, v, w); break;
        default: engErr("atomicrmw");
      }
      storeMem(s, p, w / 8 ? w / 8 : 1, nv, w);
      Frame& g = s.top(); if (di.dst >= 0) g.regs[di.dst] = old; g.ip++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      Val p = OP(0), c = OP(1), n = OP(2);
      syncAccess(s, p, true, true);
      unsigned w = widthOf(I.getOperand(1)->getType());
      Val old = loadMem(s, p, w / 8, w);
      Val eq = doICmp(CmpInst::ICMP_EQ, old, c, w);
      bool t = eq.e ? decide(s, eq.e) : eq.c;
      if (t) storeMem(s, p, w / 8, n, w);
      Val r; r.e = mkAgg({toE(old, w), mkConst(t, 1)});
      Frame& g = s.top(); g.regs[di.dst] = r; g.ip++;
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, di); return;
    default:
      if (I.isBinaryOp()) {
        if (auto* vt = dyn_cast<FixedVectorType>(I.getType())) {
          Val a = OP(0), b = OP(1); std::vector<E> r; unsigned ew = widthOf(vt->getElementType());
          for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(toE(doBin(s, di.op, evl(a.e->agg[i]), evl(b.e->agg[i]), ew), ew));
          Val v; v.e = mkAgg(r); s.top().regs[di.dst] = v; s.top().ip++; return;
        }
        Val r = doBin(s, di.op, OP(0), OP(1), di.w);
        Frame& g = s.top(); g.regs[di.dst] = r; g.ip++;
        return;
      }
      std::string t; raw_string_ostream os(t); I.print(os);
      engErr("unsupported instruction: " + os.str());
  }
}

static void runState(State& s) {
  uint64_t n = 0;
  try {
    while (!s.dead) {
      s.instrs++; stInstr++;
      if (optTrace) fprintf(stderr, "%s\n", locOf(s.top().b->insts[s.top().ip].I).c_str());
      step(s);
      if ((++n & 0xfff) == 0) {
        if (elapsed() > optMaxTime) { gIncomplete = true; gIncompleteWhy = "time limit"; return; }
        if (s.instrs > optMaxInstrPerPath) fail(s, "hang", "no end after the per-path instruction limit");
      }
    }
  } catch (PathEnd&) {}
}

static std::string jstr(const std::string& x) {
  std::string r = "\"";
  for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}

static int realMain(int argc, char** argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? argv[i] + n : nullptr; };
    if (auto* v = val("--out=")) optOut = v;
    else if (auto* v = val("--cexdir=")) optCexDir = v;
    else if (auto* v = val("--entry=")) optEntry = v;
    else if (auto* v = val("--name=")) optHarness = v;
    else if (auto* v = val("--max-time=")) optMaxTime = atof(v);
    else if (auto* v = val("--max-paths=")) optMaxPaths = atoll(v);
    else if (auto* v = val("--max-instr=")) optMaxInstrPerPath = atoll(v);
    else if (auto* v = val("--trace-samples=")) optTraceSamples = atoi(v);
    else if (auto* v = val("--max-viol=")) optMaxViol = atoi(v);
    else if (auto* v = val("--solver-timeout=")) optSolverTimeout = atoi(v);
    else if (auto* v = val("--cross=")) optCrossEvery = atoi(v);
    else if (auto* v = val("--max-cand=")) optMaxCand = atoi(v);
    else if (a == "-v") optVerbose = true;
    else if (a == "--trace") optTrace = true;
    else if (a == "--no-race") optRace = false;
    else if (a == "--fork-select") optForkSel = true; // choices between two values become separate paths
    else if (auto* v = val("--arg=")) optArgs.push_back(v);
    else bc = a;
  }
  if (optHarness.empty()) optHarness = optEntry;
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("wsym", errs()); return 3; }
  DL = &M->getDataLayout();
  S = std::make_unique<Solver>(optSolverTimeout);
  S->crossEvery = optCrossEvery;
  S->crossCheckCmd = "cvc5 --lang=smt2 --tlimit=20000";
  S->dumpDir = optCexDir;
  std::string engineErr;
  initBuiltins();
  try {
    auto st = std::make_unique<State>();
    Memory& mem = st->mem;
    for (auto& F : *M) {
      uint64_t a = mem.alloc(1, K_FUNC, 0, &F);
      gaddr[&F] = a; faddr[a] = &F;
    }
    for (auto& g : M->globals()) {
      if (g.isThreadLocal()) { tlsVars.push_back(&g); gaddr[&g] = 0; continue; }
      uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
      if (!g.hasInitializer() && sz < 64) sz = 64;
      gaddr[&g] = mem.alloc(sz, g.isConstant() && g.hasInitializer() ? K_RO : K_GLOBAL, 0, &g, g.getAlign() ? g.getAlign()->value() : 16);
    }
    for (auto& g : M->globals()) if (g.hasInitializer() && !g.isThreadLocal())
      writeConst(mem.contentW(Memory::idOf(gaddr[&g]))->b, 0, g.getInitializer());
    st->th.resize(1);
    const Function* entry = M->getFunction(optEntry);
    if (!entry) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
    // static constructors, run in order before the entry: push frames in reverse
    std::vector<std::pair<uint64_t, const Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer())
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : arr->operands()) {
          auto* cs = cast<ConstantStruct>(o.get());
          if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
            ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
        }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    // run each constructor to completion on the initial state
    for (auto& c : ctors) {
      // use thread 0; when the stack empties, doReturn throws PathEnd, so detect via stPathsDone
      pushFrame(*st, 0, c.second, {}, {});
      uint64_t before = stPathsDone;
      runState(*st);
      if (stPathsDone != before + 1 || !work.empty()) engErr("static constructor did not complete: " + c.second->getName().str());
      stPathsDone = before;
      st->dead = st->completed = false;
    }
    stInstr = 0;
    std::vector<Val> args; std::vector<unsigned> aw;
    for (unsigned i = 0; i < entry->arg_size(); i++) {
      args.push_back(cv(i < optArgs.size() ? strtoll(optArgs[i].c_str(), nullptr, 0) : 0)); aw.push_back(64); }
    pushFrame(*st, 0, entry, args, aw);
    work.push_back(std::move(st));
    while (!work.empty()) {
      auto s = std::move(work.back());
      work.pop_back();
      stPaths++;
      if (stPaths > optMaxPaths) { gIncomplete = true; gIncompleteWhy = "path limit"; break; }
      runState(*s);
      if (gIncomplete) break;
      if (s->dead && s->completed && (int)gTraces.size() < optTraceSamples && stPaths >= gNextTrace) {
        std::string fn = optCexDir + "/" + optHarness + ".t" + std::to_string(gTraces.size()) + ".cex";
        writeCex(*s, s->model, fn, "completed path");
        gTraces.push_back(fn);
        gNextTrace = stPaths * 2;
      }
      if (s->dead && gSamples.size() < 3 && !s->syms.empty() && (stPaths % 7) == 1) {
        std::string t;
        for (size_t i = 0; i < s->syms.size() && i < 24; i++) t += (i ? " " : "") + s->syms[i].name + "=" + hexs(s->model.get(s->syms[i].var) & maskw(s->syms[i].w), s->syms[i].w);
        gSamples.push_back(t);
      }
      if ((int)viols.size() >= optMaxViol) break;
      if (elapsed() > optMaxTime) { gIncomplete = true; gIncompleteWhy = "time limit"; break; }
    }
  } catch (EngineError& e) {
    engineErr = e.msg;
    fprintf(stderr, "ENGINE ERROR: %s\n", e.msg.c_str());
  }
  // functions of the code under test that were executed
  std::map<std::string, std::pair<uint64_t, uint64_t>> fns;  // name -> (executed blocks, blocks)
  for (auto& p : dfuncs) {
    if (!p.second) continue;
    for (auto& b : p.second->blocks) {
      std::set<const DISubprogram*> sps;
      for (auto& I : *b.first) if (const DebugLoc& dl = I.getDebugLoc()) {
        auto* sc = cast<DILocalScope>(dl.getScope());
        sps.insert(sc->getSubprogram());
      }
      for (auto* sp : sps) {
        std::string file = sp->getFilename().str();
        if (file.find("wdt/") == std::string::npos && file.find("/repo/") == std::string::npos) continue;
        if (file.find("/rt/") != std::string::npos || file.find("harness") != std::string::npos) continue;
        size_t p2 = file.rfind("wdt/"); if (p2 != std::string::npos) file = file.substr(p2 + 4);
        p2 = file.rfind("/repo/"); if (p2 != std::string::npos) file = file.substr(p2 + 6);
        std::string nm = file + ":" + sp->getName().str();
        auto& x = fns[nm];
        x.second++; if (b.second->seen) x.first++;
      }
    }
  }
  std::ofstream o(optOut);
  o << "{\n \"harness\": " << jstr(optHarness) << ",\n";
  o << " \"engine_error\": " << jstr(engineErr) << ",\n";
  o << " \"complete\": " << (engineErr.empty() && !gIncomplete && !gUnknown && (int)viols.size() < optMaxViol ? "true" : "false") << ",\n";
  o << " \"why_incomplete\": " << jstr(gIncompleteWhy) << ",\n";
  if (gForkProf) { std::vector<std::pair<long, std::string>> v; for (auto& k : *gForkProf) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "forks %ld %s\n", v[i].first, v[i].second.c_str()); }
  o << " \"paths\": " << stPaths << ", \"paths_completed\": " << stPathsDone << ", \"paths_assumed_away\": " << stAssumeKilled << ", \"paths_violating\": " << stViolPaths << ", \"forks\": " << stForks << ",\n";
  o << " \"instructions\": " << stInstr << ", \"memory_accesses_checked\": " << stChecksMem << ",\n";
  o << " \"assertions_decided_by_solver\": " << stAsserts << ", \"assertions_decided_by_folding\": " << stAssertsConc << ",\n";
  o << " \"queries\": " << S->stats.queries << ", \"sat\": " << S->stats.sat << ", \"unsat\": " << S->stats.unsat << ", \"unknown\": " << S->stats.unknown << ", \"cache_hits\": " << S->stats.cacheHits << ", \"model_reuse\": " << S->stats.modelHits << ", \"solver_s\": " << S->stats.secs << ", \"max_query_s\": " << S->stats.maxSecs << ", \"cross_checked\": " << S->stats.crossChecked << ", \"cross_disagree\": " << S->stats.crossDisagree << ",\n";
  o << " \"wall_s\": " << elapsed() << ", \"expressions\": " << exprCount() << ",\n";
  o << " \"covers\": {"; bool first = true;
  for (auto& c : covers) { o << (first ? "" : ", ") << jstr(c.first) << ": " << c.second; first = false; }
  o << "},\n \"samples\": ["; first = true;
  for (auto& x : gSamples) { o << (first ? "" : ", ") << jstr(x); first = false; }
  o << "],\n \"traces\": ["; first = true;
  for (auto& x : gTraces) { o << (first ? "" : ", ") << jstr(x); first = false; }
  o << "],\n \"functions\": {"; first = true;
  for (auto& x : fns) if (x.second.first) { o << (first ? "" : ", ") << jstr(x.first) << ": [" << x.second.first << "," << x.second.second << "]"; first = false; }
  o << "},\n \"violations\": ["; first = true;
  for (auto& v : viols) {
    o << (first ? "" : ",") << "\n  {\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"loc\": " << jstr(v.loc) << ", \"cex\": " << jstr(v.cex) << ", \"stack\": [";
    for (size_t i = 0; i < v.stack.size(); i++) o << (i ? ", " : "") << jstr(v.stack[i]);
    o << "]}"; first = false;
  }
  o << "]\n}\n";
  o.close();
  fflush(nullptr);
  // skip destructors
  M.release(); 
  _exit(!engineErr.empty() ? 3 : !viols.empty() ? 1 : (gIncomplete || gUnknown) ? 2 : 0);
}

int main(int argc, char** argv) {
  struct rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (getenv("WSYM_FORKS")) gForkProf = new std::map<std::string, long>;
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("WSYM_REEXEC")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (2ull << 30) ? (2ull << 30) : rl.rlim_max;
    setrlimit(RLIMIT_STACK, &rl);
    setenv("WSYM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  return realMain(argc, argv);
}
