// sx: a small symbolic executor for LLVM IR (path-forking, bit-precise, z3 back end).
//
// It executes a linked bitcode module (harness + the project's C sources) from main().
// Inputs made by the harness (sx_i32 ...) and uninitialised memory are free bit-vector
// variables; every branch, address and assertion that depends on them is decided by z3.
// A path is forked for every feasible outcome, so a run that ends without "incomplete"
// has covered every value of every input within the bounds the harness assumes.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>
#include <cmath>

using namespace llvm;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- options and statistics
static double nowS() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double tStart;
static double optTime = 600;
static uint64_t optMaxPaths = 10000000, optMaxStatesPerValue = 5000, optMaxInstr = 30000000;
static unsigned optSamples = 8, optMaxViol = 6, optCase = 0;
static std::string optOut = "sx_out", optStdout;
static bool optFP = false, optNsw = false, optVerbose = false;
static unsigned optDumpSmt = 0;

static uint64_t nQueries, nSat, nUnsat, nInstr, nPaths, nTerm, nForks, nChecks, nDischarged, nTriv, nAssumeKill;
static double tSolver;
static bool incomplete = false;
static std::string incompleteWhy;
static std::set<std::string> covered, functionsRun;
static unsigned nViol = 0;
static std::map<std::string, unsigned> violCount;

// ---------------------------------------------------------------- expressions
static Z3_context C;
static void z3err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "sx: z3 error %s\n", Z3_get_error_msg(c, e));
  exit(3);
}
struct Ex {
  Z3_ast a = nullptr;
  Ex() {}
  Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(C, a); }
  Ex(const Ex &o) : a(o.a) { if (a) Z3_inc_ref(C, a); }
  Ex(Ex &&o) noexcept : a(o.a) { o.a = nullptr; }
  ~Ex() { if (a) Z3_dec_ref(C, a); }
  Ex &operator=(const Ex &o) { if (o.a) Z3_inc_ref(C, o.a); if (a) Z3_dec_ref(C, a); a = o.a; return *this; }
  Ex &operator=(Ex &&o) noexcept { std::swap(a, o.a); return *this; }
  explicit operator bool() const { return a != nullptr; }
};
static uint64_t maskW(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Ex bvc(uint64_t v, unsigned w) { return Ex(Z3_mk_unsigned_int64(C, v & maskW(w), bvs(w))); }
static Ex simp(const Ex &e) { return Ex(Z3_simplify(C, e.a)); }
static Ex mkNot(const Ex &e) { return Ex(Z3_mk_not(C, e.a)); }
static Ex mkAnd(const Ex &a, const Ex &b) { Z3_ast x[2] = {a.a, b.a}; return Ex(Z3_mk_and(C, 2, x)); }
static Ex mkOr(const Ex &a, const Ex &b) { Z3_ast x[2] = {a.a, b.a}; return Ex(Z3_mk_or(C, 2, x)); }
static Ex mkEq(const Ex &a, const Ex &b) { return Ex(Z3_mk_eq(C, a.a, b.a)); }
static int boolLit(const Ex &e) {  // 1 true, 0 false, -1 otherwise
  Z3_lbool b = Z3_get_bool_value(C, e.a);
  return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static bool numLit(const Ex &e, uint64_t &v) {
  if (Z3_get_ast_kind(C, e.a) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(C, e.a, &v);
}

// A value of an LLVM integer/pointer/double of width w <= 64, or a small aggregate.
// Width 1 symbolic values are of Bool sort, the others of bit-vector sort.
struct Val {
  unsigned w = 0;
  uint64_t c = 0;
  Ex e;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(unsigned w_, uint64_t c_) : w(w_), c(c_ & maskW(w_)) {}
  bool sym() const { return (bool)e; }
};
static Val mkVal(unsigned w, const Ex &e0) {
  Ex e = simp(e0);
  Val v;
  v.w = w;
  if (w == 1) {
    int b = boolLit(e);
    if (b >= 0) { v.c = b; return v; }
  } else {
    uint64_t n;
    if (numLit(e, n)) { v.c = n; return v; }
  }
  v.e = e;
  return v;
}
static Ex asBV(const Val &v) {
  if (!v.sym()) return bvc(v.c, v.w);
  if (v.w == 1) return Ex(Z3_mk_ite(C, v.e.a, bvc(1, 1).a, bvc(0, 1).a));
  return v.e;
}
static Ex asBool(const Val &v) {
  if (v.w == 1) return v.sym() ? v.e : Ex(v.c ? Z3_mk_true(C) : Z3_mk_false(C));
  return mkNot(mkEq(asBV(v), bvc(0, v.w)));
}

// ---------------------------------------------------------------- memory
struct SymByte { Ex e; unsigned idx; };  // byte idx (0 = least significant) of e
enum { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };
static const unsigned PG = 128;
struct Page {
  uint8_t d[PG];
  uint8_t st[PG];
  std::map<uint8_t, SymByte> sy;
};
typedef std::shared_ptr<Page> PageRef;
struct Obj {
  uint64_t base = 0, size = 0, id = 0;
  bool heap = false, alive = true, ro = false, zero = false;
  uint64_t heapIdx = 0;
  std::string name;
  std::vector<PageRef> pv;
  std::map<uint64_t, PageRef> pm;
  bool big() const { return size > (1u << 20); }
  const Page *page(uint64_t n) const {
    if (big()) { auto it = pm.find(n); return it == pm.end() ? nullptr : it->second.get(); }
    return n < pv.size() ? pv[n].get() : nullptr;
  }
  Page &wpage(uint64_t n) {
    PageRef *r;
    if (big()) r = &pm[n];
    else {
      if (pv.size() <= n) pv.resize(n + 1);
      r = &pv[n];
    }
    if (!*r) {
      *r = std::make_shared<Page>();
      memset((*r)->d, 0, PG);
      memset((*r)->st, zero ? B_CONC : B_UNINIT, PG);
    } else if (r->use_count() > 1)
      *r = std::make_shared<Page>(**r);
    return **r;
  }
};
typedef std::shared_ptr<Obj> ObjRef;

struct Input { std::string name; unsigned w; Ex e; };
struct UninitVar { uint64_t heapIdx, off; Ex e; };
struct Obs { std::string name; Val v; };

struct PFunc;
struct Frame {
  PFunc *f = nullptr;
  unsigned bb = 0, ip = 0, prev = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> va;  // arguments beyond the named ones
  int retReg = -1;
};

struct Model {
  Z3_model m;
  Model(Z3_model x) : m(x) { Z3_model_inc_ref(C, m); }
  ~Model() { Z3_model_dec_ref(C, m); }
};
typedef std::shared_ptr<Model> ModelRef;

struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjRef> mem;
  std::vector<Ex> pc;
  std::vector<Input> inputs;
  std::vector<UninitVar> uninits;
  std::vector<Obs> obs;
  std::unordered_map<unsigned, std::pair<Ex, uint64_t>> known;  // by ast id
  uint64_t nextAddr = 0, heapCount = 0, heapLive = 0, fresh = 0;
  int termMode = 0;       // 0: abort/exit is a violation, 1: allowed
  std::string termWhy;
  ModelRef model;
};
typedef std::unique_ptr<State> StateP;

// ---------------------------------------------------------------- module, pre-decoded
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;

struct POp { int kind; int reg; Val c; };  // kind 0: register, 1: constant
struct PInst {
  unsigned op = 0;
  Instruction *I = nullptr;
  int dst = -1;
  unsigned w = 0;
  std::vector<POp> ops;
  // gep: constant part and (reg operand, scale)
  int64_t gepOff = 0;
  std::vector<std::pair<POp, uint64_t>> gepIdx;
  std::vector<unsigned> succ;
  std::vector<std::pair<unsigned, POp>> phi;
  std::vector<uint64_t> caseVals;
  Function *callee = nullptr;
  uint64_t size = 0;
  unsigned pred = 0;
};
struct PBlock { std::vector<PInst> in; };
struct PFunc {
  Function *F = nullptr;
  std::vector<PBlock> bbs;
  unsigned nregs = 0, nargs = 0;
  bool mine = false;  // the harness side, not the project's
};
static std::unordered_map<Function *, std::unique_ptr<PFunc>> pfuncs;
static std::unordered_map<uint64_t, Function *> fnByAddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;

static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
// Something outside what is modelled: gives up this path (and with it completeness).
struct PathEnd { int kind; };  // thrown: 0 done, 1 killed by assumption or given up, 2 after violation
static bool running = false;
[[noreturn]] static void die(const std::string &s) {
  fprintf(stderr, "sx: unsupported: %s\n", s.c_str());
  if (!running) exit(3);
  incomplete = true;
  incompleteWhy = "unsupported: " + s;
  throw PathEnd{1};
}
static std::string show(const Value *v) { std::string s; raw_string_ostream o(s); v->print(o); return o.str(); }

static Val constVal(const Constant *c);
static uint64_t constAddr(const Constant *c) { return constVal(c).c; }
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) die("wide constant");
    return Val(i->getBitWidth(), i->getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val(64, 0);
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    if (c->getType()->isDoubleTy() || c->getType()->isFloatTy())
      return Val(widthOf(c->getType()), f->getValueAPF().bitcastToAPInt().getZExtValue());
    die("fp constant");
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) die("address of " + g->getName().str());
    return Val(64, it->second);
  }
  if (auto *st = dyn_cast<ConstantStruct>(c)) {
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < st->getNumOperands(); i++) v.agg->push_back(constVal(st->getOperand(i)));
    return v;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (widthOf(c->getType())) return Val(widthOf(c->getType()), 0);
    if (auto *sty = dyn_cast<StructType>(c->getType())) {
      Val v; v.agg = std::make_shared<std::vector<Val>>();
      for (unsigned i = 0; i < sty->getNumElements(); i++) v.agg->push_back(Val(widthOf(sty->getElementType(i)), 0));
      return v;
    }
    die("undef " + show(c));
  }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) die("constant gep");
        return Val(64, constAddr(e->getOperand(0)) + off.getSExtValue());
      }
      case Instruction::BitCast:
      case Instruction::IntToPtr:
      case Instruction::PtrToInt: {
        Val v = constVal(e->getOperand(0));
        return Val(widthOf(e->getType()), v.c);
      }
      case Instruction::Trunc: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c);
      case Instruction::Sub: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c);
      case Instruction::Add: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c);
      case Instruction::Mul: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c * constVal(e->getOperand(1)).c);
      case Instruction::And: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c & constVal(e->getOperand(1)).c);
      case Instruction::Or: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c | constVal(e->getOperand(1)).c);
      case Instruction::Xor: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c ^ constVal(e->getOperand(1)).c);
      case Instruction::ZExt: return Val(widthOf(e->getType()), constVal(e->getOperand(0)).c);
      case Instruction::SExt: { Val v = constVal(e->getOperand(0)); return Val(widthOf(e->getType()), (uint64_t)((int64_t)(v.c << (64 - v.w)) >> (64 - v.w))); }
      case Instruction::Select: return constVal(e->getOperand(constVal(e->getOperand(0)).c & 1 ? 1 : 2));
      case Instruction::ICmp: {
        Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1));
        APInt x(a.w, a.c), y(b.w, b.c);
        return Val(1, ICmpInst::compare(x, y, (CmpInst::Predicate)e->getPredicate()));
      }
      default: die("constant expr " + show(c));
    }
  }
  die("constant " + show(c));
}

static bool harnessFile(const Function &F) {
  if (auto *sp = F.getSubprogram()) {
    auto *f = sp->getFile();
    std::string p = f ? (f->getDirectory().str() + "/" + f->getFilename().str()) : "";
    if (f && f->getFilename().starts_with("/")) p = f->getFilename().str();
    return p.find("/harness/") != std::string::npos || p.find("/sx/") != std::string::npos;
  }
  return true;
}

static PFunc *decode1(Function *F);
static PFunc *decode(Function *F) {
  auto it = pfuncs.find(F);
  if (it != pfuncs.end()) return it->second.get();
  try {
    return decode1(F);
  } catch (PathEnd &) {
    pfuncs.erase(F);
    throw;
  }
}
static PFunc *decode1(Function *F) {
  auto &slot = pfuncs[F];
  slot = std::make_unique<PFunc>();
  PFunc *P = slot.get();
  P->F = F;
  P->mine = harnessFile(*F);
  std::unordered_map<const Value *, int> reg;
  std::unordered_map<const BasicBlock *, unsigned> bbn;
  unsigned n = 0;
  for (auto &a : F->args()) reg[&a] = n++;
  P->nargs = n;
  unsigned b = 0;
  for (auto &B : *F) {
    bbn[&B] = b++;
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) reg[&I] = n++;
  }
  P->nregs = n;
  auto op = [&](Value *v) {
    POp o;
    auto it = reg.find(v);
    if (it != reg.end()) { o.kind = 0; o.reg = it->second; return o; }
    o.kind = 1;
    o.reg = -1;
    if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c);
    else die("operand " + show(v));
    return o;
  };
  for (auto &B : *F) {
    PBlock pb;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      PInst p;
      p.I = &I;
      p.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) p.dst = reg[&I];
      p.w = widthOf(I.getType());
      switch (p.op) {
        case Instruction::GetElementPtr: {
          auto *g = cast<GetElementPtrInst>(&I);
          p.ops.push_back(op(g->getPointerOperand()));
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (auto *sty = gi.getStructTypeOrNull()) {
              unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
              p.gepOff += DL->getStructLayout(sty)->getElementOffset(k);
            } else {
              uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) p.gepOff += ci->getSExtValue() * (int64_t)sc;
              else p.gepIdx.push_back({op(gi.getOperand()), sc});
            }
          }
          break;
        }
        case Instruction::Br: {
          auto *br = cast<BranchInst>(&I);
          if (br->isConditional()) p.ops.push_back(op(br->getCondition()));
          for (unsigned i = 0; i < br->getNumSuccessors(); i++) p.succ.push_back(bbn[br->getSuccessor(i)]);
          break;
        }
        case Instruction::Switch: {
          auto *sw = cast<SwitchInst>(&I);
          p.ops.push_back(op(sw->getCondition()));
          p.succ.push_back(bbn[sw->getDefaultDest()]);
          for (auto &cs : sw->cases()) {
            p.caseVals.push_back(cs.getCaseValue()->getZExtValue());
            p.succ.push_back(bbn[cs.getCaseSuccessor()]);
          }
          break;
        }
        case Instruction::PHI: {
          auto *ph = cast<PHINode>(&I);
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
            p.phi.push_back({bbn[ph->getIncomingBlock(i)], op(ph->getIncomingValue(i))});
          break;
        }
        case Instruction::Call: {
          auto *ci = cast<CallInst>(&I);
          p.callee = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts());
          if (ci->isInlineAsm()) die("inline asm");
          if (!p.callee) p.ops.push_back(op(ci->getCalledOperand()));
          bool isIntr = p.callee && p.callee->isIntrinsic();
          for (auto &a : ci->args()) {
            if (a->getType()->isMetadataTy()) continue;
            (void)isIntr;
            p.ops.push_back(op(a.get()));
          }
          break;
        }
        case Instruction::Alloca: {
          auto *al = cast<AllocaInst>(&I);
          p.size = DL->getTypeAllocSize(al->getAllocatedType());
          p.ops.push_back(op(al->getArraySize()));
          break;
        }
        case Instruction::Load: {
          p.size = DL->getTypeStoreSize(I.getType());
          p.ops.push_back(op(I.getOperand(0)));
          break;
        }
        case Instruction::Store: {
          p.size = DL->getTypeStoreSize(I.getOperand(0)->getType());
          p.ops.push_back(op(I.getOperand(0)));
          p.ops.push_back(op(I.getOperand(1)));
          break;
        }
        case Instruction::ICmp:
        case Instruction::FCmp:
          p.pred = cast<CmpInst>(&I)->getPredicate();
          [[fallthrough]];
        default:
          for (auto &o : I.operands()) p.ops.push_back(op(o.get()));
      }
      pb.in.push_back(std::move(p));
    }
    P->bbs.push_back(std::move(pb));
  }
  return P;
}

static std::string where(State &s);
// ---------------------------------------------------------------- solver
static Z3_solver S;
static std::vector<Ex> onStack;
static unsigned dumped = 0;

static void dumpQuery(State &s, const Ex &extra, Z3_lbool r) {
  if (dumped >= optDumpSmt || r == Z3_L_UNDEF) return;
  // sample: every 2^k-th query, so that the set spans the run
  if (nQueries & (nQueries - 1)) { if (nQueries % 97) return; }
  std::vector<Z3_ast> as;
  for (size_t i = 0; i + 1 <= s.pc.size(); i++) as.push_back(s.pc[i].a);
  std::string t = Z3_benchmark_to_smtlib_string(C, "q", optFP ? "QF_BVFP" : "QF_BV", r == Z3_L_TRUE ? "sat" : "unsat", "", as.size(),
                                                as.empty() ? nullptr : as.data(), extra.a);
  char fn[32];
  snprintf(fn, sizeof fn, "/q%04u.smt2", dumped++);
  std::ofstream f(optOut + fn);
  f << t;
}

// Is pc /\ extra satisfiable?  If so *out is a model of it.
static bool sat(State &s, const Ex &extra, ModelRef *out) {
  double t0 = nowS();
  size_t k = 0;
  while (k < onStack.size() && k < s.pc.size() && onStack[k].a == s.pc[k].a) k++;
  if (onStack.size() > k) {
    Z3_solver_pop(C, S, onStack.size() - k);
    onStack.resize(k);
  }
  for (; k < s.pc.size(); k++) {
    Z3_solver_push(C, S);
    Z3_solver_assert(C, S, s.pc[k].a);
    onStack.push_back(s.pc[k]);
  }
  Z3_solver_push(C, S);
  Z3_solver_assert(C, S, extra.a);
  if (getenv("SX_DUMPFIRST")) dumpQuery(s, extra, Z3_L_TRUE);
  Z3_lbool r = Z3_solver_check(C, S);
  nQueries++;
  bool ret = false;
  if (r == Z3_L_TRUE) {
    nSat++;
    ret = true;
    if (out) *out = std::make_shared<Model>(Z3_solver_get_model(C, S));
  } else if (r == Z3_L_FALSE)
    nUnsat++;
  Z3_solver_pop(C, S, 1);
  if (r == Z3_L_UNDEF) {
    // A fresh solver with the bit-blasting tactic before giving up.
    Z3_tactic t = Z3_mk_tactic(C, optFP ? "qffpbv" : "qfbv");
    Z3_tactic_inc_ref(C, t);
    Z3_solver s2 = Z3_mk_solver_from_tactic(C, t);
    Z3_solver_inc_ref(C, s2);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 120000);
    Z3_solver_set_params(C, s2, p);
    for (auto &x : s.pc) Z3_solver_assert(C, s2, x.a);
    Z3_solver_assert(C, s2, extra.a);
    r = Z3_solver_check(C, s2);
    if (r == Z3_L_TRUE) {
      nSat++;
      ret = true;
      if (out) *out = std::make_shared<Model>(Z3_solver_get_model(C, s2));
    } else if (r == Z3_L_FALSE)
      nUnsat++;
    else {
      incomplete = true;
      incompleteWhy = "solver gave no answer within its limit";
    }
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, s2);
    Z3_tactic_dec_ref(C, t);
  }
  tSolver += nowS() - t0;
  if (getenv("SX_SLOW") && nowS() - t0 > atof(getenv("SX_SLOW"))) {
    static unsigned k = 0;
    std::vector<Z3_ast> as;
    for (auto &x : s.pc) as.push_back(x.a);
    std::ofstream f(optOut + "/slow" + std::to_string(k++) + ".smt2");
    f << Z3_benchmark_to_smtlib_string(C, "q", optFP ? "QF_BVFP" : "QF_BV", "unknown", "", as.size(), as.empty() ? nullptr : as.data(), extra.a);
    fprintf(stderr, "slow query %.1fs result %d at %s\n", nowS() - t0, (int)r, where(s).c_str());
  }
  if (optDumpSmt) dumpQuery(s, extra, r);
  return ret;
}
static Ex evalIn(const ModelRef &m, const Ex &e) {
  Z3_ast r;
  if (!Z3_model_eval(C, m->m, e.a, true, &r)) die("model evaluation");
  return Ex(r);
}
static uint64_t evalNum(const ModelRef &m, const Ex &e) {
  Ex r = evalIn(m, e);
  int b = Z3_get_sort_kind(C, Z3_get_sort(C, r.a)) == Z3_BOOL_SORT ? boolLit(r) : -1;
  if (b >= 0) return b;
  uint64_t v;
  if (!numLit(r, v)) die("model value");
  return v;
}

// ---------------------------------------------------------------- states
static std::vector<StateP> worklist;
static std::unordered_map<std::string, uint64_t> siteForks;

static std::string where(State &s) {
  std::string r;
  for (size_t i = s.st.size(); i-- > 0;) {
    Frame &f = s.st[i];
    auto &blk = f.f->bbs[f.bb];
    unsigned ip = f.ip < blk.in.size() ? f.ip : blk.in.size() - 1;
    unsigned line = 0;
    std::string file = "?";
    if (const DebugLoc &dl = blk.in[ip].I->getDebugLoc()) {
      line = dl.getLine();
      file = cast<DIScope>(dl.getScope())->getFilename().str();
      size_t p = file.rfind('/');
      if (p != std::string::npos) file = file.substr(p + 1);
    }
    if (!r.empty()) r += " < ";
    r += f.f->F->getName().str() + "@" + file + ":" + std::to_string(line);
  }
  return r;
}

// The same path with every input the model leaves open set to a telling value rather than 0,
// if the path (and the violated condition) allows that.
static ModelRef diversify(State &s, ModelRef m, const Ex *extra) {
  if (!m) return m;
  for (int round = 0; round < 2; round++) {
    Z3_model d = Z3_mk_model(C);
    auto r = std::make_shared<Model>(d);
    unsigned k = 0;
    auto put = [&](const Ex &e, unsigned w) {
      k++;
      if (Z3_get_ast_kind(C, e.a) != Z3_APP_AST) return;
      Z3_func_decl fd = Z3_get_app_decl(C, Z3_to_app(C, e.a));
      if (Z3_get_decl_kind(C, fd) != Z3_OP_UNINTERPRETED || Z3_model_has_interp(C, d, fd)) return;
      bool open = !Z3_model_has_interp(C, m->m, fd) && (w == 8 || round == 0) &&
                  Z3_get_sort_kind(C, Z3_get_sort(C, e.a)) == Z3_BV_SORT;
      Ex v = open ? Ex(Z3_mk_unsigned_int64(C, 1 + (k * 37 + 11) % 113, Z3_get_sort(C, e.a))) : evalIn(m, e);
      Z3_add_const_interp(C, d, fd, v.a);
    };
    for (auto &in : s.inputs) put(in.e, in.w);
    for (auto &u : s.uninits) put(u.e, 8);
    bool ok = true;
    for (auto &c : s.pc) if (boolLit(simp(evalIn(r, c))) != 1) { ok = false; break; }
    if (ok && extra && boolLit(simp(evalIn(r, *extra))) != 1) ok = false;
    if (ok) return r;
  }
  return m;
}

static void writeInputs(State &s, ModelRef m, const std::string &fn, const std::string &msg, const Ex *extra = nullptr) {
  m = diversify(s, m, extra);
  std::ofstream f(fn);
  f << "# " << msg << "\n";
  f << "case " << optCase << "\n";
  for (auto &in : s.inputs) {
    uint64_t v = m ? evalNum(m, in.e) : 0;
    f << "in " << in.w << " " << v << " " << in.name << "\n";
  }
  std::map<uint64_t, std::map<uint64_t, unsigned>> h;
  for (auto &u : s.uninits)
    if (u.heapIdx) h[u.heapIdx][u.off] = m ? (unsigned)evalNum(m, u.e) : 0;
  for (auto &k : h)
    for (auto &o : k.second) f << "heap " << k.first << " " << o.first << " " << o.second << "\n";
  for (auto &o : s.obs) f << "obs " << (o.v.sym() ? evalNum(m, asBV(o.v)) : o.v.c) << " " << o.name << "\n";
}

static void violation(State &s, ModelRef m, const std::string &kind, const std::string &msg, const Ex *extra = nullptr) {
  std::string w = where(s);
  std::string key = kind + "|" + msg;
  unsigned &k = violCount[key];
  k++;
  if (k > 3 || nViol >= optMaxViol * 4) return;
  std::string fn = optOut + "/viol" + std::to_string(nViol) + ".in";
  nViol++;
  writeInputs(s, m, fn, kind + ": " + msg + " at " + w, extra);
  optTime = std::min(optTime, nowS() - tStart + (getenv("SX_FAST") ? 1 : 120));   // one is enough: look a little further
  printf("VIOL\t%s\t%s\t%s\t%s\n", kind.c_str(), msg.c_str(), w.c_str(), fn.c_str());
  fflush(stdout);
}

static void ensureModel(State &s) {
  if (s.model) return;
  ModelRef m;
  if (!sat(s, Ex(Z3_mk_true(C)), &m)) {
    if (incomplete) throw PathEnd{1};
    throw PathEnd{1};
  }
  s.model = m;
}

static void learn(State &s, const Ex &c) {
  // record  e == const  facts so that the same term is concrete from here on
  if (Z3_get_ast_kind(C, c.a) == Z3_APP_AST) {
    Z3_app app = Z3_to_app(C, c.a);
    Z3_decl_kind dk = Z3_get_decl_kind(C, Z3_get_app_decl(C, app));
    if (dk == Z3_OP_EQ) {
      Ex a(Z3_get_app_arg(C, app, 0)), b(Z3_get_app_arg(C, app, 1));
      uint64_t v;
      if (Z3_get_sort_kind(C, Z3_get_sort(C, a.a)) == Z3_BV_SORT) {
        if (numLit(b, v)) s.known[Z3_get_ast_id(C, a.a)] = {a, v};
        else if (numLit(a, v)) s.known[Z3_get_ast_id(C, b.a)] = {b, v};
      }
    } else if (dk == Z3_OP_AND) {
      for (unsigned i = 0; i < Z3_get_app_num_args(C, app); i++) learn(s, Ex(Z3_get_app_arg(C, app, i)));
    }
  }
}
static void addPC(State &s, const Ex &c) {
  s.pc.push_back(c);
  learn(s, c);
}

static StateP forkState(State &s) {
  nForks++;
  return std::make_unique<State>(s);
}

// Decide a condition on this path; the other outcome, where feasible, goes to the worklist
// and executes the current instruction again.
static bool decide(State &s, const Ex &c0) {
  Ex c = simp(c0);
  int b = boolLit(c);
  if (b >= 0) return b;
  ensureModel(s);
  bool cur = boolLit(simp(evalIn(s.model, c))) == 1;
  Ex notc = simp(mkNot(c));
  const Ex &other = cur ? notc : c;
  const Ex &mine = cur ? c : notc;
  ModelRef m2;
  if (sat(s, other, &m2)) {
    StateP n = forkState(s);
    addPC(*n, other);
    n->model = m2;
    worklist.push_back(std::move(n));
    addPC(s, mine);
  }
  return cur;
}

static void lookupKnown(State &s, Val &v) {
  if (!v.sym() || v.w == 1) return;
  auto it = s.known.find(Z3_get_ast_id(C, v.e.a));
  if (it != s.known.end()) { v.c = it->second.second; v.e = Ex(); }
}

static uint64_t concretize(State &s, Val v) {
  if (!v.sym()) return v.c;
  lookupKnown(s, v);
  if (!v.sym()) return v.c;
  ensureModel(s);
  Ex bv = asBV(v);
  uint64_t x = evalNum(s.model, bv);
  Ex eq = mkEq(bv, bvc(x, v.w));
  Ex ne = mkNot(eq);
  ModelRef m2;
  if (sat(s, ne, &m2)) {
    std::string site = where(s);
    if (++siteForks[site] > optMaxStatesPerValue) {
      incomplete = true;
      incompleteWhy = "too many values at " + site;
      throw PathEnd{1};
    }
    StateP n = forkState(s);
    addPC(*n, ne);
    n->model = m2;
    worklist.push_back(std::move(n));
    addPC(s, eq);
  } else {
    // implied: remember it, at no cost in path constraints
    s.known[Z3_get_ast_id(C, v.e.a)] = {v.e, x};
  }
  return x;
}

// ---------------------------------------------------------------- memory access
static const uint64_t GAP = 1ULL << 20;
static ObjRef newObj(State &s, uint64_t size, const std::string &name, bool heap, bool zero) {
  auto o = std::make_shared<Obj>();
  o->base = s.nextAddr;
  o->size = size;
  o->name = name;
  o->heap = heap;
  o->zero = zero;
  if (heap) {
    o->heapIdx = ++s.heapCount;
    s.heapLive++;
  }
  uint64_t step = ((size + GAP) / 4096 + 1) * 4096;
  s.nextAddr += step;
  s.mem[o->base] = o;
  return o;
}
static ObjRef *findObj(State &s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it == s.mem.begin()) return nullptr;
  --it;
  if (addr - it->second->base > it->second->size) return nullptr;
  return &it->second;
}
static void memError(State &s, const std::string &what) {
  ensureModel(s);
  violation(s, s.model, "memory", what);
  throw PathEnd{2};
}
static Obj &access(State &s, uint64_t addr, uint64_t n, bool write, uint64_t &off) {
  ObjRef *r = findObj(s, addr);
  if (!r) memError(s, std::string(write ? "write to" : "read from") + " an invalid address");
  off = addr - (*r)->base;
  if (!(*r)->alive) memError(s, std::string(write ? "write to" : "read from") + " freed or dead memory");
  if (off + n > (*r)->size) memError(s, std::string(write ? "write" : "read") + " outside the bounds of an object");
  if (write && (*r)->ro) memError(s, "write to read-only memory");
  if (write && r->use_count() > 1) *r = std::make_shared<Obj>(**r);
  return **r;
}
static SymByte loadByte(State &s, Obj &o, uint64_t off, uint8_t &cv, bool &conc) {
  const Page *p = o.page(off / PG);
  unsigned i = off % PG;
  uint8_t st = p ? p->st[i] : (o.zero ? B_CONC : B_UNINIT);
  if (st == B_CONC) {
    conc = true;
    cv = p ? p->d[i] : 0;
    return SymByte();
  }
  conc = false;
  if (st == B_SYM) return p->sy.at(i);
  // uninitialised: an arbitrary byte, the same one on every later read
  std::string nm = "uninit_" + std::to_string(o.id ? o.id : o.base) + "_" + std::to_string(off);
  Ex e(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bvs(8)));
  ObjRef *r = findObj(s, o.base);
  if (r->use_count() > 1) *r = std::make_shared<Obj>(**r);
  Page &wp = (*r)->wpage(off / PG);
  wp.st[i] = B_SYM;
  wp.sy[i] = SymByte{e, 0};
  s.uninits.push_back({o.heapIdx, off, e});
  return SymByte{e, 0};
}
static void storeByte(Obj &o, uint64_t off, bool conc, uint8_t cv, const SymByte &sb) {
  Page &p = o.wpage(off / PG);
  unsigned i = off % PG;
  if (conc) {
    if (p.st[i] == B_SYM) p.sy.erase(i);
    p.st[i] = B_CONC;
    p.d[i] = cv;
  } else {
    p.st[i] = B_SYM;
    p.sy[i] = sb;
  }
}
static unsigned exW(const Ex &e) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, e.a)); }
static Ex byteEx(const SymByte &b) {
  if (exW(b.e) == 8) return b.e;
  return Ex(Z3_mk_extract(C, b.idx * 8 + 7, b.idx * 8, b.e.a));
}
static Val loadN(State &s, uint64_t addr, unsigned n, unsigned w) {
  uint64_t off;
  access(s, addr, n, false, off);
  std::vector<SymByte> sb(n);
  std::vector<uint8_t> cv(n);
  std::vector<char> conc(n);
  bool all = true;
  for (unsigned i = 0; i < n; i++) {
    Obj &o = **findObj(s, addr);  // (loadByte may replace it)
    bool c;
    sb[i] = loadByte(s, o, off + i, cv[i], c);
    conc[i] = c;
    if (!c) all = false;
  }
  if (all) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t)cv[i] << (8 * i);
    return Val(w, v);
  }
  // the bytes of one whole expression
  if (!conc[0] && sb[0].idx == 0 && exW(sb[0].e) == 8 * n) {
    bool same = true;
    for (unsigned i = 1; i < n && same; i++) same = !conc[i] && sb[i].e.a == sb[0].e.a && sb[i].idx == i;
    if (same) {
      Val v;
      if (w == 1) return mkVal(1, mkEq(Ex(Z3_mk_extract(C, 0, 0, sb[0].e.a)), bvc(1, 1)));
      if (w != 8 * n) return mkVal(w, Ex(Z3_mk_extract(C, w - 1, 0, sb[0].e.a)));
      v.w = w;
      v.e = sb[0].e;
      lookupKnown(s, v);
      return v;
    }
  }
  Ex r = conc[0] ? bvc(cv[0], 8) : byteEx(sb[0]);
  for (unsigned i = 1; i < n; i++) {
    Ex b = conc[i] ? bvc(cv[i], 8) : byteEx(sb[i]);
    r = Ex(Z3_mk_concat(C, b.a, r.a));
  }
  if (w == 1) return mkVal(1, mkEq(Ex(Z3_mk_extract(C, 0, 0, r.a)), bvc(1, 1)));
  if (w != 8 * n) r = Ex(Z3_mk_extract(C, w - 1, 0, r.a));
  Val v = mkVal(w, r);
  lookupKnown(s, v);
  return v;
}
static void storeN(State &s, uint64_t addr, unsigned n, const Val &v) {
  uint64_t off;
  Obj &o = access(s, addr, n, true, off);
  if (!v.sym()) {
    for (unsigned i = 0; i < n; i++) storeByte(o, off + i, true, (uint8_t)(v.c >> (8 * i)), SymByte());
    return;
  }
  Ex e = asBV(v);
  if (v.w < 8 * n) e = Ex(Z3_mk_zero_ext(C, 8 * n - v.w, e.a));
  for (unsigned i = 0; i < n; i++) storeByte(o, off + i, false, 0, SymByte{e, i});
}
static void copyBytes(State &s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return;
  uint64_t so, dof;
  access(s, sr, n, false, so);
  access(s, d, n, true, dof);
  std::vector<SymByte> sb(n);
  std::vector<uint8_t> cv(n);
  std::vector<char> st(n);
  Obj *so_ = findObj(s, sr)->get();
  for (uint64_t i = 0; i < n; i++) {
    const Page *p = so_->page((so + i) / PG);
    unsigned k = (so + i) % PG;
    st[i] = p ? p->st[k] : (so_->zero ? B_CONC : B_UNINIT);
    if (st[i] == B_CONC) cv[i] = p ? p->d[k] : 0;
    else if (st[i] == B_SYM) sb[i] = p->sy.at(k);
    else {
      bool c;
      sb[i] = loadByte(s, *so_, so + i, cv[i], c);  // make it a definite arbitrary byte
      so_ = findObj(s, sr)->get();
    }
  }
  Obj &o = access(s, d, n, true, dof);
  for (uint64_t i = 0; i < n; i++) storeByte(o, dof + i, st[i] == B_CONC, cv[i], sb[i]);
}

static Val resolvePtr(State &s, const Val &p) {
  if (!p.sym()) return p;
  return Val(64, concretize(s, p));
}

static std::string cstr(State &s, uint64_t a) {
  std::string r;
  for (;;) {
    Val v = loadN(s, a++, 1, 8);
    uint64_t c = concretize(s, v);
    if (!c) return r;
    r += (char)c;
    if (r.size() > 100000) die("string too long");
  }
}

// ---------------------------------------------------------------- interpreter
static Val getOp(State &s, Frame &f, const POp &o) {
  if (o.kind == 0) {
    Val &v = f.regs[o.reg];
    if (v.sym()) lookupKnown(s, v);
    return v;
  }
  return o.c;
}
static int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskW(w);
  return (int64_t)((v ^ m) - m);
}

static void ubViol(State &s, const Ex &bad, const std::string &msg) {
  Ex b = simp(bad);
  int l = boolLit(b);
  if (l == 0) return;
  if (l == 1) {
    ensureModel(s);
    violation(s, s.model, "arith", msg);
    throw PathEnd{2};
  }
  ModelRef m;
  nChecks++;
  if (sat(s, b, &m)) {
    violation(s, m, "arith", msg, &b);
    Ex n = simp(mkNot(b));
    ModelRef m3;
    if (!sat(s, n, &m3)) throw PathEnd{2};
    addPC(s, n);
    s.model = m3;
  } else
    nDischarged++;
}

static Val binop(State &s, PInst &p, const Val &a, const Val &b) {
  unsigned w = a.w;
  unsigned op = p.op;
  if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem)
    ubViol(s, mkEq(asBV(b), bvc(0, w)), "division by zero");
  if (!a.sym() && !b.sym()) {
    uint64_t x = a.c, y = b.c, r = 0;
    int64_t sx_ = sx(x, w), sy = sx(y, w);
    bool ovf = false;
    switch (op) {
      case Instruction::Add: r = x + y; { __int128 t = (__int128)sx_ + sy; ovf = t != sx((uint64_t)t, w); } break;
      case Instruction::Sub: r = x - y; { __int128 t = (__int128)sx_ - sy; ovf = t != sx((uint64_t)t, w); } break;
      case Instruction::Mul: r = x * y; { __int128 t = (__int128)sx_ * sy; ovf = t != sx((uint64_t)t, w); } break;
      case Instruction::SDiv: if (sy == -1) r = -x; else r = sx_ / sy; break;
      case Instruction::SRem: r = sy == -1 ? 0 : sx_ % sy; break;
      case Instruction::UDiv: r = x / y; break;
      case Instruction::URem: r = x % y; break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break;
      case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: r = y >= w ? (sx_ < 0 ? ~0ULL : 0) : (uint64_t)(sx_ >> y); break;
      default: die("binop");
    }
    if (optNsw && ovf && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul) &&
        cast<OverflowingBinaryOperator>(p.I)->hasNoSignedWrap())
      ubViol(s, Ex(Z3_mk_true(C)), "signed integer overflow");
    return Val(w, r);
  }
  if (w == 1) {
    Ex x = asBool(a), y = asBool(b);
    switch (op) {
      case Instruction::And: return mkVal(1, mkAnd(x, y));
      case Instruction::Or: return mkVal(1, mkOr(x, y));
      case Instruction::Xor: return mkVal(1, Ex(Z3_mk_xor(C, x.a, y.a)));
      default: die("i1 binop");
    }
  }
  Ex x = asBV(a), y = asBV(b);
  if (optNsw && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul) &&
      cast<OverflowingBinaryOperator>(p.I)->hasNoSignedWrap()) {
    Ex ok;
    if (op == Instruction::Add)
      ok = mkAnd(Ex(Z3_mk_bvadd_no_overflow(C, x.a, y.a, true)), Ex(Z3_mk_bvadd_no_underflow(C, x.a, y.a)));
    else if (op == Instruction::Sub)
      ok = mkAnd(Ex(Z3_mk_bvsub_no_overflow(C, x.a, y.a)), Ex(Z3_mk_bvsub_no_underflow(C, x.a, y.a, true)));
    else
      ok = mkAnd(Ex(Z3_mk_bvmul_no_overflow(C, x.a, y.a, true)), Ex(Z3_mk_bvmul_no_underflow(C, x.a, y.a)));
    ubViol(s, mkNot(ok), "signed integer overflow");
  }
  Z3_ast r = nullptr;
  // Signed division by a power of two, spelled out: the solver would build a full divider.
  if (!b.sym() && (op == Instruction::SDiv || op == Instruction::SRem) && (int64_t)b.c > 1 &&
      sx(b.c, w) > 1 && !(b.c & (b.c - 1))) {
    unsigned k = __builtin_ctzll(b.c);
    Ex z = bvc(0, w), neg = Ex(Z3_mk_bvslt(C, x.a, z.a)), mask = bvc(b.c - 1, w);
    Ex bias = Ex(Z3_mk_ite(C, neg.a, mask.a, z.a));
    Ex sum = Ex(Z3_mk_bvadd(C, x.a, bias.a));
    if (op == Instruction::SDiv) return mkVal(w, Ex(Z3_mk_bvashr(C, sum.a, bvc(k, w).a)));
    Ex low = Ex(Z3_mk_bvand(C, sum.a, mask.a));
    return mkVal(w, Ex(Z3_mk_bvsub(C, low.a, bias.a)));
  }
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(C, x.a, y.a); break;
    case Instruction::Sub: r = Z3_mk_bvsub(C, x.a, y.a); break;
    case Instruction::Mul: r = Z3_mk_bvmul(C, x.a, y.a); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x.a, y.a); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(C, x.a, y.a); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(C, x.a, y.a); break;
    case Instruction::URem: r = Z3_mk_bvurem(C, x.a, y.a); break;
    case Instruction::And: r = Z3_mk_bvand(C, x.a, y.a); break;
    case Instruction::Or: r = Z3_mk_bvor(C, x.a, y.a); break;
    case Instruction::Xor: r = Z3_mk_bvxor(C, x.a, y.a); break;
    case Instruction::Shl: r = Z3_mk_bvshl(C, x.a, y.a); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(C, x.a, y.a); break;
    case Instruction::AShr: r = Z3_mk_bvashr(C, x.a, y.a); break;
    default: die("binop");
  }
  return mkVal(w, Ex(r));
}

static Val icmp(unsigned pred, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym()) {
    uint64_t x = a.c, y = b.c;
    int64_t i = sx(x, w), j = sx(y, w);
    bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = i > j; break;
      case CmpInst::ICMP_SGE: r = i >= j; break;
      case CmpInst::ICMP_SLT: r = i < j; break;
      case CmpInst::ICMP_SLE: r = i <= j; break;
    }
    return Val(1, r);
  }
  if (w == 1) {
    Ex x = asBool(a), y = asBool(b);
    if (pred == CmpInst::ICMP_EQ) return mkVal(1, mkEq(x, y));
    if (pred == CmpInst::ICMP_NE) return mkVal(1, mkNot(mkEq(x, y)));
  }
  Ex x = asBV(a), y = asBV(b);
  Z3_ast r = nullptr;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x.a, y.a); break;
    case CmpInst::ICMP_NE: return mkVal(1, mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x.a, y.a); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x.a, y.a); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x.a, y.a); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x.a, y.a); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x.a, y.a); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x.a, y.a); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x.a, y.a); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x.a, y.a); break;
    default: die("icmp");
  }
  return mkVal(1, Ex(r));
}

// doubles only (bits in a 64-bit value)
static double asD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
// The solver is one for bit-vectors until the first floating-point term.
static void newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = getenv("SX_SIMPLE") ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, optFP ? "QF_BVFP" : "QF_BV"));
  Z3_solver_inc_ref(C, S);
  Z3_params zp = Z3_mk_params(C);
  Z3_params_inc_ref(C, zp);
  Z3_params_set_uint(C, zp, Z3_mk_string_symbol(C, "timeout"), 2000);
  Z3_solver_set_params(C, S, zp);
  Z3_params_dec_ref(C, zp);
  onStack.clear();
}
static Z3_sort fsort(unsigned w) {
  static Z3_sort d, f;
  if (!optFP) { optFP = true; newSolver(); }
  if (!d) {
    d = Z3_mk_fpa_sort_double(C); Z3_inc_ref(C, Z3_sort_to_ast(C, d));
    f = Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, f));
  }
  if (w != 32 && w != 64) die("float width");
  return w == 64 ? d : f;
}
static Ex toFP(const Val &v) {
  Z3_sort d = fsort(v.w);
  Ex b = asBV(v);
  if (Z3_get_ast_kind(C, b.a) == Z3_APP_AST) {   // the value of a floating-point term: no detour through its bits
    Z3_app p = Z3_to_app(C, b.a);
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_FPA_TO_IEEE_BV) return Ex(Z3_get_app_arg(C, p, 0));
  }
  return Ex(Z3_mk_fpa_to_fp_bv(C, b.a, d)); }
static Ex rne() { return Ex(Z3_mk_fpa_rne(C)); }
static Ex rtz() { return Ex(Z3_mk_fpa_rtz(C)); }
static Val fromFP(const Ex &e, unsigned w = 64) {
  Val v;
  v.w = w;
  v.e = simp(Ex(Z3_mk_fpa_to_ieee_bv(C, e.a)));
  uint64_t n;
  if (numLit(v.e, n)) { v.c = n; v.e = Ex(); }
  return v;
}
static Val fbin(unsigned op, const Val &a, const Val &b) {
  if (!a.sym() && !b.sym() && a.w == 64) {
    double x = asD(a.c), y = asD(b.c), r = 0;
    switch (op) {
      case Instruction::FAdd: r = x + y; break;
      case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break;
      case Instruction::FDiv: r = x / y; break;
      default: die("fbin");
    }
    return Val(64, fromD(r));
  }
  Ex x = toFP(a), y = toFP(b), m = rne();
  switch (op) {
    case Instruction::FAdd: return fromFP(Ex(Z3_mk_fpa_add(C, m.a, x.a, y.a)), a.w);
    case Instruction::FSub: return fromFP(Ex(Z3_mk_fpa_sub(C, m.a, x.a, y.a)), a.w);
    case Instruction::FMul: return fromFP(Ex(Z3_mk_fpa_mul(C, m.a, x.a, y.a)), a.w);
    case Instruction::FDiv: return fromFP(Ex(Z3_mk_fpa_div(C, m.a, x.a, y.a)), a.w);
  }
  die("fbin");
}
static Val fcmp(unsigned pred, const Val &a, const Val &b) {
  if (pred == CmpInst::FCMP_FALSE) return Val(1, 0);
  if (pred == CmpInst::FCMP_TRUE) return Val(1, 1);
  Ex x = toFP(a), y = toFP(b);
  Ex un = Ex(Z3_mk_fpa_is_nan(C, x.a)), un2 = Ex(Z3_mk_fpa_is_nan(C, y.a));
  Z3_ast uu[2] = {un.a, un2.a};
  Ex U = Ex(Z3_mk_or(C, 2, uu)), r;
  unsigned o = pred & 7;   // the ordered relation; +8 in LLVM's numbering also accepts NaN
  switch (o) {
    case 0: r = U; break;                                      // UNO is 8 | 0
    case 1: r = Ex(Z3_mk_fpa_eq(C, x.a, y.a)); break;
    case 2: r = Ex(Z3_mk_fpa_gt(C, x.a, y.a)); break;
    case 3: r = Ex(Z3_mk_fpa_geq(C, x.a, y.a)); break;
    case 4: r = Ex(Z3_mk_fpa_lt(C, x.a, y.a)); break;
    case 5: r = Ex(Z3_mk_fpa_leq(C, x.a, y.a)); break;
    case 6: { Ex q = Ex(Z3_mk_fpa_eq(C, x.a, y.a)); Ex n = mkNot(q), m = mkNot(U); Z3_ast k[2] = {n.a, m.a}; r = Ex(Z3_mk_and(C, 2, k)); break; }
    case 7: r = mkNot(U); break;                               // ORD
  }
  if (pred & 8) { Z3_ast k[2] = {r.a, U.a}; r = Ex(Z3_mk_or(C, 2, k)); }
  return mkVal(1, simp(r));
}

static void pushFrame(State &s, Function *F, std::vector<Val> &args, int retReg) {
  PFunc *P = decode(F);
  if (!P->mine) functionsRun.insert(F->getName().str());
  Frame f;
  f.f = P;
  f.regs.resize(P->nregs);
  for (unsigned i = 0; i < P->nargs && i < args.size(); i++) f.regs[i] = args[i];
  if (F->isVarArg())
    for (unsigned i = P->nargs; i < args.size(); i++) f.va.push_back(args[i]);
  f.retReg = retReg;
  s.st.push_back(std::move(f));
  if (s.st.size() > 400) { ensureModel(s); violation(s, s.model, "hang", "call depth over 400"); throw PathEnd{2}; }
}

static void finishPath(State &s, const char *how) {
  nPaths++;
  // sample: first ones, then sparsely
  static unsigned samples = 0;
  bool take = samples < optSamples && (nPaths <= optSamples / 2 || (nPaths & (nPaths - 1)) == 0);
  if (take) {
    ensureModel(s);
    std::string fn = optOut + "/path" + std::to_string(samples++) + ".in";
    writeInputs(s, s.model, fn, how);
    printf("PATH\t%s\t%s\n", how, fn.c_str());
  }
  throw PathEnd{0};
}

static void terminated(State &s, const std::string &how) {
  nTerm++;
  if (s.termMode == 0) {
    ensureModel(s);
    violation(s, s.model, "terminated", "the library ended the program (" + how + ") where it must not: " + s.termWhy);
    throw PathEnd{2};
  }
  covered.insert("<terminated>" + s.termWhy);
  finishPath(s, ("terminated " + how).c_str());
}

// printf family.  Returns the bytes of the formatted text.
static std::vector<Val> format(State &s, const std::string &fmt, const std::vector<Val> &a, bool lenient) {
  std::vector<Val> out;
  size_t k = 0;
  auto lit = [&](const std::string &t) { for (char c : t) out.push_back(Val(8, (unsigned char)c)); };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out.push_back(Val(8, (unsigned char)fmt[i])); continue; }
    size_t j = i + 1;
    while (j < fmt.size() && strchr("-+ #0123456789.lhzjt*", fmt[j])) j++;
    if (j >= fmt.size()) break;
    char cv = fmt[j];
    std::string spec = fmt.substr(i, j - i + 1);
    i = j;
    if (cv == '%') { lit("%"); continue; }
    for (size_t st; (st = spec.find('*')) != std::string::npos && k < a.size();)
      spec = spec.substr(0, st) + std::to_string((int)concretize(s, a[k++])) + spec.substr(st + 1);
    if (k >= a.size()) { lit("?"); continue; }
    Val v = a[k++];
    if (v.sym() && lenient && cv != 's') { lit("?"); continue; }
    bool isL = spec.find_first_of("lzjt") != std::string::npos;
    if (!isL && cv != 's' && cv != 'p' && strchr("diuxXc", cv) && v.w == 64 && v.sym()) v = mkVal(32, Ex(Z3_mk_extract(C, 31, 0, asBV(v).a)));
    char buf[512];
    switch (cv) {
      case 'd': case 'i':
        if (!v.sym()) {
          if (isL) snprintf(buf, sizeof buf, spec.c_str(), (long)v.c);
          else snprintf(buf, sizeof buf, spec.c_str(), (int)v.c);
          lit(buf);
        } else {
          // symbolic decimal: decide sign and length, keep the digits symbolic
          if (spec != "%d" && spec != "%i" && spec != "%ld" && spec != "%li") die("symbolic format " + spec);
          Ex x = asBV(v);
          unsigned w = v.w;
          bool neg = decide(s, Ex(Z3_mk_bvslt(C, x.a, bvc(0, w).a)));
          Ex mag = neg ? Ex(Z3_mk_bvneg(C, x.a)) : x;
          unsigned nd = 1;
          uint64_t p10 = 10;
          while (nd < (w > 32 ? 19u : 10u) && !decide(s, Ex(Z3_mk_bvult(C, mag.a, bvc(p10, w).a)))) { nd++; p10 *= 10; }
          if (neg) lit("-");
          uint64_t d = 1;
          for (unsigned q = 1; q < nd; q++) d *= 10;
          for (unsigned q = 0; q < nd; q++, d /= 10) {
            Ex t(Z3_mk_bvurem(C, Ex(Z3_mk_bvudiv(C, mag.a, bvc(d, w).a)).a, bvc(10, w).a));
            Ex b(Z3_mk_bvadd(C, Ex(Z3_mk_extract(C, 7, 0, t.a)).a, bvc('0', 8).a));
            out.push_back(mkVal(8, b));
          }
        }
        break;
      case 'u': case 'x': case 'X': case 'o': {
        uint64_t c = concretize(s, v);
        if (isL) snprintf(buf, sizeof buf, spec.c_str(), (unsigned long)c);
        else snprintf(buf, sizeof buf, spec.c_str(), (unsigned)c);
        lit(buf);
        break;
      }
      case 'c': out.push_back(v.sym() ? mkVal(8, Ex(Z3_mk_extract(C, 7, 0, asBV(v).a))) : Val(8, v.c)); break;
      case 'p': lit("0xptr"); break;
      case 'f': case 'g': case 'e':
        if (v.sym()) lit("?"); else { snprintf(buf, sizeof buf, spec.c_str(), asD(v.c)); lit(buf); }
        break;
      case 's': {
        uint64_t p = concretize(s, v);
        size_t prec = std::string::npos, dot = spec.find('.');
        if (dot != std::string::npos) prec = atoi(spec.c_str() + dot + 1);
        for (size_t q = 0; q < prec; q++) {
          Val b = loadN(s, p + q, 1, 8);
          if (lenient) { if (b.sym()) { lit("?"); break; } if (!b.c) break; }
          else if (decide(s, mkEq(asBV(b), bvc(0, 8)))) break;
          out.push_back(b);
        }
        break;
      }
      default: die("format " + spec);
    }
  }
  return out;
}
static std::string stdoutBuf;

static bool external(State &s, Frame &f, PInst &p, Function *F, std::vector<Val> &a);

static void addInput(State &s, const std::string &name, unsigned w, Val &out) {
  std::string nm = "in_" + std::to_string(s.inputs.size()) + "_" + name;
  Ex e(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bvs(w)));
  s.inputs.push_back({name, w, e});
  out.w = w;
  out.e = e;
  out.c = 0;
}

static void step(State &s) {
  Frame &f = s.st.back();
  PInst &p = f.f->bbs[f.bb].in[f.ip];
  nInstr++;
  auto set = [&](const Val &v) { if (p.dst >= 0) f.regs[p.dst] = v; };
  switch (p.op) {
    case Instruction::Alloca: {
      uint64_t n = concretize(s, getOp(s, f, p.ops[0]));
      if (p.size * n > 65536) { // the default stack of a process is 8 MB
        uint64_t sum = p.size * n;
        for (Frame &g : s.st) for (uint64_t b : g.allocas) { auto it = s.mem.find(b); if (it != s.mem.end()) sum += it->second->size; }
        if (p.size * n > (8u << 20) || sum > (8u << 20)) {
          ensureModel(s);
          violation(s, s.model, "memory", "stack overflow: over 8 MB of local variables");
          throw PathEnd{2};
        }
      }
      ObjRef o = newObj(s, p.size * n, "stack", false, false);
      f.allocas.push_back(o->base);
      set(Val(64, o->base));
      break;
    }
    case Instruction::Load: {
      Val a = resolvePtr(s, getOp(s, f, p.ops[0]));
      if (auto *sty = dyn_cast<StructType>(p.I->getType())) {
        auto *L = DL->getStructLayout(sty);
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < sty->getNumElements(); i++) {
          Type *et = sty->getElementType(i);
          if (!widthOf(et)) die("load of " + show(p.I));
          v.agg->push_back(loadN(s, a.c + L->getElementOffset(i), DL->getTypeStoreSize(et), widthOf(et)));
        }
        set(v);
        break;
      }
      if (!p.w) die("load of " + show(p.I));
      set(loadN(s, a.c, p.size, p.w));
      break;
    }
    case Instruction::Store: {
      Val v = getOp(s, f, p.ops[0]);
      Val a = resolvePtr(s, getOp(s, f, p.ops[1]));
      if (v.agg) {
        auto *sty = dyn_cast<StructType>(p.I->getOperand(0)->getType());
        if (!sty) die("aggregate store");
        auto *L = DL->getStructLayout(sty);
        for (unsigned i = 0; i < sty->getNumElements(); i++)
          storeN(s, a.c + L->getElementOffset(i), DL->getTypeStoreSize(sty->getElementType(i)), (*v.agg)[i]);
        break;
      }
      storeN(s, a.c, p.size, v);
      break;
    }
    case Instruction::GetElementPtr: {
      Val b = getOp(s, f, p.ops[0]);
      bool sy = b.sym();
      uint64_t acc = b.sym() ? 0 : b.c;
      acc += p.gepOff;
      Ex se = b.e;
      for (auto &ix : p.gepIdx) {
        Val i = getOp(s, f, ix.first);
        if (!i.sym()) acc += (uint64_t)sx(i.c, i.w) * ix.second;
        else {
          Ex e = asBV(i);
          if (i.w < 64) e = Ex(Z3_mk_sign_ext(C, 64 - i.w, e.a));
          if (ix.second != 1) e = Ex(Z3_mk_bvmul(C, e.a, bvc(ix.second, 64).a));
          se = sy ? Ex(Z3_mk_bvadd(C, se.a, e.a)) : e;
          sy = true;
        }
      }
      if (!sy) set(Val(64, acc));
      else set(mkVal(64, acc ? Ex(Z3_mk_bvadd(C, se.a, bvc(acc, 64).a)) : se));
      break;
    }
    case Instruction::Br: {
      unsigned t;
      if (p.ops.empty()) t = p.succ[0];
      else {
        Val c = getOp(s, f, p.ops[0]);
        bool b = c.sym() ? decide(s, c.e) : c.c;
        t = b ? p.succ[0] : p.succ[1];
      }
      f.prev = f.bb;
      f.bb = t;
      f.ip = 0;
      return;
    }
    case Instruction::Switch: {
      Val c = getOp(s, f, p.ops[0]);
      unsigned t = p.succ[0];
      if (!c.sym()) {
        for (size_t i = 0; i < p.caseVals.size(); i++)
          if ((p.caseVals[i] & maskW(c.w)) == c.c) { t = p.succ[i + 1]; break; }
      } else {
        for (size_t i = 0; i < p.caseVals.size(); i++)
          if (decide(s, mkEq(asBV(c), bvc(p.caseVals[i], c.w)))) { t = p.succ[i + 1]; break; }
      }
      f.prev = f.bb;
      f.bb = t;
      f.ip = 0;
      return;
    }
    case Instruction::PHI: {
      // all phis of the block at once
      std::vector<std::pair<int, Val>> vs;
      unsigned ip = f.ip;
      auto &in = f.f->bbs[f.bb].in;
      while (ip < in.size() && in[ip].op == Instruction::PHI) {
        for (auto &x : in[ip].phi)
          if (x.first == f.prev) { vs.push_back({in[ip].dst, getOp(s, f, x.second)}); break; }
        ip++;
      }
      for (auto &x : vs) f.regs[x.first] = x.second;
      f.ip = ip;
      return;
    }
    case Instruction::Select: {
      Val c = getOp(s, f, p.ops[0]), a = getOp(s, f, p.ops[1]), b = getOp(s, f, p.ops[2]);
      if (!c.sym()) { set(c.c ? a : b); break; }
      if (a.w == 1) set(mkVal(1, Ex(Z3_mk_ite(C, c.e.a, asBool(a).a, asBool(b).a))));
      else set(mkVal(a.w, Ex(Z3_mk_ite(C, c.e.a, asBV(a).a, asBV(b).a))));
      break;
    }
    case Instruction::ICmp: set(icmp(p.pred, getOp(s, f, p.ops[0]), getOp(s, f, p.ops[1]))); break;
    case Instruction::FCmp: set(fcmp(p.pred, getOp(s, f, p.ops[0]), getOp(s, f, p.ops[1]))); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      set(fbin(p.op, getOp(s, f, p.ops[0]), getOp(s, f, p.ops[1])));
      break;
    case Instruction::FNeg: {
      Val v = getOp(s, f, p.ops[0]);
      if (v.sym()) set(mkVal(v.w, Ex(Z3_mk_bvxor(C, asBV(v).a, bvc(1ULL << (v.w - 1), v.w).a))));
      else set(Val(v.w, v.c ^ (1ULL << (v.w - 1))));
      break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      Val v = getOp(s, f, p.ops[0]);
      bool sg = p.op == Instruction::SIToFP;
      Z3_sort d = fsort(p.w);
      Ex m = rne(), b = asBV(v);
      set(fromFP(Ex(sg ? Z3_mk_fpa_to_fp_signed(C, m.a, b.a, d) : Z3_mk_fpa_to_fp_unsigned(C, m.a, b.a, d)), p.w));
      break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Ex x = toFP(getOp(s, f, p.ops[0])), m = rtz();
      Ex r = simp(Ex(p.op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(C, m.a, x.a, p.w) : Z3_mk_fpa_to_ubv(C, m.a, x.a, p.w)));
      set(mkVal(p.w, r));
      break;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
      Ex x = toFP(getOp(s, f, p.ops[0])), m = rne();
      set(fromFP(Ex(Z3_mk_fpa_to_fp_float(C, m.a, x.a, fsort(p.w))), p.w));
      break;
    }
    case Instruction::Trunc: {
      Val v = getOp(s, f, p.ops[0]);
      if (!v.sym()) set(Val(p.w, v.c));
      else if (p.w == 1) set(mkVal(1, mkEq(Ex(Z3_mk_extract(C, 0, 0, asBV(v).a)), bvc(1, 1))));
      else set(mkVal(p.w, Ex(Z3_mk_extract(C, p.w - 1, 0, asBV(v).a))));
      break;
    }
    case Instruction::ZExt: {
      Val v = getOp(s, f, p.ops[0]);
      if (!v.sym()) set(Val(p.w, v.c));
      else if (v.w == 1) set(mkVal(p.w, Ex(Z3_mk_ite(C, v.e.a, bvc(1, p.w).a, bvc(0, p.w).a))));
      else set(mkVal(p.w, Ex(Z3_mk_zero_ext(C, p.w - v.w, asBV(v).a))));
      break;
    }
    case Instruction::SExt: {
      Val v = getOp(s, f, p.ops[0]);
      if (!v.sym()) set(Val(p.w, (uint64_t)sx(v.c, v.w)));
      else if (v.w == 1) set(mkVal(p.w, Ex(Z3_mk_ite(C, v.e.a, bvc(~0ULL, p.w).a, bvc(0, p.w).a))));
      else set(mkVal(p.w, Ex(Z3_mk_sign_ext(C, p.w - v.w, asBV(v).a))));
      break;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: {
      Val v = getOp(s, f, p.ops[0]);
      if (p.w == v.w || v.agg) set(v);
      else if (!v.sym()) set(Val(p.w, v.c));
      else if (p.w < v.w) set(mkVal(p.w, Ex(Z3_mk_extract(C, p.w - 1, 0, asBV(v).a))));
      else set(mkVal(p.w, Ex(Z3_mk_zero_ext(C, p.w - v.w, asBV(v).a))));
      break;
    }
    case Instruction::ExtractValue: {
      Val v = getOp(s, f, p.ops[0]);
      auto idx = cast<ExtractValueInst>(p.I)->getIndices();
      if (!v.agg || idx.size() != 1) die("extractvalue");
      set((*v.agg)[idx[0]]);
      break;
    }
    case Instruction::InsertValue: {
      Val v = getOp(s, f, p.ops[0]), e = getOp(s, f, p.ops[1]);
      auto idx = cast<InsertValueInst>(p.I)->getIndices();
      if (!v.agg || idx.size() != 1) die("insertvalue");
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(*v.agg);
      (*r.agg)[idx[0]] = e;
      set(r);
      break;
    }
    case Instruction::Ret: {
      Val r;
      bool has = !p.ops.empty();
      if (has) r = getOp(s, f, p.ops[0]);
      for (uint64_t a : f.allocas) s.mem.erase(a);
      int rr = f.retReg;
      s.st.pop_back();
      if (s.st.empty()) finishPath(s, "returned");
      Frame &c = s.st.back();
      if (rr >= 0) c.regs[rr] = r;
      c.ip++;
      return;
    }
    case Instruction::Unreachable: {
      incomplete = true;
      incompleteWhy = "unreachable executed at " + where(s);
      throw PathEnd{1};
    }
    case Instruction::Call: {
      Function *F = p.callee;
      size_t k = 0;
      if (!F) {
        Val t = getOp(s, f, p.ops[0]);
        uint64_t ad = concretize(s, t);
        auto it = fnByAddr.find(ad);
        if (it == fnByAddr.end()) memError(s, "call through an invalid function pointer");
        F = it->second;
        k = 1;
      }
      std::vector<Val> a;
      for (; k < p.ops.size(); k++) a.push_back(getOp(s, f, p.ops[k]));
      if (!F->isDeclaration() && !F->isIntrinsic()) {
        // Calls through mismatched prototypes: pass what is there, coerced to the callee's widths.
        unsigned n = 0;
        for (auto &fa : F->args()) {
          if (n >= a.size()) break;
          unsigned w = widthOf(fa.getType());
          if (w && a[n].w && w != a[n].w) {
            if (w < a[n].w) a[n] = a[n].sym() ? mkVal(w, Ex(Z3_mk_extract(C, w - 1, 0, asBV(a[n]).a))) : Val(w, a[n].c);
            else a[n] = a[n].sym() ? mkVal(w, Ex(Z3_mk_zero_ext(C, w - a[n].w, asBV(a[n]).a))) : Val(w, a[n].c);
          }
          n++;
        }
        std::vector<uint64_t> own; // structures passed by value: the callee works on its own copy
        for (auto &fa : F->args())
          if (fa.hasByValAttr() && fa.getArgNo() < a.size()) {
            uint64_t len = DL->getTypeAllocSize(fa.getParamByValType());
            ObjRef o = newObj(s, len, "stack", false, false);
            copyBytes(s, o->base, concretize(s, a[fa.getArgNo()]), len);
            a[fa.getArgNo()] = Val(64, o->base);
            own.push_back(o->base);
          }
        pushFrame(s, F, a, p.dst);
        for (uint64_t b : own) s.st.back().allocas.push_back(b);
        return;
      }
      if (external(s, f, p, F, a)) return;
      break;
    }
    default:
      if (p.I->isBinaryOp()) {
        set(binop(s, p, getOp(s, f, p.ops[0]), getOp(s, f, p.ops[1])));
        break;
      }
      die("instruction " + show(p.I));
  }
  f.ip++;
}

// Functions without a body.  Returns true when the instruction pointer has been dealt with.
static bool external(State &s, Frame &f, PInst &p, Function *F, std::vector<Val> &a) {
  std::string n = F->getName().str();
  auto set = [&](const Val &v) {
    if (p.dst < 0) return;
    Val x = v;
    if (p.w && x.w != p.w && !x.sym()) x = Val(p.w, x.c);
    f.regs[p.dst] = x;
  };
  auto starts = [&](const char *t) { return n.rfind(t, 0) == 0; };
  if (starts("llvm.")) {
    if (starts("llvm.memcpy") || starts("llvm.memmove")) {
      uint64_t len = concretize(s, a[2]);
      uint64_t d = concretize(s, a[0]), sr = concretize(s, a[1]);
      copyBytes(s, d, sr, len);
      return false;
    }
    if (starts("llvm.memset")) {
      uint64_t len = concretize(s, a[2]);
      uint64_t d = concretize(s, a[0]);
      Val b = a[1];
      for (uint64_t i = 0; i < len; i++) storeN(s, d + i, 1, b);
      return false;
    }
    if (starts("llvm.stacksave")) { set(Val(64, f.allocas.size())); return false; }
    if (starts("llvm.stackrestore")) {
      uint64_t k = concretize(s, a[0]);
      while (f.allocas.size() > k) { s.mem.erase(f.allocas.back()); f.allocas.pop_back(); }
      return false;
    }
    if (starts("llvm.va_end")) return false;
    if (starts("llvm.va_copy")) { copyBytes(s, concretize(s, a[0]), concretize(s, a[1]), 24); return false; }
    if (starts("llvm.va_start")) {  // every argument is in the overflow area
      ObjRef o = newObj(s, 8 * f.va.size() + 1, "variable arguments", false, true);
      f.allocas.push_back(o->base);
      uint64_t base = o->base, l = concretize(s, a[0]);
      for (size_t i = 0; i < f.va.size(); i++) {
        Val v = f.va[i];
        if (v.agg || v.w > 64) die("variable argument");
        if (v.w < 64) v = v.sym() ? mkVal(64, Ex(Z3_mk_sign_ext(C, 64 - v.w, asBV(v).a))) : Val(64, (uint64_t)sx(v.c, v.w));
        storeN(s, base + 8 * i, 8, v);
      }
      storeN(s, l, 4, Val(32, 48)); storeN(s, l + 4, 4, Val(32, 176)); storeN(s, l + 8, 8, Val(64, base)); storeN(s, l + 16, 8, Val(64, 0));
      return false;
    }
    if (starts("llvm.expect") || starts("llvm.threadlocal.address") || starts("llvm.launder") || starts("llvm.strip")) { set(a[0]); return false; }
    if (starts("llvm.is.constant")) { set(Val(1, 0)); return false; }
    if (starts("llvm.objectsize")) { set(Val(p.w, concretize(s, a[1]) ? 0 : ~0ULL)); return false; }
    if (starts("llvm.fmuladd")) { set(fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2])); return false; }
    if (starts("llvm.bswap")) {
      Val x = a[0];
      uint64_t y = 0;
      if (x.sym()) {
        Ex b;
        for (unsigned i = 0; i < x.w; i += 8) { Ex e(Z3_mk_extract(C, i + 7, i, asBV(x).a)); b = i ? Ex(Z3_mk_concat(C, b.a, e.a)) : e; }
        set(mkVal(x.w, b));
      } else {
        for (unsigned i = 0; i < x.w; i += 8) y = y << 8 | (x.c >> i & 255);
        set(Val(x.w, y));
      }
      return false;
    }
    if (starts("llvm.ctpop") || starts("llvm.ctlz") || starts("llvm.cttz")) {
      uint64_t x = concretize(s, a[0]);
      unsigned w = a[0].w, k = 0;
      if (starts("llvm.ctpop")) k = __builtin_popcountll(x);
      else if (starts("llvm.ctlz")) for (k = 0; k < w && !(x >> (w - 1 - k) & 1); k++);
      else for (k = 0; k < w && !(x >> k & 1); k++);
      set(Val(w, k));
      return false;
    }
    if (n.find(".with.overflow") != std::string::npos) {
      bool sg = n[5] == 's';
      std::string op = n.substr(6, 3);
      unsigned w = a[0].w, W = 2 * w;
      Ex x = asBV(a[0]), y = asBV(a[1]);
      auto ext = [&](Ex e) { return Ex(sg ? Z3_mk_sign_ext(C, W - w, e.a) : Z3_mk_zero_ext(C, W - w, e.a)); };
      Ex X = ext(x), Y = ext(y);
      auto ap = [&](Ex u, Ex v) { return Ex(op == "add" ? Z3_mk_bvadd(C, u.a, v.a) : op == "sub" ? Z3_mk_bvsub(C, u.a, v.a) : Z3_mk_bvmul(C, u.a, v.a)); };
      Ex full = ap(X, Y), low = simp(ap(x, y));
      Ex ov = simp(mkNot(mkEq(full, ext(low))));
      Val rv;
      rv.agg = std::make_shared<std::vector<Val>>();
      rv.agg->push_back(mkVal(w, low));
      int b = boolLit(ov);
      rv.agg->push_back(b >= 0 ? Val(1, b) : mkVal(1, ov));
      set(rv);
      return false;
    }
    if (starts("llvm.lifetime") || starts("llvm.dbg") || starts("llvm.assume")) return false;
    if (starts("llvm.abs") || starts("llvm.smax") || starts("llvm.smin") || starts("llvm.umax") || starts("llvm.umin")) {
      Val x = a[0], y = a[1];
      Ex X = asBV(x), Y = asBV(y), r;
      unsigned w = x.w;
      if (starts("llvm.abs")) r = Ex(Z3_mk_ite(C, Z3_mk_bvslt(C, X.a, bvc(0, w).a), Z3_mk_bvneg(C, X.a), X.a));
      else if (starts("llvm.smax")) r = Ex(Z3_mk_ite(C, Z3_mk_bvsgt(C, X.a, Y.a), X.a, Y.a));
      else if (starts("llvm.smin")) r = Ex(Z3_mk_ite(C, Z3_mk_bvslt(C, X.a, Y.a), X.a, Y.a));
      else if (starts("llvm.umax")) r = Ex(Z3_mk_ite(C, Z3_mk_bvugt(C, X.a, Y.a), X.a, Y.a));
      else r = Ex(Z3_mk_ite(C, Z3_mk_bvult(C, X.a, Y.a), X.a, Y.a));
      set(mkVal(w, r));
      return false;
    }
    if (starts("llvm.trap")) { terminated(s, "trap"); }
    die(n);
  }
  if (n == "malloc" || n == "calloc") {
    uint64_t sz = concretize(s, a[0]);
    if (n == "calloc") sz *= concretize(s, a[1]);
    if (sz > (1ULL << 40)) memError(s, "absurd allocation size");
    ObjRef o = newObj(s, sz, "heap", true, n == "calloc");
    set(Val(64, o->base));
    return false;
  }
  if (n == "realloc") {
    uint64_t old = concretize(s, a[0]), sz = concretize(s, a[1]);
    uint64_t osz = 0;
    if (old) {
      ObjRef *r = findObj(s, old);
      if (!r || (*r)->base != old || !(*r)->heap || !(*r)->alive) memError(s, "realloc of something not allocated");
      osz = (*r)->size;
    }
    ObjRef o = newObj(s, sz, "heap", true, false);
    if (old) {
      copyBytes(s, o->base, old, std::min(sz, osz));
      ObjRef *r = findObj(s, old);
      *r = std::make_shared<Obj>(**r);
      (*r)->alive = false;
      s.heapLive--;
    }
    set(Val(64, o->base));
    return false;
  }
  if (n == "free") {
    uint64_t ad = concretize(s, a[0]);
    if (!ad) return false;
    ObjRef *r = findObj(s, ad);
    if (!r || (*r)->base != ad || !(*r)->heap) memError(s, "free of something not allocated");
    if (!(*r)->alive) memError(s, "double free");
    *r = std::make_shared<Obj>(**r);
    (*r)->alive = false;
    s.heapLive--;
    return false;
  }
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") {
    uint64_t len = concretize(s, a[2]);
    uint64_t d = concretize(s, a[0]), sr = concretize(s, a[1]);
    if (n.find("memcpy") != std::string::npos && d != sr && len && d < sr + len && sr < d + len)
      memError(s, "memcpy of overlapping regions");
    copyBytes(s, d, sr, len);
    set(Val(64, d));
    return false;
  }
  if (n == "memset") {
    uint64_t len = concretize(s, a[2]);
    uint64_t d = concretize(s, a[0]);
    Val b = a[1].sym() ? mkVal(8, Ex(Z3_mk_extract(C, 7, 0, asBV(a[1]).a))) : Val(8, a[1].c);
    for (uint64_t i = 0; i < len; i++) storeN(s, d + i, 1, b);
    set(Val(64, d));
    return false;
  }
  if (n == "abort" || n == "__assert_fail" || n == "raise") { terminated(s, "abort"); }
  if (n == "posix_memalign" || n == "aligned_alloc" || n == "memalign" || n == "reallocarray" || n == "mempcpy" || n == "getenv" || n == "atexit" || n == "secure_getenv") {
    if (n == "getenv" || n == "secure_getenv") { set(Val(64, 0)); return false; }
    if (n == "atexit") { set(Val(32, 0)); return false; }
    if (n == "mempcpy") {
      uint64_t len = concretize(s, a[2]), d = concretize(s, a[0]);
      copyBytes(s, d, concretize(s, a[1]), len);
      set(Val(64, d + len));
      return false;
    }
    if (n == "reallocarray") {
      uint64_t old = concretize(s, a[0]), sz = concretize(s, a[1]) * concretize(s, a[2]), osz = 0;
      if (old) {
        ObjRef *r = findObj(s, old);
        if (!r || (*r)->base != old || !(*r)->heap || !(*r)->alive) memError(s, "realloc of something not allocated");
        osz = (*r)->size;
      }
      ObjRef o = newObj(s, sz, "heap", true, false);
      if (old) {
        copyBytes(s, o->base, old, std::min(sz, osz));
        ObjRef *r = findObj(s, old);
        *r = std::make_shared<Obj>(**r);
        (*r)->alive = false;
        s.heapLive--;
      }
      set(Val(64, o->base));
      return false;
    }
    uint64_t sz = concretize(s, a[n == "posix_memalign" ? 2 : 1]), to = n == "posix_memalign" ? concretize(s, a[0]) : 0;
    if (sz > (1ULL << 40)) memError(s, "absurd allocation size");
    uint64_t base = newObj(s, sz, "heap", true, false)->base;
    if (to) { storeN(s, to, 8, Val(64, base)); set(Val(32, 0)); }
    else set(Val(64, base));
    return false;
  }
  if (n == "vprintf" || n == "vfprintf" || n == "vsprintf" || n == "vsnprintf" || n == "vdprintf" || n == "dprintf" || n == "__vsnprintf_chk" || n == "__vfprintf_chk" || n == "__fprintf_chk" || n == "__printf_chk") {
    if (n == "dprintf" || n == "__fprintf_chk" || n == "__printf_chk") { set(Val(32, 0)); return false; }
    size_t fi = n == "vprintf" ? 0 : n == "vfprintf" || n == "vsprintf" || n == "vdprintf" ? 1 : n == "vsnprintf" || n == "__vfprintf_chk" ? 2 : 4;
    uint64_t l = concretize(s, a[fi + 1]);
    uint64_t gp = concretize(s, loadN(s, l, 4, 32)), area = concretize(s, loadN(s, l + 8, 8, 64));
    if (gp != 48) die(n);
    std::vector<Val> rest;
    ObjRef *ob = findObj(s, area);
    if (ob)
      for (uint64_t q = area, e = (*ob)->base + (*ob)->size; q + 8 <= e; q += 8) rest.push_back(loadN(s, q, 8, 64));
    bool str = n == "vsprintf" || n == "vsnprintf" || n == "__vsnprintf_chk";
    std::vector<Val> b = format(s, cstr(s, concretize(s, a[fi])), rest, !str);
    if (str) {
      uint64_t d = concretize(s, a[0]), lim = n == "vsprintf" ? ~0ULL : concretize(s, a[1]), k = 0;
      for (; k < b.size() && k + 1 < lim; k++) storeN(s, d + k, 1, b[k]);
      if (lim) storeN(s, d + k, 1, Val(8, 0));
    }
    set(Val(32, b.size()));
    return false;
  }
  if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") {
    s.obs.push_back({"exit", a[0]});
    // an exit code the harness wants to see
    auto want = s.known.find(0xffffffffu);
    if (s.termMode == 2 && want != s.known.end()) {
      Ex c = mkNot(mkEq(asBV(a[0]), want->second.first ? want->second.first : bvc(want->second.second, 32)));
      nChecks++;
      ModelRef m;
      c = simp(c);
      if (boolLit(c) == 0) { nDischarged++; nTriv++; }
      else if (sat(s, c, &m)) violation(s, m, "check", "wrong exit status: " + s.termWhy, &c);
      else nDischarged++;
    }
    if (s.termMode == 1) {
      ModelRef m;
      nChecks++;
      Ex z = simp(mkEq(asBV(a[0]), bvc(0, 32)));
      if (boolLit(z) == 0) { nDischarged++; nTriv++; }
      else if (sat(s, z, &m)) violation(s, m, "check", "ended with exit status 0 on an error: " + s.termWhy, &z);
      else nDischarged++;
    }
    terminated(s, "exit");
  }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fflush" || n == "perror" ||
      n == "fputc" || n == "putc" || n == "setvbuf" || n == "fwrite") {
    if (!optStdout.empty()) {
      if (n == "printf") {
        std::vector<Val> rest(a.begin() + 1, a.end());
        for (auto &b : format(s, cstr(s, concretize(s, a[0])), rest, true)) stdoutBuf += b.sym() ? '?' : (char)b.c;
      } else if (n == "puts") stdoutBuf += cstr(s, concretize(s, a[0])) + "\n";
      else if (n == "putchar") stdoutBuf += (char)concretize(s, a[0]);
    } else if ((n == "printf" || n == "fprintf") && a.size() > 0) {
      // the text is not modelled, but a %s argument is still read
      size_t k = n == "printf" ? 0 : 1;
      std::vector<Val> rest(a.begin() + k + 1, a.end());
      format(s, cstr(s, concretize(s, a[k])), rest, true);
    }
    set(Val(p.w ? p.w : 32, 0));
    return false;
  }
  if (n == "sprintf" || n == "snprintf" || n == "__sprintf_chk" || n == "__snprintf_chk") {
    uint64_t d = concretize(s, a[0]);
    size_t fi = n == "sprintf" ? 1 : n == "snprintf" ? 2 : n == "__sprintf_chk" ? 3 : 4;
    uint64_t lim = ~0ULL;
    if (n.find("snprintf") != std::string::npos) lim = concretize(s, a[1]);
    std::vector<Val> rest(a.begin() + fi + 1, a.end());
    std::vector<Val> b = format(s, cstr(s, concretize(s, a[fi])), rest, false);
    uint64_t k = 0;
    for (; k < b.size() && k + 1 < lim; k++) storeN(s, d + k, 1, b[k]);
    if (lim) storeN(s, d + k, 1, Val(8, 0));
    set(Val(32, b.size()));
    return false;
  }
  // ---------------- harness interface
  if (n == "sx_i32" || n == "sx_i64" || n == "sx_u8") {
    std::string nm = cstr(s, a[0].c);
    Val v;
    addInput(s, nm, n == "sx_i32" ? 32 : n == "sx_i64" ? 64 : 8, v);
    set(v);
    return false;
  }
  if (n == "sx_bytes") {
    uint64_t d = concretize(s, a[0]), len = concretize(s, a[1]);
    std::string nm = cstr(s, a[2].c);
    for (uint64_t i = 0; i < len; i++) {
      Val v;
      addInput(s, nm, 8, v);
      storeN(s, d + i, 1, v);
    }
    return false;
  }
  if (n == "sx_assume") {
    Ex c = simp(asBool(a[0]));
    int b = boolLit(c);
    if (b == 1) return false;
    if (b == 0) { nAssumeKill++; throw PathEnd{1}; }
    bool okNow = s.model && boolLit(simp(evalIn(s.model, c))) == 1;
    if (!okNow) {
      ModelRef m;
      if (!sat(s, c, &m)) { nAssumeKill++; throw PathEnd{1}; }
      s.model = m;
    }
    addPC(s, c);
    return false;
  }
  if (n == "sx_check_") {
    std::string msg = cstr(s, a[1].c);
    nChecks++;
    Ex c = simp(asBool(a[0]));
    int b = boolLit(c);
    if (b == 1) { nDischarged++; nTriv++; return false; }
    if (b == 0) {
      ensureModel(s);
      violation(s, s.model, "check", msg);
      throw PathEnd{2};
    }
    Ex nc = simp(mkNot(c));
    ModelRef m;
    bool bad = false;
    if (s.model && boolLit(simp(evalIn(s.model, c))) == 0) { bad = true; m = s.model; }
    else bad = sat(s, nc, &m);
    if (bad) {
      violation(s, m, "check", msg, &nc);
      ModelRef m3;
      if (!sat(s, c, &m3)) throw PathEnd{2};
      addPC(s, c);
      s.model = m3;
    } else
      nDischarged++;
    return false;
  }
  if (n == "sx_cover") { covered.insert(cstr(s, a[0].c)); return false; }
  if (n == "sx_pick") {  // a value in [lo,hi], one path per value
    std::string nm = cstr(s, a[0].c);
    uint64_t lo = concretize(s, a[1]), hi = concretize(s, a[2]);
    if ((int32_t)lo > (int32_t)hi) { nAssumeKill++; throw PathEnd{1}; }
    // one fresh input per (path, call); forks never re-execute this instruction
    Val v;
    addInput(s, nm, 32, v);
    for (int32_t k = (int32_t)hi; k > (int32_t)lo; k--) {
      StateP c = forkState(s);
      addPC(*c, mkEq(v.e, bvc((uint32_t)k, 32)));
      c->model = nullptr;
      Frame &cf = c->st.back();
      if (p.dst >= 0) cf.regs[p.dst] = Val(32, (uint32_t)k);
      cf.ip++;
      worklist.push_back(std::move(c));
    }
    addPC(s, mkEq(v.e, bvc((uint32_t)lo, 32)));
    s.model = nullptr;
    set(Val(32, (uint32_t)lo));
    return false;
  }
  if (n == "sx_conc") { set(Val(32, concretize(s, a[0]))); return false; }
  if (n == "sx_case") { set(Val(32, optCase)); return false; }
  if (n == "sx_term_forbidden") { s.termMode = 0; s.termWhy = cstr(s, a[0].c); return false; }
  if (n == "sx_term_allowed") { s.termMode = 1; s.termWhy = cstr(s, a[0].c); return false; }
  if (n == "sx_term_exit") {
    s.termMode = 2;
    s.termWhy = cstr(s, a[1].c);
    s.known[0xffffffffu] = {a[0].e, a[0].c};
    return false;
  }
  if (n == "sx_obs") { s.obs.push_back({cstr(s, a[0].c), a[1]}); return false; }
  if (n == "sx_heap_live") { set(Val(64, s.heapLive)); return false; }
  if (n == "sx_native") { set(Val(32, 0)); return false; }
  if (n == "sx_protect") {  // make an object read-only (1) or writable (0)
    uint64_t d = concretize(s, a[0]);
    ObjRef *r = findObj(s, d);
    if (!r) die("sx_protect");
    *r = std::make_shared<Obj>(**r);
    (*r)->ro = concretize(s, a[1]) != 0;
    return false;
  }
  if (n == "sx_bigbuf") {  // a sparse, zero-filled object of any size
    uint64_t sz = concretize(s, a[0]);
    ObjRef o = newObj(s, sz, "big", false, true);
    set(Val(64, o->base));
    return false;
  }
  if (n == "sx_end") { finishPath(s, "ended"); }
  die("call of " + n);
}

static void run(StateP s) {
  try {
    uint64_t lim = 0;
    for (;;) {
      step(*s);
      if ((++lim & 0xfff) == 0) {
        if (nowS() - tStart > optTime) { incomplete = true; incompleteWhy = "time limit"; throw PathEnd{1}; }
        if (lim > optMaxInstr) {
          s->st.resize(s->st.size());
          ensureModel(*s);
          violation(*s, s->model, "hang", "no end after " + std::to_string(optMaxInstr) + " instructions on one path");
          throw PathEnd{2};
        }
      }
    }
  } catch (PathEnd &) {
  }
}

static void jsonStr(std::ostream &o, const std::string &t) {
  o << '"';
  for (char c : t) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if ((unsigned char)c < 32) o << ' ';
    else o << c;
  }
  o << '"';
}

int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string o = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (o == "--time") optTime = std::stod(nx());
    else if (o == "--paths") optMaxPaths = std::stoull(nx());
    else if (o == "--out") optOut = nx();
    else if (o == "--case") optCase = std::stoul(nx());
    else if (o == "--samples") optSamples = std::stoul(nx());
    else if (o == "--nsw") optNsw = true;
    else if (o == "--fp") optFP = true;
    else if (o == "--stdout") optStdout = nx();
    else if (o == "--dump-smt") optDumpSmt = std::stoul(nx());
    else if (o == "--maxvals") optMaxStatesPerValue = std::stoull(nx());
    else if (o == "--instr") optMaxInstr = std::stoull(nx());
    else if (o == "-v") optVerbose = true;
    else bc = o;
  }
  tStart = nowS();
  (void)!system(("mkdir -p '" + optOut + "'").c_str());
  SMDiagnostic err;
  M = parseIRFile(bc, err, LC);
  if (!M) { err.print("sx", errs()); return 3; }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, z3err);
  newSolver();

  auto s = std::make_unique<State>();
  // Below 2^31 nothing is mapped; addresses fit 47 bits, as on the real machine.
  s->nextAddr = 0x100000000000ULL;
  uint64_t fa = 0x1000000;
  for (auto &F : *M) { gaddr[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
  std::vector<std::pair<GlobalVariable *, ObjRef>> gs;
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0;
    ObjRef o = newObj(*s, sz, G.getName().str(), false, true);
    o->id = gs.size() + 1;
    gaddr[&G] = o->base;
    gs.push_back({&G, o});
  }
  std::function<void(Obj &, uint64_t, const Constant *)> init = [&](Obj &o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cds->getElementType());
      for (unsigned i = 0; i < cds->getNumElements(); i++) init(o, off + i * es, cds->getElementAsConstant(i));
      return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) init(o, off + i * es, ca->getOperand(i));
      return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
      auto *sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < cs->getNumOperands(); i++) init(o, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    Val v = constVal(c);
    unsigned nb = DL->getTypeStoreSize(t);
    for (unsigned i = 0; i < nb; i++) storeByte(o, off + i, true, (uint8_t)(v.c >> (8 * i)), SymByte());
  };
  for (auto &g : gs) {
    if (g.first->hasInitializer()) init(*g.second, 0, g.first->getInitializer());
    if (g.first->isConstant()) g.second->ro = true;
  }
  Function *mainF = M->getFunction("main");
  if (!mainF) { fprintf(stderr, "sx: no main\n"); return 3; }
  // cover labels that the harness names
  std::set<std::string> labels;
  std::vector<Val> noargs;
  if (mainF->arg_size() == 2) { noargs.push_back(Val(32, 0)); noargs.push_back(Val(64, 0)); }
  pushFrame(*s, mainF, noargs, -1);
  s->termWhy = "";
  worklist.push_back(std::move(s));
  running = true;
  while (!worklist.empty()) {
    StateP st = std::move(worklist.back());
    worklist.pop_back();
    run(std::move(st));
    if (nowS() - tStart > optTime && !worklist.empty()) { incomplete = true; incompleteWhy = "time limit"; break; }
    if (nPaths >= optMaxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
    if (nViol >= optMaxViol) break;
  }
  if (!optStdout.empty()) { std::ofstream o(optStdout); o << stdoutBuf; }
  std::ofstream o(optOut + "/stats.json");
  o << "{\"incomplete\": " << (incomplete ? "true" : "false") << ", \"why\": ";
  jsonStr(o, incompleteWhy);
  o << ", \"violations\": " << nViol << ", \"paths\": " << nPaths << ", \"terminated\": " << nTerm << ", \"forks\": " << nForks
    << ", \"instructions\": " << nInstr << ", \"queries\": " << nQueries << ", \"sat\": " << nSat << ", \"unsat\": " << nUnsat
    << ", \"solver_s\": " << tSolver << ", \"wall_s\": " << nowS() - tStart << ", \"checks\": " << nChecks
    << ", \"discharged\": " << nDischarged << ", \"trivial\": " << nTriv << ", \"assume_killed\": " << nAssumeKill << ", \"covered\": [";
  bool first = true;
  for (auto &c : covered) { if (!first) o << ", "; first = false; jsonStr(o, c); }
  o << "], \"functions\": [";
  first = true;
  for (auto &c : functionsRun) { if (!first) o << ", "; first = false; jsonStr(o, c); }
  o << "]}\n";
  o.close();
  if (nViol) return 1;
  if (incomplete) { fprintf(stderr, "sx: incomplete: %s\n", incompleteWhy.c_str()); return 2; }
  return 0;
}
