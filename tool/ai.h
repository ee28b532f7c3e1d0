// Abstract interpreter over LLVM IR (static analysis engine of /verif).
//
// Domains (reduced product, per SSA value and per memory cell):
//   integers : KnownBits x ConstantRange (wrapped intervals)
//   floats   : interval + NaN flag
//   pointers : sets of (object, byte-offset interval) + null/unknown flags
//   all      : "may be uninitialised" flag and a taint (provenance) mask
// Memory      : byte-addressed objects, split into disjoint cells, with a
//               default content (uninitialised / zero / unknown).
// Control flow: loops are unrolled while their exit condition is decided by
//               the abstract state, otherwise solved by widening/narrowing
//               fixpoints.  Calls are analysed context-sensitively (inlined).
#pragma once
#include "llvm/ADT/APInt.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/KnownBits.h"
#include "llvm/Support/JSON.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace ai {
using namespace llvm;

enum Taint : uint32_t {
  T_SEED = 1,    // derived from the caller's seed generator
  T_UNINIT = 2,  // (reporting only)
  T_ADDR = 4,    // derived from an address
  T_HW = 8,      // derived from inline asm / hardware / time
  T_PARAM = 16,  // derived from the user's --param string
  T_EXT = 32,    // derived from an unmodelled external call
  T_GEN = 64,    // derived from generator output (get_bits)
  T_RAM = 128,   // RAM info
  T_USER = 256,
  T_USER2 = 512,
};

enum Kind : uint8_t { K_NONE, K_INT, K_PTR, K_FLT, K_AGG };

struct PtrTgt {
  int obj;
  ConstantRange off;   // 64 bit byte offset
  uint64_t stride = 1; // offsets are off.lower + k*stride
};
struct PtrSet {
  std::vector<PtrTgt> t; // sorted by obj
  bool null = false;     // may be null
  bool unk = false;      // may point anywhere (valid external memory)
};
struct Origin { // where the value was loaded from (for refinement)
  int obj = -1;
  int64_t off = 0;
  unsigned size = 0;
  uint64_t stamp = 0;
};

// The value is tab[i] where the bits of i carry the labels lab (0xFFFE and
// 0xFFFD: constant 0 and 1); for pointers tab contains offsets in the object.
struct Lut {
  std::vector<uint64_t> tab;
  std::vector<uint16_t> lab;
  bool possible(uint64_t i) const { for (size_t k = 0; k < lab.size(); k++) { if (lab[k] == 0xFFFE && (i >> k & 1)) return false; if (lab[k] == 0xFFFD && !(i >> k & 1)) return false; } return true; }
};

struct Val {
  Kind k = K_NONE;
  bool undef = false;
  uint32_t taint = 0;
  // integers
  KnownBits kb;
  ConstantRange cr;
  // floats
  double flo = 0, fhi = 0;
  bool nan = false;
  std::shared_ptr<const PtrSet> p;
  std::shared_ptr<const std::vector<Val>> agg;
  std::shared_ptr<const std::vector<uint16_t>> prov; // optional per-bit labels
  std::shared_ptr<const Lut> lut;
  Origin org;
  Val() : kb(1), cr(1, true) {}
  unsigned width() const { return kb.getBitWidth(); }
  bool isConst() const { return k == K_INT && !undef && cr.isSingleElement(); }
  uint64_t cval() const { return cr.getSingleElement()->getZExtValue(); }
};

struct Cell {
  unsigned size;
  Val v;
  uint64_t stamp;
};

enum Def : uint8_t { D_UNINIT, D_ZERO, D_TOP };
enum OKind : uint8_t { O_STACK, O_HEAP, O_GLOBAL, O_FUNC, O_EXT };

// Default content of a byte range [start, end) of an object (cells win).
struct Region {
  int64_t end;
  Def def;
  uint32_t taint;
  Val elem;          // K_NONE: unknown element value
  unsigned esz = 0;  // element size of elem (elements start at the region start)
};
struct Obj {
  int id = -1;
  OKind kind = O_EXT;
  Def def = D_UNINIT;
  bool summary = false;
  bool freed = false;
  bool maybeFreed = false;
  uint32_t deftaint = 0;
  ConstantRange size; // byte size (64 bit)
  const Value *site = nullptr;
  std::string name;
  std::map<int64_t, Cell> cells;
  std::map<int64_t, Region> regs;
  Obj() : size(64, true) {}
};

using ObjP = std::shared_ptr<Obj>;

struct Mem {
  std::map<int, ObjP> o;
};

// Difference bounds between integer SSA values of one frame (mathematical,
// signed values): rel[(a,b)] = c means env[a] - env[b] <= c.
using RelMap = std::map<std::pair<int, int>, int64_t>;

struct State {
  Mem mem;
  std::vector<Val> env;
  RelMap rel;
  std::vector<std::string> trace; // decisions (partitioned mode), for reports
};
struct RetState {
  Mem mem;
  Val ret;
  std::vector<std::string> trace;
  const Instruction *at = nullptr;
};

struct FnInfo {
  Function *F;
  std::shared_ptr<void> scevHold;
  ScalarEvolution *SE = nullptr;
  std::unique_ptr<DominatorTree> DT;
  std::unique_ptr<LoopInfo> LI;
  std::vector<BasicBlock *> rpo;
  std::unordered_map<const BasicBlock *, int> rpoIdx;
  std::unordered_map<const Value *, int> num;
  std::vector<const Value*> vals;
  std::vector<std::vector<int>> liveIn; // per rpo index: live value numbers
  bool irreducible = false;
};

struct Alarm {
  std::string kind, func, file, msg, ctx, stack;
  unsigned line;
  const Instruction *inst;
};

// Stores observed while a loop body is analysed (loop summarisation).
struct LoopRec {
  struct S { Val ptr, val; bool bad = false; };
  std::map<const Instruction *, S> st;
  std::map<int, std::set<const Instruction *>> objs; // writers of an object
  std::set<int> other;                               // written by bulk operations
};
// Operand ranges of additions and trip counts observed in one abstract pass.
struct Watch {
  std::map<std::pair<const Instruction *, unsigned>, std::pair<__int128, __int128>> rng;
  std::map<const BasicBlock *, uint64_t> trips;
  std::set<const BasicBlock *> noTrip;
  void add(const Instruction *I, unsigned k, const Val &v) {
    __int128 lo, hi;
    if (v.k != K_INT || v.width() > 64) { lo = -((__int128) 1 << 64); hi = (__int128) 1 << 64; }
    else if (v.cr.isFullSet() || v.cr.isSignWrappedSet()) {
      if (!v.cr.isFullSet() && !v.cr.isWrappedSet()) { lo = v.cr.getUnsignedMin().getZExtValue(); hi = v.cr.getUnsignedMax().getZExtValue(); }
      else { lo = v.cr.getSignedMin().getSExtValue(); hi = v.cr.getSignedMax().getSExtValue(); }
    } else { lo = v.cr.getSignedMin().getSExtValue(); hi = v.cr.getSignedMax().getSExtValue(); }
    auto r = rng.insert({{I, k}, {lo, hi}});
    if (!r.second) { r.first->second.first = std::min(r.first->second.first, lo); r.first->second.second = std::max(r.first->second.second, hi); }
  }
  void trip(const BasicBlock *H, bool have, uint64_t n) {
    if (!have) { noTrip.insert(H); trips.erase(H); return; }
    if (noTrip.count(H)) return;
    auto r = trips.insert({H, n});
    if (!r.second) r.first->second = std::max(r.first->second, n);
  }
};
class Engine;
using Model = std::function<bool(Engine &, CallBase &, std::vector<Val> &,
                                 State &, Val &, std::vector<State> &)>;

class Engine {
public:
  Module &M;
  const DataLayout &DL;
  explicit Engine(Module &M);

  // ---- configuration
  bool partition = false;        // keep paths apart (no joins)
  unsigned maxPaths = 256;
  uint64_t stepBudget = 2000000; // steps until unrolling is given up
  uint64_t loopBudget = 0;       // steps spent unrolling one loop (0: half of stepBudget)
  uint64_t nestBudget = ~0ull;   // the same inside of a fixpoint iteration
  unsigned fewMult = 100, guessMax = 12, nestCap = 0;          // the same for loops with inner fixpoints
  unsigned freeIters = 0;        // iterations unrolled regardless of that
  uint64_t bigTrip = 3000;       // longer counted loops are not unrolled
  uint64_t weakLimit = 70000;    // weak stores over more elements are folded
  unsigned peel = 2;             // undecided iterations peeled before fixpoint
  int hard1 = 10, hard2 = 60;     // fixpoint iterations until thresholds are dropped
  unsigned maxDepth = 40;
  bool checkShift = true, checkUninit = true, checkMem = true, checkDiv = true, checkOvf = true;
  bool mallocMayFail = false;
  bool forkUser = false;         // comparisons of numbers of the user are followed on separate paths
  uint64_t forkRem = 0;          // remainders with so few possible values are split by value
  bool trackProv = false;
  bool relational = false;       // difference bounds between SSA values
  std::string ctx; // context label attached to alarms

  // ---- results
  std::map<std::string, Alarm> alarms;
  std::set<const Instruction *> visited;
  std::set<const Function *> functions;
  uint64_t steps = 0;
  uint64_t obligations = 0;
  std::set<std::pair<const Instruction *, std::string>> oblig;
  std::set<std::string> unmodelled;
  bool aborted = false;
  bool resourceOut = false;
  std::string abortMsg;
  int quiet = 0;
  int hardWiden = 0; // 0: all thresholds, 1: constants of the program only, 2: none
  unsigned fixpoints = 0;

  // hooks
  std::map<std::string, std::string> redirect; // functions replaced by others
  std::map<std::string, Model> models; // by function name (decl or def)
  std::function<void(Engine &, Instruction &, const Val &addr, const Val *stored, State &)> onMem;
  std::function<void(Engine &, CallBase &, Function *, std::vector<Val> &, State &)> onCall;
  std::function<void(Engine &, Instruction &, const Val &, State &)> onBranch;

  // ---- execution
  // Executes F with args; returns the reachable return states.
  std::vector<RetState> call(Function *F, std::vector<Val> args, Mem mem,
                             std::vector<std::string> trace = {});

  // ---- values
  Val top(Type *T, uint32_t taint = 0);
  Val topInt(unsigned w, uint32_t taint = 0);
  Val cint(unsigned w, uint64_t v);
  Val range(unsigned w, uint64_t lo, uint64_t hi); // inclusive
  Val undefOf(Type *T);
  Val fconst(double d);
  Val frange(double lo, double hi, bool nan);
  Val nullPtr();
  Val ptrTo(int obj, int64_t off = 0);
  Val unkPtr();
  Val constant(const Constant *C, Mem &mem);
  int newObj(Mem &mem, OKind k, Def d, uint64_t size, std::string name,
             const Value *site = nullptr);
  int globalObj(const GlobalObject *G, Mem &mem);
  int pseudoFunc(const std::string &name, Mem &mem); // builtin callable
  int pseudoState(Mem &mem, const std::string &name, uint64_t size); // hidden state of the C library
  Obj *mut(Mem &mem, int id);
  const Obj *get(const Mem &mem, int id) const;
  Val loadAt(Mem &mem, int obj, int64_t off, Type *T);
  Val load(Mem &mem, const Val &ptr, Type *T, const Instruction *I);
  void store(Mem &mem, const Val &ptr, const Val &v, Type *T, const Instruction *I);
  void storeAt(Mem &mem, int obj, int64_t off, const Val &v, Type *T);
  bool checkAccess(Mem &mem, const Val &ptr, const Val &size, bool isStore,
                   const Instruction *I, const char *what);
  void memcpyOp(Mem &mem, const Val &d, const Val &s, const Val &n, const Instruction *I, bool move);
  void memsetOp(Mem &mem, const Val &d, const Val &c, const Val &n, const Instruction *I);
  void havocReach(Mem &mem, const Val &ptr, uint32_t taint);
  void havocRange(Mem &mem, const Val &ptr, const Val &n, const Val &content);
  std::string cstr(const Mem &mem, const Val &ptr, bool &ok);
  std::vector<Function *> funcTargets(const Val &p, const Mem &mem, bool &unk,
                                      std::vector<std::string> &pseudo);
  Val joinV(const Val &a, const Val &b);
  bool leqV(const Val &a, const Val &b);
  Val widenV(const Val &a, const Val &b);
  Mem joinM(const Mem &a, const Mem &b, bool widen = false);
  bool leqM(const Mem &a, const Mem &b);
  void alarm(const Instruction *I, const std::string &kind, const std::string &msg);
  void obligation(const Instruction *I, const char *kind);
  FnInfo &info(Function *F);
  std::string show(const Val &v) const;
  std::string objName(int id) const { auto it = objNames.find(id); return it == objNames.end() ? "?" : it->second; }
  Val castInt(const Val &a, unsigned w, bool sgn);
  Val refineCmp(const Val &x, CmpInst::Predicate P, const Val &y, bool &feasible);
  Val normI(Val v);
  bool lib(CallBase &CB, StringRef nm, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) { return libcall(CB, nm, a, s, r, more); }
  int lastCallDepth() const { return depth; }
  std::vector<const Function *> callStack;
  const Function *funcOf(int obj) const { auto it = funcObjs.find(obj); return it == funcObjs.end() ? nullptr : it->second; }
  int allocSite(Mem &mem, const Instruction *I, Def d, const Val &size, const std::string &nm);
  void release(Mem &mem, const Val &p, const Instruction *I);
  std::set<APInt, std::function<bool(const APInt &, const APInt &)>> thr;
  std::set<APInt, std::function<bool(const APInt &, const APInt &)>> thrS;
  void addThr(const APInt &v);
  size_t thrCap = 400;
  uint64_t stampCtr = 1;
  std::map<const GlobalObject *, int> gobj;
  std::map<int, const Function *> funcObjs;
  std::map<int, std::string> pseudoObjs;
  std::map<std::string, int> pseudoIds;
  std::map<int, std::string> objNames;
  int nextObj = 1;
  int depth = 0;
  std::map<int, int> frameOf; // stack object -> call depth
  static bool apLess_(const APInt &a, const APInt &b) { return a.slt(b); }

private:
  RelMap argRel; // relations between the arguments of the call being entered
  bool relGet(FnInfo &fi, const State &s, int a, int b, int64_t &c) const;
  void relAdd(State &s, int a, int b, int64_t c, bool close = true);
  void relDrop(State &s, int a);
  void relDef(FnInfo &fi, State &s, Instruction &I);
  bool relAssume(FnInfo &fi, State &s, Value *A, CmpInst::Predicate P, Value *B);
  void relReduce(State &s, int a);
  void relEdge(FnInfo &fi, State &s, BasicBlock *from, BasicBlock *to, RelMap &nrel);
  void relJoin(const State &a, const State &b, FnInfo &fi, BasicBlock *at, bool widen, State &r);
  bool relLeq(const State &a, const State &b, FnInfo &fi, BasicBlock *at);
  bool relSub(FnInfo &fi, State &s, const Value *A, const Value *B, int64_t &lo, int64_t &hi, bool &hasLo, bool &hasHi);
  using IvBounds = std::vector<std::pair<int, ConstantRange>>;
  std::map<BasicBlock *, std::pair<Loop *, IvBounds>> bodyIvs; // by loop header
  std::vector<Watch *> watches;
  void clampVals(State &s, const IvBounds &ivs);
  struct Out {
    std::vector<State> back;
    std::map<BasicBlock *, std::vector<State>> exits;
    std::vector<RetState> rets;
  };
  std::unordered_map<const Function *, std::unique_ptr<FnInfo>> infos;
  std::map<std::string, int> allocIds;
  std::vector<std::string> ctxStack;
  int imprecise = 0;

  void execBody(FnInfo &fi, Loop *L, BasicBlock *entry, std::vector<State> in, Out &out);
  struct Recursion { std::unique_ptr<RetState> newEntry, exit; std::vector<Val> newArgs; };
  std::map<llvm::Function *, Recursion *> recursions; // being summarised
  std::map<llvm::Function *, bool> selfRec;
  bool selfRecursive(llvm::Function *F);
  uint64_t guessTrip(FnInfo &fi, llvm::Loop *L, State &pre);
  void execLoop(FnInfo &fi, Loop *L, std::vector<State> in, Out &out);
  void execBlock(FnInfo &fi, BasicBlock *BB, BasicBlock::iterator it, State s,
                 std::vector<std::pair<BasicBlock *, State>> &succ, std::vector<RetState> &rets);
  bool execInst(FnInfo &fi, Instruction &I, State &s, std::vector<State> &more);
  bool execCall(FnInfo &fi, CallBase &CB, State &s, std::vector<State> &more);
  void addState(std::vector<State> &v, State &&s, FnInfo &fi, BasicBlock *at);
  State joinS(const State &a, const State &b, FnInfo &fi, BasicBlock *at, bool widen);
  bool leqS(const State &a, const State &b, FnInfo &fi, BasicBlock *at);
  Val eval(FnInfo &fi, State &s, const Value *V);
  void edge(FnInfo &fi, BasicBlock *from, BasicBlock *to, State &&s,
            std::vector<std::pair<BasicBlock *, State>> &succ);
  bool refine(FnInfo &fi, State &s, Value *cond, bool truth, int d = 0);
  void assign(FnInfo &fi, State &s, const Value *V, const Val &nv, int d);
  Val binop(unsigned op, const Val &a, const Val &b, Instruction *I);
  Val binI(unsigned op, const Val &a, const Val &b, const Instruction *I);
  Val icmp(CmpInst::Predicate P, const Val &a, const Val &b);
  Val fcmp(CmpInst::Predicate P, const Val &a, const Val &b);
  bool intrinsic(FnInfo &fi, CallBase &CB, Function *F, std::vector<Val> &a, State &s, Val &r);
  bool libcall(CallBase &CB, StringRef nm, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more);
  Val gep(FnInfo &fi, State &s, const GEPOperator *G);
  void seedDef(Obj &o, const Constant *C, int64_t off);
  BasicBlock *curBB = nullptr; const Instruction *curStop = nullptr; // block visit being refined
  std::vector<LoopRec *> recs;
  void summarise(FnInfo &fi, Loop *L, LoopRec &rec, State &init, Out &o);
  bool keyedLoop(FnInfo &fi, Loop *L, std::vector<State> &cur, Out &out);
  bool evalSCEV(FnInfo &fi, State &s, const SCEV *E, Val &r);
  void logBulk(const Val &d) { for (auto *r : recs) if (d.k == K_PTR) for (auto &t : d.p->t) r->other.insert(t.obj); }
  Loop *keyLoop = nullptr; bool keyBack = false;
  void addKeyed(std::vector<State> &v, State &&s, FnInfo &fi, BasicBlock *at);
};

void setRegion(Obj &o, int64_t lo, int64_t hi, Region g);
std::string locOf(const Instruction *I, std::string &file, unsigned &line);
void prepare(Module &M);
} // namespace ai
