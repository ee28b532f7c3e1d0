// Does a plugin's get_sum(state, len) add exactly `len` consecutive outputs of
// the get_bits(state) registered for the same generator variant?
// Decided on the expression trees and the loop structure (scalar evolution).
#include "common.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

namespace ai { static std::string apStr(const APInt &a) { SmallString<40> s; a.toStringUnsigned(s); return s.str().str(); } }
namespace {
// A pure expression over one call: opcode tree printed canonically.
bool exprOf(Value *V, Value *state, CallBase *&call, std::string &out, int depth);

// A function that is one straight-line pure expression over a single call
bool asExpr(Function *F, CallBase *&call, std::string &out) {
  if (F->isDeclaration() || F->arg_size() < 1) return false;
  if (F->size() != 1) return false;
  ReturnInst *R = dyn_cast<ReturnInst>(F->front().getTerminator());
  if (!R || !R->getReturnValue()) return false;
  int calls = 0;
  for (auto &I : F->front()) {
    if (isa<DbgInfoIntrinsic>(&I)) continue;
    if (isa<CallBase>(&I)) calls++;
    else if (I.mayReadOrWriteMemory()) return false;
  }
  if (calls != 1) return false;
  return exprOf(R->getReturnValue(), F->getArg(0), call, out, 0) && call;
}
std::string leaf(Function *F) {
  CallBase *c = nullptr;
  std::string s;
  if (!asExpr(F, c, s)) return "@" + F->getName().str();
  return s;
}
bool exprOf(Value *V, Value *state, CallBase *&call, std::string &out, int depth) {
  if (depth > 30) return false;
  if (auto *C = dyn_cast<ConstantInt>(V)) { out += "#" + ai::apStr(C->getValue()) + ":" + std::to_string(C->getBitWidth()); return true; }
  if (auto *C = dyn_cast<CallBase>(V)) {
    if (call && call != C) return false;
    call = C;
    Function *T = C->getCalledFunction();
    if (!T || C->arg_size() < 1 || C->getArgOperand(0)->stripPointerCasts() != state) return false;
    out += leaf(T);
    return true;
  }
  if (auto *I = dyn_cast<Instruction>(V)) {
    if (isa<BinaryOperator>(I) || isa<ZExtInst>(I) || isa<TruncInst>(I) || isa<SExtInst>(I)) {
      out += std::string("(") + I->getOpcodeName() + ":" + std::to_string(I->getType()->getScalarSizeInBits());
      for (auto &Op : I->operands()) { out += " "; if (!exprOf(Op, state, call, out, depth + 1)) return false; }
      out += ")";
      return true;
    }
  }
  return false;
}
} // namespace

// status: "ok", "bad", "undecided"
std::pair<std::string, std::string> sumVerdict(Function *GB, Function *GS, ai::FnInfo &fi) {
  auto und = [](const std::string &m) { return std::make_pair(std::string("undecided"), m); };
  auto bad = [](const std::string &m) { return std::make_pair(std::string("bad"), m); };
  if (GS->isDeclaration() || GS->arg_size() != 2) return und("get_sum has an unexpected form");
  Value *state = GS->getArg(0), *len = GS->getArg(1);
  ScalarEvolution &SE = *fi.SE;
  LoopInfo &LI = *fi.LI;
  DominatorTree &DT = *fi.DT;
  // the value returned
  ReturnInst *ret = nullptr;
  for (auto &BB : *GS)
    if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) { if (ret) return und("several returns"); ret = R; }
  if (!ret) return und("get_sum does not return");
  // calls outside / inside loops, stores
  std::vector<CallBase *> calls;
  for (auto &BB : *GS)
    for (auto &I : BB) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto *C = dyn_cast<CallBase>(&I)) calls.push_back(C);
      else if (isa<StoreInst>(&I)) {
        return und("get_sum writes memory itself");
      }
    }
  if (calls.empty()) return bad("get_sum never advances the generator");
  // accumulator: follow LCSSA phis from the return value
  Value *v = ret->getReturnValue();
  while (auto *P = dyn_cast<PHINode>(v)) {
    if (LI.getLoopFor(P->getParent()) && LI.getLoopFor(P->getParent())->getHeader() == P->getParent()) break;
    if (P->getNumIncomingValues() == 1) { v = P->getIncomingValue(0); continue; }
    return und("the result is merged from several paths");
  }
  PHINode *acc = dyn_cast<PHINode>(v);
  Instruction *upd = nullptr;
  if (!acc) {
    // do-while form: the updated value is returned
    upd = dyn_cast<Instruction>(v);
    if (!upd) return bad("get_sum returns a constant");
    Loop *L = LI.getLoopFor(upd->getParent());
    if (!L) return und("no accumulation loop found");
    for (auto &P : L->getHeader()->phis())
      for (auto &Op : upd->operands()) if (Op == &P) acc = &P;
    if (!acc) return und("no accumulator found");
  }
  Loop *L = LI.getLoopFor(acc->getParent());
  if (!L || L->getHeader() != acc->getParent() || acc->getNumIncomingValues() != 2) return und("no accumulation loop found");
  for (auto *C : calls) if (!L->contains(C)) return bad("get_sum calls " + (C->getCalledFunction() ? C->getCalledFunction()->getName().str() : "a function") + " outside of the summation loop");
  Value *init = nullptr, *next = nullptr;
  for (unsigned i = 0; i < 2; i++) (L->contains(acc->getIncomingBlock(i)) ? next : init) = acc->getIncomingValue(i);
  if (!init || !next) return und("no accumulator found");
  auto *ci = dyn_cast<ConstantInt>(init);
  if (!ci || !ci->isZero()) return bad("the sum does not start from zero");
  auto *add = dyn_cast<BinaryOperator>(next);
  if (!add || add->getOpcode() != Instruction::Add || (add->getOperand(0) != acc && add->getOperand(1) != acc)) return bad("the accumulator is not updated by sum += value");
  Value *term = add->getOperand(0) == acc ? add->getOperand(1) : add->getOperand(0);
  if (calls.size() != 1) return bad("get_sum makes " + std::to_string(calls.size()) + " calls per step instead of one");
  CallBase *call = nullptr;
  std::string es;
  if (!exprOf(term, state, call, es, 0) || !call) return bad("the term added to the sum is not a function of one call on the generator's state");
  std::string eb = leaf(GB);
  if (es != eb) return bad("the sum adds " + es + " while get_bits returns " + eb);
  if (call->getParent() != add->getParent() && !DT.dominates(call->getParent(), add->getParent())) return und("control flow");
  // count
  BasicBlock *ex = L->getExitingBlock();
  if (!ex) return bad("the summation loop has several exits");
  if (LI.getLoopFor(call->getParent()) != L) return bad("nested loop around the call");
  bool latchDom = DT.dominates(call->getParent(), L->getLoopLatch());
  if (!latchDom) return bad("the call is not executed in every iteration");
  const SCEV *btc = SE.getBackedgeTakenCount(L);
  if (isa<SCEVCouldNotCompute>(btc)) {
    // common off-by-one: i <= len
    auto *br = dyn_cast<BranchInst>(ex->getTerminator());
    auto *cmp = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (cmp && (cmp->getPredicate() == CmpInst::ICMP_ULE || cmp->getPredicate() == CmpInst::ICMP_UGE)) return bad("the loop does not make exactly `len` iterations (it also runs for i == len)");
    return und("iteration count of the loop is unknown");
  }
  // executions of the call
  const SCEV *n = btc;
  bool before = call->getParent() == ex || (DT.dominates(call->getParent(), ex) && call->getParent() != ex);
  Type *T = btc->getType();
  if (before) n = SE.getAddExpr(btc, SE.getOne(T));
  const SCEV *want = SE.getTruncateOrZeroExtend(SE.getSCEV(len), T);
  if (n == want) return {"ok", eb};
  if (before) {
    // do-while guarded by a test of len: 1 + (-1 + umax(1, len))
    const SCEV *w2 = SE.getUMaxExpr(want, SE.getOne(T));
    if (n == w2 || SE.applyLoopGuards(n, L) == want) return {"ok", eb};
    return und("iteration count could not be matched with len");
  }
  std::string s;
  raw_string_ostream os(s);
  n->print(os);
  return bad("the loop makes " + os.str() + " iterations instead of `len`");
}
