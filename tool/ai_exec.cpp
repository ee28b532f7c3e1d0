// Control-flow part of the abstract interpreter.
#include "ai.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <cmath>
#include <numeric>
using namespace llvm;
namespace ai {

void prepare(Module &M) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  FPM.addPass(PromotePass());
  FPM.addPass(LoopSimplifyPass());
  FPM.addPass(LCSSAPass());
  for (auto &F : M)
    if (!F.isDeclaration()) FPM.run(F, FAM);
}

Engine::Engine(Module &M) : M(M), DL(M.getDataLayout()), thr(apLess_), thrS(apLess_) {
  for (auto &F : M)
    for (auto &BB : F)
      for (auto &I : BB) {
        if (auto *C = dyn_cast<ICmpInst>(&I)) {
          for (auto &Op : C->operands())
            if (auto *CI = dyn_cast<ConstantInt>(&*Op)) { addThr(CI->getValue()); addThr(CI->getValue() - 1); addThr(CI->getValue() + 1); }
        }
      }
  thrS = thr;
  thrCap = thr.size() < 400 ? 400 : thr.size() + 300;
}

namespace {
struct ScevHold {
  TargetLibraryInfoImpl impl;
  TargetLibraryInfo tli;
  AssumptionCache ac;
  ScalarEvolution se;
  ScevHold(Function &F, DominatorTree &DT, LoopInfo &LI) : impl(Triple(F.getParent()->getTargetTriple())), tli(impl, &F), ac(F), se(F, tli, ac, DT, LI) {}
};
} // namespace

FnInfo &Engine::info(Function *F) {
  auto &p = infos[F];
  if (p) return *p;
  p = std::make_unique<FnInfo>();
  FnInfo &fi = *p;
  fi.F = F;
  fi.DT = std::make_unique<DominatorTree>(*F);
  fi.LI = std::make_unique<LoopInfo>(*fi.DT);
  auto hold = std::make_shared<ScevHold>(*F, *fi.DT, *fi.LI);
  fi.SE = &hold->se;
  fi.scevHold = hold;
  ReversePostOrderTraversal<Function *> R(F);
  for (auto *BB : R) { fi.rpoIdx[BB] = fi.rpo.size(); fi.rpo.push_back(BB); }
  int n = 0;
  auto addv = [&](const Value *V) { fi.num[V] = n++; fi.vals.push_back(V); };
  for (auto &A : F->args()) addv(&A);
  for (auto *BB : fi.rpo) for (auto &I : *BB) if (!I.getType()->isVoidTy()) addv(&I);
  // irreducible?
  for (auto *BB : fi.rpo)
    for (auto *S : successors(BB))
      if (fi.rpoIdx[S] <= fi.rpoIdx[BB]) {
        Loop *L = fi.LI->getLoopFor(S);
        if (!L || L->getHeader() != S || !L->contains(BB)) fi.irreducible = true;
      }
  // liveness
  size_t nb = fi.rpo.size();
  std::vector<std::vector<bool>> in(nb, std::vector<bool>(n, false));
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      BasicBlock *BB = fi.rpo[b];
      std::vector<bool> live(n, false);
      for (auto *S : successors(BB)) {
        auto &si = in[fi.rpoIdx[S]];
        for (int i = 0; i < n; i++) if (si[i]) live[i] = true;
        // phi nodes are evaluated on the edge: they are live-in of S
      }
      for (auto *S : successors(BB))
        for (auto &P : S->phis()) {
          auto it = fi.num.find(&P);
          if (it != fi.num.end()) live[it->second] = false;
        }
      for (auto *S : successors(BB))
        for (auto &P : S->phis()) {
          auto it = fi.num.find(P.getIncomingValueForBlock(BB));
          if (it != fi.num.end()) live[it->second] = true;
        }
      for (auto it = BB->rbegin(); it != BB->rend(); ++it) {
        Instruction &I = *it;
        if (isa<PHINode>(I)) continue; // stays live-in (value assigned on the edge)
        auto d = fi.num.find(&I);
        if (d != fi.num.end()) live[d->second] = false;
        for (auto &Op : I.operands()) {
          auto o = fi.num.find(Op.get());
          if (o != fi.num.end()) live[o->second] = true;
        }
      }
      for (auto &P : BB->phis()) live[fi.num[&P]] = true;
      if (live != in[b]) { in[b] = live; ch = true; }
    }
  }
  fi.liveIn.resize(nb);
  for (size_t b = 0; b < nb; b++) for (int i = 0; i < n; i++) if (in[b][i]) fi.liveIn[b].push_back(i);
  return fi;
}

// ------------------------------------------------------------ state joins
State Engine::joinS(const State &a, const State &b, FnInfo &fi, BasicBlock *at, bool widen) {
  State r;
  r.mem = joinM(a.mem, b.mem, widen);
  r.env.resize(a.env.size());
  for (int i : fi.liveIn[fi.rpoIdx[at]]) r.env[i] = widen ? widenV(a.env[i], b.env[i]) : joinV(a.env[i], b.env[i]);
  r.trace = a.trace.size() <= b.trace.size() ? a.trace : b.trace;
  // keep common prefix
  size_t k = 0;
  while (k < a.trace.size() && k < b.trace.size() && a.trace[k] == b.trace[k]) k++;
  r.trace.resize(k);
  if (relational) relJoin(a, b, fi, at, widen, r);
  return r;
}
bool Engine::leqS(const State &a, const State &b, FnInfo &fi, BasicBlock *at) {
  for (int i : fi.liveIn[fi.rpoIdx[at]])
    if (!leqV(a.env[i], b.env[i])) return false;
  if (relational && !relLeq(a, b, fi, at)) return false;
  return leqM(a.mem, b.mem);
}
void Engine::addState(std::vector<State> &v, State &&s, FnInfo &fi, BasicBlock *at) {
  if (v.empty()) { v.push_back(std::move(s)); return; }
  if (partition) { // disjunctions are kept per decision trace (--param comparisons)
    for (auto &q : v)
      if (q.trace == s.trace) { State j = joinS(q, s, fi, at, false); q = std::move(j); return; }
    if (v.size() < maxPaths) { v.push_back(std::move(s)); return; }
  }
  State j = joinS(v.back(), s, fi, at, false);
  v.back() = std::move(j);
}

// ------------------------------------------------------------ evaluation
Val Engine::eval(FnInfo &fi, State &s, const Value *V) {
  auto it = fi.num.find(V);
  if (it != fi.num.end()) {
    Val &v = s.env[it->second];
    if (v.k == K_NONE) return top(V->getType());
    return v;
  }
  if (auto *C = dyn_cast<Constant>(V)) return constant(C, s.mem);
  return top(V->getType());
}

void Engine::clampVals(State &s, const IvBounds &ivs) {
  for (auto &iv : ivs) {
    Val &v = s.env[iv.first];
    if (v.k != K_INT || iv.second.contains(v.cr)) continue;
    ConstantRange c = v.cr.intersectWith(iv.second);
    if (c.isEmptySet() || !iv.second.contains(c)) continue;
    v.cr = c;
    v = normI(v);
    if (v.cr.isEmptySet()) v.cr = c;
  }
}
void Engine::edge(FnInfo &fi, BasicBlock *from, BasicBlock *to, State &&s, std::vector<std::pair<BasicBlock *, State>> &succ) {
  if (!bodyIvs.empty()) {
    auto it = bodyIvs.find(from);
    if (it != bodyIvs.end() && it->second.first->contains(to)) clampVals(s, it->second.second);
  }
  std::vector<std::pair<int, Val>> ph;
  for (auto &P : to->phis()) {
    const Value *in = P.getIncomingValueForBlock(from);
    Val v = eval(fi, s, in);
    ph.push_back({fi.num[&P], v});
  }
  RelMap nrel;
  if (relational && !ph.empty()) relEdge(fi, s, from, to, nrel);
  for (auto &p : ph) s.env[p.first] = std::move(p.second);
  if (relational && !ph.empty()) s.rel = std::move(nrel);
  succ.emplace_back(to, std::move(s));
}

static std::vector<uint16_t> provOf(const Val &v) {
  std::vector<uint16_t> r(v.width(), 0xFFFF);
  for (unsigned i = 0; i < v.width(); i++) {
    if (v.kb.Zero[i]) r[i] = 0xFFFE;
    else if (v.kb.One[i]) r[i] = 0xFFFD;
    else if (v.prov) r[i] = (*v.prov)[i];
  }
  return r;
}
static void setProv(Val &r, const std::vector<uint16_t> &p) {
  bool any = false;
  for (auto x : p) if (x < 0xFFF0) any = true;
  if (any) r.prov = std::make_shared<std::vector<uint16_t>>(p); else r.prov = nullptr;
}

Val Engine::binI(unsigned op, const Val &a, const Val &b, const Instruction *I) {
  unsigned w = a.width();
  Val r = topInt(w, a.taint | b.taint);
  r.undef = a.undef | b.undef;
  bool isShift = op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr;
  if (isShift && checkShift && I && !I->getType()->isVectorTy()) {
    obligation(I, "shift");
    if (b.cr.getUnsignedMax().uge(w)) alarm(I, "shift", "shift amount " + show(b) + " may reach the operand width " + std::to_string(w));
  }
  bool isDiv = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
  if (isDiv && checkDiv && I && !I->getType()->isVectorTy()) {
    obligation(I, "div");
    if (b.cr.contains(APInt(w, 0))) alarm(I, "div0", "divisor " + show(b) + " may be zero");
  }
  if (checkOvf && I && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul || op == Instruction::Shl) && I->hasNoSignedWrap() && !I->getType()->isVectorTy()) {
    obligation(I, "sovf");
    ConstantRange x = a.cr, y = b.cr;
    bool ovf = false;
    APInt l1 = x.getSignedMin(), h1 = x.getSignedMax(), l2 = y.getSignedMin(), h2 = y.getSignedMax();
    auto o1 = [&](APInt p, APInt q) { bool o = false; if (op == Instruction::Add) (void) p.sadd_ov(q, o); else if (op == Instruction::Sub) (void) p.ssub_ov(q, o); else if (op == Instruction::Mul) (void) p.smul_ov(q, o); return o; };
    if (op == Instruction::Sub) ovf = o1(l1, h2) || o1(h1, l2);
    else if (op == Instruction::Mul) ovf = o1(l1, l2) || o1(l1, h2) || o1(h1, l2) || o1(h1, h2);
    else ovf = o1(l1, l2) || o1(h1, h2);
    if (ovf) alarm(I, "sovf", std::string("signed ") + Instruction::getOpcodeName(op) + " of " + show(a) + " and " + show(b) + " may overflow");
  }
  if (a.cr.isSingleElement() && b.cr.isSingleElement()) {
    const APInt &x = *a.cr.getSingleElement(), &y = *b.cr.getSingleElement();
    APInt z(w, 0);
    bool ok = true;
    switch (op) {
    case Instruction::Add: z = x + y; break;
    case Instruction::Sub: z = x - y; break;
    case Instruction::Mul: z = x * y; break;
    case Instruction::And: z = x & y; break;
    case Instruction::Or: z = x | y; break;
    case Instruction::Xor: z = x ^ y; break;
    case Instruction::Shl: if (y.uge(w)) ok = false; else z = x.shl(y); break;
    case Instruction::LShr: if (y.uge(w)) ok = false; else z = x.lshr(y); break;
    case Instruction::AShr: if (y.uge(w)) ok = false; else z = x.ashr(y); break;
    case Instruction::UDiv: if (y.isZero()) ok = false; else z = x.udiv(y); break;
    case Instruction::URem: if (y.isZero()) ok = false; else z = x.urem(y); break;
    case Instruction::SDiv: if (y.isZero()) ok = false; else z = x.sdiv(y); break;
    case Instruction::SRem: if (y.isZero()) ok = false; else z = x.srem(y); break;
    default: ok = false;
    }
    if (ok) {
      r.cr = ConstantRange(z);
      r.kb = KnownBits::makeConstant(z);
      return r;
    }
    return r;
  }
  bool ta = a.cr.isFullSet() && a.kb.isUnknown(), tb = b.cr.isFullSet() && b.kb.isUnknown();
  if (ta && tb && !isDiv && !isShift) {
    if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && trackProv) {}
    else return r;
  }
  switch (op) {
  case Instruction::Add:
    r.kb = KnownBits::computeForAddSub(true, false, a.kb, b.kb);
    r.cr = a.cr.add(b.cr);
    break;
  case Instruction::Sub:
    r.kb = KnownBits::computeForAddSub(false, false, a.kb, b.kb);
    r.cr = a.cr.sub(b.cr);
    break;
  case Instruction::Mul:
    r.kb = KnownBits::mul(a.kb, b.kb);
    r.cr = a.cr.multiply(b.cr);
    break;
  case Instruction::And:
    r.kb = a.kb & b.kb;
    r.cr = a.cr.binaryAnd(b.cr);
    break;
  case Instruction::Or:
    r.kb = a.kb | b.kb;
    r.cr = a.cr.binaryOr(b.cr);
    if ((a.kb.Zero | b.kb.Zero).isAllOnes()) // no common bits: the same as an addition
      r.cr = r.cr.intersectWith(a.cr.addWithNoWrap(b.cr, OverflowingBinaryOperator::NoUnsignedWrap));
    break;
  case Instruction::Xor:
    r.kb = a.kb ^ b.kb;
    r.cr = a.cr.binaryXor(b.cr);
    break;
  case Instruction::Shl:
    if (b.cr.getUnsignedMin().uge(w)) break;
    r.kb = KnownBits::shl(a.kb, b.kb);
    if (b.cr.isSingleElement()) { // keep upper bound when no overflow is possible
      r.cr = a.cr.shl(b.cr);
    } else r.cr = a.cr.shl(b.cr);
    break;
  case Instruction::LShr:
    if (b.cr.getUnsignedMin().uge(w)) break;
    r.kb = KnownBits::lshr(a.kb, b.kb);
    r.cr = a.cr.lshr(b.cr);
    break;
  case Instruction::AShr:
    if (b.cr.getUnsignedMin().uge(w)) break;
    r.kb = KnownBits::ashr(a.kb, b.kb);
    r.cr = a.cr.ashr(b.cr);
    break;
  case Instruction::UDiv:
    if (b.cr.isSingleElement() && b.cr.getSingleElement()->isZero()) break;
    r.kb = KnownBits::udiv(a.kb, b.kb);
    r.cr = a.cr.udiv(b.cr);
    break;
  case Instruction::URem:
    if (b.cr.isSingleElement() && b.cr.getSingleElement()->isZero()) break;
    r.kb = KnownBits::urem(a.kb, b.kb);
    r.cr = a.cr.urem(b.cr);
    break;
  case Instruction::SDiv:
    if (b.cr.isSingleElement() && b.cr.getSingleElement()->isZero()) break;
    r.cr = a.cr.sdiv(b.cr);
    break;
  case Instruction::SRem:
    if (b.cr.isSingleElement() && b.cr.getSingleElement()->isZero()) break;
    r.kb = KnownBits::srem(a.kb, b.kb);
    r.cr = a.cr.srem(b.cr);
    break;
  }
  if (r.cr.isEmptySet()) r.cr = ConstantRange(w, true);
  if (r.kb.hasConflict()) r.kb = KnownBits(w);
  r = normI(r);
  if (trackProv && (a.prov || b.prov)) {
    auto pa = provOf(a), pb = provOf(b);
    std::vector<uint16_t> p(w, 0xFFFF);
    bool set = false;
    if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add) {
      set = true;
      bool noCarry = true;
      for (unsigned i = 0; i < w; i++) {
        uint16_t x = pa[i], y = pb[i];
        if (op == Instruction::And) { if (x == 0xFFFD) p[i] = y; else if (y == 0xFFFD) p[i] = x; else if (x == y) p[i] = x; }
        else if (op == Instruction::Or) { if (x == 0xFFFE) p[i] = y; else if (y == 0xFFFE) p[i] = x; else if (x == y) p[i] = x; }
        else { if (x == 0xFFFE) p[i] = y; else if (y == 0xFFFE) p[i] = x; else if (op == Instruction::Add) noCarry = false; }
      }
      if (op == Instruction::Add && !noCarry) { p.assign(w, 0xFFFF); }
    } else if (isShift && b.isConst() && b.cval() < w) {
      set = true;
      unsigned k = b.cval();
      for (unsigned i = 0; i < w; i++) {
        if (op == Instruction::Shl) p[i] = i >= k ? pa[i - k] : 0xFFFE;
        else if (op == Instruction::LShr) p[i] = i + k < w ? pa[i + k] : 0xFFFE;
        else p[i] = i + k < w ? pa[i + k] : pa[w - 1];
      }
    } else if (op == Instruction::Mul && b.isConst() && b.cr.getSingleElement()->isPowerOf2()) {
      unsigned k = b.cr.getSingleElement()->logBase2();
      set = true;
      for (unsigned i = 0; i < w; i++) p[i] = i >= k ? pa[i - k] : 0xFFFE;
    } else if (op == Instruction::UDiv && b.isConst() && b.cr.getSingleElement()->isPowerOf2()) {
      unsigned k = b.cr.getSingleElement()->logBase2();
      set = true;
      for (unsigned i = 0; i < w; i++) p[i] = i + k < w ? pa[i + k] : 0xFFFE;
    } else if (op == Instruction::URem && b.isConst() && b.cr.getSingleElement()->isPowerOf2()) {
      unsigned k = b.cr.getSingleElement()->logBase2();
      set = true;
      for (unsigned i = 0; i < w; i++) p[i] = i < k ? pa[i] : 0xFFFE;
    }
    if (set) setProv(r, p);
  }
  return r;
}

Val Engine::binop(unsigned op, const Val &a, const Val &b, Instruction *I) {
  if (a.k == K_FLT || b.k == K_FLT) {
    Val r = frange(-INFINITY, INFINITY, true);
    if (a.k == K_FLT && b.k == K_FLT) {
      bool nan = a.nan | b.nan;
      double c[4];
      bool ok = !(a.flo > a.fhi || b.flo > b.fhi);
      auto corners = [&](auto f) {
        c[0] = f(a.flo, b.flo); c[1] = f(a.flo, b.fhi); c[2] = f(a.fhi, b.flo); c[3] = f(a.fhi, b.fhi);
        double lo = INFINITY, hi = -INFINITY;
        for (double x : c) { if (std::isnan(x)) { nan = true; lo = -INFINITY; hi = INFINITY; } else { lo = std::min(lo, x); hi = std::max(hi, x); } }
        r = frange(lo, hi, nan);
      };
      if (ok) switch (op) {
        case Instruction::FAdd: corners([](double x, double y) { return x + y; }); break;
        case Instruction::FSub: corners([](double x, double y) { return x - y; }); break;
        case Instruction::FMul: corners([](double x, double y) { return x * y; }); break;
        case Instruction::FDiv:
          if (b.flo > 0 || b.fhi < 0) corners([](double x, double y) { return x / y; });
          break;
        default: break;
        }
    }
    r.taint = a.taint | b.taint;
    r.undef = a.undef | b.undef;
    return r;
  }
  if (a.k != K_INT || b.k != K_INT || a.width() != b.width()) {
    Val r = top(I->getType(), a.taint | b.taint);
    r.undef = a.undef | b.undef;
    return r;
  }
  Val r = binI(op, a, b, I);
  // same operand idioms
  if (I && I->getOperand(0) == I->getOperand(1)) {
    if (op == Instruction::Xor || op == Instruction::Sub) { Val z = cint(a.width(), 0); z.taint = 0; return z; }
  }
  // pointers stored in integers
  if (a.p || b.p) {
    r.p = nullptr;
    if (op == Instruction::Sub && a.p && b.p && a.p->t.size() == 1 && b.p->t.size() == 1 && a.p->t[0].obj == b.p->t[0].obj && !a.p->unk && !b.p->unk) {
      r.cr = a.p->t[0].off.sub(b.p->t[0].off);
      r.kb = KnownBits(a.width());
      r.taint &= ~T_ADDR;
      if (a.p->t[0].off.isSingleElement() && b.p->t[0].off.isSingleElement()) {}
      r = normI(r);
    } else if ((op == Instruction::Add || op == Instruction::Sub) && a.p && !b.p) {
      auto p = std::make_shared<PtrSet>(*a.p);
      for (auto &t : p->t) { t.off = op == Instruction::Add ? t.off.add(b.cr) : t.off.sub(b.cr); t.stride = t.off.isSingleElement() ? 0 : 1; }
      r.p = p;
    } else if (op == Instruction::Add && b.p && !a.p) {
      auto p = std::make_shared<PtrSet>(*b.p);
      for (auto &t : p->t) { t.off = t.off.add(a.cr); t.stride = t.off.isSingleElement() ? 0 : 1; }
      r.p = p;
    } else if (op == Instruction::And && a.p && b.isConst()) {
      APInt m = ~*b.cr.getSingleElement();
      if (m.isMask() || m.isZero()) {
        auto p = std::make_shared<PtrSet>(*a.p);
        for (auto &t : p->t) { t.off = ConstantRange::getNonEmpty(t.off.getSignedMin() - m, t.off.getSignedMax() + 1); t.stride = 1; }
        r.p = p;
      }
    }
  }
  return r;
}

Val Engine::icmp(CmpInst::Predicate P, const Val &a, const Val &b) {
  Val r = topInt(1, a.taint | b.taint);
  r.undef = a.undef | b.undef;
  if (a.k == K_INT && b.k == K_INT && a.width() == b.width()) {
    if (a.cr.icmp(P, b.cr)) { Val q = cint(1, 1); q.taint = r.taint; q.undef = r.undef; return q; }
    if (a.cr.icmp(CmpInst::getInversePredicate(P), b.cr)) { Val q = cint(1, 0); q.taint = r.taint; q.undef = r.undef; return q; }
    if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
      if (a.kb.Zero.intersects(b.kb.One) || a.kb.One.intersects(b.kb.Zero)) {
        Val q = cint(1, P == CmpInst::ICMP_NE); q.taint = r.taint; q.undef = r.undef; return q;
      }
    }
    return r;
  }
  if (a.k == K_PTR && b.k == K_PTR) {
    auto isNull = [](const Val &v) { return v.p->t.empty() && v.p->null && !v.p->unk; };
    auto nonNull = [](const Val &v) { return !v.p->null && !v.p->unk; };
    int res = -1;
    if (isNull(a) && isNull(b)) res = (P == CmpInst::ICMP_EQ);
    else if ((isNull(a) && nonNull(b)) || (nonNull(a) && isNull(b))) { if (P == CmpInst::ICMP_EQ) res = 0; else if (P == CmpInst::ICMP_NE) res = 1; }
    else if (nonNull(a) && nonNull(b) && a.p->t.size() == 1 && b.p->t.size() == 1) {
      if (a.p->t[0].obj == b.p->t[0].obj) {
        if (a.p->t[0].off.icmp(P, b.p->t[0].off)) res = 1;
        else if (a.p->t[0].off.icmp(CmpInst::getInversePredicate(P), b.p->t[0].off)) res = 0;
        r.taint &= ~T_ADDR;
      } else { if (P == CmpInst::ICMP_EQ) res = 0; else if (P == CmpInst::ICMP_NE) res = 1; }
    } else if (nonNull(a) && nonNull(b)) {
      bool ov = false;
      for (auto &x : a.p->t) for (auto &y : b.p->t) if (x.obj == y.obj) ov = true;
      if (!ov) { if (P == CmpInst::ICMP_EQ) res = 0; else if (P == CmpInst::ICMP_NE) res = 1; }
    }
    if (res >= 0) { Val q = cint(1, res); q.taint = r.taint; q.undef = r.undef; return q; }
  }
  return r;
}
Val Engine::fcmp(CmpInst::Predicate P, const Val &a, const Val &b) {
  Val r = topInt(1, a.taint | b.taint);
  r.undef = a.undef | b.undef;
  if (a.k != K_FLT || b.k != K_FLT) return r;
  bool nan = a.nan || b.nan;
  bool empty = a.flo > a.fhi || b.flo > b.fhi; // surely NaN
  bool lt = !empty && a.flo < b.fhi, gt = !empty && a.fhi > b.flo;
  bool eq = !empty && a.flo <= b.fhi && b.flo <= a.fhi;
  bool t = false, f = false;
  auto add = [&](bool possible, unsigned bit) { if (possible) { if (P & bit) t = true; else f = true; } };
  // predicate bits: 1=eq 2=gt 4=lt 8=uno
  add(eq, 1); add(gt, 2); add(lt, 4); add(nan, 8);
  if (t && !f) { Val q = cint(1, 1); q.taint = r.taint; q.undef = r.undef; return q; }
  if (f && !t) { Val q = cint(1, 0); q.taint = r.taint; q.undef = r.undef; return q; }
  return r;
}

Val Engine::castInt(const Val &a, unsigned w, bool sgn) {
  Val r = a;
  r.org = Origin();
  r.p = nullptr;
  if (a.width() == w) return a;
  if (r.lut) for (auto x : r.lut->tab) if (x >> (std::min(w, a.width()) - 1)) { r.lut = nullptr; break; }
  if (a.width() > w) {
    r.kb = a.kb.trunc(w);
    r.cr = a.cr.truncate(w);
    if (r.cr.isFullSet() && !a.cr.isFullSet() && !a.cr.isWrappedSet() && a.cr.getUnsignedMax().getActiveBits() <= w)
      r.cr = ConstantRange::getNonEmpty(a.cr.getUnsignedMin().trunc(w), a.cr.getUnsignedMax().trunc(w) + 1);
    if (a.prov) setProv(r, std::vector<uint16_t>(a.prov->begin(), a.prov->begin() + w));
  } else {
    r.kb = sgn ? a.kb.sext(w) : a.kb.zext(w);
    r.cr = sgn ? a.cr.signExtend(w) : a.cr.zeroExtend(w);
    if (a.prov) {
      auto p = provOf(a);
      uint16_t f = sgn ? p.back() : 0xFFFE;
      p.resize(w, f);
      setProv(r, p);
    }
  }
  return normI(r);
}

// ------------------------------------------------------------ refinement
Val Engine::refineCmp(const Val &x, CmpInst::Predicate P, const Val &y, bool &feasible) {
  Val r = x;
  feasible = true;
  if (x.k == K_INT && y.k == K_INT && x.width() == y.width()) {
    ConstantRange c = ConstantRange::makeAllowedICmpRegion(P, y.cr);
    bool sgn = CmpInst::isSigned(P);
    r.cr = x.cr.intersectWith(c, sgn ? ConstantRange::Signed : ConstantRange::Unsigned);
    if (r.cr.isEmptySet()) { feasible = false; return r; }
    if (P == CmpInst::ICMP_EQ) {
      r.kb.Zero |= y.kb.Zero;
      r.kb.One |= y.kb.One;
      if (r.kb.hasConflict()) { feasible = false; return r; }
    }
    // x != const : shrink at the bounds (handled by ConstantRange)
    r = normI(r);
    if (r.cr.isEmptySet()) feasible = false;
    return r;
  }
  if (x.k == K_PTR && y.k == K_PTR) {
    bool yNull = y.p->t.empty() && y.p->null && !y.p->unk;
    auto p = std::make_shared<PtrSet>(*x.p);
    if (yNull) {
      if (P == CmpInst::ICMP_EQ) {
        if (!x.p->null && !x.p->unk) { feasible = false; return r; }
        p->t.clear(); p->null = true; p->unk = false;
      } else if (P == CmpInst::ICMP_NE) {
        p->null = false;
        if (p->t.empty() && !p->unk) { feasible = false; return r; }
      }
      r.p = p;
    } else if (P == CmpInst::ICMP_EQ && x.p->unk && !y.p->unk) {
      r.p = y.p;
    } else if ((P == CmpInst::ICMP_NE || P == CmpInst::ICMP_ULT || P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_UGE) && x.p->t.size() == 1 && y.p->t.size() == 1 && x.p->t[0].obj == y.p->t[0].obj && !x.p->null && !y.p->null && !x.p->unk && !y.p->unk) {
      ConstantRange c = ConstantRange::makeAllowedICmpRegion(P == CmpInst::ICMP_NE ? P : CmpInst::getSignedPredicate(P), y.p->t[0].off);
      ConstantRange o = x.p->t[0].off.intersectWith(c, ConstantRange::Signed);
      if (o.isEmptySet()) { feasible = false; return r; }
      if (p->t[0].stride > 1) { // keep base alignment: lower bound may only move by whole strides
        int64_t d = (o.getSignedMin() - p->t[0].off.getSignedMin()).getSExtValue();
        if (d % (int64_t) p->t[0].stride) { o = ConstantRange::getNonEmpty(o.getSignedMin() + ((int64_t) p->t[0].stride - d % (int64_t) p->t[0].stride), o.getSignedMax() + 1); }
        int64_t len = (o.getSignedMax() - o.getSignedMin()).getSExtValue();
        if (len >= 0 && len % (int64_t) p->t[0].stride) o = ConstantRange::getNonEmpty(o.getSignedMin(), o.getSignedMax() - (uint64_t) (len % (int64_t) p->t[0].stride) + 1);
      }
      p->t[0].off = o;
      if (o.isSingleElement()) p->t[0].stride = 0;
      r.p = p;
    }
    return r;
  }
  return r;
}
// V is known to be nv (a refinement): write back to env, to the memory cell it
// was loaded from, and through simple arithmetic.
void Engine::assign(FnInfo &fi, State &s, const Value *V, const Val &nv, int d) {
  auto it = fi.num.find(V);
  if (it == fi.num.end()) return;
  Val old = s.env[it->second];
  s.env[it->second] = nv;
  if (old.org.obj >= 0) {
    const Obj *o = get(s.mem, old.org.obj);
    if (o) {
      auto c = o->cells.find(old.org.off);
      if (c != o->cells.end() && c->second.stamp == old.org.stamp && c->second.size == old.org.size &&
          c->second.v.k == nv.k && (nv.k != K_INT || nv.width() == c->second.v.width())) {
        Obj *m = mut(s.mem, old.org.obj);
        auto &cc = m->cells[old.org.off];
        Val q = nv;
        q.org = Origin();
        cc.v = q;
        cc.stamp = stampCtr++;
        s.env[it->second].org.stamp = cc.stamp;
        // other SSA copies of the same load
        for (auto &e : s.env)
          if (e.k == nv.k && e.org.obj == old.org.obj && e.org.off == old.org.off && e.org.stamp == old.org.stamp && e.org.size == old.org.size) {
            Val w = nv; w.org = e.org; w.org.stamp = cc.stamp;
            if (e.k != K_INT || e.width() == nv.width()) e = w;
          }
      }
    }
  }
  if (nv.k == K_FLT && d <= 6 && !nv.nan && nv.flo <= nv.fhi)
    if (auto *CI = dyn_cast<CastInst>(V); CI && (CI->getOpcode() == Instruction::SIToFP || CI->getOpcode() == Instruction::UIToFP) && CI->getType()->isDoubleTy()) {
      Val x = eval(fi, s, CI->getOperand(0));
      bool sg = CI->getOpcode() == Instruction::SIToFP;
      if (x.k == K_INT && x.width() <= 32) {
        double lo = std::ceil(nv.flo), hi = std::floor(nv.fhi);
        double mn = sg ? (double) x.cr.getSignedMin().getSExtValue() : (double) x.cr.getUnsignedMin().getZExtValue(), mx = sg ? (double) x.cr.getSignedMax().getSExtValue() : (double) x.cr.getUnsignedMax().getZExtValue();
        lo = std::max(lo, mn); hi = std::min(hi, mx);
        if (lo <= hi) {
          Val y = x;
          y.cr = x.cr.intersectWith(ConstantRange::getNonEmpty(APInt(x.width(), (uint64_t) (int64_t) lo), APInt(x.width(), (uint64_t) (int64_t) hi) + 1), sg ? ConstantRange::Signed : ConstantRange::Unsigned);
          if (!y.cr.isEmptySet() && !(y.cr == x.cr)) assign(fi, s, CI->getOperand(0), normI(y), d + 1);
        }
      }
    }
  if (d > 6 || nv.k != K_INT) return;
  // forward: x refined => x +- c computed in the same block visit is refined
  if (auto *VI = dyn_cast<Instruction>(V); VI && VI->getParent() == curBB && d < 4 && !(nv.cr == old.cr))
    for (auto *U : VI->users()) {
      auto *UI = dyn_cast<BinaryOperator>(U);
      if (!UI || UI->getParent() != curBB || UI->getOperand(0) != V || !isa<ConstantInt>(UI->getOperand(1)) || (UI->getOpcode() != Instruction::Add && UI->getOpcode() != Instruction::Sub)) continue;
      if (curStop && !UI->comesBefore(curStop)) continue;
      auto un = fi.num.find(UI);
      if (un == fi.num.end() || s.env[un->second].k != K_INT) continue;
      Val c = eval(fi, s, UI->getOperand(1)), u = s.env[un->second];
      ConstantRange q = UI->getOpcode() == Instruction::Add ? nv.cr.add(c.cr) : nv.cr.sub(c.cr);
      Val y = u;
      y.cr = u.cr.intersectWith(q);
      if (!y.cr.isEmptySet() && !(y.cr == u.cr)) assign(fi, s, UI, normI(y), 6);
    }
  if (auto *I = dyn_cast<Instruction>(V)) {
    auto *Op0 = I->getNumOperands() ? I->getOperand(0) : nullptr;
    if (isa<ZExtInst>(I) || isa<SExtInst>(I)) {
      Val x = eval(fi, s, Op0);
      if (x.k == K_INT) {
        unsigned w = x.width();
        ConstantRange c = nv.cr.intersectWith(isa<ZExtInst>(I) ? x.cr.zeroExtend(nv.width()) : x.cr.signExtend(nv.width()), isa<ZExtInst>(I) ? ConstantRange::Unsigned : ConstantRange::Signed);
        if (!c.isEmptySet()) {
          Val y = x;
          y.cr = x.cr.intersectWith(c.truncate(w));
          if (!y.cr.isEmptySet()) assign(fi, s, Op0, normI(y), d + 1);
        }
      }
    } else if (isa<TruncInst>(I)) {
      Val x = eval(fi, s, Op0);
      if (x.k == K_INT && x.cr.getUnsignedMax().getActiveBits() <= nv.width()) {
        Val y = x;
        y.cr = x.cr.intersectWith(nv.cr.zeroExtend(x.width()));
        if (!y.cr.isEmptySet()) assign(fi, s, Op0, normI(y), d + 1);
      } else if (x.k == K_INT && x.cr.getSignedMin().getSignificantBits() <= nv.width() && x.cr.getSignedMax().getSignificantBits() <= nv.width()) {
        Val y = x;
        y.cr = x.cr.intersectWith(nv.cr.signExtend(x.width()), ConstantRange::Signed);
        if (!y.cr.isEmptySet()) assign(fi, s, Op0, normI(y), d + 1);
      }
    } else if (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub) {
      if (isa<ConstantInt>(I->getOperand(1))) {
        Val x = eval(fi, s, Op0), c = eval(fi, s, I->getOperand(1));
        if (x.k == K_INT) {
          ConstantRange inv = I->getOpcode() == Instruction::Add ? nv.cr.sub(c.cr) : nv.cr.add(c.cr);
          Val y = x;
          y.cr = x.cr.intersectWith(inv);
          if (!y.cr.isEmptySet()) assign(fi, s, Op0, normI(y), d + 1);
        }
      }
    } else if (I->getOpcode() == Instruction::Mul && isa<ConstantInt>(I->getOperand(1)) && nv.width() <= 64 && nv.width() >= 8) {
      // x * c without wrap-around
      Val x = eval(fi, s, Op0);
      int64_t c = cast<ConstantInt>(I->getOperand(1))->getSExtValue();
      if (x.k == K_INT && c > 0 && c < (1 << 30)) {
        __int128 xl = x.cr.getSignedMin().getSExtValue(), xh = x.cr.getSignedMax().getSExtValue(), one = 1;
        __int128 nl = nv.cr.getSignedMin().getSExtValue(), nh = nv.cr.getSignedMax().getSExtValue();
        if (xl * c >= -(one << (nv.width() - 1)) && xh * c < (one << (nv.width() - 1))) {
          auto fl = [](__int128 a, __int128 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
          __int128 lo = std::max(xl, -fl(-nl, c)), hi = std::min(xh, fl(nh, c));
          if (lo <= hi) {
            Val y = x;
            y.cr = x.cr.intersectWith(ConstantRange::getNonEmpty(APInt(x.width(), (uint64_t) lo), APInt(x.width(), (uint64_t) hi) + 1), ConstantRange::Signed);
            if (!y.cr.isEmptySet() && !(y.cr == x.cr)) assign(fi, s, Op0, normI(y), d + 1);
          }
        }
      }
    } else if (I->getOpcode() == Instruction::Mul && nv.width() <= 64 && nv.width() >= 8) {
      // x * y <= max with positive factors, without wrap-around
      Val x = eval(fi, s, Op0), y = eval(fi, s, I->getOperand(1));
      if (x.k == K_INT && y.k == K_INT && !x.cr.getSignedMin().isNegative() && !y.cr.getSignedMin().isNegative() && !nv.cr.getSignedMax().isNegative()) {
        __int128 xh = x.cr.getSignedMax().getSExtValue(), yh = y.cr.getSignedMax().getSExtValue(), one = 1;
        uint64_t xl = x.cr.getSignedMin().getZExtValue(), yl = y.cr.getSignedMin().getZExtValue(), m = nv.cr.getSignedMax().getZExtValue();
        if (xh * yh < (one << (nv.width() - 1)))
          for (int k = 0; k < 2; k++) {
            uint64_t other = k ? xl : yl;
            Val q = k ? y : x;
            if (!other) continue;
            ConstantRange c = q.cr.intersectWith(ConstantRange::getNonEmpty(APInt(q.width(), 0), APInt(q.width(), m / other) + 1), ConstantRange::Signed);
            if (c.isEmptySet() || c == q.cr) continue;
            q.cr = c;
            assign(fi, s, I->getOperand(k), normI(q), d + 1);
          }
      }
    } else if (auto *P = dyn_cast<PHINode>(I)) {
      if (P->getNumIncomingValues() == 1) assign(fi, s, P->getIncomingValue(0), nv, d + 1);
    }
  }
}
bool Engine::refine(FnInfo &fi, State &s, Value *cond, bool truth, int d) {
  if (d > 8) return true;
  if (auto *C = dyn_cast<ICmpInst>(cond)) {
    CmpInst::Predicate P = truth ? C->getPredicate() : C->getInversePredicate();
    Value *A = C->getOperand(0), *B = C->getOperand(1);
    // (zext i1 x) != 0 idiom
    if (auto *Z = dyn_cast<ZExtInst>(A))
      if (Z->getOperand(0)->getType()->isIntegerTy(1))
        if (auto *CB = dyn_cast<ConstantInt>(B))
          if (CB->isZero() && (P == CmpInst::ICMP_NE || P == CmpInst::ICMP_EQ))
            if (!refine(fi, s, Z->getOperand(0), P == CmpInst::ICMP_NE, d + 1)) return false;
    Val a = eval(fi, s, A), b = eval(fi, s, B);
    if (a.k == K_INT && b.k == K_INT) {
      if (b.isConst()) { addThr(*b.cr.getSingleElement()); addThr(*b.cr.getSingleElement() - 1); }
      if (a.isConst()) { addThr(*a.cr.getSingleElement()); addThr(*a.cr.getSingleElement() - 1); }
      if (!b.isConst() && !b.cr.isFullSet()) { addThr(b.cr.getUnsignedMax()); addThr(b.cr.getUnsignedMax() - 1); }
    }
    bool f = true;
    Val na = refineCmp(a, P, b, f);
    if (!f) return false;
    Val nb = refineCmp(b, CmpInst::getSwappedPredicate(P), a, f);
    if (!f) return false;
    if (!isa<Constant>(A)) assign(fi, s, A, na, d);
    if (!isa<Constant>(B) && A != B) assign(fi, s, B, nb, d);
    if (relational && !relAssume(fi, s, A, P, B)) return false;
    return true;
  }
  if (auto *C = dyn_cast<FCmpInst>(cond)) {
    CmpInst::Predicate P = truth ? C->getPredicate() : C->getInversePredicate();
    Value *A = C->getOperand(0), *B = C->getOperand(1);
    Val a = eval(fi, s, A), b = eval(fi, s, B);
    if (a.k == K_FLT && b.k == K_FLT) {
      auto ref = [&](Val x, const Val &y, CmpInst::Predicate Q, bool &ok) {
        bool uno = Q & 8, eq = Q & 1, gt = Q & 2, lt = Q & 4;
        if (!uno) x.nan = false;
        if (!(y.nan)) {
          if (!gt && !uno) x.fhi = std::min(x.fhi, (eq || !lt) ? y.fhi : (y.flo == y.fhi ? std::nextafter(y.fhi, -INFINITY) : y.fhi));
          if (!lt && !uno) x.flo = std::max(x.flo, (eq || !gt) ? y.flo : (y.flo == y.fhi ? std::nextafter(y.flo, INFINITY) : y.flo));
          if (uno && !gt && x.flo <= x.fhi) x.fhi = std::min(x.fhi, eq ? y.fhi : (y.flo == y.fhi ? std::nextafter(y.fhi, -INFINITY) : y.fhi));
          if (uno && !lt && x.flo <= x.fhi) x.flo = std::max(x.flo, eq ? y.flo : (y.flo == y.fhi ? std::nextafter(y.flo, INFINITY) : y.flo));
        }
        if (x.flo > x.fhi) { if (!x.nan) ok = false; else { x.flo = INFINITY; x.fhi = -INFINITY; } }
        return x;
      };
      bool ok = true;
      Val na = ref(a, b, P, ok);
      if (!ok) return false;
      Val nb = ref(b, a, CmpInst::getSwappedPredicate(P), ok);
      if (!ok) return false;
      if (!isa<Constant>(A)) assign(fi, s, A, na, d);
      if (!isa<Constant>(B) && A != B) assign(fi, s, B, nb, d);
    }
    return true;
  }
  if (auto *I = dyn_cast<BinaryOperator>(cond)) {
    if (I->getOpcode() == Instruction::Xor) {
      if (auto *CI = dyn_cast<ConstantInt>(I->getOperand(1))) if (CI->isOne()) return refine(fi, s, I->getOperand(0), !truth, d + 1);
    }
    if ((I->getOpcode() == Instruction::And && truth) || (I->getOpcode() == Instruction::Or && !truth))
      return refine(fi, s, I->getOperand(0), truth, d + 1) && refine(fi, s, I->getOperand(1), truth, d + 1);
  }
  if (auto *T = dyn_cast<TruncInst>(cond)) {
    Val x = eval(fi, s, T->getOperand(0));
    if (x.k == K_INT) {
      Val y = x;
      APInt bit = APInt(x.width(), 1);
      if (truth) y.kb.One |= bit; else y.kb.Zero |= bit;
      if (y.kb.hasConflict()) return false;
      assign(fi, s, T->getOperand(0), normI(y), d + 1);
    }
  }
  if (auto *P = dyn_cast<PHINode>(cond)) {
    // i1 phi from && / ||: constants are excluded by the truth value
    (void) P;
  }
  Val v = eval(fi, s, cond);
  if (v.k == K_INT && v.width() == 1 && !isa<Constant>(cond)) {
    Val c = cint(1, truth);
    c.taint = v.taint;
    c.undef = v.undef;
    c.org = v.org;
    auto it = fi.num.find(cond);
    if (it != fi.num.end()) s.env[it->second] = c;
  }
  return true;
}

// ------------------------------------------------------------ blocks
void Engine::execBlock(FnInfo &fi, BasicBlock *BB, BasicBlock::iterator it, State s,
                       std::vector<std::pair<BasicBlock *, State>> &succ, std::vector<RetState> &rets) {
  for (; it != BB->end(); ++it) {
    Instruction &I = *it;
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    steps++;
    if (aborted) return;
    if (I.isTerminator()) break;
    std::vector<State> more;
    if (!execInst(fi, I, s, more)) { // state died; continue with forks only
      for (auto &m : more) execBlock(fi, BB, std::next(it), std::move(m), succ, rets);
      return;
    }
    for (auto &m : more) execBlock(fi, BB, std::next(it), std::move(m), succ, rets);
  }
  Instruction *T = BB->getTerminator();
  visited.insert(T);
  if (auto *R = dyn_cast<ReturnInst>(T)) {
    RetState r;
    if (R->getReturnValue()) r.ret = eval(fi, s, R->getReturnValue());
    r.mem = std::move(s.mem);
    r.trace = std::move(s.trace);
    r.at = R;
    rets.push_back(std::move(r));
    return;
  }
  if (auto *B = dyn_cast<BranchInst>(T)) {
    if (B->isUnconditional()) { edge(fi, BB, B->getSuccessor(0), std::move(s), succ); return; }
    Val c = eval(fi, s, B->getCondition());
    if (checkUninit) obligation(T, "uninit-branch");
    if (c.undef && checkUninit) alarm(T, "uninit-branch", "branch depends on possibly uninitialised value");
    if (onBranch) onBranch(*this, *T, c, s);
    if (c.k == K_INT && c.cr.isSingleElement()) {
      bool t = c.cr.getSingleElement()->isOne();
      curBB = BB; curStop = T;
      refine(fi, s, B->getCondition(), t);
      edge(fi, BB, B->getSuccessor(t ? 0 : 1), std::move(s), succ);
      return;
    }
    State s2 = s;
    curBB = BB; curStop = T;
    bool f1 = refine(fi, s, B->getCondition(), true);
    bool f2 = refine(fi, s2, B->getCondition(), false);
    if (f1) edge(fi, BB, B->getSuccessor(0), std::move(s), succ);
    if (f2) edge(fi, BB, B->getSuccessor(1), std::move(s2), succ);
    return;
  }
  if (auto *SW = dyn_cast<SwitchInst>(T)) {
    curBB = BB; curStop = T;
    Val c = eval(fi, s, SW->getCondition());
    if (c.undef && checkUninit) alarm(T, "uninit-branch", "switch depends on possibly uninitialised value");
    std::map<BasicBlock *, bool> done;
    bool deflt = true;
    for (auto &cs : SW->cases()) {
      const APInt &v = cs.getCaseValue()->getValue();
      if (c.k == K_INT && !c.cr.contains(v)) continue;
      if (c.k == K_INT && (c.kb.Zero.intersects(v) || !c.kb.One.isSubsetOf(v))) continue;
      State q = s;
      if (c.k == K_INT) {
        Val nv = c; nv.cr = ConstantRange(v); nv = normI(nv);
        assign(fi, q, SW->getCondition(), nv, 0);
      }
      edge(fi, BB, cs.getCaseSuccessor(), std::move(q), succ);
      if (c.k == K_INT && c.cr.isSingleElement()) deflt = false;
    }
    if (deflt) {
      // exclude case values at the boundaries
      Val nv = c;
      bool ch = true, feas = true;
      while (ch && feas && c.k == K_INT) {
        ch = false;
        for (auto &cs : SW->cases()) {
          const APInt &v = cs.getCaseValue()->getValue();
          if (nv.cr.contains(v)) {
            ConstantRange r = nv.cr.intersectWith(ConstantRange(v).inverse());
            if (r.isEmptySet()) { feas = false; break; }
            if (!(r == nv.cr)) { nv.cr = r; ch = true; }
          }
        }
      }
      if (feas) {
        if (c.k == K_INT) assign(fi, s, SW->getCondition(), normI(nv), 0);
        edge(fi, BB, SW->getDefaultDest(), std::move(s), succ);
      }
    }
    return;
  }
  // unreachable and others: path ends
}

void Engine::execBody(FnInfo &fi, Loop *L, BasicBlock *entry, std::vector<State> in, Out &out) {
  // pending states ordered by RPO index
  std::map<int, std::vector<State>> pend;
  pend[fi.rpoIdx[entry]] = std::move(in);
  bool firstHeader = true;
  auto deliver = [&](BasicBlock *to, State &&s) {
    if (L && to == L->getHeader()) { addState(out.back, std::move(s), fi, to); return; }
    if (L && !L->contains(to)) { addState(out.exits[to], std::move(s), fi, to); return; }
    addState(pend[fi.rpoIdx[to]], std::move(s), fi, to);
  };
  while (!pend.empty()) {
    if (aborted) return;
    auto it = pend.begin();
    BasicBlock *BB = fi.rpo[it->first];
    std::vector<State> ss = std::move(it->second);
    pend.erase(it);
    Loop *BL = fi.LI->getLoopFor(BB);
    if (BL && BL->getHeader() == BB && BL != L) {
      Out o2;
      execLoop(fi, BL, std::move(ss), o2);
      for (auto &e : o2.exits) for (auto &s : e.second) deliver(e.first, std::move(s));
      for (auto &r : o2.rets) out.rets.push_back(std::move(r));
      continue;
    }
    (void) firstHeader;
    for (auto &s : ss) {
      std::vector<std::pair<BasicBlock *, State>> succ;
      execBlock(fi, BB, BB->begin(), std::move(s), succ, out.rets);
      for (auto &x : succ) deliver(x.first, std::move(x.second));
    }
  }
}

static void mergeRets(Engine &E, std::vector<RetState> &rets, bool partition, unsigned maxp) {
  if (rets.size() <= 1) return;
  std::vector<RetState> res;
  auto sameRet = [](const Val &a, const Val &b) {
    if (a.k != b.k) return false;
    if (a.k == K_PTR) { auto nul = [](const Val &v) { return v.p->t.empty() && v.p->null && !v.p->unk; }; return nul(a) == nul(b); }
    if (a.k == K_INT && a.width() == b.width()) return (a.isConst() && a.cval() == 0) == (b.isConst() && b.cval() == 0);
    return true;
  };
  auto absorb = [&](RetState &r, RetState &s) {
    r.mem = E.joinM(r.mem, s.mem);
    r.ret = E.joinV(r.ret, s.ret);
    size_t k = 0;
    while (k < r.trace.size() && k < s.trace.size() && r.trace[k] == s.trace[k]) k++;
    r.trace.resize(k);
  };
  for (auto &s : rets) {
    RetState *hit = nullptr;
    if (!partition) { if (!res.empty()) hit = &res[0]; }
    else {
      for (auto &r : res) if (r.trace == s.trace && sameRet(r.ret, s.ret)) { hit = &r; break; }
      if (!hit && res.size() >= maxp) hit = &res.back();
    }
    if (hit) absorb(*hit, s); else res.push_back(std::move(s));
  }
  rets = std::move(res);
}

// ------------------------------------------------------------ loop summaries
bool Engine::evalSCEV(FnInfo &fi, State &s, const SCEV *E, Val &r) {
  if (isa<SCEVCouldNotCompute>(E) || !E->getType()->isIntegerTy()) return false;
  if (auto *C = dyn_cast<SCEVConstant>(E)) { r = cint(C->getAPInt().getBitWidth(), 0); r.cr = ConstantRange(C->getAPInt()); r.kb = KnownBits::makeConstant(C->getAPInt()); return true; }
  if (auto *U = dyn_cast<SCEVUnknown>(E)) {
    if (!isa<Constant>(U->getValue()) && !fi.num.count(U->getValue())) return false;
    r = eval(fi, s, U->getValue());
    return r.k == K_INT;
  }
  if (auto *K = dyn_cast<SCEVCastExpr>(E)) {
    Val x;
    if (!evalSCEV(fi, s, K->getOperand(0), x) || x.k != K_INT) return false;
    r = castInt(x, E->getType()->getIntegerBitWidth(), isa<SCEVSignExtendExpr>(K));
    return true;
  }
  if (auto *D = dyn_cast<SCEVUDivExpr>(E)) {
    Val x, y;
    if (!evalSCEV(fi, s, D->getLHS(), x) || !evalSCEV(fi, s, D->getRHS(), y)) return false;
    r = binI(Instruction::UDiv, x, y, nullptr);
    return true;
  }
  if (auto *N = dyn_cast<SCEVNAryExpr>(E)) {
    if (isa<SCEVAddRecExpr>(E)) return false;
    bool first = true;
    for (auto *Op : N->operands()) {
      Val x;
      if (!evalSCEV(fi, s, Op, x)) return false;
      if (first) { r = x; first = false; continue; }
      if (isa<SCEVAddExpr>(E)) r = binI(Instruction::Add, r, x, nullptr);
      else if (isa<SCEVMulExpr>(E)) r = binI(Instruction::Mul, r, x, nullptr);
      else {
        if (isa<SCEVUMaxExpr>(E)) r.cr = r.cr.umax(x.cr);
        else if (isa<SCEVSMaxExpr>(E)) r.cr = r.cr.smax(x.cr);
        else if (isa<SCEVUMinExpr>(E)) r.cr = r.cr.umin(x.cr);
        else if (isa<SCEVSMinExpr>(E)) r.cr = r.cr.smin(x.cr);
        else return false;
        r.kb = KnownBits(r.width());
        r = normI(r);
      }
    }
    return !first;
  }
  return false;
}

// Stores that provably execute in every iteration and advance by exactly
// their own size initialise one contiguous range.
void Engine::summarise(FnInfo &fi, Loop *L, LoopRec &rec, State &init, Out &o) {
  BasicBlock *X = L->getExitingBlock(), *Latch = L->getLoopLatch();
  if (!X || !Latch) return;
  Val btc;
  const SCEV *B = fi.SE->getBackedgeTakenCount(L);
  if (!evalSCEV(fi, init, B, btc) || btc.k != K_INT || !btc.isConst()) return;
  uint64_t n = btc.cval();
  if (n > (1ull << 32)) return;
  std::map<int, std::vector<const Instruction *>> ok;
  for (auto &e : rec.st) {
    auto *SI = dyn_cast<StoreInst>(e.first);
    if (!SI || SI->getFunction() != fi.F || fi.LI->getLoopFor(SI->getParent()) != L) continue;
    if (!fi.DT->dominates(SI->getParent(), Latch)) continue;
    auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE->getSCEV(const_cast<Value *>(SI->getPointerOperand())));
    if (!AR || AR->getLoop() != L || !AR->isAffine()) continue;
    Val st;
    if (!evalSCEV(fi, init, AR->getStepRecurrence(*fi.SE), st) || !st.isConst()) continue;
    uint64_t sz = DL.getTypeStoreSize(SI->getValueOperand()->getType());
    int64_t step = st.cr.getSingleElement()->sextOrTrunc(64).getSExtValue();
    if (step != (int64_t) sz && step != -(int64_t) sz) continue;
    uint64_t cnt = SI->getParent() == X || fi.DT->dominates(SI->getParent(), X) ? n + 1 : n;
    const Val &p = e.second.ptr;
    if (cnt < 2 || p.k != K_PTR || p.p->t.size() != 1 || p.p->unk || p.p->null) continue;
    auto &t = p.p->t[0];
    if (rec.other.count(t.obj)) continue;
    int64_t lo = t.off.getSignedMin().getSExtValue(), hi = t.off.getSignedMax().getSExtValue();
    if (lo < 0 || hi < lo || (uint64_t) (hi - lo) != (cnt - 1) * sz) continue;
    bool sole = rec.objs[t.obj].size() == 1;
    Region g;
    g.end = hi + sz;
    g.def = e.second.val.undef ? D_UNINIT : D_TOP;
    g.taint = e.second.val.taint;
    for (auto *w : rec.objs[t.obj]) g.taint |= rec.st[w].val.taint;
    if (sole && (e.second.val.k == K_INT || e.second.val.k == K_FLT)) { g.elem = e.second.val; g.elem.org = Origin(); g.elem.p = nullptr; g.elem.prov = nullptr; g.elem.lut = nullptr; g.esz = sz; }
    auto apply = [&](State &s) {
      if (!get(s.mem, t.obj)) return;
      Obj *m = mut(s.mem, t.obj);
      for (auto it = m->cells.begin(); it != m->cells.end();) {
        if (it->first >= lo && it->first + (int64_t) it->second.size <= hi + (int64_t) sz) it = m->cells.erase(it); else ++it;
      }
      setRegion(*m, lo, hi + sz, g);
    };
    for (auto &e2 : o.exits) for (auto &s : e2.second) apply(s);
  }
}

// The change of the loop-carried value P in one iteration, from operand ranges
// recorded by a Watch: V - P lies in [lo, hi] (mathematical integers).
static bool deltaOf(const Value *V, const PHINode *P, Loop *L, LoopInfo &LI, const Watch &W, __int128 &lo, __int128 &hi, int d) {
  if (V == P) { lo = hi = 0; return true; }
  if (d > 12) return false;
  auto *I = dyn_cast<Instruction>(V);
  if (!I || !L->contains(I)) return false;
  if (I->getOpcode() == Instruction::Add || I->getOpcode() == Instruction::Sub) {
    for (unsigned k = 0; k < (I->getOpcode() == Instruction::Add ? 2u : 1u); k++) {
      if (!deltaOf(I->getOperand(k), P, L, LI, W, lo, hi, d + 1)) continue;
      auto it = W.rng.find({I, 1 - k});
      if (it == W.rng.end()) { lo = 0; hi = -1; return true; } // not executed
      if (lo > hi) return true;
      if (I->getOpcode() == Instruction::Add) { lo += it->second.first; hi += it->second.second; }
      else { auto l = lo; lo -= it->second.second; hi -= it->second.first; (void) l; }
      return true;
    }
    return false;
  }
  auto merge = [&](bool &any, __int128 l, __int128 h) {
    if (l > h) return;
    if (!any) { lo = l; hi = h; any = true; } else { lo = std::min(lo, l); hi = std::max(hi, h); }
  };
  if (auto *S = dyn_cast<SelectInst>(I)) {
    bool any = false;
    __int128 l1, h1, l2, h2;
    if (!deltaOf(S->getTrueValue(), P, L, LI, W, l1, h1, d + 1) || !deltaOf(S->getFalseValue(), P, L, LI, W, l2, h2, d + 1)) return false;
    merge(any, l1, h1); merge(any, l2, h2);
    if (!any) { lo = 0; hi = -1; }
    return true;
  }
  if (auto *Q = dyn_cast<PHINode>(I)) {
    Loop *L2 = LI.getLoopFor(Q->getParent());
    bool header = L2 && L2 != L && L2->getHeader() == Q->getParent();
    if (!header && L2 == L && L->getHeader() == Q->getParent()) return false; // another loop-carried value
    bool any = false;
    __int128 bl = 0, bh = 0;
    for (unsigned k = 0; k < Q->getNumIncomingValues(); k++) {
      __int128 l, h;
      if (header && L2->contains(Q->getIncomingBlock(k))) {
        if (!deltaOf(Q->getIncomingValue(k), Q, L2, LI, W, l, h, d + 1)) return false;
        if (l <= h) { bl = std::min(bl, l); bh = std::max(bh, h); }
        continue;
      }
      if (!deltaOf(Q->getIncomingValue(k), P, L, LI, W, l, h, d + 1)) return false;
      merge(any, l, h);
    }
    if (!any) { lo = 0; hi = -1; return true; }
    if (bl < 0 || bh > 0) {
      auto it = W.trips.find(Q->getParent());
      if (it == W.trips.end()) return false;
      const __int128 big = (__int128) 1 << 62;
      if (it->second > (uint64_t) big || bl < -big || bh > big) return false;
      bl *= it->second; bh *= it->second;
      if (bl < -big || bh > big) return false;
      lo += bl; hi += bh;
    }
    return true;
  }
  return false;
}

// Trip count as it looks in the first iteration (the bound may be in memory).
// Only used to choose between unrolling and iteration to a fixpoint.
uint64_t Engine::guessTrip(FnInfo &fi, Loop *L, State &pre) {
  BasicBlock *H = L->getHeader();
  auto *B = dyn_cast<BranchInst>(H->getTerminator());
  if (!B || !B->isConditional() || !L->isLoopExiting(H)) return ~0ull;
  auto *C = dyn_cast<ICmpInst>(B->getCondition());
  if (!C || !C->getOperand(0)->getType()->isIntegerTy()) return ~0ull;
  for (auto &I : *H) if (isa<CallInst>(I) && !isa<IntrinsicInst>(I)) return ~0ull;
  std::vector<std::pair<BasicBlock *, State>> succ;
  std::vector<RetState> rets;
  quiet++;
  execBlock(fi, H, H->getFirstNonPHI()->getIterator(), pre, succ, rets);
  quiet--;
  for (int k = 0; k < 2; k++) {
    auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE->getSCEV(C->getOperand(k)));
    if (!AR || AR->getLoop() != L || !AR->isAffine()) continue;
    for (auto &sc : succ) {
      Val st, s0;
      if (!evalSCEV(fi, pre, AR->getStepRecurrence(*fi.SE), st) || !st.isConst()) continue;
      if (!evalSCEV(fi, pre, AR->getStart(), s0) || !s0.isConst()) continue;
      Val e = eval(fi, sc.second, C->getOperand(1 - k));
      if (e.k != K_INT || e.undef || e.cr.isEmptySet() || e.width() > 64) continue;
      int64_t stp = st.cr.getSingleElement()->getSExtValue(), a = s0.cr.getSingleElement()->getSExtValue();
      if (!stp || stp == INT64_MIN) continue;
      __int128 b = stp > 0 ? e.cr.getSignedMax().getSExtValue() : e.cr.getSignedMin().getSExtValue();
      __int128 n = (b - a) / stp;
      if (n >= 0 && n < 1000000) return (uint64_t) n;
    }
  }
  return ~0ull;
}

void Engine::execLoop(FnInfo &fi, Loop *L, std::vector<State> in, Out &out) {
  BasicBlock *H = L->getHeader();
  std::vector<State> cur = std::move(in);
  bool unrolled = false, big = false, few = false;
  {
    Val b;
    if (L->getExitingBlock() && cur.size() == 1 && evalSCEV(fi, cur[0], fi.SE->getBackedgeTakenCount(L), b) && b.k == K_INT && b.isConst() && b.cval() >= bigTrip) big = true;
  }
  // bounds of the affine induction variables, from the trip count
  IvBounds ivs;
  uint64_t maxTrip = 0;
  bool haveTrip = false;
  auto findIvs = [&](State &pre, const SCEV *count, uint64_t less, IvBounds &ivs) {
    Val b;
    if (!evalSCEV(fi, pre, count, b) || b.k != K_INT || b.undef) return;
    APInt mx = b.cr.getUnsignedMax();
    if (mx.getActiveBits() > 62 || mx.ult(less)) return;
    uint64_t n = mx.getZExtValue() - less;
    if (!less) { maxTrip = n; haveTrip = true; }
    for (auto &P : H->phis()) {
      if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() > 64 || !fi.num.count(&P)) continue;
      auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE->getSCEV(&P));
      if (!AR || AR->getLoop() != L || !AR->isAffine()) continue;
      Val st, s0;
      if (!evalSCEV(fi, pre, AR->getStepRecurrence(*fi.SE), st) || !st.isConst()) continue;
      if (!evalSCEV(fi, pre, AR->getStart(), s0) || s0.k != K_INT || s0.undef) continue;
      unsigned w = P.getType()->getIntegerBitWidth();
      __int128 d = (__int128) st.cr.getSingleElement()->getSExtValue() * (__int128) n;
      auto fit = [&](__int128 lo, __int128 hi, __int128 mn, __int128 mxv) {
        if (d < 0) lo += d; else hi += d;
        if (lo < mn || hi > mxv) return false;
        ivs.push_back({fi.num[&P], ConstantRange::getNonEmpty(APInt(w, (uint64_t) lo), APInt(w, (uint64_t) hi) + 1)});
        return true;
      };
      __int128 one = 1;
      if (!fit(s0.cr.getSignedMin().getSExtValue(), s0.cr.getSignedMax().getSExtValue(), -(one << (w - 1)), (one << (w - 1)) - 1))
        fit(s0.cr.getUnsignedMin().getZExtValue(), s0.cr.getUnsignedMax().getZExtValue(), 0, (one << w) - 1);
    }
  };
  auto clampIvs = [&](State &s) { clampVals(s, ivs); };
  struct Restore { std::map<BasicBlock *, std::pair<Loop *, IvBounds>> &m; BasicBlock *k; ~Restore() { m.erase(k); } } restore{bodyIvs, H};
  unsigned undecided = 0, decided = 0, iters = 0, taken = 0;
  uint64_t start = steps;
  unsigned fix0 = fixpoints;
  auto absorb = [&](Out &o) {
    for (auto &e : o.exits) for (auto &s : e.second) addState(out.exits[e.first], std::move(s), fi, e.first);
    for (auto &r : o.rets) out.rets.push_back(std::move(r));
    if (!partition) mergeRets(*this, out.rets, false, 1);
  };
  if (!cur.empty()) {
    State pre = cur[0];
    for (size_t i = 1; i < cur.size(); i++) pre = joinS(pre, cur[i], fi, H, false);
    findIvs(pre, fi.SE->getSymbolicMaxBackedgeTakenCount(L), 0, ivs);
    for (auto *w : watches) w->trip(H, haveTrip, maxTrip);
    few = haveTrip && maxTrip <= 128;
    if (!few && relational) few = guessTrip(fi, L, pre) <= guessMax;
    if (L->isLoopExiting(H)) {
      IvBounds bv;
      findIvs(pre, fi.SE->getExitCount(L, H, ScalarEvolution::SymbolicMaximum), 1, bv);
      if (!bv.empty()) bodyIvs[H] = {L, bv};
    }
  }
  while (true) {
    if (aborted) return;
    if (!partition && cur.size() > 1) {
      State j = joinS(cur[0], cur[1], fi, H, false);
      for (size_t i = 2; i < cur.size(); i++) j = joinS(j, cur[i], fi, H, false);
      cur.clear(); cur.push_back(std::move(j));
    }
    if (big || steps > stepBudget || (iters++ >= freeIters && steps - start > (imprecise ? (few && nestBudget != ~0ull ? fewMult : 1) * nestBudget : loopBudget ? (few ? 1000 : 1) * loopBudget : stepBudget / 2))) break;
    // long unrolling of loops that contain fixpoints is expensive and gains nothing
    if (nestCap && iters > nestCap && fixpoints - fix0 >= iters - 1) break;
    unrolled = true;
    if (undecided > peel || decided > 400) break;
    Out o;
    std::vector<std::vector<std::string>> before;
    if (partition) for (auto &c : cur) before.push_back(c.trace);
    execBody(fi, L, H, cur, o);
    bool ex = !o.exits.empty() || !o.rets.empty();
    bool bk = !o.back.empty();
    std::vector<State> back = std::move(o.back);
    bool mixed = false; // one and the same path both leaves and continues
    if (partition && forkRem && ex && bk) {
      std::set<std::vector<std::string>> left;
      for (auto &x : o.exits) for (auto &t : x.second) left.insert(t.trace);
      for (auto &x : o.rets) left.insert(x.trace);
      for (auto &b : back) mixed |= left.count(b.trace) > 0;
    }
    absorb(o);
    if (!bk) return;
    if (ex) {
      bool plain = true; // no new decision was recorded in this iteration
      for (auto &b : back) { bool known = false; for (auto &t : before) if (t == b.trace) known = true; if (!known) plain = false; }
      if (!partition || (forkRem ? mixed : plain)) undecided++;
      decided++;
    }
    cur = std::move(back);
    taken++;
  }
  // fixpoint
  const uint64_t leftTrip0 = maxTrip > taken ? maxTrip - taken : 0; // back edges that remain
  fixpoints++;
  if (getenv("SRDBGFIX")) { auto dl = H->getTerminator()->getDebugLoc(); fprintf(stderr, "FIX %s:%u iters %u undecided %u decided %u big %d steps %llu cur %zu\n", fi.F->getName().str().c_str(), dl ? dl.getLine() : 0, iters, undecided, decided, big, (unsigned long long) (steps - start), cur.size()); for (auto &t : cur[0].trace) fprintf(stderr, "   %s\n", t.c_str()); }
  State init = std::move(cur[0]);
  for (size_t i = 1; i < cur.size(); i++) init = joinS(init, cur[i], fi, H, false);
  bool savePart = partition;
  partition = false;
  clampIvs(init);
  // the whole range of an induction variable at once: what is derived from it
  // needs no widening.  rel: relations that hold for the whole range.
  auto wholeRange = [&](const RelMap *rel) {
    bool any = false;
    for (auto &iv : ivs) {
      Val &v = init.env[iv.first];
      if (v.k != K_INT || !iv.second.contains(v.cr) || v.prov) continue;
      if (iv.second.isFullSet() || iv.second.isSizeLargerThan(uint64_t(1) << (v.width() > 33 ? 32 : v.width() - 2))) continue; // not a real bound
      v.cr = iv.second;
      v.kb = KnownBits(v.width());
      v = normI(v);
      any = true;
      if (relational && !rel) relDrop(init, iv.first);
    }
    if (any && relational && rel) init.rel = *rel;
  };
  bool pre = false; // are there counters that may be related to the induction variables?
  if (relational && !ivs.empty())
    for (auto &P : H->phis()) {
      if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() < 16 || P.getType()->getIntegerBitWidth() > 64 || !fi.num.count(&P)) continue;
      bool have = false;
      for (auto &iv : ivs) if (iv.first == fi.num[&P]) have = true;
      if (have) continue;
      for (auto &r : init.rel)
        if (r.first.first == fi.num[&P] || r.first.second == fi.num[&P])
          for (auto &iv : ivs) if (r.first.first == iv.first || r.first.second == iv.first) pre = true;
    }
  if (!pre) wholeRange(nullptr);
  State inv;
  quiet++;
  imprecise++;
  for (int phase = pre ? -1 : 0; phase < 2; phase++) {
  inv = init;
  int iter = 0;
  while (true) {
    if (aborted) { quiet--; imprecise--; partition = savePart; return; }
    Out o;
    std::vector<State> v{inv};
    execBody(fi, L, H, std::move(v), o);
    if (o.back.empty()) break;
    State b = std::move(o.back[0]);
    clampIvs(b);
    if (leqS(b, inv, fi, H)) break;
    iter++;
    if (iter > 200) { aborted = true; abortMsg = "loop fixpoint did not converge in " + fi.F->getName().str(); break; }
    State j = joinS(inv, b, fi, H, false);
    int hw = hardWiden;
    hardWiden = std::max(hw, iter > hard2 ? 2 : iter > hard1 ? 1 : 0);
    inv = iter >= 3 ? joinS(inv, j, fi, H, true) : std::move(j);
    hardWiden = hw;
    clampIvs(inv);
  }
  State wide = inv;
  // narrowing (bounded descending iterations)
  for (int k = 0; k < 2 && !aborted; k++) {
    Out o;
    std::vector<State> v{inv};
    execBody(fi, L, H, std::move(v), o);
    if (o.back.empty()) { inv = init; break; }
    clampIvs(o.back[0]);
    State n = joinS(init, o.back[0], fi, H, false);
    if (!leqS(n, inv, fi, H)) break;
    bool same = leqS(inv, n, fi, H);
    inv = std::move(n);
    if (same) break;
  }
  if (phase < 0) { if (aborted) break; wholeRange(&inv.rel); continue; }
  // Induction variables that were only bounded by narrowing: what depends on
  // them was widened needlessly, so iterate again with their bounds known.
  if (aborted || phase || iter < 3) break;
  bool again = false;
  for (auto &P : H->phis()) {
    if (!P.getType()->isIntegerTy() || !fi.num.count(&P)) continue;
    int k = fi.num[&P];
    const Val &w = wide.env[k], &n = inv.env[k];
    if (w.k != K_INT || n.k != K_INT || n.cr == w.cr || !w.cr.contains(n.cr)) continue;
    bool have = false;
    for (auto &iv : ivs) if (iv.first == k) have = true;
    if (have) continue;
    ivs.push_back({k, n.cr});
    Val &v = init.env[k];
    if (v.prov || !n.cr.contains(v.cr)) continue;
    v.cr = n.cr; v.kb = n.kb;
    again = true;
  }
  uint64_t leftTrip = leftTrip0;
  bool haveLeft = haveTrip;
  for (auto &P : H->phis()) { // the range of a counter bounds the number of iterations
    if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() > 64 || !fi.num.count(&P)) continue;
    auto *AR = dyn_cast<SCEVAddRecExpr>(fi.SE->getSCEV(&P));
    if (!AR || AR->getLoop() != L || !AR->isAffine()) continue;
    const Val &v = inv.env[fi.num[&P]];
    Val st;
    if (v.k != K_INT || v.undef || !evalSCEV(fi, inv, AR->getStepRecurrence(*fi.SE), st) || !st.isConst()) continue;
    unsigned w = v.width();
    __int128 d = st.cr.getSingleElement()->getSExtValue(), one = 1;
    if (!d) continue;
    auto bound = [&](__int128 lo, __int128 hi, __int128 mn, __int128 mx) {
      if (d > 0 ? hi + d > mx : lo + d < mn) return;
      __int128 n = (hi - lo) / (d > 0 ? d : -d);
      if (n < ((__int128) 1 << 62) && (!haveLeft || (uint64_t) n < leftTrip)) { haveLeft = true; leftTrip = (uint64_t) n; }
    };
    bound(v.cr.getSignedMin().getSExtValue(), v.cr.getSignedMax().getSExtValue(), -(one << (w - 1)), (one << (w - 1)) - 1);
    bound(v.cr.getUnsignedMin().getZExtValue(), v.cr.getUnsignedMax().getZExtValue(), 0, (one << w) - 1);
  }
  if (haveLeft && leftTrip < (1ull << 40)) {
    // accumulators: at most leftTrip times the change of one iteration
    std::vector<PHINode *> acc;
    for (auto &P : H->phis()) {
      if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() > 64 || P.getType()->getIntegerBitWidth() < 8 || !fi.num.count(&P)) continue;
      const Val &v = inv.env[fi.num[&P]], &v0 = init.env[fi.num[&P]];
      if (v.k != K_INT || v0.k != K_INT || v.undef || v.prov || v.cr == v0.cr) continue;
      bool have = false;
      for (auto &iv : ivs) if (iv.first == fi.num[&P]) have = true;
      if (!have) acc.push_back(&P);
    }
    if (!acc.empty()) {
      Watch W;
      watches.push_back(&W);
      Out o;
      std::vector<State> v{inv};
      execBody(fi, L, H, std::move(v), o);
      watches.pop_back();
      for (auto *P : acc) {
        __int128 lo = 0, hi = 0;
        bool ok = true;
        for (unsigned k = 0; k < P->getNumIncomingValues() && ok; k++) {
          if (!L->contains(P->getIncomingBlock(k))) continue;
          __int128 l, h;
          ok = deltaOf(P->getIncomingValue(k), P, L, *fi.LI, W, l, h, 0);
          if (ok && l <= h) { lo = std::min(lo, l); hi = std::max(hi, h); }
        }
        const __int128 one = 1, big = one << 80;
        if (!ok || lo < -big / (leftTrip + 1) || hi > big / (leftTrip + 1)) continue;
        int k = fi.num[P];
        Val &v0 = init.env[k];
        unsigned w = v0.width();
        auto fit = [&](__int128 l, __int128 h, __int128 mn, __int128 mx) {
          l += lo * leftTrip; h += hi * leftTrip;
          if (l < mn || h > mx) return false;
          ConstantRange c = ConstantRange::getNonEmpty(APInt(w, (uint64_t) l), APInt(w, (uint64_t) h) + 1);
          if (inv.env[k].cr.contains(c) && !(inv.env[k].cr == c) && c.contains(v0.cr)) {
            ivs.push_back({k, c});
            v0.cr = c; v0.kb = KnownBits(w);
            again = true;
          }
          return true;
        };
        if (!fit(v0.cr.getSignedMin().getSExtValue(), v0.cr.getSignedMax().getSExtValue(), -(one << (w - 1)), (one << (w - 1)) - 1))
          fit(v0.cr.getUnsignedMin().getZExtValue(), v0.cr.getUnsignedMax().getZExtValue(), 0, (one << w) - 1);
      }
    }
  }
  if (!again) break;
  init.rel = inv.rel; // they hold for the enlarged ranges too
  }
  quiet--;
  {
    Out o;
    std::vector<State> v{inv};
    LoopRec rec;
    if (!unrolled) recs.push_back(&rec);
    execBody(fi, L, H, std::move(v), o);
    if (!unrolled) { recs.pop_back(); if (!aborted) summarise(fi, L, rec, init, o); }
    o.back.clear();
    partition = savePart;
    absorb(o);
  }
  imprecise--;
}

bool Engine::selfRecursive(Function *F) {
  auto it = selfRec.find(F);
  if (it != selfRec.end()) return it->second;
  bool r = false, al = false;
  for (auto &BB : *F)
    for (auto &I : BB) {
      if (isa<AllocaInst>(I)) al = true;
      if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledOperand()->stripPointerCasts() == F) r = true;
    }
  for (auto &A : F->args()) if (A.hasByValAttr()) al = true;
  return selfRec[F] = r && !al;
}

std::vector<RetState> Engine::call(Function *F, std::vector<Val> args, Mem mem, std::vector<std::string> trace) {
  std::vector<RetState> none;
  if (aborted) return none;
  FnInfo &fi = info(F);
  functions.insert(F);
  if (fi.irreducible) { aborted = true; abortMsg = "irreducible control flow in " + F->getName().str(); return none; }
  depth++;
  callStack.push_back(F);
  State s;
  s.mem = std::move(mem);
  s.trace = std::move(trace);
  s.env.resize(fi.vals.size());
  unsigned i = 0;
  for (auto &A : F->args()) {
    if (i < args.size()) s.env[fi.num[&A]] = args[i];
    i++;
  }
  for (auto &r : argRel)
    if (r.first.first < (int) F->arg_size() && r.first.second < (int) F->arg_size()) s.rel[{fi.num[F->getArg(r.first.first)], fi.num[F->getArg(r.first.second)]}] = r.second;
  argRel.clear();
  int firstObj = nextObj;
  Out out;
  std::vector<State> v;
  v.push_back(std::move(s));
  execBody(fi, nullptr, &F->getEntryBlock(), std::move(v), out);
  callStack.pop_back();
  depth--;
  mergeRets(*this, out.rets, partition, maxPaths);
  // drop this frame's stack objects
  std::string pre = std::to_string(depth + 1) + ":";
  for (auto &r : out.rets)
    for (auto it = r.mem.o.begin(); it != r.mem.o.end();) {
      if (it->second->kind == O_STACK && it->second->site && isa<AllocaInst>(it->second->site) &&
          cast<AllocaInst>(it->second->site)->getFunction() == F && frameOf[it->first] == depth + 1)
        it = r.mem.o.erase(it);
      else ++it;
    }
  (void) firstObj;
  return std::move(out.rets);
}

// Is the address computed by I used for an access at once (directly or through
// further member selection)?
static bool accessed(const Instruction *I, int d = 0) {
  if (d > 4) return false;
  for (auto *U : I->users()) {
    if (isa<LoadInst>(U)) return true;
    if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == I) return true; continue; }
    if (auto *G = dyn_cast<GetElementPtrInst>(U)) if (G->getPointerOperand() == I && accessed(G, d + 1)) return true;
  }
  return false;
}

Val Engine::gep(FnInfo &fi, State &s, const GEPOperator *G) {
  Val b = eval(fi, s, G->getPointerOperand());
  if (b.k != K_PTR) return unkPtr();
  unsigned w = 64;
  ConstantRange add(APInt(64, 0)), addc(APInt(64, 0)); // addc: without variable indices
  uint64_t stride = 0;
  Type *T = G->getSourceElementType();
  uint32_t taint = b.taint;
  bool undef = b.undef;
  bool first = true;
  uint64_t alen = 0;
  bool derefed = isa<GetElementPtrInst>(G) && accessed(cast<Instruction>(G));
  Lut lut;      // the only index that isn't constant, if its bits are tracked
  unsigned nvar = 0;
  uint64_t lutsc = 0;
  for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
    if (!first) {
      if (auto *ST = dyn_cast<StructType>(T)) {
        unsigned k = cast<ConstantInt>(*it)->getZExtValue();
        add = add.add(ConstantRange(APInt(64, DL.getStructLayout(ST)->getElementOffset(k))));
        addc = addc.add(ConstantRange(APInt(64, DL.getStructLayout(ST)->getElementOffset(k))));
        T = ST->getElementType(k);
        continue;
      }
      alen = isa<ArrayType>(T) ? cast<ArrayType>(T)->getNumElements() : 0;
      T = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<VectorType>(T)->getElementType();
    }
    first = false;
    uint64_t sc = DL.getTypeAllocSize(T);
    Val x = eval(fi, s, *it);
    if (x.k != K_INT) return unkPtr();
    if (alen > 1 && derefed && !x.isConst() && x.width() >= 32) {
      // the element is accessed: the index must lie inside the declared array
      unsigned xw = x.width();
      obligation(cast<Instruction>(G), "index");
      ConstantRange in(APInt(xw, 0), APInt(xw, alen));
      if (!in.contains(x.cr)) {
        if (checkMem) alarm(cast<Instruction>(G), "oob", "index " + show(x) + " of an array of " + std::to_string(alen) + " elements");
        ConstantRange c = x.cr.intersectWith(in, ConstantRange::Signed);
        if (!c.isEmptySet() && in.contains(c)) { x.cr = c; x.p = nullptr; x = normI(x); if (x.cr.isEmptySet()) x.cr = c; }
      }
    }
    alen = 0;
    taint |= x.taint & ~T_UNINIT;
    undef |= x.undef;
    ConstantRange xr = x.width() < w ? x.cr.signExtend(w) : x.width() > w ? x.cr.truncate(w) : x.cr;
    if (xr.isSingleElement()) { add = add.add(ConstantRange(*xr.getSingleElement() * sc)); addc = addc.add(ConstantRange(*xr.getSingleElement() * sc)); }
    else {
      nvar++;
      lutsc = sc;
      lut = Lut();
      if (x.lut) lut = *x.lut;
      else if (x.prov) {
        auto pv = provOf(x);
        while (!pv.empty() && pv.back() == 0xFFFE) pv.pop_back();
        if (pv.size() <= 8) { lut.lab = pv; for (uint64_t i = 0; i < (1u << pv.size()); i++) lut.tab.push_back(i); }
      }
      // scale with signed bounds if no overflow
      APInt lo = xr.getSignedMin(), hi = xr.getSignedMax();
      bool o1, o2;
      APInt l2 = lo.smul_ov(APInt(64, sc), o1), h2 = hi.smul_ov(APInt(64, sc), o2);
      if (o1 || o2) add = ConstantRange(64, true);
      else {
        bool oa, ob;
        APInt l3 = add.getSignedMin().sadd_ov(l2, oa), h3 = add.getSignedMax().sadd_ov(h2, ob);
        if (oa || ob || add.isFullSet()) add = ConstantRange(64, true);
        else add = ConstantRange::getNonEmpty(l3, h3 + 1);
      }
      unsigned tz = std::min(x.kb.countMinTrailingZeros(), 20u);
      // lower bound must be compatible with the alignment
      uint64_t es = sc << tz;
      if (tz && (lo.getSExtValue() & ((1LL << tz) - 1))) es = sc;
      stride = std::gcd(stride, es);
    }
  }
  Val r = b;
  r.org = Origin();
  r.lut = nullptr;
  if (nvar == 1 && !lut.tab.empty() && addc.isSingleElement() && !b.p->unk && b.p->t.size() == 1 && b.p->t[0].off.isSingleElement()) {
    for (auto &x : lut.tab) x = x * lutsc + addc.getSingleElement()->getZExtValue() + b.p->t[0].off.getSingleElement()->getZExtValue();
    r.lut = std::make_shared<Lut>(lut);
  }
  auto p = std::make_shared<PtrSet>(*b.p);
  for (auto &t : p->t) {
    uint64_t s0 = t.off.isSingleElement() ? 0 : t.stride;
    if (add.isSingleElement()) { t.off = t.off.add(add); }
    else {
      bool oa, ob;
      APInt l = t.off.getSignedMin().sadd_ov(add.getSignedMin(), oa), h = t.off.getSignedMax().sadd_ov(add.getSignedMax(), ob);
      t.off = (oa || ob) ? ConstantRange(64, true) : ConstantRange::getNonEmpty(l, h + 1);
      t.stride = std::gcd(s0, stride);
    }
    if (t.off.isSingleElement()) t.stride = 0; else if (!t.stride) t.stride = 1;
  }
  if (p->null && p->t.empty() && !p->unk) { /* gep on null keeps null */ }
  r.p = p;
  r.taint = taint;
  r.undef = undef;
  return r;
}

bool Engine::execInst(FnInfo &fi, Instruction &I, State &s, std::vector<State> &more) {
  visited.insert(&I);
  Val r;
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto *A = cast<AllocaInst>(&I);
    uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType());
    Val n = eval(fi, s, A->getArraySize());
    std::string key = std::to_string(depth) + ":" + std::to_string((uintptr_t) &I);
    auto it = allocIds.find(key);
    int id;
    if (it == allocIds.end()) { id = nextObj++; allocIds[key] = id; objNames[id] = A->hasName() ? A->getName().str() : "local"; frameOf[id] = depth; }
    else id = it->second;
    auto o = std::make_shared<Obj>();
    o->id = id; o->kind = O_STACK; o->def = D_UNINIT; o->site = &I; o->name = objNames[id];
    o->size = n.k == K_INT ? n.cr.zextOrTrunc(64).multiply(ConstantRange(APInt(64, sz))) : ConstantRange(64, true);
    s.mem.o[id] = o;
    addThr(APInt(64, sz));
    r = ptrTo(id);
    break;
  }
  case Instruction::Load: {
    Val p = eval(fi, s, I.getOperand(0));
    if (onMem) onMem(*this, I, p, nullptr, s);
    r = load(s.mem, p, I.getType(), &I);
    break;
  }
  case Instruction::Store: {
    Val v = eval(fi, s, I.getOperand(0)), p = eval(fi, s, I.getOperand(1));
    if (onMem) onMem(*this, I, p, &v, s);
    store(s.mem, p, v, I.getOperand(0)->getType(), &I);
    // a later branch on the stored SSA value also refines the cell
    auto nv = fi.num.find(I.getOperand(0));
    if (nv != fi.num.end() && p.k == K_PTR && p.p->t.size() == 1 && !p.p->unk && p.p->t[0].off.isSingleElement() && (v.k == K_INT || v.k == K_PTR || v.k == K_FLT)) {
      const Obj *o = get(s.mem, p.p->t[0].obj);
      int64_t off = p.p->t[0].off.getSingleElement()->getSExtValue();
      if (o && !o->summary) {
        auto c = o->cells.find(off);
        Val &e = s.env[nv->second];
        if (c != o->cells.end() && c->second.size == DL.getTypeStoreSize(I.getOperand(0)->getType()) && c->second.v.k == e.k && (e.k != K_INT || e.width() == c->second.v.width())) {
          e.org.obj = p.p->t[0].obj; e.org.off = off; e.org.size = c->second.size; e.org.stamp = c->second.stamp;
        }
      }
    }
    return true;
  }
  case Instruction::GetElementPtr:
    r = I.getType()->isVectorTy() ? unkPtr() : gep(fi, s, cast<GEPOperator>(&I));
    break;
  case Instruction::ICmp: {
    Val a = eval(fi, s, I.getOperand(0)), b = eval(fi, s, I.getOperand(1));
    r = icmp(cast<ICmpInst>(I).getPredicate(), a, b);
    if (forkUser && partition && r.k == K_INT && !r.isConst() && r.width() == 1 && a.k == K_INT && b.k == K_INT && ((a.taint | b.taint) & T_USER)) {
      // the two outcomes are followed separately
      State n = s;
      bool ft = refine(fi, n, &I, true), ff = refine(fi, s, &I, false);
      uint32_t t = r.taint;
      if (ft && ff) {
        Val one = cint(1, 1); one.taint = t;
        if (relational) relDrop(n, fi.num[&I]);
        n.env[fi.num[&I]] = one;
        n.trace.push_back("T" + std::to_string((uintptr_t) &I));
        more.push_back(std::move(n));
        s.trace.push_back("F" + std::to_string((uintptr_t) &I));
        r = cint(1, 0);
      } else if (ft || ff) r = cint(1, ft);
      r.taint = t;
      if (ft && !ff) s = std::move(n);
    }
    break;
  }
  case Instruction::FCmp:
    r = fcmp(cast<FCmpInst>(I).getPredicate(), eval(fi, s, I.getOperand(0)), eval(fi, s, I.getOperand(1)));
    break;
  case Instruction::Select: {
    Val c = eval(fi, s, I.getOperand(0));
    if (c.k == K_INT && c.cr.isSingleElement() && !I.getOperand(0)->getType()->isVectorTy()) r = eval(fi, s, I.getOperand(c.cval() ? 1 : 2));
    else {
      State a = s, b = s;
      bool fa = true, fb = true;
      curBB = I.getParent(); curStop = &I;
      if (!I.getOperand(0)->getType()->isVectorTy()) { fa = refine(fi, a, I.getOperand(0), true); fb = refine(fi, b, I.getOperand(0), false); }
      if (fa) r = eval(fi, a, I.getOperand(1));
      if (fb) r = fa ? joinV(r, eval(fi, b, I.getOperand(2))) : eval(fi, b, I.getOperand(2));
      r.org = Origin();
    }
    r.taint |= c.taint & (T_SEED | T_GEN | T_HW | T_PARAM);
    r.undef |= c.undef;
    break;
  }
  case Instruction::ZExt:
  case Instruction::SExt:
  case Instruction::Trunc: {
    Val a = eval(fi, s, I.getOperand(0));
    unsigned w = I.getType()->getScalarSizeInBits();
    if (a.k == K_INT) r = castInt(a, w, I.getOpcode() == Instruction::SExt);
    else { r = top(I.getType(), a.taint); r.undef = a.undef; }
    break;
  }
  case Instruction::BitCast:
  case Instruction::AddrSpaceCast: {
    Val a = eval(fi, s, I.getOperand(0));
    if (I.getType()->isPointerTy()) r = a;
    else if (a.k == K_INT && I.getType()->isIntOrIntVectorTy() && a.width() == I.getType()->getScalarSizeInBits()) r = a;
    else {
      r = top(I.getType(), a.taint);
      r.undef = a.undef;
      // all-zero / all-one splats survive
      if (a.k == K_INT && r.k == K_INT && a.isConst() && a.cr.getSingleElement()->isZero()) { r = cint(r.width(), 0); r.taint = a.taint; }
    }
    break;
  }
  case Instruction::PtrToInt: {
    Val a = eval(fi, s, I.getOperand(0));
    r = topInt(I.getType()->getScalarSizeInBits(), a.taint | T_ADDR);
    if (a.k == K_PTR) {
      r.p = a.p;
      if (a.p->t.empty() && a.p->null && !a.p->unk) { r = cint(r.width(), 0); r.taint = a.taint; }
    }
    r.undef = a.undef;
    break;
  }
  case Instruction::IntToPtr: {
    Val a = eval(fi, s, I.getOperand(0));
    r = unkPtr();
    if (a.k == K_INT && a.p) r.p = a.p;
    else if (a.isConst() && a.cr.getSingleElement()->isZero()) r = nullPtr();
    r.taint = a.taint;
    r.undef = a.undef;
    break;
  }
  case Instruction::FPToUI:
  case Instruction::FPToSI: {
    Val a = eval(fi, s, I.getOperand(0));
    unsigned w = I.getType()->getScalarSizeInBits();
    r = topInt(w, a.taint);
    if (a.k == K_FLT && !I.getType()->isVectorTy()) { // never in range: undefined
      bool un = I.getOpcode() == Instruction::FPToUI;
      double mx = std::ldexp(1.0, un ? w : w - 1), mn = un ? -1.0 : -mx - (w > 52 ? 0 : 1);
      obligation(&I, "fp-to-int");
      if (!a.undef && a.flo <= a.fhi && (a.flo >= mx || a.fhi <= mn - (!un && w > 52 ? 2048 : 0))) alarm(&I, "fp-to-int", "conversion of " + show(a) + " to an integer of " + std::to_string(w) + " bits is out of range");
    }
    if (a.k == K_FLT && !a.nan && a.flo <= a.fhi) {
      double lo = std::trunc(a.flo), hi = std::trunc(a.fhi);
      if (I.getOpcode() == Instruction::FPToUI) {
        if (lo >= 0 && hi < std::ldexp(1.0, std::min(w, 63u))) r.cr = ConstantRange::getNonEmpty(APInt(w, (uint64_t) lo), APInt(w, (uint64_t) hi) + 1);
      } else if (lo >= -std::ldexp(1.0, std::min(w - 1, 62u)) && hi < std::ldexp(1.0, std::min(w - 1, 62u)))
        r.cr = ConstantRange::getNonEmpty(APInt(w, (uint64_t) (int64_t) lo, true), APInt(w, (uint64_t) (int64_t) hi, true) + 1);
      r = normI(r);
    }
    r.undef = a.undef;
    break;
  }
  case Instruction::UIToFP:
  case Instruction::SIToFP: {
    Val a = eval(fi, s, I.getOperand(0));
    r = frange(-INFINITY, INFINITY, false);
    if (a.k == K_INT) {
      bool sg = I.getOpcode() == Instruction::SIToFP;
      double lo = sg ? a.cr.getSignedMin().roundToDouble(true) : a.cr.getUnsignedMin().roundToDouble(false);
      double hi = sg ? a.cr.getSignedMax().roundToDouble(true) : a.cr.getUnsignedMax().roundToDouble(false);
      r = frange(lo, hi, false);
    }
    r.taint = a.taint;
    r.undef = a.undef;
    break;
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc: {
    r = eval(fi, s, I.getOperand(0));
    r.org = Origin();
    if (r.k == K_FLT && I.getOpcode() == Instruction::FPTrunc && I.getType()->isFloatTy()) { if (r.flo == r.fhi) { r.flo = (float) r.flo; r.fhi = (float) r.fhi; } }
    break;
  }
  case Instruction::FNeg: {
    r = eval(fi, s, I.getOperand(0));
    r.org = Origin();
    if (r.k == K_FLT) { double l = r.flo; r.flo = -r.fhi; r.fhi = -l; }
    break;
  }
  case Instruction::Freeze:
    r = eval(fi, s, I.getOperand(0));
    break;
  case Instruction::ExtractValue: {
    auto *E = cast<ExtractValueInst>(&I);
    Val a = eval(fi, s, E->getAggregateOperand());
    for (unsigned k : E->indices()) {
      if (a.k == K_AGG && k < a.agg->size()) { Val t = (*a.agg)[k]; a = t; }
      else { a = top(I.getType(), a.taint); break; }
    }
    r = a;
    break;
  }
  case Instruction::InsertValue: {
    auto *E = cast<InsertValueInst>(&I);
    Val a = eval(fi, s, E->getAggregateOperand());
    Val v = eval(fi, s, E->getInsertedValueOperand());
    if (a.k == K_AGG && E->getNumIndices() == 1 && E->getIndices()[0] < a.agg->size()) {
      auto n = std::make_shared<std::vector<Val>>(*a.agg);
      (*n)[E->getIndices()[0]] = v;
      r = a;
      r.agg = n;
      r.taint |= v.taint;
      bool u = false;
      for (auto &x : *n) u |= x.undef;
      r.undef = u;
    } else r = top(I.getType(), a.taint | v.taint);
    break;
  }
  case Instruction::ExtractElement:
    r = eval(fi, s, I.getOperand(0));
    r.org = Origin();
    break;
  case Instruction::InsertElement: {
    Val v = eval(fi, s, I.getOperand(1));
    if (isa<UndefValue>(I.getOperand(0))) r = v;
    else r = joinV(eval(fi, s, I.getOperand(0)), v);
    r.org = Origin();
    break;
  }
  case Instruction::ShuffleVector: {
    auto *SV = cast<ShuffleVectorInst>(&I);
    unsigned n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
    bool u0 = false, u1 = false;
    for (int m : SV->getShuffleMask()) { if (m < 0) continue; if ((unsigned) m < n) u0 = true; else u1 = true; }
    if (u0) r = eval(fi, s, I.getOperand(0));
    if (u1) { Val b = eval(fi, s, I.getOperand(1)); r = u0 ? joinV(r, b) : b; }
    if (r.k == K_NONE) r = top(I.getType());
    r.org = Origin();
    break;
  }
  case Instruction::Call:
    return execCall(fi, cast<CallBase>(I), s, more);
  case Instruction::AtomicRMW:
  case Instruction::AtomicCmpXchg: {
    Val p = eval(fi, s, I.getOperand(0));
    havocRange(s.mem, p, cint(64, 8), topInt(8));
    r = top(I.getType());
    break;
  }
  case Instruction::Fence:
    return true;
  case Instruction::VAArg:
    r = top(I.getType());
    break;
  default:
    if (I.isBinaryOp()) {
      if (!watches.empty() && (I.getOpcode() == Instruction::Add || I.getOpcode() == Instruction::Sub) && I.getType()->isIntegerTy())
        for (unsigned k = 0; k < 2; k++) {
          Val x = eval(fi, s, I.getOperand(k));
          for (auto *w : watches) w->add(&I, k, x);
        }
      r = binop(I.getOpcode(), eval(fi, s, I.getOperand(0)), eval(fi, s, I.getOperand(1)), &I);
      r.org = Origin();
      if (forkRem && partition && I.getOpcode() == Instruction::URem && r.k == K_INT && !r.undef && !r.isConst() && r.width() <= 64 && !r.cr.isWrappedSet()) {
        // a choice between a few values: keep them apart
        uint64_t lo = r.cr.getUnsignedMin().getZExtValue(), hi = r.cr.getUnsignedMax().getZExtValue();
        if (hi - lo < forkRem) {
          for (uint64_t v = lo + 1; v <= hi; v++) {
            State n = s;
            Val q = cint(r.width(), v); q.taint = r.taint;
            if (relational) relDrop(n, fi.num[&I]);
            n.env[fi.num[&I]] = q;
            n.trace.push_back("rem=" + std::to_string(v));
            more.push_back(std::move(n));
          }
          uint32_t t = r.taint;
          r = cint(r.width(), lo); r.taint = t;
          s.trace.push_back("rem=" + std::to_string(lo));
        }
      }
      break;
    }
    r = top(I.getType());
    unmodelled.insert(std::string("instruction ") + I.getOpcodeName());
  }
  if (!I.getType()->isVoidTy()) {
    if (relational) relDrop(s, fi.num[&I]);
    s.env[fi.num[&I]] = std::move(r);
    if (relational && I.getType()->isIntegerTy()) relDef(fi, s, I);
  }
  return true;
}

// ------------------------------------------------------------ calls
bool Engine::intrinsic(FnInfo &fi, CallBase &CB, Function *F, std::vector<Val> &a, State &s, Val &r) {
  StringRef n = F->getName();
  Type *T = CB.getType();
  uint32_t taint = 0;
  bool undef = false;
  for (auto &x : a) { taint |= x.taint; undef |= x.undef; }
  auto ID = F->getIntrinsicID();
  switch (ID) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore:
  case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::var_annotation:
    if (ID == Intrinsic::vastart) havocRange(s.mem, a[0], cint(64, 24), topInt(8));
    return true;
  case Intrinsic::stacksave: r = unkPtr(); return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
    if (onMem) onMem(*this, CB, a[0], &a[1], s);
    memcpyOp(s.mem, a[0], a[1], a[2], &CB, true);
    return true;
  case Intrinsic::memset: case Intrinsic::memset_inline:
    if (onMem) onMem(*this, CB, a[0], &a[1], s);
    memsetOp(s.mem, a[0], a[1], a[2], &CB);
    return true;
  case Intrinsic::expect: r = a[0]; return true;
  case Intrinsic::bswap: case Intrinsic::bitreverse:
    if (a[0].k == K_INT) {
      r = topInt(a[0].width(), taint);
      unsigned w = a[0].width();
      r.kb = ID == Intrinsic::bswap ? a[0].kb.byteSwap() : a[0].kb.reverseBits();
      r = normI(r);
      if (a[0].prov) {
        auto p = provOf(a[0]);
        std::vector<uint16_t> q(w);
        for (unsigned i = 0; i < w; i++) q[i] = ID == Intrinsic::bswap ? p[(w / 8 - 1 - i / 8) * 8 + i % 8] : p[w - 1 - i];
        setProv(r, q);
      }
      r.undef = undef;
      return true;
    }
    break;
  case Intrinsic::fshl: case Intrinsic::fshr:
    if (a[0].k == K_INT && a[2].isConst()) {
      unsigned w = a[0].width();
      unsigned k = a[2].cval() % w;
      bool L = ID == Intrinsic::fshl;
      if (k == 0) { r = L ? a[0] : a[1]; r.org = Origin(); r.taint = taint; r.undef = undef; return true; }
      unsigned l = L ? k : w - k;
      Val hi = binI(Instruction::Shl, a[0], cint(w, l), nullptr), lo = binI(Instruction::LShr, a[1], cint(w, w - l), nullptr);
      r = binI(Instruction::Or, hi, lo, nullptr);
      r.taint = taint; r.undef = undef;
      return true;
    }
    break;
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
    if (a[0].k == K_INT) {
      unsigned w = a[0].width();
      r = range(w, 0, w);
      if (a[0].isConst()) {
        APInt v = *a[0].cr.getSingleElement();
        r = cint(w, ID == Intrinsic::ctpop ? v.popcount() : ID == Intrinsic::ctlz ? v.countl_zero() : v.countr_zero());
      } else if (ID == Intrinsic::ctpop) r = range(w, a[0].kb.countMinPopulation(), a[0].kb.countMaxPopulation());
      r.taint = taint; r.undef = undef;
      return true;
    }
    break;
  case Intrinsic::umax: r = a[0]; r.cr = a[0].cr.umax(a[1].cr); r.kb = KnownBits(r.width()); r.p = nullptr; r.prov = nullptr; r.lut = nullptr; r.org = Origin(); r = normI(r); r.taint = taint; r.undef = undef; return true;
  case Intrinsic::umin: r = a[0]; r.cr = a[0].cr.umin(a[1].cr); r.kb = KnownBits(r.width()); r.p = nullptr; r.prov = nullptr; r.lut = nullptr; r.org = Origin(); r = normI(r); r.taint = taint; r.undef = undef; return true;
  case Intrinsic::smax: r = a[0]; r.cr = a[0].cr.smax(a[1].cr); r.kb = KnownBits(r.width()); r.p = nullptr; r.prov = nullptr; r.lut = nullptr; r.org = Origin(); r = normI(r); r.taint = taint; r.undef = undef; return true;
  case Intrinsic::smin: r = a[0]; r.cr = a[0].cr.smin(a[1].cr); r.kb = KnownBits(r.width()); r.p = nullptr; r.prov = nullptr; r.lut = nullptr; r.org = Origin(); r = normI(r); r.taint = taint; r.undef = undef; return true;
  case Intrinsic::fabs:
    r = a[0]; r.org = Origin();
    if (r.k == K_FLT && r.flo <= r.fhi) { double l = r.flo, h = r.fhi; r.flo = (l <= 0 && h >= 0) ? 0 : std::min(std::fabs(l), std::fabs(h)); r.fhi = std::max(std::fabs(l), std::fabs(h)); }
    return true;
  case Intrinsic::sqrt:
    r = frange(0, INFINITY, true);
    if (a[0].k == K_FLT && a[0].flo >= 0) { r = frange(std::sqrt(a[0].flo), std::sqrt(a[0].fhi), a[0].nan); }
    r.taint = taint; r.undef = undef;
    return true;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::nearbyint:
    r = a[0]; r.org = Origin();
    if (r.k == K_FLT && r.flo <= r.fhi) { r.flo = std::floor(r.flo); r.fhi = std::ceil(r.fhi); }
    return true;
  case Intrinsic::is_fpclass: r = topInt(1, taint); r.undef = undef;
    if (a[0].k == K_FLT && a[1].isConst()) {
      unsigned m = a[1].cval();
      if (m == 3 && !a[0].nan) r = cint(1, 0);
      if (m == 3 && a[0].nan && a[0].flo > a[0].fhi) r = cint(1, 1);
      r.taint = taint; r.undef = undef;
    }
    return true;
  default: break;
  }
  // generic: pure value function of its arguments (vector/x86/math intrinsics);
  // memory operands are handled conservatively.
  if (n.starts_with("llvm.x86.rdrand") || n.starts_with("llvm.x86.rdseed") || n.starts_with("llvm.x86.rdtsc") || ID == Intrinsic::readcyclecounter) {
    taint |= T_HW;
    undef = false;
  }
  if (!T->isVoidTy()) {
    r = top(T, taint);
    r.undef = undef;
    if (r.k == K_AGG) { auto g = std::make_shared<std::vector<Val>>(*r.agg); for (auto &x : *g) { x.taint |= taint; x.undef = undef; } r.agg = g; }
  }
  for (auto &x : a)
    if (x.k == K_PTR) {
      bool ro = F->onlyReadsMemory();
      if (!ro) havocReach(s.mem, x, taint & ~T_UNINIT);
    }
  return true;
}

bool Engine::execCall(FnInfo &fi, CallBase &CB, State &s, std::vector<State> &more) {
  std::vector<Val> a;
  for (auto &Op : CB.args()) {
    Value *V = Op.get();
    if (V->getType()->isMetadataTy()) return true;
    a.push_back(eval(fi, s, V));
  }
  Type *T = CB.getType();
  auto setr = [&](State &st, Val v) { if (!T->isVoidTy()) { if (v.k == K_NONE) v = top(T); v.org = Origin(); st.env[fi.num[&CB]] = std::move(v); } };
  if (CB.isInlineAsm()) {
    uint32_t taint = T_HW;
    for (auto &x : a) taint |= x.taint;
    for (unsigned k = 0; k < a.size(); k++) if (a[k].k == K_PTR) {
      // memory operands: outputs are written
      Type *ET = CB.getParamElementType(k);
      if (ET) havocRange(s.mem, a[k], cint(64, DL.getTypeStoreSize(ET)), topInt(8, taint & ~T_UNINIT));
      else havocReach(s.mem, a[k], taint & ~T_UNINIT);
    }
    Val r;
    if (!T->isVoidTy()) r = top(T, taint & ~T_UNINIT);
    if (onCall) onCall(*this, CB, nullptr, a, s);
    setr(s, r);
    return true;
  }
  std::vector<Function *> fs;
  std::vector<std::string> pseudo;
  bool unk = false;
  if (auto *F = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts())) fs.push_back(F);
  else {
    Val p = eval(fi, s, CB.getCalledOperand());
    obligation(&CB, "icall");
    if (p.undef && checkUninit) alarm(&CB, "uninit-ptr", "call through possibly uninitialised pointer");
    if (p.k == K_PTR && p.p->null && !p.p->unk) alarm(&CB, "null-call", "call through possibly NULL function pointer");
    fs = funcTargets(p, s.mem, unk, pseudo);
  }
  if (!redirect.empty())
    for (auto *&F : fs) {
      auto rd = redirect.find(F->getName().str());
      if (rd == redirect.end() || CB.getFunction()->getName() == rd->second) continue;
      if (auto *G = M.getFunction(rd->second)) F = G;
    }
  std::vector<State> results;
  bool any = false;
  auto finish = [&](State &&st, Val v) { setr(st, v); results.push_back(std::move(st)); any = true; };
  size_t total = fs.size() + pseudo.size() + (unk ? 1 : 0);
  for (auto *F : fs) {
    State st = total == 1 ? std::move(s) : s;
    std::vector<Val> av = a;
    if (onCall) onCall(*this, CB, F, av, st);
    auto md = models.find(F->getName().str());
    if (md != models.end()) {
      Val r;
      std::vector<State> extra;
      bool alive = md->second(*this, CB, av, st, r, extra);
      for (auto &e : extra) { any = true; results.push_back(std::move(e)); }
      if (alive) finish(std::move(st), r);
      continue;
    }
    if (F->isIntrinsic()) {
      Val r;
      if (F->getIntrinsicID() == Intrinsic::trap) continue;
      intrinsic(fi, CB, F, av, st, r);
      finish(std::move(st), r);
      continue;
    }
    if (F->isDeclaration()) {
      Val r;
      std::vector<State> extra;
      bool alive = libcall(CB, F->getName(), av, st, r, extra);
      for (auto &e : extra) { any = true; results.push_back(std::move(e)); }
      if (alive) finish(std::move(st), r);
      continue;
    }
    auto rr = recursions.find(F);
    if (rr != recursions.end()) { // recursive call: entry and exit of the summary
      Recursion &R = *rr->second;
      if (!R.newEntry) R.newEntry = std::make_unique<RetState>();
      else R.newEntry->mem = joinM(R.newEntry->mem, st.mem);
      if (R.newArgs.empty()) { R.newEntry->mem = st.mem; R.newArgs = av; }
      else for (size_t k = 0; k < av.size() && k < R.newArgs.size(); k++) R.newArgs[k] = joinV(R.newArgs[k], av[k]);
      if (!R.exit) continue;
      st.mem = R.exit->mem;
      if (T->isVoidTy()) finish(std::move(st), Val()); else finish(std::move(st), R.exit->ret);
      any = true;
      continue;
    }
    int rec = 0;
    for (auto *x : callStack) if (x == F) rec++;
    if (rec > 3 || depth > (int) maxDepth) {
      unmodelled.insert("recursion " + F->getName().str());
      for (auto &x : av) havocReach(st.mem, x, T_EXT);
      finish(std::move(st), top(T, T_EXT));
      continue;
    }
    if (relational && !partition && selfRecursive(F)) {
      Recursion R;
      std::vector<Val> ea = av;
      Mem em = st.mem;
      recursions[F] = &R;
      bool stable = false;
      quiet++; imprecise++;
      for (int it = 0; it < 40 && !stable && !aborted; it++) {
        R.newEntry.reset(); R.newArgs.clear();
        argRel.clear();
        auto rs = call(F, ea, em, {});
        stable = true;
        if (R.newEntry) {
          for (size_t k = 0; k < ea.size() && k < R.newArgs.size(); k++)
            if (!leqV(R.newArgs[k], ea[k])) { stable = false; ea[k] = it > 3 ? widenV(ea[k], joinV(ea[k], R.newArgs[k])) : joinV(ea[k], R.newArgs[k]); }
          if (!leqM(R.newEntry->mem, em)) { stable = false; Mem j = joinM(em, R.newEntry->mem); em = it > 3 ? joinM(em, j, true) : j; }
        }
        if (!rs.empty()) {
          RetState x = std::move(rs[0]);
          for (size_t k = 1; k < rs.size(); k++) { x.mem = joinM(x.mem, rs[k].mem); x.ret = joinV(x.ret, rs[k].ret); }
          if (!R.exit) { R.exit = std::make_unique<RetState>(std::move(x)); stable = false; }
          else if (!leqM(x.mem, R.exit->mem) || (x.ret.k != K_NONE && !leqV(x.ret, R.exit->ret))) {
            stable = false;
            Mem j = joinM(R.exit->mem, x.mem);
            R.exit->mem = it > 3 ? joinM(R.exit->mem, j, true) : j;
            if (x.ret.k != K_NONE) R.exit->ret = it > 3 ? widenV(R.exit->ret, joinV(R.exit->ret, x.ret)) : joinV(R.exit->ret, x.ret);
          }
        }
      }
      quiet--;
      std::vector<RetState> rs;
      if (stable && !aborted) {
        argRel.clear();
        rs = call(F, ea, em, st.trace);
      }
      imprecise--;
      recursions.erase(F);
      if (stable) {
        for (auto &q : rs) { State ns; ns.env = st.env; ns.rel = st.rel; ns.mem = std::move(q.mem); ns.trace = st.trace; finish(std::move(ns), q.ret); }
        continue;
      }
    }
    // by-value struct arguments: callee gets its own copy
    {
      unsigned k = 0;
      for (auto &A : F->args()) {
        if (A.hasByValAttr() && k < av.size()) {
          uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
          int id = newObj(st.mem, O_STACK, D_UNINIT, sz, "byval");
          memcpyOp(st.mem, ptrTo(id), av[k], cint(64, sz), &CB, false);
          av[k] = ptrTo(id);
        }
        k++;
      }
    }
    ctxStack.push_back(std::to_string((uintptr_t) &CB));
    std::vector<Val> env = std::move(st.env);
    RelMap rel;
    if (relational) {
      rel = std::move(st.rel);
      if (fi.num.count(&CB)) { State t; t.rel = std::move(rel); relDrop(t, fi.num[&CB]); rel = std::move(t.rel); }
      argRel.clear();
      if (!rel.empty())
        for (unsigned p = 0; p < CB.arg_size(); p++)
          for (unsigned q = 0; q < CB.arg_size(); q++) {
            if (p == q) continue;
            auto np = fi.num.find(CB.getArgOperand(p)), nq = fi.num.find(CB.getArgOperand(q));
            if (np == fi.num.end() || nq == fi.num.end()) continue;
            auto it = rel.find({np->second, nq->second});
            if (it != rel.end()) argRel[{p, q}] = it->second;
          }
    }
    auto rs = call(F, av, std::move(st.mem), std::move(st.trace));
    ctxStack.pop_back();
    for (auto &r : rs) {
      State ns;
      ns.env = env;
      ns.rel = rel;
      ns.mem = std::move(r.mem);
      ns.trace = std::move(r.trace);
      finish(std::move(ns), r.ret);
    }
  }
  for (auto &pn : pseudo) {
    State st = total == 1 ? std::move(s) : s;
    std::vector<Val> av = a;
    if (onCall) onCall(*this, CB, nullptr, av, st);
    auto md = models.find(pn);
    Val r;
    if (md != models.end()) {
      std::vector<State> extra;
      bool alive = md->second(*this, CB, av, st, r, extra);
      for (auto &e : extra) { any = true; results.push_back(std::move(e)); }
      if (alive) finish(std::move(st), r);
    } else {
      std::vector<State> extra;
      bool alive = libcall(CB, pn, av, st, r, extra);
      for (auto &e : extra) { any = true; results.push_back(std::move(e)); }
      if (alive) finish(std::move(st), r);
    }
  }
  if (unk) {
    State st = total == 1 ? std::move(s) : s;
    unmodelled.insert("indirect call in " + CB.getFunction()->getName().str());
    for (auto &x : a) havocReach(st.mem, x, T_EXT);
    if (onCall) onCall(*this, CB, nullptr, a, st);
    finish(std::move(st), top(T, T_EXT));
  }
  if (!any) return false;
  if (partition) {
    // keep separate
    s = std::move(results[0]);
    for (size_t i = 1; i < results.size(); i++) more.push_back(std::move(results[i]));
    return true;
  }
  s = std::move(results[0]);
  for (size_t i = 1; i < results.size(); i++) {
    State j;
    j.mem = joinM(s.mem, results[i].mem);
    j.env.resize(s.env.size());
    if (relational) j.rel = s.rel;
    for (size_t k = 0; k < s.env.size(); k++) j.env[k] = joinV(s.env[k], results[i].env[k]);
    size_t q = 0;
    while (q < s.trace.size() && q < results[i].trace.size() && s.trace[q] == results[i].trace[q]) q++;
    j.trace.assign(s.trace.begin(), s.trace.begin() + q);
    s = std::move(j);
  }
  return true;
}

// Models of the C library.  Returns false when the path ends (exit, abort).
bool Engine::libcall(CallBase &CB, StringRef nm, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) {
  Type *T = CB.getType();
  uint32_t taint = 0;
  bool undef = false;
  for (auto &x : a) { taint |= x.taint & ~(T_UNINIT | T_ADDR); undef |= x.undef; }
  auto is = [&](const char *x) { return nm == x; };
  if (is("exit") || is("abort") || is("_exit") || is("__assert_fail")) return false;
  if (is("malloc") || is("calloc") || is("realloc") || is("aligned_alloc")) {
    Val sz = is("malloc") ? a[0] : is("calloc") ? binI(Instruction::Mul, a[0], a[1], nullptr) : a[1];
    int id = allocSite(s.mem, &CB, is("calloc") ? D_ZERO : D_UNINIT, sz, "heap object from " + nm.str() + " at " + [&] { std::string f; unsigned l; return locOf(&CB, f, l); }());
    if (sz.isConst()) addThr(*sz.cr.getSingleElement());
    r = ptrTo(id);
    std::shared_ptr<State> failed;
    if (mallocMayFail && partition) { failed = std::make_shared<State>(s); failed->mem.o.erase(id); }
    if (is("realloc") && a[0].k == K_PTR && a[0].p->t.size() == 1 && !a[0].p->unk && a[0].p->t[0].obj != id) {
      const Obj *o = get(s.mem, a[0].p->t[0].obj);
      if (o && !o->freed && sz.k == K_INT) {
        ConstantRange n = sz.cr.zextOrTrunc(64).umin(o->size);
        Val len = topInt(64); len.cr = n; len = normI(len);
        if (o->kind != O_HEAP) alarm(&CB, "badfree", "realloc of '" + o->name + "', which isn't a heap object");
        if (!len.isConst() || len.cval() != 0) memcpyOp(s.mem, r, a[0], len, &CB, true);
        if (partition || !mallocMayFail) release(s.mem, a[0], &CB);
      }
    } else if (is("realloc") && a[0].k == K_PTR && (a[0].p->unk || a[0].p->t.size() > 1)) {
      havocRange(s.mem, r, sz, topInt(8, taint));
    }
    if (mallocMayFail) {
      if (partition) {
        State n = *failed;
        more.push_back(n);
        FnInfo &fi = info(CB.getFunction());
        more.back().env[fi.num[&CB]] = nullPtr();
        more.back().trace.push_back(nm.str() + " fails");
      } else { auto p = std::make_shared<PtrSet>(*r.p); p->null = true; r.p = p; }
    }
    return true;
  }
  if (is("free")) { release(s.mem, a[0], &CB); return true; }
  if (is("memcpy") || is("memmove") || is("__memcpy_chk")) { memcpyOp(s.mem, a[0], a[1], a[2], &CB, true); r = a[0]; return true; }
  if (is("memset")) { Val c = a[1]; if (c.k == K_INT) c = castInt(c, 8, false); memsetOp(s.mem, a[0], c, a[2], &CB); r = a[0]; return true; }
  if (is("strcmp") || is("memcmp") || is("strncmp")) {
    auto nonZero32 = [&] { Val v = topInt(32); v.cr = ConstantRange(APInt(32, 1), APInt(32, 0)); return normI(v); };
    bool o1, o2;
    std::string x = cstr(s.mem, a[0], o1), y = cstr(s.mem, a[1], o2);
    if (is("strcmp") || is("strncmp"))
      for (int k = 0; k < 2; k++) checkAccess(s.mem, a[k], cint(64, 1), false, &CB, nm.str().c_str());
    if (o1 && o2 && is("strcmp")) { int c = x.compare(y); r = cint(32, c < 0 ? -1 : c > 0 ? 1 : 0); return true; }
    r = topInt(32, taint);
    if (is("strcmp") && a[0].k == K_PTR && a[1].k == K_PTR && !a[0].p->unk && !a[1].p->unk && a[0].p->t.size() == 1 && a[1].p->t.size() == 1 && a[0].p->t[0].off.isSingleElement() && a[1].p->t[0].off.isSingleElement()) {
      // the beginnings may decide
      Type *I8 = Type::getInt8Ty(M.getContext());
      auto at = [&](const Val &p, int64_t i) { return loadAt(s.mem, p.p->t[0].obj, p.p->t[0].off.getSingleElement()->getSExtValue() + i, I8); };
      const Obj *oa = get(s.mem, a[0].p->t[0].obj), *ob = get(s.mem, a[1].p->t[0].obj);
      if (oa && ob)
        for (int64_t i = 0; i < 256; i++) {
          Val c = at(a[0], i), d = at(a[1], i);
          if (c.k != K_INT || d.k != K_INT || c.undef || d.undef) break;
          if (c.cr.intersectWith(d.cr).isEmptySet()) { r = nonZero32(); r.taint = taint; return true; }
          if (!c.isConst() || !d.isConst() || !c.cval()) break;
        }
    }
    if (partition && is("strcmp") && (o1 || o2)) {
      // earlier comparisons of the same immutable string decide this one
      std::string lit = o1 ? x : y;
      const Val &us = o1 ? a[1] : a[0];
      std::string sid; // which string; not tracked if that isn't known
      if (us.k == K_PTR && !us.p->unk && us.p->t.size() == 1 && us.p->t[0].off.isSingleElement()) sid = "'@" + std::to_string(us.p->t[0].obj) + "+" + std::to_string(us.p->t[0].off.getSingleElement()->getSExtValue());
      for (auto &d : s.trace) {
        if (sid.empty() || d.size() < 4 || d[1] != '=' || d[2] != '\'') continue;
        size_t q = d.rfind("'@");
        if (q == std::string::npos || d.substr(q) != sid) continue;
        std::string l = d.substr(3, q - 3);
        if (d[0] == '=') { r = l == lit ? cint(32, 0) : nonZero32(); return true; }
        if (d[0] == '!' && l == lit) { r = nonZero32(); return true; }
      }
      // fork: equal / different
      State e = s;
      FnInfo &fi = info(CB.getFunction());
      e.env[fi.num[&CB]] = cint(32, 0);
      e.trace.push_back("=='" + lit + (sid.empty() ? "'@" : sid));
      more.push_back(std::move(e));
      s.trace.push_back("!='" + lit + (sid.empty() ? "'@" : sid));
      r = nonZero32();
    }
    return true;
  }
  // bounds on the length of a string
  auto strLen = [&](const Val &p, uint64_t &lo, uint64_t &hi) {
    lo = 0; hi = 1ull << 62;
    if (p.k != K_PTR || p.p->unk || p.p->t.empty()) return;
    bool first = true;
    for (auto &t : p.p->t) {
      const Obj *o = get(s.mem, t.obj);
      uint64_t l = 0, h = 1ull << 62;
      if (o) {
        APInt m = o->size.getUnsignedMax(), of = t.off.getSignedMin();
        if (!m.isZero() && m.getActiveBits() < 62 && !of.isNegative()) h = m.ugt(of) ? (m - of).getZExtValue() - 1 : 0;
        if (t.off.isSingleElement()) {
          int64_t off = of.getSExtValue();
          for (l = 0; l < h && l < 4096; l++) {
            auto it = o->cells.find(off + (int64_t) l);
            if (it == o->cells.end() || it->second.size != 1 || it->second.v.k != K_INT) break;
            if (it->second.v.cr.contains(APInt(it->second.v.width(), 0))) { if (it->second.v.isConst()) h = l; break; }
          }
        }
      }
      if (first) { lo = l; hi = h; first = false; } else { lo = std::min(lo, l); hi = std::max(hi, h); }
    }
  };
  if (is("strlen") || is("strnlen")) {
    checkAccess(s.mem, a[0], cint(64, 1), false, &CB, "strlen");
    bool ok;
    std::string x = cstr(s.mem, a[0], ok);
    if (ok) r = cint(64, x.size());
    else {
      uint64_t lo, hi;
      strLen(a[0], lo, hi);
      r = range(64, lo, hi);
    }
    if (is("strnlen")) { if (ok && a[1].isConst()) r = cint(64, std::min<uint64_t>(x.size(), a[1].cval())); else { uint64_t m = a[1].cr.getUnsignedMax().getLimitedValue(); r = range(64, 0, std::min<uint64_t>(m, r.cr.getUnsignedMax().getZExtValue())); } }
    r.taint = taint;
    return true;
  }
  if (is("strncpy") || is("strcpy")) {
    bool ok;
    std::string x = cstr(s.mem, a[1], ok);
    checkAccess(s.mem, a[1], cint(64, 1), false, &CB, nm.str().c_str());
    Val n = is("strncpy") ? a[2] : ok ? cint(64, x.size() + 1) : topInt(64);
    if (!ok && is("strcpy")) { uint64_t lo, hi; strLen(a[1], lo, hi); n = range(64, lo + 1, hi + 1); }
    checkAccess(s.mem, a[0], n, true, &CB, nm.str().c_str());
    if (ok && n.isConst() && n.cval() < 4096 && a[0].k == K_PTR && a[0].p->t.size() == 1 && a[0].p->t[0].off.isSingleElement() && !a[0].p->unk) {
      Type *I8 = Type::getInt8Ty(M.getContext());
      int64_t off = a[0].p->t[0].off.getSingleElement()->getSExtValue();
      logBulk(a[0]);
      for (uint64_t i = 0; i < n.cval(); i++) { Val c = cint(8, i < x.size() ? (uint8_t) x[i] : 0); c.taint = taint; storeAt(s.mem, a[0].p->t[0].obj, off + (int64_t) i, c, I8); }
    } else havocRange(s.mem, a[0], n, topInt(8, taint));
    r = a[0];
    return true;
  }
  if (is("strtok")) {
    // the tokens are modelled as separate strings; the remaining text is kept in a hidden variable
    Type *P = T;
    int g = pseudoState(s.mem, "strtok", 16);
    if (a[0].k == K_PTR && a[0].p->null && a[0].p->t.empty() && !a[0].p->unk) {
      Val rest = loadAt(s.mem, g, 0, P);
      a[0] = rest;
      if (rest.k == K_PTR && rest.p->null && rest.p->t.empty()) { r = nullPtr(); return true; }
    }
    bool ok, okd;
    std::string x = cstr(s.mem, a[0], ok), dl = cstr(s.mem, a[1], okd);
    if (ok && okd) {
      size_t b = x.find_first_not_of(dl);
      if (b == std::string::npos) { r = nullPtr(); storeAt(s.mem, g, 0, nullPtr(), P); return true; }
      size_t e = x.find_first_of(dl, b);
      int64_t off = a[0].p->t[0].off.getSingleElement()->getSExtValue();
      r = ptrTo(a[0].p->t[0].obj, off + (int64_t) b);
      if (e == std::string::npos) storeAt(s.mem, g, 0, ptrTo(a[0].p->t[0].obj, off + (int64_t) x.size()), P);
      else { storeAt(s.mem, a[0].p->t[0].obj, off + (int64_t) e, cint(8, 0), Type::getInt8Ty(M.getContext())); storeAt(s.mem, g, 0, ptrTo(a[0].p->t[0].obj, off + (int64_t) e + 1), P); }
      return true;
    }
    uint64_t lo, hi;
    strLen(a[0], lo, hi);
    if (hi > (1 << 20)) hi = 1 << 20;
    int id = allocSite(s.mem, &CB, D_TOP, range(64, 2, std::max<uint64_t>(hi, 1) + 1), "string");
    if (Obj *o = mut(s.mem, id)) { o->kind = O_EXT; o->deftaint = taint | T_EXT; }
    storeAt(s.mem, g, 0, a[0], P);
    r = ptrTo(id);
    { auto p = std::make_shared<PtrSet>(*r.p); p->null = true; r.p = p; }
    return true;
  }
  static const std::map<std::string, int (*)(int)> ctypes = {{"isspace", isspace}, {"isdigit", isdigit}, {"isalpha", isalpha}, {"isalnum", isalnum}, {"isupper", isupper}, {"islower", islower}, {"isxdigit", isxdigit}, {"isprint", isprint}, {"ispunct", ispunct}, {"toupper", toupper}, {"tolower", tolower}};
  if (auto it = ctypes.find(nm.str()); it != ctypes.end()) {
    obligation(&CB, "ctype");
    if (a[0].k == K_INT) {
      APInt lo = a[0].cr.getSignedMin(), hi = a[0].cr.getSignedMax();
      if (lo.slt(-128) || hi.sgt(255)) alarm(&CB, "ctype", "argument of " + nm.str() + " out of range");
      if (a[0].isConst()) { int c = it->second((int) a[0].cr.getSingleElement()->getSExtValue()); r = cint(32, nm.starts_with("to") ? c : c != 0); r.taint = a[0].taint; return true; }
    }
    r = nm.starts_with("to") ? a[0] : topInt(32, taint);
    if (nm.starts_with("to")) { r = topInt(32, taint); }
    return true;
  }
  if (is("atoi") || is("atol") || is("strtol") || is("strtoul") || is("strtoull") || is("strtoll") || is("atof") || is("strtod")) {
    checkAccess(s.mem, a[0], cint(64, 1), false, &CB, nm.str().c_str());
    bool ok;
    std::string x = cstr(s.mem, a[0], ok);
    if (T->isFloatingPointTy()) r = ok ? fconst(strtod(x.c_str(), nullptr)) : top(T, taint);
    else if (ok) { int base = nm.starts_with("ato") ? 10 : a.size() > 2 && a[2].isConst() ? (int) a[2].cval() : 10; r = cint(T->getIntegerBitWidth(), nm.starts_with("strtou") ? strtoull(x.c_str(), nullptr, base) : (uint64_t) (is("atoi") ? atoi(x.c_str()) : strtoll(x.c_str(), nullptr, base))); }
    else r = topInt(T->getIntegerBitWidth(), taint);
    if (nm.starts_with("strto")) if (a[1].k == K_PTR && !(a[1].p->null && a[1].p->t.empty())) store(s.mem, a[1], a[0], PointerType::get(M.getContext(), 0), &CB);
    r.taint |= taint;
    return true;
  }
  if (is("__isoc99_sscanf") || is("sscanf") || is("__isoc99_fscanf") || is("fscanf")) {
    bool ok;
    std::string f = cstr(s.mem, a[1], ok);
    unsigned k = 2, nconv = 0;
    for (size_t i = 0; ok && i < f.size(); i++) {
      if (f[i] != '%') continue;
      i++;
      if (i < f.size() && f[i] == '%') continue;
      bool skip = false; int l = 0; long width = -1;
      if (i < f.size() && f[i] == '*') { skip = true; i++; }
      if (i < f.size() && isdigit((unsigned char) f[i])) { width = 0; while (i < f.size() && isdigit((unsigned char) f[i])) width = width * 10 + (f[i++] - '0'); }
      while (i < f.size() && strchr("lhjzL", f[i])) { if (f[i] == 'l' || f[i] == 'j' || f[i] == 'z') l++; if (f[i] == 'h') l--; i++; }
      if (skip || i >= f.size()) continue;
      nconv++;
      if (k >= a.size()) { alarm(&CB, "format", "missing argument of " + nm.str()); break; }
      obligation(&CB, "scanf");
      LLVMContext &X = M.getContext();
      if (strchr("diuxXo", f[i])) store(s.mem, a[k], topInt(l >= 1 ? 64 : l == -1 ? 16 : l == -2 ? 8 : 32, taint | T_EXT), Type::getIntNTy(X, l >= 1 ? 64 : l == -1 ? 16 : l == -2 ? 8 : 32), &CB);
      else if (strchr("fgeE", f[i])) store(s.mem, a[k], top(l ? Type::getDoubleTy(X) : Type::getFloatTy(X), taint | T_EXT), l ? Type::getDoubleTy(X) : Type::getFloatTy(X), &CB);
      else {
        Val n = width >= 0 ? cint(64, width + (f[i] != 'c')) : f[i] == 'c' ? cint(64, 1) : range(64, 1, 1ull << 40);
        checkAccess(s.mem, a[k], n, true, &CB, nm.str().c_str());
        havocRange(s.mem, a[k], n, topInt(8, taint | T_EXT));
      }
      k++;
    }
    // without a successful conversion the object keeps its value
    r = range(32, 0, nconv);
    r.cr = ConstantRange::getNonEmpty(APInt(32, -1, true), APInt(32, nconv + 1));
    r = normI(r);
    r.taint = taint | T_EXT;
    if (!ok) for (size_t q = 2; q < a.size(); q++) havocReach(s.mem, a[q], taint | T_EXT);
    return true;
  }
  if (is("sysconf")) {
    uint64_t m = 1ull << 40;
    if (a[0].isConst() && a[0].cval() == 30) m = 1 << 20;
    if (a[0].isConst() && (a[0].cval() == 83 || a[0].cval() == 84)) m = 1 << 16;
    r = topInt(64, T_RAM);
    r.cr = ConstantRange::getNonEmpty(APInt(64, -1, true), APInt(64, m));
    r = normI(r);
    r.taint = T_RAM | T_HW;
    return true;
  }
  if (is("printf") || is("fprintf") || is("puts") || is("putchar") || is("fputs") || is("fputc") || is("fflush") || is("vprintf") || is("vfprintf") || is("putc") || is("fwrite") || is("perror") || is("remove") || is("setvbuf") || is("fclose") || is("ferror") || is("feof") || is("_setmode")) {
    if (checkUninit && !is("fwrite"))
      for (size_t k = 0; k < a.size(); k++) if (a[k].undef) { alarm(&CB, "uninit-print", "possibly uninitialised value passed to " + nm.str()); break; }
    if (is("fclose") && !a.empty()) {}
    if (!T->isVoidTy()) r = top(T);
    return true;
  }
  if (is("snprintf") || is("sprintf") || is("vsnprintf")) {
    if (is("snprintf") || is("vsnprintf")) {
      checkAccess(s.mem, a[0], a[1], true, &CB, "snprintf");
      havocRange(s.mem, a[0], a[1], topInt(8, taint));
    } else { alarm(&CB, "sprintf", "unbounded sprintf"); havocReach(s.mem, a[0], taint); }
    r = topInt(32);
    return true;
  }
  if (is("fgets")) {
    Val n = castInt(a[1], 64, true);
    checkAccess(s.mem, a[0], n, true, &CB, "fgets");
    havocRange(s.mem, a[0], n, topInt(8, T_EXT));
    r = a[0];
    if (r.k == K_PTR) { auto p = std::make_shared<PtrSet>(*r.p); p->null = true; r.p = p; }
    return true;
  }
  if (is("fread")) {
    Val n = binI(Instruction::Mul, a[1], a[2], nullptr);
    checkAccess(s.mem, a[0], n, true, &CB, "fread");
    // content beyond the returned count keeps its previous state
    havocRange(s.mem, a[0], n, topInt(8, T_EXT));
    r = topInt(64, T_EXT);
    if (a[2].k == K_INT) { r.cr = ConstantRange::getNonEmpty(APInt(64, 0), a[2].cr.getUnsignedMax() + 1); r = normI(r); }
    return true;
  }
  static const std::set<std::string> math0 = {"exp", "log", "log2", "log10", "pow", "sin", "cos", "tan", "atan", "atan2", "sqrt", "fabs", "floor", "ceil", "fmod", "lgamma", "tgamma", "expm1", "log1p", "erf", "erfc", "cbrt", "ldexp", "sinh", "cosh", "tanh", "asin", "acos", "round", "trunc", "fmin", "fmax", "nan", "acosh", "hypot", "sqrtl", "logl", "expl", "sinf", "cosf", "expf", "logf", "sqrtf", "powf"};
  if (math0.count(nm.str())) {
    r = top(T, taint);
    r.undef = undef;
    if (a.size() >= 1 && a[0].k == K_FLT && !a[0].nan && a[0].flo <= a[0].fhi) {
      double l = a[0].flo, h = a[0].fhi;
      if (is("exp")) r = frange(std::exp(l), std::exp(h), false);
      else if (is("log") && l > 0) r = frange(std::log(l), std::log(h), false);
      else if (is("log2") && l > 0) r = frange(std::log2(l), std::log2(h), false);
      else if (is("sqrt") && l >= 0) r = frange(std::sqrt(l), std::sqrt(h), false);
      else if (is("fabs")) r = frange((l <= 0 && h >= 0) ? 0 : std::min(std::fabs(l), std::fabs(h)), std::max(std::fabs(l), std::fabs(h)), false);
      else if (is("floor") || is("ceil") || is("round") || is("trunc")) r = frange(std::floor(l), std::ceil(h), false);
      else if (is("pow") && a.size() > 1 && a[1].k == K_FLT && l == h && a[1].flo == a[1].fhi && !a[1].nan) r = fconst(std::pow(l, a[1].flo));
      else if (is("pow") && a.size() > 1 && a[1].k == K_FLT && l > 0 && !a[1].nan) { double c[4] = {std::pow(l, a[1].flo), std::pow(l, a[1].fhi), std::pow(h, a[1].flo), std::pow(h, a[1].fhi)}; r = frange(*std::min_element(c, c + 4), *std::max_element(c, c + 4), false); }
      r.taint = taint;
      r.undef = undef;
    }
    return true;
  }
  if (is("strchr") || is("strrchr") || is("strstr")) {
    r = a[0];
    bool ok, ok2 = false;
    std::string x = cstr(s.mem, a[0], ok), y = is("strstr") ? cstr(s.mem, a[1], ok2) : "";
    if (!is("strstr") && a[1].isConst()) { ok2 = true; y = std::string(1, (char) a[1].cval()); }
    checkAccess(s.mem, a[0], cint(64, 1), false, &CB, nm.str().c_str());
    if (ok2 && a[0].k == K_PTR && a[0].p->t.size() == 1 && !a[0].p->unk && a[0].p->t[0].off.isSingleElement() && y.size() == 1 && y[0]) {
      // the known beginning of the string may decide
      const Obj *o = get(s.mem, a[0].p->t[0].obj);
      int64_t off = a[0].p->t[0].off.getSingleElement()->getSExtValue();
      if (!ok && o && !is("strrchr"))
        for (int64_t i = off;; i++) {
          auto it = o->cells.find(i);
          if (it == o->cells.end() || it->second.size != 1 || !it->second.v.isConst() || !it->second.v.cval()) break;
          if ((char) it->second.v.cval() == y[0]) { r = ptrTo(a[0].p->t[0].obj, i); return true; }
        }
    }
    if (ok && ok2) {
      size_t q = is("strrchr") ? (y[0] ? x.rfind(y[0]) : x.size()) : is("strchr") ? (y[0] ? x.find(y[0]) : x.size()) : x.find(y);
      if (q == std::string::npos) { r = nullPtr(); return true; }
      r = ptrTo(a[0].p->t[0].obj, a[0].p->t[0].off.getSingleElement()->getSExtValue() + (int64_t) q);
      return true;
    }
    if (partition && is("strchr") && ok2 && y.size() == 1 && y[0] && a[0].k == K_PTR && !a[0].p->unk && !a[0].p->null && a[0].p->t.size() == 1 && a[0].p->t[0].off.isSingleElement()) {
      // one path per position
      int obj = a[0].p->t[0].obj;
      const Obj *o = get(s.mem, obj);
      int64_t off = a[0].p->t[0].off.getSingleElement()->getSExtValue(), end = -1;
      std::vector<int64_t> at;
      for (int64_t i = off; o && i < off + 256; i++) {
        auto it = o->cells.find(i);
        if (it == o->cells.end() || it->second.size != 1 || it->second.v.k != K_INT || it->second.v.undef) break;
        const Val &v = it->second.v;
        if (v.isConst() && !v.cval()) { end = i; break; }
        if (v.cr.contains(APInt(8, 0))) break;
        if (!v.cr.contains(APInt(8, (uint8_t) y[0]))) continue;
        at.push_back(i);
        if (v.isConst()) { end = i; break; }
      }
      if (end >= 0) {
        FnInfo &fi = info(CB.getFunction());
        Type *I8 = Type::getInt8Ty(M.getContext());
        for (auto i : at) {
          State n = s;
          Val c = cint(8, (uint8_t) y[0]);
          c.taint = loadAt(s.mem, obj, i, I8).taint;
          storeAt(n.mem, obj, i, c, I8);
          n.env[fi.num[&CB]] = ptrTo(obj, i);
          n.trace.push_back("chr" + std::to_string(i - off));
          more.push_back(std::move(n));
        }
        s.trace.push_back("nochr");
        r = nullPtr();
        if (!at.empty() && at.back() == end) { // it is certainly there
          s = std::move(more.back());
          more.pop_back();
          r = ptrTo(obj, end);
        }
        return true;
      }
    }
    if (r.k == K_PTR) {
      auto p = std::make_shared<PtrSet>(*r.p);
      uint64_t sl, sh;
      strLen(a[0], sl, sh);
      p->null = true;
      for (auto &t : p->t) {
        const Obj *o = get(s.mem, t.obj);
        APInt hi = o ? o->size.getUnsignedMax() : APInt(64, 1);
        if (t.off.isSingleElement() && p->t.size() == 1 && (t.off.getSignedMin() + sh + 1).slt(hi)) hi = t.off.getSignedMin() + sh + 1;
        if (hi.isZero()) hi = 1;
        t.off = ConstantRange::getNonEmpty(t.off.getSignedMin(), hi);
        if (t.off.isEmptySet()) t.off = ConstantRange(64, true);
        t.stride = 1;
      }
      r.p = p;
    }
    return true;
  }
  if ((is("read") || is("getrandom") || is("recv")) && a.size() > 2) {
    const Val &b = is("getrandom") ? a[0] : a[1], &n = is("getrandom") ? a[1] : a[2];
    checkAccess(s.mem, b, n, true, &CB, nm.str().c_str());
    havocRange(s.mem, b, n, topInt(8, T_HW));
    r = topInt(T->getIntegerBitWidth(), T_HW);
    if (n.k == K_INT) { uint64_t hi = n.cr.getUnsignedMax().getLimitedValue(1ull << 40); r.cr = ConstantRange::getNonEmpty(APInt::getAllOnes(r.width()), APInt(r.width(), hi + 1)); r = normI(r); }
    return true;
  }
  if (is("open") || is("close")) {
    r = topInt(32, T_HW);
    r.cr = ConstantRange(APInt(32, -1, true), APInt(32, is("open") ? 1 << 20 : 1));
    r = normI(r);
    return true;
  }
  if ((is("clock") || is("time")) && T->isIntegerTy()) { // a date before the year 30000, a run shorter than centuries
    r = range(T->getIntegerBitWidth(), 0, is("time") ? 1ull << 40 : 1ull << 60);
    r.taint = T_HW;
    for (auto &x : a) if (x.k == K_PTR && !(x.p->t.empty() && !x.p->unk)) havocReach(s.mem, x, T_HW);
    return true;
  }
  if (is("clock") || is("time") || is("getpid") || is("rand") || is("clock_gettime") || is("gettimeofday")) {
    r = top(T, T_HW);
    for (auto &x : a) if (x.k == K_PTR) havocReach(s.mem, x, T_HW);
    return true;
  }
  static const std::set<std::string> opaque = {"fopen", "__ctype_b_loc", "abs", "labs", "getenv", "fseek", "ftell", "freopen", "fileno", "isatty", "dlopen", "dlsym", "dlclose", "dlerror", "sysinfo", "getc", "fgetc", "ungetc"};
  if (!opaque.count(nm.str())) unmodelled.insert("external " + nm.str());
  if (is("fopen") || is("getenv")) { r = unkPtr(); return true; }
  if (is("__ctype_b_loc")) { r = unkPtr(); auto p = std::make_shared<PtrSet>(); p->unk = true; r.p = p; return true; }
  for (auto &x : a) if (x.k == K_PTR) havocReach(s.mem, x, T_EXT);
  if (!T->isVoidTy()) r = top(T, taint | T_EXT);
  if (is("atoi")) r.taint = taint | T_EXT;
  if (CB.doesNotReturn()) return false;
  return true;
}
} // namespace ai
