// Value and memory domains of the abstract interpreter.
#include "ai.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <cmath>
#include <numeric>
using namespace llvm;
namespace ai {

static uint64_t gcd64(uint64_t a, uint64_t b) { return std::gcd(a, b); }

// ---------------------------------------------------------------- values
Val Engine::normI(Val v) {
  if (v.k != K_INT) return v;
  if (v.cr.isSingleElement()) {
    v.kb = KnownBits::makeConstant(*v.cr.getSingleElement());
    return v;
  }
  bool unkKb = v.kb.isUnknown();
  if (!unkKb) {
    if (v.kb.hasConflict()) { v.kb = KnownBits(v.width()); return v; }
    ConstantRange c = ConstantRange::fromKnownBits(v.kb, false);
    v.cr = v.cr.intersectWith(c, ConstantRange::Smallest);
    if (v.cr.isEmptySet()) return v;
    // congruence given by known low bits: round the bounds inwards
    unsigned low = (v.kb.Zero | v.kb.One).countTrailingOnes();
    if (low > 0 && low < v.width() && !v.cr.isFullSet()) {
      APInt m = APInt::getLowBitsSet(v.width(), low), c0 = v.kb.One & m;
      APInt lo = v.cr.getLower(), hi = v.cr.getUpper() - 1;
      APInt dlo = (c0 - lo) & m, dhi = (hi - c0) & m;
      if (dlo != 0 || dhi != 0) {
        APInt sz = hi - lo; // number of values - 1
        if (!(dlo.ugt(sz) || dhi.ugt(sz - dlo))) v.cr = ConstantRange::getNonEmpty(lo + dlo, hi - dhi + 1);
      }
    }
  }
  if (!v.cr.isFullSet()) {
    KnownBits k2 = v.cr.toKnownBits();
    v.kb.Zero |= k2.Zero;
    v.kb.One |= k2.One;
    if (v.kb.hasConflict()) v.kb = KnownBits(v.width());
  }
  if (v.kb.isConstant() && !v.cr.isSingleElement()) v.cr = ConstantRange(v.kb.getConstant());
  return v;
}
Val Engine::topInt(unsigned w, uint32_t taint) {
  Val v;
  v.k = K_INT;
  v.kb = KnownBits(w);
  v.cr = ConstantRange(w, true);
  v.taint = taint;
  return v;
}
Val Engine::cint(unsigned w, uint64_t c) {
  Val v;
  v.k = K_INT;
  APInt a(w, c);
  v.kb = KnownBits::makeConstant(a);
  v.cr = ConstantRange(a);
  return v;
}
Val Engine::range(unsigned w, uint64_t lo, uint64_t hi) {
  Val v = topInt(w);
  v.cr = ConstantRange::getNonEmpty(APInt(w, lo), APInt(w, hi) + 1);
  return normI(v);
}
Val Engine::fconst(double d) { return frange(d, d, std::isnan(d)); }
Val Engine::frange(double lo, double hi, bool nan) {
  Val v;
  v.k = K_FLT;
  v.flo = lo;
  v.fhi = hi;
  v.nan = nan;
  if (std::isnan(lo)) { v.flo = INFINITY; v.fhi = -INFINITY; v.nan = true; }
  return v;
}
Val Engine::nullPtr() {
  Val v;
  v.k = K_PTR;
  auto p = std::make_shared<PtrSet>();
  p->null = true;
  v.p = p;
  return v;
}
Val Engine::unkPtr() {
  Val v;
  v.k = K_PTR;
  auto p = std::make_shared<PtrSet>();
  p->unk = true;
  p->null = true;
  v.p = p;
  return v;
}
Val Engine::ptrTo(int obj, int64_t off) {
  Val v;
  v.k = K_PTR;
  auto p = std::make_shared<PtrSet>();
  p->t.push_back({obj, ConstantRange(APInt(64, off)), 0});
  v.p = p;
  return v;
}
Val Engine::top(Type *T, uint32_t taint) {
  Val v;
  if (auto *VT = dyn_cast<VectorType>(T)) return top(VT->getElementType(), taint);
  if (T->isIntegerTy()) v = topInt(T->getIntegerBitWidth(), taint);
  else if (T->isFloatingPointTy()) v = frange(-INFINITY, INFINITY, true);
  else if (T->isPointerTy()) v = unkPtr();
  else if (auto *ST = dyn_cast<StructType>(T)) {
    auto a = std::make_shared<std::vector<Val>>();
    for (auto *E : ST->elements()) a->push_back(top(E, taint));
    v.k = K_AGG;
    v.agg = a;
  } else if (auto *AT = dyn_cast<ArrayType>(T)) {
    auto a = std::make_shared<std::vector<Val>>();
    for (uint64_t i = 0; i < AT->getNumElements() && i < 4096; i++) a->push_back(top(AT->getElementType(), taint));
    v.k = K_AGG;
    v.agg = a;
  }
  v.taint |= taint;
  return v;
}
Val Engine::undefOf(Type *T) {
  Val v = top(T, T_UNINIT);
  v.undef = true;
  if (v.k == K_AGG) {
    auto a = std::make_shared<std::vector<Val>>(*v.agg);
    for (auto &e : *a) { e.undef = true; }
    v.agg = a;
  }
  return v;
}
static double toD(const APFloat &f) {
  APFloat g = f;
  bool li;
  g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  return g.convertToDouble();
}
Val Engine::constant(const Constant *C, Mem &mem) {
  Type *T = C->getType();
  if (isa<UndefValue>(C)) return undefOf(T);
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    Val v;
    v.k = K_INT;
    v.kb = KnownBits::makeConstant(CI->getValue());
    v.cr = ConstantRange(CI->getValue());
    return v;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) return fconst(toD(CF->getValueAPF()));
  if (isa<ConstantPointerNull>(C)) return nullPtr();
  if (auto *GV = dyn_cast<GlobalObject>(C)) return ptrTo(globalObj(GV, mem));
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constant(GA->getAliasee(), mem);
  if (isa<ConstantAggregateZero>(C)) {
    if (auto *VT = dyn_cast<VectorType>(T)) return constant(Constant::getNullValue(VT->getElementType()), mem);
    auto a = std::make_shared<std::vector<Val>>();
    if (auto *ST = dyn_cast<StructType>(T)) for (auto *E : ST->elements()) a->push_back(constant(Constant::getNullValue(E), mem));
    else if (auto *AT = dyn_cast<ArrayType>(T)) for (uint64_t i = 0; i < AT->getNumElements(); i++) a->push_back(constant(Constant::getNullValue(AT->getElementType()), mem));
    Val v; v.k = K_AGG; v.agg = a; return v;
  }
  if (T->isVectorTy()) {
    Val r;
    unsigned n = cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant *E = C->getAggregateElement(i);
      if (!E) return top(T);
      if (isa<UndefValue>(E)) continue;
      Val e = constant(E, mem);
      r = r.k == K_NONE ? e : joinV(r, e);
    }
    return r.k == K_NONE ? top(T) : r;
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataArray>(C)) {
    auto a = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; Constant *E = C->getAggregateElement(i); i++) a->push_back(constant(E, mem));
    Val v; v.k = K_AGG; v.agg = a; return v;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(CE)->accumulateConstantOffset(DL, off)) {
        Val b = constant(CE->getOperand(0), mem);
        auto p = std::make_shared<PtrSet>(*b.p);
        for (auto &t : p->t) t.off = t.off.add(ConstantRange(off));
        b.p = p;
        return b;
      }
    }
    if (CE->isCast() && T->isPointerTy() && CE->getOperand(0)->getType()->isPointerTy()) return constant(CE->getOperand(0), mem);
  }
  return top(T);
}

static bool sameP(const PtrSet &a, const PtrSet &b) {
  if (a.null != b.null || a.unk != b.unk || a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++)
    if (a.t[i].obj != b.t[i].obj || !(a.t[i].off == b.t[i].off) || a.t[i].stride != b.t[i].stride) return false;
  return true;
}
static PtrTgt joinT(const PtrTgt &a, const PtrTgt &b) {
  PtrTgt r = a;
  if (a.off == b.off && a.stride == b.stride) return r;
  r.off = a.off.unionWith(b.off, ConstantRange::Signed);
  uint64_t d = (a.off.getSignedMin() - b.off.getSignedMin()).abs().getZExtValue();
  uint64_t sa = a.off.isSingleElement() ? 0 : a.stride, sb = b.off.isSingleElement() ? 0 : b.stride;
  r.stride = gcd64(gcd64(sa, sb), d);
  if (r.stride == 0) r.stride = r.off.isSingleElement() ? 0 : 1;
  return r;
}
static std::shared_ptr<const PtrSet> joinP(const PtrSet &a, const PtrSet &b) {
  auto r = std::make_shared<PtrSet>(a);
  r->null |= b.null;
  r->unk |= b.unk;
  for (auto &t : b.t) {
    bool f = false;
    for (auto &q : r->t)
      if (q.obj == t.obj) { q = joinT(q, t); f = true; break; }
    if (!f) r->t.push_back(t);
  }
  std::sort(r->t.begin(), r->t.end(), [](const PtrTgt &x, const PtrTgt &y) { return x.obj < y.obj; });
  return r;
}

Val Engine::joinV(const Val &a, const Val &b) {
  if (a.k == K_NONE) return b;
  if (b.k == K_NONE) return a;
  Val r;
  uint32_t taint = a.taint | b.taint;
  bool undef = a.undef | b.undef;
  if (a.lut != b.lut) {
    Val x = a, y = b;
    x.lut = y.lut = nullptr;
    return joinV(x, y);
  }
  if (a.k == K_INT && b.k == K_INT && a.width() == b.width()) {
    r = a;
    if (!(a.cr == b.cr)) r.cr = a.cr.unionWith(b.cr, ConstantRange::Smallest);
    r.kb = a.kb.intersectWith(b.kb);
    if (a.p && b.p) { r.p = sameP(*a.p, *b.p) ? a.p : joinP(*a.p, *b.p); } else r.p = nullptr;
    if (a.prov != b.prov) {
      if (a.prov && b.prov && *a.prov == *b.prov) r.prov = a.prov; else {
        auto pv = std::make_shared<std::vector<uint16_t>>(a.width(), 0xFFFF);
        if (a.prov && b.prov) for (unsigned i = 0; i < a.width(); i++) if ((*a.prov)[i] == (*b.prov)[i]) (*pv)[i] = (*a.prov)[i];
        r.prov = (a.prov && b.prov) ? pv : nullptr;
      }
    }
  } else if (a.k == K_FLT && b.k == K_FLT) {
    r = a;
    r.flo = std::min(a.flo, b.flo);
    r.fhi = std::max(a.fhi, b.fhi);
    r.nan = a.nan | b.nan;
  } else if (a.k == K_PTR && b.k == K_PTR) {
    r = a;
    if (a.p != b.p && !sameP(*a.p, *b.p)) r.p = joinP(*a.p, *b.p);
  } else if (a.k == K_AGG && b.k == K_AGG && a.agg->size() == b.agg->size()) {
    r = a;
    if (a.agg != b.agg) {
      auto v = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a.agg->size(); i++) v->push_back(joinV((*a.agg)[i], (*b.agg)[i]));
      r.agg = v;
    }
  } else {
    // kind mismatch: keep the kind of a at top
    r = a;
    if (a.k == K_INT) r = topInt(a.width());
    else if (a.k == K_PTR) { r = unkPtr(); }
    else if (a.k == K_FLT) r = frange(-INFINITY, INFINITY, true);
  }
  r.taint = taint;
  r.undef = undef;
  if (a.org.stamp != b.org.stamp || a.org.obj != b.org.obj) r.org = Origin();
  return r;
}
bool Engine::leqV(const Val &a, const Val &b) {
  if (a.k == K_NONE) return true;
  if (a.k != b.k) return false;
  if ((a.taint & ~b.taint) || (a.undef && !b.undef)) return false;
  switch (a.k) {
  case K_INT:
    if (a.width() != b.width()) return false;
    if (!b.cr.contains(a.cr)) return false;
    if (!b.kb.Zero.isSubsetOf(a.kb.Zero) || !b.kb.One.isSubsetOf(a.kb.One)) return false;
    return true;
  case K_FLT:
    return (a.flo > a.fhi || (a.flo >= b.flo && a.fhi <= b.fhi)) && (!a.nan || b.nan);
  case K_PTR: {
    if ((a.p->null && !b.p->null) || (a.p->unk && !b.p->unk)) return false;
    for (auto &t : a.p->t) {
      bool f = false;
      for (auto &q : b.p->t)
        if (q.obj == t.obj && q.off.contains(t.off)) {
          uint64_t d = (t.off.getSignedMin() - q.off.getSignedMin()).abs().getZExtValue();
          uint64_t st = t.off.isSingleElement() ? 0 : t.stride;
          if (q.off.isSingleElement() || (q.stride && d % q.stride == 0 && (st % q.stride == 0))) f = true;
        }
      if (!f) return false;
    }
    return true;
  }
  case K_AGG:
    if (a.agg->size() != b.agg->size()) return false;
    for (size_t i = 0; i < a.agg->size(); i++)
      if (!leqV((*a.agg)[i], (*b.agg)[i])) return false;
    return true;
  default:
    return true;
  }
}
void Engine::addThr(const APInt &v) {
  if (v.getBitWidth() > 64) return;
  if (thr.size() > thrCap) return;
  thr.insert(v.sextOrTrunc(64));
}
Val Engine::widenV(const Val &o, const Val &n) {
  Val r = joinV(o, n);
  if (hardWiden && r.k == K_INT && o.k == K_INT && o.width() == r.width() && r.kb != o.kb) {
    // keep only trailing (alignment) and leading zero bits that did not change
    KnownBits k(r.width());
    unsigned tz = std::min(r.kb.countMinTrailingZeros(), o.kb.countMinTrailingZeros());
    if (tz == o.kb.countMinTrailingZeros()) k.Zero.setLowBits(tz);
    unsigned lz = r.kb.countMinLeadingZeros();
    if (lz == o.kb.countMinLeadingZeros()) k.Zero.setHighBits(lz);
    r.kb = k;
  }
  if (r.k == K_INT && o.k == K_INT && o.width() == r.width() && !(r.cr == o.cr)) {
    unsigned w = r.width();
    if (r.cr.isFullSet()) return r;
    auto inThr = [&](const APInt &x, bool up, bool sgn) -> APInt {
      // smallest threshold >= x (up) or largest <= x (down)
      bool have = false;
      APInt best(w, 0);
      if (hardWiden > 1) return up ? (sgn ? APInt::getSignedMaxValue(w) : APInt::getMaxValue(w)) : (sgn ? APInt::getSignedMinValue(w) : APInt(w, 0));
      auto consider = [&](const APInt &t) {
        bool ok = up ? (sgn ? t.sge(x) : t.uge(x)) : (sgn ? t.sle(x) : t.ule(x));
        if (!ok) return;
        if (!have || (up ? (sgn ? t.slt(best) : t.ult(best)) : (sgn ? t.sgt(best) : t.ugt(best)))) { best = t; have = true; }
      };
      for (auto &t : hardWiden ? thrS : thr) {
        if (w < 64) { if (!t.isSignedIntN(w) && !t.isIntN(w)) continue; consider(t.trunc(w)); }
        else consider(w == 64 ? t : t.sext(w));
      }
      for (unsigned b : {1u, 8u, 16u, 31u, 32u, 48u, 63u, 64u})
        if (b <= w) consider(APInt::getLowBitsSet(w, b));
      consider(APInt(w, 0));
      if (have) return best;
      return up ? (sgn ? APInt::getSignedMaxValue(w) : APInt::getMaxValue(w))
                : (sgn ? APInt::getSignedMinValue(w) : APInt(w, 0));
    };
    if (!r.cr.isWrappedSet() && !o.cr.isWrappedSet() && !(o.cr.isSignWrappedSet() && false)) {
      APInt lo = r.cr.getUnsignedMin(), hi = r.cr.getUnsignedMax();
      if (lo.ult(o.cr.getUnsignedMin())) lo = inThr(lo, false, false);
      if (hi.ugt(o.cr.getUnsignedMax())) hi = inThr(hi, true, false);
      r.cr = ConstantRange::getNonEmpty(lo, hi + 1);
    } else if (!r.cr.isSignWrappedSet() && !o.cr.isSignWrappedSet()) {
      APInt lo = r.cr.getSignedMin(), hi = r.cr.getSignedMax();
      if (lo.slt(o.cr.getSignedMin())) lo = inThr(lo, false, true);
      if (hi.sgt(o.cr.getSignedMax())) hi = inThr(hi, true, true);
      r.cr = ConstantRange::getNonEmpty(lo, hi + 1);
    } else
      r.cr = ConstantRange(w, true);
    r.p = nullptr;
  } else if (r.k == K_FLT && o.k == K_FLT) {
    if (r.flo < o.flo) r.flo = r.flo >= 0 ? 0 : -INFINITY;
    if (r.fhi > o.fhi) r.fhi = r.fhi <= 0 ? 0 : INFINITY;
  } else if (r.k == K_PTR && o.k == K_PTR && r.p != o.p) {
    auto p = std::make_shared<PtrSet>(*r.p);
    for (auto &t : p->t)
      for (auto &q : o.p->t)
        if (q.obj == t.obj && !(q.off == t.off)) {
          APInt lo = t.off.getSignedMin(), hi = t.off.getSignedMax();
          if (hi.sgt(q.off.getSignedMax())) {
            APInt best = APInt::getSignedMaxValue(64).lshr(1);
            auto nm = objNames.find(t.obj);
            (void) nm;
            if (hardWiden < 2) for (auto &th : hardWiden ? thrS : thr) if (th.sge(hi) && th.slt(best)) best = th;
            hi = best;
          }
          if (lo.slt(q.off.getSignedMin())) lo = lo.sge(APInt(64, 0)) ? APInt(64, 0) : APInt::getSignedMinValue(64).ashr(1);
          t.off = ConstantRange::getNonEmpty(lo, hi + 1);
          if (!t.stride) t.stride = 1;
        }
    r.p = p;
  } else if (r.k == K_AGG && o.k == K_AGG && r.agg != o.agg && n.k == K_AGG && n.agg->size() == o.agg->size()) {
    auto v = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < o.agg->size(); i++) v->push_back(widenV((*o.agg)[i], (*n.agg)[i]));
    r.agg = v;
  }
  return r;
}

std::string Engine::show(const Val &v) const {
  std::string s;
  raw_string_ostream os(s);
  switch (v.k) {
  case K_INT:
    if (v.cr.isSingleElement()) os << *v.cr.getSingleElement();
    else if (v.cr.isFullSet()) os << "any" << v.width();
    else os << v.cr;
    break;
  case K_FLT: os << "fp[" << v.flo << "," << v.fhi << "]" << (v.nan ? "|nan" : ""); break;
  case K_PTR:
    os << "ptr{";
    for (auto &t : v.p->t) os << objName(t.obj) << "+" << t.off << " ";
    if (v.p->null) os << "null ";
    if (v.p->unk) os << "unknown ";
    os << "}";
    break;
  case K_AGG: os << "agg"; break;
  default: os << "none";
  }
  if (v.undef) os << "(maybe uninitialised)";
  return s;
}

// ---------------------------------------------------------------- objects
int Engine::newObj(Mem &mem, OKind k, Def d, uint64_t size, std::string name, const Value *site) {
  auto o = std::make_shared<Obj>();
  o->id = nextObj++;
  o->kind = k;
  o->def = d;
  o->size = ConstantRange(APInt(64, size));
  o->name = name;
  o->site = site;
  objNames[o->id] = name;
  mem.o[o->id] = o;
  return o->id;
}
const Obj *Engine::get(const Mem &mem, int id) const {
  auto it = mem.o.find(id);
  return it == mem.o.end() ? nullptr : it->second.get();
}
Obj *Engine::mut(Mem &mem, int id) {
  auto it = mem.o.find(id);
  if (it == mem.o.end()) return nullptr;
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
int Engine::pseudoFunc(const std::string &name, Mem &mem) {
  auto it = pseudoIds.find(name);
  int id;
  if (it == pseudoIds.end()) {
    id = nextObj++;
    pseudoIds[name] = id;
    pseudoObjs[id] = name;
    objNames[id] = "&" + name;
  } else id = it->second;
  if (!mem.o.count(id)) {
    auto o = std::make_shared<Obj>();
    o->id = id; o->kind = O_FUNC; o->def = D_TOP; o->size = ConstantRange(APInt(64, 1)); o->name = name;
    mem.o[id] = o;
  }
  return id;
}
int Engine::globalObj(const GlobalObject *G, Mem &mem) {
  auto it = gobj.find(G);
  int id;
  if (it == gobj.end()) {
    id = nextObj++;
    gobj[G] = id;
    objNames[id] = G->getName().str();
    if (auto *F = dyn_cast<Function>(G)) funcObjs[id] = F;
  } else id = it->second;
  if (!mem.o.count(id)) {
    auto o = std::make_shared<Obj>();
    o->id = id;
    o->name = G->getName().str();
    o->site = G;
    if (isa<Function>(G)) {
      o->kind = O_FUNC;
      o->def = D_TOP;
      o->size = ConstantRange(APInt(64, 1));
    } else {
      auto *GV = cast<GlobalVariable>(G);
      o->kind = O_GLOBAL;
      o->size = ConstantRange(APInt(64, DL.getTypeAllocSize(GV->getValueType())));
      mem.o[id] = o; // break cycles
      if (GV->hasInitializer()) {
        const Constant *C = GV->getInitializer();
        if (C->isNullValue()) o->def = D_ZERO;
        else { o->def = D_ZERO; storeAt(mem, id, 0, constant(C, mem), GV->getValueType()); }
      } else o->def = D_TOP;
      return id;
    }
    mem.o[id] = o;
  }
  return id;
}
int Engine::allocSite(Mem &mem, const Instruction *I, Def d, const Val &size, const std::string &nm) {
  std::string key;
  for (auto &c : ctxStack) key += c + "/";
  raw_string_ostream os(key);
  os << (const void *) I;
  os.flush();
  int n = 0;
  while (true) {
    std::string k2 = key + "#" + std::to_string(n);
    auto it = allocIds.find(k2);
    if (it == allocIds.end()) {
      int id = nextObj++;
      allocIds[k2] = id;
      auto o = std::make_shared<Obj>();
      o->id = id; o->kind = O_HEAP; o->def = d; o->size = size.k == K_INT ? size.cr : ConstantRange(64, true);
      if (size.k == K_INT && size.width() != 64) o->size = o->size.zeroExtend(64);
      o->name = nm; o->site = I;
      objNames[id] = nm;
      mem.o[id] = o;
      return id;
    }
    if (!mem.o.count(it->second)) {
      auto o = std::make_shared<Obj>();
      o->id = it->second; o->kind = O_HEAP; o->def = d; o->size = size.k == K_INT ? size.cr : ConstantRange(64, true);
      o->name = nm; o->site = I;
      mem.o[it->second] = o;
      return it->second;
    }
    if (imprecise || n > 64) { // reuse as summary
      Obj *o = mut(mem, it->second);
      o->summary = true;
      if (o->freed) { o->freed = false; o->maybeFreed = true; }
      if (size.k == K_INT) o->size = o->size.unionWith(size.cr);
      if (d == D_UNINIT) { o->cells.clear(); o->regs.clear(); o->def = D_UNINIT; }
      else if (d == D_ZERO) {
        for (auto &c : o->cells) { Val z = c.second.v.k == K_INT ? cint(c.second.v.width(), 0) : c.second.v.k == K_PTR ? nullPtr() : fconst(0); c.second.v = joinV(c.second.v, z); c.second.stamp = stampCtr++; }
      }
      return it->second;
    }
    n++;
  }
}

// remove [off, off+n) from the cells; partially covered cells keep their rest
static void carve(Engine &E, Obj &o, int64_t off, int64_t n);

static Val extractBytes(Engine &E, const Val &v, unsigned boff, unsigned n) {
  // little endian sub-range of an integer/float/pointer cell
  if (v.k == K_INT && (boff + n) * 8 <= v.width()) {
    Val r = v;
    r.org = Origin();
    r.p = nullptr;
    unsigned w = n * 8;
    if (v.width() != w || boff) {
      r.kb = KnownBits(w);
      r.kb.Zero = v.kb.Zero.extractBits(w, boff * 8);
      r.kb.One = v.kb.One.extractBits(w, boff * 8);
      if (boff) r.cr = v.cr.lshr(ConstantRange(APInt(v.width(), boff * 8))).truncate(w);
      else r.cr = v.cr.truncate(w);
      if (v.prov) r.prov = std::make_shared<std::vector<uint16_t>>(v.prov->begin() + boff * 8, v.prov->begin() + boff * 8 + w);
      r = E.normI(r);
    }
    return r;
  }
  Val r = E.topInt(n * 8, v.taint);
  r.undef = v.undef;
  if (v.k == K_FLT && v.flo == v.fhi && !v.nan && n == 8 && boff == 0) {
    uint64_t b;
    memcpy(&b, &v.flo, 8);
    Val q = E.cint(64, b);
    q.taint = v.taint; q.undef = v.undef;
    return q;
  }
  if (v.k == K_PTR) r.taint |= T_ADDR;
  return r;
}
static void carve(Engine &E, Obj &o, int64_t off, int64_t n) {
  auto it = o.cells.upper_bound(off);
  if (it != o.cells.begin()) {
    --it;
    if (it->first + (int64_t) it->second.size <= off) ++it;
  }
  while (it != o.cells.end() && it->first < off + n) {
    int64_t b = it->first;
    Cell c = it->second;
    it = o.cells.erase(it);
    int64_t e = b + c.size;
    if (b < off) {
      unsigned k = off - b;
      Val x = extractBytes(E, c.v, 0, k);
      o.cells[b] = Cell{k, x, E.stampCtr++};
    }
    if (e > off + n) {
      unsigned k = e - (off + n);
      Val x = extractBytes(E, c.v, off + n - b, k);
      o.cells[off + n] = Cell{k, x, E.stampCtr++};
      break;
    }
  }
}
static unsigned typeSize(const DataLayout &DL, Type *T) { return DL.getTypeStoreSize(T).getFixedValue(); }

static Val coerce(Engine &E, Val v, Type *T) {
  // interpret an integer/other cell value as type T (same byte size)
  if (T->isIntegerTy()) {
    unsigned w = T->getIntegerBitWidth();
    if (v.k == K_INT) {
      if (v.width() == w) return v;
      if (v.width() > w) {
        Val r = v; r.kb = v.kb.trunc(w); r.cr = v.cr.truncate(w);
        if (v.prov) r.prov = std::make_shared<std::vector<uint16_t>>(v.prov->begin(), v.prov->begin() + w);
        return E.normI(r);
      }
      Val r = E.topInt(w, v.taint); r.undef = v.undef; return r;
    }
    Val r = extractBytes(E, v, 0, (w + 7) / 8);
    if (v.k == K_PTR && w == 64) r.p = v.p;
    if (r.width() != w) { r.kb = r.kb.trunc(w); r.cr = r.cr.truncate(w); r = E.normI(r); }
    return r;
  }
  if (T->isPointerTy()) {
    if (v.k == K_PTR) return v;
    Val r;
    if (v.k == K_INT && v.isConst() && v.cr.getSingleElement()->isZero()) r = E.nullPtr();
    else if (v.k == K_INT && v.p) { r = E.unkPtr(); r.p = v.p; }
    else r = E.unkPtr();
    r.undef = v.undef; r.taint = v.taint;
    return r;
  }
  if (T->isFloatingPointTy()) {
    if (v.k == K_FLT) return v;
    Val r = E.frange(-INFINITY, INFINITY, true);
    if (v.k == K_INT && v.isConst() && v.width() <= 64) {
      if (v.cr.getSingleElement()->isZero()) r = E.fconst(0);
      else if (T->isDoubleTy()) { uint64_t b = v.cval(); double d; memcpy(&d, &b, 8); r = E.fconst(d); }
      else if (T->isFloatTy()) { uint32_t b = (uint32_t) v.cval(); float d; memcpy(&d, &b, 4); r = E.fconst(d); }
    } else if (v.k == K_INT && v.width() == 64 && T->isDoubleTy() && !v.cr.isWrappedSet()) { // positive numbers keep their order
      uint64_t lo = v.cr.getUnsignedMin().getZExtValue(), hi = v.cr.getUnsignedMax().getZExtValue();
      if (hi < 0x7FF0000000000000ull) { double dl, dh; memcpy(&dl, &lo, 8); memcpy(&dh, &hi, 8); r = E.frange(dl, dh, false); }
    }
    r.undef = v.undef; r.taint = v.taint;
    return r;
  }
  return v;
}

static Val defVal1(Engine &E, Def d, uint32_t taint, Type *T) {
  Val v;
  if (d == D_UNINIT) v = E.undefOf(T);
  else if (d == D_ZERO) { Mem m; v = E.constant(Constant::getNullValue(T), m); }
  else v = E.top(T);
  v.taint |= taint;
  return v;
}
// calls f(lo, hi, region or null) for the maximal pieces of [lo, hi)
template <class Fn> static void pieces(const Obj &o, int64_t lo, int64_t hi, Fn f) {
  int64_t pos = lo;
  auto it = o.regs.upper_bound(lo);
  if (it != o.regs.begin()) { auto p = std::prev(it); if (p->second.end > lo) it = p; }
  for (; it != o.regs.end() && it->first < hi; ++it) {
    if (it->first > pos) f(pos, it->first, (const Region *) nullptr, (int64_t) 0);
    int64_t b = std::max(it->first, pos), e = std::min(it->second.end, hi);
    if (b < e) f(b, e, &it->second, it->first);
    pos = std::max(pos, e);
  }
  if (pos < hi) f(pos, hi, (const Region *) nullptr, (int64_t) 0);
}
static Val coerce(Engine &E, Val v, Type *T);
static bool sameKind(const Val &v, Type *T) {
  return (v.k == K_INT && T->isIntegerTy() && v.width() == T->getIntegerBitWidth()) || (v.k == K_PTR && T->isPointerTy()) || (v.k == K_FLT && T->isFloatingPointTy());
}
// Default content for any T-sized load that starts at lo + k*st and lies in [lo, hi).
static Val defVal(Engine &E, const Obj &o, Type *T, int64_t lo, int64_t hi, int64_t st) {
  if (o.regs.empty()) return defVal1(E, o.def, o.deftaint, T);
  unsigned n = E.DL.getTypeStoreSize(T).getFixedValue();
  Val r;
  bool cross = false;
  pieces(o, lo, hi, [&](int64_t b, int64_t e, const Region *g, int64_t start) {
    Val v;
    if (!g) v = defVal1(E, o.def, o.deftaint, T);
    else if (g->def == D_TOP && g->elem.k != K_NONE && g->esz == n && sameKind(g->elem, T) && (lo - start) % (int64_t) n == 0 && (st % (int64_t) n == 0)) v = g->elem;
    else { v = defVal1(E, g->def, g->taint, T); }
    if (e < hi && ((e - lo) % st != 0 || st % n != 0)) cross = true;
    r = r.k == K_NONE ? v : E.joinV(r, v);
  });
  if (cross) { Val t = E.top(T); t.taint = r.taint; t.undef = r.undef; r = t; }
  r.org = Origin();
  return r;
}
static void cutRegs(Obj &o, int64_t lo, int64_t hi) {
  auto it = o.regs.upper_bound(lo);
  if (it != o.regs.begin()) --it;
  while (it != o.regs.end() && it->first < hi) {
    int64_t b = it->first, e = it->second.end;
    if (e <= lo) { ++it; continue; }
    Region g = it->second;
    it = o.regs.erase(it);
    if (b < lo) { Region x = g; x.end = lo; o.regs[b] = x; }
    if (e > hi) { Region x = g; x.end = e; if (x.esz && (hi - b) % x.esz) { x.elem = Val(); } o.regs[hi] = x; it = o.regs.upper_bound(hi); }
  }
}
void setRegion(Obj &o, int64_t lo, int64_t hi, Region g) {
  if (lo >= hi) return;
  cutRegs(o, lo, hi);
  g.end = hi;
  o.regs[lo] = g;
}
// weak write of content to the defaults in [lo, hi)
static void weakRegs(Engine &E, Obj &o, int64_t lo, int64_t hi, const Val &v, unsigned n, bool exact) {
  for (auto &r : o.regs) {
    if (r.first >= hi || r.second.end <= lo) continue;
    auto &g = r.second;
    if (exact && g.esz == n && g.elem.k == v.k && (lo - r.first) % (int64_t) n == 0) g.elem = E.joinV(g.elem, v);
    else { g.elem = Val(); if (g.def == D_ZERO) g.def = D_TOP; }
    g.elem.org = Origin();
    if (v.undef) g.def = D_UNINIT;
    g.taint |= v.taint & ~T_UNINIT;
  }
}

Val Engine::loadAt(Mem &mem, int obj, int64_t off, Type *T) {
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    Val r;
    unsigned es = typeSize(DL, VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) {
      Val e = loadAt(mem, obj, off + i * es, VT->getElementType());
      r = r.k == K_NONE ? e : joinV(r, e);
    }
    r.org = Origin();
    return r;
  }
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto a = std::make_shared<std::vector<Val>>();
    auto *SL = DL.getStructLayout(ST);
    bool u = false; uint32_t t = 0;
    for (unsigned i = 0; i < ST->getNumElements(); i++) { a->push_back(loadAt(mem, obj, off + SL->getElementOffset(i), ST->getElementType(i))); u |= a->back().undef; t |= a->back().taint; }
    Val v; v.k = K_AGG; v.agg = a; v.undef = u; v.taint = t; return v;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    auto a = std::make_shared<std::vector<Val>>();
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    bool u = false; uint32_t t = 0;
    for (uint64_t i = 0; i < AT->getNumElements(); i++) { a->push_back(loadAt(mem, obj, off + i * es, AT->getElementType())); u |= a->back().undef; t |= a->back().taint; }
    Val v; v.k = K_AGG; v.agg = a; v.undef = u; v.taint = t; return v;
  }
  const Obj *o = get(mem, obj);
  if (!o) return top(T);
  unsigned n = typeSize(DL, T);
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.size == n) {
    Val v = it->second.v;
    bool same = (v.k == K_INT && T->isIntegerTy() && v.width() == T->getIntegerBitWidth()) || (v.k == K_PTR && T->isPointerTy()) || (v.k == K_FLT && T->isFloatingPointTy());
    if (!same) v = coerce(*this, v, T);
    if (same && !o->summary) v.org = Origin{obj, off, n, it->second.stamp}; else v.org = Origin();
    return v;
  }
  // assemble
  auto jt = o->cells.upper_bound(off);
  if (jt != o->cells.begin()) { --jt; if (jt->first + (int64_t) jt->second.size <= off) ++jt; }
  if (jt == o->cells.end() || jt->first >= off + (int64_t) n) return defVal(*this, *o, T, off, off + n, n);
  // pieces
  unsigned w = n * 8;
  Val acc = cint(w, 0);
  acc.kb = KnownBits(w);
  acc.kb.Zero.setAllBits();
  KnownBits kb(w);
  uint32_t taint = 0;
  bool undef = false;
  std::shared_ptr<std::vector<uint16_t>> prov;
  bool anyprov = false;
  std::vector<uint16_t> pv(w, 0xFFFF);
  int64_t pos = off;
  while (pos < off + (int64_t) n) {
    if (jt != o->cells.end() && jt->first <= pos) {
      int64_t ce = std::min<int64_t>(jt->first + jt->second.size, off + n);
      unsigned k = ce - pos;
      Val x = extractBytes(*this, jt->second.v, pos - jt->first, k);
      kb.Zero.insertBits(x.kb.Zero, (pos - off) * 8);
      kb.One.insertBits(x.kb.One, (pos - off) * 8);
      if (x.prov) { anyprov = true; for (unsigned i = 0; i < k * 8; i++) pv[(pos - off) * 8 + i] = (*x.prov)[i]; }
      taint |= x.taint;
      undef |= x.undef;
      pos = ce;
      ++jt;
    } else {
      int64_t e = (jt == o->cells.end()) ? off + n : std::min<int64_t>(jt->first, off + n);
      unsigned k = e - pos;
      pieces(*o, pos, e, [&](int64_t b2, int64_t e2, const Region *g, int64_t) {
        Def d = g ? g->def : o->def;
        if (d == D_ZERO) { kb.Zero.setBits((b2 - off) * 8, (e2 - off) * 8); }
        else if (d == D_UNINIT) { undef = true; taint |= T_UNINIT; }
        taint |= g ? g->taint : o->deftaint;
      });
      (void) k;
      pos = e;
    }
  }
  Val r = topInt(w, taint);
  r.kb = kb;
  r.undef = undef;
  if (anyprov) r.prov = std::make_shared<std::vector<uint16_t>>(pv);
  r = normI(r);
  return coerce(*this, r, T);
}

void Engine::storeAt(Mem &mem, int obj, int64_t off, const Val &v, Type *T) {
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    unsigned es = typeSize(DL, VT->getElementType());
    for (unsigned i = 0; i < VT->getNumElements(); i++) storeAt(mem, obj, off + i * es, v, VT->getElementType());
    return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      storeAt(mem, obj, off + SL->getElementOffset(i), v.k == K_AGG ? (*v.agg)[i] : top(ST->getElementType(i)), ST->getElementType(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++)
      storeAt(mem, obj, off + i * es, v.k == K_AGG && i < v.agg->size() ? (*v.agg)[i] : top(AT->getElementType()), AT->getElementType());
    return;
  }
  Obj *o = mut(mem, obj);
  if (!o) return;
  unsigned n = typeSize(DL, T);
  Val x = v;
  if (T->isIntegerTy() && x.k == K_INT && x.width() != n * 8 && x.width() < n * 8) {
    // i1 -> i8 etc.
    Val y = x; y.kb = x.kb.zext(n * 8); y.cr = x.cr.zeroExtend(n * 8); y.prov = nullptr; x = normI(y);
  }
  x.org = Origin();
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.size == n) {
    if (o->summary) x = joinV(it->second.v, x);
    it->second.v = x;
    it->second.stamp = stampCtr++;
    return;
  }
  if (o->summary) {
    Val old = loadAt(mem, obj, off, T);
    o = mut(mem, obj);
    x = joinV(old, x);
    x.org = Origin();
  }
  carve(*this, *o, off, n);
  o->cells[off] = Cell{n, x, stampCtr++};
}

bool Engine::checkAccess(Mem &mem, const Val &ptr, const Val &size, bool isStore, const Instruction *I, const char *what) {
  if (!checkMem) return true;
  obligation(I, "mem");
  bool ok = true;
  auto bad = [&](const std::string &k, const std::string &m) { ok = false; alarm(I, k, m); };
  if (ptr.k != K_PTR) return true;
  if (ptr.undef && checkUninit) bad("uninit-ptr", std::string(what) + " through possibly uninitialised pointer");
  if (ptr.p->null && !ptr.p->unk) bad("null-deref", std::string(what) + " through possibly NULL pointer");
  APInt nmax = size.k == K_INT ? size.cr.getUnsignedMax().zextOrTrunc(64) : APInt(64, 1);
  if (nmax.isZero()) return ok;
  for (auto &t : ptr.p->t) {
    const Obj *o = get(mem, t.obj);
    if (!o) { bad("dangling", std::string(what) + " to dead object " + objName(t.obj)); continue; }
    if (o->freed) bad("use-after-free", std::string(what) + " to freed " + o->name);
    if (o->kind == O_FUNC) { bad("mem", std::string(what) + " to function"); continue; }
    if (o->kind == O_EXT && !isStore && o->name == "string" && nmax == 1 && !t.off.getSignedMin().isNegative()) continue; // assumed to stop at the terminator
    APInt sz = o->size.getUnsignedMin();
    APInt lo = t.off.getSignedMin(), hi = t.off.getSignedMax();
    if (lo.isNegative() || hi.isNegative() || nmax.ugt(sz) || hi.ugt(sz - nmax)) {
      std::string s;
      raw_string_ostream os(s);
      os << what << " of " << nmax << " byte(s) at offset [" << lo.getSExtValue() << "," << hi.getSExtValue() << "] of '" << o->name << "' (size " << sz << ")";
      bad("oob", os.str());
    }
    if (isStore && o->kind == O_GLOBAL && o->site && cast<GlobalVariable>(o->site)->isConstant())
      bad("const-write", std::string("store to constant ") + o->name);
  }
  return ok;
}

Val Engine::load(Mem &mem, const Val &ptr, Type *T, const Instruction *I) {
  unsigned n = typeSize(DL, T);
  checkAccess(mem, ptr, cint(64, n), false, I, "load");
  if (ptr.k != K_PTR) { Val v = top(T); v.taint = ptr.taint; return v; }
  Val r;
  bool first = true;
  auto add = [&](Val v) { if (first) { r = v; first = false; } else r = joinV(r, v); };
  if (ptr.lut && T->isIntegerTy() && ptr.p->t.size() == 1 && !ptr.p->unk) {
    // a constant table indexed by bits that are tracked
    const Obj *o = get(mem, ptr.p->t[0].obj);
    auto *GV = o && o->kind == O_GLOBAL ? dyn_cast_or_null<GlobalVariable>(o->site) : nullptr;
    if (GV && GV->isConstant()) {
      Lut l;
      l.lab = ptr.lut->lab;
      bool ok = true, ident = true;
      for (uint64_t i = 0; i < ptr.lut->tab.size() && ok; i++) {
        if (!ptr.lut->possible(i)) { l.tab.push_back(i); continue; }
        Val v = ptr.lut->tab[i] + n <= o->size.getUnsignedMin().getZExtValue() ? loadAt(mem, ptr.p->t[0].obj, ptr.lut->tab[i], T) : top(T);
        if (!v.isConst()) { ok = false; break; }
        l.tab.push_back(v.cval());
        ident &= v.cval() == i;
        add(v);
      }
      if (ok && !first) {
        r.taint |= ptr.taint & ~(T_UNINIT | T_ADDR);
        r.org = Origin();
        if (ident) {
          auto pv = std::make_shared<std::vector<uint16_t>>(l.lab);
          pv->resize(r.width(), 0xFFFE);
          for (unsigned k = 0; k < r.width(); k++) {
            if ((*pv)[k] == 0xFFFE) r.kb.Zero.setBit(k);
            if ((*pv)[k] == 0xFFFD) r.kb.One.setBit(k);
          }
          r.prov = pv;
          r = normI(r);
        } else r.lut = std::make_shared<Lut>(l);
        return r;
      }
      first = true; r = Val();
    }
  }
  if (ptr.p->unk) add(top(T, ptr.taint));
  for (auto &t : ptr.p->t) {
    const Obj *o = get(mem, t.obj);
    if (!o) continue;
    if (t.off.isSingleElement()) {
      add(loadAt(mem, t.obj, t.off.getSingleElement()->getSExtValue(), T));
      continue;
    }
    APInt lo = t.off.getSignedMin(), hi = t.off.getSignedMax();
    APInt sz = o->size.getUnsignedMax();
    int64_t l = lo.isNegative() ? 0 : (int64_t) lo.getLimitedValue(INT64_MAX);
    int64_t st = t.stride ? t.stride : 1;
    if (lo.isNegative()) { int64_t m = ((-lo.getSExtValue()) % st); l = m ? st - m : 0; if (lo.getSExtValue() < -(int64_t)(1LL << 60)) { st = 1; l = 0; } }
    int64_t h = (int64_t) std::min<uint64_t>(hi.isNegative() ? 0 : hi.getLimitedValue(INT64_MAX), sz.ult(n) ? 0 : (sz - n).getLimitedValue(INT64_MAX));
    // Positions with cells, otherwise default content.
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      int cnt = 0;
      for (int64_t q = l; q <= h; q += st) { if (++cnt > 5000) { add(top(T)); break; } add(loadAt(mem, t.obj, q, T)); }
      if (l > h) add(top(T));
      continue;
    }
    bool gap = false;
    uint64_t covered = 0;
    auto it = o->cells.lower_bound(l);
    if (it != o->cells.begin()) { auto pt = std::prev(it); if (pt->first + (int64_t) pt->second.size > l) it = pt; }
    static const int BIG = 1 << 22;
    int cnt = 0;
    for (; it != o->cells.end() && it->first <= h + (int64_t) n - 1; ++it) {
      if (++cnt > BIG) { add(top(T)); break; }
      int64_t c = it->first;
      if (it->second.size == n && (c - l) % st == 0 && c >= l && c <= h) {
        covered++;
        Val v = it->second.v;
        bool same = (v.k == K_INT && T->isIntegerTy() && v.width() == T->getIntegerBitWidth()) || (v.k == K_PTR && T->isPointerTy()) || (v.k == K_FLT && T->isFloatingPointTy());
        if (!same) v = coerce(*this, v, T);
        add(v);
      }
      // positions hitting this cell partially
      if (!(it->second.size == n && st % n == 0 && (c - l) % (int64_t) n == 0)) {
        for (int64_t q = c - (int64_t) n + 1; q < c + (int64_t) it->second.size; q++)
          if (q >= l && q <= h && (q - l) % st == 0 && !(q == c && it->second.size == n)) { add(loadAt(mem, t.obj, q, T)); covered++; if (++cnt > BIG) break; }
      }
    }
    uint64_t total = l <= h ? (uint64_t) (h - l) / st + 1 : 0;
    if (covered < total) gap = true;
    if (gap) {
      // default content of the maximal ranges without cells
      auto seg = [&](int64_t a, int64_t b) { // [a, b) has no cells
        a = std::max(a, l); b = std::min(b, h + (int64_t) n);
        if (b - a < (int64_t) n) return;
        int64_t q0 = l + (a - l + st - 1) / st * st;
        if (q0 > b - (int64_t) n) return;
        int64_t q1 = l + (b - (int64_t) n - l) / st * st;
        add(defVal(*this, *o, T, q0, q1 + n, st));
      };
      int64_t cur = l;
      auto jt = o->cells.lower_bound(l);
      if (jt != o->cells.begin()) { auto pt = std::prev(jt); if (pt->first + (int64_t) pt->second.size > l) jt = pt; }
      for (; jt != o->cells.end() && jt->first < h + (int64_t) n; ++jt) {
        if (jt->first > cur) seg(cur, jt->first);
        cur = std::max(cur, jt->first + (int64_t) jt->second.size);
      }
      seg(cur, h + n);
    }
  }
  if (first) r = top(T, ptr.taint);
  if (ptr.p->t.size() != 1 || ptr.p->unk) r.org = Origin();
  if (ptr.p->t.size() == 1 && !ptr.p->t[0].off.isSingleElement()) r.org = Origin();
  r.taint |= ptr.taint & ~(T_UNINIT | T_ADDR);
  return r;
}

void Engine::store(Mem &mem, const Val &ptr, const Val &v, Type *T, const Instruction *I) {
  unsigned n = typeSize(DL, T);
  checkAccess(mem, ptr, cint(64, n), true, I, "store");
  if (ptr.k != K_PTR) return;
  for (auto *rc : recs) {
    auto &e = rc->st[I];
    e.ptr = joinV(e.ptr, ptr);
    e.val = joinV(e.val, v);
    for (auto &t : ptr.p->t) rc->objs[t.obj].insert(I);
  }
  bool strong = ptr.p->t.size() == 1 && !ptr.p->unk;
  for (auto &t : ptr.p->t) {
    const Obj *o = get(mem, t.obj);
    if (!o || o->kind == O_FUNC) continue;
    if (t.off.isSingleElement()) {
      int64_t off = t.off.getSingleElement()->getSExtValue();
      if (off < 0 || off > (1LL << 40)) continue;
      if (strong) storeAt(mem, t.obj, off, v, T);
      else storeAt(mem, t.obj, off, joinV(v, loadAt(mem, t.obj, off, T)), T);
      continue;
    }
    APInt lo = t.off.getSignedMin(), hi = t.off.getSignedMax();
    APInt sz = o->size.getUnsignedMax();
    int64_t st = t.stride ? t.stride : 1;
    int64_t l = lo.isNegative() ? 0 : (int64_t) lo.getLimitedValue(INT64_MAX);
    if (lo.isNegative()) { if (lo.getSExtValue() < -(int64_t)(1LL << 60)) { st = 1; l = 0; } else { int64_t m = ((-lo.getSExtValue()) % st); l = m ? st - m : 0; } }
    int64_t h = (int64_t) std::min<uint64_t>(hi.isNegative() ? 0 : hi.getLimitedValue(INT64_MAX), sz.ult(n) ? 0 : (sz - n).getLimitedValue(INT64_MAX));
    uint64_t total = l <= h ? (uint64_t) (h - l) / st + 1 : 0;
    if (T->isVectorTy() || T->isStructTy() || T->isArrayTy() || (st < (int64_t) n && total > 64)) {
      // generic: every overlapped cell is joined with unknown content
      Obj *m = mut(mem, t.obj);
      for (auto it = m->cells.lower_bound(std::max<int64_t>(0, l - 64)); it != m->cells.end() && it->first < h + (int64_t) n; ++it) {
        if (it->first + (int64_t) it->second.size <= l) continue;
        Val x = it->second.v.k == K_INT ? topInt(it->second.v.width()) : it->second.v.k == K_PTR ? unkPtr() : it->second.v.k == K_FLT ? frange(-INFINITY, INFINITY, true) : it->second.v;
        if (T->isVectorTy() && v.k == it->second.v.k && v.k == K_INT && v.width() == it->second.v.width() && st % (v.width() / 8) == 0) x = joinV(v, it->second.v);
        x.undef = v.undef || it->second.v.undef;
        x.taint = v.taint | it->second.v.taint;
        it->second.v = x;
        it->second.stamp = stampCtr++;
      }
      if (m->def == D_ZERO) m->def = D_TOP;
      m->deftaint |= v.taint & ~T_UNINIT;
      weakRegs(*this, *m, l, h + n, v, n, false);
      continue;
    }
    if (total > weakLimit && st == (int64_t) n && o->def != D_UNINIT) {
      // fold the range into one region that keeps the join of its elements
      bool okc = true;
      auto it = o->cells.lower_bound(l);
      if (it != o->cells.begin()) { auto pt = std::prev(it); if (pt->first + (int64_t) pt->second.size > l) okc = false; }
      for (; okc && it != o->cells.end() && it->first < h + (int64_t) n; ++it)
        if (it->second.size != n || (it->first - l) % (int64_t) n || it->first > h) okc = false;
      if (okc) {
        Val p1 = ptr;
        PtrSet ps; ps.t.push_back(t);
        ps.t[0].off = ConstantRange::getNonEmpty(APInt(64, l), APInt(64, h + 1));
        ps.t[0].stride = n;
        p1.p = std::make_shared<PtrSet>(ps);
        p1.undef = false;
        bool cm = checkMem; checkMem = false;
        Val old = load(mem, p1, T, I);
        checkMem = cm;
        Val nv = joinV(old, v);
        nv.org = Origin();
        Obj *m = mut(mem, t.obj);
        m->cells.erase(m->cells.lower_bound(l), m->cells.lower_bound(h + 1));
        Region g{0, nv.undef ? D_UNINIT : D_TOP, nv.taint, nv, n};
        setRegion(*m, l, h + n, g);
        continue;
      }
    }
    if (o->def != D_UNINIT && total > weakLimit) {
      Obj *m = mut(mem, t.obj);
      if (m->def == D_ZERO) m->def = D_TOP;
      m->deftaint |= v.taint;
      weakRegs(*this, *m, l, h + n, v, n, st % n == 0);
      for (auto it = m->cells.lower_bound(l); it != m->cells.end() && it->first <= h; ++it) {
        it->second.v = joinV(it->second.v, coerce(*this, v, T));
        it->second.stamp = stampCtr++;
      }
      continue;
    }
    if (o->def == D_UNINIT || o->def == D_TOP) {
      // only existing cells need updating
      std::vector<int64_t> pos;
      Obj *m = mut(mem, t.obj);
      if (m->def == D_TOP) m->deftaint |= v.taint & ~T_UNINIT;
      weakRegs(*this, *m, l, h + n, v, n, st % n == 0);
      auto it = m->cells.lower_bound(l);
      if (it != m->cells.begin()) { auto pt = std::prev(it); if (pt->first + (int64_t) pt->second.size > l) it = pt; }
      for (; it != m->cells.end() && it->first < h + (int64_t) n; ++it) {
        int64_t c = it->first;
        if (it->second.size == n && c >= l && c <= h && (c - l) % st == 0) {
          Val nv = joinV(it->second.v, coerce(*this, v, T));
          nv.org = Origin();
          it->second.v = nv;
          it->second.stamp = stampCtr++;
        } else {
          bool hit = false;
          for (int64_t q = c - (int64_t) n + 1; q < c + (int64_t) it->second.size && !hit; q++)
            if (q >= l && q <= h && (q - l) % st == 0) hit = true;
          if (hit) {
            Val x = it->second.v.k == K_INT ? topInt(it->second.v.width()) : it->second.v.k == K_PTR ? unkPtr() : it->second.v.k == K_FLT ? frange(-INFINITY, INFINITY, true) : it->second.v;
            x.undef = v.undef || it->second.v.undef;
            x.taint = v.taint | it->second.v.taint;
            it->second.v = x;
            it->second.stamp = stampCtr++;
          }
        }
      }
      continue;
    }
    for (int64_t q = l; q <= h; q += st) {
      Val old = loadAt(mem, t.obj, q, T);
      Val nv = joinV(old, v);
      nv.org = Origin();
      storeAt(mem, t.obj, q, nv, T);
    }
  }
}

void Engine::memsetOp(Mem &mem, const Val &d, const Val &c, const Val &n, const Instruction *I) {
  checkAccess(mem, d, n, true, I, "memset");
  if (d.k != K_PTR) return;
  logBulk(d);
  for (auto &t : d.p->t) {
    Obj *o = mut(mem, t.obj);
    if (!o || o->kind == O_FUNC) continue;
    bool prec = t.off.isSingleElement() && n.isConst() && d.p->t.size() == 1 && !d.p->unk && !o->summary;
    if (prec) {
      int64_t off = t.off.getSingleElement()->getSExtValue();
      uint64_t len = n.cval();
      if (off < 0) continue;
      if (off == 0 && o->size.isSingleElement() && o->size.getSingleElement()->getZExtValue() <= len) {
        o->cells.clear(); o->regs.clear();
        if (c.isConst() && (c.cval() & 0xFF) == 0) { o->def = D_ZERO; o->deftaint = 0; }
        else { o->def = c.undef ? D_UNINIT : D_TOP; o->deftaint = c.taint; }
        continue;
      }
      carve(*this, *o, off, len);
      if (len > 4096) {
        Region g{0, c.isConst() && (c.cval() & 0xFF) == 0 ? D_ZERO : c.undef ? D_UNINIT : D_TOP, c.taint, Val(), 0};
        setRegion(*o, off, off + len, g);
        continue;
      }
      for (uint64_t q = 0; q < len;) {
        unsigned k = len - q >= 8 ? 8 : len - q >= 4 ? 4 : 1;
        Val v = topInt(8 * k, c.taint);
        if (c.isConst()) { v = cint(8 * k, 0); APInt a = APInt::getSplat(8 * k, APInt(8, c.cval() & 0xFF)); v.cr = ConstantRange(a); v = normI(v); v.taint = c.taint; }
        v.undef = c.undef;
        o->cells[off + q] = Cell{k, v, stampCtr++};
        q += k;
      }
    } else {
      Val content = topInt(8, c.taint);
      content.undef = c.undef;
      if (c.isConst() && (c.cval() & 0xFF) == 0) content = cint(8, 0);
      PtrSet ps; ps.t.push_back(t);
      Val p1 = d; p1.p = std::make_shared<PtrSet>(ps);
      havocRange(mem, p1, n, content);
    }
  }
}
// weak update of [ptr, ptr+n) with arbitrary content (taint from `content`)
void Engine::havocRange(Mem &mem, const Val &ptr, const Val &n, const Val &content) {
  if (ptr.k != K_PTR) return;
  logBulk(ptr);
  for (auto &t : ptr.p->t) {
    Obj *o = mut(mem, t.obj);
    if (!o || o->kind == O_FUNC) continue;
    int64_t l = t.off.getSignedMin().isNegative() ? 0 : (int64_t) t.off.getSignedMin().getLimitedValue(1ull << 60);
    uint64_t nm = n.k == K_INT ? n.cr.getUnsignedMax().getLimitedValue(1ull << 60) : 1ull << 60;
    int64_t h = (int64_t) std::min<uint64_t>((t.off.getSignedMax().isNegative() ? 0 : t.off.getSignedMax().getLimitedValue(1ull << 60)) + nm, 1ull << 61);
    bool prec = t.off.isSingleElement() && n.isConst() && ptr.p->t.size() == 1 && !ptr.p->unk && !o->summary && n.cval() <= (1u << 16);
    if (prec) {
      carve(*this, *o, l, n.cval());
      for (uint64_t q = 0; q < n.cval();) {
        unsigned k = n.cval() - q >= 8 ? 8 : n.cval() - q >= 4 ? 4 : 1;
        Val v = topInt(8 * k, content.taint);
        v.undef = content.undef;
        o->cells[l + q] = Cell{k, v, stampCtr++};
        q += k;
      }
      continue;
    }
    for (auto &c : o->cells) {
      if (c.first + (int64_t) c.second.size <= l || c.first >= h) continue;
      Val x = c.second.v.k == K_INT ? topInt(c.second.v.width()) : c.second.v.k == K_PTR ? unkPtr() : c.second.v.k == K_FLT ? frange(-INFINITY, INFINITY, true) : c.second.v;
      x.undef = c.second.v.undef || content.undef;
      x.taint = c.second.v.taint | content.taint;
      if (content.isConst() && content.cval() == 0 && c.second.v.k == K_INT) { x = joinV(c.second.v, cint(c.second.v.width(), 0)); }
      c.second.v = x;
      c.second.stamp = stampCtr++;
    }
    weakRegs(*this, *o, l, h, content, 1, false);
    if (o->def == D_ZERO && !(content.isConst() && content.cval() == 0)) o->def = D_TOP;
    if (o->def == D_UNINIT && !content.undef && l == 0 && !o->summary && o->size.getUnsignedMax().ule(n.k == K_INT ? n.cr.getUnsignedMin().zextOrTrunc(64) : APInt(64, 0))) o->def = D_TOP;
    o->deftaint |= content.taint & ~T_UNINIT;
  }
}
void Engine::memcpyOp(Mem &mem, const Val &d, const Val &s, const Val &n, const Instruction *I, bool) {
  checkAccess(mem, d, n, true, I, "memcpy-dst");
  checkAccess(mem, s, n, false, I, "memcpy-src");
  if (d.k != K_PTR || s.k != K_PTR) return;
  logBulk(d);
  bool prec = d.p->t.size() == 1 && !d.p->unk && s.p->t.size() == 1 && !s.p->unk && n.isConst() &&
              d.p->t[0].off.isSingleElement() && s.p->t[0].off.isSingleElement() && n.cval() <= (1ull << 26);
  if (prec) {
    const Obj *so = get(mem, s.p->t[0].obj);
    Obj *dobj = mut(mem, d.p->t[0].obj);
    so = get(mem, s.p->t[0].obj);
    if (!so || !dobj || dobj->kind == O_FUNC) return;
    int64_t so0 = s.p->t[0].off.getSingleElement()->getSExtValue(), do0 = d.p->t[0].off.getSingleElement()->getSExtValue();
    int64_t len = (int64_t) n.cval();
    if (so0 < 0 || do0 < 0 || len == 0) return;
    std::vector<std::pair<int64_t, Cell>> cs;
    std::vector<std::pair<int64_t, int64_t>> gaps;
    int64_t pos = so0;
    auto it = so->cells.lower_bound(so0);
    if (it != so->cells.begin()) { auto pt = std::prev(it); if (pt->first + (int64_t) pt->second.size > so0) it = pt; }
    for (; it != so->cells.end() && it->first < so0 + len; ++it) {
      int64_t b = std::max(it->first, so0), e = std::min<int64_t>(it->first + it->second.size, so0 + len);
      if (b > pos) gaps.push_back({pos, b});
      Cell c = it->second;
      if (b != it->first || e != it->first + (int64_t) it->second.size) { c.v = extractBytes(*this, it->second.v, b - it->first, e - b); c.size = e - b; }
      c.stamp = stampCtr++;
      c.v.org = Origin();
      cs.push_back({b, c});
      pos = e;
    }
    if (pos < so0 + len) gaps.push_back({pos, so0 + len});
    struct Gap { int64_t b, e; Region g; };
    std::vector<Gap> gp;
    for (auto &g : gaps)
      pieces(*so, g.first, g.second, [&](int64_t b, int64_t e, const Region *r, int64_t start) {
        Region x{e, r ? r->def : so->def, r ? r->taint : so->deftaint, Val(), 0};
        if (r && r->esz && (b - start) % r->esz == 0) { x.elem = r->elem; x.esz = r->esz; }
        gp.push_back({b, e, x});
      });
    if (dobj->summary) { Val c = topInt(8); for (auto &x : cs) { c.undef |= x.second.v.undef; c.taint |= x.second.v.taint; } for (auto &g : gp) { if (g.g.def == D_UNINIT) c.undef = true; c.taint |= g.g.taint; } havocRange(mem, d, n, c); return; }
    bool whole = do0 == 0 && dobj->size.isSingleElement() && dobj->size.getSingleElement()->ule((uint64_t) len);
    carve(*this, *dobj, do0, len);
    cutRegs(*dobj, do0, do0 + len);
    for (auto &x : cs) dobj->cells[x.first - so0 + do0] = x.second;
    if (whole && gp.size() == 1) { dobj->def = gp[0].g.def; dobj->deftaint = gp[0].g.taint; if (gp[0].g.elem.k != K_NONE) { Region g = gp[0].g; setRegion(*dobj, gp[0].b - so0 + do0, gp[0].e - so0 + do0, g); } }
    else for (auto &g : gp) setRegion(*dobj, g.b - so0 + do0, g.e - so0 + do0, g.g);
    return;
  }
  // imprecise copy
  Val c = topInt(8, 0);
  if (s.p->unk) {}
  for (auto &t : s.p->t) {
    const Obj *o = get(mem, t.obj);
    if (!o) continue;
    int64_t l = t.off.getSignedMin().isNegative() ? 0 : (int64_t) t.off.getSignedMin().getLimitedValue(1ull << 60);
    uint64_t nm = n.k == K_INT ? n.cr.getUnsignedMax().getLimitedValue(1ull << 60) : 1ull << 60;
    uint64_t h = std::min<uint64_t>(t.off.getSignedMax().getLimitedValue(1ull << 60) + nm, o->size.getUnsignedMax().getLimitedValue(1ull << 60));
    int64_t cov = 0;
    for (auto &x : o->cells) {
      if (x.first + (int64_t) x.second.size <= l || x.first >= (int64_t) h) continue;
      c.undef |= x.second.v.undef;
      c.taint |= x.second.v.taint;
      cov += x.second.size;
    }
    if (cov < (int64_t) h - l) pieces(*o, l, h, [&](int64_t, int64_t, const Region *g, int64_t) { if ((g ? g->def : o->def) == D_UNINIT) { c.undef = true; c.taint |= T_UNINIT; } c.taint |= g ? g->taint : o->deftaint; });
  }
  havocRange(mem, d, n, c);
}
void Engine::havocReach(Mem &mem, const Val &ptr, uint32_t taint) {
  logBulk(ptr);
  std::set<int> seen;
  std::vector<Val> wl{ptr};
  while (!wl.empty()) {
    Val p = wl.back();
    wl.pop_back();
    if (p.k == K_AGG) { for (auto &e : *p.agg) wl.push_back(e); continue; }
    if (!p.p) continue;
    for (auto &t : p.p->t) {
      if (!seen.insert(t.obj).second) continue;
      Obj *o = mut(mem, t.obj);
      if (!o || o->kind == O_FUNC) continue;
      if (o->kind == O_GLOBAL && cast<GlobalVariable>(o->site)->isConstant()) continue;
      for (auto &c : o->cells) if (c.second.v.p) wl.push_back(c.second.v);
      o->cells.clear();
      o->regs.clear();
      o->def = D_TOP;
      o->deftaint |= taint;
    }
  }
}
void Engine::release(Mem &mem, const Val &p, const Instruction *I) {
  if (p.k != K_PTR) return;
  obligation(I, "free");
  if (p.undef) alarm(I, "uninit-ptr", "free of possibly uninitialised pointer");
  bool single = p.p->t.size() == 1 && !p.p->unk;
  for (auto &t : p.p->t) {
    Obj *o = mut(mem, t.obj);
    if (!o) continue;
    if (o->freed || (o->maybeFreed && !o->summary)) alarm(I, "double-free", "double free of " + o->name);
    if (o->kind != O_HEAP && o->kind != O_EXT) alarm(I, "bad-free", "free of non-heap object " + o->name);
    if (!t.off.contains(APInt(64, 0))) alarm(I, "bad-free", "free of interior pointer of " + o->name);
    if (single && !o->summary) o->freed = true; else o->maybeFreed = true;
  }
}
int Engine::pseudoState(Mem &mem, const std::string &name, uint64_t size) {
  auto it = pseudoIds.find("state " + name);
  if (it != pseudoIds.end()) {
    if (!mem.o.count(it->second)) {
      auto o = std::make_shared<Obj>();
      o->id = it->second; o->kind = O_EXT; o->def = D_ZERO; o->size = ConstantRange(APInt(64, size)); o->name = name;
      mem.o[it->second] = o;
    }
    return it->second;
  }
  int id = newObj(mem, O_EXT, D_ZERO, size, name);
  pseudoIds["state " + name] = id;
  return id;
}
std::string Engine::cstr(const Mem &mem, const Val &ptr, bool &ok) {
  ok = false;
  if (ptr.k != K_PTR || ptr.p->unk || ptr.p->null || ptr.p->t.size() != 1 || !ptr.p->t[0].off.isSingleElement()) return "";
  const Obj *o = get(mem, ptr.p->t[0].obj);
  if (!o) return "";
  int64_t off = ptr.p->t[0].off.getSingleElement()->getSExtValue();
  std::string s;
  for (int i = 0; i < 1 << 16; i++) {
    auto it = o->cells.find(off + i);
    if (it == o->cells.end()) { 
      if (o->def == D_ZERO && o->regs.empty()) { auto jt = o->cells.upper_bound(off + i); if (jt == o->cells.begin() || std::prev(jt)->first + (int64_t) std::prev(jt)->second.size <= off + i) { ok = true; return s; } }
      return "";
    }
    if (it->second.size != 1 || !it->second.v.isConst()) return "";
    char c = (char) it->second.v.cval();
    if (!c) { ok = true; return s; }
    s.push_back(c);
  }
  return "";
}
std::vector<Function *> Engine::funcTargets(const Val &p, const Mem &, bool &unk, std::vector<std::string> &pseudo) {
  std::vector<Function *> r;
  unk = false;
  if (p.k != K_PTR || p.p->unk) unk = true;
  if (p.k == K_PTR)
    for (auto &t : p.p->t) {
      auto it = funcObjs.find(t.obj);
      if (it != funcObjs.end()) { r.push_back(const_cast<Function *>(it->second)); continue; }
      auto jt = pseudoObjs.find(t.obj);
      if (jt != pseudoObjs.end()) { pseudo.push_back(jt->second); continue; }
      unk = true;
    }
  return r;
}

// ---------------------------------------------------------------- joins of memory
static ObjP joinO(Engine &E, const ObjP &a, const ObjP &b, bool widen) {
  if (a == b) return a;
  auto r = std::make_shared<Obj>();
  r->id = a->id; r->kind = a->kind; r->site = a->site; r->name = a->name;
  r->summary = a->summary | b->summary;
  r->freed = a->freed & b->freed;
  r->maybeFreed = a->maybeFreed | b->maybeFreed | (a->freed != b->freed);
  r->deftaint = a->deftaint | b->deftaint;
  r->size = a->size == b->size ? a->size : a->size.unionWith(b->size);
  if (a->def == b->def) r->def = a->def;
  else if (a->def == D_UNINIT || b->def == D_UNINIT) r->def = D_UNINIT;
  else r->def = D_TOP;
  if (!a->regs.empty() || !b->regs.empty()) {
    std::set<int64_t> pts;
    for (auto *o : {a.get(), b.get()}) for (auto &g : o->regs) { pts.insert(g.first); pts.insert(g.second.end); }
    for (auto p = pts.begin(); p != pts.end() && std::next(p) != pts.end(); ++p) {
      int64_t x = *p, y = *std::next(p);
      auto at = [&](const Obj &o) -> Region {
        Region r{y, o.def, o.deftaint, Val(), 0};
        pieces(o, x, y, [&](int64_t, int64_t, const Region *g, int64_t st) { if (g) { r = *g; if (r.esz && (x - st) % r.esz) { r.elem = Val(); } } });
        return r;
      };
      Region ga = at(*a), gb = at(*b), g = ga;
      g.end = y;
      if (ga.def != gb.def) g.def = (ga.def == D_UNINIT || gb.def == D_UNINIT) ? D_UNINIT : D_TOP;
      g.taint = ga.taint | gb.taint;
      if (ga.esz == gb.esz && ga.elem.k == gb.elem.k && ga.elem.k != K_NONE) g.elem = widen ? E.widenV(ga.elem, gb.elem) : E.joinV(ga.elem, gb.elem);
      else g.elem = Val();
      // coalesce with the previous region when identical
      r->regs[x] = g;
    }
  }
  auto ia = a->cells.begin(), ib = b->cells.begin();
  std::vector<std::pair<int64_t, int64_t>> odd;
  auto hint = r->cells.end();
  while (ia != a->cells.end() || ib != b->cells.end()) {
    if (ia != a->cells.end() && ib != b->cells.end() && ia->first == ib->first && ia->second.size == ib->second.size) {
      if (ia->second.stamp == ib->second.stamp) hint = r->cells.emplace_hint(r->cells.end(), ia->first, ia->second);
      else {
        Cell c{ia->second.size, widen ? E.widenV(ia->second.v, ib->second.v) : E.joinV(ia->second.v, ib->second.v), E.stampCtr++};
        hint = r->cells.emplace_hint(r->cells.end(), ia->first, c);
      }
      ++ia; ++ib;
      continue;
    }
    // mismatch: find overlapping group
    int64_t b0, e0;
    bool haveA = ia != a->cells.end(), haveB = ib != b->cells.end();
    if (haveA && (!haveB || ia->first <= ib->first)) { b0 = ia->first; e0 = b0 + ia->second.size; } else { b0 = ib->first; e0 = b0 + ib->second.size; }
    auto ja = ia; auto jb = ib;
    bool ch = true;
    while (ch) {
      ch = false;
      while (ja != a->cells.end() && ja->first < e0) { e0 = std::max(e0, ja->first + (int64_t) ja->second.size); ++ja; ch = true; }
      while (jb != b->cells.end() && jb->first < e0) { e0 = std::max(e0, jb->first + (int64_t) jb->second.size); ++jb; ch = true; }
    }
    // one side single cell & the other side nothing -> join with default
    Mem ma, mb; ma.o[a->id] = a; mb.o[b->id] = b;
    // choose splitting points from both sides
    std::set<int64_t> pts; pts.insert(b0); pts.insert(e0);
    for (auto k = ia; k != ja; ++k) { pts.insert(k->first); pts.insert(k->first + k->second.size); }
    for (auto k = ib; k != jb; ++k) { pts.insert(k->first); pts.insert(k->first + k->second.size); }
    auto &C = E.M.getContext();
    for (auto p = pts.begin(); std::next(p) != pts.end(); ++p) {
      int64_t x = *p, y = *std::next(p);
      auto kindOf = [&](const ObjP &o) -> const Val * { auto q = o->cells.find(x); return q != o->cells.end() && q->second.size == y - x ? &q->second.v : nullptr; };
      const Val *va = kindOf(a), *vb = kindOf(b);
      Type *T = Type::getIntNTy(C, (y - x) * 8);
      const Val *kv = va ? va : vb;
      if (kv && kv->k == K_PTR) T = PointerType::get(C, 0);
      else if (kv && kv->k == K_FLT) T = y - x == 8 ? Type::getDoubleTy(C) : y - x == 4 ? Type::getFloatTy(C) : T;
      else if (kv && kv->k == K_INT) T = Type::getIntNTy(C, kv->width());
      Val l = E.loadAt(ma, a->id, x, T), rr = E.loadAt(mb, b->id, x, T);
      l.org = Origin(); rr.org = Origin();
      Val jv = widen ? E.widenV(l, rr) : E.joinV(l, rr);
      r->cells.emplace_hint(r->cells.end(), x, Cell{(unsigned) (y - x), jv, E.stampCtr++});
    }
    ia = ja; ib = jb;
  }
  return r;
}
Mem Engine::joinM(const Mem &a, const Mem &b, bool widen) {
  Mem r;
  auto ia = a.o.begin(), ib = b.o.begin();
  while (ia != a.o.end() || ib != b.o.end()) {
    if (ib == b.o.end() || (ia != a.o.end() && ia->first < ib->first)) { r.o.insert(r.o.end(), *ia); ++ia; }
    else if (ia == a.o.end() || ib->first < ia->first) { r.o.insert(r.o.end(), *ib); ++ib; }
    else { r.o.emplace_hint(r.o.end(), ia->first, joinO(*this, ia->second, ib->second, widen)); ++ia; ++ib; }
  }
  return r;
}
static bool leqO(Engine &E, const ObjP &a, const ObjP &b) {
  if (a == b) return true;
  if (a->def != b->def && !(b->def == D_UNINIT) && !(b->def == D_TOP && a->def == D_ZERO)) return false;
  if (a->deftaint & ~b->deftaint) return false;
  if (a->maybeFreed && !b->maybeFreed) return false;
  if (a->freed != b->freed && !b->maybeFreed) return false;
  if (a->summary && !b->summary) return false;
  if (!b->size.contains(a->size)) return false;
  if (!a->regs.empty() || !b->regs.empty()) {
    std::set<int64_t> pts;
    for (auto *o : {a.get(), b.get()}) for (auto &g : o->regs) { pts.insert(g.first); pts.insert(g.second.end); }
    for (auto p = pts.begin(); p != pts.end() && std::next(p) != pts.end(); ++p) {
      int64_t x = *p, y = *std::next(p);
      auto at = [&](const Obj &o) -> Region {
        Region r{y, o.def, o.deftaint, Val(), 0};
        pieces(o, x, y, [&](int64_t, int64_t, const Region *g, int64_t st) { if (g) { r = *g; if (r.esz && (x - st) % r.esz) { r.elem = Val(); } } });
        return r;
      };
      Region ga = at(*a), gb = at(*b);
      if (ga.def != gb.def && gb.def != D_UNINIT && !(gb.def == D_TOP && ga.def == D_ZERO)) return false;
      if (ga.taint & ~gb.taint) return false;
      if (gb.elem.k != K_NONE && gb.def == D_TOP) {
        if (ga.elem.k == K_NONE || ga.esz != gb.esz || !E.leqV(ga.elem, gb.elem)) return false;
      }
    }
  }
  for (auto &c : a->cells) {
    auto it = b->cells.find(c.first);
    if (it == b->cells.end() || it->second.size != c.second.size) {
      // b must cover it by default top
      Mem mb; mb.o[b->id] = b;
      auto jt = b->cells.upper_bound(c.first);
      bool over = (jt != b->cells.end() && jt->first < c.first + (int64_t) c.second.size);
      if (jt != b->cells.begin()) { auto k = std::prev(jt); if (k->first + (int64_t) k->second.size > c.first) over = true; }
      if (over) return false;
      if (b->regs.empty()) {
        if (b->def == D_UNINIT) continue;
        if (b->def == D_TOP && !c.second.v.undef && !(c.second.v.taint & ~b->deftaint)) continue;
        return false;
      }
      auto &C = E.M.getContext();
      Type *T = c.second.v.k == K_PTR ? (Type *) PointerType::get(C, 0) : c.second.v.k == K_FLT ? (c.second.size == 8 ? Type::getDoubleTy(C) : Type::getFloatTy(C)) : (Type *) Type::getIntNTy(C, c.second.size * 8);
      Val dv = defVal(E, *b, T, c.first, c.first + c.second.size, c.second.size);
      if (!E.leqV(c.second.v, dv) && !dv.undef) return false;
      continue;
    }
    if (it->second.stamp == c.second.stamp) continue;
    if (!E.leqV(c.second.v, it->second.v)) return false;
  }
  // cells in b not in a: a default must be below
  if (b->cells.size() != a->cells.size())
    for (auto &c : b->cells) {
      if (a->cells.count(c.first)) continue;
      if (a->regs.empty() && a->def == D_UNINIT && !c.second.v.undef) return false;
      if (!a->regs.empty() || a->def == D_TOP || a->def == D_ZERO) {
        Mem ma; ma.o[a->id] = a;
        auto &C = E.M.getContext();
        Type *T = c.second.v.k == K_PTR ? (Type *) PointerType::get(C, 0) : c.second.v.k == K_FLT ? (c.second.size == 8 ? Type::getDoubleTy(C) : Type::getFloatTy(C)) : (Type *) Type::getIntNTy(C, c.second.size * 8);
        if (!E.leqV(E.loadAt(ma, a->id, c.first, T), c.second.v)) return false;
      }
    }
  return true;
}
bool Engine::leqM(const Mem &a, const Mem &b) {
  for (auto &x : a.o) {
    auto it = b.o.find(x.first);
    if (it == b.o.end()) return false;
    if (!leqO(*this, x.second, it->second)) return false;
  }
  return true;
}

// ---------------------------------------------------------------- reports
std::string locOf(const Instruction *I, std::string &file, unsigned &line) {
  file = "?";
  line = 0;
  if (I) {
    if (auto L = I->getDebugLoc()) {
      file = L->getFilename().str();
      line = L.getLine();
    } else if (I->getFunction() && I->getFunction()->getSubprogram()) {
      file = I->getFunction()->getSubprogram()->getFilename().str();
      line = I->getFunction()->getSubprogram()->getLine();
    }
  }
  return file + ":" + std::to_string(line);
}
void Engine::alarm(const Instruction *I, const std::string &kind, const std::string &msg) {
  if (quiet) return;
  Alarm a;
  a.kind = kind;
  a.inst = I;
  a.msg = msg;
  a.ctx = ctx;
  locOf(I, a.file, a.line);
  a.func = I ? I->getFunction()->getName().str() : "";
  for (auto *F : callStack) a.stack += (a.stack.empty() ? "" : " ") + F->getName().str();
  std::string key = kind + "|" + a.func + "|" + a.file + ":" + std::to_string(a.line);
  alarms.emplace(key, a);
}
void Engine::obligation(const Instruction *I, const char *kind) {
  if (quiet) return;
  oblig.insert({I, kind});
}
} // namespace ai
