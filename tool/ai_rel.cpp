// Relational component: difference bounds a - b <= c between the integer SSA
// values of a frame.  Values are read as mathematical signed integers; every
// rule below checks (with the intervals) that no wrap-around is possible.
#include "ai.h"
using namespace llvm;
namespace ai {

static bool sbounds(const Val &v, int64_t &lo, int64_t &hi) {
  if (v.k != K_INT || v.width() > 64 || v.cr.isEmptySet()) return false;
  lo = v.cr.getSignedMin().getSExtValue();
  hi = v.cr.getSignedMax().getSExtValue();
  return true;
}
static const int64_t LIM = int64_t(1) << 62;
static bool small(int64_t x) { return x > -LIM && x < LIM; }

// best known bound of env[a] - env[b]
bool Engine::relGet(FnInfo &fi, const State &s, int a, int b, int64_t &c) const {
  bool have = false;
  auto it = s.rel.find({a, b});
  if (it != s.rel.end()) { c = it->second; have = true; }
  int64_t la, ha, lb, hb;
  if (sbounds(s.env[a], la, ha) && sbounds(s.env[b], lb, hb) && small(ha) && small(lb)) {
    int64_t q = ha - lb;
    if (!have || q < c) c = q;
    have = true;
  }
  return have;
}
void Engine::relAdd(State &s, int a, int b, int64_t c, bool close) {
  if (a == b || !small(c)) return;
  auto put = [&](int x, int y, int64_t d) {
    if (x == y || !small(d)) return;
    auto it = s.rel.find({x, y});
    if (it == s.rel.end()) { if (s.rel.size() < 600) s.rel[{x, y}] = d; }
    else if (d < it->second) it->second = d;
  };
  if (close) {
    std::vector<std::pair<int, int64_t>> pre, post;
    for (auto &r : s.rel) {
      if (r.first.second == a) pre.push_back({r.first.first, r.second});
      if (r.first.first == b) post.push_back({r.first.second, r.second});
    }
    for (auto &p : pre) put(p.first, b, p.second + c);
    for (auto &q : post) put(a, q.first, c + q.second);
    for (auto &p : pre) for (auto &q : post) put(p.first, q.first, p.second + c + q.second);
  }
  put(a, b, c);
}
void Engine::relDrop(State &s, int a) {
  for (auto it = s.rel.begin(); it != s.rel.end();)
    if (it->first.first == a || it->first.second == a) it = s.rel.erase(it); else ++it;
}
// tighten the interval of env[a]
void Engine::relReduce(State &s, int a) {
  Val &v = s.env[a];
  int64_t lo, hi;
  if (!sbounds(v, lo, hi)) return;
  bool ch = false;
  for (auto &r : s.rel) {
    int64_t l2, h2;
    if (r.first.first == a) { // a <= other + c
      if (!sbounds(s.env[r.first.second], l2, h2) || !small(h2)) continue;
      if (h2 + r.second < hi) { hi = h2 + r.second; ch = true; }
    } else if (r.first.second == a) { // other - a <= c
      if (!sbounds(s.env[r.first.first], l2, h2) || !small(l2)) continue;
      if (l2 - r.second > lo) { lo = l2 - r.second; ch = true; }
    }
  }
  if (!ch || lo > hi) return;
  unsigned w = v.width();
  if (!isIntN(w, lo) && !isInt<64>(lo)) return;
  APInt L(64, (uint64_t) lo), H(64, (uint64_t) hi);
  if (w < 64) {
    if (L.getSignificantBits() > w || H.getSignificantBits() > w) return;
    L = L.trunc(w); H = H.trunc(w);
  }
  Val n = v;
  ConstantRange q = ConstantRange::getNonEmpty(L, H + 1);
  n.cr = v.cr.intersectWith(q, ConstantRange::Signed);
  if (n.cr.isEmptySet()) return;
  n = normI(n);
  if (!n.cr.isEmptySet()) v = n;
}
bool Engine::relSub(FnInfo &fi, State &s, const Value *A, const Value *B, int64_t &lo, int64_t &hi, bool &hasLo, bool &hasHi) {
  hasLo = hasHi = false;
  auto a = fi.num.find(A), b = fi.num.find(B);
  if (a == fi.num.end() || b == fi.num.end()) return false;
  int64_t c;
  if (relGet(fi, s, a->second, b->second, c)) { hi = c; hasHi = true; }
  if (relGet(fi, s, b->second, a->second, c)) { lo = -c; hasLo = true; }
  return hasLo || hasHi;
}
// I has just been evaluated (its interval is in env)
void Engine::relDef(FnInfo &fi, State &s, Instruction &I) {
  int x = fi.num[&I];
  auto numOf = [&](Value *V) { auto it = fi.num.find(V); return it == fi.num.end() || !V->getType()->isIntegerTy() ? -1 : it->second; };
  auto val = [&](Value *V) { return eval(fi, s, V); };
  auto ovf = [](int64_t p, int64_t q, unsigned w, bool sub) { // p op q leaves the signed range of w bits
    int64_t r;
    if (sub ? __builtin_sub_overflow(p, q, &r) : __builtin_add_overflow(p, q, &r)) return true;
    return w < 64 && (r < -(int64_t(1) << (w - 1)) || r >= (int64_t(1) << (w - 1)));
  };
  unsigned w = I.getType()->getIntegerBitWidth();
  if (w > 64 || w < 8) return;
  int64_t la, ha, lb, hb;
  switch (I.getOpcode()) {
  case Instruction::Add: {
    Value *A = I.getOperand(0), *B = I.getOperand(1);
    int a = numOf(A), b = numOf(B);
    if (!sbounds(val(A), la, ha) || !sbounds(val(B), lb, hb)) return;
    if (ovf(la, lb, w, false) || ovf(ha, hb, w, false)) {
      // x + c with c < 0: no wrap if x >= -c is known; otherwise nothing
      return;
    }
    if (a >= 0) { relAdd(s, x, a, hb); relAdd(s, a, x, -lb); }
    if (b >= 0 && b != a) { relAdd(s, x, b, ha); relAdd(s, b, x, -la); }
    relReduce(s, x);
    break;
  }
  case Instruction::Sub: {
    Value *A = I.getOperand(0), *B = I.getOperand(1);
    int a = numOf(A), b = numOf(B);
    if (!sbounds(val(A), la, ha) || !sbounds(val(B), lb, hb)) return;
    int64_t lo = 0, hi = 0;
    bool hl = false, hh = false;
    bool wrap = ovf(la, hb, w, true) || ovf(ha, lb, w, true);
    relSub(fi, s, A, B, lo, hi, hl, hh);
    if (!wrap || (hl && hh)) {
      // the mathematical difference fits: it equals the value
      if (hl && hh && w < 64 && (lo < -(int64_t(1) << (w - 1)) || hi >= (int64_t(1) << (w - 1)))) return;
      Val v = s.env[x];
      if (hl && hh && lo <= hi) {
        ConstantRange q = ConstantRange::getNonEmpty(APInt(w, (uint64_t) lo, true), APInt(w, (uint64_t) hi, true) + 1);
        ConstantRange n = v.cr.intersectWith(q, ConstantRange::Signed);
        if (!n.isEmptySet()) { v.cr = n; v = normI(v); if (!v.cr.isEmptySet()) s.env[x] = v; }
      }
      if (a >= 0) { relAdd(s, x, a, -lb); relAdd(s, a, x, hb); }
      if (b >= 0) { if (small(ha)) relAdd(s, x, b, ha - (small(lb) ? lb : 0) - (small(lb) ? 0 : 0)); }
      relReduce(s, x);
    }
    break;
  }
  case Instruction::ZExt: {
    int a = numOf(I.getOperand(0));
    if (a < 0 || I.getOperand(0)->getType()->getIntegerBitWidth() < 8 || !sbounds(val(I.getOperand(0)), la, ha) || la < 0) return;
    relAdd(s, x, a, 0); relAdd(s, a, x, 0);
    break;
  }
  case Instruction::SExt: {
    int a = numOf(I.getOperand(0));
    if (a < 0 || I.getOperand(0)->getType()->getIntegerBitWidth() < 8) return;
    relAdd(s, x, a, 0); relAdd(s, a, x, 0);
    break;
  }
  case Instruction::Trunc: {
    int a = numOf(I.getOperand(0));
    if (a < 0 || !sbounds(val(I.getOperand(0)), la, ha)) return;
    if (la < -(int64_t(1) << (w - 1)) || ha >= (int64_t(1) << (w - 1))) return;
    relAdd(s, x, a, 0); relAdd(s, a, x, 0);
    break;
  }
  case Instruction::Mul:
  case Instruction::Shl: {
    // x = a * k, a >= 0, k >= 1: a <= x
    auto *C = dyn_cast<ConstantInt>(I.getOperand(1));
    Value *A = I.getOperand(0);
    if (!C) { C = dyn_cast<ConstantInt>(I.getOperand(0)); A = I.getOperand(1); if (I.getOpcode() == Instruction::Shl) return; }
    if (!C || C->getBitWidth() > 64) return;
    int a = numOf(A);
    if (a < 0 || !sbounds(val(A), la, ha) || la < 0) return;
    uint64_t k = I.getOpcode() == Instruction::Shl ? (C->getZExtValue() < 32 ? 1ull << C->getZExtValue() : 0) : C->getZExtValue();
    if (k < 1 || k > (1ull << 31) || (uint64_t) ha > (uint64_t(1) << (w - 1)) / k - 1) return;
    relAdd(s, a, x, -la * (int64_t) (k - 1));
    break;
  }
  case Instruction::UDiv:
  case Instruction::LShr: {
    int a = numOf(I.getOperand(0));
    if (a < 0 || !sbounds(val(I.getOperand(0)), la, ha) || la < 0) return;
    relAdd(s, x, a, 0);
    break;
  }
  case Instruction::Freeze: {
    int a = numOf(I.getOperand(0));
    if (a >= 0) { relAdd(s, x, a, 0); relAdd(s, a, x, 0); }
    break;
  }
  case Instruction::PHI:
  default:
    break;
  }
}
bool Engine::relAssume(FnInfo &fi, State &s, Value *A, CmpInst::Predicate P, Value *B) {
  auto ia = fi.num.find(A), ib = fi.num.find(B);
  if (ia == fi.num.end() || ib == fi.num.end() || !A->getType()->isIntegerTy() || A->getType()->getIntegerBitWidth() > 64 || A->getType()->getIntegerBitWidth() < 8) return true;
  int a = ia->second, b = ib->second;
  if (a == b) return true;
  int64_t la, ha, lb, hb;
  if (!sbounds(s.env[a], la, ha) || !sbounds(s.env[b], lb, hb)) return true;
  switch (P) {
  case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: if (lb < 0) return true; break; // then a is nonnegative too
  case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: if (la < 0) return true; break;
  default: break;
  }
  switch (P) {
  case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: relAdd(s, a, b, -1); break;
  case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: relAdd(s, a, b, 0); break;
  case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: relAdd(s, b, a, -1); break;
  case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: relAdd(s, b, a, 0); break;
  case CmpInst::ICMP_EQ: relAdd(s, a, b, 0); relAdd(s, b, a, 0); break;
  case CmpInst::ICMP_NE: {
    auto p = s.rel.find({a, b}), q = s.rel.find({b, a});
    if (p != s.rel.end() && p->second == 0) relAdd(s, a, b, -1);
    else if (q != s.rel.end() && q->second == 0) relAdd(s, b, a, -1);
    break;
  }
  default: return true;
  }
  auto p = s.rel.find({a, b}), q = s.rel.find({b, a});
  if (p != s.rel.end() && q != s.rel.end() && p->second + q->second < 0) return false;
  // propagate into the intervals of everything related
  std::set<int> vs{a, b};
  for (auto &r : s.rel) {
    if (r.first.first == a || r.first.first == b) vs.insert(r.first.second);
    if (r.first.second == a || r.first.second == b) vs.insert(r.first.first);
  }
  for (int k = 0; k < 2; k++) for (int v : vs) relReduce(s, v);
  return true;
}
// new relations after the (simultaneous) assignment of the phis of `to`
void Engine::relEdge(FnInfo &fi, State &s, BasicBlock *from, BasicBlock *to, RelMap &nrel) {
  struct Ph { int x; int u; Val v; };
  std::vector<Ph> ps;
  std::set<int> def;
  for (auto &P : to->phis()) {
    int x = fi.num[&P];
    def.insert(x);
    if (!P.getType()->isIntegerTy() || P.getType()->getIntegerBitWidth() < 8 || P.getType()->getIntegerBitWidth() > 64) continue;
    Value *in = P.getIncomingValueForBlock(from);
    auto it = fi.num.find(in);
    ps.push_back({x, it == fi.num.end() ? -1 : it->second, eval(fi, s, in)});
  }
  for (auto &r : s.rel)
    if (!def.count(r.first.first) && !def.count(r.first.second)) nrel[r.first] = r.second;
  auto put = [&](int a, int b, int64_t c) {
    if (a == b || !small(c)) return;
    auto it = nrel.find({a, b});
    if (it == nrel.end()) nrel[{a, b}] = c; else if (c < it->second) it->second = c;
  };
  for (auto &p : ps) {
    if (p.u < 0) continue;
    for (auto &r : s.rel) {
      if (r.first.first == p.u && !def.count(r.first.second)) put(p.x, r.first.second, r.second);
      if (r.first.second == p.u && !def.count(r.first.first)) put(r.first.first, p.x, r.second);
    }
    if (!def.count(p.u)) { put(p.x, p.u, 0); put(p.u, p.x, 0); }
  }
  if (ps.size() <= 12)
    for (auto &p : ps)
      for (auto &q : ps) {
        if (p.x == q.x) continue;
        if (p.u >= 0 && p.u == q.u) { put(p.x, q.x, 0); continue; }
        auto it = p.u >= 0 && q.u >= 0 ? s.rel.find({p.u, q.u}) : s.rel.end();
        if (it != s.rel.end()) { put(p.x, q.x, it->second); }
        int64_t l1, h1, l2, h2;
        if (sbounds(p.v, l1, h1) && sbounds(q.v, l2, h2) && l1 == h1 && l2 == h2 && small(h1) && small(l2)) put(p.x, q.x, h1 - l2);
      }
  // a constant start is also related to everything it is compared with later:
  // phi - z for live z with an interval (used by joins through relGet)
}
void Engine::relJoin(const State &a, const State &b, FnInfo &fi, BasicBlock *at, bool widen, State &r) {
  auto &live = fi.liveIn[fi.rpoIdx[at]];
  std::set<int> lv(live.begin(), live.end());
  std::set<std::pair<int, int>> keys;
  for (auto &x : a.rel) keys.insert(x.first);
  if (!widen) for (auto &x : b.rel) keys.insert(x.first);
  r.rel.clear();
  for (auto &k : keys) {
    if (!lv.count(k.first) || !lv.count(k.second)) continue;
    int64_t ca, cb;
    if (!relGet(fi, a, k.first, k.second, ca) || !relGet(fi, b, k.first, k.second, cb)) continue;
    int64_t c = std::max(ca, cb);
    if (widen && cb > ca) { // only a few thresholds
      if (cb <= -1) c = -1; else if (cb <= 0) c = 0; else if (cb <= 1) c = 1; else continue;
    }
    // useless if not better than the intervals
    int64_t l1, h1, l2, h2;
    if (sbounds(r.env[k.first], l1, h1) && sbounds(r.env[k.second], l2, h2) && small(h1) && small(l2) && h1 - l2 < c) continue;
    r.rel[k] = c;
  }
  if (widen) {
    std::set<int> vs;
    for (auto &x : r.rel) { vs.insert(x.first.first); vs.insert(x.first.second); }
    for (int k = 0; k < 2; k++) for (int v : vs) relReduce(r, v);
  }
}
bool Engine::relLeq(const State &a, const State &b, FnInfo &fi, BasicBlock *at) {
  for (auto &k : b.rel) {
    int64_t c;
    if (!relGet(fi, a, k.first.first, k.first.second, c) || c > k.second) return false;
  }
  return true;
}
} // namespace ai
