// scenario FUNCTION: analyses a harness function (harness/*.c) linked with the
// code of the repository.  The harness supplies abstract inputs and states
// obligations by means of the v_* functions modelled below; nothing is run.
#include "ai.h"
#include "common.h"
#include "llvm/Support/raw_ostream.h"
#include <cmath>
#include <cstring>
using namespace llvm;
using namespace ai;

namespace {
std::string optVal(const std::vector<std::string> &opts, const std::string &k, const std::string &d = "") {
  for (auto &o : opts)
    if (o.rfind("--" + k + "=", 0) == 0) return o.substr(k.size() + 3);
  return d;
}
std::string stackOf(Engine &E) {
  std::string st;
  for (auto *F : E.callStack) st += (st.empty() ? "" : " ") + F->getName().str();
  return st;
}
struct Sc {
  Module &M;
  Engine E;
  std::map<std::string, Alarm> own; // obligations of the harness (by location and message)
  std::map<std::string, int64_t> reached;
  std::map<std::string, json::Array> prints;
  std::map<std::string, json::Object> races;
  struct Exp { std::string key, text; double num; bool row, hit = false; };
  std::vector<Exp> expects;
  std::string strKey;
  bool labelNumbers = false;
  struct Num { Instruction *at = nullptr; int64_t lo, hi, wantLo, wantHi; };
  std::map<std::string, Num> nums;         // accepted numbers
  std::map<std::string, bool> expHit;
  int ghost = -1;                          // ghost object: lock counters
  std::map<std::pair<int, int64_t>, int> locks;
  std::set<std::pair<int, int>> order;     // lock b was acquired while lock a was held
  struct Acc { Instruction *I; std::set<int> held; bool write; bool first = true; std::string stack; };
  std::map<std::string, std::map<const Instruction *, Acc>> shared; // static object -> accesses of the thread phase
  Sc(Module &M) : M(M), E((prepare(M), M)) {}

  void alarm(const Instruction *I, const std::string &kind, const std::string &msg) {
    if (E.quiet) return;
    E.alarm(I, kind, msg);
  }
  static std::string text(Engine &E, State &s, const Val &v) { bool ok; std::string t = E.cstr(s.mem, v, ok); return ok ? t : "?"; }
  int lockId(State &s, const Val &m) {
    if (m.k != K_PTR || m.p->t.size() != 1 || m.p->unk || !m.p->t[0].off.isSingleElement()) return -1;
    auto k = std::make_pair(m.p->t[0].obj, m.p->t[0].off.getSingleElement()->getSExtValue());
    auto it = locks.find(k);
    if (it == locks.end()) it = locks.insert({k, (int) locks.size()}).first;
    return it->second;
  }
  Val heldV(State &s, int id) { return E.loadAt(s.mem, ghost, 4 * id, Type::getInt32Ty(M.getContext())); }
  Val flag(State &s, const char *nm) {
    auto *G = M.getNamedGlobal(nm);
    if (!G) return E.cint(32, 0);
    return E.loadAt(s.mem, E.globalObj(G, s.mem), 0, Type::getInt32Ty(M.getContext()));
  }
  bool mayBe1(const Val &v) { return !(v.isConst() && v.cval() == 0); }

  // memory that exists when the first thread is started: a cell that one thread
  // writes may not be used by another one, unless locks are held
  std::set<int> shadowIds;
  std::map<int, int> shadow; // object -> shadow object (2 bytes per byte: who wrote, who read)
  void cellAccess(Instruction &I, const Val &p, const Val *v, State &s) {
    Type *I8 = Type::getInt8Ty(M.getContext());
    auto *G = M.getNamedGlobal("v_thread_self");
    if (!G) return;
    for (auto &l : locks) if (mayBe1(heldV(s, l.second))) return;
    Val self = E.loadAt(s.mem, E.globalObj(G, s.mem), 0, Type::getInt64Ty(M.getContext()));
    if (!self.isConst()) return;
    unsigned me = self.cval() + 1;
    for (auto &t : p.p->t) {
      auto sh = shadow.find(t.obj);
      if (sh == shadow.end()) continue;
      E.obligation(&I, "race");
      if (!t.off.isSingleElement()) {
        if (v) alarm(&I, "race", "threads write '" + E.objName(t.obj) + "', the position isn't determined by the thread");
        continue;
      }
      int64_t off = t.off.getSingleElement()->getSExtValue();
      if (off < 0 || off > 60000) continue;
      Val w = E.loadAt(s.mem, sh->second, 2 * off, I8), r = E.loadAt(s.mem, sh->second, 2 * off + 1, I8);
      auto other = [&](const Val &x) { return !(x.isConst() && (x.cval() == 0 || x.cval() == me)); };
      if (other(w) || (v && other(r)))
        alarm(&I, "race", std::string(v ? "writes" : "reads") + " a part of '" + E.objName(t.obj) + "' that another thread " + (other(w) ? "writes" : "reads") + ", without a lock");
      if (v || !(r.isConst() && r.cval() == 255)) {
        bool many = !v && r.isConst() && r.cval() != 0 && r.cval() != me;
        E.storeAt(s.mem, sh->second, 2 * off + (v ? 0 : 1), E.cint(8, many ? 255 : me), I8);
      }
    }
  }
  void setup() {
    Type *I32 = Type::getInt32Ty(M.getContext());
    auto &m = E.models;
    m["v_u64"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) {
      uint64_t lo = a[0].cr.getUnsignedMin().getZExtValue(), hi = a[1].cr.getUnsignedMax().getZExtValue();
      r = E.range(64, lo, hi); r.taint = T_USER; return true;
    };
    m["v_i64"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) {
      r = E.topInt(64, T_USER);
      APInt lo = a[0].cr.getSignedMin(), hi = a[1].cr.getSignedMax() + 1;
      r.cr = ConstantRange::getNonEmpty(lo, hi); r = E.normI(r); r.taint = T_USER; return true;
    };
    m["v_gen64"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) {
      r = E.range(64, a[0].cr.getUnsignedMin().getZExtValue(), a[1].cr.getUnsignedMax().getZExtValue()); r.taint = T_GEN; return true;
    };
    m["v_f64"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) { r = E.frange(a[0].flo, a[1].fhi, false); return true; };
    m["v_nan"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) { r = E.frange(1, 0, true); return true; };
    m["v_anyf"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) { r = E.top(CB.getType()); return true; };
    m["v_any"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.checkAccess(s.mem, a[0], a[1], true, &CB, "v_any");
      E.havocRange(s.mem, a[0], a[1], E.topInt(8, T_EXT)); return true;
    };
    m["v_hw"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { r = E.topInt(64, T_HW); return true; };
    m["v_str"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { // any string of up to max characters
      int id = E.allocSite(s.mem, &CB, D_TOP, E.range(64, 1, a[0].cr.getUnsignedMax().getZExtValue() + 1), "string");
      if (Obj *o = E.mut(s.mem, id)) { o->kind = O_EXT; o->deftaint = T_USER; }
      r = E.ptrTo(id); return true;
    };
    m["v_buf"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { // any initialised buffer of a[0] bytes
      int id = E.allocSite(s.mem, &CB, D_TOP, a[0], "buffer");
      if (Obj *o = E.mut(s.mem, id)) { o->kind = O_EXT; o->deftaint = T_USER; }
      r = E.ptrTo(id); return true;
    };
    m["v_must"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      bool ok = a[0].k == K_INT && !a[0].undef && !a[0].cr.contains(APInt(a[0].width(), 0));
      if (!ok) alarm(&CB, "must", text(E, s, a[1]));
      return true;
    };
    m["v_show"] = m["__show"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      std::string f; unsigned l; locOf(&CB, f, l);
      errs() << (E.quiet ? "  (quiet) " : "") << "line " << l << ":";
      for (auto &v : a) errs() << " " << E.show(v);
      errs() << "\n";
      return true;
    };
    m["v_unreachable"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { E.obligation(&CB, "must"); alarm(&CB, "must", text(E, s, a[0])); return false; };
    m["v_oom"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { r = E.cint(32, E.mallocMayFail); return true; };
    m["v_stop"] = [](Engine &, CallBase &, std::vector<Val> &, State &, Val &, std::vector<State> &) { return false; };
    // what the report must say: the first number printed together with the key; a row of the table of results
    m["v_expect"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      std::string k = text(E, s, a[0]);
      for (size_t i = 0; i < expects.size(); i++) if (!expects[i].row && expects[i].key == k) expects.erase(expects.begin() + i--);
      expects.push_back({k, "", a[1].flo, false});
      if (!E.quiet) expHit.insert({k, false});
      return true;
    };
    m["v_expect_row"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      std::string k = text(E, s, a[0]);
      for (size_t i = 0; i < expects.size(); i++) if (expects[i].row && expects[i].key == k) expects.erase(expects.begin() + i--);
      expects.push_back({k, text(E, s, a[2]), (double) a[1].cval(), true});
      if (!E.quiet) expHit.insert({"row " + k, false});
      return true;
    };
    // the text printed behind the key is given to v_on_str
    m["v_expect_str"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      strKey = text(E, s, a[0]);
      if (!E.quiet) expHit.insert({"text of " + strKey, false});
      return true;
    };
    m["v_expect_none"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { expects.clear(); return true; };
    m["v_reached"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { if (!E.quiet) reached[text(E, s, a[0])]++; return true; };
    m["v_either"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) { // 0 or 1, paths kept apart if partitioned
      r = E.range(32, 0, 1);
      return true;
    };
    m["v_label64"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      r = E.topInt(64, T_GEN);
      if (a[0].isConst()) {
        auto p = std::make_shared<std::vector<uint16_t>>(64);
        for (int i = 0; i < 64; i++) (*p)[i] = a[0].cval() + i;
        r.prov = p;
      }
      return true;
    };
    // bits lo..lo+n-1 of v carry the labels base, base + step, ...; n < 0: they are zero
    m["v_must_bits"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      bool ok = !a[0].undef && a[0].k == K_INT;
      int64_t lo = a[1].cval(), n = (int64_t) a[2].cval(), step = (int32_t) a[4].cval();
      if (ok && n < 0) { for (int64_t i = 0; i < -n && ok; i++) ok = a[0].kb.Zero[lo + i]; }
      else if (ok) {
        ok = a[0].prov != nullptr && a[3].isConst();
        for (int64_t i = 0; i < n && ok; i++) ok = (*a[0].prov)[lo + i] == a[3].cval() + i * step;
      }
      if (!ok) alarm(&CB, "must", text(E, s, a[5]));
      return true;
    };
    // v is the number that the text base / 64 stands for: its bits are unchanged,
    // and it may be any number of [lo, hi] but no other one
    m["v_must_num"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      const Val &v = a[0];
      bool ok = !v.undef && v.k == K_INT && a[1].isConst() && (v.prov || v.isConst()); // a path may fix the number
      std::string why;
      for (unsigned i = 0; ok && !v.isConst() && i < v.width(); i++) if (!v.kb.Zero[i] && (*v.prov)[i] != a[1].cval() * 64 + i) { ok = false; why = "it isn't the number of the file"; }
      if (ok) {
        int64_t lo = v.cr.getSignedMin().getSExtValue(), hi = v.cr.getSignedMax().getSExtValue();
        std::string msg = text(E, s, a[4]);
        auto &n = nums[msg];
        if (!n.at) n = {&CB, lo, hi, (int64_t) a[2].cval(), (int64_t) a[3].cval()};
        n.lo = std::min(n.lo, lo); n.hi = std::max(n.hi, hi);
      } else if (why.empty()) why = "it isn't the number of the file: " + E.show(v);
      if (!ok) alarm(&CB, "must", text(E, s, a[4]) + ": " + why);
      return true;
    };
    // numbers in texts: the text "k" (k < 100) stands for any number with the labels 64 k..64 k + 63
    if (labelNumbers)
      for (const char *n : {"sscanf", "__isoc99_sscanf", "strtol", "strtoll", "strtoul", "strtoull", "atoi", "atol", "atoll", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoull", "__isoc23_sscanf"}) {
        std::string nm = n;
        m[nm] = [this, nm](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) {
          bool scan = nm.find("sscanf") != std::string::npos, ok, okf = true;
          std::string t = E.cstr(s.mem, a[0], ok), f = scan ? E.cstr(s.mem, a[1], okf) : "";
          unsigned w = 0;
          if (scan) w = f == "%lld" || f == "%ld" || f == "%llu" || f == "%lu" || f == "%zu" || f == "%lli" || f == "%jd" ? 64 : f == "%d" || f == "%u" || f == "%i" ? 32 : 0;
          else w = CB.getType()->getIntegerBitWidth();
          if (!ok || !okf || !w || (scan && a.size() < 3)) return E.lib(CB, nm, a, s, r, more);
          size_t b = t.find_first_not_of(" \t\n"), e = b == std::string::npos ? b : t.find_first_not_of("0123456789", b + ((t[b] == '-' || t[b] == '+') ? 1 : 0));
          std::string d = b == std::string::npos ? "" : t.substr(b, e == std::string::npos ? e : e - b);
          bool num = !d.empty() && isdigit((unsigned char) d.back());
          Val v = E.cint(w, 0);
          if (num) {
            bool lab = d.size() <= 2 && isdigit((unsigned char) d[0]) && d != "0";
            if (lab) {
              v = E.topInt(w, T_USER);
              auto p = std::make_shared<std::vector<uint16_t>>(w);
              for (unsigned i = 0; i < w; i++) (*p)[i] = 64 * std::stoul(d) + i;
              v.prov = p;
            } else v = E.cint(w, (uint64_t) strtoll(d.c_str(), nullptr, 10));
          }
          Type *I = Type::getIntNTy(M.getContext(), w);
          if (scan) {
            if (num) E.store(s.mem, a[2], v, I, &CB);
            r = E.cint(32, num ? 1 : t.empty() ? ~0u : 0);
          } else {
            r = v;
            if (a.size() > 1 && a[1].k == K_PTR && !(a[1].p->null && a[1].p->t.empty())) {
              Val q = a[0];
              auto p = std::make_shared<PtrSet>(*q.p);
              for (auto &x : p->t) x.off = x.off.add(ConstantRange(APInt(64, num ? (e == std::string::npos ? t.size() : e) : 0)));
              q.p = p;
              E.store(s.mem, a[1], q, CB.getArgOperand(0)->getType(), &CB);
            }
          }
          return true;
        };
      }
    m["v_must_taint"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      if (a[0].undef || (a[0].taint & a[1].cval()) || (a[2].cval() && !(a[0].taint & a[2].cval()))) alarm(&CB, "must", text(E, s, a[3]) + (a[0].undef ? " (uninitialised)" : ""));
      return true;
    };
    m["v_fmust_taint"] = m["v_must_taint"];
    m["v_addtaint"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { r = a[0]; r.taint |= a[1].cval(); r.org = Origin(); return true; };
    m["v_must_init"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      bool ok = a[0].k == K_PTR && !a[0].p->unk && !a[0].p->null && a[0].p->t.size() == 1 && a[0].p->t[0].off.isSingleElement() && a[1].isConst();
      if (ok) for (uint64_t i = 0; i < a[1].cval() && ok; i++) { Val v = E.loadAt(s.mem, a[0].p->t[0].obj, a[0].p->t[0].off.getSingleElement()->getSExtValue() + i, Type::getInt8Ty(M.getContext())); ok = !v.undef; }
      if (!ok) alarm(&CB, "must", text(E, s, a[2]));
      return true;
    };
    // the heap holds no live object apart from those that existed at v_mark()
    m["v_must_noleak"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "must");
      for (auto &o : s.mem.o)
        if (o.second->kind == O_HEAP && !o.second->freed && !o.second->maybeFreed) alarm(&CB, "leak", text(E, s, a[0]) + ": " + o.second->name);
      return true;
    };
    m["exit"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "exit-status");
      if (a[0].k == K_INT && a[0].cr.contains(APInt(a[0].width(), 0)) && mayBe1(flag(s, "v_exit_is_error"))) alarm(&CB, "exit-status", "the program ends with the status of success after an error");
      return false;
    };
    // ---- locks and threads
    m["pthread_mutex_lock"] = [this, I32](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "lock");
      int id = lockId(s, a[0]);
      if (id < 0) { alarm(&CB, "lock", "unknown mutex"); r = E.cint(32, 0); return true; }
      for (auto &l : locks) // order of acquisition
        if (l.second != id && mayBe1(heldV(s, l.second))) {
          order.insert({l.second, id});
          if (order.count({id, l.second})) alarm(&CB, "lock", "mutex '" + E.objName(a[0].p->t[0].obj) + "' is acquired while '" + E.objName(l.first.first) + "' is held, elsewhere they are acquired in the opposite order (deadlock)");
        }
      if (mayBe1(heldV(s, id))) { alarm(&CB, "lock", "mutex '" + E.show(a[0]) + "' may already be held by this thread (deadlock)"); }
      E.storeAt(s.mem, ghost, 4 * id, E.cint(32, 1), I32);
      r = E.cint(32, 0);
      return true;
    };
    m["pthread_mutex_unlock"] = [this, I32](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "lock");
      int id = lockId(s, a[0]);
      if (id < 0) { alarm(&CB, "lock", "unknown mutex"); r = E.cint(32, 0); return true; }
      Val h = heldV(s, id);
      if (!(h.isConst() && h.cval() == 1)) alarm(&CB, "lock", "mutex '" + E.show(a[0]) + "' may be not held when it is released");
      E.storeAt(s.mem, ghost, 4 * id, E.cint(32, 0), I32);
      r = E.cint(32, 0);
      return true;
    };
    for (const char *n : {"pthread_mutex_init", "pthread_mutex_destroy"})
      m[n] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
        int id = lockId(s, a[0]);
        if (id >= 0 && mayBe1(heldV(s, id))) alarm(&CB, "lock", "a mutex is (de)initialised while it may be held");
        if (mayBe1(flag(s, "v_in_thread"))) alarm(&CB, "lock", "a mutex is (de)initialised while threads may use it");
        r = E.cint(32, 0);
        return true;
      };
    m["v_must_unlocked"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      E.obligation(&CB, "lock");
      for (auto &l : locks) if (mayBe1(heldV(s, l.second))) alarm(&CB, "lock", "mutex '" + E.objName(l.first.first) + "' may still be held " + text(E, s, a[0]));
      return true;
    };
    m["v_threads_begin"] = [this](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      std::vector<int> ids;
      for (auto &o : s.mem.o)
        if (o.first != ghost && !shadowIds.count(o.first) && (o.second->kind == O_HEAP || o.second->kind == O_STACK) && !o.second->freed) ids.push_back(o.first);
      for (int id : ids)
        if (!shadow.count(id)) { int q = E.newObj(s.mem, O_EXT, D_ZERO, 1 << 17, "shadow"); shadow[id] = q; shadowIds.insert(q); }
        else if (!s.mem.o.count(shadow[id])) {
          int q = E.newObj(s.mem, O_EXT, D_ZERO, 1 << 17, "shadow");
          s.mem.o[shadow[id]] = s.mem.o[q]; s.mem.o.erase(q);
        }
      return true;
    };
    E.onMem = [this](Engine &E, Instruction &I, const Val &p, const Val *v, State &s) {
      if (p.k != K_PTR) return;
      if (!shadow.empty() && mayBe1(flag(s, "v_in_thread"))) cellAccess(I, p, v, s);
      if (E.quiet) return;
      bool any = false;
      for (auto &t : p.p->t) { const Obj *o = E.get(s.mem, t.obj); if (o && o->kind == O_GLOBAL) any = true; }
      if (!any || !mayBe1(flag(s, "v_in_thread"))) return;
      for (auto &t : p.p->t) {
        const Obj *o = E.get(s.mem, t.obj);
        if (!o || o->kind != O_GLOBAL || o->name.rfind("v_", 0) == 0) continue;
        auto &acc = shared[o->name][&I];
        std::set<int> h;
        for (auto &l : locks) { Val x = heldV(s, l.second); if (x.isConst() && x.cval() == 1) h.insert(l.second); }
        if (acc.first) { acc.held = h; acc.first = false; acc.I = &I; acc.stack = stackOf(E); }
        else { std::set<int> q; for (int x : acc.held) if (h.count(x)) q.insert(x); acc.held = q; }
        acc.write |= v != nullptr;
      }
    };
    // ---- output
    for (const char *n : {"printf", "vprintf", "puts", "putchar", "fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite"}) {
      std::string nm = n;
      m[nm] = [this, nm](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) {
        int st = nm == "fprintf" || nm == "vfprintf" ? 0 : nm == "fputs" || nm == "fputc" || nm == "putc" ? 1 : nm == "fwrite" ? 3 : -1;
        bool toStdout = st < 0;
        if (st >= 0 && a[st].k == K_PTR) { if (a[st].p->unk) toStdout = true; for (auto &t : a[st].p->t) if (E.objName(t.obj).rfind("v_stdout_obj", 0) == 0) toStdout = true; }
        unsigned fa = nm == "fprintf" || nm == "vfprintf" ? 1 : 0;
        std::string fmt = nm == "fwrite" ? "fwrite" : a.size() > fa && a[fa].k == K_PTR ? text(E, s, a[fa]) : "?";
        if (!expects.empty() && (nm == "printf" || nm == "fprintf")) {
          std::vector<std::string> strs;
          for (size_t k = fa + 1; k < a.size(); k++) { bool ok = false; std::string t = a[k].k == K_PTR ? E.cstr(s.mem, a[k], ok) : ""; strs.push_back(ok ? t : ""); }
          auto isNum = [&](const Val &v, double x) {
            if (v.k == K_FLT) return !v.undef && !v.nan && std::fabs(v.flo - x) < 1e-9 && std::fabs(v.fhi - x) < 1e-9;
            return !v.undef && v.isConst() && (double) v.cr.getSingleElement()->getSExtValue() == x;
          };
          for (auto &x : expects) {
            if (!x.row) {
              bool here = fmt.find(x.key) != std::string::npos;
              for (auto &t : strs) here |= t.find(x.key) != std::string::npos;
              int first = -1;
              size_t skip = 0; // arguments that belong to the text before the key
              size_t at = fmt.find(x.key);
              if (at != std::string::npos)
                for (size_t k = 0; k < at; k++) {
                  if (fmt[k] != '%') continue;
                  if (fmt[k + 1] == '%') { k++; continue; }
                  for (k++; k < fmt.size() && strchr("0123456789.+-# lhjztL*", fmt[k]); k++) if (fmt[k] == '*') skip++;
                  skip++;
                }
              for (size_t k = fa + 1 + skip; k < a.size() && first < 0; k++) if (a[k].k == K_FLT || a[k].k == K_INT) first = k;
              if (!here || first < 0) continue;
              E.obligation(&CB, "report");
              if (!E.quiet) expHit[x.key] = true;
              if (!isNum(a[first], x.num)) alarm(&CB, "report", "'" + x.key + "': prints " + E.show(a[first]) + " instead of " + std::to_string(x.num));
            } else {
              bool here = false, flt = false, id = false, tx = false;
              for (size_t k = fa + 1; k < a.size(); k++) {
                here |= strs[k - fa - 1] == x.key;
                tx |= strs[k - fa - 1] == x.text;
                flt |= a[k].k == K_FLT;
                id |= a[k].k == K_INT && isNum(a[k], x.num);
              }
              if (!here || !flt) continue;
              E.obligation(&CB, "report");
              if (!E.quiet) expHit["row " + x.key] = true;
              if (!tx) alarm(&CB, "report", "the row of test '" + x.key + "' isn't marked as '" + x.text + "'");
              if (!id) alarm(&CB, "report", "the row of test '" + x.key + "' doesn't have the identifier " + std::to_string((int) x.num));
            }
          }
        }
        if (auto *F = strKey.empty() || fmt.find(strKey) == std::string::npos ? nullptr : M.getFunction("v_on_str")) {
          for (size_t k = fa + 1; k < a.size(); k++)
            if (a[k].k == K_PTR) {
              if (!E.quiet) expHit["text of " + strKey] = true;
              auto rs = E.call(F, {a[k]}, s.mem);
              if (rs.empty()) return false;
              s.mem = rs[0].mem;
              break;
            }
        }
        if (!E.quiet) {
          json::Array av;
          for (size_t k = fa + 1; k < a.size(); k++) av.push_back(E.show(a[k]));
          prints[(toStdout ? "stdout: " : "other: ") + fmt].push_back(std::move(av));
        }
        if (toStdout) {
          Val mode = flag(s, "v_data_on_stdout");
          if (mayBe1(mode)) {
            E.obligation(&CB, "stdout");
            bool data = false;
            if (nm == "fwrite") {
              data = true;
              if (auto *F = M.getFunction("v_on_fwrite")) {
                auto rs = E.call(F, {a[0], a[1], a[2]}, s.mem);
                if (rs.empty()) return false;
                s.mem = rs[0].mem;
                r = rs[0].ret;
                for (size_t k = 1; k < rs.size(); k++) { s.mem = E.joinM(s.mem, rs[k].mem); r = E.joinV(r, rs[k].ret); }
                if (!E.quiet) prints["stdout: fwrite"];
                return true;
              }
            } else if (nm == "printf" || nm == "fprintf") {
              std::string lit;
              unsigned conv = 0;
              for (size_t k = 0; k < fmt.size(); k++) {
                if (fmt[k] != '%') { lit += fmt[k]; continue; }
                k++;
                while (k < fmt.size() && strchr("0123456789.+-# lhjzL", fmt[k])) k++;
                conv++;
              }
              data = conv == 1 && lit.find_first_not_of(" \n\r\t") == std::string::npos && a.size() == fa + 2 && (a[fa + 1].taint & T_GEN);
              if (data && a[fa + 1].k == K_FLT && M.getFunction("v_on_float")) {
                auto rs = E.call(M.getFunction("v_on_float"), {a[fa + 1]}, s.mem);
                if (!rs.empty()) { s.mem = rs[0].mem; for (size_t k = 1; k < rs.size(); k++) s.mem = E.joinM(s.mem, rs[k].mem); }
              }
            }
            if (!data) alarm(&CB, "stdout", nm + " writes \"" + fmt.substr(0, 60) + "\" to the standard output which carries the output of the generator");
          }
        }
        return E.lib(CB, nm, a, s, r, more);
      };
    }
  }
};
} // namespace

json::Object analyseScenario(Module &M, const std::vector<std::string> &fns, uint64_t budget, const std::vector<std::string> &opts) {
  json::Object out;
  Sc S(M);
  Engine &E = S.E;
  E.stepBudget = budget;
  for (auto &o : opts) {
    if (o == "--mallocfail") E.mallocMayFail = true;
    if (o == "--partition") E.partition = true;
    if (o == "--prov") E.trackProv = true;
    if (o == "--numbers") S.labelNumbers = E.forkUser = true;
    if (o == "--norel") E.relational = false;
    if (o == "--rel") E.relational = true;
  }
  E.forkRem = std::stoul(optVal(opts, "forkrem", "0"));
  E.maxPaths = std::stoul(optVal(opts, "paths", "256"));
  E.weakLimit = std::stoul(optVal(opts, "weak", "256"));
  E.bigTrip = std::stoul(optVal(opts, "trip", "3000"));
  E.loopBudget = std::stoull(optVal(opts, "loop", "200000"));
  E.nestBudget = std::stoull(optVal(opts, "nest", "5000"));
  S.setup();
  std::set<std::string> sums;
  { std::string cur; for (char c : optVal(opts, "opaque") + ",") { if (c == ',') { if (!cur.empty()) sums.insert(cur); cur.clear(); } else cur += c; } }
  for (auto &n : sums) // functions replaced by "reads and writes anything reachable, returns anything"
    E.models[n] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      uint32_t t = 0; bool u = false;
      for (auto &x : a) { t |= x.taint; u |= x.undef; }
      for (auto &x : a) if (x.k == K_PTR) E.havocReach(s.mem, x, t);
      if (!CB.getType()->isVoidTy()) { r = E.top(CB.getType(), t); r.undef = u; }
      return true;
    };
  for (auto &o : opts) { // functions that return a known number
    if (o.rfind("--ret", 0) != 0 || o.size() < 8 || o[6] != '=') continue;
    int v = o[5] - '0';
    E.models[o.substr(7)] = [v](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) { if (CB.getType()->isIntegerTy()) r = E.cint(CB.getType()->getIntegerBitWidth(), v); return true; };
  }
  for (auto &o : opts) // calls of one function go to another one
    if (o.rfind("--redirect=", 0) == 0) { size_t q = o.find(':'); E.redirect[o.substr(11, q - 11)] = o.substr(q + 1); }
  json::Array per;
  for (auto &fn : fns) {
    json::Object so{{"name", fn}};
    Function *F = M.getFunction(fn);
    if (!F || F->isDeclaration()) { so["error"] = fn + " is not defined"; per.push_back(std::move(so)); continue; }
    E.ctx = fn;
    E.steps = 0;
    E.aborted = false;
    Mem mem;
    S.ghost = E.newObj(mem, O_EXT, D_ZERO, 4096, "locks");
    S.locks.clear();
    S.order.clear();
    S.shadow.clear();
    S.shadowIds.clear();
    S.shared.clear();
    S.reached.clear();
    S.prints.clear();
    S.expects.clear();
    S.strKey.clear();
    S.expHit.clear();
    S.nums.clear();
    auto rs = E.call(F, {}, mem);
    if (E.aborted) so["error"] = E.abortMsg;
    for (auto &k : S.nums)
      if (k.second.lo != k.second.wantLo || k.second.hi != k.second.wantHi)
        S.alarm(k.second.at, "must", k.first + ": numbers from " + std::to_string(k.second.lo) + " to " + std::to_string(k.second.hi) + " are accepted, the test is defined for " + std::to_string(k.second.wantLo) + ".." + std::to_string(k.second.wantHi));
    so["returns"] = (int64_t) rs.size();
    json::Object rc;
    for (auto &k : S.reached) rc[k.first] = k.second;
    so["reached"] = std::move(rc);
    json::Object pr;
    for (auto &k : S.prints) pr[k.first] = std::move(k.second);
    so["prints"] = std::move(pr);
    json::Array miss;
    for (auto &k : S.expHit) if (!k.second) miss.push_back(k.first);
    so["not_printed"] = std::move(miss);
    json::Array sh;
    for (auto &k : S.shared) {
      bool wr = false;
      std::set<int> common;
      bool f = true;
      for (auto &q : k.second) { wr |= q.second.write; if (f) { common = q.second.held; f = false; } else { std::set<int> x; for (int y : common) if (q.second.held.count(y)) x.insert(y); common = x; } }
      json::Object o{{"object", k.first}, {"written", wr}, {"locks", (int64_t) common.size()}, {"accesses", (int64_t) k.second.size()}};
      if (wr && common.empty())
        for (auto &q : k.second) {
          if (!q.second.held.empty() && k.second.size() > 1) continue; // report the unprotected accesses
          std::string f; unsigned l; locOf(q.second.I, f, l);
          S.races.emplace(k.first + f + std::to_string(l), json::Object{{"kind", "race"}, {"func", q.second.I->getFunction()->getName().str()}, {"file", f}, {"line", (int64_t) l}, {"ctx", fn}, {"stack", q.second.stack},
                                                                       {"msg", std::string(q.second.write ? "writes" : "reads") + " '" + k.first + "', which threads share, without the lock that the other accesses hold"}});
        }
      sh.push_back(std::move(o));
    }
    so["shared"] = std::move(sh);
    so["steps"] = (int64_t) E.steps;
    per.push_back(std::move(so));
  }
  out["scenarios"] = std::move(per);
  json::Array fi;
  for (auto &a : E.alarms) fi.push_back(json::Object{{"kind", a.second.kind}, {"func", a.second.func}, {"file", a.second.file}, {"line", (int64_t) a.second.line}, {"msg", a.second.msg}, {"ctx", a.second.ctx}, {"stack", a.second.stack}});
  for (auto &g : S.races) fi.push_back(std::move(g.second));
  out["findings"] = std::move(fi);
  json::Array um;
  for (auto &u : E.unmodelled) um.push_back(u);
  out["unmodelled"] = std::move(um);
  out["obligations"] = (int64_t) E.oblig.size();
  out["functions"] = (int64_t) E.functions.size();
  out["instructions"] = (int64_t) E.visited.size();
  out["fixpoints"] = (int64_t) E.fixpoints;
  return out;
}
