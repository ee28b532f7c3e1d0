// Analysis of the core program (src/*.c, apps/smokerand.c), linked into one module.
#include "ai.h"
#include "common.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <cmath>
#include <cstring>
using namespace llvm;
using namespace ai;

namespace {
struct Core {
  Module &M;
  Engine E;
  std::map<std::string, std::pair<uint64_t, uint64_t>> api, gis, gst, tr, td, tb;
  Type *P, *I32, *I64, *D;
  Core(Module &M) : M(M), E((prepare(M), M)) {
    P = PointerType::get(M.getContext(), 0);
    I32 = Type::getInt32Ty(M.getContext());
    I64 = Type::getInt64Ty(M.getContext());
    D = Type::getDoubleTy(M.getContext());
    api = diStruct(M, "CallerAPI");
    gis = diStruct(M, "GeneratorInfo_");
    gst = diStruct(M, "GeneratorState");
    tr = diStruct(M, "TestResults");
    td = diStruct(M, "TestDescription");
    tb = diStruct(M, "TestsBattery");
  }
  bool ok() { return !api.empty() && !gis.empty() && !gst.empty() && !tr.empty() && !td.empty() && !tb.empty(); }
  int makeApi(Mem &mem) {
    int intf = E.newObj(mem, O_EXT, D_TOP, api.at("").first, "CallerAPI");
    for (auto &f : api)
      if (!f.first.empty()) E.storeAt(mem, intf, f.second.first, E.ptrTo(E.pseudoFunc("api." + f.first, mem)), P);
    E.models["api.get_seed64"] = [](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.topInt(64, T_SEED); return true; };
    E.models["api.get_seed32"] = [](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.topInt(32, T_SEED); return true; };
    int ps = E.newObj(mem, O_EXT, D_TOP, 128, "--param string");
    E.models["api.get_param"] = [ps](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.ptrTo(ps); return true; };
    for (const char *n : {"malloc", "free", "printf", "snprintf", "strcmp"}) {
      std::string nm = n;
      E.models["api." + nm] = [nm](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) { return E.lib(CB, nm, a, s, r, more); };
    }
    E.models["api.get_ram_info"] = [](Engine &E, CallBase &, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { E.havocReach(s.mem, a[0], T_RAM); r = E.topInt(32, T_RAM); return true; };
    return intf;
  }
  int stateObj = -1;
  int makeGen(Mem &mem, unsigned nbits) {
    int gi = E.newObj(mem, O_EXT, D_TOP, gis.at("").first, "GeneratorInfo");
    stateObj = E.newObj(mem, O_EXT, D_TOP, 8, "generator state");
    int nm = E.newObj(mem, O_EXT, D_TOP, 64, "generator name");
    for (const char *f : {"create", "free", "get_bits", "get_sum", "self_test"})
      E.storeAt(mem, gi, gis.at(f).first, E.ptrTo(E.pseudoFunc(std::string("gen.") + f, mem)), P);
    E.storeAt(mem, gi, gis.at("name").first, E.ptrTo(nm), P);
    E.storeAt(mem, gi, gis.at("description").first, E.ptrTo(nm), P);
    E.storeAt(mem, gi, gis.at("parent").first, E.nullPtr(), P);
    E.storeAt(mem, gi, gis.at("nbits").first, E.cint(32, nbits), I32);
    E.models["gen.get_bits"] = [nbits](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.range(64, 0, nbits == 64 ? ~0ull : ((1ull << nbits) - 1)); r.taint = T_GEN; return true; };
    E.models["gen.get_sum"] = [](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.topInt(64, T_GEN); return true; };
    E.models["gen.create"] = [this](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.ptrTo(stateObj); return true; };
    E.models["gen.free"] = [](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { return true; };
    E.models["gen.self_test"] = [](Engine &E, CallBase &, std::vector<Val> &, State &, Val &r, std::vector<State> &) { r = E.topInt(32, T_EXT); return true; };
    return gi;
  }
};

json::Object alarmJ(const Alarm &a) {
  return json::Object{{"kind", a.kind}, {"func", a.func}, {"file", a.file}, {"line", (int64_t) a.line}, {"msg", a.msg}, {"ctx", a.ctx}, {"stack", a.stack}};
}
std::string optVal(const std::vector<std::string> &opts, const std::string &k, const std::string &d = "") {
  for (auto &o : opts)
    if (o.rfind("--" + k + "=", 0) == 0) return o.substr(k.size() + 3);
  return d;
}
// Functions over scalars that return a floating point value: their numerical
// result is not analysed (any value, including NaN).
void opaqueMath(Engine &E, Module &M) {
  for (auto &F : M) {
    auto *SP = F.getSubprogram();
    if (F.isDeclaration() || !SP || !SP->getFilename().ends_with("specfuncs.c") || !F.getReturnType()->isFloatingPointTy()) continue;
    bool scalar = true;
    for (auto &A : F.args()) if (A.getType()->isPointerTy()) scalar = false;
    if (!scalar) continue;
    E.models[F.getName().str()] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &r, std::vector<State> &) {
      r = E.top(CB.getType());
      for (auto &x : a) { r.taint |= x.taint; r.undef |= x.undef; }
      return true;
    };
  }
}
} // namespace

// battery FUNCTION: every test of the battery is analysed for any generator output
json::Object analyseBattery(Module &M, const std::string &fn, uint64_t budget, const std::vector<std::string> &opts) {
  json::Object out;
  out["battery"] = fn;
  auto t0 = std::chrono::steady_clock::now();
  Core C(M);
  Engine &E = C.E;
  E.stepBudget = budget;
  unsigned nbits = std::stoul(optVal(opts, "nbits", "64"));
  bool listOnly = false;
  for (auto &o : opts) if (o == "--list") listOnly = true;
  int only = std::stoi(optVal(opts, "entry", "-1"));
  E.mallocMayFail = true;
  E.weakLimit = 256;
  E.relational = true;
  E.bigTrip = std::stoul(optVal(opts, "trip", "300"));
  E.hard1 = std::stoi(optVal(opts, "hard1", "4"));
  E.loopBudget = std::stoull(optVal(opts, "loop", "200000"));
  E.nestBudget = std::stoull(optVal(opts, "nest", "5000"));
  E.fewMult = std::stoul(optVal(opts, "few", "100"));
  E.guessMax = std::stoul(optVal(opts, "guess", "12"));
  E.nestCap = std::stoul(optVal(opts, "nestcap", "72"));
  E.freeIters = std::stoul(optVal(opts, "free", "0"));
  E.hard2 = std::stoi(optVal(opts, "hard2", "8"));
  auto fail = [&](const std::string &m) { out["error"] = m; return std::move(out); };
  if (!C.ok()) return fail("debug information of the core types not found");
  Function *F = M.getFunction(fn);
  if (!F || F->isDeclaration()) return fail(fn + " is not defined");
  Mem mem;
  int intf = C.makeApi(mem), gi = C.makeGen(mem, nbits);
  int bo = E.newObj(mem, O_EXT, D_TOP, 64, "BatteryOptions");
  struct Cap { Mem mem; Val bat; };
  std::vector<Cap> caps;
  E.models["__show"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &, std::vector<State> &) {
    std::string f; unsigned l; locOf(&CB, f, l);
    errs() << (E.quiet ? "  (quiet) " : "") << "line " << l << ":";
    for (auto &v : a) errs() << " " << E.show(v);
    errs() << "\n";
    return true;
  };
  E.models["TestsBattery_run"] = [&](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
    if (!E.quiet) caps.push_back({s.mem, a[0]});
    r = E.topInt(32);
    return true;
  };
  for (const char *s : {"fastsort64", "radixsort64", "quicksort64"})
    E.models[s] = [s](Engine &E, CallBase &CB, std::vector<Val> &a, State &st, Val &r, std::vector<State> &) {
      unsigned k = a.size() == 3 ? 1 : 0;
      Val n = E.cint(64, 8);
      Val len = a[k + 1];
      Val b = E.topInt(64);
      b.cr = len.cr.multiply(ConstantRange(APInt(64, 8)));
      b = E.normI(b);
      E.checkAccess(st.mem, a[k], b, true, &CB, s);
      E.havocRange(st.mem, a[k], b, E.topInt(8));
      return true;
    };
  E.models["qsort"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &st, Val &r, std::vector<State> &) {
    Val b = E.topInt(64);
    b.cr = a[1].cr.multiply(a[2].cr);
    b = E.normI(b);
    E.checkAccess(st.mem, a[0], b, true, &CB, "qsort");
    E.havocRange(st.mem, a[0], b, E.topInt(8));
    return true;
  };
  E.models["radixsort32"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &st, Val &r, std::vector<State> &) {
    Val b = E.topInt(64);
    b.cr = a[1].cr.multiply(ConstantRange(APInt(64, 4)));
    b = E.normI(b);
    E.checkAccess(st.mem, a[0], b, true, &CB, "radixsort32");
    E.havocRange(st.mem, a[0], b, E.topInt(8));
    return true;
  };
  std::map<std::string, json::Object> gw;
  E.onMem = [&](Engine &E, Instruction &I, const Val &p, const Val *v, State &s) {
    if (!v || E.quiet || p.k != K_PTR) return;
    for (auto &t : p.p->t) {
      const Obj *o = E.get(s.mem, t.obj);
      if (!o || o->kind != O_GLOBAL) continue;
      std::string f; unsigned l; locOf(&I, f, l);
      std::string st;
      for (auto *F : E.callStack) st += (st.empty() ? "" : " ") + F->getName().str();
      gw.emplace(f + std::to_string(l) + o->name, json::Object{{"kind", "global-write"}, {"func", I.getFunction()->getName().str()}, {"file", f}, {"line", (int64_t) l}, {"msg", "writes static object '" + o->name + "'"}, {"ctx", E.ctx}, {"stack", st}});
    }
  };
  opaqueMath(E, M);
  E.ctx = fn;
  auto rs = E.call(F, {E.ptrTo(gi), E.ptrTo(intf), E.ptrTo(bo)}, mem);
  if (E.aborted) return fail(E.abortMsg);
  json::Array tests;
  for (auto &c : caps) {
    Mem &m = c.mem;
    auto ld = [&](const Val &base, uint64_t off, Type *T) {
      if (base.k != K_PTR || base.p->t.size() != 1 || !base.p->t[0].off.isSingleElement()) return E.unkPtr();
      return E.loadAt(m, base.p->t[0].obj, base.p->t[0].off.getSingleElement()->getSExtValue() + off, T);
    };
    Val tests_p = ld(c.bat, C.tb.at("tests").first, C.P);
    uint64_t esz = C.td.at("").first;
    for (int i = 0; i < 400; i++) {
      Val run = ld(tests_p, i * esz + C.td.at("run").first, C.P);
      Val nameV = ld(tests_p, i * esz + C.td.at("name").first, C.P);
      Val ud = ld(tests_p, i * esz + C.td.at("udata").first, C.P);
      if (run.k == K_PTR && run.p->t.empty() && run.p->null && !run.p->unk) break;
      if (only >= 0 && i != only) continue;
      bool okn, unk;
      std::vector<std::string> ps;
      std::string name = E.cstr(m, nameV, okn);
      auto t1 = std::chrono::steady_clock::now();
      json::Object to{{"index", i}, {"name", name}, {"udata", E.show(ud)}};
      auto fs = E.funcTargets(run, m, unk, ps);
      if (fs.size() != 1 || unk) { to["error"] = "test function is " + E.show(run); tests.push_back(std::move(to)); continue; }
      Function *T = fs[0];
      to["func"] = T->getName().str();
      if (T->getSubprogram()) { to["file"] = T->getSubprogram()->getFilename().str(); to["line"] = (int64_t) T->getSubprogram()->getLine(); }
      {
        std::string od;
        if (ud.k == K_PTR) for (auto &t : ud.p->t) {
          const Obj *o = E.get(m, t.obj);
          if (!o || o->kind != O_GLOBAL) { od += "?" + E.show(ud); continue; }
          uint64_t n = o->size.isSingleElement() ? o->size.getSingleElement()->getZExtValue() : 0;
          for (uint64_t k = 0; k + 4 <= n && k < 256; k += 4) od += E.show(E.loadAt(m, t.obj, k, C.I32)) + ",";
        }
        to["options"] = od;
      }
      if (listOnly) { tests.push_back(std::move(to)); continue; }
      E.ctx = fn + "/" + name;
      E.steps = 0;
      Mem tm = m;
      int gs = E.newObj(tm, O_EXT, D_UNINIT, C.gst.at("").first, "GeneratorState");
      E.storeAt(tm, gs, C.gst.at("gi").first, E.ptrTo(gi), C.P);
      E.storeAt(tm, gs, C.gst.at("state").first, E.ptrTo(C.stateObj), C.P);
      E.storeAt(tm, gs, C.gst.at("intf").first, E.ptrTo(intf), C.P);
      int res = E.newObj(tm, O_STACK, D_UNINIT, C.tr.at("").first, "TestResults");
      std::set<int> before;
      for (auto &o : tm.o) before.insert(o.first);
      std::vector<Val> args;
      bool sret = T->arg_size() == 3;
      if (sret) args.push_back(E.ptrTo(res));
      args.push_back(E.ptrTo(gs));
      args.push_back(ud);
      auto rr = E.call(T, args, tm);
      if (E.aborted) { to["error"] = E.abortMsg; E.aborted = false; tests.push_back(std::move(to)); continue; }
      json::Array rets;
      for (auto &r : rr) {
        json::Object ro;
        for (const char *f : {"p", "alpha", "x", "penalty", "name", "thread_id"}) {
          bool ptr = !strcmp(f, "name"), in = !strcmp(f, "thread_id");
          if (!C.tr.count(f)) continue;
          Val v = E.loadAt(r.mem, res, C.tr.at(f).first, ptr ? C.P : in ? C.I32 : C.D);
          json::Object fo{{"v", E.show(v)}, {"undef", v.undef}, {"taint", (int64_t) v.taint}};
          if (v.k == K_FLT) { fo["nan"] = v.nan; fo["any"] = v.flo <= v.fhi; if (v.flo <= v.fhi && std::isfinite(v.flo) && std::isfinite(v.fhi)) { fo["lo"] = v.flo; fo["hi"] = v.fhi; } }
          if (v.k == K_PTR) { fo["null"] = v.p->null; fo["unk"] = v.p->unk; bool okn; fo["str"] = E.cstr(r.mem, v, okn); fo["ok"] = okn; }
          ro[f] = std::move(fo);
        }
        json::Array lk;
        for (auto &o : r.mem.o)
          if (o.second->kind == O_HEAP && !o.second->freed && !o.second->maybeFreed && !before.count(o.first)) lk.push_back(o.second->name);
        ro["leaks"] = std::move(lk);
        std::string ff; unsigned ll;
        if (r.at) { locOf(r.at, ff, ll); ro["file"] = ff; ro["line"] = (int64_t) ll; }
        rets.push_back(std::move(ro));
      }
      to["rets"] = std::move(rets);
      to["ms"] = (int64_t) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t1).count();
      tests.push_back(std::move(to));
    }
  }
  out["tests"] = std::move(tests);
  json::Array fi;
  for (auto &a : E.alarms) fi.push_back(alarmJ(a.second));
  for (auto &g : gw) fi.push_back(std::move(g.second));
  out["findings"] = std::move(fi);
  json::Array um;
  for (auto &u : E.unmodelled) um.push_back(u);
  out["unmodelled"] = std::move(um);
  out["obligations"] = (int64_t) E.oblig.size();
  out["functions"] = (int64_t) E.functions.size();
  out["instructions"] = (int64_t) E.visited.size();
  out["fixpoints"] = (int64_t) E.fixpoints;
  out["ms"] = (int64_t) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
  return out;
}

// call FUNCTION ARGSPEC...: one function on arbitrary arguments.
//   i:LO:HI  integer   b:SIZE:top|zero|uninit  buffer   s:TEXT  string   n  null
json::Object analyseCall(Module &M, const std::string &fn, const std::vector<std::string> &specs, uint64_t budget, const std::vector<std::string> &opts) {
  json::Object out;
  prepare(M);
  Engine E(M);
  E.stepBudget = budget;
  E.mallocMayFail = true;
  E.relational = true;
  E.weakLimit = 256;
  Function *F = M.getFunction(fn);
  if (!F || F->isDeclaration()) { out["error"] = fn + " is not defined"; return out; }
  E.models["__show"] = [](Engine &E, CallBase &CB, std::vector<Val> &a, State &, Val &, std::vector<State> &) {
    std::string f; unsigned l; locOf(&CB, f, l);
    errs() << (E.quiet ? "  (quiet) " : "") << "line " << l << ":";
    for (auto &v : a) errs() << " " << E.show(v);
    errs() << "\n";
    return true;
  };
  Mem mem;
  std::vector<Val> args;
  for (unsigned i = 0; i < F->arg_size(); i++) {
    std::vector<std::string> p{""};
    for (char c : specs.at(i)) if (c == ':') p.push_back(""); else p.back() += c;
    Type *T = F->getArg(i)->getType();
    if (p[0] == "i") args.push_back(E.range(T->getIntegerBitWidth(), std::stoull(p.at(1)), std::stoull(p.at(2))));
    else if (p[0] == "b") args.push_back(E.ptrTo(E.newObj(mem, O_EXT, p.at(2) == "top" ? D_TOP : p.at(2) == "zero" ? D_ZERO : D_UNINIT, std::stoull(p.at(1)), "arg" + std::to_string(i))));
    else if (p[0] == "n") args.push_back(E.nullPtr());
    else args.push_back(E.top(T));
  }
  E.ctx = fn;
  auto rs = E.call(F, args, mem);
  if (E.aborted) out["error"] = E.abortMsg;
  json::Array rets;
  for (auto &r : rs) rets.push_back(E.show(r.ret));
  out["rets"] = std::move(rets);
  json::Array fi;
  for (auto &a : E.alarms) fi.push_back(alarmJ(a.second));
  out["findings"] = std::move(fi);
  return out;
}
