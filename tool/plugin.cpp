// Analysis of PRNG plugins (generators/*.c): gen_getinfo -> create -> get_bits*
#include "ai.h"
#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
using namespace llvm;
using namespace ai;

struct Variant {
  std::string name, trace;
  std::vector<std::string> traceV;
  std::vector<std::pair<std::string, std::string>> pending;
  bool unknown = false;
  uint64_t nbits = 0;
  Val create, freef, getbits, getsum, selftest, nbitsV;
  Mem mem;
};

static json::Object alarmJ(const Alarm &a) {
  return json::Object{{"kind", a.kind}, {"func", a.func}, {"file", a.file}, {"line", (int64_t) a.line}, {"msg", a.msg}, {"ctx", a.ctx}, {"stack", a.stack}};
}

json::Object analysePlugin(Module &M, const std::string &path, uint64_t budget, bool verbose, const std::vector<std::string> &opts) {
  json::Object out;
  json::Array findings;
  out["file"] = path;
  auto t0 = std::chrono::steady_clock::now();
  prepare(M);
  Engine E(M);
  E.stepBudget = budget;
  auto add = [&](const std::string &rule, const std::string &func, const std::string &file, unsigned line, const std::string &msg, const std::string &ctx) {
    findings.push_back(json::Object{{"kind", rule}, {"func", func}, {"file", file}, {"line", (int64_t) line}, {"msg", msg}, {"ctx", ctx}});
  };
  auto fail = [&](const std::string &m) { out["error"] = m; out["findings"] = std::move(findings); return std::move(out); };
  Function *GI = M.getFunction("gen_getinfo");
  if (!GI || GI->isDeclaration()) return fail("gen_getinfo not defined");
  auto api = diStruct(M, "CallerAPI"), gis = diStruct(M, "GeneratorInfo_");
  if (api.empty() || gis.empty()) return fail("CallerAPI/GeneratorInfo layout not found in debug info");
  Mem mem;
  uint64_t apiSize = api.at("").first, giSize = gis.at("").first;
  int intf = E.newObj(mem, O_EXT, D_TOP, apiSize, "CallerAPI");
  for (auto &f : api)
    if (!f.first.empty()) E.storeAt(mem, intf, f.second.first, E.ptrTo(E.pseudoFunc("api." + f.first, mem)), PointerType::get(M.getContext(), 0));
  int paramStr = E.newObj(mem, O_EXT, D_TOP, 1 << 16, "--param string");
  E.mut(mem, paramStr)->deftaint = T_PARAM;
  int phase = 0; // 1 getinfo 2 create 3 get_bits 4 get_sum 5 free 6 selftest
  static const char *phn[] = {"", "gen_getinfo", "create", "get_bits", "get_sum", "free", "self_test"};
  std::string vname;
  uint64_t seedCalls = 0, apiCalls = 0;
  auto site = [&](CallBase &CB, const std::string &rule, const std::string &msg) {
    if (E.quiet) return;
    std::string f; unsigned l;
    locOf(&CB, f, l);
    add(rule, CB.getFunction()->getName().str(), f, l, msg, vname + "/" + phn[phase]);
  };
  auto noApi = [&](CallBase &CB, const std::string &what) {
    apiCalls++;
    if (phase == 3 || phase == 4) site(CB, "api-in-output", "intf->" + what + " is called while producing output");
  };
  E.models["api.get_seed64"] = [&](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { noApi(CB, "get_seed64"); seedCalls++; r = E.topInt(64, T_SEED); return true; };
  E.models["api.get_seed32"] = [&](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { noApi(CB, "get_seed32"); seedCalls++; r = E.topInt(32, T_SEED); return true; };
  E.models["api.get_param"] = [&](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { noApi(CB, "get_param"); r = E.ptrTo(paramStr); r.taint = T_PARAM; return true; };
  auto lib = [&](const char *nm) {
    return [&, nm](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &more) {
      noApi(CB, nm);
      return E.lib(CB, nm, a, s, r, more);
    };
  };
  for (const char *n : {"malloc", "free", "printf", "snprintf", "strcmp"}) E.models[std::string("api.") + n] = lib(n);
  E.models["api.get_ram_info"] = [&](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) { noApi(CB, "get_ram_info"); E.havocReach(s.mem, a[0], T_RAM); r = E.topInt(32, T_RAM); return true; };
  // --summary=FUNCTION:ARG:BYTES - the call fills BYTES bytes at its argument
  // with unknown initialised data (its body is not analysed)
  for (auto &o : opts) {
    if (o.rfind("--summary=", 0)) continue;
    std::string t = o.substr(10);
    size_t p1 = t.find(':'), p2 = t.find(':', p1 + 1);
    std::string fn = t.substr(0, p1);
    unsigned arg = std::stoul(t.substr(p1 + 1, p2 - p1 - 1));
    uint64_t nb = std::stoull(t.substr(p2 + 1));
    if (!M.getFunction(fn) || M.getFunction(fn)->isDeclaration()) continue; // renamed: analysed in full
    E.models[fn] = [arg, nb](Engine &E, CallBase &CB, std::vector<Val> &a, State &s, Val &r, std::vector<State> &) {
      if (arg < a.size()) { E.checkAccess(s.mem, a[arg], E.cint(64, nb), true, &CB, "summary"); E.havocRange(s.mem, a[arg], E.cint(64, nb), E.topInt(8)); }
      return true;
    };
  }
  out["unknownParamPaths"] = 0;
  std::set<std::string> gw;
  E.onMem = [&](Engine &E, Instruction &I, const Val &p, const Val *v, State &s) {
    if (!v || E.quiet || p.k != K_PTR || phase < 2) return;
    for (auto &t : p.p->t) {
      const Obj *o = E.get(s.mem, t.obj);
      if (!o || o->kind != O_GLOBAL) continue;
      std::string f; unsigned l; locOf(&I, f, l);
      if (gw.insert(f + std::to_string(l) + o->name).second) add("global-write", I.getFunction()->getName().str(), f, l, "writes static object '" + o->name + "'", vname + "/" + phn[phase]);
    }
  };
  // ---- gen_getinfo
  phase = 1;
  E.partition = true;
  E.maxPaths = 400;
  E.ctx = "gen_getinfo";
  int gi = E.newObj(mem, O_EXT, D_UNINIT, giSize, "GeneratorInfo");
  auto rets = E.call(GI, {E.ptrTo(gi), E.ptrTo(intf)}, mem);
  if (E.aborted) return fail(E.abortMsg);
  auto fld = [&](Mem &m, const char *n) {
    auto it = gis.find(n);
    if (it == gis.end()) return E.unkPtr();
    Type *T = std::string(n) == "nbits" ? (Type *) Type::getInt32Ty(M.getContext()) : (Type *) PointerType::get(M.getContext(), 0);
    return E.loadAt(m, gi, it->second.first, T);
  };
  std::vector<Variant> vars;
  std::set<std::string> seen;
  unsigned okPaths = 0, badPaths = 0;
  json::Array jv;
  auto giLoc = [&](const std::string &rule, const std::string &msg, const std::string &ctx) {
    auto *SP = GI->getSubprogram();
    add(rule, "gen_getinfo", SP ? SP->getFilename().str() : path, SP ? SP->getLine() : 0, msg, ctx);
  };
  bool usesParam = false, unknownSeen = false;
  for (auto &r : rets) {
    std::string tr;
    bool anyEq = false, anyNe = false;
    for (auto &x : r.trace) { tr += x + ";"; if (x[0] == '=') anyEq = true; if (x[0] == '!') anyNe = true; }
    bool zero = r.ret.k == K_INT && r.ret.isConst() && r.ret.cval() == 0;
    if (anyEq || anyNe) usesParam = true;
    bool unknown = !anyEq && anyNe;
    if (unknown) unknownSeen = true;
    if (zero) { badPaths++; continue; }
    okPaths++;
    if (r.ret.undef) giLoc("gi-ret", "gen_getinfo returns an uninitialised value", tr);
    Variant v;
    v.trace = tr;
    v.traceV = r.trace;
    v.unknown = unknown;
    Val name = fld(r.mem, "name");
    bool ok;
    v.name = E.cstr(r.mem, name, ok);
    if (!ok && name.k == K_PTR && !name.undef && !name.p->unk && !name.p->null && !name.p->t.empty()) {
      // a name composed at run time in a static buffer
      bool allG = true;
      for (auto &t : name.p->t) { const Obj *o = E.get(r.mem, t.obj); if (!o || o->kind != O_GLOBAL) allG = false; }
      if (allG) { ok = true; v.name = "<composed name>"; }
    }
    if (!ok) giLoc("gi-field", "GeneratorInfo.name is not a string constant on a success path: " + E.show(name), tr);
    v.nbitsV = fld(r.mem, "nbits");
    if (!v.nbitsV.isConst() || (v.nbitsV.cval() != 32 && v.nbitsV.cval() != 64)) giLoc("gi-nbits", "GeneratorInfo.nbits is " + E.show(v.nbitsV) + " on a success path (must be 32 or 64)", v.name + " " + tr);
    else v.nbits = v.nbitsV.cval();
    v.create = fld(r.mem, "create");
    v.freef = fld(r.mem, "free");
    v.getbits = fld(r.mem, "get_bits");
    v.getsum = fld(r.mem, "get_sum");
    v.selftest = fld(r.mem, "self_test");
    Val desc = fld(r.mem, "description"), parent = fld(r.mem, "parent");
    auto giField = [&](const std::string &, const std::string &msg, const std::string &ctx) { v.pending.push_back({msg, ctx}); };
    auto isFn = [&](const Val &x, bool nullOk) {
      if (x.k != K_PTR || x.undef || x.p->unk || (x.p->null && !nullOk)) return false;
      for (auto &t : x.p->t) if (!E.funcOf(t.obj)) return false;
      return !x.p->t.empty() || nullOk;
    };
    if (!isFn(v.create, false)) giLoc("gi-field", "GeneratorInfo.create is " + E.show(v.create) + " on a success path", v.name + " " + tr);
    if (!isFn(v.freef, false)) giField("gi-field", "GeneratorInfo.free is " + E.show(v.freef) + " on a success path", v.name + " " + tr);
    if (!isFn(v.getbits, false)) giField("gi-field", "GeneratorInfo.get_bits is " + E.show(v.getbits) + " on a success path", v.name + " " + tr);
    if (!isFn(v.getsum, true)) giField("gi-field", "GeneratorInfo.get_sum is " + E.show(v.getsum) + " on a success path", v.name + " " + tr);
    if (!isFn(v.selftest, true)) giField("gi-field", "GeneratorInfo.self_test is " + E.show(v.selftest) + " on a success path", v.name + " " + tr);
    if (desc.undef) giField("gi-field", "GeneratorInfo.description is not set on a success path", v.name + " " + tr);
    std::string key = v.name + E.show(v.nbitsV) + E.show(v.create) + E.show(v.freef) + E.show(v.getbits) + E.show(v.getsum) + E.show(v.selftest) + (unknown ? "?" : "");
    if (!seen.insert(key).second) continue;
    v.mem = std::move(r.mem);
    jv.push_back(json::Object{{"name", v.name}, {"nbits", (int64_t) v.nbits}, {"path", tr}, {"get_bits", E.show(v.getbits)}, {"get_sum", E.show(v.getsum)}, {"self_test", E.show(v.selftest)}, {"create", E.show(v.create)}, {"free", E.show(v.freef)}});
    vars.push_back(std::move(v));
  }
  if (okPaths == 0) return fail("no success path of gen_getinfo found");
  out["usesParam"] = usesParam;
  out["unknownParamPaths"] = unknownSeen;
  out["okPaths"] = (int64_t) okPaths;
  out["badPaths"] = (int64_t) badPaths;
  json::Array jsum;
  std::set<std::pair<Function *, Function *>> sumSeen;
  int64_t creates = 0, outputs = 0, states = 0;
  for (auto &v : vars) {
    vname = v.name;
    phase = 2;
    E.partition = true;
    E.maxPaths = 12;
    E.peel = 2;
    E.steps = 0;
    E.ctx = v.name + "/create";
    bool unk;
    std::vector<std::string> ps;
    struct St { Mem first; Val second; std::string trace; };
    std::vector<St> sts;
    std::map<std::pair<std::string, const Function *>, std::pair<bool, bool>> seedInfo;
    std::set<int> before;
    for (auto &o : v.mem.o) before.insert(o.first);
    for (auto *C : E.funcTargets(v.create, v.mem, unk, ps)) {
      auto rs = E.call(C, {E.ptrTo(gi), E.ptrTo(intf)}, v.mem, v.traceV);
      if (E.aborted) return fail(E.abortMsg);
      bool anyOk = false;
      for (auto &r : rs) {
        if (r.ret.k == K_PTR && r.ret.p->t.empty() && r.ret.p->null) continue; // documented failure
        anyOk = true;
        creates++;
        if (r.ret.k != K_PTR || r.ret.undef || r.ret.p->unk || r.ret.p->null) {
          std::string f; unsigned l; locOf(r.at, f, l);
          add("create-ret", C->getName().str(), f, l, "create() returns " + E.show(r.ret), v.name);
          continue;
        }
        std::string tr;
        for (auto &x : r.trace) tr += x + ";";
        sts.push_back({std::move(r.mem), r.ret, tr});
      }
      if (!anyOk && !v.unknown) giLoc("create-ret", "create() never succeeds", v.name);
      if (anyOk && v.unknown) giLoc("param-accept", "an unknown --param value is accepted (gen_getinfo succeeds and so does create)", v.name);
    }
    if (!sts.empty()) for (auto &x : v.pending) giLoc("gi-field", x.first, x.second);
    // merge if too many
    while (sts.size() > 6) {
      auto b = std::move(sts.back());
      sts.pop_back();
      sts.back().first = E.joinM(sts.back().first, b.first);
      sts.back().second = E.joinV(sts.back().second, b.second);
    }
    for (auto &st : sts) {
      states++;
      // seeding: some heap cell must depend on the seed
      bool seeded = false;
      int cells = 0;
      for (auto &o : st.first.o) {
        if (before.count(o.first) || o.second->kind != O_HEAP) continue;
        for (auto &c : o.second->cells) { cells++; if (c.second.v.taint & T_SEED) seeded = true; }
        if (o.second->deftaint & T_SEED) seeded = true;
      }
      bool unk2;
      phase = 3;
      E.partition = false;
      E.peel = 2;
      for (auto *G : E.funcTargets(v.getbits, st.first, unk2, ps)) {
        E.ctx = v.name + "/get_bits";
        auto step = [&](const Mem &m, Val &ret, bool &dead) {
          E.steps = 0;
          auto rs = E.call(G, {st.second}, m);
          dead = rs.empty();
          if (dead) return m;
          ret = rs[0].ret;
          Mem r = rs[0].mem;
          for (size_t i = 1; i < rs.size(); i++) { r = E.joinM(r, rs[i].mem); ret = E.joinV(ret, rs[i].ret); }
          return r;
        };
        Val ret, ret0;
        bool dead = false;
        // first call: from the state left by create()
        Mem s1 = step(st.first, ret0, dead);
        if (E.aborted) return fail(E.abortMsg);
        Mem inv = s1;
        E.quiet++;
        int it = 0;
        for (; !dead; it++) {
          Mem n = step(inv, ret, dead);
          if (E.aborted) return fail(E.abortMsg);
          if (dead) break;
          if (E.leqM(n, inv)) break;
          Mem j = E.joinM(inv, n);
          E.hardWiden = it > 60 ? 2 : it > 12 ? 1 : 0;
          inv = it >= 3 ? E.joinM(inv, j, true) : std::move(j);
          if (getenv("SRDBG")) for (auto &o : inv.o) if (o.second->kind == O_HEAP) { auto c = o.second->cells.find(atoi(getenv("SRDBG"))); if (c != o.second->cells.end()) errs() << it << ": " << E.show(c->second.v) << "\n"; }
          E.hardWiden = 0;
          if (it > 300) { E.quiet--; return fail("state invariant of " + G->getName().str() + " did not converge"); }
        }
        // bounded narrowing
        for (int k = 0; k < 3 && !dead; k++) {
          Mem n = step(inv, ret, dead);
          Mem j = E.joinM(s1, n);
          if (!E.leqM(j, inv)) break;
          bool same = E.leqM(inv, j);
          inv = std::move(j);
          if (same) break;
        }
        E.quiet--;
        if (!dead) {
          step(inv, ret, dead);
          if (!dead) ret = E.joinV(ret, ret0);
        }
        auto gl = [&](const std::string &rule, const std::string &msg) {
          auto *SP = G->getSubprogram();
          add(rule, G->getName().str(), SP ? SP->getFilename().str() : path, SP ? SP->getLine() : 0, msg, v.name);
        };
        if (dead) gl("no-return", "get_bits never returns");
        else {
          outputs++;
          if (v.nbits == 32 && (ret.k != K_INT || ret.cr.getUnsignedMax().getActiveBits() > 32)) gl("range", "32-bit generator may return " + E.show(ret));
          if (ret.undef) gl("uninit-output", "the returned value may depend on uninitialised memory");
          if (ret.taint & T_ADDR) gl("addr-output", "the returned value depends on a memory address");
          if (ret.taint & T_HW) gl("hw-output", "the returned value depends on hardware/time/asm");
          if (ret.taint & T_RAM) gl("ram-output", "the returned value depends on the RAM size");
          if (ret.taint & T_EXT) gl("ext-output", "the returned value depends on an unmodelled external");
          auto &sd = seedInfo[{st.trace, G}];
          if (ret.taint & T_SEED) sd.first = true;
          if (seeded) sd.second = true;
        }
        if (verbose) errs() << v.name << " " << G->getName() << " iters " << it << " ret " << E.show(ret) << " taint " << ret.taint << "\n";
        // get_sum from the invariant
        phase = 4;
        for (auto *S : E.funcTargets(v.getsum, inv, unk2, ps)) {
          if (!sumSeen.insert({G, S}).second) continue;
          auto vd = sumVerdict(G, S, E.info(S));
          auto *SP = S->getSubprogram();
          if (vd.first == "bad") add("sum-mismatch", S->getName().str(), SP ? SP->getFilename().str() : path, SP ? SP->getLine() : 0, vd.second, v.name);
          jsum.push_back(json::Object{{"get_bits", G->getName().str()}, {"get_sum", S->getName().str()}, {"status", vd.first}, {"detail", vd.second}, {"variant", v.name}});
        }
        for (auto *S : E.funcTargets(v.getsum, inv, unk2, ps)) {
          E.ctx = v.name + "/get_sum";
          E.steps = 0;
          Val len = E.topInt(64);
          auto rs = E.call(S, {st.second, len}, inv);
          if (E.aborted) return fail(E.abortMsg);
          for (auto &r : E.call(S, {st.second, E.cint(64, 1)}, st.first)) rs.push_back(std::move(r)); // a fresh generator
          if (E.aborted) return fail(E.abortMsg);
          if (E.aborted) return fail(E.abortMsg);
          for (auto &r : rs) {
            if (r.ret.undef) { auto *SP = S->getSubprogram(); add("uninit-output", S->getName().str(), SP ? SP->getFilename().str() : path, SP ? SP->getLine() : 0, "get_sum may depend on uninitialised memory", v.name); }
          }
        }
        phase = 5;
        for (auto *S : E.funcTargets(v.freef, inv, unk2, ps)) {
          E.ctx = v.name + "/free";
          E.steps = 0;
          auto rs = E.call(S, {st.second, E.ptrTo(gi), E.ptrTo(intf)}, inv);
          for (auto &r : E.call(S, {st.second, E.ptrTo(gi), E.ptrTo(intf)}, st.first)) rs.push_back(std::move(r));
          for (auto &r : rs)
            for (auto &o : r.mem.o)
              if (o.second->kind == O_HEAP && !o.second->freed && !o.second->maybeFreed && !before.count(o.first))
                { auto *SP = S->getSubprogram(); add("leak", S->getName().str(), SP ? SP->getFilename().str() : path, SP ? SP->getLine() : 0, "free() does not release " + o.second->name, v.name); }
        }
        phase = 3;
      }
    }
    for (auto &x : seedInfo) {
      auto *SP = x.first.second->getSubprogram();
      std::string f = SP ? SP->getFilename().str() : path;
      unsigned l = SP ? SP->getLine() : 0;
      if (!x.second.first) add("unseeded-output", x.first.second->getName().str(), f, l, "the returned value does not depend on the seed", v.name + " " + x.first.first);
    }
  }
  for (auto &a : E.alarms) findings.push_back(alarmJ(a.second));
  out["findings"] = std::move(findings);
  out["variants"] = std::move(jv);
  out["sums"] = std::move(jsum);
  out["functions"] = (int64_t) E.functions.size();
  out["instructions"] = (int64_t) E.visited.size();
  out["obligations"] = (int64_t) E.oblig.size();
  std::map<std::string, int64_t> ob;
  for (auto &o : E.oblig) ob[o.second]++;
  json::Object jo;
  for (auto &o : ob) jo[o.first] = o.second;
  out["obligationKinds"] = std::move(jo);
  out["creates"] = creates;
  out["outputs"] = outputs;
  out["states"] = states;
  out["fixpoints"] = (int64_t) E.fixpoints;
  // symbols the shared object would need from its host
  json::Array ext;
  auto user = [&](GlobalValue &G, std::string &f, unsigned &l, std::string &fn) {
    SmallVector<User *, 8> w(G.user_begin(), G.user_end());
    std::set<User *> done;
    while (!w.empty()) {
      User *U = w.pop_back_val();
      if (!done.insert(U).second) continue;
      if (auto *I = dyn_cast<Instruction>(U)) { locOf(I, f, l); fn = I->getFunction()->getName().str(); return true; }
      if (auto *GV = dyn_cast<GlobalVariable>(U)) { fn = GV->getName().str(); f = path; return true; }
      w.append(U->user_begin(), U->user_end());
    }
    return false;
  };
  for (auto &F : M)
    if (F.isDeclaration() && !F.isIntrinsic()) {
      std::string f, fn; unsigned l = 0;
      if (user(F, f, l, fn)) ext.push_back(json::Object{{"name", F.getName().str()}, {"func", fn}, {"file", f}, {"line", (int64_t) l}});
    }
  for (auto &G : M.globals())
    if (G.isDeclaration() && !G.getName().starts_with("llvm.")) {
      std::string f, fn; unsigned l = 0;
      if (user(G, f, l, fn)) ext.push_back(json::Object{{"name", G.getName().str()}, {"func", fn}, {"file", f}, {"line", (int64_t) l}});
    }
  out["externs"] = std::move(ext);
  json::Array um;
  for (auto &u : E.unmodelled) um.push_back(u);
  out["unmodelled"] = std::move(um);
  out["ms"] = (int64_t) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
  return out;
}
