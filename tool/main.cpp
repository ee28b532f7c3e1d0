#include "common.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

std::map<std::string, std::pair<uint64_t, uint64_t>> diStruct(Module &M, const std::string &name) {
  std::map<std::string, std::pair<uint64_t, uint64_t>> r;
  DebugInfoFinder F;
  F.processModule(M);
  for (auto *T : F.types()) {
    const DICompositeType *C = dyn_cast<DICompositeType>(T);
    if (!C) {
      auto *D = dyn_cast<DIDerivedType>(T);
      if (D && D->getTag() == dwarf::DW_TAG_typedef && D->getName() == name) C = dyn_cast_or_null<DICompositeType>(D->getBaseType());
      else continue;
      if (!C) continue;
    } else if (C->getName() != name) continue;
    if (C->getTag() != dwarf::DW_TAG_structure_type || C->isForwardDecl()) continue;
    r[""] = {C->getSizeInBits() / 8, 0};
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E)) r[D->getName().str()] = {D->getOffsetInBits() / 8, D->getSizeInBits() / 8};
    return r;
  }
  return r;
}

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  uint64_t budget = 400000;
  bool verbose = false;
  std::vector<std::string> files, opts;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--budget=", 0) == 0) budget = std::stoull(a.substr(9));
    else if (a == "-v") verbose = true;
    else if (a.rfind("--", 0) == 0) opts.push_back(a);
    else files.push_back(a);
  }
  if (mode == "plugin") {
    for (auto &f : files) {
      LLVMContext C;
      SMDiagnostic err;
      auto M = parseIRFile(f, err, C);
      json::Object o;
      if (!M) { o["file"] = f; o["error"] = "cannot parse IR"; }
      else o = analysePlugin(*M, f, budget, verbose, opts);
      outs() << json::Value(std::move(o)) << "\n";
      outs().flush();
    }
    return 0;
  }
  if (mode == "battery") {
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(files[0], err, C);
    json::Object o;
    if (!M) o["error"] = "cannot parse IR";
    else o = analyseBattery(*M, files[1], budget, opts);
    outs() << json::Value(std::move(o)) << "\n";
    return 0;
  }
  if (mode == "call") {
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(files[0], err, C);
    json::Object o;
    if (!M) o["error"] = "cannot parse IR";
    else o = analyseCall(*M, files[1], std::vector<std::string>(files.begin() + 2, files.end()), budget, opts);
    outs() << json::Value(std::move(o)) << "\n";
    return 0;
  }
  if (mode == "scenario") {
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(files[0], err, C);
    json::Object o;
    if (!M) o["error"] = "cannot parse IR";
    else o = analyseScenario(*M, std::vector<std::string>(files.begin() + 1, files.end()), budget, opts);
    outs() << json::Value(std::move(o)) << "\n";
    return 0;
  }
  errs() << "unknown mode\n";
  return 2;
}
