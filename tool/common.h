#pragma once
#include "ai.h"
// field name -> (byte offset, byte size); "" -> (total size, 0)
std::map<std::string, std::pair<uint64_t, uint64_t>> diStruct(llvm::Module &M, const std::string &name);
llvm::json::Object analysePlugin(llvm::Module &M, const std::string &path, uint64_t budget, bool verbose, const std::vector<std::string> &opts);
std::pair<std::string, std::string> sumVerdict(llvm::Function *GB, llvm::Function *GS, ai::FnInfo &fi);
llvm::json::Object analyseBattery(llvm::Module &M, const std::string &fn, uint64_t budget, const std::vector<std::string> &opts);
llvm::json::Object analyseCall(llvm::Module &M, const std::string &fn, const std::vector<std::string> &specs, uint64_t budget, const std::vector<std::string> &opts);
llvm::json::Object analyseScenario(llvm::Module &M, const std::vector<std::string> &fns, uint64_t budget, const std::vector<std::string> &opts);
