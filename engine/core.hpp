// Core data structures of the symbolic executor: values, memory, states.
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <chrono>
#include <climits>
#include <numeric>
#include <sstream>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include "rdag.hpp"
#include "ufmodel.h"

enum VK : uint8_t { UNDEF, INT, SYM, REAL, FPC, SFP, AGG };

struct Val
{
   VK k = UNDEF;
   uint16_t w = 0;  // bits
   union { uint64_t u; RNode *r; int e; };
   Val() : u(0) { }
   static Val I(uint64_t v, unsigned w)
   {
      Val x;
      x.k = INT;
      x.w = (uint16_t)w;
      x.u = w >= 64 ? v : (v & ((1ull << w) - 1));
      return x;
   }
   static Val Rl(R r, unsigned w = 64)
   {
      Val x;
      x.k = REAL; x.w = (uint16_t)w; x.r = r;
      return x;
   }
   static Val Undef(unsigned w) { Val x; x.w = (uint16_t)w; return x; }
   int64_t s() const
   {
      if (w >= 64) { return (int64_t)u; }
      uint64_t m = 1ull << (w - 1);
      return (int64_t)((u ^ m) - m);
   }
};

struct EngineError : std::runtime_error
{
   explicit EngineError(const std::string &m) : std::runtime_error(m) { }
};

// one allocation
struct Obj
{
   uint64_t addr = 0, size = 0;
   bool ro = false;
   char kind = 'h';               // h heap, s stack, g global, f function
   std::vector<uint8_t> b, st;    // st: 0 undef 1 concrete 2 cell start 3 cell cont
   std::map<uint32_t, Val> cells;
   std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct FuncInfo;
struct Op { int slot; Val c; };   // slot < 0: constant
struct PInst
{
   llvm::Instruction *I;
   int slot;
   std::vector<Op> ops;
};
struct BlockInfo
{
   llvm::BasicBlock *bb;
   unsigned nphi = 0;
   std::vector<PInst> ins;
};
struct FuncInfo
{
   llvm::Function *F;
   unsigned nslots = 0;
   std::vector<std::unique_ptr<BlockInfo>> blocks;
   std::unordered_map<llvm::BasicBlock *, BlockInfo *> bmap;
   std::unordered_map<const llvm::Value *, int> slot;
   std::string name, demangled;
   bool repo = false;
};

struct Frame
{
   FuncInfo *fi = nullptr;
   BlockInfo *bb = nullptr, *prev = nullptr;
   unsigned pc = 0;
   std::vector<Val> regs;
   std::vector<uint64_t> allocas;
   const PInst *call = nullptr;   // call site in the caller's frame
   std::vector<Val> varargs;
};

struct Input { std::string name; char type; Val v; double lo, hi; bool boxed = false; double blo = 0, bhi = 0; };

struct Exc { uint64_t obj = 0, ti = 0; };

struct State
{
   std::vector<Frame> stack;
   std::map<uint64_t, ObjP> mem;          // by base address
   std::vector<int> pc;                   // indices of path constraints
   std::unordered_map<unsigned, bool> known;
   std::vector<Input> inputs;
   std::map<std::string, int> nameCount;
   std::shared_ptr<std::unordered_map<R, double>> witness;  // may be null
   Exc inflight;
   std::vector<Exc> caught;
   std::vector<std::pair<std::string, Val>> observed;
   bool allowAbort = false;
   std::map<std::string, long> counters;
   uint64_t steps = 0;
   std::string outcome;
};
