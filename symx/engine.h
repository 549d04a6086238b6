#pragma once
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/ADT/SmallString.h>
#include <set>
#include <list>
#include <functional>
#include <chrono>

using namespace llvm;

struct Opnd { int reg = -1; Val cv; bool undef = false; };
struct InstInfo {
    Instruction* I;
    unsigned op;
    int dst = -1;
    std::vector<Opnd> ops;
    // GEP
    int64_t gepConst = 0;
    std::vector<std::pair<int, uint64_t>> gepVar;   // operand index, scale
    int succ[2] = {-1, -1};
    // call
    Function* callee = nullptr;
    struct Handler* h = nullptr;
    unsigned w = 0;
};
struct BlockInfo { BasicBlock* B; std::vector<InstInfo> insts; unsigned nphi = 0; };
struct FnInfo {
    Function* F;
    std::vector<BlockInfo> blocks;
    unsigned nregs = 0;
    bool fromRepo = false;
    std::string repoFile;
    uint64_t visits = 0;
    std::vector<bool> blockSeen;
};
struct Frame {
    FnInfo* fn;
    int bb = 0, pc = 0, prev = -1;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    int retReg = -1;
};
enum TStat : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread {
    std::vector<std::shared_ptr<Frame>> st;
    TStat stat = T_RUN;
    uint64_t waitOn = 0;
    bool timed = false;
    Val deadline;           // of a timed wait or sleep (ns, 64 bit)
    int phase = 0;          // condition variable phase: 0 none, 1 woken by notify, 2 woken by timeout
    bool schedDone = false;
    // exception being handled
    std::vector<uint64_t> caught;
    Frame& top() {
        auto& p = st.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
};
typedef std::map<int, uint64_t> Assign;
struct ModelBox { Assign a; Z3_model m = nullptr; ~ModelBox() { if (m) Z3_model_dec_ref(C, m); } };
typedef std::shared_ptr<ModelBox> ModelP;

struct Input { int sym; int n; std::string name; bool sched = false; uint64_t conc = 0; };
struct Constraint { Ex e; const std::vector<int>* syms; bool fp; };
struct State {
    ObjTable mem;
    std::vector<Thread> thr;
    int cur = 0;
    std::vector<Constraint> pc;
    ModelP model;
    std::vector<Input> inputs;
    std::vector<std::pair<int, Val>> observes;
    std::map<std::string, int> nameCount;
    std::map<uint64_t, uint64_t> mutexes;   // addr -> owner tid+1
    std::map<uint64_t, std::vector<int>> rwReaders;
    std::map<uint64_t, uint64_t> excType;   // exception object -> typeinfo address
    std::set<std::string> reached;
    uint64_t steps = 0;
    unsigned depth = 0;
    int preemptLeft = 1000000;
    bool done = false;
    uint64_t liveHeap = 0;
    uint64_t errnoAddr = 0;
    std::vector<std::string> trace;
    Thread& T() { return thr[cur]; }
    Frame& F() { return thr[cur].top(); }
};
typedef std::unique_ptr<State> StateP;

struct ErrorRec {
    std::string kind, msg, loc, func, stack;
    std::vector<std::pair<std::string, uint64_t>> inputs;
    std::vector<std::string> trace;
};
