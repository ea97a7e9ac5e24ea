#pragma once
#include "expr.h"
#include "smt.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <memory>
#include <regex>

struct Val
{
    enum K : uint8_t { U, I, S, R, B, A } k = U;
    uint64_t i = 0;
    E e = nullptr;
    std::shared_ptr<std::vector<Val>> a;
    static Val mkI(uint64_t v) { Val x; x.k = I; x.i = v; return x; }
    static Val mkR(E e) { Val x; x.k = R; x.e = e; return x; }
    static Val mkB(E e) { Val x; if (isTrue(e) || isFalse(e)) { x.k = I; x.i = isTrue(e); } else { x.k = B; x.e = e; } return x; }
    static Val mkA(std::vector<Val> v) { Val x; x.k = A; x.a = std::make_shared<std::vector<Val>>(std::move(v)); return x; }
};

struct Cell { Val v; uint32_t size; };

// layered contents of an object of symbolic extent
struct Layer
{
    // kind 0: base content UF `uf(offset)`; kind 1: point write; kind 2: range fill by generator
    int kind = 0;
    E off = nullptr;        // point: byte offset (Int)
    uint32_t size = 8;
    Val v;
    // range: for iteration k in [lo,hi): offset = off0 + stride*k + j  -> value gen[j] with k substituted
    E lo = nullptr, hi = nullptr, off0 = nullptr, kvar = nullptr;
    int64_t stride = 0;
    std::map<int64_t, Cell> gen;
    std::string uf;         // base
};

struct Object
{
    uint64_t base = 0, size = 0;
    bool alive = true, ro = false, heap = false;
    const char* kind = "";
    std::map<uint64_t, Cell> cells;
    // symbolic extent
    E symSize = nullptr;
    std::vector<Layer> layers;
    std::string tag;
};
typedef std::shared_ptr<Object> ObjP;

struct Frame
{
    llvm::Function* fn = nullptr;
    llvm::BasicBlock* bb = nullptr;
    llvm::BasicBlock* prev = nullptr;
    llvm::BasicBlock::iterator it;
    std::vector<Val> loc;
    std::vector<uint64_t> allocas;
    llvm::CallBase* callSite = nullptr;   // in the caller
    bool ghost = false;                   // entered by the engine
    std::vector<Val> varargs;
};

struct ExcInfo { uint64_t ptr = 0; uint64_t ti = 0; };

struct State
{
    std::vector<Frame> st;
    struct Fiber { std::vector<Frame> st; std::vector<ExcInfo> caught; ExcInfo cur; bool unwinding = false; };
    std::vector<Fiber> fibers;              // suspended flows of control (the running one's slot is stale)
    size_t fiber = 0;
    std::map<uint64_t, ObjP> mem;
    std::vector<E> pc;
    uint64_t nextAddr = 0x10000000;
    std::map<std::string, int> names;
    std::vector<ExcInfo> caught;
    ExcInfo cur;
    bool unwinding = false;
    Val retv;
    bool finished = false;
    bool dead = false;
    std::vector<std::pair<std::string, uint64_t>> replace;  // (regex, fn address)
    std::vector<uint64_t> loopContracts;                    // pending ghost functions
    std::map<std::string, int> opts;
    uint64_t steps = 0;
    std::vector<std::string> trace;
    std::vector<E> inputs;
};

struct Unsupported : std::runtime_error { Unsupported(const std::string& s) : std::runtime_error(s) {} };
struct PathEnd {};     // this path is finished (infeasible or failed)

struct Obl
{
    std::string label, status, backend, detail;
    Model model;
    bool hasModel = false;
    double secs = 0;
};

struct Engine
{
    llvm::Module* M;
    const llvm::DataLayout* DL;
    std::map<std::string, std::string> cfg;
    // results
    std::vector<Obl> fails;                        // failed obligations
    std::vector<Obl> undecided;
    std::map<std::string, std::array<uint64_t, 3>> byLabel;    // total, discharged
    std::map<std::string, uint64_t> byBackend;
    std::map<std::string, uint64_t> covers;
    std::set<std::string> funcs;                   // functions executed
    std::set<std::string> externs;                 // modelled externals
    std::set<std::string> assumptions;
    std::unordered_set<const void*> locs;          // debug locations executed
    void repoFunctions(std::set<std::string>& out);
    uint64_t paths = 0, infeasible = 0, insts = 0, forks = 0;
    double deadline = 0;
    unsigned qTimeout = 3000, oTimeout = 15000;
    uint64_t loopsProved = 0;
    std::vector<std::string> loopNotes;

    Engine(llvm::Module* m);
    void runProof(llvm::Function* f);

    // --- internals
    std::unordered_map<const llvm::Function*, uint64_t> fnAddr;
    std::unordered_map<uint64_t, llvm::Function*> addrFn;
    std::unordered_map<const llvm::GlobalVariable*, uint64_t> gvAddr;
    std::map<uint64_t, ObjP> globals0;             // initial global objects
    struct FnInfo { std::unordered_map<const llvm::Value*, unsigned> num; unsigned n; std::string dem; std::unique_ptr<llvm::DominatorTree> dt; std::unique_ptr<llvm::LoopInfo> li; int replIdx = -2; };
    std::unordered_map<const llvm::Function*, std::unique_ptr<FnInfo>> infos;
    FnInfo& info(llvm::Function* f);
    FnInfo& loops(llvm::Function* f);
    std::unordered_map<const llvm::Function*, std::string> demCache;
    const std::string& dem(const llvm::Function* f);

    uint64_t globalAddr(const llvm::GlobalVariable* g);
    void initGlobals();
    void initConst(Object& o, uint64_t off, const llvm::Constant* c);
    Val constVal(const llvm::Constant* c);
    Val zeroVal(llvm::Type* t);

    Val get(State& s, const llvm::Value* v);
    void set(State& s, const llvm::Value* v, Val x);

    typedef std::function<bool(State&)> Stop;
    void explore(State s, const Stop& stop, std::vector<State>& out);
    void step(State& s, std::vector<State>& work);
    void enterBlock(State& s, llvm::BasicBlock* to, std::vector<State>& work);
    void callFn(State& s, llvm::Function* f, std::vector<Val> args, llvm::CallBase* cs);
    void doCall(State& s, llvm::CallBase* cs, std::vector<State>& work);
    bool external(State& s, llvm::Function* f, std::vector<Val>& args, llvm::CallBase* cs, std::vector<State>& work, Val& ret);
    bool intrinsic(State& s, llvm::Function* f, std::vector<Val>& args, llvm::CallBase* cs, std::vector<State>& work, Val& ret);
    void finishCall(State& s, llvm::CallBase* cs, Val ret, std::vector<State>& work);
    void doReturn(State& s, Val v, std::vector<State>& work);
    void throwExc(State& s, uint64_t ptr, uint64_t ti, std::vector<State>& work);
    void throwStd(State& s, const std::string& tiName, std::vector<State>& work);
    void unwind(State& s, std::vector<State>& work);
    bool typeMatches(uint64_t thrown, uint64_t caught);
    std::string tiName(uint64_t a);
    std::map<std::string, uint64_t> fakeTi;

    // memory
    Object& wr(State& s, uint64_t base);
    ObjP find(State& s, uint64_t addr);
    uint64_t alloc(State& s, uint64_t size, const char* kind, bool heap);
    uint64_t allocSym(State& s, E size, const char* kind);
    Val load(State& s, uint64_t addr, llvm::Type* t);
    Val loadCell(State& s, uint64_t addr, uint32_t size, int cls);   // cls: 0 int, 1 real, 2 ptr
    void store(State& s, uint64_t addr, const Val& v, llvm::Type* t);
    void storeCell(State& s, uint64_t addr, const Val& v, uint32_t size);
    void splitAt(Object& o, uint64_t off, uint32_t size);
    void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n);
    void setMem(State& s, uint64_t d, uint8_t v, uint64_t n);
    std::string cstr(State& s, uint64_t a);
    uint64_t concretize(State& s, const Val& v, std::vector<State>& work, const char* why);
    Val symLoad(State& s, E addr, llvm::Type* t, std::vector<State>& work, bool& done);
    bool symStore(State& s, E addr, const Val& v, llvm::Type* t);
    Object* symObj(State& s, E addr, E& off);
    Val readLayers(State& s, Object& o, E off, uint32_t size, int cls);
    void memErr(State& s, const std::string& w);

    // logic
    bool feasible(State& s, E c);
    bool valid(State& s, E c);        // quick entailment
    bool forkOn(State& s, E c, std::vector<State>& work, State* other);
    void assume(State& s, E c);
    void oblige(State& s, E goal, const std::string& label);
    void obligeEq(State& s, E a, E b, const std::string& label);
    bool proveEq0(const std::vector<E>& pc, E d, int depth, Obl& o);
    bool prove(const std::vector<E>& pc, E g, int depth, Obl& o);
    void record(State& s, const std::string& label, bool ok, Obl& o);
    void fail(State& s, const std::string& label, const std::string& detail);
    void reduceByEqualities(const std::vector<E>& pc, std::vector<E>& pcOut, E& g);
    E fresh(State& s, const std::string& n, Sort so);
    E intE(const Val& v, unsigned w);
    Val intV(E e, unsigned w);
    E boolE(const Val& v);
    E realE(const Val& v);
    Val binInt(State& s, unsigned op, const Val& a, const Val& b, unsigned w, const llvm::Instruction* I);
    Val icmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w);
    Val fcmp(unsigned pred, const Val& a, const Val& b);
    E mathFn(State& s, const std::string& n, const std::vector<E>& a);
    Val mergeSel(State& s, E c, const Val& a, const Val& b, llvm::Type* t, bool& ok);
    void simplifyFrame(State& s, E c);

    // loops
    struct LoopCtx;
    bool tryLoopContract(State& s, llvm::BasicBlock* header, llvm::BasicBlock* from, std::vector<State>& work);
    bool symbolicTrip(State& s, llvm::Loop* L);
    void loopTerms(State& s, uint64_t fn, E it, int mode, std::vector<E>& cand, std::vector<E>& inv);
    std::vector<E> gCand, gInv;
    int inLoop = 0;                                // final iterations of loop contracts
    int dry = 0;                                   // trial iterations: nothing is recorded
    uint64_t exprLimitNote = 0;
    Val sanitizeForType(const Val& v, llvm::Type* t);
    unsigned widthOf(llvm::Type* t);
};
