#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <iostream>
using namespace llvm;

static inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    v = maskw(v, w);
    return (v >> (w - 1)) & 1 ? (int64_t)(v | ~((1ULL << w) - 1)) : (int64_t)v;
}
static std::string istr(const Instruction* I)
{
    std::string r;
    raw_string_ostream os(r);
    I->print(os);
    return r;
}
extern bool gVerbose;

void Engine::explore(State s0, const Stop& stop, std::vector<State>& out)
{
    std::vector<State> work;
    work.push_back(std::move(s0));
    while (!work.empty())
    {
        State s = std::move(work.back());
        work.pop_back();
        try
        {
            for (;;)
            {
                if (s.finished || stop(s)) { out.push_back(std::move(s)); break; }
                step(s, work);
                if (((++insts) & 0x3ff) == 0 && nowSec() > deadline) throw Unsupported("time budget exhausted");
            }
        }
        catch (PathEnd&) {}
    }
}

void Engine::repoFunctions(std::set<std::string>& out)
{
    for (auto* p : locs)
        for (const DILocation* d = (const DILocation*)p; d; d = d->getInlinedAt())
        {
            auto* sp = d->getScope()->getSubprogram();
            if (!sp || !sp->getFile()) continue;
            std::string fn = (sp->getFile()->getFilename().str()[0] == '/' ? "" : sp->getFile()->getDirectory().str() + "/") + sp->getFile()->getFilename().str();
            if (fn.find("/repo/") == std::string::npos) continue;
            std::string n = llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
            out.insert(fn.substr(fn.find("/repo/") + 6) + ": " + n.substr(0, 200));
        }
}
void Engine::runProof(Function* f)
{
    State s;
    s.mem = globals0;
    // dynamic initialisers
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (gc->hasInitializer())
            if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto& op : arr->operands())
                {
                    auto* cs = cast<ConstantStruct>(op);
                    auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
                    if (!fn || fn->isDeclaration()) continue;
                    callFn(s, fn, {}, nullptr);
                    s.st.back().ghost = true;
                    std::vector<State> out;
                    explore(std::move(s), [](State& x) { return x.st.empty(); }, out);
                    if (out.size() != 1) throw Unsupported("dynamic initialiser forks");
                    s = std::move(out[0]);
                    s.finished = false;
                }
    for (auto& p : s.mem) p.second = std::make_shared<Object>(*p.second);
    funcs.clear();
    locs.clear();
    callFn(s, f, {}, nullptr);
    s.st.back().ghost = true;
    std::vector<State> out;
    explore(std::move(s), [](State& x) { return x.st.empty(); }, out);
    paths += out.size();
}

void Engine::callFn(State& s, Function* f, std::vector<Val> args, CallBase* cs)
{
    if (s.st.size() > 400) throw Unsupported("call depth");
    FnInfo& fi = info(f);
    funcs.insert(fi.dem);
    Frame fr;
    fr.fn = f;
    fr.bb = &f->getEntryBlock();
    fr.it = fr.bb->begin();
    fr.loc.resize(fi.n);
    fr.callSite = cs;
    for (unsigned i = 0; i < f->arg_size(); i++)
        if (i < args.size()) fr.loc[i] = args[i];
    for (unsigned i = f->arg_size(); i < args.size(); i++) fr.varargs.push_back(args[i]);
    // byval arguments: copy
    s.st.push_back(std::move(fr));
    for (unsigned i = 0; i < f->arg_size() && i < args.size(); i++)
        if (f->hasParamAttribute(i, Attribute::ByVal))
        {
            uint64_t n = DL->getTypeAllocSize(f->getParamByValType(i));
            uint64_t a = alloc(s, n, "byval", false);
            s.st.back().allocas.push_back(a);
            copyMem(s, a, args[i].i, n);
            s.st.back().loc[i] = Val::mkI(a);
        }
}
void Engine::finishCall(State& s, CallBase* cs, Val ret, std::vector<State>& work)
{
    set(s, cs, ret);
    if (auto* iv = dyn_cast<InvokeInst>(cs)) enterBlock(s, iv->getNormalDest(), work);
    else ++s.st.back().it;
}
void Engine::doReturn(State& s, Val v, std::vector<State>& work)
{
    Frame& f = s.st.back();
    for (uint64_t a : f.allocas) s.mem.erase(a);
    CallBase* cs = f.callSite;
    bool ghost = f.ghost;
    s.st.pop_back();
    s.retv = v;
    if (ghost || !cs)
    {
        if (s.st.empty()) s.finished = true;
        return;
    }
    finishCall(s, cs, v, work);
}
void Engine::enterBlock(State& s, BasicBlock* to, std::vector<State>& work)
{
    Frame& f = s.st.back();
    BasicBlock* from = f.bb;
    if (!s.loopContracts.empty())
        if (tryLoopContract(s, to, from, work)) return;
    std::vector<std::pair<const PHINode*, Val>> vals;
    for (auto& phi : to->phis()) vals.push_back({&phi, get(s, phi.getIncomingValueForBlock(from))});
    for (auto& p : vals) set(s, p.first, p.second);
    f.prev = from;
    f.bb = to;
    f.it = to->getFirstNonPHIIt();
}

// ------------------------------------------------------------ exceptions
std::string Engine::tiName(uint64_t a)
{
    for (auto& p : gvAddr) if (p.second == a) return p.first->getName().str();
    for (auto& p : fakeTi) if (p.second == a) return p.first;
    return "";
}
bool Engine::typeMatches(uint64_t thrown, uint64_t caught)
{
    if (caught == 0) return true;
    if (thrown == caught) return true;
    std::string t = tiName(thrown), c = tiName(caught);
    if (t == c) return true;
    static const std::map<std::string, std::string> base = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}};
    auto it = base.find(t);
    if (it != base.end())
    {
        if (it->second == c) return true;
        auto it2 = base.find(it->second);
        if (it2 != base.end() && it2->second == c) return true;
    }
    for (auto& p : gvAddr)
        if (p.second == thrown && p.first->hasInitializer())
        {
            auto* init = p.first->getInitializer();
            for (unsigned i = 2; i < init->getNumOperands(); i++)
            {
                auto* g = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts());
                if (g && typeMatches(gvAddr.at(g), caught)) return true;
                if (g && g->getName() == c) return true;
                if (g)
                {
                    std::string gn = g->getName().str();
                    auto jt = base.find(gn);
                    while (jt != base.end()) { if (jt->second == c) return true; jt = base.find(jt->second); }
                }
            }
        }
    return false;
}
void Engine::throwStd(State& s, const std::string& n, std::vector<State>& work)
{
    uint64_t ti = 0;
    if (auto* g = M->getGlobalVariable(n)) ti = gvAddr.at(g);
    else
    {
        if (!fakeTi.count(n)) fakeTi[n] = 0x800 + 8 * fakeTi.size();
        ti = fakeTi[n];
    }
    uint64_t p = alloc(s, 64, "exception", true);
    throwExc(s, p, ti, work);
}
void Engine::throwExc(State& s, uint64_t ptr, uint64_t ti, std::vector<State>& work)
{
    s.cur.ptr = ptr;
    s.cur.ti = ti;
    unwind(s, work);
}
void Engine::unwind(State& s, std::vector<State>& work)
{
    // current frame's instruction is the throwing call (or resume)
    for (;;)
    {
        Frame& f = s.st.back();
        Instruction& I = *f.it;
        if (auto* iv = dyn_cast<InvokeInst>(&I))
        {
            LandingPadInst* lp = iv->getUnwindDest()->getLandingPadInst();
            bool land = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses() && !land; i++)
            {
                if (lp->isCatch(i))
                {
                    uint64_t c = constVal(lp->getClause(i)).i;
                    if (typeMatches(s.cur.ti, c)) land = true;
                }
                else land = true;
            }
            if (land)
            {
                enterBlock(s, iv->getUnwindDest(), work);
                return;
            }
        }
        for (uint64_t a : f.allocas) s.mem.erase(a);
        bool ghost = f.ghost;
        std::string fn = dem(f.fn);
        s.st.pop_back();
        if (s.st.empty() || ghost)
        {
            if (s.st.empty())
            {
                Frame dummy;
                State t = s;
                fail(t, "no-uncaught-exception", "exception " + tiName(s.cur.ti) + " escapes " + fn);
            }
            throw PathEnd();
        }
    }
}

// ------------------------------------------------------------ symbolic addresses
uint64_t Engine::concretize(State& s, const Val& v, std::vector<State>& work, const char* why)
{
    if (v.k == Val::I) return v.i;
    if (v.k == Val::U) throw Unsupported(std::string("undefined ") + why);
    if (v.k != Val::S) throw Unsupported(std::string("non-integer ") + why);
    Model m;
    E var = eVar("!addr", S_INT);
    std::vector<E> q = s.pc;
    q.push_back(eEq(var, v.e));
    SatR r = smtCheck(q, oTimeout, &m, false);
    if (r == R_UNSAT) { infeasible++; throw PathEnd(); }
    if (r != R_SAT || !m.vars.count("!addr")) throw Unsupported(std::string("cannot enumerate ") + why);
    mpz_class z = m.vars["!addr"].second.get_num();
    E c = eConst(mpq_class(z), S_INT);
    E eq = eEq(v.e, c);
    if (feasible(s, eNot(eq)))
    {
        State o = s;
        o.pc.push_back(eNot(eq));
        int& n = o.opts["!enum"];
        if (++n > 400) throw Unsupported(std::string("too many values for ") + why);
        work.push_back(std::move(o));
        forks++;
        s.pc.push_back(eq);
    }
    return (uint64_t)(int64_t)z.get_si();
}

Val Engine::mergeSel(State& s, E c, const Val& a, const Val& b, Type* t, bool& ok)
{
    ok = true;
    if (t->isFloatingPointTy()) return Val::mkR(eIte(c, realE(a), realE(b)));
    if (t->isIntegerTy(1)) return Val::mkB(eIte(c, boolE(a), boolE(b)));
    if (a.k == Val::I && b.k == Val::I && a.i == b.i) return a;
    if (t->isIntegerTy())
    {
        if (a.k == Val::R || b.k == Val::R)
        {
            if ((a.k == Val::R || a.k == Val::I) && (b.k == Val::R || b.k == Val::I)) return Val::mkR(eIte(c, realE(a), realE(b)));
        }
        else if (a.k != Val::U && b.k != Val::U && a.k != Val::A && b.k != Val::A)
        {
            unsigned w = widthOf(t);
            return intV(eIte(c, intE(a, w), intE(b, w)), w);
        }
    }
    ok = false;
    return Val();
}

// ------------------------------------------------------------ one instruction
void Engine::step(State& s, std::vector<State>& work)
{
    Frame* f = &s.st.back();
    Instruction& I = *f->it;
    s.steps++;
    if (auto* dl = I.getDebugLoc().get()) locs.insert(dl);
    if (gVerbose) std::cerr << std::string(s.st.size(), ' ') << istr(&I) << "\n";
    auto done = [&](Val v) { set(s, &I, std::move(v)); ++s.st.back().it; };
    auto vec1 = [&](const std::function<Val(const Val&)>& g, const Val& a) {
        if (a.k != Val::A) return g(a);
        std::vector<Val> r;
        for (auto& x : *a.a) r.push_back(g(x));
        return Val::mkA(r);
    };
    auto vec2 = [&](const std::function<Val(const Val&, const Val&)>& g, const Val& a, const Val& b) {
        if (a.k != Val::A && b.k != Val::A) return g(a, b);
        std::vector<Val> r;
        size_t n = a.k == Val::A ? a.a->size() : b.a->size();
        for (size_t i = 0; i < n; i++) r.push_back(g(a.k == Val::A ? (*a.a)[i] : a, b.k == Val::A ? (*b.a)[i] : b));
        return Val::mkA(r);
    };
    Type* ty = I.getType();
    switch (I.getOpcode())
    {
        case Instruction::Ret:
        {
            Val v;
            if (I.getNumOperands()) v = get(s, I.getOperand(0));
            doReturn(s, v, work);
            return;
        }
        case Instruction::Br:
        {
            auto& b = cast<BranchInst>(I);
            if (b.isUnconditional()) { enterBlock(s, b.getSuccessor(0), work); return; }
            Val c = get(s, b.getCondition());
            if (c.k == Val::I) { enterBlock(s, b.getSuccessor(c.i & 1 ? 0 : 1), work); return; }
            if (c.k == Val::U) throw Unsupported("branch on undefined value in " + dem(f->fn));
            E ce = boolE(c);
            bool ft = feasible(s, ce), ff = feasible(s, eNot(ce));
            if (!ft && !ff) { infeasible++; throw PathEnd(); }
            if (ft && ff)
            {
                forks++;
                State o = s;
                assume(o, eNot(ce));
                bool pushed = true;
                try { enterBlock(o, b.getSuccessor(1), work); }
                catch (PathEnd&) { pushed = false; }
                if (pushed) work.push_back(std::move(o));
                // s continues
                for (E x : {ce}) { if (x->k == K_AND) { for (E y : x->a) s.pc.push_back(y); } else s.pc.push_back(x); }
                enterBlock(s, b.getSuccessor(0), work);
                return;
            }
            enterBlock(s, b.getSuccessor(ft ? 0 : 1), work);
            return;
        }
        case Instruction::Switch:
        {
            auto& sw = cast<SwitchInst>(I);
            Val c = get(s, sw.getCondition());
            unsigned w = widthOf(sw.getCondition()->getType());
            if (c.k == Val::I)
            {
                BasicBlock* t = sw.getDefaultDest();
                for (auto& cs : sw.cases()) if (maskw(cs.getCaseValue()->getZExtValue(), w) == maskw(c.i, w)) { t = cs.getCaseSuccessor(); break; }
                enterBlock(s, t, work);
                return;
            }
            if (c.k == Val::U) throw Unsupported("switch on undefined value in " + dem(f->fn));
            std::vector<E> neg;
            std::vector<std::pair<E, BasicBlock*>> alts;
            for (auto& cs : sw.cases())
            {
                E q = eEq(intE(c, w), eInt(cs.getCaseValue()->getSExtValue()));
                alts.push_back({q, cs.getCaseSuccessor()});
                neg.push_back(eNot(q));
            }
            alts.push_back({eAndN(neg), sw.getDefaultDest()});
            for (auto& a : alts)
            {
                if (!feasible(s, a.first)) continue;
                State o = s;
                try { assume(o, a.first); enterBlock(o, a.second, work); work.push_back(std::move(o)); } catch (PathEnd&) {}
            }
            throw PathEnd();
        }
        case Instruction::Unreachable:
            fail(s, "no-unreachable", "unreachable code reached in " + dem(f->fn));
            throw PathEnd();
        case Instruction::Alloca:
        {
            auto& a = cast<AllocaInst>(I);
            Val n = get(s, a.getArraySize());
            if (n.k != Val::I) throw Unsupported("symbolic alloca");
            uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType()) * n.i;
            uint64_t p = alloc(s, sz, "stack", false);
            f->allocas.push_back(p);
            done(Val::mkI(p));
            return;
        }
        case Instruction::Load:
        {
            Val p = get(s, cast<LoadInst>(I).getPointerOperand());
            if (p.k == Val::S)
            {
                bool d = false;
                Val v = symLoad(s, p.e, ty, work, d);
                if (d) { done(v); return; }
            }
            uint64_t a = concretize(s, p, work, "load address");
            done(load(s, a, ty));
            return;
        }
        case Instruction::Store:
        {
            auto& st = cast<StoreInst>(I);
            Val p = get(s, st.getPointerOperand());
            Val v = get(s, st.getValueOperand());
            if (p.k == Val::S && symStore(s, p.e, v, st.getValueOperand()->getType())) { ++s.st.back().it; return; }
            uint64_t a = concretize(s, p, work, "store address");
            store(s, a, v, st.getValueOperand()->getType());
            ++s.st.back().it;
            return;
        }
        case Instruction::GetElementPtr:
        {
            auto& g = cast<GEPOperator>(I);
            if (ty->isVectorTy()) throw Unsupported("vector gep");
            Val b = get(s, g.getPointerOperand());
            uint64_t off = 0;
            E sym = nullptr;
            for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt)
            {
                Value* ix = gt.getOperand();
                if (StructType* st = gt.getStructTypeOrNull())
                {
                    off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    continue;
                }
                uint64_t es = DL->getTypeAllocSize(gt.getIndexedType());
                Val v = get(s, ix);
                if (v.k == Val::I) off += (uint64_t)sx(v.i, widthOf(ix->getType())) * es;
                else if (v.k == Val::U) { done(Val()); return; }
                else
                {
                    E t = eScale(intE(v, widthOf(ix->getType())), mpq_class((unsigned long)es));
                    sym = sym ? eAdd(sym, t) : t;
                }
            }
            if (b.k == Val::I && !sym) { done(Val::mkI(b.i + off)); return; }
            if (b.k == Val::U) { done(Val()); return; }
            E r = eAdd(intE(b, 64), eInt((int64_t)off));
            if (sym) r = eAdd(r, sym);
            done(intV(r, 64));
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        {
            unsigned op = I.getOpcode();
            done(vec2([&](const Val& x, const Val& y) {
                E a = realE(x), b = realE(y);
                switch (op)
                {
                    case Instruction::FAdd: return Val::mkR(eAdd(a, b));
                    case Instruction::FSub: return Val::mkR(eSub(a, b));
                    case Instruction::FMul: return Val::mkR(eMul(a, b));
                    case Instruction::FRem: return Val::mkR(mathFn(s, "fmod", {a, b}));
                    default:
                        if (isConst(b) && b->c == 0)
                        {
                            // IEEE: x/0 = +-inf for x != 0
                            if (isConst(a) && a->c > 0) return Val::mkR(eReal(infConst()));
                            if (isConst(a) && a->c < 0) return Val::mkR(eReal(-infConst()));
                            return Val::mkR(eApp("NaN", {}, S_REAL));
                        }
                        return Val::mkR(eDiv(a, b));
                }
            }, get(s, I.getOperand(0)), get(s, I.getOperand(1))));
            return;
        }
        case Instruction::FNeg:
            done(vec1([&](const Val& x) { return Val::mkR(eNeg(realE(x))); }, get(s, I.getOperand(0))));
            return;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor:
        {
            unsigned w = ty->getScalarSizeInBits();
            Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            if (w > 64)
            {
                if (I.getOpcode() == Instruction::LShr && a.k == Val::A && b.k == Val::I && b.i == 64 && !ty->isVectorTy())
                { done(Val::mkA({(*a.a)[1], Val::mkI(0)})); return; }
                if (a.k == Val::I && b.k == Val::I && I.getOpcode() == Instruction::Mul)
                {
                    unsigned __int128 r = (unsigned __int128)a.i * b.i;
                    done(Val::mkA({Val::mkI((uint64_t)r), Val::mkI((uint64_t)(r >> 64))}));
                    return;
                }
                throw Unsupported("wide integer arithmetic");
            }
            done(vec2([&](const Val& x, const Val& y) { return binInt(s, I.getOpcode(), x, y, w, &I); }, a, b));
            return;
        }
        case Instruction::ICmp:
        {
            unsigned w = I.getOperand(0)->getType()->isPtrOrPtrVectorTy() ? 64 : I.getOperand(0)->getType()->getScalarSizeInBits();
            Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            if (a.k == Val::U || b.k == Val::U) { done(Val()); return; }
            done(vec2([&](const Val& x, const Val& y) { return icmp(s, cast<ICmpInst>(I).getPredicate(), x, y, w); }, a, b));
            return;
        }
        case Instruction::FCmp:
            done(vec2([&](const Val& x, const Val& y) { return fcmp(cast<FCmpInst>(I).getPredicate(), x, y); }, get(s, I.getOperand(0)), get(s, I.getOperand(1))));
            return;
        case Instruction::Select:
        {
            Val c = get(s, I.getOperand(0)), a = get(s, I.getOperand(1)), b = get(s, I.getOperand(2));
            if (c.k == Val::A)
            {
                std::vector<Val> r;
                for (size_t i = 0; i < c.a->size(); i++)
                {
                    bool ok = true;
                    const Val& ci = (*c.a)[i];
                    if (ci.k == Val::I) r.push_back((*(ci.i & 1 ? a : b).a)[i]);
                    else
                    {
                        r.push_back(mergeSel(s, boolE(ci), (*a.a)[i], (*b.a)[i], cast<VectorType>(ty)->getElementType(), ok));
                        if (!ok) throw Unsupported("vector select");
                    }
                }
                done(Val::mkA(r));
                return;
            }
            if (c.k == Val::I) { done(c.i & 1 ? a : b); return; }
            if (c.k == Val::U) { done(a); return; }
            bool ok = true;
            E ce = boolE(c);
            if (valid(s, ce)) { done(a); return; }
            if (valid(s, eNot(ce))) { done(b); return; }
            Val v;
            if (!ty->isAggregateType() && !ty->isVectorTy()) v = mergeSel(s, ce, a, b, ty, ok);
            else ok = false;
            if (ok) { done(v); return; }
            forks++;
            State o = s;
            o.pc.push_back(eNot(ce));
            set(o, &I, b);
            ++o.st.back().it;
            work.push_back(std::move(o));
            s.pc.push_back(ce);
            done(a);
            return;
        }
        case Instruction::PHI: throw Unsupported("stray phi");
        case Instruction::Freeze: done(get(s, I.getOperand(0))); return;
        case Instruction::ZExt:
        {
            unsigned w0 = I.getOperand(0)->getType()->getScalarSizeInBits(), w1 = ty->getScalarSizeInBits();
            done(vec1([&](const Val& a) {
                if (a.k == Val::I) return w1 > 64 ? Val::mkI(maskw(a.i, w0)) : Val::mkI(maskw(a.i, w0));
                if (a.k == Val::B) return intV(eIte(a.e, eInt(1), eInt(0)), w1);
                if (a.k == Val::U) return a;
                if (a.k == Val::R && w1 > 64) return Val::mkA({a, Val::mkI(0)});
                E e = intE(a, w0);
                E nn = eLe(eInt(0), e);
                if (valid(s, nn)) return intV(e, w1);
                mpz_class p;
                mpz_ui_pow_ui(p.get_mpz_t(), 2, w0);
                return intV(eIte(nn, e, eAdd(e, eConst(mpq_class(p), S_INT))), w1);
            }, get(s, I.getOperand(0))));
            return;
        }
        case Instruction::SExt:
        {
            unsigned w0 = I.getOperand(0)->getType()->getScalarSizeInBits(), w1 = ty->getScalarSizeInBits();
            done(vec1([&](const Val& a) {
                if (a.k == Val::I) return Val::mkI(maskw((uint64_t)sx(a.i, w0), w1));
                if (a.k == Val::B) return intV(eIte(a.e, eInt(-1), eInt(0)), w1);
                if (a.k == Val::U) return a;
                return intV(intE(a, w0), w1);
            }, get(s, I.getOperand(0))));
            return;
        }
        case Instruction::Trunc:
        {
            unsigned w1 = ty->getScalarSizeInBits();
            done(vec1([&](const Val& a) {
                if (a.k == Val::I) return Val::mkI(maskw(a.i, w1));
                if (a.k == Val::U) return a;
                if (a.k == Val::A) return (*a.a)[0];
                if (w1 == 1) return Val::mkB(boolE(a));
                if (a.k == Val::R) throw Unsupported("trunc of real bits");
                E e = intE(a, 64);
                mpz_class h, p;
                mpz_ui_pow_ui(h.get_mpz_t(), 2, w1 - 1);
                mpz_ui_pow_ui(p.get_mpz_t(), 2, w1);
                if (valid(s, eAnd(eLe(eConst(mpq_class(-h), S_INT), e), eLt(e, eConst(mpq_class(h), S_INT))))) return intV(e, w1);
                return intV(eSub(eIMod(eAdd(e, eConst(mpq_class(h), S_INT)), p), eConst(mpq_class(h), S_INT)), w1);
            }, I.getOperand(0)->getType()->isVectorTy() || get(s, I.getOperand(0)).k != Val::A ? get(s, I.getOperand(0)) : (*get(s, I.getOperand(0)).a)[0]));
            return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP:
        {
            unsigned w0 = I.getOperand(0)->getType()->getScalarSizeInBits();
            bool sg = I.getOpcode() == Instruction::SIToFP;
            done(vec1([&](const Val& a) {
                if (a.k == Val::I)
                {
                    if (sg) return Val::mkR(eReal(mpq_class((long)sx(a.i, w0))));
                    return Val::mkR(eReal(mpq_class((unsigned long)maskw(a.i, w0))));
                }
                E e = a.k == Val::B ? eIte(a.e, eInt(sg ? -1 : 1), eInt(0)) : intE(a, w0);
                if (!sg && a.k != Val::B && !valid(s, eLe(eInt(0), e)))
                {
                    mpz_class p;
                    mpz_ui_pow_ui(p.get_mpz_t(), 2, w0);
                    e = eIte(eLe(eInt(0), e), e, eAdd(e, eConst(mpq_class(p), S_INT)));
                }
                return Val::mkR(eToReal(e));
            }, get(s, I.getOperand(0))));
            return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI:
        {
            unsigned w1 = ty->getScalarSizeInBits();
            done(vec1([&](const Val& a) {
                E x = realE(a);
                if (isConst(x)) { E q = x->c >= 0 ? eFloor(x) : eNeg(eFloor(eNeg(x))); return intV(q, w1); }
                if (valid(s, eLe(eReal(0), x))) return intV(eFloor(x), w1);
                return intV(eIte(eLe(eReal(0), x), eFloor(x), eNeg(eFloor(eNeg(x)))), w1);
            }, get(s, I.getOperand(0))));
            return;
        }
        case Instruction::FPTrunc: case Instruction::FPExt:
            if (I.getOpcode() == Instruction::FPTrunc) assumptions.insert("float rounding ignored");
            done(get(s, I.getOperand(0)));
            return;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            done(get(s, I.getOperand(0)));
            return;
        case Instruction::BitCast:
        {
            Val v = get(s, I.getOperand(0));
            Type* st = I.getOperand(0)->getType();
            if (ty->isVectorTy() || st->isVectorTy())
            {
                unsigned nd = ty->isVectorTy() ? cast<FixedVectorType>(ty)->getNumElements() : 1;
                unsigned ns = st->isVectorTy() ? cast<FixedVectorType>(st)->getNumElements() : 1;
                if (nd == ns) { done(v); return; }
                if (v.k == Val::A && v.a->size() == nd) { done(v); return; }
                throw Unsupported("vector bitcast");
            }
            if (ty->isFloatingPointTy() && v.k != Val::R) v = Val::mkR(realE(v));
            done(v);
            return;
        }
        case Instruction::ExtractValue:
        {
            Val v = get(s, I.getOperand(0));
            for (unsigned ix : cast<ExtractValueInst>(I).indices()) v = v.k == Val::A ? Val((*v.a)[ix]) : Val();
            done(v);
            return;
        }
        case Instruction::InsertValue:
        {
            Val v = get(s, I.getOperand(0)), x = get(s, I.getOperand(1));
            auto idx = cast<InsertValueInst>(I).getIndices();
            std::function<Val(Val, Type*, unsigned)> ins = [&](Val a, Type* t, unsigned d) -> Val {
                if (d == idx.size()) return x;
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
                std::vector<Val> r = a.k == Val::A ? *a.a : std::vector<Val>(n);
                r[idx[d]] = ins(r[idx[d]], t->isStructTy() ? t->getStructElementType(idx[d]) : t->getArrayElementType(), d + 1);
                return Val::mkA(r);
            };
            done(ins(v, ty, 0));
            return;
        }
        case Instruction::ExtractElement:
        {
            Val v = get(s, I.getOperand(0)), ix = get(s, I.getOperand(1));
            if (ix.k != Val::I) throw Unsupported("symbolic vector index");
            done(v.k == Val::A ? (*v.a)[ix.i] : Val());
            return;
        }
        case Instruction::InsertElement:
        {
            Val v = get(s, I.getOperand(0)), x = get(s, I.getOperand(1)), ix = get(s, I.getOperand(2));
            if (ix.k != Val::I) throw Unsupported("symbolic vector index");
            std::vector<Val> r = v.k == Val::A ? *v.a : std::vector<Val>(cast<FixedVectorType>(ty)->getNumElements());
            r[ix.i] = x;
            done(Val::mkA(r));
            return;
        }
        case Instruction::ShuffleVector:
        {
            auto& sv = cast<ShuffleVectorInst>(I);
            Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            int n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
            std::vector<Val> r;
            for (int m : sv.getShuffleMask())
            {
                if (m < 0) r.push_back(Val());
                else if (m < n) r.push_back(a.k == Val::A ? (*a.a)[m] : Val());
                else r.push_back(b.k == Val::A ? (*b.a)[m - n] : Val());
            }
            done(Val::mkA(r));
            return;
        }
        case Instruction::LandingPad:
        {
            auto& lp = cast<LandingPadInst>(I);
            uint64_t sel = 0;
            for (unsigned i = 0; i < lp.getNumClauses(); i++)
                if (lp.isCatch(i))
                {
                    uint64_t c = constVal(lp.getClause(i)).i;
                    if (typeMatches(s.cur.ti, c)) { sel = c == 0 ? 1 : (c & 0x7fffffff); break; }
                }
            done(Val::mkA({Val::mkI(s.cur.ptr), Val::mkI(sel)}));
            return;
        }
        case Instruction::Resume:
        {
            Frame& fr = s.st.back();
            for (uint64_t a : fr.allocas) s.mem.erase(a);
            bool ghost = fr.ghost;
            std::string fn = dem(fr.fn);
            s.st.pop_back();
            if (s.st.empty() || ghost)
            {
                if (s.st.empty()) fail(s, "no-uncaught-exception", "exception " + tiName(s.cur.ti) + " escapes " + fn);
                throw PathEnd();
            }
            unwind(s, work);
            return;
        }
        case Instruction::Call: case Instruction::Invoke:
            doCall(s, cast<CallBase>(&I), work);
            return;
        case Instruction::Fence: ++s.st.back().it; return;
        case Instruction::AtomicRMW:
        {
            auto& a = cast<AtomicRMWInst>(I);
            uint64_t p = concretize(s, get(s, a.getPointerOperand()), work, "atomic address");
            Val old = load(s, p, ty), v = get(s, a.getValOperand());
            unsigned w = widthOf(ty);
            Val n;
            switch (a.getOperation())
            {
                case AtomicRMWInst::Add: n = binInt(s, Instruction::Add, old, v, w, nullptr); break;
                case AtomicRMWInst::Sub: n = binInt(s, Instruction::Sub, old, v, w, nullptr); break;
                case AtomicRMWInst::Xchg: n = v; break;
                case AtomicRMWInst::And: n = binInt(s, Instruction::And, old, v, w, nullptr); break;
                case AtomicRMWInst::Or: n = binInt(s, Instruction::Or, old, v, w, nullptr); break;
                default: throw Unsupported("atomicrmw");
            }
            store(s, p, n, ty);
            done(old);
            return;
        }
        case Instruction::AtomicCmpXchg:
        {
            auto& a = cast<AtomicCmpXchgInst>(I);
            uint64_t p = concretize(s, get(s, a.getPointerOperand()), work, "atomic address");
            Type* t = a.getCompareOperand()->getType();
            Val old = load(s, p, t), c = get(s, a.getCompareOperand());
            Val eq = icmp(s, CmpInst::ICMP_EQ, old, c, widthOf(t));
            if (eq.k != Val::I) throw Unsupported("symbolic cmpxchg");
            if (eq.i) store(s, p, get(s, a.getNewValOperand()), t);
            done(Val::mkA({old, eq}));
            return;
        }
        default: throw Unsupported("instruction " + istr(&I));
    }
}

// ------------------------------------------------------------ calls
void Engine::doCall(State& s, CallBase* cs, std::vector<State>& work)
{
    if (cs->isInlineAsm()) { finishCall(s, cs, Val(), work); return; }
    Function* f = cs->getCalledFunction();
    if (!f)
    {
        Value* cv = cs->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        f = dyn_cast<Function>(cv);
    }
    if (!f)
    {
        uint64_t a = concretize(s, get(s, cs->getCalledOperand()), work, "call target");
        auto it = addrFn.find(a);
        if (it == addrFn.end()) memErr(s, "indirect call through an invalid function pointer");
        f = it->second;
    }
    if (f->isIntrinsic())
    {
        std::vector<Val> args;
        if (!isa<DbgInfoIntrinsic>(cs))
            for (auto& a : cs->args()) args.push_back(isa<MetadataAsValue>(a.get()) ? Val() : get(s, a.get()));
        Val ret;
        if (intrinsic(s, f, args, cs, work, ret)) finishCall(s, cs, ret, work);
        return;
    }
    std::vector<Val> args;
    for (auto& a : cs->args()) args.push_back(get(s, a.get()));
    // contract replacement
    if (!s.replace.empty())
        for (auto& r : s.replace)
            if (std::regex_search(dem(f), std::regex(r.first)) && addrFn[r.second] != f)
            {
                callFn(s, addrFn[r.second], args, cs);
                return;
            }
    Val ret;
    size_t depth = s.st.size();
    (void)depth;
    int r = 0;
    if (f->isDeclaration() || f->getName().starts_with("ctv_"))
        r = external(s, f, args, cs, work, ret) ? 1 : 2;
    else
    {
        const std::string& d = dem(f);
        // output streams carry no behaviour we reason about
        static const char* ios[] = {"std::ostream& Eigen::operator<<", "std::basic_ostream<char, std::char_traits<char>>& std::operator<<", "std::basic_ostream<char, std::char_traits<char>>& Eigen::", "std::basic_ostream<char, std::char_traits<char> >& std::", "std::basic_ostream<char, std::char_traits<char> >& Eigen::", "std::ostream& Eigen::internal::print_matrix", "std::basic_ostream<char, std::char_traits<char>>& std::"};
        for (auto* p : ios)
            if (d.compare(0, strlen(p), p) == 0)
            {
                externs.insert("iostream output (no-op)");
                finishCall(s, cs, args.empty() ? Val() : args[0], work);
                return;
            }
        callFn(s, f, args, cs);
        return;
    }
    if (r == 1) finishCall(s, cs, ret, work);
}

bool Engine::intrinsic(State& s, Function* f, std::vector<Val>& a, CallBase* cs, std::vector<State>& work, Val& ret)
{
    Type* ty = cs->getType();
    auto v1 = [&](const char* n) {
        auto one = [&](const Val& x) { return Val::mkR(mathFn(s, n, {realE(x)})); };
        if (a[0].k == Val::A) { std::vector<Val> r; for (auto& x : *a[0].a) r.push_back(one(x)); return Val::mkA(r); }
        return one(a[0]);
    };
    auto v2 = [&](const char* n) {
        if (a[0].k == Val::A) { std::vector<Val> r; for (size_t i = 0; i < a[0].a->size(); i++) r.push_back(Val::mkR(mathFn(s, n, {realE((*a[0].a)[i]), realE((*a[1].a)[i])}))); return Val::mkA(r); }
        return Val::mkR(mathFn(s, n, {realE(a[0]), realE(a[1])}));
    };
    switch (f->getIntrinsicID())
    {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::vaend:
            return true;
        case Intrinsic::stacksave: ret = Val::mkI(0); return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptrmask:
            ret = a[0];
            return true;
        case Intrinsic::is_constant: ret = Val::mkI(0); return true;
        case Intrinsic::objectsize: ret = Val::mkI(~0ULL); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        {
            uint64_t n = concretize(s, a[2], work, "memcpy size");
            if (!n) return true;
            uint64_t d = concretize(s, a[0], work, "memcpy dest"), sr = concretize(s, a[1], work, "memcpy source");
            copyMem(s, d, sr, n);
            return true;
        }
        case Intrinsic::memset:
        {
            uint64_t n = concretize(s, a[2], work, "memset size");
            if (!n) return true;
            uint64_t d = concretize(s, a[0], work, "memset dest");
            if (a[1].k != Val::I) throw Unsupported("symbolic memset value");
            setMem(s, d, a[1].i, n);
            return true;
        }
        case Intrinsic::fabs: ret = v1("fabs"); return true;
        case Intrinsic::sqrt: ret = v1("sqrt"); return true;
        case Intrinsic::floor: ret = v1("floor"); return true;
        case Intrinsic::ceil: ret = v1("ceil"); return true;
        case Intrinsic::trunc: ret = v1("trunc"); return true;
        case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: ret = v1("round"); return true;
        case Intrinsic::lround: case Intrinsic::llround:
            ret = intV(eIte(eLe(eReal(0), realE(a[0])), eFloor(eAdd(realE(a[0]), eReal(mpq_class(1, 2)))), eNeg(eFloor(eSub(eReal(mpq_class(1, 2)), realE(a[0]))))), 64);
            return true;
        case Intrinsic::sin: ret = v1("sin"); return true;
        case Intrinsic::cos: ret = v1("cos"); return true;
        case Intrinsic::exp: ret = v1("exp"); return true;
        case Intrinsic::log: ret = v1("log"); return true;
        case Intrinsic::minnum: ret = v2("fmin"); return true;
        case Intrinsic::maxnum: ret = v2("fmax"); return true;
        case Intrinsic::copysign: ret = v2("copysign"); return true;
        case Intrinsic::pow: ret = v2("pow"); return true;
        case Intrinsic::powi:
            if (a[1].k == Val::I) { ret = Val::mkR(ePow(realE(a[0]), (int)a[1].i)); return true; }
            break;
        case Intrinsic::ldexp:
            if (a[1].k == Val::I) { ret = Val::mkR(eMul(realE(a[0]), ePow(eReal(2), (int)a[1].i))); return true; }
            break;
        case Intrinsic::fmuladd: case Intrinsic::fma:
            if (a[0].k == Val::A)
            {
                std::vector<Val> r;
                for (size_t i = 0; i < a[0].a->size(); i++) r.push_back(Val::mkR(eAdd(eMul(realE((*a[0].a)[i]), realE((*a[1].a)[i])), realE((*a[2].a)[i]))));
                ret = Val::mkA(r);
            }
            else ret = Val::mkR(eAdd(eMul(realE(a[0]), realE(a[1])), realE(a[2])));
            return true;
        case Intrinsic::is_fpclass:
        {
            uint64_t m = a[1].i;
            E x = realE(a[0]);
            if (isConst(x) && abs(x->c) >= infConst()) ret = Val::mkI((m & (x->c > 0 ? 0x200 : 0x4)) != 0);
            else if (x == eApp("NaN", {}, S_REAL)) ret = Val::mkI((m & 3) != 0);
            else
            {
                bool nz = m & 0x18, neg = false;   // normal/subnormal negative bits 3,4; zero 5,6; positive 7,8
                (void)neg;
                bool ng = m & 0x18, ze = m & 0x60, po = m & 0x180;
                (void)nz;
                E r = eFalse();
                if (ng) r = eOr(r, eLt(x, eReal(0)));
                if (ze) r = eOr(r, eEq(x, eReal(0)));
                if (po) r = eOr(r, eLt(eReal(0), x));
                if (ng && ze && po) r = eTrue();
                ret = Val::mkB(r);
            }
            return true;
        }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        {
            unsigned id = f->getIntrinsicID();
            unsigned pr = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
            unsigned w = widthOf(ty);
            Val c = icmp(s, pr, a[0], a[1], w);
            if (c.k == Val::I) { ret = c.i ? a[0] : a[1]; return true; }
            E ce = boolE(c);
            if (valid(s, ce)) ret = a[0];
            else if (valid(s, eNot(ce))) ret = a[1];
            else ret = intV(eIte(ce, intE(a[0], w), intE(a[1], w)), w);
            return true;
        }
        case Intrinsic::abs:
        {
            unsigned w = widthOf(ty);
            ret = intV(eAbs(intE(a[0], w)), w);
            return true;
        }
        case Intrinsic::ctpop: if (a[0].k == Val::I) { ret = Val::mkI(__builtin_popcountll(a[0].i)); return true; } break;
        case Intrinsic::ctlz:
            if (a[0].k == Val::I) { unsigned w = widthOf(ty); ret = Val::mkI(a[0].i ? __builtin_clzll(a[0].i) - (64 - w) : w); return true; }
            break;
        case Intrinsic::cttz:
            if (a[0].k == Val::I) { unsigned w = widthOf(ty); ret = Val::mkI(a[0].i ? __builtin_ctzll(a[0].i) : w); return true; }
            break;
        case Intrinsic::bswap: if (a[0].k == Val::I) { unsigned w = widthOf(ty); ret = Val::mkI(__builtin_bswap64(a[0].i) >> (64 - w)); return true; } break;
        case Intrinsic::fshl: case Intrinsic::fshr:
            if (a[0].k == Val::I && a[1].k == Val::I && a[2].k == Val::I)
            {
                unsigned w = widthOf(ty);
                uint64_t sh = a[2].i % w;
                if (f->getIntrinsicID() == Intrinsic::fshr) sh = (w - sh) % w, sh = sh;
                uint64_t hi = maskw(a[0].i, w), lo = maskw(a[1].i, w);
                if (f->getIntrinsicID() == Intrinsic::fshl) ret = Val::mkI(maskw(sh ? (hi << sh) | (lo >> (w - sh)) : hi, w));
                else ret = Val::mkI(maskw(sh ? (hi << sh) | (lo >> (w - sh)) : lo, w));
                return true;
            }
            break;
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        {
            unsigned id = f->getIntrinsicID();
            unsigned w = widthOf(a.size() ? cs->getArgOperand(0)->getType() : ty);
            unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
            Val r = binInt(s, op, a[0], a[1], w, nullptr);
            bool ov = false;
            if (a[0].k == Val::I && a[1].k == Val::I)
            {
                bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                __int128 x = sg ? (__int128)sx(a[0].i, w) : (__int128)maskw(a[0].i, w), y = sg ? (__int128)sx(a[1].i, w) : (__int128)maskw(a[1].i, w);
                if (op == Instruction::Mul && !sg) { unsigned __int128 u = (unsigned __int128)maskw(a[0].i, w) * maskw(a[1].i, w); ov = w < 64 ? (u >> w) != 0 : (u >> 64) != 0; }
                else
                {
                    __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
                    __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1;
                    ov = z < lo || z > hi;
                }
                ret = Val::mkA({r, Val::mkI(ov)});
            }
            else if (id == Intrinsic::usub_with_overflow) ret = Val::mkA({r, icmp(s, CmpInst::ICMP_ULT, a[0], a[1], w)});
            else ret = Val::mkA({r, Val::mkI(0)});
            return true;
        }
        case Intrinsic::usub_sat:
        {
            unsigned w = widthOf(ty);
            Val c = icmp(s, CmpInst::ICMP_ULT, a[0], a[1], w);
            if (c.k == Val::I) { ret = c.i ? Val::mkI(0) : binInt(s, Instruction::Sub, a[0], a[1], w, nullptr); return true; }
            ret = intV(eIte(boolE(c), eInt(0), eSub(intE(a[0], w), intE(a[1], w))), w);
            return true;
        }
        case Intrinsic::eh_typeid_for:
            ret = Val::mkI(a[0].i == 0 ? 1 : (a[0].i & 0x7fffffff));
            return true;
        case Intrinsic::trap:
            fail(s, "no-trap", "trap in " + dem(s.st.back().fn));
            throw PathEnd();
        case Intrinsic::vector_reduce_fadd:
        {
            E r = realE(a[0]);
            for (auto& x : *a[1].a) r = eAdd(r, realE(x));
            ret = Val::mkR(r);
            return true;
        }
        case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
        {
            Val r = (*a[0].a)[0];
            unsigned w = ty->getScalarSizeInBits();
            for (size_t i = 1; i < a[0].a->size(); i++) r = binInt(s, f->getIntrinsicID() == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And, r, (*a[0].a)[i], w, nullptr);
            ret = r;
            return true;
        }
        default: break;
    }
    throw Unsupported("intrinsic " + f->getName().str());
}

static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

// returns true when the call is complete (ret valid); false when control was transferred (frame pushed / unwound)
bool Engine::external(State& s, Function* f, std::vector<Val>& a, CallBase* cs, std::vector<State>& work, Val& ret)
{
    std::string n = f->getName().str();
    // ---------------- harness interface
    if (startsWith(n, "ctv_"))
    {
        if (n == "ctv_real")
        {
            std::string nm = cstr(s, a[0].i);
            E v = fresh(s, nm, S_REAL);
            ret = Val::mkR(v);
            return true;
        }
        if (n == "ctv_int")
        {
            std::string nm = cstr(s, a[0].i);
            E v = fresh(s, nm, S_INT);
            s.pc.push_back(eLe(intE(a[1], 64), v));
            s.pc.push_back(eLe(v, intE(a[2], 64)));
            ret = intV(v, 64);
            return true;
        }
        if (n == "ctv_choose")
        {
            // fork over the finite range lo..hi
            std::string nm = cstr(s, a[0].i);
            int64_t lo = (int64_t)a[1].i, hi = (int64_t)a[2].i;
            E v = fresh(s, nm, S_INT);
            for (int64_t k = lo + 1; k <= hi; k++)
            {
                State o = s;
                o.pc.push_back(eEq(v, eInt(k)));
                finishCall(o, cs, Val::mkI((uint64_t)k), work);
                work.push_back(std::move(o));
            }
            s.pc.push_back(eEq(v, eInt(lo)));
            ret = Val::mkI((uint64_t)lo);
            return true;
        }
        if (n == "ctv_fiber_new")  // a second flow of control, started by the first switch to it
        {
            if (s.fibers.empty()) s.fibers.resize(1);
            std::vector<Frame> keep;
            keep.swap(s.st);
            auto it = addrFn.find(a[0].i);
            if (it == addrFn.end()) throw Unsupported("fiber function");
            callFn(s, it->second, {a[1]}, nullptr);
            s.st.back().ghost = true;
            keep.swap(s.st);
            State::Fiber f;
            f.st.swap(keep);
            s.fibers.push_back(std::move(f));
            ret = Val::mkI(s.fibers.size() - 1);
            return true;
        }
        if (n == "ctv_fiber_switch")
        {
            size_t to = a[0].i;
            if (to >= s.fibers.size()) throw Unsupported("no such fiber");
            if (to == s.fiber) return true;
            finishCall(s, cs, Val(), work);
            State::Fiber& me = s.fibers[s.fiber];
            State::Fiber& ot = s.fibers[to];
            me.st.swap(s.st), me.caught.swap(s.caught), me.cur = s.cur, me.unwinding = s.unwinding;
            s.st.clear();
            s.caught.clear();
            s.st.swap(ot.st), s.caught.swap(ot.caught), s.cur = ot.cur, s.unwinding = ot.unwinding;
            s.fiber = to;
            return false;
        }
        if (n == "ctv_bool")
        {
            std::string nm = cstr(s, a[0].i);
            ret = Val::mkB(fresh(s, nm, S_BOOL));
            return true;
        }
        if (n == "ctv_assume") { assume(s, boolE(a[0])); return true; }
        if (n == "ctv_check") { oblige(s, boolE(a[0]), cstr(s, a[1].i)); return true; }
        if (n == "ctv_eq") { obligeEq(s, realE(a[0]), realE(a[1]), cstr(s, a[2].i)); return true; }
        if (n == "ctv_eqi") { obligeEq(s, intE(a[0], 64), intE(a[1], 64), cstr(s, a[2].i)); return true; }
        if (n == "ctv_fail") { fail(s, cstr(s, a[0].i), "reached"); throw PathEnd(); }
        if (n == "ctv_cand") { gCand.push_back(realE(a[0])); return true; }
        if (n == "ctv_inv") { gInv.push_back(boolE(a[0])); return true; }
        if (n == "ctv_cover") { if (!dry) covers[cstr(s, a[0].i)]++; return true; }
        if (n == "ctv_is_symbolic") { ret = Val::mkI(1); return true; }
        if (n == "ctv_uf")
        {
            std::string nm = cstr(s, a[0].i);
            std::vector<E> args;
            for (uint64_t i = 0; i < a[1].i; i++) args.push_back(realE(load(s, a[2].i + 8 * i, Type::getDoubleTy(M->getContext()))));
            ret = Val::mkR(eApp(nm, args, S_REAL));
            return true;
        }
        if (n == "ctv_ufi")
        {
            // function of an integer and reals
            std::string nm = cstr(s, a[0].i);
            std::vector<E> args{eToReal(intE(a[1], 64))};
            for (uint64_t i = 0; i < a[2].i; i++) args.push_back(realE(load(s, a[3].i + 8 * i, Type::getDoubleTy(M->getContext()))));
            ret = Val::mkR(eApp(nm, args, S_REAL));
            return true;
        }
        if (n == "ctv_diff")
        {
            E x = realE(a[1]);
            if (x->k != K_VAR) throw Unsupported("ctv_diff with respect to a non-variable");
            ret = Val::mkR(eDiff(realE(a[0]), x));
            return true;
        }
        if (n == "ctv_subst")   // value of e with variable x replaced
        {
            Subst m;
            m[realE(a[1])] = realE(a[2]);
            ret = Val::mkR(eSubst(realE(a[0]), m));
            return true;
        }
        if (n == "ctv_replace") { s.replace.push_back({cstr(s, a[0].i), a[1].i}); return true; }
        if (n == "ctv_unreplace") { s.replace.clear(); return true; }
        if (n == "ctv_loop") { s.loopContracts.push_back(a[0].i); return true; }
        if (n == "ctv_loop_end") { s.loopContracts.clear(); return true; }
        if (n == "ctv_opt") { s.opts[cstr(s, a[0].i)] = (int)a[1].i; return true; }
        if (n == "ctv_dump") { std::cerr << "DUMP " << cstr(s, a[0].i) << " = " << (a[1].k == Val::R ? eStr(a[1].e) : std::to_string(a[1].i)) << "\n"; return true; }
        if (n == "ctv_dumppc") { for (E p : s.pc) std::cerr << "PC " << eStr(p) << "\n"; return true; }
        if (!f->isDeclaration()) { callFn(s, f, a, cs); return false; }
        throw Unsupported("unknown harness call " + n);
    }
    externs.insert(n);
    // ---------------- allocation
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t")
    {
        if (a[0].k == Val::S) { ret = Val::mkI(allocSym(s, a[0].e, "heap")); return true; }
        ret = Val::mkI(alloc(s, a[0].i, "heap", true));
        return true;
    }
    if (n == "aligned_alloc") { ret = Val::mkI(alloc(s, a[1].i, "heap", true)); return true; }
    if (n == "posix_memalign")
    {
        uint64_t p = alloc(s, a[2].i, "heap", true);
        storeCell(s, a[0].i, Val::mkI(p), 8);
        ret = Val::mkI(0);
        return true;
    }
    if (n == "calloc")
    {
        uint64_t sz = a[0].i * a[1].i, p = alloc(s, sz, "heap", true);
        setMem(s, p, 0, sz);
        ret = Val::mkI(p);
        return true;
    }
    if (n == "realloc")
    {
        uint64_t p = alloc(s, a[1].i, "heap", true);
        if (a[0].i)
        {
            ObjP o = find(s, a[0].i);
            uint64_t m = std::min<uint64_t>(o ? o->size : 0, a[1].i);
            o.reset();
            if (m) copyMem(s, p, a[0].i, m);
            s.mem.erase(a[0].i);
        }
        ret = Val::mkI(p);
        return true;
    }
    if (n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv"))
    {
        if (a[0].k == Val::U) throw Unsupported("free of undefined pointer");
        if (a[0].k == Val::I && a[0].i == 0) return true;
        uint64_t p = concretize(s, a[0], work, "free");
        auto it = s.mem.find(p);
        if (it == s.mem.end() || !it->second->alive) memErr(s, "invalid or double free");
        s.mem.erase(it);
        return true;
    }
    if (n == "memcpy" || n == "memmove")
    {
        uint64_t k = concretize(s, a[2], work, "memcpy size");
        if (k) copyMem(s, concretize(s, a[0], work, "memcpy dest"), concretize(s, a[1], work, "memcpy src"), k);
        ret = a[0];
        return true;
    }
    if (n == "memset")
    {
        uint64_t k = concretize(s, a[2], work, "memset size");
        if (k) setMem(s, concretize(s, a[0], work, "memset dest"), a[1].i, k);
        ret = a[0];
        return true;
    }
    if (n == "strlen") { ret = Val::mkI(cstr(s, a[0].i).size()); return true; }
    if (n == "strcmp")
    {
        int c = cstr(s, a[0].i).compare(cstr(s, a[1].i));
        ret = Val::mkI((uint32_t)c);
        return true;
    }
    if (n == "memcmp" || n == "bcmp")
    {
        uint64_t k = concretize(s, a[2], work, "memcmp size");
        int r = 0;
        for (uint64_t i = 0; i < k && !r; i++)
        {
            Val x = loadCell(s, a[0].i + i, 1, 0), y = loadCell(s, a[1].i + i, 1, 0);
            if (x.k != Val::I || y.k != Val::I) throw Unsupported("symbolic memcmp");
            r = (int)(x.i & 0xff) - (int)(y.i & 0xff);
        }
        ret = Val::mkI((uint32_t)r);
        return true;
    }
    if (n == "memchr")
    {
        for (uint64_t i = 0; i < a[2].i; i++)
            if ((loadCell(s, a[0].i + i, 1, 0).i & 0xff) == (a[1].i & 0xff)) { ret = Val::mkI(a[0].i + i); return true; }
        ret = Val::mkI(0);
        return true;
    }
    // ---------------- exceptions
    if (n == "__cxa_allocate_exception") { ret = Val::mkI(alloc(s, a[0].i + 16, "exception", true)); return true; }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_throw") { throwExc(s, a[0].i, a[1].i, work); return false; }
    if (n == "__cxa_begin_catch") { s.caught.push_back(s.cur); ret = a[0]; return true; }
    if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
    if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
    if (n == "__cxa_rethrow") { if (!s.caught.empty()) s.cur = s.caught.back(); unwind(s, work); return false; }
    if (n == "__gxx_personality_v0") return true;
    if (n == "_Unwind_Resume") { s.st.pop_back(); unwind(s, work); return false; }
    if (n == "__cxa_guard_acquire")
    {
        Val v = loadCell(s, a[0].i, 1, 0);
        ret = Val::mkI(v.k == Val::I && (v.i & 1) ? 0 : 1);
        return true;
    }
    if (n == "__cxa_guard_release") { storeCell(s, a[0].i, Val::mkI(1), 1); return true; }
    if (n == "__cxa_guard_abort") return true;
    if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { ret = Val::mkI(0); return true; }
    if (n == "__dynamic_cast")
    {
        uint64_t p = concretize(s, a[0], work, "dynamic_cast"), dst = a[2].i;
        uint64_t vt = loadCell(s, p, 8, 0).i;
        uint64_t top = loadCell(s, vt - 16, 8, 0).i, ti = loadCell(s, vt - 8, 8, 0).i;
        p += top;  // start of the complete object
        std::string want = tiName(dst);
        std::function<bool(uint64_t, uint64_t, uint64_t&)> find = [&](uint64_t t, uint64_t off, uint64_t& out) {
            if (t == dst || tiName(t) == want) { out = off; return true; }
            for (auto& q : gvAddr)
                if (q.second == t && q.first->hasInitializer())
                {
                    auto* init = q.first->getInitializer();
                    unsigned no = init->getNumOperands();
                    if (no == 3)
                    {
                        auto* g = dyn_cast<GlobalVariable>(init->getOperand(2)->stripPointerCasts());
                        return g && find(gvAddr.at(g), off, out);
                    }
                    for (unsigned k = 4; k + 1 < no; k += 2)
                    {
                        auto* g = dyn_cast<GlobalVariable>(init->getOperand(k)->stripPointerCasts());
                        auto* fl = dyn_cast<ConstantInt>(init->getOperand(k + 1));
                        if (!g || !fl) continue;
                        int64_t v = fl->getSExtValue();
                        if (v & 1) throw Unsupported("dynamic_cast through a virtual base");
                        if (find(gvAddr.at(g), off + (v >> 8), out)) return true;
                    }
                    return false;
                }
            return false;
        };
        uint64_t off = 0;
        ret = Val::mkI(find(ti, 0, off) ? p + off : 0);
        return true;
    }
    if (n == "__cxa_pure_virtual") { memErr(s, "pure virtual call"); }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "exit" || n == "__assert_fail" || n == "_exit" || n == "__clang_call_terminate")
    {
        fail(s, "no-abort", n + " called");
        throw PathEnd();
    }
    if (startsWith(n, "_ZSt20__throw_length_error")) { throwStd(s, "_ZTISt12length_error", work); return false; }
    if (startsWith(n, "_ZSt20__throw_out_of_range") || startsWith(n, "_ZSt24__throw_out_of_range_fmt")) { throwStd(s, "_ZTISt12out_of_range", work); return false; }
    if (startsWith(n, "_ZSt17__throw_bad_alloc") || startsWith(n, "_ZSt28__throw_bad_array_new_length")) { throwStd(s, "_ZTISt9bad_alloc", work); return false; }
    if (startsWith(n, "_ZSt25__throw_bad_function_call")) { throwStd(s, "_ZTISt17bad_function_call", work); return false; }
    if (startsWith(n, "_ZSt19__throw_logic_error")) { throwStd(s, "_ZTISt11logic_error", work); return false; }
    if (startsWith(n, "_ZSt16__throw_bad_cast")) { throwStd(s, "_ZTISt8bad_cast", work); return false; }
    if (startsWith(n, "_ZSt20__throw_system_error")) { throwStd(s, "_ZTISt12system_error", work); return false; }
    // std exception objects: opaque
    {
        const std::string& d = dem(f);
        static const std::regex exc("^std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument|exception|domain_error|range_error|bad_alloc|overflow_error|bad_function_call|bad_cast|system_error)::");
        if (std::regex_search(d, exc))
        {
            if (d.find("::what()") != std::string::npos)
            {
                uint64_t p = alloc(s, 16, "what", true);
                setMem(s, p, 0, 16);
                ret = Val::mkI(p);
            }
            return true;
        }
        if (d.find("std::ios_base") == 0 || d.find("std::basic_ios<") == 0 || d.find("std::locale") == 0 || d.find("std::basic_streambuf") == 0 || d.find("std::__basic_file") == 0
            || d.find("std::basic_ifstream") == 0 || d.find("std::basic_filebuf") == 0) { ret = cs->getType()->isPointerTy() ? Val::mkI(0) : Val::mkI(0); return true; }
        if (d.find("std::ostream") != std::string::npos || d.find("std::basic_ostream") != std::string::npos || d.find("std::__ostream_insert") != std::string::npos || d.find("std::ostream::") == 0 || d.find("stringstream") != std::string::npos || d.find("std::istream") == 0)
        {
            if (cs->getType()->isPointerTy()) ret = a[0];
            else if (!cs->getType()->isVoidTy()) ret = Val::mkI(0);
            return true;
        }
    }
    // ---------------- libm
    static const std::set<std::string> m1 = {"sin", "cos", "tan", "exp", "log", "sqrt", "fabs", "floor", "ceil", "round", "trunc", "tanh", "atan", "asin", "acos", "sinh", "cosh", "cbrt", "erf", "log10", "log2", "exp2", "rint", "nearbyint", "expm1", "log1p"};
    static const std::set<std::string> m2 = {"pow", "atan2", "fmod", "fmin", "fmax", "copysign", "hypot", "cabs"};
    if (n == "__divdc3" || n == "__muldc3")
    {
        E x = realE(a[0]), y = realE(a[1]), c = realE(a[2]), d = realE(a[3]);
        if (n == "__muldc3") { ret = Val::mkA({Val::mkR(eSub(eMul(x, c), eMul(y, d))), Val::mkR(eAdd(eMul(x, d), eMul(y, c)))}); return true; }
        E den = eAdd(eMul(c, c), eMul(d, d));
        ret = Val::mkA({Val::mkR(eDiv(eAdd(eMul(x, c), eMul(y, d)), den)), Val::mkR(eDiv(eSub(eMul(y, c), eMul(x, d)), den))});
        return true;
    }
    if (m1.count(n)) { ret = Val::mkR(mathFn(s, n, {realE(a[0])})); return true; }
    if (m2.count(n)) { ret = Val::mkR(mathFn(s, n, {realE(a[0]), realE(a[1])})); return true; }
    if (n == "sincos")
    {
        storeCell(s, a[1].i, Val::mkR(mathFn(s, "sin", {realE(a[0])})), 8);
        storeCell(s, a[2].i, Val::mkR(mathFn(s, "cos", {realE(a[0])})), 8);
        return true;
    }
    if (n == "ldexp" && a[1].k == Val::I) { ret = Val::mkR(eMul(realE(a[0]), ePow(eReal(2), (int)(int32_t)a[1].i))); return true; }
    if (n == "lround" || n == "llround") { ret = intV(eIte(eLe(eReal(0), realE(a[0])), eFloor(eAdd(realE(a[0]), eReal(mpq_class(1, 2)))), eNeg(eFloor(eSub(eReal(mpq_class(1, 2)), realE(a[0]))))), 64); return true; }
    if (n == "__finite" || n == "finite") { ret = Val::mkI(1); return true; }
    // ---------------- printing / misc without semantic effect
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "fputc") { ret = Val::mkI(0); return true; }
    if (startsWith(n, "pthread_mutex") || startsWith(n, "pthread_cond") || n == "sched_yield" || startsWith(n, "_ZNSt18condition_variable") || n == "pthread_once" || n == "usleep" || n == "nanosleep") { ret = Val::mkI(0); return true; }
    if (n == "pthread_self") { ret = Val::mkI(1); return true; }
    if (n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "clock" || n == "time" || n == "random" || n == "rand")
    {
        E v = fresh(s, "ext_" + n.substr(0, 30), S_INT);
        s.pc.push_back(eLe(eInt(0), v));
        ret = intV(v, 64);
        return true;
    }
    if (n == "srand") return true;
    throw Unsupported("external function " + dem(f));
}
