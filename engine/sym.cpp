// Loop contracts.
// Within a region opened by ctv_loop(contract), a loop whose exit condition is symbolic is not unrolled but cut:
//   * the contract names candidate terms c_j(it) (ctv_cand) and conditions p(it) (ctv_inv) over the iteration number;
//   * every location (phi, memory cell) that an iteration changes is found by trial iterations from an arbitrary one; its invariant is
//     "equals c_j(it)", "equals its entry value + it * step" (integers) or nothing (arbitrary value);  every other location keeps its entry value;
//   * candidates that do not hold on entry or are not preserved are dropped; the surviving conjunction is then proved inductive by a final
//     iteration from an arbitrary one, with all obligations inside the body active, and the code after the loop continues from it.
#include "exec.h"
using namespace llvm;

uint64_t Engine::allocSym(State& s, E size, const char* kind) { throw Unsupported("allocation of symbolic size " + eStr(size, 100)); }
Val Engine::symLoad(State& s, E addr, Type* t, std::vector<State>& work, bool& done) { done = false; return Val(); }
bool Engine::symStore(State& s, E addr, const Val& v, Type* t) { return false; }
Val Engine::readLayers(State& s, Object& o, E off, uint32_t size, int cls) { throw Unsupported("readLayers"); }

static bool same(const Val& a, const Val& b)
{
    if (a.k != b.k) return false;
    switch (a.k)
    {
        case Val::U: return true;
        case Val::I: return a.i == b.i;
        case Val::A:
            if (a.a->size() != b.a->size()) return false;
            for (size_t i = 0; i < a.a->size(); i++) if (!same((*a.a)[i], (*b.a)[i])) return false;
            return true;
        default: return a.e == b.e;
    }
}
static bool symbolicVal(const Val& v) { return v.k == Val::S || v.k == Val::B || (v.k == Val::R && !isConst(v.e)); }

struct Engine::LoopCtx
{
    struct Inv { int cls; size_t j; mpq_class step; unsigned w; };  // 0 candidate j, 1 integer recurrence, 2 arbitrary real, 3 undefined
    std::map<const PHINode*, Inv> phi;
    std::map<std::pair<uint64_t, uint64_t>, Inv> mem;
    std::vector<char> inv;
    std::vector<E> c0;
};

bool Engine::symbolicTrip(State& s, Loop* L)
{
    SmallVector<BasicBlock*, 8> ex;
    L->getExitingBlocks(ex);
    std::set<const Value*> seen;
    std::vector<const Value*> todo;
    for (auto* b : ex)
    {
        if (auto* br = dyn_cast<BranchInst>(b->getTerminator())) { if (br->isConditional()) todo.push_back(br->getCondition()); }
        else if (auto* sw = dyn_cast<SwitchInst>(b->getTerminator())) todo.push_back(sw->getCondition());
    }
    auto outside = [&](const Value* v) { auto* i = dyn_cast<Instruction>(v); return !i || !L->contains(i); };
    while (!todo.empty())
    {
        const Value* v = todo.back();
        todo.pop_back();
        if (!seen.insert(v).second || isa<BasicBlock>(v)) continue;
        if (outside(v))
        {
            if (isa<Constant>(v) || isa<Argument>(v) || isa<Instruction>(v))
                if (symbolicVal(get(s, v))) return true;
            continue;
        }
        auto* i = cast<Instruction>(v);
        if (auto* p = dyn_cast<PHINode>(i))
        {
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) todo.push_back(p->getIncomingValue(k));
            continue;
        }
        if (auto* ld = dyn_cast<LoadInst>(i))
        {
            const Value* ptr = ld->getPointerOperand();
            uint64_t off = 0;
            APInt ap(64, 0);
            ptr = ptr->stripAndAccumulateConstantOffsets(*DL, ap, true);
            off = ap.getZExtValue();
            if (outside(ptr))
            {
                Val a = get(s, ptr);
                if (a.k == Val::I)
                {
                    ObjP o = find(s, a.i + off);
                    if (o)
                    {
                        auto c = o->cells.find(a.i + off - o->base);
                        if (c != o->cells.end() && symbolicVal(c->second.v)) return true;
                    }
                }
            }
            else todo.push_back(ptr);
            continue;
        }
        if (isa<CallBase>(i)) { if (i->getType()->isFloatingPointTy()) return true; continue; }
        for (auto& op : i->operands()) todo.push_back(op.get());
    }
    return false;
}
// evaluate the contract at iteration `it`; the candidate terms and conditions are collected
void Engine::loopTerms(State& s, uint64_t fn, E it, int mode, std::vector<E>& cand, std::vector<E>& inv)
{
    State c = s;
    c.loopContracts.clear();
    size_t d = c.st.size();
    auto f = addrFn.find(fn);
    if (f == addrFn.end()) throw Unsupported("loop contract is not a function");
    gCand.clear(), gInv.clear();
    callFn(c, f->second, {intV(it, 64), Val::mkI(mode)}, nullptr);
    c.st.back().ghost = true;
    std::vector<State> out;
    explore(std::move(c), [d](State& x) { return x.st.size() == d; }, out);
    if (out.size() != 1) throw Unsupported("loop contract forks");
    cand = gCand, inv = gInv;
    s.pc = out[0].pc;
    s.names = out[0].names;
}

bool Engine::tryLoopContract(State& s, BasicBlock* header, BasicBlock* from, std::vector<State>& work)
{
    if (s.loopContracts.empty()) return false;
    Function* F = s.st.back().fn;
    Loop* L = loops(F).li->getLoopFor(header);
    if (!L || L->getHeader() != header || L->contains(from)) return false;
    if (!symbolicTrip(s, L)) return false;
    uint64_t fn = s.loopContracts.front();
    size_t d = s.st.size();
    State s0 = s;
    s0.loopContracts.clear();
    {
        std::vector<std::pair<const PHINode*, Val>> vals;
        for (auto& phi : header->phis()) vals.push_back({&phi, get(s0, phi.getIncomingValueForBlock(from))});
        for (auto& p : vals) set(s0, p.first, p.second);
        Frame& f = s0.st.back();
        f.prev = from;
        f.bb = header;
        f.it = header->getFirstNonPHIIt();
    }
    LoopCtx C;
    std::vector<E> inv0;
    loopTerms(s0, fn, eInt(0), 0, C.c0, inv0);
    for (E e : inv0) { Obl o; C.inv.push_back(prove(s0.pc, e, 0, o)); }

    E m = nullptr;
    auto build = [&](std::vector<E>& cm) {
        State t = s0;
        m = fresh(t, "it", S_INT);
        t.pc.push_back(eLe(eInt(0), m));
        std::vector<E> iv;
        loopTerms(t, fn, m, 1, cm, iv);
        for (size_t j = 0; j < iv.size(); j++) if (C.inv[j]) assume(t, iv[j]);
        auto val = [&](const LoopCtx::Inv& q, const Val& entry) {
            switch (q.cls)
            {
                case 0: return Val::mkR(cm[q.j]);
                case 1: return intV(eAdd(intE(entry, q.w), eScale(m, q.step)), q.w);
                case 2: return Val::mkR(fresh(t, "loopvar", S_REAL));
                default: return Val();
            }
        };
        for (auto& p : C.phi) set(t, p.first, val(p.second, get(s0, p.first)));
        for (auto& p : C.mem)
        {
            Object& o = wr(t, p.first.first);
            auto c = o.cells.find(p.first.second);
            if (c == o.cells.end()) continue;
            if (p.second.cls == 3) o.cells.erase(c);
            else c->second.v = val(p.second, s0.mem.at(p.first.first)->cells.at(p.first.second).v);
        }
        return t;
    };
    auto atLatch = [&](State& x) { return x.st.size() == d && x.st.back().fn == F && x.st.back().bb == header && L->contains(x.st.back().prev) && x.st.back().it == header->getFirstNonPHIIt(); };
    auto stop = [&](State& x) { return x.st.size() < d || atLatch(x) || (x.st.size() == d && !L->contains(x.st.back().bb)); };
    auto iterate = [&](State t, std::vector<State>& latch, std::vector<State>& exits) {
        std::vector<State> out;
        explore(std::move(t), stop, out);
        for (auto& x : out)
            if (atLatch(x)) latch.push_back(std::move(x));
            else exits.push_back(std::move(x));
    };
    auto classify = [&](const Val& entry, const Val& now, unsigned w, int tried, LoopCtx::Inv& q) {
        q.w = w, q.cls = 3, q.j = 0;
        if (entry.k == Val::R)
        {
            q.cls = 2;
            for (size_t j = tried; j < C.c0.size(); j++)
            {
                bool eq = C.c0[j] == entry.e;
                if (!eq) { Obl o; eq = !isConst(entry.e) && proveEq0(s0.pc, eSub(entry.e, C.c0[j]), 0, o); }
                if (eq) { q.cls = 0, q.j = j; break; }
            }
            return;
        }
        if ((entry.k == Val::I || entry.k == Val::S) && (now.k == Val::I || now.k == Val::S) && tried == 0)
        {
            E df = eSub(intE(now, w), intE(entry, w));
            if (isConst(df)) q.cls = 1, q.step = df->c;
        }
    };
    auto holds = [&](State& x, const LoopCtx::Inv& q, const Val& before, const Val& now, const std::vector<E>& cn, bool final) {
        if (q.cls >= 2) return true;
        E a, b;
        if (q.cls == 0)
        {
            if (now.k != Val::R) return false;
            a = now.e, b = cn[q.j];
        }
        else
        {
            if (now.k != Val::I && now.k != Val::S) return false;
            a = intE(now, q.w), b = eAdd(intE(before, q.w), eConst(q.step, S_INT));
        }
        if (a == b && !final) return true;
        if (final) { obligeEq(x, a, b, "loop invariant preserved"); return true; }
        Obl o;
        unsigned keep = oTimeout;
        oTimeout = qTimeout;
        bool r = false;
        try { r = proveEq0(x.pc, eSub(a, b), 0, o); } catch (TooBig&) {}
        oTimeout = keep;
        return r;
    };
    std::vector<State> latch, exits;
    for (int round = 0;; round++)
    {
        if (round > 30) throw Unsupported("no loop invariant found");
        bool changed = false;
        std::vector<E> cm;
        State t = build(cm);
        latch.clear(), exits.clear();
        dry++;
        try { iterate(t, latch, exits); } catch (...) { dry--; throw; }
        for (State& x : latch)
        {
            std::vector<E> cn, in;
            try { loopTerms(x, fn, eAdd(m, eInt(1)), 2, cn, in); } catch (...) { dry--; throw; }
            for (auto& phi : header->phis())
            {
                Val e0 = get(s0, &phi), before = get(t, &phi), now = get(x, &phi);
                unsigned w = phi.getType()->isIntegerTy() ? phi.getType()->getIntegerBitWidth() : 64;
                auto it = C.phi.find(&phi);
                if (it == C.phi.end())
                {
                    if (same(e0, now)) continue;
                    LoopCtx::Inv q;
                    classify(e0, now, w, 0, q);
                    C.phi[&phi] = q, changed = true;
                }
                else if (!holds(x, it->second, before, now, cn, false))
                {
                    classify(e0, now, w, it->second.cls == 0 ? it->second.j + 1 : 1, it->second);
                    changed = true;
                }
            }
            for (auto& p : s0.mem)
            {
                auto xo = x.mem.find(p.first);
                if (xo == x.mem.end() || (p.second->alive && !xo->second->alive)) { dry--; throw Unsupported("a loop iteration releases memory of the caller"); }
                if (xo->second == p.second) continue;
                ObjP to = t.mem.at(p.first);
                for (auto& c : p.second->cells)
                {
                    auto n = xo->second->cells.find(c.first);
                    auto b = to->cells.find(c.first);
                    Val now = n != xo->second->cells.end() && n->second.size == c.second.size ? n->second.v : Val();
                    Val before = b != to->cells.end() ? b->second.v : Val();
                    auto key = std::make_pair(p.first, c.first);
                    auto it = C.mem.find(key);
                    if (it == C.mem.end())
                    {
                        if (same(c.second.v, now)) continue;
                        LoopCtx::Inv q;
                        classify(c.second.v, now, c.second.size * 8, 0, q);
                        C.mem[key] = q, changed = true;
                    }
                    else if (!holds(x, it->second, before, now, cn, false))
                    {
                        classify(c.second.v, now, c.second.size * 8, it->second.cls == 0 ? it->second.j + 1 : 1, it->second);
                        changed = true;
                    }
                }
            }
            for (size_t j = 0; j < C.inv.size(); j++)
                if (C.inv[j])
                {
                    Obl o;
                    if (!prove(x.pc, in[j], 0, o)) C.inv[j] = 0, changed = true;
                }
            if (changed) break;
        }
        dry--;
        if (!changed) break;
    }
    // the proof: one iteration from an arbitrary one, all obligations active
    std::vector<E> cm;
    State t = build(cm);
    latch.clear(), exits.clear();
    inLoop++;
    iterate(t, latch, exits);
    for (State& x : latch)
        try
        {
            std::vector<E> cn, in;
            loopTerms(x, fn, eAdd(m, eInt(1)), 2, cn, in);
            for (auto& phi : header->phis())
            {
                auto it = C.phi.find(&phi);
                if (it == C.phi.end()) { if (!same(get(s0, &phi), get(x, &phi))) throw Unsupported("loop frame"); }
                else holds(x, it->second, get(t, &phi), get(x, &phi), cn, true);
            }
            for (auto& p : s0.mem)
            {
                ObjP xo = x.mem.at(p.first), to = t.mem.at(p.first);
                if (xo == p.second) continue;
                for (auto& c : p.second->cells)
                {
                    auto n = xo->cells.find(c.first);
                    Val now = n != xo->cells.end() && n->second.size == c.second.size ? n->second.v : Val();
                    auto b = to->cells.find(c.first);
                    auto it = C.mem.find({p.first, c.first});
                    if (it == C.mem.end()) { if (!same(c.second.v, now)) throw Unsupported("loop frame"); }
                    else holds(x, it->second, b != to->cells.end() ? b->second.v : Val(), now, cn, true);
                }
            }
            for (size_t j = 0; j < C.inv.size(); j++) if (C.inv[j]) oblige(x, in[j], "loop invariant preserved");
        }
        catch (PathEnd&) {}
    inLoop--;
    loopsProved++;
    size_t nc = 0, nr = 0, nh = 0, ni = 0;
    for (auto& p : C.phi) (p.second.cls == 0 ? nc : p.second.cls == 1 ? nr : nh)++;
    for (auto& p : C.mem) (p.second.cls == 0 ? nc : p.second.cls == 1 ? nr : nh)++;
    for (char c : C.inv) ni += c;
    std::string note = dem(F).substr(0, 160) + ": loop cut, " + std::to_string(nc) + " locations follow the specification, " + std::to_string(nr) + " counters, " + std::to_string(nh) + " arbitrary, " + std::to_string(ni) + " conditions";
    if (std::find(loopNotes.begin(), loopNotes.end(), note) == loopNotes.end()) loopNotes.push_back(note);
    for (State& x : exits)
    {
        x.loopContracts.assign(s.loopContracts.begin() + 1, s.loopContracts.end());
        work.push_back(std::move(x));
    }
    throw PathEnd();
}
