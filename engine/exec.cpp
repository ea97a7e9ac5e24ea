#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <iostream>
using namespace llvm;

static inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    v = maskw(v, w);
    return (v >> (w - 1)) & 1 ? (int64_t)(v | ~((1ULL << w) - 1)) : (int64_t)v;
}
static mpz_class pow2(unsigned k) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, k); return z; }

Engine::Engine(Module* m) : M(m), DL(&m->getDataLayout())
{
    uint64_t a = 0x1000;
    for (auto& f : *M)
    {
        fnAddr[&f] = a;
        addrFn[a] = &f;
        a += 16;
    }
    initGlobals();
}
const std::string& Engine::dem(const Function* f)
{
    auto it = demCache.find(f);
    if (it != demCache.end()) return it->second;
    return demCache[f] = llvm::demangle(f->getName().str());
}
Engine::FnInfo& Engine::info(Function* f)
{
    auto& p = infos[f];
    if (!p)
    {
        p = std::make_unique<FnInfo>();
        unsigned n = 0;
        for (auto& a : f->args()) p->num[&a] = n++;
        for (auto& i : instructions(f)) if (!i.getType()->isVoidTy()) p->num[&i] = n++;
        p->n = n;
        p->dem = dem(f);
    }
    return *p;
}
Engine::FnInfo& Engine::loops(Function* f)
{
    FnInfo& fi = info(f);
    if (!fi.li)
    {
        fi.dt = std::make_unique<DominatorTree>(*f);
        fi.li = std::make_unique<LoopInfo>(*fi.dt);
    }
    return fi;
}
unsigned Engine::widthOf(Type* t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    return DL->getTypeSizeInBits(t);
}

// ---------------------------------------------------------------- globals / constants
void Engine::initGlobals()
{
    uint64_t a = 0x2000000;
    for (auto& g : M->globals())
    {
        uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
        if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 1024);
        gvAddr[&g] = a;
        auto o = std::make_shared<Object>();
        o->base = a;
        o->size = sz;
        o->kind = "global";
        o->ro = g.isConstant();
        o->tag = g.getName().str();
        globals0[a] = o;
        a += (sz + 63) / 16 * 16 + 64;
    }
    for (auto& g : M->globals())
    {
        Object& o = *globals0[gvAddr[&g]];
        if (g.hasInitializer()) initConst(o, 0, g.getInitializer());
        else if (g.getName() == "__libc_single_threaded") o.cells[0] = {Val::mkI(1), 1};
        else if (g.getName() == "_ZSt4cout" || g.getName() == "_ZSt4cerr" || g.getName() == "_ZSt4clog")
        {
            // just enough of a stream for an inlined std::endl (output itself is a no-op)
            uint64_t b = gvAddr[&g];
            o.cells[0] = {Val::mkI(b + 512), 8};
            o.cells[512 - 24] = {Val::mkI(0), 8};
            o.cells[240] = {Val::mkI(b + 600), 8};
            o.cells[656] = {Val::mkI(1), 1};
            o.cells[667] = {Val::mkI(10), 1};
        }
    }
}
uint64_t Engine::globalAddr(const GlobalVariable* g) { return gvAddr.at(g); }
void Engine::initConst(Object& o, uint64_t off, const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) ) return;
    if (auto* s = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = DL->getTypeAllocSize(et);
        for (uint64_t i = 0; i < n; i++) initConst(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    Val v = constVal(c);
    uint32_t sz = DL->getTypeStoreSize(t);
    o.cells[off] = {v, sz};
}
Val Engine::zeroVal(Type* t)
{
    if (t->isFloatingPointTy()) return Val::mkR(eReal(0));
    if (auto* s = dyn_cast<StructType>(t))
    {
        std::vector<Val> v;
        for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(zeroVal(s->getElementType(i)));
        return Val::mkA(v);
    }
    if (t->isArrayTy()) return Val::mkA(std::vector<Val>(t->getArrayNumElements(), zeroVal(t->getArrayElementType())));
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return Val::mkA(std::vector<Val>(vt->getNumElements(), zeroVal(vt->getElementType())));
    return Val::mkI(0);
}
Val Engine::constVal(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() > 64) return ci->getValue().getActiveBits() <= 64 ? Val::mkI(ci->getZExtValue()) : Val();
        return Val::mkI(maskw(ci->getZExtValue(), ci->getBitWidth()));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APFloat v = cf->getValueAPF();
        bool li;
        if (v.isNaN()) return Val::mkR(eApp("NaN", {}, S_REAL));
        if (&v.getSemantics() == &APFloat::IEEEdouble()) return Val::mkR(eReal(niceRational(v.convertToDouble())));
        v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return Val::mkR(eReal(niceRational(v.convertToDouble())));
    }
    if (isa<ConstantPointerNull>(c)) return Val::mkI(0);
    if (isa<UndefValue>(c))
    {
        if (t->isAggregateType() || t->isVectorTy())
        {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            std::vector<Val> v;
            for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
            return Val::mkA(v);
        }
        return Val();
    }
    if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* f = dyn_cast<Function>(c)) return Val::mkI(fnAddr.at(f));
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::mkI(globalAddr(g));
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr:
            {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
                Val b = constVal(ce->getOperand(0));
                return Val::mkI(b.i + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
                return constVal(ce->getOperand(0));
            case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.i = maskw(v.i, widthOf(t)); return v; }
            case Instruction::Add: return Val::mkI(maskw(constVal(ce->getOperand(0)).i + constVal(ce->getOperand(1)).i, widthOf(t)));
            case Instruction::Sub: return Val::mkI(maskw(constVal(ce->getOperand(0)).i - constVal(ce->getOperand(1)).i, widthOf(t)));
            default: throw Unsupported(std::string("constexpr ") + ce->getOpcodeName());
        }
    }
    if (t->isAggregateType() || t->isVectorTy())
    {
        std::vector<Val> v;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
        return Val::mkA(v);
    }
    throw Unsupported("constant");
}

Val Engine::get(State& s, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
    Frame& f = s.st.back();
    auto& fi = *infos[f.fn];
    auto it = fi.num.find(v);
    if (it == fi.num.end()) return Val();
    return f.loc[it->second];
}
void Engine::set(State& s, const Value* v, Val x)
{
    if (v->getType()->isVoidTy()) return;
    Frame& f = s.st.back();
    f.loc[infos[f.fn]->num.at(v)] = std::move(x);
}

// ---------------------------------------------------------------- conversions
E Engine::intE(const Val& v, unsigned w)
{
    switch (v.k)
    {
        case Val::I: return eInt(sx(v.i, w));
        case Val::S: return v.e;
        case Val::B: return eIte(v.e, eInt(w == 1 ? -1 : 1), eInt(0));
        case Val::U: return eApp("undef", {}, S_INT);
        default: throw Unsupported("integer use of a real bit pattern");
    }
}
Val Engine::intV(E e, unsigned w)
{
    if (isConst(e))
    {
        mpz_class z = e->c.get_num();
        mpz_class m = pow2(64);
        mpz_class r = z % m;
        if (r < 0) r += m;
        return Val::mkI(maskw(r.get_ui(), w));
    }
    Val v;
    v.k = Val::S;
    v.e = e;
    return v;
}
E Engine::boolE(const Val& v)
{
    switch (v.k)
    {
        case Val::I: return eBool(v.i & 1);
        case Val::B: return v.e;
        case Val::S: return eNe(eIMod(v.e, 2), eInt(0));
        case Val::U: return eApp("undefb", {}, S_BOOL);
        default: throw Unsupported("bool of real");
    }
}
E Engine::realE(const Val& v)
{
    if (v.k == Val::R) return v.e;
    if (v.k == Val::I)
    {
        double d;
        memcpy(&d, &v.i, 8);
        if (std::isnan(d)) return eApp("NaN", {}, S_REAL);
        return eReal(niceRational(d));
    }
    if (v.k == Val::U) return eApp("undefr", {}, S_REAL);
    throw Unsupported("real use of symbolic integer bits");
}
E Engine::fresh(State& s, const std::string& n, Sort so)
{
    int k = s.names[n]++;
    return eVar(k ? n + "#" + std::to_string(k) : n, so);
}

// ---------------------------------------------------------------- memory
void Engine::memErr(State& s, const std::string& w)
{
    fail(s, "memory-safety", w);
    throw PathEnd();
}
ObjP Engine::find(State& s, uint64_t addr)
{
    auto it = s.mem.upper_bound(addr);
    if (it == s.mem.begin()) return nullptr;
    --it;
    ObjP& o = it->second;
    if (o->symSize) return o;
    if (addr >= o->base && addr <= o->base + o->size) return o;
    return nullptr;
}
Object& Engine::wr(State& s, uint64_t base)
{
    ObjP& o = s.mem[base];
    if (o.use_count() > 1) o = std::make_shared<Object>(*o);
    return *o;
}
uint64_t Engine::alloc(State& s, uint64_t size, const char* kind, bool heap)
{
    if (size > (1u << 26)) throw Unsupported("huge allocation " + std::to_string(size));
    auto o = std::make_shared<Object>();
    uint64_t a = (s.nextAddr + 63) / 64 * 64;
    s.nextAddr = a + size + 64;
    o->base = a;
    o->size = size;
    o->kind = kind;
    o->heap = heap;
    s.mem[a] = o;
    return a;
}
void Engine::splitAt(Object& o, uint64_t off, uint32_t size)
{
    // remove / split every cell overlapping [off, off+size)
    auto it = o.cells.lower_bound(off);
    if (it != o.cells.begin())
    {
        auto p = std::prev(it);
        if (p->first + p->second.size > off) it = p;
    }
    std::vector<std::pair<uint64_t, Cell>> re;
    while (it != o.cells.end() && it->first < off + size)
    {
        uint64_t b = it->first;
        Cell c = it->second;
        it = o.cells.erase(it);
        if (b >= off && b + c.size <= off + size) continue;
        if (c.v.k == Val::R && isConst(c.v.e) && c.size == 8)
        {
            double d = c.v.e->c.get_d();
            uint64_t bits;
            memcpy(&bits, &d, 8);
            c.v = Val::mkI(bits);
        }
        for (uint32_t k = 0; k < c.size; k++)
        {
            uint64_t p = b + k;
            if (p >= off && p < off + size) continue;
            Cell x;
            x.size = 1;
            if (c.v.k == Val::I) x.v = Val::mkI(k < 8 ? (c.v.i >> (8 * k)) & 0xff : 0);
            re.push_back({p, x});
        }
    }
    for (auto& p : re) o.cells[p.first] = p.second;
}
void Engine::storeCell(State& s, uint64_t addr, const Val& v, uint32_t size)
{
    ObjP o = find(s, addr);
    if (!o) memErr(s, "write to unmapped address " + std::to_string(addr));
    if (!o->alive) memErr(s, std::string("write to dead object ") + o->kind);
    if (!o->symSize && addr + size > o->base + o->size)
        memErr(s, std::string("out-of-bounds write at offset ") + std::to_string(addr - o->base) + " of " + o->kind + " " + o->tag + " object of size " + std::to_string(o->size));
    if (o->symSize)
    {
        E off = eInt((int64_t)(addr - o->base));
        oblige(s, eAnd(eLe(eInt(0), off), eLe(eAdd(off, eInt(size)), o->symSize)), "memory-safety");
        Object& w = wr(s, o->base);
        Layer l;
        l.kind = 1;
        l.off = off;
        l.size = size;
        l.v = v;
        w.layers.push_back(l);
        return;
    }
    uint64_t base = o->base;
    o.reset();
    Object& w = wr(s, base);
    uint64_t off = addr - base;
    auto it = w.cells.find(off);
    if (it != w.cells.end() && it->second.size == size) { it->second.v = v; return; }
    splitAt(w, off, size);
    w.cells[off] = {v, size};
}
Val Engine::loadCell(State& s, uint64_t addr, uint32_t size, int cls)
{
    ObjP o = find(s, addr);
    if (!o) memErr(s, "read of unmapped address " + std::to_string(addr));
    if (!o->alive) memErr(s, std::string("read of dead object ") + o->kind);
    if (!o->symSize && addr + size > o->base + o->size)
        memErr(s, std::string("out-of-bounds read at offset ") + std::to_string(addr - o->base) + " of " + o->kind + " " + o->tag + " object of size " + std::to_string(o->size));
    uint64_t off = addr - o->base;
    if (o->symSize)
    {
        E oe = eInt((int64_t)off);
        oblige(s, eAnd(eLe(eInt(0), oe), eLe(eAdd(oe, eInt(size)), o->symSize)), "memory-safety");
        return readLayers(s, *o, oe, size, cls);
    }
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == size)
    {
        if (it->second.v.k != Val::U) return it->second.v;
    }
    else
    {
        // assemble from pieces
        bool any = false, allI = true;
        std::vector<int> bytes(size, -1);
        auto jt = o->cells.lower_bound(off);
        if (jt != o->cells.begin())
        {
            auto p = std::prev(jt);
            if (p->first + p->second.size > off) jt = p;
        }
        for (; jt != o->cells.end() && jt->first < off + size; ++jt)
        {
            any = true;
            Val cv = jt->second.v;
            if (cv.k == Val::R && isConst(cv.e) && jt->second.size == 8)
            {
                double d = cv.e->c.get_d();
                uint64_t bits;
                memcpy(&bits, &d, 8);
                cv = Val::mkI(bits);
            }
            for (uint32_t k = 0; k < jt->second.size; k++)
            {
                uint64_t p = jt->first + k;
                if (p < off || p >= off + size) continue;
                if (cv.k == Val::I) bytes[p - off] = k < 8 ? (cv.i >> (8 * k)) & 0xff : 0;
                else if (cv.k != Val::U) allI = false;
            }
        }
        if (any && allI)
        {
            bool full = true, none = true;
            for (int b : bytes) { if (b < 0) full = false; else none = false; }
            if (full || (!none && size <= 8))
            {
                // partially initialised: unknown bytes read as zero (padding)
                uint64_t r = 0;
                for (uint32_t k = 0; k < size && k < 8; k++) r |= (uint64_t)(bytes[k] < 0 ? 0 : bytes[k]) << (8 * k);
                if (!full) assumptions.insert("padding bytes of partially initialised words read as zero");
                return Val::mkI(r);
            }
        }
        if (any && !allI) throw Unsupported("mixed-size read of symbolic data");
    }
    // uninitialised
    Val v;
    if (!o->heap && o->ro) throw Unsupported("uninitialised constant " + o->tag);
    if (cls == 1) v = Val::mkR(fresh(s, "uninit", S_REAL));
    else
    {
        if (size == 8 && cls == 0) { v = Val(); return v; }   // may be a block copy of doubles: keep undefined
        v.k = Val::S;
        v.e = fresh(s, "uninit_i", S_INT);
    }
    uint64_t base = o->base;
    o.reset();
    Object& w = wr(s, base);
    splitAt(w, off, size);
    w.cells[off] = {v, size};
    return v;
}
Val Engine::load(State& s, uint64_t addr, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(load(s, addr + sl->getElementOffset(i), st->getElementType(i)));
        return Val::mkA(v);
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et).getFixedValue() : DL->getTypeStoreSize(et).getFixedValue();
        std::vector<Val> v;
        for (uint64_t i = 0; i < n; i++) v.push_back(load(s, addr + i * es, et));
        return Val::mkA(v);
    }
    uint32_t sz = DL->getTypeStoreSize(t);
    if (t->isIntegerTy() && sz > 8)
    {
        // i128 and wider used for block copies
        if (sz % 8) throw Unsupported("odd wide integer load");
        std::vector<Val> v;
        for (uint32_t i = 0; i < sz / 8; i++) v.push_back(loadCell(s, addr + 8 * i, 8, 0));
        return Val::mkA(v);
    }
    Val v = loadCell(s, addr, sz, t->isFloatingPointTy() ? 1 : t->isPointerTy() ? 2 : 0);
    if (t->isFloatingPointTy())
    {
        if (v.k == Val::I || v.k == Val::U)
        {
            if (sz == 4 && v.k == Val::I) { float f; uint32_t u = v.i; memcpy(&f, &u, 4); return Val::mkR(eReal(niceRational(f))); }
            return Val::mkR(realE(v));
        }
    }
    else if (v.k == Val::I) v.i = maskw(v.i, widthOf(t));
    if (t->isIntegerTy(1) && v.k == Val::S) return Val::mkB(boolE(v));
    return v;
}
void Engine::store(State& s, uint64_t addr, const Val& v, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) store(s, addr + sl->getElementOffset(i), v.k == Val::A ? (*v.a)[i] : Val(), st->getElementType(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy())
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et).getFixedValue() : DL->getTypeStoreSize(et).getFixedValue();
        for (uint64_t i = 0; i < n; i++) store(s, addr + i * es, v.k == Val::A ? (*v.a)[i] : Val(), et);
        return;
    }
    uint32_t sz = DL->getTypeStoreSize(t);
    if (t->isIntegerTy() && sz > 8)
    {
        for (uint32_t i = 0; i < sz / 8; i++) storeCell(s, addr + 8 * i, v.k == Val::A ? (*v.a)[i] : (i == 0 ? v : v.k == Val::I ? Val::mkI(0) : Val()), 8);
        return;
    }
    Val x = v;
    if (x.k == Val::B) x = intV(eIte(x.e, eInt(1), eInt(0)), sz * 8);
    storeCell(s, addr, x, sz);
}
void Engine::copyMem(State& s, uint64_t d, uint64_t src, uint64_t n)
{
    if (n == 0) return;
    ObjP so = find(s, src), dob = find(s, d);
    if (!so || !so->alive) memErr(s, "memcpy from unmapped/dead memory");
    if (!dob || !dob->alive) memErr(s, "memcpy to unmapped/dead memory");
    if (so->symSize || dob->symSize) throw Unsupported("memcpy on symbolic-extent object");
    if (src + n > so->base + so->size) memErr(s, "memcpy reads out of bounds");
    if (d + n > dob->base + dob->size) memErr(s, "memcpy writes out of bounds");
    uint64_t so0 = src - so->base;
    std::vector<std::pair<uint64_t, Cell>> cp;
    auto it = so->cells.lower_bound(so0);
    bool headSplit = it != so->cells.begin() && std::prev(it)->first + std::prev(it)->second.size > so0;
    auto bytesOf = [&](uint64_t b, const Cell& c) {
        Val v = c.v;
        if (v.k == Val::R && isConst(v.e) && c.size == 8)
        {
            double x = v.e->c.get_d();
            uint64_t bits;
            memcpy(&bits, &x, 8);
            v = Val::mkI(bits);
        }
        if (v.k != Val::I && v.k != Val::U) throw Unsupported("memcpy splits symbolic data");
        for (uint32_t k = 0; k < c.size; k++)
        {
            uint64_t p = b + k;
            if (p < so0 || p >= so0 + n) continue;
            Cell x;
            x.size = 1;
            if (v.k == Val::I) x.v = Val::mkI(k < 8 ? (v.i >> (8 * k)) & 0xff : 0);
            cp.push_back({p - so0, x});
        }
    };
    if (headSplit) bytesOf(std::prev(it)->first, std::prev(it)->second);
    for (; it != so->cells.end() && it->first < so0 + n; ++it)
    {
        if (it->first + it->second.size <= so0 + n) cp.push_back({it->first - so0, it->second});
        else bytesOf(it->first, it->second);
    }
    uint64_t db = dob->base;
    so.reset();
    dob.reset();
    Object& w = wr(s, db);
    splitAt(w, d - db, n);
    for (auto& p : cp) w.cells[d - db + p.first] = p.second;
}
void Engine::setMem(State& s, uint64_t d, uint8_t v, uint64_t n)
{
    if (n == 0) return;
    ObjP dob = find(s, d);
    if (!dob || !dob->alive) memErr(s, "memset of unmapped/dead memory");
    if (dob->symSize) throw Unsupported("memset on symbolic-extent object");
    if (d + n > dob->base + dob->size) memErr(s, "memset out of bounds");
    uint64_t db = dob->base, off = d - db;
    dob.reset();
    Object& w = wr(s, db);
    splitAt(w, off, n);
    uint64_t p = off, e = off + n;
    uint64_t pat = 0x0101010101010101ULL * v;
    while (p < e)
    {
        uint32_t sz = (p % 8 == 0 && e - p >= 8) ? 8 : (p % 4 == 0 && e - p >= 4) ? 4 : 1;
        w.cells[p] = {Val::mkI(maskw(pat, sz * 8)), sz};
        p += sz;
    }
}
std::string Engine::cstr(State& s, uint64_t a)
{
    std::string r;
    for (;;)
    {
        Val v = loadCell(s, a++, 1, 0);
        if (v.k != Val::I) throw Unsupported("symbolic string");
        if (!(v.i & 0xff)) return r;
        r += (char)v.i;
    }
}

// ---------------------------------------------------------------- logic
bool Engine::feasible(State& s, E c)
{
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    E nc = eNot(c);
    for (E p : s.pc)
    {
        if (p == c) return true;
        if (p == nc) return false;
    }
    std::vector<E> q = smtSlice(s.pc, c);
    q.push_back(c);
    if (sampleSat(q)) return true;
    return smtCheck(q, qTimeout, nullptr, false) != R_UNSAT;
}
bool Engine::valid(State& s, E c) { return !feasible(s, eNot(c)); }
static void pushPc(std::vector<E>& pc, E c)
{
    if (isTrue(c)) return;
    if (c->k == K_AND) { for (E x : c->a) pushPc(pc, x); return; }
    for (E p : pc) if (p == c) return;
    samplePositive(c);
    pc.push_back(c);
}
void Engine::assume(State& s, E c)
{
    if (!feasible(s, c)) { infeasible++; throw PathEnd(); }
    pushPc(s.pc, c);
}
void Engine::record(State& s, const std::string& label, bool ok, Obl& o)
{
    if (dry) return;
    auto& c = byLabel[label];
    c[0]++;
    if (ok) { c[1]++; byBackend[o.backend]++; }
    else
    {
        o.label = label;
        if (loopsProved || inLoop) o.status = "undecided";  // a loop invariant may be too weak for changed code: the native runs decide
        if (o.status == "failed") { if (fails.size() < 40) { fails.push_back(o); if (fails.size() == 40) deadline = std::min(deadline, nowSec() + 60); } c[2]++; }
        else if (undecided.size() < 40) undecided.push_back(o);
    }
}
void Engine::fail(State& s, const std::string& label, const std::string& detail)
{
    // reaching this point is itself the violation, provided the path is feasible
    if (dry) return;
    Obl o;
    o.status = "failed";
    Model m;
    SatR r = smtCheck(s.pc, oTimeout, &m, true);
    if (r == R_UNSAT) { infeasible++; return; }
    o.hasModel = r == R_SAT;
    if (r != R_SAT) o.status = "undecided";
    o.model = m;
    o.backend = "path";
    o.detail = detail;
    std::string where;
    for (size_t k = s.st.size(); k > 0 && k + 4 > s.st.size(); k--) where += " <- " + dem(s.st[k - 1].fn).substr(0, 160);
    o.detail += where;
    record(s, label, false, o);
}
void Engine::reduceByEqualities(const std::vector<E>& pc, std::vector<E>& out, E& g)
{
    // use top-level equalities x = t (x a variable or application not inside t) as rewriting
    std::vector<E> cs = pc;
    for (int round = 0; round < 6; round++)
    {
        E from = nullptr, to = nullptr;
        size_t at = 0;
        for (size_t i = 0; i < cs.size() && !from; i++)
        {
            if (cs[i]->k != K_EQ0) continue;
            E d = cs[i]->a[0];
            if (d->k == K_VAR) { from = d; to = eConst(0, d->s); at = i; break; }
            if (d->k != K_SUM || d->t.size() > 40) continue;
            for (auto it = d->t.rbegin(); it != d->t.rend(); ++it)
            {
                E x = it->first;
                if (x->k != K_VAR && x->k != K_APP) continue;
                if (x->s == S_INT && abs(it->second) != 1) continue;
                E rest = eSub(eScale(x, it->second), d);
                rest = eScale(rest, 1 / it->second);
                std::unordered_set<E> seen;
                eCollect(rest, seen);
                if (seen.count(x)) continue;
                from = x;
                to = rest;
                at = i;
                break;
            }
        }
        if (!from) break;
        Subst m;
        m[from] = to;
        std::unordered_map<E, E> memo;
        std::vector<E> n;
        try
        {
            for (size_t i = 0; i < cs.size(); i++)
                if (i != at) n.push_back(eSubst(cs[i], m, memo));
            g = eSubst(g, m, memo);
        }
        catch (TooBig&) { break; }
        cs = n;
    }
    out = cs;
}
bool Engine::proveEq0(const std::vector<E>& pc, E d, int depth, Obl& o)
{
    if (isConst(d))
    {
        if (d->c == 0) { o.backend = "ring-normaliser"; return true; }
    }
    else if (d->s == S_REAL)
    {
        E n;
        if (eNumerator(d, n))
        {
            if (isConst(n) && n->c == 0) { o.backend = "ring-normaliser"; return true; }
        }
    }
    if (d->k == K_SUM || d->k == K_ITE || d->k == K_PROD || d->k == K_APP)
    {
        E c = eFindIte(d);
        if (c && depth < 14)
        {
            std::string be;
            for (int v = 0; v < 2; v++)
            {
                E cc = v ? c : eNot(c);
                std::vector<E> pc2 = pc;
                pushPc(pc2, cc);
                std::vector<E> q = smtSlice(pc, cc);
                q.push_back(cc);
                if (smtCheck(q, qTimeout, nullptr, false) == R_UNSAT) continue;
                E d2;
                try { d2 = eAssumeCond(d, c, v); } catch (TooBig&) { o.status = "undecided"; o.detail = "term size"; return false; }
                if (!proveEq0(pc2, d2, depth + 1, o)) return false;
                be = o.backend;
            }
            o.backend = "case-split+" + (be.empty() ? "z3" : be);
            if (o.backend.compare(0, 21, "case-split+case-split") == 0) o.backend = o.backend.substr(11);
            return true;
        }
    }
    std::vector<E> pc2;
    E g = d;
    reduceByEqualities(pc, pc2, g);
    if (g != d)
    {
        E n;
        if (isConst(g) && g->c == 0) { o.backend = "ring-normaliser+equalities"; return true; }
        if (g->s == S_REAL && eNumerator(g, n) && isConst(n) && n->c == 0) { o.backend = "ring-normaliser+equalities"; return true; }
    }
    E goal = eEq(g, eConst(0, g->s));
    E ng = eNot(goal);
    std::vector<E> q = smtSlice(pc2, ng);
    q.push_back(ng);
    Model m;
    SatR r = smtCheck(q, oTimeout, nullptr, true);
    if (r == R_UNSAT) { o.backend = gLastBackend; return true; }
    std::vector<E> full = pc;
    E ng0 = eNot(eEq(d, eConst(0, d->s)));
    full.push_back(ng0);
    SatR r2 = smtCheck(full, oTimeout, &m, r == R_UNKNOWN);
    if (r2 == R_UNSAT) { o.backend = gLastBackend; return true; }
    {
        std::unordered_set<E> seen;
        eCollect(d, seen);
        for (E x : seen)
            if (x->k == K_APP && x->name == "big*") { o.status = "undecided"; o.detail = "term size"; return false; }
    }
    o.detail = "not equal; difference = " + eStr(d, getenv("CTV_LONG") ? 60000 : 600);
    if (r2 == R_SAT) { o.status = "failed"; o.model = m; o.hasModel = true; }
    else if (r == R_SAT) o.status = "failed";
    else
    {
        // nonzero normal form with no constraint on its atoms: refuted by the normal form
        bool special = false;
        std::unordered_set<E> seen;
        eCollect(d, seen);
        for (E x : seen) if (x->k == K_ITE || x->k == K_FLOOR || x->k == K_IDIV || (x->k == K_APP && (x->name == "big*" || x->name == "sqrt" || x->name == "exp" || x->name == "sin" || x->name == "cos"))) special = true;
        o.status = !special && q.size() == 1 ? "failed" : "undecided";
    }
    return false;
}
bool Engine::prove(const std::vector<E>& pc, E g, int depth, Obl& o)
{
    if (isTrue(g)) { o.backend = "simplifier"; return true; }
    for (E p : pc) if (p == g) { o.backend = "simplifier"; return true; }
    if (g->k == K_AND)
    {
        for (E x : g->a) if (!prove(pc, x, depth, o)) return false;
        return true;
    }
    if (g->k == K_EQ0) return proveEq0(pc, g->a[0], depth, o);
    E ng = eNot(g);
    std::vector<E> q = smtSlice(pc, ng);
    q.push_back(ng);
    SatR r = smtCheck(q, oTimeout, nullptr, true);
    if (r == R_UNSAT) { o.backend = gLastBackend; return true; }
    if (r == R_UNKNOWN)
    {
        std::vector<E> pc2;
        E g2 = g;
        reduceByEqualities(pc, pc2, g2);
        if (isTrue(g2)) { o.backend = "simplifier"; return true; }
        if (E c = eFindIte(g2))
            if (depth < 8)
            {
                for (int v = 0; v < 2; v++)
                {
                    std::vector<E> pc3 = pc2;
                    pushPc(pc3, v ? c : eNot(c));
                    std::vector<E> q2 = smtSlice(pc2, v ? c : eNot(c));
                    q2.push_back(v ? c : eNot(c));
                    if (smtCheck(q2, qTimeout, nullptr, false) == R_UNSAT) continue;
                    if (!prove(pc3, eAssumeCond(g2, c, v), depth + 1, o)) return false;
                }
                return true;
            }
    }
    std::vector<E> full = pc;
    full.push_back(ng);
    Model m;
    SatR r2 = smtCheck(full, oTimeout, &m, r == R_UNKNOWN);
    if (r2 == R_UNSAT) { o.backend = gLastBackend; return true; }
    o.detail = "not entailed: " + eStr(g, 600);
    o.hasModel = r2 == R_SAT;
    o.model = m;
    o.status = (r2 == R_SAT || r == R_SAT) ? "failed" : "undecided";
    return false;
}
void Engine::oblige(State& s, E goal, const std::string& label)
{
    if (dry)
    {
        if (isTrue(goal)) return;
        if (isFalse(goal)) throw PathEnd();
        pushPc(s.pc, goal);
        return;
    }
    Obl o;
    double t0 = nowSec();
    bool ok = prove(s.pc, goal, 0, o);
    o.secs = nowSec() - t0;
    record(s, label, ok, o);
    if (ok) return;
    // continue under the assumption that it holds
    if (!isFalse(goal) && feasible(s, goal)) pushPc(s.pc, goal);
    else throw PathEnd();
}
void Engine::obligeEq(State& s, E a, E b, const std::string& label)
{
    if (dry) return;
    Obl o;
    double t0 = nowSec();
    bool ok;
    try { ok = proveEq0(s.pc, eSub(a, b), 0, o); }
    catch (TooBig&) { ok = false; o.status = "undecided"; o.detail = "term size"; }
    if (!ok) o.detail += " ;; lhs=" + eStr(a, 300) + " ;; rhs=" + eStr(b, 300);
    o.secs = nowSec() - t0;
    record(s, label, ok, o);
}

// ---------------------------------------------------------------- arithmetic
static bool iteConst(E e) { return e->k == K_ITE && (isConst(e->a[1]) || iteConst(e->a[1])) && (isConst(e->a[2]) || iteConst(e->a[2])); }
Val Engine::binInt(State& s, unsigned op, const Val& a, const Val& b, unsigned w, const Instruction* I)
{
    if (a.k == Val::I && b.k == Val::I)
    {
        uint64_t x = a.i, y = b.i, r = 0;
        switch (op)
        {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::UDiv: if (!y) memErr(s, "integer division by zero"); r = x / y; break;
            case Instruction::URem: if (!y) memErr(s, "integer division by zero"); r = x % y; break;
            case Instruction::SDiv: if (!y) memErr(s, "integer division by zero"); r = sx(x, w) == INT64_MIN && sx(y, w) == -1 ? x : sx(x, w) / sx(y, w); break;
            case Instruction::SRem: if (!y) memErr(s, "integer division by zero"); r = sx(y, w) == -1 ? 0 : sx(x, w) % sx(y, w); break;
            case Instruction::Shl: r = y >= w ? 0 : x << y; break;
            case Instruction::LShr: r = y >= w ? 0 : maskw(x, w) >> y; break;
            case Instruction::AShr: r = sx(x, w) >> (y >= w ? w - 1 : y); break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            default: throw Unsupported("binop");
        }
        return Val::mkI(maskw(r, w));
    }
    if (a.k == Val::R || b.k == Val::R)
    {
        const Val& r = a.k == Val::R ? a : b;
        const Val& m = a.k == Val::R ? b : a;
        if (m.k == Val::I && op == Instruction::And && m.i == 0x7fffffffffffffffULL) return Val::mkR(eAbs(r.e));
        if (m.k == Val::I && op == Instruction::Xor && m.i == 0x8000000000000000ULL) return Val::mkR(eNeg(r.e));
        throw Unsupported("integer arithmetic on real bits");
    }
    if (w == 1)
    {
        E x = boolE(a), y = boolE(b);
        switch (op)
        {
            case Instruction::And: case Instruction::Mul: return Val::mkB(eAnd(x, y));
            case Instruction::Or: return Val::mkB(eOr(x, y));
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::mkB(eNot(eEq(x, y)));
            default: throw Unsupported("i1 op");
        }
    }
    if (a.k == Val::U || b.k == Val::U) return Val();
    E x = intE(a, w), y = intE(b, w);
    if (op != Instruction::Add && op != Instruction::Sub)
    {
        if (iteConst(x) && isConst(y))
        {
            E c = x->a[0];
            Val p = binInt(s, op, intV(x->a[1], w), b, w, I), q = binInt(s, op, intV(x->a[2], w), b, w, I);
            return intV(eIte(c, intE(p, w), intE(q, w)), w);
        }
        if (iteConst(y) && isConst(x))
        {
            E c = y->a[0];
            Val p = binInt(s, op, a, intV(y->a[1], w), w, I), q = binInt(s, op, a, intV(y->a[2], w), w, I);
            return intV(eIte(c, intE(p, w), intE(q, w)), w);
        }
    }
    if (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul || op == Instruction::Shl)
        assumptions.insert("symbolic machine integers do not overflow (treated as mathematical integers)");
    switch (op)
    {
        case Instruction::Add: return intV(eAdd(x, y), w);
        case Instruction::Sub: return intV(eSub(x, y), w);
        case Instruction::Mul: return intV(eMul(x, y), w);
        case Instruction::Shl:
            if (isConst(y)) return intV(eScale(x, mpq_class(pow2(y->c.get_num().get_ui()))), w);
            break;
        case Instruction::AShr:
            if (isConst(y)) return intV(eIDiv(x, pow2(y->c.get_num().get_ui())), w);
            break;
        case Instruction::LShr:
            if (isConst(y))
            {
                mpz_class d = pow2(y->c.get_num().get_ui());
                E nn = eLe(eInt(0), x);
                if (valid(s, nn)) return intV(eIDiv(x, d), w);
                return intV(eIDiv(eIte(nn, x, eAdd(x, eConst(mpq_class(pow2(w)), S_INT))), d), w);
            }
            break;
        case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem:
            if (isConst(y) && y->c > 0)
            {
                mpz_class d = y->c.get_num();
                E q;
                bool ex = I && isa<PossiblyExactOperator>(I) && cast<PossiblyExactOperator>(I)->isExact();
                bool uns = op == Instruction::UDiv || op == Instruction::URem;
                E nn = eLe(eInt(0), x);
                if (ex || valid(s, nn)) q = eIDiv(x, d);
                else if (uns) q = eIDiv(eIte(nn, x, eAdd(x, eConst(mpq_class(pow2(w)), S_INT))), d);
                else q = eIte(nn, eIDiv(x, d), eNeg(eIDiv(eNeg(x), d)));
                if (op == Instruction::SDiv || op == Instruction::UDiv) return intV(q, w);
                return intV(eSub(x, eScale(q, mpq_class(d))), w);
            }
            else if (isConst(y) && y->c < 0 && (op == Instruction::SDiv))
            {
                mpz_class d = -y->c.get_num();
                E nn = eLe(eInt(0), x);
                if (valid(s, nn)) return intV(eNeg(eIDiv(x, d)), w);
            }
            break;
        case Instruction::And:
        {
            E v = isConst(y) ? x : y, m = isConst(y) ? y : x;
            if (isConst(m))
            {
                mpz_class mm = m->c.get_num();
                if (mm > 0)
                {
                    mpz_class p = mm + 1;
                    if (mpz_popcount(p.get_mpz_t()) == 1) return intV(eIMod(v, p), w);
                    // contiguous high mask within the width
                }
                else if (mm < 0)
                {
                    mpz_class p = -mm;
                    if (mpz_popcount(p.get_mpz_t()) == 1) return intV(eSub(v, eIMod(v, p)), w);
                }
                // mask clearing low bits of a positive number: 0x7ff..f8
                if (mm > 0)
                {
                    mpz_class p = pow2(w - 1) - mm;   // e.g. 8
                    if (p > 0 && mpz_popcount(p.get_mpz_t()) == 1 && valid(s, eLe(eInt(0), v))) return intV(eSub(v, eIMod(v, p)), w);
                }
            }
            break;
        }
        case Instruction::Or:
            if (I && isa<PossiblyDisjointInst>(I) && cast<PossiblyDisjointInst>(I)->isDisjoint()) return intV(eAdd(x, y), w);
            break;
        case Instruction::Xor:
            if (isConst(y) && y->c == -1) return intV(eSub(eNeg(x), eInt(1)), w);
            if (isConst(x) && x->c == -1) return intV(eSub(eNeg(y), eInt(1)), w);
            break;
    }
    throw Unsupported(std::string("symbolic integer operation ") + Instruction::getOpcodeName(op));
}
Val Engine::icmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w)
{
    if (a.k == Val::I && b.k == Val::I)
    {
        uint64_t x = maskw(a.i, w), y = maskw(b.i, w);
        int64_t sx_ = sx(a.i, w), sy = sx(b.i, w);
        bool r = false;
        switch (pred)
        {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = sx_ < sy; break;
            case CmpInst::ICMP_SLE: r = sx_ <= sy; break;
            case CmpInst::ICMP_SGT: r = sx_ > sy; break;
            case CmpInst::ICMP_SGE: r = sx_ >= sy; break;
        }
        return Val::mkI(r);
    }
    if (a.k == Val::R || b.k == Val::R)
    {
        const Val& o = a.k == Val::R ? b : a;
        if (o.k == Val::R || (o.k == Val::I && (o.i == 0 )))
        {
            E x = realE(a), y = realE(b);
            if (pred == CmpInst::ICMP_EQ) return Val::mkB(eEq(x, y));
            if (pred == CmpInst::ICMP_NE) return Val::mkB(eNe(x, y));
            if (o.k == Val::I && pred == CmpInst::ICMP_SLT) return Val::mkB(eLt(x, y));
        }
        if (o.k == Val::I && o.i == ~0ULL && pred == CmpInst::ICMP_SGT && a.k == Val::R) return Val::mkB(eLe(eReal(0), a.e));
        throw Unsupported("integer comparison of real bits");
    }
    if (w == 1)
    {
        E x = boolE(a), y = boolE(b);
        if (pred == CmpInst::ICMP_EQ) return Val::mkB(eEq(x, y));
        if (pred == CmpInst::ICMP_NE) return Val::mkB(eNot(eEq(x, y)));
        if (pred == CmpInst::ICMP_ULT) return Val::mkB(eAnd(eNot(x), y));
        if (pred == CmpInst::ICMP_UGT) return Val::mkB(eAnd(x, eNot(y)));
        throw Unsupported("i1 compare");
    }
    E x = intE(a, w), y = intE(b, w);
    auto ult = [&](E p, E q) {
        E zp = eLe(eInt(0), p), zq = eLe(eInt(0), q);
        if (isConst(q) && q->c >= 0) return eAnd(zp, eLt(p, q));
        if (isConst(p) && p->c >= 0) return eOr(eNot(zq), eLt(p, q));
        return eOrN({eAndN({zp, zq, eLt(p, q)}), eAndN({zp, eNot(zq)}), eAndN({eNot(zp), eNot(zq), eLt(p, q)})});
    };
    E r;
    switch (pred)
    {
        case CmpInst::ICMP_EQ: r = eEq(x, y); break;
        case CmpInst::ICMP_NE: r = eNe(x, y); break;
        case CmpInst::ICMP_SLT: r = eLt(x, y); break;
        case CmpInst::ICMP_SLE: r = eLe(x, y); break;
        case CmpInst::ICMP_SGT: r = eLt(y, x); break;
        case CmpInst::ICMP_SGE: r = eLe(y, x); break;
        case CmpInst::ICMP_ULT: r = ult(x, y); break;
        case CmpInst::ICMP_UGT: r = ult(y, x); break;
        case CmpInst::ICMP_ULE: r = eNot(ult(y, x)); break;
        case CmpInst::ICMP_UGE: r = eNot(ult(x, y)); break;
        default: throw Unsupported("icmp");
    }
    return Val::mkB(r);
}
Val Engine::fcmp(unsigned p, const Val& a, const Val& b)
{
    E x = realE(a), y = realE(b);
    E nan = eApp("NaN", {}, S_REAL);
    if (x == nan || y == nan)
    {
        // IEEE: ordered predicates are false, unordered true
        bool un = p == CmpInst::FCMP_UNO || p == CmpInst::FCMP_UEQ || p == CmpInst::FCMP_UGT || p == CmpInst::FCMP_UGE || p == CmpInst::FCMP_ULT || p == CmpInst::FCMP_ULE || p == CmpInst::FCMP_UNE || p == CmpInst::FCMP_TRUE;
        return Val::mkI(un);
    }
    E r;
    switch (p)
    {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eEq(x, y); break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = eNe(x, y); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = eLt(x, y); break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = eLe(x, y); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = eLt(y, x); break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = eLe(y, x); break;
        case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: r = eTrue(); break;
        case CmpInst::FCMP_UNO: case CmpInst::FCMP_FALSE: r = eFalse(); break;
        default: throw Unsupported("fcmp");
    }
    return Val::mkB(r);
}
E Engine::mathFn(State& s, const std::string& n, const std::vector<E>& a)
{
    auto isC = [&](E e, long v) { return isConst(e) && e->c == v; };
    auto tr = [&](E x) { return eIte(eLe(eReal(0), x), eToReal(eFloor(x)), eNeg(eToReal(eFloor(eNeg(x))))); };
    if (n == "sqrt") return eSqrt(a[0]);
    if (n == "fabs") return eAbs(a[0]);
    if (n == "floor") return eToReal(eFloor(a[0]));
    if (n == "ceil") return eNeg(eToReal(eFloor(eNeg(a[0]))));
    if (n == "trunc") return tr(a[0]);
    if (n == "round" || n == "rint" || n == "nearbyint")
        return eIte(eLe(eReal(0), a[0]), eToReal(eFloor(eAdd(a[0], eReal(mpq_class(1, 2))))), eNeg(eToReal(eFloor(eSub(eReal(mpq_class(1, 2)), a[0])))));
    if (n == "fmin" || n == "minnum") return eIte(eLe(a[0], a[1]), a[0], a[1]);
    if (n == "fmax" || n == "maxnum") return eIte(eLe(a[0], a[1]), a[1], a[0]);
    if (n == "fma") return eAdd(eMul(a[0], a[1]), a[2]);
    if (n == "copysign") { E m = eAbs(a[0]); return eIte(eLe(eReal(0), a[1]), m, eNeg(m)); }
    if (n == "fmod") return eSub(a[0], eMul(a[1], tr(eDiv(a[0], a[1]))));
    if (n == "pow")
    {
        if (isConst(a[1]) && a[1]->c.get_den() == 1 && abs(a[1]->c) <= 8) return ePow(a[0], (int)a[1]->c.get_num().get_si());
        if (isConst(a[1]) && a[1]->c.get_den() == 2 && abs(a[1]->c) <= 8) return ePow(eSqrt(a[0]), (int)a[1]->c.get_num().get_si());
        if (isConst(a[0]) && isConst(a[1]) && a[0]->c > 0) return eReal(niceRational(std::pow(a[0]->c.get_d(), a[1]->c.get_d())));
        return eApp("pow", a, S_REAL);
    }
    if (n == "hypot" || n == "cabs") return eSqrt(eAdd(eMul(a[0], a[0]), eMul(a[1], a[1])));
    if (n == "exp" && isC(a[0], 0)) return eReal(1);
    if (n == "log" && isC(a[0], 1)) return eReal(0);
    if (n == "cos" && isC(a[0], 0)) return eReal(1);
    if ((n == "sin" || n == "tanh" || n == "tan" || n == "atan" || n == "asin") && isC(a[0], 0)) return eReal(0);
    if (n == "sin" || n == "cos" || n == "tanh" || n == "tan" || n == "atan" || n == "asin")
    {
        E x = a[0];
        mpq_class lead = isConst(x) ? x->c : x->k == K_SUM ? x->t[0].second : mpq_class(1);
        if (lead < 0)
        {
            E r = eApp(n, {eNeg(x)}, S_REAL);
            return n == "cos" ? r : eNeg(r);
        }
        if (n == "tan") return eDiv(eApp("sin", {x}, S_REAL), eApp("cos", {x}, S_REAL));
    }
    return eApp(n, a, S_REAL);
}
