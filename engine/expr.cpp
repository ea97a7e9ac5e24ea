#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

size_t gExpandLimit = 20000;
bool gBigProducts = false;
std::set<E> gDenoms, gSqrtArgs;

static std::unordered_multimap<uint64_t, E> table;
static uint32_t nextId = 1;
size_t eCount() { return nextId; }

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
static uint64_t hmpz(const mpz_class& z)
{
    uint64_t h = mpz_sgn(z.get_mpz_t()) + 7;
    size_t n = mpz_size(z.get_mpz_t());
    for (size_t i = 0; i < n; i++) h = mix(h, mpz_getlimbn(z.get_mpz_t(), i));
    return h;
}
static uint64_t hmpq(const mpq_class& q) { return mix(hmpz(q.get_num()), hmpz(q.get_den())); }

static E intern(Node& n)
{
    uint64_t h = mix(n.k * 131 + n.s, hmpq(n.c));
    for (char ch : n.name) h = mix(h, (unsigned char)ch);
    for (auto& p : n.t) h = mix(mix(h, p.first->id), hmpq(p.second));
    for (auto& p : n.f) h = mix(mix(h, p.first->id), (uint64_t)(int64_t)p.second);
    for (auto& p : n.a) h = mix(h, p->id);
    auto r = table.equal_range(h);
    for (auto it = r.first; it != r.second; ++it)
    {
        E m = it->second;
        if (m->k == n.k && m->s == n.s && m->a == n.a && m->f == n.f && m->name == n.name && m->c == n.c && m->t == n.t)
            return m;
    }
    Node* nn = new Node(std::move(n));
    nn->id = nextId++;
    nn->hash = h;
    table.emplace(h, nn);
    return nn;
}

const mpq_class& infConst()
{
    static mpq_class v;
    static bool init = false;
    if (!init)
    {
        mpz_class z;
        mpz_ui_pow_ui(z.get_mpz_t(), 10, 400);
        v = mpq_class(z);
        init = true;
    }
    return v;
}
static bool isHuge(const mpq_class& c)
{
    static mpq_class lim = [] { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, 305); return mpq_class(z); }();
    return abs(c) > lim;
}

E eConst(const mpq_class& v, Sort s)
{
    Node n{K_CONST, s};
    n.c = v;
    n.c.canonicalize();
    return intern(n);
}
E eVar(const std::string& nm, Sort s)
{
    Node n{K_VAR, s};
    n.name = nm;
    return intern(n);
}
E eTrue() { static E e = [] { Node n{K_TRUE, S_BOOL}; return intern(n); }(); return e; }
E eFalse() { static E e = [] { Node n{K_FALSE, S_BOOL}; return intern(n); }(); return e; }

typedef std::vector<std::pair<E, mpq_class>> Terms;
static E mkSum(Sort s, const mpq_class& c, Terms&& t)
{
    if (t.empty()) return eConst(c, s);
    if (t.size() == 1 && c == 0 && t[0].second == 1) return t[0].first;
    Node n{K_SUM, s};
    n.c = c;
    n.t = std::move(t);
    return intern(n);
}
static void asSum(E e, mpq_class& c, Terms& t)
{
    if (e->k == K_CONST) { c = e->c; return; }
    if (e->k == K_SUM) { c = e->c; t = e->t; return; }
    c = 0;
    t.assign(1, {e, mpq_class(1)});
}
static E addScaled(E a, E b, const mpq_class& k)
{
    if (a->s != b->s) throw std::runtime_error("sort mismatch in add");
    if (k == 0) return a;
    mpq_class ca, cb;
    Terms ta, tb, r;
    asSum(a, ca, ta);
    asSum(b, cb, tb);
    r.reserve(ta.size() + tb.size());
    size_t i = 0, j = 0;
    while (i < ta.size() || j < tb.size())
    {
        if (j >= tb.size() || (i < ta.size() && ta[i].first->id < tb[j].first->id)) r.push_back(ta[i++]);
        else if (i >= ta.size() || tb[j].first->id < ta[i].first->id)
        {
            r.push_back({tb[j].first, tb[j].second * k});
            j++;
        }
        else
        {
            mpq_class v = ta[i].second + tb[j].second * k;
            if (v != 0) r.push_back({ta[i].first, v});
            i++;
            j++;
        }
    }
    return mkSum(a->s, ca + cb * k, std::move(r));
}
E eAdd(E a, E b) { return addScaled(a, b, 1); }
E eSub(E a, E b) { return addScaled(a, b, -1); }
E eScale(E a, const mpq_class& c)
{
    if (c == 1) return a;
    if (c == 0) return eConst(0, a->s);
    mpq_class ca;
    Terms t;
    asSum(a, ca, t);
    for (auto& p : t) p.second *= c;
    return mkSum(a->s, ca * c, std::move(t));
}
E eNeg(E a) { return eScale(a, -1); }

typedef std::vector<std::pair<E, int>> Facs;
// multiply two monomials given as factor lists. A merged factor may need post-processing (SUM with positive
// exponent, sqrt^2), in which case `post` collects (base,exp) which have to be multiplied in afterwards.
static void asFacs(E e, Facs& f)
{
    if (e->k == K_PROD) f = e->f;
    else f.assign(1, {e, 1});
}
static E mkProd(Sort s, Facs&& f)
{
    if (f.empty()) return eConst(1, s);
    if (f.size() == 1 && f[0].second == 1) return f[0].first;
    Node n{K_PROD, s};
    n.f = std::move(f);
    return intern(n);
}
static E mulMono(E a, E b)
{
    Facs fa, fb, r;
    asFacs(a, fa);
    asFacs(b, fb);
    r.reserve(fa.size() + fb.size());
    std::vector<std::pair<E, int>> post;
    auto push = [&](E base, int ex) {
        if (ex == 0) return;
        if (base->k == K_SUM && ex > 0) post.push_back({base, ex});
        else if (base->k == K_APP && base->name == "sqrt" && (ex >= 2 || ex <= -2))
        {
            int h = ex / 2, rem = ex - 2 * h;
            post.push_back({base->a[0], h});
            if (rem) r.push_back({base, rem});
        }
        else if (base->k == K_ITE && (ex >= 2 || ex <= -2) && false)
            ;
        else
            r.push_back({base, ex});
    };
    size_t i = 0, j = 0;
    while (i < fa.size() || j < fb.size())
    {
        if (j >= fb.size() || (i < fa.size() && fa[i].first->id < fb[j].first->id)) { push(fa[i].first, fa[i].second); i++; }
        else if (i >= fa.size() || fb[j].first->id < fa[i].first->id) { push(fb[j].first, fb[j].second); j++; }
        else
        {
            push(fa[i].first, fa[i].second + fb[j].second);
            i++;
            j++;
        }
    }
    // r may have SUM factors with positive exponents only if opaque (too large); keep
    E m = mkProd(a->s, std::move(r));
    for (auto& p : post)
    {
        if (p.first->k == K_SUM && p.second > 0)
        {
            // opaque too-large sum: avoid endless recursion by expanding explicitly
            m = eMul(m, ePow(p.first, p.second));
        }
        else
            m = eMul(m, ePow(p.first, p.second));
    }
    return m;
}

// proportional? b = k*a
static bool proportional(E a, E b, mpq_class& k)
{
    if (a == b) { k = 1; return true; }
    mpq_class ca, cb;
    if (a->k != K_SUM || b->k != K_SUM || a->t.size() != b->t.size()) return false;
    k = b->t[0].second / a->t[0].second;
    if (b->c != a->c * k) return false;
    for (size_t i = 0; i < a->t.size(); i++)
        if (a->t[i].first != b->t[i].first || b->t[i].second != a->t[i].second * k) return false;
    return true;
}
static bool monoCancels(E m, E sum, E& out)
{
    if (m->k != K_PROD) return false;
    for (auto& p : m->f)
        if (p.second < 0 && p.first->k == K_SUM)
        {
            mpq_class k;
            if (proportional(p.first, sum, k))
            {
                Facs f;
                for (auto& q : m->f)
                {
                    int ex = q.second + (&q == &p ? 1 : 0);
                    if (ex) f.push_back({q.first, ex});
                }
                out = eScale(mkProd(m->s, std::move(f)), k);
                return true;
            }
        }
    return false;
}

E eMul(E a, E b)
{
    if (a->s != b->s) throw std::runtime_error("sort mismatch in mul");
    if (a->k == K_CONST) return eScale(b, a->c);
    if (b->k == K_CONST) return eScale(a, b->c);
    if (a->k != K_SUM && b->k != K_SUM) return mulMono(a, b);
    E o;
    if (a->k == K_SUM && b->k != K_SUM && monoCancels(b, a, o)) return o;
    if (b->k == K_SUM && a->k != K_SUM && monoCancels(a, b, o)) return o;
    mpq_class ca, cb;
    Terms ta, tb;
    asSum(a, ca, ta);
    asSum(b, cb, tb);
    if (ta.size() * tb.size() > gExpandLimit)
    {
        if (a->s != S_REAL) throw TooBig("polynomial expansion limit");
        // keep the product as an opaque term (equal products are still equal; a failing goal that contains one is undecided)
        gBigProducts = true;
        if (a->id > b->id) std::swap(a, b);
        return eApp("big*", {a, b}, S_REAL);
    }
    // single scaled monomial with cancelling denominator
    if (ta.size() == 1 && ca == 0 && monoCancels(ta[0].first, b, o)) return eScale(o, ta[0].second);
    if (tb.size() == 1 && cb == 0 && monoCancels(tb[0].first, a, o)) return eScale(o, tb[0].second);
    std::unordered_map<E, mpq_class> acc;
    mpq_class c0 = ca * cb;
    auto addExpr = [&](E e, const mpq_class& k) {
        if (e->k == K_CONST) c0 += e->c * k;
        else if (e->k == K_SUM)
        {
            c0 += e->c * k;
            for (auto& p : e->t) acc[p.first] += p.second * k;
        }
        else acc[e] += k;
    };
    if (cb != 0) for (auto& p : ta) acc[p.first] += p.second * cb;
    if (ca != 0) for (auto& p : tb) acc[p.first] += p.second * ca;
    for (auto& p : ta)
        for (auto& q : tb) addExpr(mulMono(p.first, q.first), p.second * q.second);
    Terms r;
    r.reserve(acc.size());
    for (auto& p : acc)
        if (p.second != 0) r.push_back(p);
    std::sort(r.begin(), r.end(), [](const std::pair<E, mpq_class>& x, const std::pair<E, mpq_class>& y) { return x.first->id < y.first->id; });
    return mkSum(a->s, c0, std::move(r));
}

static E inv(E b)
{
    if (b->k == K_CONST)
    {
        if (b->c == 0) return eApp("recip0", {}, S_REAL);   // division by literal zero: unspecified value
        return eReal(1 / b->c);
    }
    gDenoms.insert(b);
    mpq_class scale = 1;
    if (b->k == K_SUM)
    {
        // split content: single scaled monomial?
        if (b->t.size() == 1 && b->c == 0) { scale = b->t[0].second; b = b->t[0].first; }
        else
        {
            // common monomial factor extraction (cheap, helps cancellation)
            scale = b->t[0].second;
            b = eScale(b, 1 / scale);
        }
    }
    E r;
    if (b->k == K_PROD)
    {
        Facs f;
        std::vector<E> sums;
        for (auto& p : b->f) f.push_back({p.first, -p.second});
        E m = eReal(1);
        Facs keep;
        for (auto& p : f)
        {
            if (p.first->k == K_SUM && p.second > 0) m = eMul(m, ePow(p.first, p.second));
            else keep.push_back(p);
        }
        r = eMul(m, mkProd(S_REAL, std::move(keep)));
    }
    else
    {
        Facs f{{b, -1}};
        r = mkProd(S_REAL, std::move(f));
    }
    return eScale(r, 1 / scale);
}
E eDiv(E a, E b)
{
    if (a->k == K_CONST && a->c == 0) { if (b->k != K_CONST) gDenoms.insert(b); return a; }
    if (a == b && a->k != K_CONST) { gDenoms.insert(b); return eReal(1); }
    mpq_class k;
    if (a->k == K_SUM && b->k == K_SUM && proportional(b, a, k)) { gDenoms.insert(b); return eReal(k); }
    return eMul(a, inv(b));
}
E ePow(E a, int n)
{
    if (n == 0) return eConst(1, a->s);
    if (n < 0) return inv(ePow(a, -n));
    E r = a;
    for (int i = 1; i < n; i++) r = eMul(r, a);
    return r;
}
E eAbs(E a)
{
    if (isConst(a)) return eConst(abs(a->c), a->s);
    if (a->k == K_APP && (a->name == "sqrt" || a->name == "exp")) return a;
    // even monomials
    if (a->k == K_PROD)
    {
        bool even = true;
        for (auto& p : a->f) if (p.second % 2 && !(p.first->k == K_APP && (p.first->name == "sqrt" || p.first->name == "exp"))) even = false;
        if (even) return a;
    }
    return eIte(eLe(eConst(0, a->s), a), a, eNeg(a));
}
E eSqrt(E a)
{
    if (isConst(a))
    {
        if (a->c < 0) return eApp("sqrt", {a}, S_REAL);
        mpz_class n = sqrt(a->c.get_num()), d = sqrt(a->c.get_den());
        if (n * n == a->c.get_num() && d * d == a->c.get_den()) return eReal(mpq_class(n, d));
        return eApp("sqrt", {a}, S_REAL);
    }
    // sqrt(x^2) = |x|
    mpq_class c = 1;
    E m = a;
    if (a->k == K_SUM && a->t.size() == 1 && a->c == 0) { c = a->t[0].second; m = a->t[0].first; }
    if (c > 0 && m->k == K_PROD)
    {
        bool even = true;
        for (auto& p : m->f) if (p.second % 2) even = false;
        mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den());
        if (even && n * n == c.get_num() && d * d == c.get_den())
        {
            Facs f;
            for (auto& p : m->f) f.push_back({p.first, p.second / 2});
            E r = eReal(1);
            for (auto& p : f) r = eMul(r, ePow(p.first, p.second));
            return eScale(eAbs(r), mpq_class(n, d));
        }
    }
    gSqrtArgs.insert(a);
    return eApp("sqrt", {a}, S_REAL);
}
E eApp(const std::string& nm, const std::vector<E>& args, Sort s)
{
    Node n{K_APP, s};
    n.name = nm;
    n.a = args;
    return intern(n);
}
E eIte(E c, E a, E b)
{
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    if (c->k == K_NOT) return eIte(c->a[0], b, a);
    if (a->s == S_BOOL) return eOr(eAnd(c, a), eAnd(eNot(c), b));
    if (a->k == K_ITE && a->a[0] == c) a = a->a[1];
    if (b->k == K_ITE && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    Node n{K_ITE, a->s};
    n.a = {c, a, b};
    return intern(n);
}
E eToReal(E a)
{
    if (isConst(a)) return eReal(a->c);
    if (a->k == K_SUM)
    {
        E r = eReal(a->c);
        for (auto& p : a->t) r = eAdd(r, eScale(eToReal(p.first), p.second));
        return r;
    }
    if (a->k == K_PROD)
    {
        E r = eReal(1);
        for (auto& p : a->f) r = eMul(r, ePow(eToReal(p.first), p.second));
        return r;
    }
    if (a->k == K_ITE) return eIte(a->a[0], eToReal(a->a[1]), eToReal(a->a[2]));
    Node n{K_TOREAL, S_REAL};
    n.a = {a};
    return intern(n);
}
E eFloor(E a)
{
    if (isConst(a))
    {
        mpz_class q;
        mpz_fdiv_q(q.get_mpz_t(), a->c.get_num().get_mpz_t(), a->c.get_den().get_mpz_t());
        return eConst(mpq_class(q), S_INT);
    }
    if (a->k == K_TOREAL) return a->a[0];
    if (a->k == K_SUM)
    {
        // pull out the integer part
        E r = eInt(0);
        mpq_class c = a->c;
        Terms rest;
        for (auto& p : a->t)
        {
            if (p.first->k == K_TOREAL && p.second.get_den() == 1) r = eAdd(r, eScale(p.first->a[0], p.second));
            else rest.push_back(p);
        }
        mpz_class q;
        mpz_fdiv_q(q.get_mpz_t(), c.get_num().get_mpz_t(), c.get_den().get_mpz_t());
        c -= mpq_class(q);
        r = eAdd(r, eConst(mpq_class(q), S_INT));
        if (rest.empty()) return r;
        Node n{K_FLOOR, S_INT};
        n.a = {mkSum(S_REAL, c, std::move(rest))};
        return eAdd(r, intern(n));
    }
    Node n{K_FLOOR, S_INT};
    n.a = {a};
    return intern(n);
}
E eIDiv(E a, const mpz_class& d)
{
    if (d == 1) return a;
    if (isConst(a))
    {
        mpz_class q;
        mpz_fdiv_q(q.get_mpz_t(), a->c.get_num().get_mpz_t(), d.get_mpz_t());
        return eConst(mpq_class(q), S_INT);
    }
    if (a->k == K_SUM)
    {
        E r = eInt(0);
        Terms rest;
        mpq_class dq(d);
        for (auto& p : a->t)
        {
            mpq_class q = p.second / dq;
            if (q.get_den() == 1) r = eAdd(r, eScale(p.first, q));
            else rest.push_back(p);
        }
        mpz_class q;
        mpz_fdiv_q(q.get_mpz_t(), a->c.get_num().get_mpz_t(), d.get_mpz_t());
        r = eAdd(r, eConst(mpq_class(q), S_INT));
        mpq_class c = a->c - mpq_class(q) * dq;
        if (rest.empty()) return r;
        Node n{K_IDIV, S_INT};
        n.c = dq;
        n.a = {mkSum(S_INT, c, std::move(rest))};
        return eAdd(r, intern(n));
    }
    Node n{K_IDIV, S_INT};
    n.c = mpq_class(d);
    n.a = {a};
    return intern(n);
}
E eIMod(E a, const mpz_class& d) { return eSub(a, eScale(eIDiv(a, d), mpq_class(d))); }

E eNot(E a)
{
    if (isTrue(a)) return eFalse();
    if (isFalse(a)) return eTrue();
    if (a->k == K_NOT) return a->a[0];
    if (a->k == K_LE0 && a->a[0]->s == S_INT) return eLe(eInt(1), a->a[0]);
    Node n{K_NOT, S_BOOL};
    n.a = {a};
    return intern(n);
}
static E nary(Kind k, std::vector<E> v)
{
    E unit = k == K_AND ? eTrue() : eFalse(), zero = k == K_AND ? eFalse() : eTrue();
    std::vector<E> r;
    for (E e : v)
    {
        if (e == zero) return zero;
        if (e == unit) continue;
        if (e->k == k) r.insert(r.end(), e->a.begin(), e->a.end());
        else r.push_back(e);
    }
    std::sort(r.begin(), r.end(), [](E x, E y) { return x->id < y->id; });
    r.erase(std::unique(r.begin(), r.end()), r.end());
    std::unordered_set<E> s(r.begin(), r.end());
    for (E e : r)
        if (s.count(eNot(e))) return zero;
    if (r.empty()) return unit;
    if (r.size() == 1) return r[0];
    Node n{k, S_BOOL};
    n.a = r;
    return intern(n);
}
E eAndN(std::vector<E> v) { return nary(K_AND, std::move(v)); }
E eOrN(std::vector<E> v) { return nary(K_OR, std::move(v)); }
E eAnd(E a, E b) { return nary(K_AND, {a, b}); }
E eOr(E a, E b) { return nary(K_OR, {a, b}); }

static E le0(E d)
{
    if (isConst(d)) return eBool(d->c <= 0);
    if (d->k == K_ITE && isConst(d->a[1]) && isConst(d->a[2]))
        return eIte(d->a[0], eBool(d->a[1]->c <= 0), eBool(d->a[2]->c <= 0));
    if (d->k == K_SUM)
    {
        if (d->s == S_REAL && isHuge(d->c)) return eBool(d->c < 0);
        if (d->s == S_INT)
        {
            // integer tightening: divide by gcd of coefficients
            mpz_class g = 0;
            bool integral = true;
            for (auto& p : d->t) { if (p.second.get_den() != 1) integral = false; else g = gcd(g, p.second.get_num()); }
            if (integral && g != 0)
            {
                Terms t = d->t;
                for (auto& p : t) p.second /= mpq_class(g);
                mpz_class q;
                mpz_cdiv_q(q.get_mpz_t(), d->c.get_num().get_mpz_t(), g.get_mpz_t());
                d = mkSum(S_INT, mpq_class(q), std::move(t));
            }
        }
        else
            d = eScale(d, 1 / abs(d->t[0].second));
    }
    Node n{K_LE0, S_BOOL};
    n.a = {d};
    return intern(n);
}
E eLe(E a, E b) { return le0(eSub(a, b)); }
E eLt(E a, E b)
{
    if (a->s == S_INT) return eLe(eAdd(a, eInt(1)), b);
    return eNot(eLe(b, a));
}
E eEq(E a, E b)
{
    if (a == b) return eTrue();
    if (a->s == S_BOOL) return eOr(eAnd(a, b), eAnd(eNot(a), eNot(b)));
    E d = eSub(a, b);
    if (isConst(d)) return eBool(d->c == 0);
    if (d->k == K_ITE && isConst(d->a[1]) && isConst(d->a[2]))
        return eIte(d->a[0], eBool(d->a[1]->c == 0), eBool(d->a[2]->c == 0));
    if (d->k == K_SUM)
    {
        if (d->s == S_REAL && isHuge(d->c)) return eFalse();
        d = eScale(d, 1 / d->t[0].second);
        if (d->k == K_ITE && isConst(d->a[1]) && isConst(d->a[2]))
            return eIte(d->a[0], eBool(d->a[1]->c == 0), eBool(d->a[2]->c == 0));
        if (d->s == S_INT && d->k == K_SUM)
        {
            mpz_class l = 1, g = 0;
            for (auto& p : d->t) l = lcm(l, p.second.get_den());
            l = lcm(l, d->c.get_den());
            d = eScale(d, mpq_class(l));
            for (auto& p : d->t) g = gcd(g, p.second.get_num());
            if (g == 0 || d->c.get_num() % g != 0) return eBool(g == 0 && d->c == 0);
            d = eScale(d, mpq_class(1, 1) / mpq_class(g));
        }
    }
    Node n{K_EQ0, S_BOOL};
    n.a = {d};
    return intern(n);
}
E eMin(E a, E b) { return eIte(eLe(a, b), a, b); }
E eMax(E a, E b) { return eIte(eLe(a, b), b, a); }

void eChildren(E e, std::vector<E>& out)
{
    for (auto& p : e->t) out.push_back(p.first);
    for (auto& p : e->f) out.push_back(p.first);
    for (auto& p : e->a) out.push_back(p);
}
E eRebuild(E e, const std::function<E(E)>& r)
{
    switch (e->k)
    {
        case K_CONST: case K_VAR: case K_TRUE: case K_FALSE: return e;
        case K_SUM:
        {
            E x = eConst(e->c, e->s);
            for (auto& p : e->t) x = eAdd(x, eScale(r(p.first), p.second));
            return x;
        }
        case K_PROD:
        {
            E x = eConst(1, e->s);
            for (auto& p : e->f)
            {
                E b = r(p.first);
                x = p.second > 0 ? eMul(x, ePow(b, p.second)) : eMul(x, ePow(b, p.second));
            }
            return x;
        }
        case K_APP:
        {
            std::vector<E> v;
            for (E x : e->a) v.push_back(r(x));
            if (e->name == "sqrt") return eSqrt(v[0]);
            if (e->name == "big*") return eMul(v[0], v[1]);
            return eApp(e->name, v, e->s);
        }
        case K_ITE: { E c = r(e->a[0]); if (isTrue(c)) return r(e->a[1]); if (isFalse(c)) return r(e->a[2]); return eIte(c, r(e->a[1]), r(e->a[2])); }
        case K_TOREAL: return eToReal(r(e->a[0]));
        case K_FLOOR: return eFloor(r(e->a[0]));
        case K_IDIV: return eIDiv(r(e->a[0]), e->c.get_num());
        case K_IMOD: return eIMod(r(e->a[0]), e->c.get_num());
        case K_NOT: return eNot(r(e->a[0]));
        case K_AND: { std::vector<E> v; for (E x : e->a) v.push_back(r(x)); return eAndN(v); }
        case K_OR: { std::vector<E> v; for (E x : e->a) v.push_back(r(x)); return eOrN(v); }
        case K_LE0: return le0(r(e->a[0]));
        case K_EQ0: { E d = r(e->a[0]); return eEq(d, eConst(0, d->s)); }
    }
    return e;
}
E eSubst(E e, const Subst& m, std::unordered_map<E, E>& memo)
{
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    auto mt = memo.find(e);
    if (mt != memo.end()) return mt->second;
    E r = eRebuild(e, [&](E x) { return eSubst(x, m, memo); });
    memo[e] = r;
    return r;
}
E eSubst(E e, const Subst& m)
{
    std::unordered_map<E, E> memo;
    return eSubst(e, m, memo);
}
static E diffRec(E e, E v, std::unordered_map<E, E>& memo)
{
    if (e == v) return eReal(1);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r = eReal(0);
    switch (e->k)
    {
        case K_CONST: case K_VAR: case K_TOREAL: case K_FLOOR: break;
        case K_SUM:
            for (auto& p : e->t) r = eAdd(r, eScale(diffRec(p.first, v, memo), p.second));
            break;
        case K_PROD:
            for (auto& p : e->f)
            {
                E d = diffRec(p.first, v, memo);
                if (isConst(d) && d->c == 0) continue;
                // p * e / base * d
                E rest = eReal(1);
                for (auto& q : e->f)
                {
                    int ex = q.second - (&q == &p ? 1 : 0);
                    rest = eMul(rest, ePow(q.first, ex));
                }
                r = eAdd(r, eScale(eMul(rest, d), p.second));
            }
            break;
        case K_APP:
        {
            for (size_t i = 0; i < e->a.size(); i++)
            {
                if (e->a[i]->s != S_REAL) continue;
                E d = diffRec(e->a[i], v, memo);
                if (isConst(d) && d->c == 0) continue;
                E g;
                E x = e->a[i];
                if (e->name == "exp") g = e;
                else if (e->name == "log") g = eDiv(eReal(1), x);
                else if (e->name == "sin") g = eApp("cos", {x}, S_REAL);
                else if (e->name == "cos") g = eNeg(eApp("sin", {x}, S_REAL));
                else if (e->name == "tan") g = eDiv(eReal(1), eMul(eApp("cos", {x}, S_REAL), eApp("cos", {x}, S_REAL)));
                else if (e->name == "tanh") g = eSub(eReal(1), eMul(e, e));
                else if (e->name == "sqrt") g = eDiv(eReal(mpq_class(1, 2)), e);
                else if (e->name == "big*") g = e->a[1 - i];
                else g = eApp(e->name + "#" + std::to_string(i), e->a, S_REAL);
                r = eAdd(r, eMul(g, d));
            }
            break;
        }
        case K_ITE: r = eIte(e->a[0], diffRec(e->a[1], v, memo), diffRec(e->a[2], v, memo)); break;
        default: throw std::runtime_error("eDiff of a Boolean");
    }
    memo[e] = r;
    return r;
}
E eDiff(E e, E v)
{
    std::unordered_map<E, E> memo;
    return diffRec(e, v, memo);
}
void eCollect(E e, std::unordered_set<E>& seen)
{
    std::vector<E> st{e};
    while (!st.empty())
    {
        E x = st.back();
        st.pop_back();
        if (!seen.insert(x).second) continue;
        eChildren(x, st);
    }
}
size_t eSize(E e)
{
    std::unordered_set<E> s;
    eCollect(e, s);
    return s.size();
}
static void strRec(E e, std::string& o, size_t lim, int depth)
{
    if (o.size() > lim) return;
    switch (e->k)
    {
        case K_CONST: o += e->c.get_str(); return;
        case K_VAR: o += e->name; return;
        case K_TRUE: o += "true"; return;
        case K_FALSE: o += "false"; return;
        case K_SUM:
        {
            o += "(";
            bool first = true;
            if (e->c != 0) { o += e->c.get_str(); first = false; }
            for (auto& p : e->t)
            {
                if (!first) o += " + ";
                first = false;
                if (p.second != 1) o += p.second.get_str() + "*";
                strRec(p.first, o, lim, depth + 1);
                if (o.size() > lim) { o += "..."; return; }
            }
            o += ")";
            return;
        }
        case K_PROD:
        {
            bool first = true;
            for (auto& p : e->f)
            {
                if (!first) o += "*";
                first = false;
                strRec(p.first, o, lim, depth + 1);
                if (p.second != 1) o += "^" + std::to_string(p.second);
            }
            return;
        }
        default:
        {
            static const char* nm[] = {"", "", "", "", "", "ite", "toreal", "floor", "idiv", "imod", "", "", "not", "and", "or", "le0", "eq0"};
            o += e->k == K_APP ? e->name : nm[e->k];
            if (e->k == K_IDIV || e->k == K_IMOD) o += "[" + e->c.get_str() + "]";
            o += "(";
            for (size_t i = 0; i < e->a.size(); i++)
            {
                if (i) o += ", ";
                strRec(e->a[i], o, lim, depth + 1);
            }
            o += ")";
        }
    }
}
std::string eStr(E e, size_t limit)
{
    std::string s;
    strRec(e, s, limit, 0);
    if (s.size() > limit + 200) s.resize(limit);
    return s;
}

bool eNumerator(E e, E& out)
{
    try
    {
        for (int round = 0; round < 8; round++)
        {
            mpq_class c;
            Terms t;
            asSum(e, c, t);
            std::map<uint32_t, std::pair<E, int>> den;
            for (auto& p : t)
            {
                Facs f;
                asFacs(p.first, f);
                for (auto& q : f)
                    if (q.second < 0)
                    {
                        auto& d = den[q.first->id];
                        d.first = q.first;
                        d.second = std::max(d.second, -q.second);
                    }
            }
            if (den.empty()) { out = e; return true; }
            E r = eReal(0);
            auto mulDen = [&](E m, const mpq_class& k) {
                Facs f;
                if (m) asFacs(m, f);
                E x = eReal(k);
                std::map<uint32_t, std::pair<E, int>> need = den;
                Facs rest;
                for (auto& q : f)
                {
                    auto it = need.find(q.first->id);
                    if (it != need.end())
                    {
                        it->second.second += q.second;
                    }
                    else rest.push_back(q);
                }
                x = eMul(x, mkProd(S_REAL, std::move(rest)));
                for (auto& d : need)
                    if (d.second.second > 0) x = eMul(x, ePow(d.second.first, d.second.second));
                r = eAdd(r, x);
            };
            if (c != 0) mulDen(nullptr, c);
            for (auto& p : t) mulDen(p.first, p.second);
            e = r;
            if (isConst(e)) { out = e; return true; }
        }
    }
    catch (TooBig&) { return false; }
    out = e;
    return true;
}
static E findIteRec(E e, std::unordered_set<E>& seen)
{
    if (!seen.insert(e).second) return nullptr;
    std::vector<E> ch;
    eChildren(e, ch);
    for (E c : ch)
        if (E r = findIteRec(c, seen)) return r;
    if (e->k == K_ITE) return e->a[0];
    return nullptr;
}
E eFindIte(E e)
{
    std::unordered_set<E> s;
    return findIteRec(e, s);
}
E eAssumeCond(E e, E cond, bool val)
{
    Subst m;
    if (cond->k == K_AND && val)
        for (E c : cond->a) { m[c] = eTrue(); m[eNot(c)] = eFalse(); }
    if (cond->k == K_OR && !val)
        for (E c : cond->a) { m[c] = eFalse(); m[eNot(c)] = eTrue(); }
    m[cond] = eBool(val);
    m[eNot(cond)] = eBool(!val);
    return eSubst(e, m);
}

// Rational reading of a double literal: the simplest rational (continued fraction) that rounds to the same double,
// provided its denominator is small; otherwise the shortest decimal; otherwise the exact binary value.
mpq_class niceRational(double d)
{
    if (std::isnan(d)) throw std::runtime_error("nan literal");
    if (std::isinf(d)) return d > 0 ? infConst() : mpq_class(-infConst());
    if (d == 0) return 0;
    mpq_class exact(d);
    if (exact.get_den() <= 1048576) return exact;
    // shortest decimal
    char buf[64];
    auto decimal = [&](int from, int to, mpq_class& out) {
    for (int p = from; p <= to; p++)
    {
        snprintf(buf, sizeof buf, "%.*e", p - 1, d);
        if (strtod(buf, nullptr) == d)
        {
            // parse decimal
            std::string s = buf;
            size_t ep = s.find('e');
            int ex = atoi(s.c_str() + ep + 1);
            std::string m = s.substr(0, ep), digits;
            int frac = 0;
            bool dot = false;
            for (char c : m)
            {
                if (c == '.') dot = true;
                else { digits += c; if (dot) frac++; }
            }
            mpz_class num(digits[0] == '+' ? digits.substr(1) : digits);
            mpq_class r(num);
            int e10 = ex - frac;
            mpz_class pw;
            mpz_ui_pow_ui(pw.get_mpz_t(), 10, std::abs(e10));
            if (e10 >= 0) r *= mpq_class(pw); else r /= mpq_class(pw);
            out = r;
            return true;
        }
    }
    return false;
    };
    mpq_class dec;
    if (decimal(1, 12, dec)) return dec;
    // continued fraction
    mpq_class x = abs(exact);
    mpz_class h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    for (int i = 0; i < 30; i++)
    {
        mpz_class a;
        mpz_fdiv_q(a.get_mpz_t(), x.get_num().get_mpz_t(), x.get_den().get_mpz_t());
        mpz_class h2 = a * h1 + h0, k2 = a * k1 + k0;
        h0 = h1; h1 = h2; k0 = k1; k1 = k2;
        if (k1 > 100000) break;
        mpq_class cand(h1, k1);
        if (sgn(exact) < 0) cand = -cand;
        // correctly rounded compare
        double back = 0;
        {
            // mpq_get_d truncates; use division of doubles when both are small (correctly rounded)
            if (h1 < mpz_class("9007199254740992") && k1 < mpz_class("9007199254740992")) back = h1.get_d() / k1.get_d() * (sgn(exact) < 0 ? -1 : 1);
        }
        if (back == d) return cand;
        x -= mpq_class(a);
        if (x == 0) break;
        x = 1 / x;
    }
    if (decimal(13, 15, dec)) return dec;
    return exact;
}
