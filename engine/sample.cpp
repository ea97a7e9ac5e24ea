// Concrete witnesses for feasibility queries: a fixed pool of random assignments (uninterpreted functions get values by
// hashing name and arguments).  Used only to answer "satisfiable": a wrong answer can cost time but never hides a failure,
// because obligations are always decided by the solver.
#include "expr.h"
#include "smt.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <random>
namespace {
const int NS = 48;
std::unordered_map<E, double> memo[NS];
std::unordered_set<std::string> positive;
uint64_t mix(uint64_t h)
{
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}
uint64_t hs(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL; return h; }
double unit(uint64_t h) { return (double)(mix(h) >> 11) / 9007199254740992.0; }
const double NaN = std::numeric_limits<double>::quiet_NaN();
double draw(uint64_t h, int i, bool pos)
{
    double u = unit(h), v = 0.05 + u;
    switch (i % 4)
    {
        case 1: v = 0.5 + u; break;
        case 2: v = 0.01 + 10 * u; break;
        case 3: v = 0.01 + u * u; break;
    }
    if (!pos && i % 3 && (mix(h + 77) & 1)) v = -v;
    return v;
}
double ev(E e, int i)
{
    auto it = memo[i].find(e);
    if (it != memo[i].end()) return it->second;
    double r = NaN;
    switch (e->k)
    {
        case K_CONST: r = e->c.get_d(); break;
        case K_VAR:
        {
            uint64_t h = mix(hs(e->name) + 1000003ULL * i);
            if (e->s == S_REAL) r = draw(h, i, positive.count(e->name));
            else if (e->s == S_INT) r = (double)(int)(mix(h) % (i % 2 ? 4 : 12)) - (positive.count(e->name) || i % 3 ? 0 : 3);
            else r = mix(h) & 1;
            break;
        }
        case K_SUM: r = e->c.get_d(); for (auto& p : e->t) r += p.second.get_d() * ev(p.first, i); break;
        case K_PROD: r = 1; for (auto& p : e->f) r *= std::pow(ev(p.first, i), p.second); break;
        case K_APP:
        {
            std::vector<double> a;
            for (E x : e->a) a.push_back(ev(x, i));
            bool nan = false;
            for (double x : a) nan |= std::isnan(x);
            if (nan) break;
            if (e->name == "sqrt") r = std::sqrt(a[0]);
            else if (e->name == "exp") r = std::exp(a[0]);
            else if (e->name == "log") r = std::log(a[0]);
            else if (e->name == "sin") r = std::sin(a[0]);
            else if (e->name == "cos") r = std::cos(a[0]);
            else if (e->name == "tan") r = std::tan(a[0]);
            else if (e->name == "tanh") r = std::tanh(a[0]);
            else if (e->name == "big*") r = a[0] * a[1];
            else
            {
                uint64_t h = mix(hs(e->name) + 1000003ULL * i);
                for (double x : a) { float y = (float)x; uint32_t b; memcpy(&b, &y, 4); h = mix(h * 31 + b); }
                r = e->s == S_REAL ? draw(h, i, false) : e->s == S_INT ? (double)(mix(h) % 4) : (double)(mix(h) & 1);
            }
            break;
        }
        case K_ITE: { double c = ev(e->a[0], i); r = std::isnan(c) ? NaN : ev(e->a[c != 0 ? 1 : 2], i); break; }
        case K_TOREAL: r = ev(e->a[0], i); break;
        case K_FLOOR: r = std::floor(ev(e->a[0], i)); break;
        case K_IDIV: r = std::floor(ev(e->a[0], i) / e->c.get_d()); break;
        case K_IMOD: { double x = ev(e->a[0], i), d = e->c.get_d(); r = x - d * std::floor(x / d); break; }
        case K_TRUE: r = 1; break;
        case K_FALSE: r = 0; break;
        case K_NOT: { double c = ev(e->a[0], i); r = std::isnan(c) ? NaN : c == 0; break; }
        case K_AND: r = 1; for (E x : e->a) { double c = ev(x, i); if (c == 0) { r = 0; break; } if (std::isnan(c)) r = NaN; } break;
        case K_OR: r = 0; for (E x : e->a) { double c = ev(x, i); if (c == 1) { r = 1; break; } if (std::isnan(c)) r = NaN; } break;
        case K_LE0: case K_EQ0:
        {
            double x = ev(e->a[0], i);
            bool in = e->a[0]->s == S_INT;
            if (std::isnan(x) || std::isinf(x) || (!in && std::fabs(x) < 1e-7) || std::fabs(x) > 1e9) break;
            r = e->k == K_LE0 ? x <= 0 : x == 0;
            break;
        }
    }
    if (std::isinf(r)) r = NaN;
    return memo[i][e] = r;
}
}
void samplePositive(E c)  // c is an assumed atom: remember variables known to be positive
{
    E v = nullptr;
    // x > 0 is not(x <= 0); x >= 0 is (-x) <= 0
    if (c->k == K_NOT && c->a[0]->k == K_LE0) v = c->a[0]->a[0];
    else if (c->k == K_LE0 && c->a[0]->k == K_SUM && c->a[0]->t.size() == 1 && sgn(c->a[0]->t[0].second) < 0 && sgn(c->a[0]->c) >= 0) v = c->a[0]->t[0].first;
    if (v && v->k == K_VAR && positive.insert(v->name).second && memo[0].count(v))
        for (auto& m : memo) m.clear();
}
bool sampleSat(const std::vector<E>& cs)
{
    if (memo[0].size() > 300000) for (auto& m : memo) m.clear();
    for (int i = 0; i < NS; i++)
    {
        bool ok = true;
        for (size_t k = cs.size(); k-- > 0 && ok;) ok = ev(cs[k], i) == 1;
        if (ok) return true;
    }
    return false;
}
