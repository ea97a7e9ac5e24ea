#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "smt.h"
#include <z3++.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>

SmtStats gSmt;
std::string gLastBackend;
double nowSec()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Tr
{
    z3::context& c;
    bool abstractApps;
    std::unordered_map<E, unsigned> idx;
    std::vector<z3::expr> memo;
    std::vector<E> apps;
    std::set<E> dens;
    Tr(z3::context& c_, bool ab) : c(c_), abstractApps(ab) {}
    z3::expr tr(E e)
    {
        auto it = idx.find(e);
        if (it != idx.end()) return memo[it->second];
        z3::expr r = tr1(e);
        idx[e] = memo.size();
        memo.push_back(r);
        return r;
    }
    z3::sort srt(Sort s) { return s == S_BOOL ? c.bool_sort() : s == S_INT ? c.int_sort() : c.real_sort(); }
    z3::expr num(const mpq_class& q, Sort s)
    {
        if (s == S_INT) return c.int_val(q.get_num().get_str().c_str());
        return c.real_val(q.get_str().c_str());
    }
    z3::expr pw(z3::expr b, int n)
    {
        z3::expr r = b;
        for (int i = 1; i < n; i++) r = r * b;
        return r;
    }
    z3::expr tr1(E e)
    {
        switch (e->k)
        {
            case K_CONST: return num(e->c, e->s);
            case K_VAR: return c.constant(("v!" + e->name).c_str(), srt(e->s));
            case K_TRUE: return c.bool_val(true);
            case K_FALSE: return c.bool_val(false);
            case K_SUM:
            {
                z3::expr_vector v(c);
                // integer sums with rational coefficients do not occur
                if (e->c != 0) v.push_back(num(e->c, e->s));
                for (auto& p : e->t) v.push_back(p.second == 1 ? tr(p.first) : num(p.second, e->s) * tr(p.first));
                return v.size() == 1 ? v[0] : z3::sum(v);
            }
            case K_PROD:
            {
                z3::expr r = c.real_val(1);
                bool first = true;
                z3::expr d = c.real_val(1);
                bool hasD = false;
                for (auto& p : e->f)
                {
                    z3::expr b = tr(p.first);
                    if (p.second > 0)
                    {
                        z3::expr x = pw(b, p.second);
                        r = first ? x : r * x;
                        first = false;
                    }
                    else
                    {
                        dens.insert(p.first);
                        z3::expr x = pw(b, -p.second);
                        d = hasD ? d * x : x;
                        hasD = true;
                    }
                }
                if (hasD) r = r / d;
                return r;
            }
            case K_APP:
            {
                apps.push_back(e);
                if (e->a.empty() || abstractApps)
                {
                    for (E a : e->a) tr(a);
                    return c.constant((e->a.empty() ? "c!" + e->name : "app!" + std::to_string(e->id)).c_str(), srt(e->s));
                }
                z3::sort_vector sv(c);
                z3::expr_vector av(c);
                for (E a : e->a)
                {
                    av.push_back(tr(a));
                    sv.push_back(srt(a->s));
                }
                return c.function(("f!" + e->name).c_str(), sv, srt(e->s))(av);
            }
            case K_ITE: return z3::ite(tr(e->a[0]), tr(e->a[1]), tr(e->a[2]));
            case K_TOREAL: return z3::to_real(tr(e->a[0]));
            case K_FLOOR: return z3::expr(c, Z3_mk_real2int(c, tr(e->a[0])));
            case K_IDIV: return tr(e->a[0]) / num(e->c, S_INT);
            case K_IMOD: return z3::mod(tr(e->a[0]), num(e->c, S_INT));
            case K_NOT: return !tr(e->a[0]);
            case K_AND:
            case K_OR:
            {
                z3::expr_vector v(c);
                for (E a : e->a) v.push_back(tr(a));
                return e->k == K_AND ? z3::mk_and(v) : z3::mk_or(v);
            }
            case K_LE0: return tr(e->a[0]) <= num(0, e->a[0]->s);
            case K_EQ0: return tr(e->a[0]) == num(0, e->a[0]->s);
        }
        throw std::runtime_error("smt: kind");
    }
};

static void axioms(Tr& t, z3::expr_vector& out)
{
    z3::context& c = t.c;
    auto zero = c.real_val(0), one = c.real_val(1);
    size_t n = t.apps.size();
    std::set<E> done;
    for (size_t i = 0; i < n; i++)
    {
        E e = t.apps[i];
        if (!done.insert(e).second) continue;
        if (e->name == "sqrt")
        {
            z3::expr s = t.tr(e), x = t.tr(e->a[0]);
            out.push_back(z3::implies(x >= zero, s >= zero && s * s == x));
        }
        else if (e->name == "exp")
            out.push_back(t.tr(e) > zero);
        else if (e->name == "tanh")
            out.push_back(t.tr(e) < one && t.tr(e) > -one);
        else if (e->name == "pow")
        {
            z3::expr v = t.tr(e), b = t.tr(e->a[0]);
            out.push_back(z3::implies(b > zero, v > zero));
            if (e->a[1]->k == K_CONST)
            {
                bool neg = e->a[1]->c < 0;
                out.push_back(z3::implies(b > zero && b <= one, neg ? v >= one : v <= one));
                out.push_back(z3::implies(b >= one, neg ? v <= one : v >= one));
            }
        }
        else if (e->name == "sin" || e->name == "cos")
        {
            z3::expr s = t.tr(eApp("sin", e->a, S_REAL)), k = t.tr(eApp("cos", e->a, S_REAL));
            out.push_back(s * s + k * k == one && s <= one && s >= -one && k <= one && k >= -one);
        }
    }
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n && j < i + 20; j++)
        {
            E e = t.apps[i], g = t.apps[j];
            if (e != g && e->name == "exp" && g->name == "exp")
                out.push_back((t.tr(e->a[0]) <= t.tr(g->a[0])) == (t.tr(e) <= t.tr(g)));
        }
    for (E d : t.dens) out.push_back(t.tr(d) != zero);
}

static std::unordered_map<std::string, SatR> cache;

static SatR runExternal(const std::string& cmd, const std::string& smt2)
{
    char fn[] = "/tmp/ctvq_XXXXXX";
    int fd = mkstemp(fn);
    if (fd < 0) return R_UNKNOWN;
    FILE* f = fdopen(fd, "w");
    fputs(smt2.c_str(), f);
    fclose(f);
    FILE* p = popen((cmd + " " + fn + " 2>/dev/null").c_str(), "r");
    std::string out;
    char buf[256];
    while (p && fgets(buf, sizeof buf, p)) out += buf;
    if (p) pclose(p);
    unlink(fn);
    if (out.compare(0, 5, "unsat") == 0) return R_UNSAT;
    if (out.compare(0, 3, "sat") == 0) return R_SAT;
    return R_UNKNOWN;
}

static void getModel(z3::context& c, z3::model m, Tr& t, Model* out)
{
    for (auto& p : t.idx)
    {
        E e = p.first;
        if (e->k != K_VAR) continue;
        z3::expr v = m.eval(t.memo[p.second], true);
        if (e->s == S_BOOL) out->vars[e->name] = {S_BOOL, mpq_class(v.is_true() ? 1 : 0)};
        else if (v.is_numeral())
        {
            std::string s = Z3_get_numeral_string(c, v);
            mpq_class q;
            if (q.set_str(s, 10) == 0) { q.canonicalize(); out->vars[e->name] = {e->s, q}; }
        }
        else if (v.is_algebraic())
        {
            std::string s = v.get_decimal_string(17);
            if (!s.empty() && s.back() == '?') s.pop_back();
            out->vars[e->name] = {e->s, mpq_class(strtod(s.c_str(), nullptr))};
        }
    }
}

static SatR solveInProcess(const std::vector<E>& cs, unsigned timeoutMs, Model* m, bool portfolio)
{
    SatR res = R_UNKNOWN;
    try
    {
        z3::context c;
        Tr t(c, false);
        z3::expr_vector fs(c);
        for (E e : cs) fs.push_back(t.tr(e));
        axioms(t, fs);
        z3::solver s(c);
        z3::params p(c);
        p.set("timeout", timeoutMs);
        s.set(p);
        for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]);
        z3::check_result r = z3::unknown;
        try { r = s.check(); } catch (z3::exception&) {}
        if (r == z3::sat) { res = R_SAT; if (m) getModel(c, s.get_model(), t, m); }
        else if (r == z3::unsat) res = R_UNSAT;
        if (res == R_UNKNOWN && portfolio)
        {
            // nlsat on the application-free abstraction (sound for unsat)
            z3::context c2;
            Tr t2(c2, true);
            z3::expr_vector f2(c2);
            for (E e : cs) f2.push_back(t2.tr(e));
            axioms(t2, f2);
            z3::tactic tac = z3::tactic(c2, "simplify") & z3::tactic(c2, "qfnra");
            z3::solver s2 = tac.mk_solver();
            z3::params p2(c2);
            p2.set("timeout", timeoutMs);
            s2.set(p2);
            for (unsigned i = 0; i < f2.size(); i++) s2.add(f2[i]);
            z3::check_result r2 = z3::unknown;
            try { r2 = s2.check(); } catch (z3::exception&) {}
            if (r2 == z3::unsat) { res = R_UNSAT; gLastBackend = "z3-4.8.12/qfnra"; }
        }
        if (res == R_UNKNOWN && portfolio)
        {
            std::string txt = s.to_smt2();
            int secs = std::max(2u, timeoutMs / 1000);
            res = runExternal("timeout " + std::to_string(secs + 2) + " z3-new -T:" + std::to_string(secs), txt);
            gLastBackend = "z3-new";
            if (res == R_UNKNOWN)
            {
                res = runExternal("timeout " + std::to_string(secs + 2) + " cvc5 --force-logic=ALL --tlimit=" + std::to_string(secs * 1000), txt);
                gLastBackend = "cvc5";
            }
        }
    }
    catch (z3::exception& ex)
    {
        res = R_UNKNOWN;
    }
    return res;
}
// z3 does not always honour its time limit: the query runs in a child process that is killed at a hard deadline.
static SatR solveForked(const std::vector<E>& cs, unsigned timeoutMs, Model* m, bool portfolio)
{
    int fd[2];
    if (pipe(fd)) return solveInProcess(cs, timeoutMs, m, portfolio);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); return solveInProcess(cs, timeoutMs, m, portfolio); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        close(fd[0]);
        Model mm;
        SatR r = solveInProcess(cs, timeoutMs, m ? &mm : nullptr, portfolio);
        std::string o = std::to_string((int)r) + "\n" + gLastBackend + "\n";
        for (auto& v : mm.vars) o += v.first + "\t" + std::to_string((int)v.second.first) + "\t" + v.second.second.get_str() + "\n";
        size_t w = 0;
        while (w < o.size()) { ssize_t k = write(fd[1], o.data() + w, o.size() - w); if (k <= 0) break; w += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string o;
    double end = nowSec() + timeoutMs / 1000.0 * (portfolio ? 4 : 1) + (portfolio ? 8 : 1);
    while (true)
    {
        double left = end - nowSec();
        if (left <= 0) break;
        struct pollfd pf = {fd[0], POLLIN, 0};
        int r = poll(&pf, 1, (int)(left * 1000) + 1);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        char buf[65536];
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k <= 0) break;
        o.append(buf, k);
    }
    close(fd[0]);
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    std::istringstream is(o);
    std::string line;
    if (!std::getline(is, line) || line.empty()) return R_UNKNOWN;
    SatR res = (SatR)atoi(line.c_str());
    if (!std::getline(is, gLastBackend)) return R_UNKNOWN;
    if (m)
        while (std::getline(is, line))
        {
            size_t a = line.find('\t'), b = line.rfind('\t');
            if (a == std::string::npos || b == a) continue;
            m->vars[line.substr(0, a)] = {(Sort)atoi(line.substr(a + 1, b - a - 1).c_str()), mpq_class(line.substr(b + 1))};
        }
    return res;
}

SatR smtCheck(const std::vector<E>& cs0, unsigned timeoutMs, Model* m, bool portfolio)
{
    std::vector<E> cs;
    for (E e : cs0)
    {
        if (isTrue(e)) continue;
        if (isFalse(e)) return R_UNSAT;
        cs.push_back(e);
    }
    if (cs.empty()) return R_SAT;
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key;
    for (E e : cs) key += std::to_string(e->id) + ",";
    if (!m)
    {
        auto it = cache.find(key);
        if (it != cache.end() && (it->second != R_UNKNOWN || !portfolio)) { gSmt.cached++; return it->second; }
    }
    double t0 = nowSec();
    gSmt.queries++;
    SatR res = R_UNKNOWN;
    gLastBackend = "z3-4.8.12";
    res = solveForked(cs, timeoutMs, m, portfolio);
    if (getenv("CTV_TRACE") && nowSec() - t0 > 0.5)
    {
        fprintf(stderr, "query %.1fs -> %d\n", nowSec() - t0, (int)res);
        for (E e : cs) fprintf(stderr, "   %s\n", eStr(e, 600).c_str());
    }
    gSmt.secs += nowSec() - t0;
    if (res == R_SAT && gBigProducts)
    {
        std::unordered_set<E> seen;
        for (E e : cs) eCollect(e, seen);
        for (E x : seen)
            if (x->k == K_APP && x->name == "big*") { res = R_UNKNOWN; break; }
    }
    if (!m) cache[key] = res;
    return res;
}

static std::unordered_map<E, std::vector<E>> leafCache;
static const std::vector<E>& leaves(E e)
{
    auto it = leafCache.find(e);
    if (it != leafCache.end()) return it->second;
    std::unordered_set<E> seen;
    eCollect(e, seen);
    std::vector<E> v;
    for (E x : seen)
        if (x->k == K_VAR || x->k == K_APP) v.push_back(x);
    return leafCache[e] = v;
}
std::vector<E> smtSlice(const std::vector<E>& pc, E goal)
{
    std::unordered_set<E> vs(leaves(goal).begin(), leaves(goal).end());
    std::vector<bool> used(pc.size(), false);
    std::vector<E> r;
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++)
        {
            if (used[i]) continue;
            const auto& l = leaves(pc[i]);
            bool hit = l.empty();
            for (E x : l)
                if (vs.count(x)) { hit = true; break; }
            if (hit)
            {
                used[i] = true;
                r.push_back(pc[i]);
                for (E x : l) vs.insert(x);
                ch = true;
            }
        }
    }
    return r;
}
