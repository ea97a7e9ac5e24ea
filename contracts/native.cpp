// Native replay runtime: runs one proof_* harness on concrete doubles.
#define CTV_NATIVE
#include "ctv.h"
#include <dlfcn.h>
#include <ucontext.h>
#include <unistd.h>
#include <csignal>
#include <csetjmp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>

struct CtvReject {};
static std::mt19937_64 rng(1);
static std::map<std::string, double> model;
static bool useModel = false;
static std::map<std::string, int> cnt;
static std::vector<std::pair<std::string, double>> log_;
static std::vector<std::string> failed;
static int covers = 0;
static int mode = 0;

static std::string nm(const char* n)
{
    int k = cnt[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static double rnd()
{
    static const double tab[] = {0, 1, -1, 0.5, 2, -2, -0.5, 0.25, 3};
    switch (mode)
    {
        case 0: return U(-2, 2);
        case 1: return rng() % 3 == 0 ? tab[rng() % 9] : U(-3, 3);
        case 2: return rng() % 2 ? tab[rng() % 9] : U(-1, 1);
        default: return U(-20, 20);
    }
}
static double put(const std::string& n, double v) { log_.push_back({n, v}); return v; }
extern "C" {
double ctv_real(const char* n)
{
    std::string s = nm(n);
    if (useModel && model.count(s)) return put(s, model[s]);
    return put(s, rnd());
}
long ctv_int(const char* n, long lo, long hi)
{
    std::string s = nm(n);
    long h = std::min(hi, lo + 6);
    long v = lo + (long)(rng() % (unsigned long)(h - lo + 1));
    if (useModel && model.count(s) && model[s] <= hi && model[s] >= lo && model[s] - lo < 1000) v = (long)model[s];
    return (long)put(s, v);
}
long ctv_choose(const char* n, long lo, long hi)
{
    std::string s = nm(n);
    long v = lo + (long)(rng() % (unsigned long)(hi - lo + 1));
    if (useModel && model.count(s)) v = (long)model[s];
    return (long)put(s, v);
}
bool ctv_bool(const char* n)
{
    std::string s = nm(n);
    bool v = rng() & 1;
    if (useModel && model.count(s)) v = model[s] != 0;
    return put(s, v) != 0;
}
void ctv_assume(bool c) { if (!c) throw CtvReject(); }
static void bad(const char* l, const std::string& d)
{
    failed.push_back(std::string(l) + d);
}
void ctv_check(bool c, const char* l) { if (!c) bad(l, ""); }
void ctv_eq(double a, double b, const char* l)
{
    if (!std::isfinite(a) && !std::isfinite(b)) return;
    if (!std::isfinite(a) || !std::isfinite(b)) throw CtvReject();
    if (std::fabs(a) > 1e6 || std::fabs(b) > 1e6) { if (std::fabs(a - b) > 1e-3 * std::max(std::fabs(a), std::fabs(b))) { char t[128]; snprintf(t, 128, " (code %.12g, contract %.12g)", a, b); bad(l, t); } return; }
    if (std::fabs(a - b) > 2e-5 * (1 + std::fabs(a) + std::fabs(b))) { char t[128]; snprintf(t, 128, " (code %.12g, contract %.12g)", a, b); bad(l, t); }
}
void ctv_eqi(long a, long b, const char* l) { if (a != b) { char t[128]; snprintf(t, 128, " (code %ld, contract %ld)", a, b); bad(l, t); } }
void ctv_fail(const char* l) { bad(l, " (reached)"); throw CtvReject(); }
void ctv_cover(const char*) { covers++; }
bool ctv_is_symbolic() { return false; }
static double coef(const std::string& n, unsigned salt)
{
    uint64_t h = 1469598103934665603ULL + salt * 7919;
    for (char c : n) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 32;
    return (double)(h % 20001) / 10000.0 - 1.0;
}
double ctv_uf(const char* name, int n, const double* a)
{
    std::string s = name;
    std::vector<int> d;
    size_t p;
    while ((p = s.rfind('#')) != std::string::npos)
    {
        d.push_back(atoi(s.c_str() + p + 1));
        s = s.substr(0, p);
    }
    double th = coef(s, 1), lin = coef(s, 2);
    for (int i = 0; i < n; i++)
    {
        th += coef(s, 100 + i) * a[i];
        lin += coef(s, 200 + i) * a[i];
    }
    if (d.empty()) return lin + 0.7 * std::sin(th);
    double c = 0.7;
    for (int i : d) c *= coef(s, 100 + i);
    static const int nk = 4;
    int k = d.size() % nk;
    double v = k == 0 ? std::sin(th) : k == 1 ? std::cos(th) : k == 2 ? -std::sin(th) : -std::cos(th);
    return c * v + (d.size() == 1 ? coef(s, 200 + d[0]) : 0);
}
double ctv_diff(double, double) { throw CtvReject(); }
double ctv_subst(double, double, double) { throw CtvReject(); }
void ctv_replace(const char*, void (*)()) {}
void ctv_unreplace() {}
void ctv_loop(void (*)(long, int)) {}
void ctv_cand(double) {}
void ctv_inv(bool) {}
void ctv_loop_end() {}
void ctv_opt(const char*, int) {}
void ctv_dump(const char* n, double v) { printf("DUMP %s = %.17g\n", n, v); }
}
namespace ctv {
double native_pos(const char* n)
{
    std::string s = nm(n);
    if (useModel && model.count(s)) { if (model[s] <= 0) throw CtvReject(); return put(s, model[s]); }
    double v = std::fabs(rnd());
    return put(s, v < 0.05 ? v + 0.05 : v);
}
bool native_le(double a, double b) { return a <= b + 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
}

static sigjmp_buf jb;
static void onsig(int sig) { siglongjmp(jb, sig); }

// flows of control of their own (threads.h)
static std::vector<ucontext_t*> fibs;
static size_t fibCur = 0;
extern "C" long ctv_fiber_new(void (*fn)(long), long arg)
{
    if (fibs.empty()) fibs.push_back(new ucontext_t());
    ucontext_t* c = new ucontext_t();
    getcontext(c);
    c->uc_stack.ss_size = 1 << 20;
    c->uc_stack.ss_sp = malloc(c->uc_stack.ss_size);
    c->uc_link = nullptr;
    makecontext(c, (void (*)())fn, 1, arg);
    fibs.push_back(c);
    return fibs.size() - 1;
}
extern "C" void ctv_fiber_switch(long to)
{
    size_t from = fibCur;
    if ((size_t)to == from) return;
    fibCur = to;
    swapcontext(fibs[from], fibs[to]);
}
static void fibers_reset()
{
    for (size_t i = 0; i < fibs.size(); i++)
    {
        if (i) free(fibs[i]->uc_stack.ss_sp);
        delete fibs[i];
    }
    fibs.clear();
    fibCur = 0;
}
int main(int argc, char** argv)
{
    // native proof seed trials [model-file]
    if (argc < 4) return 3;
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no %s\n", argv[1]); return 3; }
    unsigned long seed = strtoul(argv[2], nullptr, 10);
    long trials = atol(argv[3]);
    double maxSec = argc > 5 ? atof(argv[5]) : 20;
    if (argc > 4 && argv[4][0])
    {
        FILE* f = fopen(argv[4], "r");
        char n[256];
        double v;
        while (f && fscanf(f, "%255s %lf", n, &v) == 2) model[n] = v;
        if (f) fclose(f);
        useModel = !model.empty();
    }
    // silence the program under test
    FILE* out = fdopen(dup(1), "w");
    if (!freopen("/dev/null", "w", stdout)) return 3;
    signal(SIGSEGV, onsig);
    signal(SIGFPE, onsig);
    signal(SIGABRT, onsig);
    signal(SIGBUS, onsig);
    signal(SIGALRM, onsig);
    time_t t0 = time(nullptr);
    long accepted = 0, tried = 0;
    for (long t = 0; t < trials && difftime(time(nullptr), t0) < maxSec; t++)
    {
        tried++;
        rng.seed(seed * 1000003 + t);
        mode = t % 4;
        if (t > 0) useModel = false;
        fibers_reset();
        cnt.clear();
        log_.clear();
        failed.clear();
        bool rej = false;
        int sig = sigsetjmp(jb, 1);
        if (sig == SIGALRM) failed.push_back("termination (no end within 30 s)");
        else if (sig) failed.push_back("memory-safety (signal " + std::to_string(sig) + ")");
        else
        {
            alarm(30);
            try { fn(); }
            catch (CtvReject&) { rej = true; }
            catch (std::exception& e) { failed.push_back(std::string("no-uncaught-exception (") + e.what() + ")"); }
        }
        alarm(0);
        if (!rej || !failed.empty()) accepted++;
        if (!failed.empty())
        {
            fprintf(out, "FAIL trial=%ld seed=%lu model=%d\n", t, seed, (int)useModel);
            for (auto& s : failed) fprintf(out, "  violated: %s\n", s.c_str());
            for (auto& p : log_) fprintf(out, "  input %s = %.17g\n", p.first.c_str(), p.second);
            fflush(out);
            _exit(1);
        }
        if (sig) break;
    }
    fprintf(out, "OK trials=%ld accepted=%ld\n", tried, accepted);
    fflush(out);
    _exit(0);
}
