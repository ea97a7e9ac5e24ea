// C01: fixed-step integration computes the stated one-step map at the stated times.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
static const size_t N = 2;
typedef StateVector<N> X;

static void rhs(const X& x, double t, X& d)
{
    double a[3] = {x(0), x(1), t};
    d(0) = ctv::uf("f0", a);
    d(1) = ctv::uf("f1", a);
}
class Sys : public System<N>
{
public:
    Sys* clone() const override { return new Sys(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override { rhs(x, t, d); }
};

struct Quiet : public EventHandler<N>
{
    void reset() override {}
    bool callOnSubsteps() override { return true; }
    bool checkEvent(const X&, const double&) override { return false; }
    void handleEvent(const X&, const double&) override {}
};
static X euler(const X& x, double t, double h)
{
    X d;
    rhs(x, t, d);
    X r;
    for (size_t i = 0; i < N; i++) r(i) = x(i) + h * d(i);
    return r;
}
static X rk4(const X& x, double t, double h)
{
    X k1, k2, k3, k4, y;
    rhs(x, t, k1);
    for (size_t i = 0; i < N; i++) y(i) = x(i) + h / 2 * k1(i);
    rhs(y, t + h / 2, k2);
    for (size_t i = 0; i < N; i++) y(i) = x(i) + h / 2 * k2(i);
    rhs(y, t + h / 2, k3);
    for (size_t i = 0; i < N; i++) y(i) = x(i) + h * k3(i);
    rhs(y, t + h, k4);
    for (size_t i = 0; i < N; i++) y(i) = x(i) + h / 6 * (k1(i) + 2 * k2(i) + 2 * k3(i) + k4(i));
    return y;
}
template <class STEP>
static void run(IntegrationType ty, STEP step, bool initialLogged, int maxSteps)
{
    std::shared_ptr<Sys> sys(new Sys());
    // every way to make the integrator
    long ctor = ctv_choose("ctor", 0, 3);
    auto ev = std::make_shared<Quiet>();
    Integrator<N> one(sys, ctor == 3 ? (ty == EULERCT ? RK4CT : EULERCT) : ty, ctor == 1 ? Integrator<N>::EventHandlerPtrVector(2, ev) : Integrator<N>::EventHandlerPtrVector(0));
    Integrator<N> single(sys, ty, std::shared_ptr<EventHandler<N>>(ev));
    Integrator<N>& integ = ctor == 2 ? single : one;
    if (ctor == 3) integ.changeIntegrationType(ty);
    X x0;
    ctv::fill(x0, "x0");
    double t0 = ctv_real("t0"), h = ctv::pos("dt");
    long n = ctv_choose("steps", 0, maxSteps);
    // expected
    std::vector<X, Eigen::aligned_allocator<X>> xs;
    xs.push_back(x0);
    for (long k = 0; k < n; k++) xs.push_back(step(xs.back(), t0 + k * h, h));
    // code: without recording
    X x = x0;
    integ.integrate_n_steps(x, t0, n, h);
    ctv::eqm(x, xs.back(), "final state");
    // code: with recording; twice, the second call must not see the first one's log
    for (int rep = 0; rep < 2; rep++)
    {
        X y = x0;
        StateVectorArray<N> tx;
        TimeArray tt;
        integ.integrate_n_steps(y, t0, n, h, tx, tt);
        ctv::eqm(y, xs.back(), "final state (recorded)");
        long first = initialLogged ? 0 : 1;
        ctv_eqi(tx.size(), n + 1 - first, "number of recorded states");
        ctv_eqi(tt.size(), n + 1 - first, "number of recorded times");
        for (size_t k = 0; k < tx.size(); k++)
        {
            ctv::eqm(tx[k], xs[k + first], "recorded state");
            ctv_eq(tt[k], t0 + (k + first) * h, "recorded time");
        }
    }
    ctv_cover("integrated");
}
extern "C" void proof_euler_ct() { run(EULERCT, euler, false, 3); }
extern "C" void proof_rk4_ct() { run(RK4CT, rk4, false, 2); }
extern "C" void proof_euler_odeint() { run(EULER, euler, true, 3); }
extern "C" void proof_rk4_odeint() { run(RK4, rk4, true, 2); }
// ---- any number of steps: loop contract.  X_i(k) is the specified state after k steps, defined by X(0) = x0, X(k+1) = step(X(k), t0 + k h).
static X gx0;
static double gt0, gh;
static long gn;
static X (*gstep)(const X&, double, double);
static double seq(int i, long k) { double a[1] = {(double)k}; return ctv_uf(i ? "X1" : "X0", 1, a); }
static void steps(long it, int mode)
{
    X now;
    for (size_t i = 0; i < N; i++) now(i) = mode == 0 ? gx0(i) : seq(i, it);
    for (size_t i = 0; i < N; i++) ctv_cand(now(i));
    ctv_cand(gt0 + it * gh);
    ctv_cand(gt0 + (it + 1) * gh);
    ctv_inv(it < gn);
    ctv_inv(it <= gn);
    if (mode != 1) return;
    X next = gstep(now, gt0 + it * gh, gh);
    for (size_t i = 0; i < N; i++) ctv_assume(seq(i, it + 1) == next(i));
}
static X expected(long n)
{
    X r;
#ifdef CTV_NATIVE
    r = gx0;
    for (long k = 0; k < n; k++) r = gstep(r, gt0 + k * gh, gh);
#else
    for (size_t i = 0; i < N; i++) r(i) = seq(i, n);
#endif
    return r;
}
static void any(IntegrationType ty, X (*step)(const X&, double, double))
{
    std::shared_ptr<Sys> sys(new Sys());
    Integrator<N> integ(sys, ty);
    ctv::fill(gx0, "x0");
    gt0 = ctv_real("t0"), gh = ctv::pos("dt"), gstep = step;
    gn = ctv_int("steps", 0, 1000000000);
#ifdef CTV_NATIVE
    gn %= 40;
#else
    for (size_t i = 0; i < N; i++) ctv_assume(seq(i, 0) == gx0(i));
#endif
    X x = gx0;
    ctv_loop(steps);
    integ.integrate_n_steps(x, gt0, gn, gh);
    ctv_loop_end();
    ctv::eqm(x, expected(gn), "final state after any number of steps");
    ctv_cover("any number of steps");
}
extern "C" void proof_euler_ct_any() { any(EULERCT, euler); }
extern "C" void proof_rk4_ct_any() { any(RK4CT, rk4); }
extern "C" void proof_euler_odeint_any() { any(EULER, euler); }
extern "C" void proof_rk4_odeint_any() { any(RK4, rk4); }
