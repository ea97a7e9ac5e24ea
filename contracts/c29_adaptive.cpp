// C29: adaptive integration: the interval is covered exactly, a step is accepted exactly when its error estimate is within the tolerances that were set.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<1> X;
static double f(double x, double t)
{
    double a[2] = {x, t};
    return ctv::uf("f", a);
}
struct Rejected {};
struct Sys : public System<1>
{
    long calls = 0, limit = 1000;
    Sys* clone() const override { return new Sys(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override
    {
        if (++calls > limit) throw Rejected();
        d(0) = f(x(0), t);
    }
};
// Dormand-Prince 5(4): one step; returns the new state, e is the difference to the embedded solution
static double dopri5(double x, double t, double h, double& e)
{
    const double c1 = 35. / 384, c3 = 500. / 1113, c4 = 125. / 192, c5 = -2187. / 6784, c6 = 11. / 84;
    double k1 = f(x, t);
    double k2 = f(x + h * (1. / 5 * k1), t + h * (1. / 5));
    double k3 = f(x + h * (3. / 40 * k1 + 9. / 40 * k2), t + h * (3. / 10));
    double k4 = f(x + h * (44. / 45 * k1 - 56. / 15 * k2 + 32. / 9 * k3), t + h * (4. / 5));
    double k5 = f(x + h * (19372. / 6561 * k1 - 25360. / 2187 * k2 + 64448. / 6561 * k3 - 212. / 729 * k4), t + h * (8. / 9));
    double k6 = f(x + h * (9017. / 3168 * k1 - 355. / 33 * k2 + 46732. / 5247 * k3 + 49. / 176 * k4 - 5103. / 18656 * k5), t + h);
    double y = x + h * (c1 * k1 + c3 * k3 + c4 * k4 + c5 * k5 + c6 * k6);
    double k7 = f(y, t + h);
    e = h * ((c1 - 5179. / 57600) * k1 + (c3 - 7571. / 16695) * k3 + (c4 - 393. / 640) * k4 + (c5 + 92097. / 339200) * k5 + (c6 - 187. / 2100) * k6 - 1. / 40 * k7);
    return y;
}
static void onestep(IntegrationType ty)
{
    std::shared_ptr<Sys> s(new Sys());
    Integrator<1> in(s, ty);
    double a = ctv_real("abs"), r = ctv_real("rel"), x0 = ctv_real("x"), t0 = ctv_real("t0"), h = ctv::pos("dt");
    ctv_assume(a >= 1e-6 && r >= 0 && h >= 0.001);
    bool set = ctv_choose("set", 0, 1);
    if (set)
        in.setApadativeErrorTolerances(a, r);
    else
        a = 1e-8, r = 1e-8;
    X y;
    y(0) = x0;
    s->limit = 7;
    bool rejected = false;
    StateVectorArray<1> xs;
    TimeArray ts;
    try
    {
        in.integrate_adaptive(y, t0, t0 + h, xs, ts, h);
    }
    catch (const Rejected&)
    {
        rejected = true;
    }
    double e, yn = dopri5(x0, t0, h, e), k1 = f(x0, t0);
    double bound = a + r * (std::fabs(x0) + std::fabs(h * k1));
    if (rejected)
        ctv_check(std::fabs(e) >= bound, "a step within the tolerances is not rejected");
    else
    {
        ctv_check(std::fabs(e) <= bound, "an accepted step is within the tolerances");
        ctv_eq(y(0), yn, "state after an accepted step");
        ctv_eqi(xs.size(), 2, "recorded states");
        ctv_eqi(ts.size(), 2, "recorded times");
        ctv_eq(xs[0](0), x0, "trajectory starts at the initial state");
        ctv_eq(xs[1](0), yn, "trajectory ends at the final state");
        ctv_eq(ts[0], t0, "trajectory starts at the initial time");
        ctv_eq(ts[1], t0 + h, "trajectory ends at the final time");
    }
    ctv_cover(rejected ? "rejected" : "accepted");
}
extern "C" void proof_ode45_step() { onestep(ODE45); }
extern "C" void proof_rk5variable_step() { onestep(RK5VARIABLE); }
// steps of every explicit type: a right-hand side that is affine in time is integrated exactly (every type here has order two or more)
static double ga, gb;
struct Aff : public System<1>
{
    long calls = 0;
    Aff* clone() const override { return new Aff(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override { calls++, d(0) = ga + gb * t; }
};
static double sol(double x0, double t0, double t) { return x0 + (t - t0) * (ga + gb * (t + t0) / 2); }
static void fixedsteps(IntegrationType ty)
{
    ga = ctv_real("a"), gb = ctv_real("b");
    Integrator<1> in(std::shared_ptr<Aff>(new Aff()), ty);
    double x0 = ctv_real("x"), t0 = ctv_real("t0"), h = ctv::pos("dt");
    long n = ctv_choose("n", 0, 3);
    X y;
    y(0) = x0;
    StateVectorArray<1> xs;
    TimeArray ts;
    in.integrate_n_steps(y, t0, n, h, xs, ts);
    ctv_eq(y(0), sol(x0, t0, t0 + n * h), "final state");
    ctv_eqi(xs.size(), n + 1, "recorded states");
    ctv_eqi(ts.size(), n + 1, "recorded times");
    for (long k = 0; k <= n; k++)
    {
        ctv_eq(ts[k], t0 + k * h, "recorded time");
        ctv_eq(xs[k](0), sol(x0, t0, ts[k]), "recorded state");
    }
    y(0) = x0;
    in.integrate_n_steps(y, t0, n, h);
    ctv_eq(y(0), sol(x0, t0, t0 + n * h), "final state without recording");
    ctv_cover("done");
}
extern "C" void proof_fixed_midpoint() { fixedsteps(MODIFIED_MIDPOINT); }
extern "C" void proof_fixed_rk4() { fixedsteps(RK4); }
extern "C" void proof_fixed_ode45() { fixedsteps(ODE45); }
extern "C" void proof_fixed_rk5variable() { fixedsteps(RK5VARIABLE); }
extern "C" void proof_fixed_rk78() { fixedsteps(RK78); }
static void interval(IntegrationType ty)
{
    ga = ctv_real("a"), gb = ctv_real("b");
    Integrator<1> in(std::shared_ptr<Aff>(new Aff()), ty);
    double x0 = ctv_real("x"), t0 = 1.5, h = 0.25, T = ctv::pos("T");
    ctv_assume(T >= 0.001 && T <= 5 && ga >= -100 && ga <= 100 && gb >= -100 && gb <= 100);
    X y;
    y(0) = x0;
    StateVectorArray<1> xs;
    TimeArray ts;
    bool rec = ctv_choose("record", 0, 1);
    if (rec)
        in.integrate_adaptive(y, t0, t0 + T, xs, ts, h);
    else
        in.integrate_adaptive(y, t0, t0 + T, h);
    // (the end is reached up to the 2e-16 tolerance with which odeint compares times)
    if (!rec)
        ctv_check(std::fabs(y(0) - sol(x0, t0, t0 + T)) <= 1e-9, "final state");
    else
    {
        long n = xs.size();
        ctv_eqi(ts.size(), n, "one time per state");
        ctv_check(n >= 2, "start and end are recorded");
        ctv_eq(ts[0], t0, "first recorded time");
        ctv_check(std::fabs(ts[n - 1] - (t0 + T)) <= 1e-12, "last recorded time");
        ctv_eq(y(0), xs[n - 1](0), "final state is the last recorded one");
        for (long k = 0; k < n; k++)
        {
            ctv_eq(xs[k](0), sol(x0, t0, ts[k]), "recorded state");
            if (k) ctv_check(ts[k] > ts[k - 1], "recorded times increase");
        }
    }
    ctv_cover("done");
}
extern "C" void proof_interval_ode45() { interval(ODE45); }
extern "C" void proof_interval_rk5variable() { interval(RK5VARIABLE); }
static void grid(IntegrationType ty)
{
    ga = ctv_real("a"), gb = ctv_real("b");
    Integrator<1> in(std::shared_ptr<Aff>(new Aff()), ty);
    double x0 = ctv_real("x"), h = 0.25;
    ctv_assume(ga >= -100 && ga <= 100 && gb >= -100 && gb <= 100);
    long n = ctv_choose("n", 1, 3);
    TimeArray ts;
    ts.push_back(1.5);
    for (long k = 1; k < n; k++)
    {
        double g = ctv::pos("gap");
        ctv_assume(g >= 0.01 && g <= 2 * h);
        ts.push_back(ts.back() + g);
    }
    X y;
    y(0) = x0;
    StateVectorArray<1> xs;
    in.integrate_times(y, ts, xs, h);
    ctv_eqi(xs.size(), n, "one state per requested time");
    for (long k = 0; k < n; k++) ctv_check(std::fabs(xs[k](0) - sol(x0, ts[0], ts[k])) <= 1e-9, "state at the requested time");
    ctv_cover("done");
}
extern "C" void proof_times_ode45() { grid(ODE45); }
extern "C" void proof_times_rk5variable() { grid(RK5VARIABLE); }
