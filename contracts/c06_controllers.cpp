// C06: controllers evaluate their control law exactly.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<2> U;
typedef FeedbackMatrix<2, 2> K;
typedef StateFeedbackController<2, 2> SFC;

static void mul(const U& u, const K& k, const X& x, const X& r, U& out)
{
    for (int i = 0; i < 2; i++) out(i) = u(i) + k(i, 0) * (x(0) - r(0)) + k(i, 1) * (x(1) - r(1));
}
struct Data
{
    StateVectorArray<2> xr;
    ControlVectorArray<2> uf;
    FeedbackArray<2, 2> k;
    Data(long n, long m)
    {
        for (long i = 0; i < n; i++) { X v; ctv::fill(v, "xr"); xr.push_back(v); }
        for (long i = 0; i < m; i++) { U v; ctv::fill(v, "uff"); uf.push_back(v); }
        for (long i = 0; i < m; i++) { K v; ctv::fill(v, "K"); k.push_back(v); }
    }
};
static long zi(double q, double t0, double dt, long n)
{
    long r = 0;
    for (long i = 0; i < n; i++)
        if (t0 + i * dt <= q) r = i;
    return r;
}
template <class A>
static A lin(const DiscreteArray<A>& a, double q, double t0, double dt)
{
    long n = a.size();
    if (q <= t0 || n == 1) return a[0];
    long i = zi(q, t0, dt, n);
    if (i == n - 1) return a[n - 1];
    double w = (q - (t0 + i * dt)) / dt;
    A r = a[i];
    for (int c = 0; c < r.cols(); c++)
        for (int k = 0; k < r.rows(); k++) r(k, c) = a[i](k, c) + w * (a[i + 1](k, c) - a[i](k, c));
    return r;
}
extern "C" void proof_state_feedback_discrete()
{
    long n = ctv_choose("n", 1, 3);
    Data d(n, n);
    double dt = ctv::pos("dt"), t0 = ctv_real("t0");
    SFC c(d.xr, d.uf, d.k, dt, t0);
    X x;
    ctv::fill(x, "x");
    long i = ctv_choose("i", 0, n - 1);
    U u, e;
    c.computeControl(x, (int)i, u);
    mul(d.uf[i], d.k[i], x, d.xr[i], e);
    ctv::eqm(u, e, "u = uff[n] + K[n] (x - xref[n])");
    std::shared_ptr<SFC> cl(c.clone());
    cl->computeControl(x, (int)i, u);
    ctv::eqm(u, e, "clone");
    ctv_cover("done");
}
static void sfcCont(InterpolationType ty)
{
    long n = ctv_choose("n", 1, 3);
    Data d(n, n);
    double dt = ctv::pos("dt"), t0 = ctv_real("t0");
    SFC c(d.xr, d.uf, d.k, dt, t0, ty);
    X x;
    ctv::fill(x, "x");
    double q = ctv_real("t");
    U u, e;
    c.computeControl(x, q, u);
    if (ty == ZOH)
    {
        long i = zi(q, t0, dt, n);
        mul(d.uf[i], d.k[i], x, d.xr[i], e);
    }
    else
        mul(lin(d.uf, q, t0, dt), lin(d.k, q, t0, dt), x, lin(d.xr, q, t0, dt), e);
    ctv::eqm(u, e, "u = uff(t) + K(t) (x - xref(t))");
    std::shared_ptr<SFC> cl(c.clone());
    cl->computeControl(x, q, u);
    ctv::eqm(u, e, "clone");
    ctv_eqi(c.time().size(), n, "time()");
    for (long i = 0; i < n; i++) ctv_eq(c.time()[i], t0 + i * dt, "time()");
    ctv_cover("done");
}
extern "C" void proof_state_feedback_zoh() { sfcCont(ZOH); }
extern "C" void proof_state_feedback_lin() { sfcCont(LIN); }
extern "C" void proof_state_feedback_update()
{
    long n = ctv_choose("n", 1, 3), m = ctv_choose("m", 0, 3), k = ctv_choose("k", 1, 4);
    Data old(2, 2);
    SFC c(old.xr, old.uf, old.k, 1.0, 0.0, ZOH);
    Data d(n, m);
    long mk = ctv_choose("mk", 0, 1);  // feedback array of the right or a wrong length
    if (mk) { K z; ctv::fill(z, "Kextra"); d.k.push_back(z); }
    TimeArray t;
    double t0 = ctv_real("t0"), dt = ctv::pos("dt");
    for (long i = 0; i < k; i++) t.push_back(t0 + i * dt);
    bool th = ctv::throws([&] { c.update(d.xr, d.uf, d.k, t); });
    bool ok = (n == k) && (m == k - 1) && !mk;
    ctv_check(th == !ok, "update accepts exactly N+1 states, N controls, N gains, N+1 times");
    X x;
    ctv::fill(x, "x");
    U u, e;
    if (ok && m > 0)
    {
        long i = ctv_choose("i", 0, m - 1);
        c.computeControl(x, (int)i, u);
        mul(d.uf[i], d.k[i], x, d.xr[i], e);
        ctv::eqm(u, e, "law after update (index)");
        double q = ctv_real("t");
        c.computeControl(x, q, u);
        long ix = zi(q, t0, dt, n), iu = zi(q, t0, dt, m);
        mul(d.uf[iu], d.k[iu], x, d.xr[ix], e);
        ctv::eqm(u, e, "law after update (time)");
        ctv_eqi(c.x_ref().size(), n, "x_ref");
        ctv_eqi(c.uff().size(), m, "uff");
        ctv_eqi(c.K().size(), m, "K");
        ctv_cover("updated");
    }
    if (!ok)
    {
        c.computeControl(x, 1, u);
        mul(old.uf[1], old.k[1], x, old.xr[1], e);
        ctv::eqm(u, e, "rejected update leaves the controller unchanged");
    }
    ctv_cover("done");
}
extern "C" void proof_extract_control_trajectory()
{
    long n = ctv_choose("n", 1, 3);
    Data d(n, n);
    double dt = ctv::pos("dt"), t0 = ctv_real("t0");
    SFC c(d.xr, d.uf, d.k, dt, t0, ZOH);
    StateVectorArray<2> xs;
    TimeArray ts;
    for (long i = 0; i < n; i++) { X v; ctv::fill(v, "xs"); xs.push_back(v); ts.push_back(ctv_real("ts")); }
    StateTrajectory<2> xt(ts, xs, ZOH);
    ControlTrajectory<2> ut(ZOH);
    U junk;
    ctv::fill(junk, "junk");
    ut.push_back(junk, 0.0, true);
    c.extractControlTrajectory(xt, ut);
    ctv_eqi(ut.size(), n - 1, "one control per interval");
    for (long i = 0; i < n - 1; i++)
    {
        U e;
        mul(d.uf[i], d.k[i], xs[i], d.xr[i], e);
        ctv::eqm(ut[i], e, "extracted control");
        ctv_eq(ut.getTimeFromIndex(i), ts[i], "extracted time");
    }
    ctv_cover("done");
}
extern "C" void proof_constant_controllers()
{
    U u0, u1, u;
    ctv::fill(u0, "u0");
    ctv::fill(u1, "u1");
    X x, xr;
    ctv::fill(x, "x");
    ctv::fill(xr, "xr");
    K k;
    ctv::fill(k, "K");
    double t = ctv_real("t");
    ConstantController<2, 2> z, c(u0);
    z.computeControl(x, t, u);
    for (int i = 0; i < 2; i++) ctv_eq(u(i), 0, "default constant controller is zero");
    c.computeControl(x, t, u);
    ctv::eqm(u, u0, "constant control");
    c.computeControl(x, (int)ctv_int("n", 0, 1000), u);
    ctv::eqm(u, u0, "constant control (discrete)");
    std::shared_ptr<ConstantController<2, 2>> cl(c.clone());
    c.setControl(u1);
    c.computeControl(x, t, u);
    ctv::eqm(u, u1, "setControl");
    ctv::eqm(c.getControl(), u1, "getControl");
    cl->computeControl(x, t, u);
    ctv::eqm(u, u0, "clone is independent");
    auto D = c.getDerivativeU0(x, t);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) ctv_eq(D(i, j), i == j, "derivative w.r.t. u0 is the identity");
    ConstantStateFeedbackController<2, 2> sf(u0, xr, k), sz;
    sz.computeControl(x, t, u);
    for (int i = 0; i < 2; i++) ctv_eq(u(i), 0, "default state feedback is zero");
    U e;
    sf.computeControl(x, t, u);
    mul(u0, k, x, xr, e);
    ctv::eqm(u, e, "u = uff + K (x - xref)");
    std::shared_ptr<ConstantStateFeedbackController<2, 2>> sc(sf.clone());
    sf.updateControlLaw(u1, x);
    sf.computeControl(xr, t, u);
    ctv::eqm(u, u1, "updateControlLaw defaults to zero gain");
    K k2;
    ctv::fill(k2, "K2");
    sf.updateControlLaw(u1, x, k2);
    sf.computeControl(xr, t, u);
    mul(u1, k2, xr, x, e);
    ctv::eqm(u, e, "updateControlLaw");
    sc->computeControl(x, t, u);
    mul(u0, k, x, xr, e);
    ctv::eqm(u, e, "clone is independent");
    ctv_cover("done");
}
extern "C" void proof_step_input()
{
    double g = ctv_real("gain"), ts = ctv_real("tstep"), t = ctv_real("t");
    StepInputController c(StepInputController::Parameters(g, ts));
    std::shared_ptr<StepInputController> cl(c.clone());
    StateVector<1> x;
    ctv::fill(x, "x");
    ControlVector<1> u;
    c.computeControl(x, t, u);
    ctv_eq(u(0), t >= ts ? g : 0.0, "step of the given height from the step time on");
    cl->computeControl(x, t, u);
    ctv_eq(u(0), t >= ts ? g : 0.0, "clone");
    ctv_cover("done");
}
static double clampv(double v, double lo, double hi) { return v < lo ? lo : (v > hi ? hi : v); }
static void pid(bool withDerivative)
{
    PIDController<double>::parameters_t p(ctv_real("kp"), ctv_real("ki"), ctv_real("kd"), ctv::pos("dt"), ctv::pos("Imax"),
        ctv_real("uMax"), ctv_real("uMin"));
    ctv_assume(p.uMin <= p.uMax);
    PIDController<double> c(p);
    double xd = ctv_real("xd"), dxd = ctv_real("dxd"), x0 = ctv_real("xinit");
    c.setDesiredState(xd, dxd);
    c.setInitialState(x0);
    double I = 0, prev = x0;
    long n = ctv_choose("calls", 1, 2);
    for (long k = 0; k < n; k++)
    {
        double x = ctv_real("x"), dx = ctv_real("dx"), t = ctv_real("t");
        I = clampv(I + p.k_i * (xd - x) * p.dt, -p.Imax, p.Imax);
        double der = withDerivative ? dx : (x - prev) / p.dt;
        double e = clampv(p.k_p * (xd - x) + I + p.k_d * (dxd - der), p.uMin, p.uMax);
        double u = withDerivative ? c.computeControl(x, dx, t) : c.computeControl(x, t);
        ctv_eq(u, e, "PID law");
        ctv::le(p.uMin, u, "output respects uMin");
        ctv::le(u, p.uMax, "output respects uMax");
        prev = x;
    }
    ctv_cover("done");
}
extern "C" void proof_pid_finite_difference() { pid(false); }
extern "C" void proof_pid_given_derivative() { pid(true); }
// integrator anti-windup, from any internal state
struct PidProbe : public PIDController<double>
{
    PidProbe(const parameters_t& p) : PIDController<double>(p) {}
    double& I() { return this->I_; }
    double& prev() { return this->statePrevious_; }
};
extern "C" void proof_pid_any_state()
{
    PIDController<double>::parameters_t p(ctv_real("kp"), ctv_real("ki"), ctv_real("kd"), ctv::pos("dt"), ctv::pos("Imax"),
        ctv_real("uMax"), ctv_real("uMin"));
    ctv_assume(p.uMin <= p.uMax);
    PidProbe c(p);
    double I = ctv_real("I"), prev = ctv_real("prev"), xd = ctv_real("xd"), x = ctv_real("x");
    ctv_assume(I <= p.Imax && -p.Imax <= I);
    c.I() = I;
    c.prev() = prev;
    c.setDesiredState(xd);
    bool cloned = ctv_choose("cloned", 0, 1);
    std::shared_ptr<PIDController<double>> cl(c.clone());
    double In = clampv(I + p.k_i * (xd - x) * p.dt, -p.Imax, p.Imax);
    double e = clampv(p.k_p * (xd - x) + In + p.k_d * (0.0 - (x - prev) / p.dt), p.uMin, p.uMax);
    double u = cloned ? cl->computeControl(x, 0.0) : c.computeControl(x, 0.0);
    ctv_eq(u, e, "PID law from any state, and for a clone of it");
    if (!cloned)
    {
        ctv_eq(c.I(), In, "integrator saturates at +-Imax");
        ctv_eq(c.prev(), x, "previous state");
        c.reset();
        ctv_eq(c.I(), 0, "reset clears the integrator");
        ctv_eq(c.prev(), 0, "reset clears the previous state");
    }
    ctv_cover("done");
}
