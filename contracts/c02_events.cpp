// C02: symplectic integration, event handling, constant-step and time-grid integration.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;

// ---- symplectic --------------------------------------------------------------------------------------------------
template <int D>
struct SymSys : public SymplecticSystem<D, D, 1>
{
    typedef SymplecticSystem<D, D, 1> Base;
    SymSys(std::shared_ptr<Controller<2 * D, 1>> c = nullptr) : Base(c) {}
    SymSys* clone() const override { return new SymSys(*this); }
    static double pd(int i, const double* x, double u)
    {
        double a[2 * D + 1];
        for (int k = 0; k < 2 * D; k++) a[k] = x[k];
        a[2 * D] = u;
        return ctv_uf(i ? "p1" : "p0", 2 * D + 1, a);
    }
    static double vd(int i, const double* x, double u)
    {
        double a[2 * D + 1];
        for (int k = 0; k < 2 * D; k++) a[k] = x[k];
        a[2 * D] = u;
        return ctv_uf(i ? "v1" : "v0", 2 * D + 1, a);
    }
    void computePdot(const StateVector<2 * D>& x, const StateVector<D>& v, const U& u, StateVector<D>& d) override
    {
        for (int i = 0; i < D; i++) ctv_eq(v(i), x(D + i), "pdot is evaluated at one consistent state");
        for (int i = 0; i < D; i++) d(i) = pd(i, x.data(), u(0));
    }
    void computeVdot(const StateVector<2 * D>& x, const StateVector<D>& p, const U& u, StateVector<D>& d) override
    {
        for (int i = 0; i < D; i++) ctv_eq(p(i), x(i), "vdot is evaluated at one consistent state");
        for (int i = 0; i < D; i++) d(i) = vd(i, x.data(), u(0));
    }
};
struct Log : public EventHandler<2>
{
    bool sub;
    std::vector<double> t, x0, x1;
    int resets = 0;
    Log(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const X& x, const double& tt) override { return true; }
    void handleEvent(const X& x, const double& tt) override { t.push_back(tt), x0.push_back(x(0)), x1.push_back(x(1)); }
    void reset() override { resets++, t.clear(), x0.clear(), x1.clear(); }
};
// reference: stages (a_l, b_l):  p += a dt pdot(p,v);  v += b dt vdot(p,v)
template <int D>
static void ref(double* x, double dt, double u, int S, const double* a, const double* b)
{
    for (int l = 0; l < S; l++)
    {
        double d[D];
        for (int i = 0; i < D; i++) d[i] = SymSys<D>::pd(i, x, u);
        for (int i = 0; i < D; i++) x[i] += a[l] * dt * d[i];
        for (int i = 0; i < D; i++) d[i] = SymSys<D>::vd(i, x, u);
        for (int i = 0; i < D; i++) x[D + i] += b[l] * dt * d[i];
    }
}
template <int D, class INT>
static void sym(int S, const double* a, const double* b, long nmax)
{
    U u;
    u(0) = ctv_real("u");
    std::shared_ptr<Controller<2 * D, 1>> c(new ConstantController<2 * D, 1>(u));
    bool ctrl = ctv_choose("controlled", 0, 1);
    std::shared_ptr<SymSys<D>> s(new SymSys<D>(ctrl ? c : nullptr));
    std::shared_ptr<SubstepRecorder<2 * D, 1>> rec(new SubstepRecorder<2 * D, 1>(s));
    INT in(s, typename INT::EventHandlerPtr(rec));
    StateVector<2 * D> x, y, e;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt"), uu = ctrl ? u(0) : 0.0;
    long n = ctv_choose("n", 0, nmax);
    StateVectorArray<2 * D> xs;
    TimeArray ts;
    y = x;
    in.integrate_n_steps(y, t0, n, dt, xs, ts);
    ctv_eqi(xs.size(), n + 1, "recorded states");
    ctv_eqi(ts.size(), n + 1, "recorded times");
    e = x;
    for (long k = 0; k <= n; k++)
    {
        ctv::eqm(xs[k], e, "recorded state");
        ctv_eq(ts[k], t0 + k * dt, "recorded time");
        if (k < n) ref<D>(e.data(), dt, uu, S, a, b);
    }
    ctv::eqm(y, e, "final state");
    for (int rep = 0; rep < 2; rep++)  // the substep recorder holds the start of every step and the control applied
    {
        ctv_eqi(rec->getSubstates()->size(), n, "number of substates");
        ctv_eqi(rec->getSubcontrols()->size(), n, "number of subcontrols");
        for (long k = 0; k < n; k++)
        {
            ctv::eqm((*rec->getSubstates())[k], xs[k], "substate is the state at the start of the step");
            ctv_eq((*rec->getSubcontrols())[k](0), uu, "subcontrol is the control applied");
        }
        rec->reset();
        y = x;
        in.integrate_n_steps(y, t0, n, dt);
        ctv::eqm(y, e, "final state without recording");
    }
    ctv_cover("done");
}
extern "C" void proof_symplectic_euler()
{
    double a[] = {1}, b[] = {1};
    sym<2, IntegratorSymplecticEuler<2, 2, 1>>(1, a, b, 2);
}
extern "C" void proof_symplectic_rk()
{
    double a[6] = {0.40518861839525227722, -0.28714404081652408900}, b[6] = {-3.0 / 73.0, 17.0 / 59.0};
    a[2] = 0.5 - (a[0] + a[1]);
    a[3] = a[2], a[4] = a[1], a[5] = a[0];
    b[2] = 1 - 2 * (b[0] + b[1]);
    b[3] = b[1], b[4] = b[0], b[5] = 0;
    sym<1, IntegratorSymplecticRk<1, 1, 1>>(6, a, b, 1);
}
// ---- events ------------------------------------------------------------------------------------------------------
static void rhs(const X& x, double t, X& d)
{
    double a[3] = {x(0), x(1), t};
    d(0) = ctv::uf("f0", a);
    d(1) = ctv::uf("f1", a);
}
struct Sys : public System<2>
{
    Sys* clone() const override { return new Sys(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override { rhs(x, t, d); }
};
struct CSys : public ControlledSystem<2, 1>
{
    CSys(std::shared_ptr<Controller<2, 1>> c) : ControlledSystem<2, 1>(c) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { rhs(x, t, d); d(0) += u(0); }
};
struct Ctr : public Controller<2, 1>
{
    Ctr* clone() const override { return new Ctr(*this); }
    static double law(const X& x, double t)
    {
        double a[3] = {x(0), x(1), t};
        return ctv::uf("u", a);
    }
    void computeControl(const X& x, const double& t, U& u) override { u(0) = law(x, t); }
};
static X eul(const X& x, double t, double h, bool c = false)
{
    X d, r;
    rhs(x, t, d);
    if (c) d(0) += Ctr::law(x, t);
    for (int i = 0; i < 2; i++) r(i) = x(i) + h * d(i);
    return r;
}

extern "C" void proof_event_handlers()
{
    std::shared_ptr<Log> a(new Log(false)), b(new Log(true));
    Integrator<2>::EventHandlerPtrVector ev;
    ev.push_back(a);
    ev.push_back(b);
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), EULERCT, ev);
    X x, y, e;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt");
    long n = ctv_choose("n", 0, 3);
    for (int rep = 0; rep < 2; rep++)
    {
        y = x;
        in.integrate_n_steps(y, t0, n, dt);
        ctv_eqi(a->t.size(), n, "one event per step");
        ctv_eqi(b->t.size(), n, "one event per right-hand side evaluation");
        e = x;
        for (long k = 0; k < n; k++)
        {
            ctv_eq(b->t[k], t0 + k * dt, "substep event time");
            ctv_eq(b->x0[k], e(0), "substep event state");
            ctv_eq(b->x1[k], e(1), "substep event state");
            e = eul(e, t0 + k * dt, dt);
            ctv_eq(a->t[k], t0 + (k + 1) * dt, "step event time");
            ctv_eq(a->x0[k], e(0), "step event state");
            ctv_eq(a->x1[k], e(1), "step event state");
        }
        ctv::eqm(y, e, "events do not change the result");
    }
    ctv_cover("done");
}
// every entry point starts with fresh event handlers and fires one event per record
extern "C" void proof_event_handlers_every_entry_point()
{
    std::shared_ptr<Log> a(new Log(false));
    long mode = ctv_choose("mode", 0, 6);
    bool ct = mode <= 1;
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), ct ? EULERCT : EULER, Integrator<2>::EventHandlerPtr(a));
    X x, y;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt");
    long n = 2;
    ctv_assume(dt >= 0.01);
    for (int rep = 0; rep < 2; rep++)
    {
        StateVectorArray<2> xs;
        TimeArray ts;
        y = x;
        a->t.push_back(t0);  // a stale entry: the handler is reset when a call starts
        if (mode == 0 || mode == 2)
            in.integrate_n_steps(y, t0, n, dt, xs, ts);
        else if (mode == 1 || mode == 3)
            in.integrate_n_steps(y, t0, n, dt);
        else if (mode == 4)
            in.integrate_const(y, t0, t0 + n * dt + dt / 2, dt, xs, ts);
        else if (mode == 5)
            in.integrate_const(y, t0, t0 + n * dt + dt / 2, dt);
        else
        {
            TimeArray g;
            for (long k = 0; k <= n; k++) g.push_back(t0 + k * dt);
            in.integrate_times(y, g, xs, dt);
        }
        long first = ct ? 1 : 0;  // (the odeint steppers also report the initial state)
        ctv_eqi(a->t.size(), n + 1 - first, "one event per step of this call");
        X e = x;
        for (long k = 0; k <= n; k++)
        {
            if (k >= first)
            {
                ctv_eq(a->t[k - first], t0 + k * dt, "event time");
                ctv_eq(a->x0[k - first], e(0), "event state");
                ctv_eq(a->x1[k - first], e(1), "event state");
            }
            if (k < n) e = eul(e, t0 + k * dt, dt);
        }
    }
    ctv_cover("done");
}
extern "C" void proof_max_steps()
{
    long M = ctv_int("M", 0, 10), n = ctv_choose("n", 0, 4);
    std::shared_ptr<MaxStepsEventHandler<2>> m(new MaxStepsEventHandler<2>((size_t)M));
    long set = ctv_choose("set", 0, 1);
    if (set)
    {
        m.reset(new MaxStepsEventHandler<2>());
        m->setMaxNumSteps((size_t)M);
    }
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), EULERCT, Integrator<2>::EventHandlerPtr(m));
    double dt = ctv::pos("dt");
    X x;
    ctv::fill(x, "x");
    for (int rep = 0; rep < 2; rep++)  // the count starts afresh in every call
        ctv_check(ctv::throws([&] { X y = x; in.integrate_n_steps(y, 0.0, n, dt); }) == (n > M), "integration is stopped iff it needs more than the allowed steps");
    ctv_cover("done");
}
struct Killer : public EventHandler<2>
{
    std::shared_ptr<KillIntegrationEventHandler<2>> k;
    long at, seen = 0;
    bool callOnSubsteps() override { return false; }
    bool checkEvent(const X& x, const double& t) override { return true; }
    void handleEvent(const X& x, const double& t) override { if (seen++ == at) k->setEvent(); }
    void reset() override {}
};
extern "C" void proof_kill()
{
    std::shared_ptr<KillIntegrationEventHandler<2>> k(new KillIntegrationEventHandler<2>());
    std::shared_ptr<Killer> r(new Killer());
    r->k = k;
    r->at = ctv_choose("at", 0, 3);
    long n = ctv_choose("n", 0, 3);
    Integrator<2>::EventHandlerPtrVector ev;
    ev.push_back(r);
    ev.push_back(k);
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), EULERCT, ev);
    double dt = ctv::pos("dt");
    X x, y;
    ctv::fill(x, "x");
    y = x;
    ctv_check(ctv::throws([&] { in.integrate_n_steps(y, 0.0, n, dt); }) == (r->at < n), "a kill request stops the integration at that step");
    X e = x;
    for (long i = 0; i < (r->at < n ? r->at + 1 : n); i++) e = eul(e, i * dt, dt);
    ctv::eqm(y, e, "state at the stop");
    r->at = 100;
    y = x;
    in.integrate_n_steps(y, 0.0, n, dt);  // a later call starts without the request
    ctv_cover("done");
}
// the substep recorder logs exactly the evaluation points of the right-hand side with the control applied there
extern "C" void proof_substep_recorder()
{
    std::shared_ptr<Ctr> c(new Ctr());
    std::shared_ptr<CSys> s(new CSys(c));
    std::shared_ptr<SubstepRecorder<2, 1>> rec(new SubstepRecorder<2, 1>(s, ctv_choose("active", 0, 1)));
    bool act = rec->checkEvent(X::Zero(), 0.0);
    bool rk = ctv_choose("rk4", 0, 1);
    Integrator<2> in(s, rk ? RK4CT : EULERCT, Integrator<2>::EventHandlerPtr(rec));
    X x, y, e;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt");
    long n = ctv_choose("n", 1, 2);
    y = x;
    in.integrate_n_steps(y, t0, n, dt);
    y = x;
    in.integrate_n_steps(y, t0, n, dt);
    long per = rk ? 4 : 1;
    ctv_eqi(rec->getSubstates()->size(), act ? n * per : 0, "number of substates");
    ctv_eqi(rec->getSubcontrols()->size(), act ? n * per : 0, "number of subcontrols");
    if (act)
    {
        e = x;
        for (long k = 0; k < n; k++)
        {
            double t = t0 + k * dt;
            X pt[4];
            double tt[4] = {t, t + dt / 2, t + dt / 2, t + dt};
            X d[4];
            for (int q = 0; q < per; q++)
            {
                pt[q] = e;
                if (q) pt[q] += (q == 3 ? dt : dt / 2) * d[q - 1];
                rhs(pt[q], tt[q], d[q]);
                d[q](0) += Ctr::law(pt[q], tt[q]);
                ctv::eqm((*rec->getSubstates())[k * per + q], pt[q], "substate");
                ctv_eq((*rec->getSubcontrols())[k * per + q](0), Ctr::law(pt[q], tt[q]), "subcontrol");
            }
            if (rk)
                e = e + dt / 6 * (d[0] + 2 * d[1] + 2 * d[2] + d[3]);
            else
                e = e + dt * d[0];
        }
        ctv::eqm(y, e, "recording does not change the result");
    }
    ctv_cover("done");
}
// ---- constant steps and time grids -------------------------------------------------------------------------------
static X rk4(const X& x, double t, double h)
{
    X k1, k2, k3, k4, y;
    rhs(x, t, k1);
    y = x + h / 2 * k1;
    rhs(y, t + h / 2, k2);
    y = x + h / 2 * k2;
    rhs(y, t + h / 2, k3);
    y = x + h * k3;
    rhs(y, t + h, k4);
    y = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    return y;
}
extern "C" void proof_integrate_const()
{
    bool rk = ctv_choose("rk4", 0, 1);
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), rk ? RK4 : EULER);
    X x, y, e;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt"), r = ctv_real("r");
    ctv_assume(r >= 0 && r <= dt - 0.001);  // (boost compares times with a 1e-16 tolerance)
    long n = ctv_choose("n", 0, 2);
    double tf = t0 + n * dt + r;
    StateVectorArray<2> xs;
    TimeArray ts;
    y = x;
    in.integrate_const(y, t0, tf, dt, xs, ts);
    ctv_eqi(xs.size(), n + 1, "one record per dt up to the final time");
    ctv_eqi(ts.size(), n + 1, "one record per dt up to the final time");
    e = x;
    for (long k = 0; k <= n; k++)
    {
        ctv::eqm(xs[k], e, "recorded state");
        ctv_eq(ts[k], t0 + k * dt, "recorded time");
        if (k < n) e = rk ? rk4(e, t0 + k * dt, dt) : eul(e, t0 + k * dt, dt);
    }
    ctv::eqm(y, e, "final state");
    y = x;
    in.integrate_const(y, t0, tf, dt);
    ctv::eqm(y, e, "final state without recording");
    ctv_cover("done");
}
extern "C" void proof_integrate_times()
{
    bool rk = ctv_choose("rk4", 0, 1);
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), rk ? RK4 : EULER);
    X x, y, e;
    ctv::fill(x, "x");
    double t0 = ctv_real("t0"), dt = ctv::pos("dt");
    long n = ctv_choose("n", 1, 3);
    TimeArray ts;
    ts.push_back(t0);
    for (long k = 1; k < n; k++)
    {
        double g = ctv::pos("gap");
        ctv_assume(g <= dt && g >= 0.01);
        ts.push_back(ts.back() + g);
    }
    StateVectorArray<2> xs;
    y = x;
    in.integrate_times(y, ts, xs, dt);
    ctv_eqi(xs.size(), n, "one state per requested time");
    e = x;
    for (long k = 0; k < n; k++)
    {
        ctv::eqm(xs[k], e, "state at the requested time");
        if (k + 1 < n) e = rk ? rk4(e, ts[k], ts[k + 1] - ts[k]) : eul(e, ts[k], ts[k + 1] - ts[k]);
    }
    ctv::eqm(y, e, "final state");
    ctv_cover("done");
}
extern "C" void proof_unsupported_modes_rejected()
{
    Integrator<2> in(std::shared_ptr<Sys>(new Sys()), ctv_choose("rk4", 0, 1) ? RK4CT : EULERCT);
    X x;
    ctv::fill(x, "x");
    X y = x;
    ctv_check(ctv::throws([&] { in.integrate_const(y, 0.0, 1.0, 0.1); }), "integrate_const is rejected, not ignored");
    ctv_check(ctv::throws([&] { in.integrate_adaptive(y, 0.0, 1.0, 0.1); }), "integrate_adaptive is rejected, not ignored");
    ctv_cover("done");
}
