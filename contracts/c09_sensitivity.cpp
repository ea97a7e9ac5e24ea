// C09: discretised dynamics propagate the integrator's map; sensitivities are its exact derivatives.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
struct Par
{
    double a, b, c, d;
    Par() : a(ctv_real("a")), b(ctv_real("b")), c(ctv_real("c")), d(ctv_real("d")) {}
    void f(const X& x, double t, double u, X& o) const
    {
        o(0) = a * x(1) + t * x(0);
        o(1) = b * std::sin(x(0)) + c * t * u + d * x(1);
    }
};
class Sys : public ControlledSystem<2, 1>
{
public:
    Par p;
    Sys(const Par& q) : p(q) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& o) override { p.f(x, t, u(0), o); }
};
class Lin : public LinearSystem<2, 1>
{
public:
    Par p;
    MA A;
    MB B;
    Lin(const Par& q) : p(q) {}
    Lin* clone() const override { return new Lin(*this); }
    const MA& getDerivativeState(const X& x, const U& u, const double t) override
    {
        A << t, p.a, p.b * std::cos(x(0)), p.d;
        return A;
    }
    const MB& getDerivativeControl(const X& x, const U& u, const double t) override
    {
        B << 0, p.c * t;
        return B;
    }
};
static X euler(const Par& p, const X& x, double u, double t, double h)
{
    X d, r;
    p.f(x, t, u, d);
    for (int i = 0; i < 2; i++) r(i) = x(i) + h * d(i);
    return r;
}
static X rk4(const Par& p, const X& x, double u, double t, double h)
{
    X k1, k2, k3, k4, y;
    p.f(x, t, u, k1);
    for (int i = 0; i < 2; i++) y(i) = x(i) + h / 2 * k1(i);
    p.f(y, t + h / 2, u, k2);
    for (int i = 0; i < 2; i++) y(i) = x(i) + h / 2 * k2(i);
    p.f(y, t + h / 2, u, k3);
    for (int i = 0; i < 2; i++) y(i) = x(i) + h * k3(i);
    p.f(y, t + h, u, k4);
    for (int i = 0; i < 2; i++) y(i) = x(i) + h / 6 * (k1(i) + 2 * k2(i) + 2 * k3(i) + k4(i));
    return y;
}
typedef SystemDiscretizer<2, 1> SD;
typedef SensitivityIntegrator<2, 1> SI;
typedef X (*Step)(const Par&, const X&, double, double, double);
static X expected(Step st, const Par& p, X x, double u, long n, double dt, long K)
{
    for (long k = 0; k < K; k++) x = st(p, x, u, n * dt + k * (dt / K), dt / K);
    return x;
}
static void propagation(IntegrationType ty, Step st, long Kmax)
{
    Par p;
    std::shared_ptr<Sys> s(new Sys(p));
    X x, xn;
    U u, u2;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    ctv::fill(u2, "u2");
    double dt = ctv::pos("dt");
    long K = ctv_choose("K", 1, Kmax), how = ctv_choose("how", 0, 3);
    int n = (int)ctv_int("n", 0, 10000);
    std::shared_ptr<SD> d;
    if (how == 0) d.reset(new SD(s, dt, ty, K));
    if (how == 1) { SD t(s, dt, ty, K); d.reset(t.clone()); }
    if (how == 2) { d.reset(new SD(dt, ty, K)); d->changeContinuousTimeSystem(s); }
    if (how == 3) { d.reset(new SD(s, 1.0, ty, 1)); d->setParameters(dt, K); }
    if (how == 0) d->propagateControlledDynamics(x, n, u2, xn);  // earlier propagation leaves no trace
    d->propagateControlledDynamics(x, n, u, xn);
    ctv::eqm(xn, expected(st, p, x, u(0), n, dt, K), "x+ = K integrator steps of dt/K from n dt with u held");
    ctv_cover("done");
}
extern "C" void proof_propagate_euler() { propagation(EULERCT, euler, 3); }
extern "C" void proof_propagate_rk4() { propagation(RK4CT, rk4, 1); }
extern "C" void proof_propagate_rk4_substeps() { propagation(RK4CT, rk4, 2); }
static void sens(IntegrationType ty, Step st, long Kmax)
{
    Par p;
    std::shared_ptr<Sys> s(new Sys(p));
    std::shared_ptr<Lin> l(new Lin(p));
    X x, xn;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double dt = ctv::pos("dt");
    long K = ctv_choose("K", 1, Kmax), n = ctv_choose("n", 0, 1);
    SD d(s, dt, ty, K);
    d.propagateControlledDynamics(x, n, u, xn);
    std::vector<Sensitivity<2, 1>::StateVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::StateVectorArrayPtr>> xs(n + 1);
    std::vector<Sensitivity<2, 1>::ControlVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::ControlVectorArrayPtr>> us(n + 1);
    xs[n] = d.getSubstates();
    us[n] = d.getSubcontrols();
    std::shared_ptr<Controller<2, 1>> ctrl(new ConstantController<2, 1>());
    SI si(dt / K, l, ctrl, ty);
    si.setSubstepTrajectoryReference(&xs, &us);
    MA A;
    MB B;
    A.setConstant(7);
    B.setConstant(7);
    si.getAandB(x, u, xn, n, K, A, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++)
            ctv_eq(A(i, j), ctv::grad([&](const X& z) { return expected(st, p, z, u(0), n, dt, K)(i); }, x, j), "A = d x+ / d x");
        ctv_eq(B(i), ctv::grad([&](const U& z) { return expected(st, p, x, z(0), n, dt, K)(i); }, u, 0), "B = d x+ / d u");
    }
    ctv_cover("done");
}
extern "C" void proof_sensitivity_euler() { sens(EULERCT, euler, 2); }
extern "C" void proof_sensitivity_rk4() { sens(RK4CT, rk4, 1); }
// with timeVarying = false the linearisation at the start of the interval is held: the integrator's exact map of the frozen linear system
extern "C" void proof_sensitivity_frozen_linearisation()
{
    Par p;
    std::shared_ptr<Lin> l(new Lin(p));
    X x, xn, xo;
    U u, uo;
    ctv::fill(x, "x");
    ctv::fill(xo, "xo");
    ctv::fill(xn, "xn");
    ctv::fill(u, "u");
    ctv::fill(uo, "uo");
    double dt = ctv::pos("dt");
    bool rk = ctv_choose("rk4", 0, 1);
    long K = ctv_choose("K", 1, 2), n = ctv_choose("n", 0, 1);
    std::vector<Sensitivity<2, 1>::StateVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::StateVectorArrayPtr>> xs(n + 1);
    std::vector<Sensitivity<2, 1>::ControlVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::ControlVectorArrayPtr>> us(n + 1);
    for (long i = 0; i <= n; i++)
    {
        xs[i].reset(new StateVectorArray<2>(4 * K, xo));
        us[i].reset(new ControlVectorArray<1>(4 * K, uo));
    }
    (*xs[n])[0] = x;
    (*us[n])[0] = u;
    std::shared_ptr<Controller<2, 1>> ctrl(new ConstantController<2, 1>());
    SI si(dt / K, l, ctrl, rk ? RK4CT : EULERCT, false);
    si.setSubstepTrajectoryReference(&xs, &us);
    MA A, P, Q;
    MB B, R;
    A.setConstant(7);
    B.setConstant(7);
    si.getAandB(x, u, xn, n, K, A, B);
    double h = dt / K;
    MA Ac = l->getDerivativeState(x, u, n * dt), I = MA::Identity();
    MB Bc = l->getDerivativeControl(x, u, n * dt);
    MA hA = h * Ac;
    MA A2 = hA * hA;
    MA A3 = A2 * hA;
    MA A4 = A3 * hA;
    MA S = rk ? MA(I + hA + A2 / 2 + A3 / 6 + A4 / 24) : MA(I + hA);
    MB T = rk ? MB(h * (I + hA / 2 + A2 / 6 + A3 / 24) * Bc) : MB(h * Bc);
    P = I;
    R.setZero();
    for (long k = 0; k < K; k++)
    {
        Q = S * P;
        P = Q;
        R = MB(S * R + T);
    }
    ctv::eqm(A, P, "A of the frozen linearisation");
    ctv::eqm(B, R, "B of the frozen linearisation");
    ctv_cover("done");
}
// symplectic discretisation: positions first, then velocities at the new positions; sensitivities are the exact derivatives of that map
struct SymSys : public SymplecticSystem<1, 1, 1>
{
    double a, b, c, d, e;
    SymSys() : a(ctv_real("a")), b(ctv_real("b")), c(ctv_real("c")), d(ctv_real("d")), e(ctv_real("e")) {}
    SymSys* clone() const override { return new SymSys(*this); }
    double pd(const X& x, double u) const { return a * x(1) + b * std::sin(x(0)) + e * u; }
    double vd(const X& x, double u) const { return c * std::sin(x(0)) * x(1) + d * u * x(0); }
    void computePdot(const X& x, const StateVector<1>& v, const U& u, StateVector<1>& o) override { o(0) = pd(x, u(0)); }
    void computeVdot(const X& x, const StateVector<1>& p, const U& u, StateVector<1>& o) override { o(0) = vd(x, u(0)); }
    X step(X x, double u, double h, long K) const
    {
        for (long k = 0; k < K; k++)
        {
            x(0) = x(0) + h * pd(x, u);
            x(1) = x(1) + h * vd(x, u);
        }
        return x;
    }
};
struct SymLin : public LinearSystem<2, 1>
{
    std::shared_ptr<SymSys> s;
    MA A;
    MB B;
    SymLin* clone() const override { return new SymLin(*this); }
    const MA& getDerivativeState(const X& x, const U& u, const double t) override
    {
        A << s->b * std::cos(x(0)), s->a, s->c * std::cos(x(0)) * x(1) + s->d * u(0), s->c * std::sin(x(0));
        return A;
    }
    const MB& getDerivativeControl(const X& x, const U& u, const double t) override
    {
        B << s->e, s->d * x(0);
        return B;
    }
};
extern "C" void proof_symplectic_discretisation()
{
    std::shared_ptr<SymSys> s(new SymSys());
    std::shared_ptr<SymLin> l(new SymLin());
    l->s = s;
    X x, xn;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double dt = ctv::pos("dt");
    long K = ctv_choose("K", 1, 2), n = ctv_choose("n", 0, 1);
    SystemDiscretizer<2, 1, 1, 1> d(s, dt, EULER_SYM, K);
    d.propagateControlledDynamics(x, n, u, xn);
    ctv::eqm(xn, s->step(x, u(0), dt / K, K), "x+ = K symplectic Euler steps of dt/K");
    std::vector<Sensitivity<2, 1>::StateVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::StateVectorArrayPtr>> xs(n + 1);
    std::vector<Sensitivity<2, 1>::ControlVectorArrayPtr, Eigen::aligned_allocator<Sensitivity<2, 1>::ControlVectorArrayPtr>> us(n + 1);
    xs[n] = d.getSubstates();
    us[n] = d.getSubcontrols();
    std::shared_ptr<Controller<2, 1>> ctrl(new ConstantController<2, 1>());
    SensitivityIntegrator<2, 1, 1, 1> si(dt / K, l, ctrl, EULER_SYM);
    si.setSubstepTrajectoryReference(&xs, &us);
    MA A;
    MB B;
    A.setConstant(7);
    B.setConstant(7);
    si.getAandB(x, u, xn, n, K, A, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++)
            ctv_eq(A(i, j), ctv::grad([&](const X& z) { return s->step(z, u(0), dt / K, K)(i); }, x, j), "A = d x+ / d x (symplectic)");
        ctv_eq(B(i), ctv::grad([&](const U& z) { return s->step(x, z(0), dt / K, K)(i); }, u, 0), "B = d x+ / d u (symplectic)");
    }
    ctv_cover("done");
}
