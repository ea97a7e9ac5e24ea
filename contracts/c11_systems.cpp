// C11: closed-loop, linear and second-order systems compute their defining equations; clones behave like originals.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
class Ctrl : public Controller<2, 1>
{
public:
    double g;
    Ctrl(double gg) : g(gg) {}
    Ctrl* clone() const override { return new Ctrl(*this); }
    void computeControl(const X& x, const double& t, U& u) override
    {
        double a[4] = {x(0), x(1), t, g};
        u(0) = ctv::uf("ctrl", a);
    }
};
class DCtrl : public DiscreteController<2, 1>
{
public:
    double g;
    DCtrl(double gg) : g(gg) {}
    DCtrl* clone() const override { return new DCtrl(*this); }
    void computeControl(const X& x, const int n, U& u) override
    {
        double a[4] = {x(0), x(1), (double)n, g};
        u(0) = ctv::uf("ctrl", a);
    }
};
class Sys : public ControlledSystem<2, 1>
{
public:
    Sys(std::shared_ptr<Controller<2, 1>> c = nullptr, SYSTEM_TYPE ty = GENERAL) : ControlledSystem<2, 1>(c, ty) {}
    Sys* clone() const override { return new Sys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        double a[4] = {x(0), x(1), u(0), t};
        d(0) = ctv::uf("f0", a);
        d(1) = ctv::uf("f1", a);
    }
};
class DSys : public DiscreteControlledSystem<2, 1>
{
public:
    DSys(std::shared_ptr<DiscreteController<2, 1>> c = nullptr) : DiscreteControlledSystem<2, 1>(c) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override
    {
        double a[4] = {x(0), x(1), u(0), (double)n};
        d(0) = ctv::uf("f0", a);
        d(1) = ctv::uf("f1", a);
    }
};
extern "C" void proof_closed_loop()
{
    double g = ctv_real("gain"), g2 = ctv_real("gain2"), t = ctv_real("t");
    bool has = ctv_choose("has controller", 0, 1), cl = ctv_choose("cloned", 0, 1);
    std::shared_ptr<Ctrl> c(has ? new Ctrl(g) : nullptr);
    Sys s(c, SECOND_ORDER);
    std::shared_ptr<Sys> cs(s.clone());
    if (cl && has) c->g = g2;  // a clone owns its controller
    ControlledSystem<2, 1>& r = cl ? *cs : s;
    X x, d, e;
    ctv::fill(x, "x");
    U u;
    u.setZero();
    if (has) Ctrl(g).computeControl(x, t, u);
    s.computeControlledDynamics(x, t, u, e);
    r.computeDynamics(x, t, d);
    ctv::eqm(d, e, "closed loop = dynamics at the controller's output (zero without controller)");
    ctv::eqm(r.getLastControlAction(), u, "getLastControlAction");
    ctv_check(r.getType() == SECOND_ORDER, "system type survives cloning");
    ctv_check((r.getController() != nullptr) == has, "getController");
    std::shared_ptr<Controller<2, 1>> c3(new Ctrl(g2)), c4;
    r.setController(c3);
    r.getController(c4);
    ctv_check(c3 == c4, "setController/getController");
    r.computeDynamics(x, t, d);
    Ctrl(g2).computeControl(x, t, u);
    s.computeControlledDynamics(x, t, u, e);
    ctv::eqm(d, e, "setController takes effect");
    ctv_cover("done");
}
extern "C" void proof_discrete_closed_loop()
{
    double g = ctv_real("gain");
    int n = (int)ctv_int("n", 0, 100000);
    bool has = ctv_choose("has controller", 0, 1);
    std::shared_ptr<DCtrl> c(has ? new DCtrl(g) : nullptr);
    DSys s(c);
    X x, d, e;
    ctv::fill(x, "x");
    U u;
    u.setZero();
    if (has) DCtrl(g).computeControl(x, n, u);
    s.propagateControlledDynamics(x, n, u, e);
    s.propagateDynamics(x, n, d);
    ctv::eqm(d, e, "closed loop = dynamics at the controller's output (zero without controller)");
    std::shared_ptr<DiscreteController<2, 1>> c4;
    s.setController(c4);
    s.propagateDynamics(x, n, d);
    u.setZero();
    s.propagateControlledDynamics(x, n, u, e);
    ctv::eqm(d, e, "removing the controller");
    ctv_cover("done");
}
typedef Eigen::Matrix2d M2;
typedef Eigen::Matrix<double, 2, 1> B21;
extern "C" void proof_lti()
{
    StateMatrix<2> A, C;
    StateControlMatrix<2, 1> B, D;
    ctv::fill(A, "A");
    ctv::fill(B, "B");
    ctv::fill(C, "C");
    ctv::fill(D, "D");
    LTISystem<2, 1> s(A, B, C, D);
    double g = ctv_real("gain");
    s.setController(std::shared_ptr<Controller<2, 1>>(new Ctrl(g)));
    std::shared_ptr<LTISystem<2, 1>> cl(s.clone());
    bool c = ctv_choose("cloned", 0, 1);
    LTISystem<2, 1>& r = c ? *cl : s;
    X x, d, y;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t");
    r.computeControlledDynamics(x, t, u, d);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), A(i, 0) * x(0) + A(i, 1) * x(1) + B(i, 0) * u(0), "xdot = Ax + Bu");
    r.computeOutput(x, t, u, y);
    for (int i = 0; i < 2; i++) ctv_eq(y(i), C(i, 0) * x(0) + C(i, 1) * x(1) + D(i, 0) * u(0), "y = Cx + Du");
    ctv::eqm(r.getDerivativeState(x, u, t), A, "A");
    ctv::eqm(r.getDerivativeControl(x, u, t), B, "B");
    r.computeDynamics(x, t, d);
    Ctrl(g).computeControl(x, t, u);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), A(i, 0) * x(0) + A(i, 1) * x(1) + B(i, 0) * u(0), "closed loop, also for clones");
    StateMatrix<2> A2;
    StateControlMatrix<2, 1> B2;
    r.getDerivatives(A2, B2, x, u, t);
    ctv::eqm(A2, A, "getDerivatives");
    ctv::eqm(B2, B, "getDerivatives");
    LTISystem<2, 1> dflt(A, B);
    dflt.computeOutput(x, t, u, y);
    ctv::eqm(y, x, "default output is the state");
    Eigen::Matrix<double, 2, 2> CO;
    r.computeControllabilityMatrix(CO);
    ctv::eqm(CO.col(0), B, "controllability matrix [B AB]");
    M2 Ad = A, Cd = C;
    B21 Bd = B;
    for (int i = 0; i < 2; i++) ctv_eq(CO(i, 1), A(i, 0) * B(0, 0) + A(i, 1) * B(1, 0), "controllability matrix [B AB]");
    Eigen::Matrix<double, 4, 2> O;
    r.computeObservabilityMatrix(O);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
        {
            ctv_eq(O(i, j), C(i, j), "observability matrix [C; CA]");
            ctv_eq(O(2 + i, j), C(i, 0) * A(0, j) + C(i, 1) * A(1, j), "observability matrix [C; CA]");
        }
    ctv_cover("done");
}
extern "C" void proof_lti3()
{
    StateMatrix<3> A, C;
    StateControlMatrix<3, 2> B;
    ctv::fill(A, "A");
    ctv::fill(B, "B");
    ctv::fill(C, "C");
    LTISystem<3, 2> s(A, B, C);
    DiscreteLTISystem<3, 2> ds(A, B, C);
    Eigen::Matrix<double, 3, 6> CO, CO2, CE;
    s.computeControllabilityMatrix(CO);
    ds.computeControllabilityMatrix(CO2);
    Eigen::Matrix<double, 3, 2> P = B, Q;
    for (int k = 0; k < 3; k++)
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 2; j++) CE(i, 2 * k + j) = P(i, j);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 2; j++) Q(i, j) = A(i, 0) * P(0, j) + A(i, 1) * P(1, j) + A(i, 2) * P(2, j);
        P = Q;
    }
    ctv::eqm(CO, CE, "controllability matrix [B AB A^2B]");
    ctv::eqm(CO2, CE, "discrete controllability matrix [B AB A^2B]");
    Eigen::Matrix<double, 9, 3> O, O2, OE;
    s.computeObservabilityMatrix(O);
    ds.computeObservabilityMatrix(O2);
    Eigen::Matrix<double, 3, 3> R = C, T;
    for (int k = 0; k < 3; k++)
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) OE(3 * k + i, j) = R(i, j);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) T(i, j) = R(i, 0) * A(0, j) + R(i, 1) * A(1, j) + R(i, 2) * A(2, j);
        R = T;
    }
    ctv::eqm(O, OE, "observability matrix [C; CA; CA^2]");
    ctv::eqm(O2, OE, "discrete observability matrix [C; CA; CA^2]");
    ctv_cover("done");
}
extern "C" void proof_discrete_lti()
{
    M2 A, C;
    B21 B, D;
    ctv::fill(A, "A");
    ctv::fill(B, "B");
    ctv::fill(C, "C");
    ctv::fill(D, "D");
    DiscreteLTISystem<2, 1> s(A, B, C, D);
    double g = ctv_real("gain");
    s.setController(std::shared_ptr<DiscreteController<2, 1>>(new DCtrl(g)));
    std::shared_ptr<DiscreteLTISystem<2, 1>> cl(s.clone());
    DiscreteLTISystem<2, 1>& r = ctv_choose("cloned", 0, 1) ? *cl : s;
    X x, d;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    int n = (int)ctv_int("n", 0, 1000);
    DiscreteControlledSystem<2, 1>& base = r;
    base.propagateControlledDynamics(x, n, u, d);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), A(i, 0) * x(0) + A(i, 1) * x(1) + B(i, 0) * u(0), "x+ = Ax + Bu");
    Eigen::Matrix<double, 2, 1> xe = x, ue2, de, y;
    Eigen::Matrix<double, 1, 1> ue = u;
    r.propagateControlledDynamics(xe, n, ue, de);
    ctv::eqm(de, d, "x+ = Ax + Bu (Eigen interface)");
    r.computeOutput(xe, n, ue, y);
    for (int i = 0; i < 2; i++) ctv_eq(y(i), C(i, 0) * x(0) + C(i, 1) * x(1) + D(i, 0) * u(0), "y = Cx + Du");
    base.propagateDynamics(x, n, d);
    DCtrl(g).computeControl(x, n, u);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), A(i, 0) * x(0) + A(i, 1) * x(1) + B(i, 0) * u(0), "closed loop");
    ctv_cover("done");
}
static double l1(const M2& m) { return std::abs(m(0, 0)) + std::abs(m(0, 1)) + std::abs(m(1, 0)) + std::abs(m(1, 1)); }
extern "C" void proof_gramians()
{
    M2 A, C;
    B21 B;
    ctv::fill(A, "A");
    ctv::fill(B, "B");
    ctv::fill(C, "C");
    DiscreteLTISystem<2, 1> s(A, B, C);
    long it = ctv_choose("iters", 0, 2);
    double tol = ctv::pos("tol");
    bool obs = ctv_choose("observability", 0, 1);
    M2 G = obs ? s.computeObservabilityGramian(it, tol) : s.computeControllabilityGramian(it, tol);
    M2 P = M2::Identity(), S = M2::Zero(), Pn;
    for (long k = 0; k < it; k++)
    {
        M2 inc;
        if (obs)
        {
            M2 Q;
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 2; j++) Q(i, j) = C(i, 0) * P(0, j) + C(i, 1) * P(1, j);
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 2; j++) inc(i, j) = Q(0, i) * Q(0, j) + Q(1, i) * Q(1, j);
        }
        else
        {
            double v[2];
            for (int i = 0; i < 2; i++) v[i] = P(i, 0) * B(0, 0) + P(i, 1) * B(1, 0);
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 2; j++) inc(i, j) = v[i] * v[j];
        }
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++) S(i, j) += inc(i, j);
        if (l1(inc) < tol) break;
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++) Pn(i, j) = P(i, 0) * A(0, j) + P(i, 1) * A(1, j);
        P = Pn;
    }
    ctv::eqm(G, S, "Gramian = partial sum up to convergence or the iteration limit");
    ctv_cover("done");
}
extern "C" void proof_second_order()
{
    double w = ctv_real("w_n"), z = ctv_real("zeta"), g = ctv_real("g_dc"), t = ctv_real("t");
    SecondOrderSystem s(w, z, g);
    X x, d;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    std::shared_ptr<SecondOrderSystem> cl(s.clone());
    bool c = ctv_choose("cloned", 0, 1);
    (c ? *cl : s).computeControlledDynamics(x, t, u, d);
    ctv_eq(d(0), x(1), "pdot = v");
    ctv_eq(d(1), g * w * w * u(0) - 2 * z * w * x(1) - w * w * x(0), "damped oscillator");
    ctv_check((c ? *cl : s).getType() == SECOND_ORDER, "declared second order");
    ctv_check((c ? *cl : s).checkParameters() == (z >= 0 && w >= 0 && g > 0), "parameters are reported physical iff damping and frequency are not negative and the gain is positive");
    double w2 = ctv_real("w2"), z2 = ctv_real("z2"), g2 = ctv_real("g2");
    s.setDynamics(w2, z2, g2);
    s.computeControlledDynamics(x, t, u, d);
    ctv_eq(d(1), g2 * w2 * w2 * u(0) - 2 * z2 * w2 * x(1) - w2 * w2 * x(0), "setDynamics");
    double k = ctv::pos("k"), m = ctv::pos("m"), dm = ctv_real("d");
    SecondOrderSystem sm(k, m, dm, g);
    sm.computeControlledDynamics(x, t, u, d);
    ctv_eq(d(0), x(1), "pdot = v");
    ctv_eq(m * d(1), g * k * u(0) - dm * x(1) - k * x(0), "spring-mass-damper: m a = g k u - d v - k p");
    ctv_cover("done");
}
class Symp : public SymplecticSystem<1, 1, 1>
{
public:
    Symp* clone() const override { return new Symp(*this); }
    void computePdot(const X& x, const StateVector<1>& v, const U& u, StateVector<1>& p) override
    {
        double a[4] = {x(0), x(1), v(0), u(0)};
        p(0) = ctv::uf("pdot", a);
    }
    void computeVdot(const X& x, const StateVector<1>& q, const U& u, StateVector<1>& p) override
    {
        double a[4] = {x(0), x(1), q(0), u(0)};
        p(0) = ctv::uf("vdot", a);
    }
};
extern "C" void proof_symplectic_system()
{
    Symp s;
    X x, d;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t");
    ctv_check(s.isSymplectic(), "isSymplectic");
    s.computeControlledDynamics(x, t, u, d);
    double a[4] = {x(0), x(1), x(1), u(0)}, b[4] = {x(0), x(1), x(0), u(0)};
    ctv_eq(d(0), ctv::uf("pdot", a), "position derivative");
    ctv_eq(d(1), ctv::uf("vdot", b), "velocity derivative");
    ctv_cover("done");
}
