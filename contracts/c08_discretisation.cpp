// C08: closed-form discretisation of a linear(ised) system.
#include "ctv.h"
#include "eigen_contracts.h"
#include <unsupported/Eigen/MatrixFunctions>
// Dependency contract: Eigen's matrix exponential is an arbitrary function EXP of the matrix (entry-wise uninterpreted).
namespace Eigen {
namespace internal {
template <>
struct matrix_exp_computeUV<Eigen::Matrix<double, 2, 2>, double>
{
    template <typename A>
    static void run(const A& arg, Eigen::Matrix<double, 2, 2>& U, Eigen::Matrix<double, 2, 2>& V, int& sq)
    {
        double a[4] = {arg(0, 0), arg(0, 1), arg(1, 0), arg(1, 1)};
        const char* n[4] = {"exp00", "exp01", "exp10", "exp11"};
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++)
            {
                double e = ctv::uf(n[2 * i + j], a);
                U(i, j) = (e - (i == j)) / 2;
                V(i, j) = (e + (i == j)) / 2;
            }
        sq = 0;
    }
};
}  // namespace internal
}  // namespace Eigen
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
typedef SensitivityApproximationSettings::APPROXIMATION AP;
// an arbitrary time- and state-dependent linearisation
struct Lin : public LinearSystem<2, 1>
{
    MA A_;
    MB B_;
    Lin* clone() const override { return new Lin(*this); }
    const MA& getDerivativeState(const X& x, const U& u, const double t) override
    {
        double a[4] = {x(0), x(1), u(0), t};
        const char* n[4] = {"A00", "A01", "A10", "A11"};
        for (int i = 0; i < 4; i++) A_(i / 2, i % 2) = ctv::uf(n[i], a);
        return A_;
    }
    const MB& getDerivativeControl(const X& x, const U& u, const double t) override
    {
        double a[4] = {x(0), x(1), u(0), t};
        B_(0) = ctv::uf("B0", a);
        B_(1) = ctv::uf("B1", a);
        return B_;
    }
};
typedef SensitivityApproximation<2, 1> SA;
struct In
{
    X x, xn;
    U u;
    double dt;
    int n;
    In()
    {
        ctv::fill(x, "x");
        ctv::fill(xn, "xn");
        ctv::fill(u, "u");
        dt = ctv::pos("dt");
        n = (int)ctv_int("n", 0, 10000);
    }
};
// the object under test, built in every way the interface offers
static std::shared_ptr<SA> make(double dt, AP ap, long how)
{
    std::shared_ptr<Lin> l(new Lin());
    if (how == 0) return std::shared_ptr<SA>(new SA(dt, l, ap));
    if (how == 1)
    {
        SA tmp(SensitivityApproximationSettings(dt, ap), l);
        return std::shared_ptr<SA>(tmp.clone());
    }
    std::shared_ptr<SA> s(new SA(1.0));
    s->setLinearSystem(l);
    s->setTimeDiscretization(dt);
    s->setApproximation(ap);
    return s;
}
static MA mm(const MA& a, const MA& b)
{
    MA r;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) r(i, j) = a(i, 0) * b(0, j) + a(i, 1) * b(1, j);
    return r;
}
static MB mb(const MA& a, const MB& b)
{
    MB r;
    for (int i = 0; i < 2; i++) r(i) = a(i, 0) * b(0) + a(i, 1) * b(1);
    return r;
}
static double I(int i, int j) { return i == j; }
extern "C" void proof_forward_euler()
{
    In in;
    auto s = make(in.dt, AP::FORWARD_EULER, ctv_choose("how", 0, 2));
    ctv_check(s->getApproximation() == AP::FORWARD_EULER, "getApproximation");
    MA A, Ac;
    MB B, Bc;
    Lin().getDerivatives(Ac, Bc, in.x, in.u, in.n * in.dt);
    s->getAandB(in.x, in.u, in.xn, in.n, 1, A, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++) ctv_eq(A(i, j), I(i, j) + in.dt * Ac(i, j), "A = I + dt Ac");
        ctv_eq(B(i), in.dt * Bc(i), "B = dt Bc");
    }
    X xn;
    s->propagateControlledDynamics(in.x, in.n, in.u, xn);
    for (int i = 0; i < 2; i++) ctv_eq(xn(i), A(i, 0) * in.x(0) + A(i, 1) * in.x(1) + B(i) * in.u(0), "x+ = Ax + Bu");
    ctv_cover("done");
}
extern "C" void proof_symplectic_euler()
{
    In in;
    auto s = make(in.dt, AP::SYMPLECTIC_EULER, ctv_choose("how", 0, 2));
    MA A, A1, A2;
    MB B, B1, B2;
    X xi;
    xi << in.xn(0), in.x(1);
    double t = in.n * in.dt, dt = in.dt;
    Lin().getDerivatives(A1, B1, in.x, in.u, t);
    Lin().getDerivatives(A2, B2, xi, in.u, t);
    s->getAandB(in.x, in.u, in.xn, in.n, 1, A, B);
    // chain rule through p+ = p + dt f_p(x), v+ = v + dt f_v(p+, v)
    ctv_eq(A(0, 0), 1 + dt * A1(0, 0), "dp+/dp");
    ctv_eq(A(0, 1), dt * A1(0, 1), "dp+/dv");
    ctv_eq(A(1, 0), dt * A2(1, 0) * A(0, 0), "dv+/dp");
    ctv_eq(A(1, 1), 1 + dt * A2(1, 1) + dt * A2(1, 0) * A(0, 1), "dv+/dv");
    ctv_eq(B(0), dt * B1(0), "dp+/du");
    ctv_eq(B(1), dt * B2(1) + dt * A2(1, 0) * B(0), "dv+/du");
    ctv_cover("done");
}
// (I - dt Ac) A = I,   (I - dt Ac) B = dt Bc
extern "C" void proof_backward_euler()
{
    In in;
    auto s = make(in.dt, AP::BACKWARD_EULER, ctv_choose("how", 0, 2));
    MA A, Ac, Mx;
    MB B, Bc;
    Lin().getDerivatives(Ac, Bc, in.x, in.u, (in.n + 1) * in.dt);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) Mx(i, j) = I(i, j) - in.dt * Ac(i, j);
    ctv_assume(Mx(0, 0) * Mx(1, 1) - Mx(0, 1) * Mx(1, 0) != 0);
    s->getAandB(in.x, in.u, in.xn, in.n, 1, A, B);
    MA R = mm(Mx, A);
    MB Rb = mb(Mx, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++) ctv_eq(R(i, j), I(i, j), "(I - dt Ac) A = I");
        ctv_eq(Rb(i), in.dt * Bc(i), "(I - dt Ac) B = dt Bc");
    }
    ctv_cover("done");
}
extern "C" void proof_tustin()
{
    In in;
    auto s = make(in.dt, AP::TUSTIN, ctv_choose("how", 0, 2));
    MA A, Ac, Ab, Mx, P;
    MB B, Bc;
    Lin().getDerivatives(Ac, Bc, in.x, in.u, in.n * in.dt);
    Ab = Lin().getDerivativeState(in.xn, in.u, (in.n + 1) * in.dt);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
        {
            Mx(i, j) = I(i, j) - in.dt / 2 * Ab(i, j);
            P(i, j) = I(i, j) + in.dt / 2 * Ac(i, j);
        }
    ctv_assume(Mx(0, 0) * Mx(1, 1) - Mx(0, 1) * Mx(1, 0) != 0);
    s->getAandB(in.x, in.u, in.xn, in.n, 1, A, B);
    MA R = mm(Mx, A);
    MB Rb = mb(Mx, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++) ctv_eq(R(i, j), P(i, j), "(I - dt/2 Ac(next)) A = I + dt/2 Ac");
        ctv_eq(Rb(i), in.dt * Bc(i), "(I - dt/2 Ac(next)) B = dt Bc");
    }
    ctv_cover("done");
}
extern "C" void proof_matrix_exponential()
{
    In in;
    auto s = make(in.dt, AP::MATRIX_EXPONENTIAL, ctv_choose("how", 0, 2));
    MA A, Ac;
    MB B, Bc, r;
    Lin().getDerivatives(Ac, Bc, in.x, in.u, in.n * in.dt);
    ctv_assume(Ac(0, 0) * Ac(1, 1) - Ac(0, 1) * Ac(1, 0) != 0);
    s->getAandB(in.x, in.u, in.xn, in.n, 1, A, B);
    double a[4] = {in.dt * Ac(0, 0), in.dt * Ac(0, 1), in.dt * Ac(1, 0), in.dt * Ac(1, 1)};
    const char* n[4] = {"exp00", "exp01", "exp10", "exp11"};
    MA E;
    for (int i = 0; i < 4; i++) E(i / 2, i % 2) = ctv::uf(n[i], a);
    ctv::eqm(A, E, "A = exp(dt Ac)");
    MA D = E;
    D(0, 0) -= 1;
    D(1, 1) -= 1;
    MB L = mb(Ac, B), R = mb(D, Bc);
    ctv::eqm(L, R, "Ac B = (exp(dt Ac) - I) Bc");
    ctv_cover("done");
}
extern "C" void proof_missing_system_rejected()
{
    In in;
    SA s(in.dt);
    MA A;
    MB B;
    ctv_check(ctv::throws([&] { s.getAandB(in.x, in.u, in.xn, in.n, 1, A, B); }), "no linear system: rejected");
    std::shared_ptr<SA> c(s.clone());
    ctv_check(ctv::throws([&] { c->getAandB(in.x, in.u, in.xn, in.n, 1, A, B); }), "no linear system: rejected (clone)");
    ctv_cover("done");
}
