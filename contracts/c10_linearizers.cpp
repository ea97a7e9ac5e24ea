// C10: numerical linearisation returns the Jacobians (exact on the function classes finite differences are exact for).
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
static const int N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
// f_i(x,u,t) = c_i(t) + sum a_ij z_j + sum q_ijk z_j z_k, z = (x,u)
struct Poly
{
    double c[N], a[N][N + M], q[N][N + M][N + M];
    bool quad;
    Poly(bool quad_) : quad(quad_)
    {
        for (int i = 0; i < N; i++)
        {
            c[i] = ctv_real("c");
            for (int j = 0; j < N + M; j++)
            {
                a[i][j] = ctv_real("a");
                for (int k = 0; k < N + M; k++) q[i][j][k] = (quad && k >= j) ? ctv_real("q") : 0.0;
            }
        }
    }
    double z(const X& x, const U& u, int j) const { return j < N ? x(j) : u(j - N); }
    double f(int i, const X& x, const U& u, double t) const
    {
        double targ[1] = {t};
        double r = c[i] * ctv::uf("g", targ);
        for (int j = 0; j < N + M; j++)
        {
            r += a[i][j] * z(x, u, j);
            if (quad)
                for (int k = j; k < N + M; k++) r += q[i][j][k] * z(x, u, j) * z(x, u, k);
        }
        return r;
    }
    double d(int i, int j, const X& x, const U& u) const
    {
        double r = a[i][j];
        if (quad)
            for (int k = 0; k < N + M; k++)
            {
                if (k >= j) r += q[i][j][k] * z(x, u, k);
                if (k <= j) r += q[i][k][j] * z(x, u, k);
            }
        return r;
    }
};
static double g_x[N], g_u[M];
static bool g_track = false;
// a probe moves a coordinate not at all, or by a distance at which finite differences are meaningful in double precision
static void probe(double z, double z0)
{
    double s = std::abs(z0) > 1 ? std::abs(z0) : 1.0;
    ctv_check(z - z0 <= 1e-4 * s && z0 - z <= 1e-4 * s, "dynamics are probed only close to the linearisation point");
    ctv_check(z == z0 || z - z0 >= 1e-11 * s || z0 - z >= 1e-11 * s, "a probe is not lost in rounding");
}
static void small(const X& x, const U& u)
{
    if (!g_track) return;
    for (int i = 0; i < N; i++) probe(x(i), g_x[i]);
    for (int i = 0; i < M; i++) probe(u(i), g_u[i]);
}
class CSys : public ControlledSystem<N, M>
{
public:
    Poly p;
    CSys(const Poly& pp, SYSTEM_TYPE ty = GENERAL) : ControlledSystem<N, M>(ty), p(pp) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        small(x, u);
        for (int i = 0; i < N; i++) d(i) = p.f(i, x, u, t);
        if (this->getType() == SECOND_ORDER) d(0) = x(1);
    }
};
class DSys : public DiscreteControlledSystem<N, M>
{
public:
    Poly p;
    DSys(const Poly& pp) : p(pp) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override
    {
        small(x, u);
        for (int i = 0; i < N; i++) d(i) = p.f(i, x, u, n);
    }
};
static void point(X& x, U& u)
{
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    for (int i = 0; i < N; i++) g_x[i] = x(i);
    for (int i = 0; i < M; i++) g_u[i] = u(i);
}
static void cont(bool dbl, bool track)
{
    Poly p(dbl);
    std::shared_ptr<CSys> s(new CSys(p));
    SystemLinearizer<N, M> lin(s, dbl);
    X x;
    U u;
    point(x, u);
    g_track = track;
    double t = ctv_real("t");
    StateMatrix<N> A = lin.getDerivativeState(x, u, t);
    StateControlMatrix<N, M> B = lin.getDerivativeControl(x, u, t);
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N + M; j++) ctv_eq(j < N ? A(i, j) : B(i, j - N), p.d(i, j, x, u), "Jacobian");
    if (!track)
    {
        std::shared_ptr<SystemLinearizer<N, M>> cl(lin.clone());
        StateMatrix<N> A2;
        StateControlMatrix<N, M> B2;
        cl->getDerivatives(A2, B2, x, u, t);
        ctv::eqm(A2, A, "clone");
        ctv::eqm(B2, B, "clone");
    }
    ctv_cover("done");
}
extern "C" void proof_continuous_double_sided() { cont(true, false); }
extern "C" void proof_continuous_one_sided() { cont(false, false); }
extern "C" void proof_continuous_probe_distance() { cont(ctv_choose("double", 0, 1), true); }
extern "C" void proof_continuous_second_order()
{
    Poly p(true);
    std::shared_ptr<CSys> s(new CSys(p, SECOND_ORDER));
    SystemLinearizer<N, M> lin(s, true);
    std::shared_ptr<SystemLinearizer<N, M>> cl(lin.clone());
    bool c = ctv_choose("cloned", 0, 1);
    X x;
    U u;
    point(x, u);
    double t = ctv_real("t");
    StateMatrix<N> A = c ? cl->getDerivativeState(x, u, t) : lin.getDerivativeState(x, u, t);
    StateControlMatrix<N, M> B = c ? cl->getDerivativeControl(x, u, t) : lin.getDerivativeControl(x, u, t);
    ctv_eq(A(0, 0), 0, "second-order structure");
    ctv_eq(A(0, 1), 1, "second-order structure");
    for (int j = 0; j < M; j++) ctv_eq(B(0, j), 0, "second-order structure");
    for (int j = 0; j < N; j++) ctv_eq(A(1, j), p.d(1, j, x, u), "Jacobian");
    for (int j = 0; j < M; j++) ctv_eq(B(1, j), p.d(1, N + j, x, u), "Jacobian");
    ctv_cover("done");
}
static void disc(bool dbl, bool track)
{
    Poly p(dbl);
    std::shared_ptr<DSys> s(new DSys(p));
    DiscreteSystemLinearizer<N, M> lin(s, dbl);
    X x;
    U u;
    point(x, u);
    g_track = track;
    int n = (int)ctv_int("n", 0, 100000);
    StateMatrix<N> A, A1, A2;
    StateControlMatrix<N, M> B, B1, B2;
    lin.getAandB(x, u, x, n, 1, A, B);
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N + M; j++) ctv_eq(j < N ? A(i, j) : B(i, j - N), p.d(i, j, x, u), "Jacobian");
    if (!track)
    {
        A1 = lin.getDerivativeState(x, u, n);
        B1 = lin.getDerivativeControl(x, u, n);
        ctv::eqm(A1, A, "getDerivativeState");
        ctv::eqm(B1, B, "getDerivativeControl");
        std::shared_ptr<DiscreteSystemLinearizer<N, M>> cl(lin.clone());
        cl->getAandB(x, u, x, n, 1, A2, B2);
        ctv::eqm(A2, A, "clone");
        ctv::eqm(B2, B, "clone");
    }
    ctv_cover("done");
}
extern "C" void proof_discrete_double_sided() { disc(true, false); }
extern "C" void proof_discrete_one_sided() { disc(false, false); }
extern "C" void proof_discrete_probe_distance() { disc(ctv_choose("double", 0, 1), true); }
static void fun(bool dbl, bool track = false)
{
    Poly p(dbl);
    std::function<Eigen::Vector2d(const Eigen::Vector4d&)> f = [&](const Eigen::Vector4d& z) {
        X x;
        U u;
        x << z(0), z(1);
        u << z(2), z(3);
        if (track) small(x, u);
        Eigen::Vector2d r;
        for (int i = 0; i < 2; i++) r(i) = p.f(i, x, u, 0.0);
        return r;
    };
    DerivativesNumDiff<4, 2> D(f, dbl);
    Eigen::VectorXd z(4);
    ctv::fill(z, "z");
    X x;
    U u;
    x << z(0), z(1);
    u << z(2), z(3);
    for (int i = 0; i < 2; i++) g_x[i] = x(i), g_u[i] = u(i);
    g_track = track;
    Eigen::Vector2d v = D.forwardZero(z);
    for (int i = 0; i < 2; i++) ctv_eq(v(i), p.f(i, x, u, 0.0), "forwardZero evaluates the function");
    std::shared_ptr<DerivativesNumDiff<4, 2>> cl(D.clone());
    auto J = ctv_choose("cloned", 0, 1) ? cl->jacobian(z) : D.jacobian(z);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 4; j++) ctv_eq(J(i, j), p.d(i, j, x, u), "Jacobian");
    ctv_cover("done");
}
extern "C" void proof_function_double_sided() { fun(true); }
extern "C" void proof_function_one_sided() { fun(false); }
extern "C" void proof_function_probe_distance() { fun(ctv_choose("double", 0, 1), true); }
