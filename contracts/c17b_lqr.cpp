// C17 (2): several Riccati steps: DARE iteration, finite-horizon and infinite-horizon LQR.
#include "ctv.h"
#define CTV_EIG1
#include "eigen_contracts.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const double EPS = 1e-5;  // DynamicRiccatiEquation's documented eigenvalue regularisation
static const double TINY = 0;  // Eigen treats smaller matrices as zero

template <int N, int M>
struct LQ
{
    typedef Eigen::Matrix<double, N, N> QM;
    typedef Eigen::Matrix<double, M, M> RM;
    typedef Eigen::Matrix<double, N, M> BM;
    typedef Eigen::Matrix<double, M, N> KM;
    typedef Eigen::Matrix<double, N, 1> XV;
    typedef Eigen::Matrix<double, M, 1> UV;
    QM Q, A, P;
    RM R;
    BM B;
    LQ()
    {
        ctv::fillsym(Q, "Q");
        ctv::fillsym(R, "R");
        ctv::fillsym(P, "P");
        ctv::fill(A, "A");
        ctv::fill(B, "B");
    }
    // Bellman: for all x, u:  stage cost + cost-to-go = x'Pnew x + (u - Kx)'H(u - Kx): Pnew is the optimal cost-to-go, u = Kx the minimiser
    void bellman(const QM& Pn, const KM& K, double eps)
    {
        XV x;
        UV u;
        ctv::fill(x, "x");
        ctv::fill(u, "u");
        RM Re = R;
        for (int i = 0; i < M; i++) Re(i, i) += eps;
        XV xn = A * x + B * u;
        double c = (x.transpose() * Q * x)(0) + (u.transpose() * Re * u)(0) + (xn.transpose() * P * xn)(0);
        RM H = Re + B.transpose() * P * B;
        UV d = u - K * x;
        ctv_eq(c, (x.transpose() * Pn * x)(0) + (d.transpose() * H * d)(0), "cost = optimal cost-to-go + squared deviation from the feedback law");
        for (int i = 0; i < N; i++)
            for (int j = 0; j < i; j++) ctv_eq(Pn(i, j), Pn(j, i), "cost-to-go stays symmetric");
    }
};
// DARE: the result is one Riccati step away (less than eps) from its predecessor, otherwise an error is raised
extern "C" void proof_dare()
{
    LQ<1, 1> l;
    double q = l.Q(0), r = l.R(0), a = l.A(0), b = l.B(0), p = l.P(0);
    ctv_assume(q >= 0.0 && r >= TINY && p >= 0.0);
    double eps = ctv::pos("eps");
    auto step = [&](double pp, double& k) {
        double h = r + EPS + b * b * pp;
        k = -(b * pp * a) / h;
        return q + a * a * pp - k * h * k;
    };
    long maxIter = ctv_choose("maxIter", 0, 2);
    LQ<1, 1>::KM K;
    double pw = p, kw = 0, prev = p;
    bool conv = 1.0 < eps;  // no iteration needed
    for (long i = 0; i < maxIter && !conv; i++)
    {
        prev = pw;
        pw = step(prev, kw);
        conv = !(std::abs(pw - prev) >= eps);
    }
    DARE<1, 1> d;
    double got = 0;
    bool thr = ctv::throws([&]() { got = d.computeSteadyStateRiccatiMatrix(l.Q, l.R, l.A, l.B, l.P, K, false, eps, maxIter)(0); });
    ctv_check(thr == !conv, "error raised exactly when the iteration did not converge");
    if (conv && !thr && !(1.0 < eps))
    {
        ctv_eq(got, pw, "converged cost-to-go");
        ctv_eq(K(0), kw, "converged gain");
    }
    ctv_cover("dare");
}
// ---- finite horizon ------------------------------------------------------------------------------------------------
typedef ControlVector<1> U;
template <int N>
struct Cost : public CostFunctionQuadratic<N, 1>
{
    typedef StateVector<N> X;
    typedef Eigen::Matrix<double, N, N> MM;
    using CostFunctionQuadratic<N, 1>::x_;
    using CostFunctionQuadratic<N, 1>::u_;
    using CostFunctionQuadratic<N, 1>::t_;
    Cost* clone() const override { return new Cost(*this); }
    double uf(const char* n, int i, int j) { return ctv::uf(n, {(double)(i < j ? i : j), (double)(i < j ? j : i), x_(0), x_(N - 1), u_(0), t_}); }
    double evaluateIntermediate() override { return 0; }
    double evaluateTerminal() override { return 0; }
    X stateDerivativeIntermediate() override { return X::Zero(); }
    X stateDerivativeTerminal() override { return X::Zero(); }
    MM stateSecondDerivativeIntermediate() override
    {
        MM m;
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) m(i, j) = uf("lxx", i, j);
        return m;
    }
    MM stateSecondDerivativeTerminal() override
    {
        MM m;
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) m(i, j) = uf("fxx", i, j);
        return m;
    }
    U controlDerivativeIntermediate() override { return U::Zero(); }
    Eigen::Matrix<double, 1, 1> controlSecondDerivativeIntermediate() override
    {
        Eigen::Matrix<double, 1, 1> m;
        m(0) = uf("luu", 0, 0);
        return m;
    }
    Eigen::Matrix<double, 1, N> stateControlDerivativeIntermediate() override { return Eigen::Matrix<double, 1, N>::Zero(); }
};
template <int N>
struct Lin : public LinearSystem<N, 1>
{
    typedef StateVector<N> X;
    StateMatrix<N> A_;
    StateControlMatrix<N, 1> B_;
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<N>& getDerivativeState(const X& x, const U& u, const double t = 0.0) override
    {
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) A_(i, j) = ctv::uf("A", {(double)i, (double)j, x(0), x(N - 1), u(0), t});
        return A_;
    }
    const StateControlMatrix<N, 1>& getDerivativeControl(const X& x, const U& u, const double t = 0.0) override
    {
        for (int i = 0; i < N; i++) B_(i) = ctv::uf("B", {(double)i, x(0), x(N - 1), u(0), t});
        return B_;
    }
};
template <int N>
static void fhdtlqr(long lo, long hi)
{
    typedef StateVector<N> X;
    typedef Eigen::Matrix<double, N, N> MM;
    long K = ctv_choose("stages", lo, hi);
    double dt = ctv::pos("dt");
    StateVectorArray<N> xs;
    ControlVectorArray<1> us;
    for (long i = 0; i <= K; i++)
    {
        X x;
        ctv::fill(x, "x");
        xs.push_back(x);
        if (i < K)
        {
            U u;
            ctv::fill(u, "u");
            us.push_back(u);
        }
    }
    auto cost = std::make_shared<Cost<N>>();
    auto lin = std::make_shared<Lin<N>>();
    StateMatrixArray<N> A;
    StateControlMatrixArray<N, 1> B;
    bool lz = ctv_choose("linearise", 0, 1);
    for (long i = 0; i < K; i++)
    {
        StateMatrix<N> a = lin->getDerivativeState(xs[i], us[i], i * dt);
        StateControlMatrix<N, 1> b = lin->getDerivativeControl(xs[i], us[i], i * dt);
        if (lz) a = a * dt + StateMatrix<N>::Identity(), b = b * dt;
        A.push_back(a);
        B.push_back(b);
    }
    // oracle: backward recursion with the stage-wise completed square
    std::vector<Eigen::Matrix<double, 1, N>> want(K);
    cost->setCurrentStateAndControl(xs[K], U::Zero(), K * dt);
    MM P = cost->stateSecondDerivativeTerminal();
    for (long i = K - 1; i >= 0; i--)
    {
        cost->setCurrentStateAndControl(xs[i], us[i], i * dt);
        MM Q = cost->stateSecondDerivativeIntermediate() * dt;
        double h = cost->controlSecondDerivativeIntermediate()(0) * dt + (B[i].transpose() * P * B[i])(0);
        ctv_assume(h >= TINY);
        Eigen::Matrix<double, 1, N> g = B[i].transpose() * P * A[i];
        want[i] = -g / (h + EPS);
        MM Pn = Q + A[i].transpose() * P * A[i] - g.transpose() * g / (h + EPS);
        P = Pn;
    }
    FHDTLQR<N, 1> lqr(cost);
    FeedbackArray<N, 1> Kg;
    if (lz)
        lqr.designController(xs, us, lin, dt, Kg, false);
    else
        lqr.designController(xs, us, A, B, dt, Kg, false);
    ctv_eqi(Kg.size(), K, "one gain per stage");
    for (long i = 0; i < K; i++) ctv::eqm(Kg[i], want[i], "time-varying LQR gain");
    // inconsistent lengths
    if (K > 0)
    {
        if (lz)
            us.pop_back();
        else if (ctv_choose("short", 0, 1))
            A.pop_back();
        else
            B.pop_back();
        ctv_check(ctv::throws([&]() { lz ? lqr.designController(xs, us, A, B, dt, Kg, false) : lqr.designController(xs, us, A, B, dt, Kg, false); }), "inconsistent lengths rejected");
    }
    ctv_cover("fhdtlqr");
}
extern "C" void proof_fhdtlqr_1() { fhdtlqr<1>(0, 2); }
extern "C" void proof_fhdtlqr_2() { fhdtlqr<2>(1, 1); }
