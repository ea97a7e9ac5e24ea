// C17: Riccati recursions, finite-horizon and infinite-horizon LQR.
#include "ctv.h"
#include "eigen_contracts.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const double EPS = 1e-5;  // DynamicRiccatiEquation's documented eigenvalue regularisation
static const double TINY = 1e-300;  // Eigen treats smaller matrices as zero

template <int N, int M>
struct LQ
{
    typedef Eigen::Matrix<double, N, N> QM;
    typedef Eigen::Matrix<double, M, M> RM;
    typedef Eigen::Matrix<double, N, M> BM;
    typedef Eigen::Matrix<double, M, N> KM;
    typedef Eigen::Matrix<double, N, 1> XV;
    typedef Eigen::Matrix<double, M, 1> UV;
    QM Q, A, P;
    RM R;
    BM B;
    LQ()
    {
        ctv::fillsym(Q, "Q");
        ctv::fillsym(R, "R");
        ctv::fillsym(P, "P");
        ctv::fill(A, "A");
        ctv::fill(B, "B");
    }
    // Bellman: for all x, u:  stage cost + cost-to-go = x'Pnew x + (u - Kx)'H(u - Kx): Pnew is the optimal cost-to-go, u = Kx the minimiser
    void bellman(const QM& Pn, const KM& K, double eps)
    {
        XV x;
        UV u;
        ctv::fill(x, "x");
        ctv::fill(u, "u");
        RM Re = R;
        for (int i = 0; i < M; i++) Re(i, i) += eps;
        XV xn = A * x + B * u;
        double c = (x.transpose() * Q * x)(0) + (u.transpose() * Re * u)(0) + (xn.transpose() * P * xn)(0);
        RM H = Re + B.transpose() * P * B;
        UV d = u - K * x;
        ctv_eq(c, (x.transpose() * Pn * x)(0) + (d.transpose() * H * d)(0), "cost = optimal cost-to-go + squared deviation from the feedback law");
        for (int i = 0; i < N; i++)
            for (int j = 0; j < i; j++) ctv_eq(Pn(i, j), Pn(j, i), "cost-to-go stays symmetric");
    }
};
template <int N, int M>
static void naive()
{
    LQ<N, M> l;
    typename LQ<N, M>::RM H = l.R + l.B.transpose() * l.P * l.B;
    ctv_assume(H.determinant() != 0.0);
    DynamicRiccatiEquation<N, M> d;
    typename LQ<N, M>::QM P = l.P;
    typename LQ<N, M>::KM K;
    d.iterateNaive(l.Q, l.R, l.A, l.B, P, K);
    l.bellman(P, K, 0.0);
    ctv_cover("naive");
}
extern "C" void proof_iterate_naive_21() { naive<2, 1>(); }
extern "C" void proof_iterate_naive_12() { naive<1, 2>(); }
extern "C" void proof_iterate_naive_22() { naive<2, 2>(); }

template <int N, int M>
static void robust()
{
    LQ<N, M> l;
    typename LQ<N, M>::RM H = l.R + l.B.transpose() * l.P * l.B;
    ctv_assume(H(0, 0) >= TINY);
    DynamicRiccatiEquation<N, M> d;
    typename LQ<N, M>::QM P = l.P;
    typename LQ<N, M>::KM K;
    d.iterateRobust(l.Q, l.R, l.A, l.B, P, K);
    l.bellman(P, K, EPS);
    ctv_cover("robust");
}
extern "C" void proof_iterate_robust_21() { robust<2, 1>(); }
#ifndef CTV_NATIVE
namespace eg = Eigen::ctv_eig;
static void arm(double t, double l0, double l1) { eg::gArmed = true, eg::gT = t, eg::gL0 = l0, eg::gL1 = l1; }
#else
static void arm(double, double, double) {}
#endif
// two controls: the Hessian is V diag(l) V', for every rotation V and eigenvalues l (this defines R)
template <int N>
static void robust2()
{
    LQ<N, 2> l;
    double t = ctv_real("halfangle"), l0 = ctv_real("l0"), l1 = ctv_real("l1");
    double n = 1.0 / (1.0 + t * t), c = (1.0 - t * t) * n, s = 2.0 * t * n;
    Eigen::Matrix2d V, D, H;
    V << c, -s, s, c;
    D << l0, 0, 0, l1;
    H = V * D * V.transpose();
    l.R = H - l.B.transpose() * l.P * l.B;
    arm(t, l0, l1);
    DynamicRiccatiEquation<N, 2> d;
    typename LQ<N, 2>::QM P = l.P;
    typename LQ<N, 2>::KM K;
    d.iterateRobust(l.Q, l.R, l.A, l.B, P, K);
    Eigen::Matrix2d De;
    De << (l0 > 0 ? l0 : 0.0) + EPS, 0, 0, (l1 > 0 ? l1 : 0.0) + EPS;
    Eigen::Matrix2d He = V * De * V.transpose();
    typename LQ<N, 2>::KM g = l.B.transpose() * l.P * l.A, hk = He * K;
    ctv::eqm(hk, (-g).eval(), "gain of the regularised problem: (H+ + eps I) K = -B'PA");
    typename LQ<N, 2>::QM want = l.Q + l.A.transpose() * l.P * l.A + K.transpose() * g;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++) ctv_eq(2 * P(i, j), want(i, j) + want(j, i), "cost-to-go of the regularised problem");
    ctv_cover("robust, two controls");
}
extern "C" void proof_iterate_robust_12() { robust2<1>(); }
// indefinite Hessian: negative eigenvalues are treated as zero (+ regularisation)
extern "C" void proof_iterate_robust_indefinite()
{
    LQ<2, 1> l;
    double h = (l.R + l.B.transpose() * l.P * l.B)(0);
    ctv_assume(h < 0.0);
    DynamicRiccatiEquation<2, 1> d;
    LQ<2, 1>::QM P = l.P;
    LQ<2, 1>::KM K;
    d.iterateRobust(l.Q, l.R, l.A, l.B, P, K);
    LQ<2, 1>::KM g = l.B.transpose() * l.P * l.A;
    for (int i = 0; i < 2; i++) ctv_eq(EPS * K(i), -g(i), "negative curvature replaced by the regularisation");
    LQ<2, 1>::QM want = l.Q + l.A.transpose() * l.P * l.A - K.transpose() * EPS * K;
    ctv::eqm(P, want, "cost-to-go with the regularised Hessian");
    ctv_cover("indefinite");
}
// without an initial guess DARE starts from Q
extern "C" void proof_dare_default_start()
{
    LQ<1, 1> l;
    double q = l.Q(0), r = l.R(0), a = l.A(0), b = l.B(0);
    ctv_assume(q > 0.0 && r >= TINY);
    LQ<1, 1>::KM K;
    DARE<1, 1> d;
    double h = r + EPS + b * b * q, k = -(b * q * a) / h, p1 = q + a * a * q - k * h * k;
    double df = p1 - q;
    double eps = ctv::pos("eps");
    ctv_assume(df < eps && -df < eps && eps < 1.0);
    double got = d.computeSteadyStateRiccatiMatrix(l.Q, l.R, l.A, l.B, K, false, eps, 5)(0);
    ctv_eq(got, p1, "one step from Q");
    ctv_eq(K(0), k, "gain");
    ctv_cover("dare");
}
// CARE / LQR: family of problems whose Hamiltonian is its own matrix sign: for every P, B, R the problem with A = S P - I,
// Q = 2P - P S P (S = B R^-1 B') has the stabilising solution P (closed loop A - S P = -I).
template <int N, int M>
static void care()
{
    LQ<N, M> l;
    bool diag = ctv_choose("RisDiagonal", 0, 1);
    if (N == 2) l.R(0) = 1.0, l.B(0) = 1.0, l.P(0, 1) = l.P(1, 0) = 0.0;  // sub-family: keeps the 4x4 inverse small
    if (diag)
        for (int i = 0; i < M; i++)
            for (int j = 0; j < M; j++)
                if (i != j) l.R(i, j) = 0;
    ctv_assume(l.R.determinant() != 0.0);
    typename LQ<N, M>::RM Ri = l.R.inverse();
    typename LQ<N, M>::QM S = l.B * Ri * l.B.transpose();
    typename LQ<N, M>::QM I = LQ<N, M>::QM::Identity();
    typename LQ<N, M>::QM A = S * l.P - I, Q = 2.0 * l.P - l.P * S * l.P;
    // U = [-S/..; ..] has full column rank
    CARE<N, M> c;
    typename LQ<N, M>::QM P;
    typename LQ<N, M>::RM Rinv;
    bool ok = c.solve(Q, l.R, A, l.B, P, diag, Rinv, true);
    ctv_check(ok, "converged");
    ctv::eqm(Rinv, Ri, "inverse of R");
    ctv::eqm(P, l.P, "stabilising solution of the continuous-time Riccati equation");
    P = c.computeSteadyStateRiccatiMatrix(Q, l.R, A, l.B, diag, true);
    ctv::eqm(P, l.P, "stabilising solution (computeSteadyStateRiccatiMatrix)");
    LQR<N, M> lqr;
    typename LQ<N, M>::KM K;
    ctv_check(lqr.compute(Q, l.R, A, l.B, K, diag, true), "LQR converged");
    typename LQ<N, M>::KM kw = Ri * l.B.transpose() * l.P;
    ctv::eqm(K, kw, "LQR gain R^-1 B' P");
    ctv_cover("care");
}
extern "C" void proof_care_11() { care<1, 1>(); }
extern "C" void proof_care_21() { care<2, 1>(); }

