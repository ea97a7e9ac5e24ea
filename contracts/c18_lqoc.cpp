// C18: the Riccati LQOC solver returns the optimum (KKT point) of the linear-quadratic problem;  C19: LQOCProblem set-up.
#include "ctv.h"
#define CTV_EIG1
#include "eigen_contracts.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;

template <int N, int M>
static std::shared_ptr<LQOCProblem<N, M>> problem(int K)
{
    auto p = std::make_shared<LQOCProblem<N, M>>(K);
    p->setZero();
    for (int k = 0; k <= K; k++)
    {
        ctv::fillsym(p->Q_[k], "Q");
        ctv::fill(p->qv_[k], "q");
        if (k == K) break;
        ctv::fill(p->A_[k], "A");
        ctv::fill(p->B_[k], "B");
        ctv::fill(p->b_[k], "b");
        ctv::fillsym(p->R_[k], "R");
        ctv::fill(p->rv_[k], "r");
        ctv::fill(p->P_[k], "P");
    }
    return p;
}
// Stationarity of u = lv + L x along the trajectory from an arbitrary initial state: gradient of the cost w.r.t. every u_k vanishes.
// Hess[k]: input weight actually used by the solver (R + regularisation)
template <int N, int M>
static void kkt(LQOCProblem<N, M>& p, LQOCSolver<N, M>& s, const std::vector<Eigen::Matrix<double, M, M>>& Reff)
{
    int K = p.getNumberOfStages();
    std::vector<Eigen::Matrix<double, N, 1>> x(K + 1), lam(K + 1);
    std::vector<Eigen::Matrix<double, M, 1>> u(K);
    ctv::fill(x[0], "x0");
    for (int k = 0; k < K; k++)
    {
        u[k] = s.get_lv()[k] + s.getSolutionFeedback()[k] * x[k];
        x[k + 1] = p.A_[k] * x[k] + p.B_[k] * u[k] + p.b_[k];
    }
    lam[K] = p.Q_[K] * x[K] + p.qv_[K];
    for (int k = K - 1; k >= 0; k--)
    {
        Eigen::Matrix<double, M, 1> g = Reff[k] * u[k] + p.P_[k] * x[k] + p.rv_[k] + p.B_[k].transpose() * lam[k + 1];
        for (int i = 0; i < M; i++) ctv_eq(g(i), 0.0, "gradient of the cost with respect to the control vanishes");
        lam[k] = p.Q_[k] * x[k] + p.P_[k].transpose() * u[k] + p.qv_[k] + p.A_[k].transpose() * lam[k + 1];
    }
}
template <int N, int M>
static void solution(LQOCProblem<N, M>& p, LQOCSolver<N, M>& s)
{
    int K = p.getNumberOfStages();
    s.computeStatesAndControls();
    s.computeFeedbackMatrices();
    s.compute_lv();
    auto& xs = s.getSolutionState();
    auto& us = s.getSolutionControl();
    ctv_check((int)xs.size() == K + 1 && (int)us.size() == K, "solution lengths");
    for (int i = 0; i < N; i++) ctv_eq(xs[0](i), 0.0, "solution starts at zero deviation");
    for (int k = 0; k < K; k++)
    {
        Eigen::Matrix<double, M, 1> u = s.get_lv()[k] + s.getSolutionFeedback()[k] * xs[k];
        Eigen::Matrix<double, N, 1> xn = p.A_[k] * xs[k] + p.B_[k] * us[k] + p.b_[k];
        ctv::eqm(us[k], u, "solution control follows the feedback law");
        ctv::eqm(xs[k + 1], xn, "solution satisfies the linear dynamics");
    }
}
static const char* CONVEX = "convex";
template <int N, int M>
static void riccati(int K, bool fixedH, bool viaCtor, bool numbers = false)
{
    auto p = problem<N, M>(K);
    if (numbers)  // long horizon: distinct numbers for the data of the later stages
        for (int k = 0; k <= K; k++)
        {
            p->Q_[k](0) = 2 + k;
            if (k == K) break;
            p->A_[k](0) = 1 + k, p->B_[k](0) = 3 - k;
            if (k) p->P_[k](0) = 1;
            p->R_[k](0) = 1 + 2 * k;
        }
    NLOptConSettings st;
    st.fixedHessianCorrection = fixedH;
    st.epsilon = ctv::pos("epsilon");
    st.recordSmallestEigenvalue = !fixedH && ctv_choose("record", 0, 1);
    if (!fixedH) st.epsilon = 1e-5;
    if (numbers) st.epsilon = 0.5;
    std::vector<Eigen::Matrix<double, M, M>> Re(K);
    double reg = fixedH && st.epsilon > 1e-10 ? st.epsilon : 0.0;
    // convexity precondition, stage by stage (M = 1): Hessian positive (fixed) / at least epsilon
    Eigen::Matrix<double, N, N> S = p->Q_[K];
    double hmin = 0;
    for (int k = K - 1; k >= 0; k--)
    {
        Re[k] = p->R_[k];
        for (int i = 0; i < M; i++) Re[k](i, i) += reg;
        Eigen::Matrix<double, M, M> H = Re[k] + p->B_[k].transpose() * S * p->B_[k];
        Eigen::Matrix<double, M, N> G = p->P_[k] + p->B_[k].transpose() * S * p->A_[k];
        if (fixedH)
            ctv_assume(H(0, 0) > 0.0);
        else
            ctv_assume(H(0, 0) >= st.epsilon);
        hmin = (k == K - 1 || H(0, 0) < hmin) && st.recordSmallestEigenvalue ? H(0, 0) : hmin;
        Eigen::Matrix<double, N, N> Sn = p->Q_[k] + p->A_[k].transpose() * S * p->A_[k] - G.transpose() * G / H(0, 0);
        S = Sn;
    }
    std::shared_ptr<GNRiccatiSolver<N, M>> s;
    if (viaCtor)
        s = std::make_shared<GNRiccatiSolver<N, M>>(p);
    else
        s = std::make_shared<GNRiccatiSolver<N, M>>();
    s->configure(st);
    if (!viaCtor) s->setProblem(p);
    if (ctv_choose("stagewise", 0, 1))
        for (int k = K - 1; k >= 0; k--) s->solveSingleStage(k);
    else
        s->solve();
    kkt<N, M>(*p, *s, Re);
    solution<N, M>(*p, *s);
    if (st.recordSmallestEigenvalue) ctv_eq(s->getSmallestEigenvalue(), hmin, "smallest eigenvalue of all stages recorded");
    ctv_cover(CONVEX);
}
extern "C" void proof_riccati_fixed_1() { riccati<1, 1>(ctv_choose("stages", 1, 2), true, false); }
extern "C" void proof_riccati_eig_1() { riccati<1, 1>(ctv_choose("stages", 1, 2), false, false); }
extern "C" void proof_riccati_fixed_2() { riccati<2, 1>(ctv_choose("stages", 1, 1), true, false); }
extern "C" void proof_riccati_fixed_long() { riccati<1, 1>(ctv_choose("stages", 3, 4), true, false, true); }
extern "C" void proof_riccati_constructor() { riccati<1, 1>(ctv_choose("stages", 1, 2), true, true); }
// two controls, one stage: Hessian V diag(l) V' for every rotation and eigenvalues; eigenvalues below epsilon are lifted to epsilon
extern "C" void proof_riccati_two_controls()
{
    auto p = problem<1, 2>(1);
    // the gain (state part) and the feedforward (affine part) separately
    if (ctv_choose("part", 0, 1))
        p->P_[0].setZero(), p->A_[0].setZero();
    else
        p->rv_[0].setZero(), p->qv_[1].setZero(), p->b_[0].setZero();
    double t = ctv_real("halfangle"), l0 = ctv_real("l0"), l1 = ctv_real("l1"), eps = ctv::pos("epsilon");
    double n = 1.0 / (1.0 + t * t), c = (1.0 - t * t) * n, sn = 2.0 * t * n;
    Eigen::Matrix2d V, D;
    V << c, -sn, sn, c;
    D << l0, 0, 0, l1;
    Eigen::Matrix2d BSB = p->B_[0].transpose() * p->Q_[1] * p->B_[0];
    p->R_[0] = V * D * V.transpose() - BSB;
#ifndef CTV_NATIVE
    namespace eg = Eigen::ctv_eig;
    eg::gArmed = true, eg::gT = t, eg::gL0 = l0, eg::gL1 = l1;
#endif
    GNRiccatiSolver<1, 2> s;
    NLOptConSettings st;
    st.fixedHessianCorrection = false;
    st.epsilon = eps;
    s.configure(st);
    s.setProblem(p);
    s.solve();
    D << (l0 > eps ? l0 : eps), 0, 0, (l1 > eps ? l1 : eps);
    std::vector<Eigen::Matrix2d> Re(1);
    Re[0] = V * D * V.transpose() - BSB;
    kkt<1, 2>(*p, s, Re);
    ctv_cover("two controls");
}
// several stages, indefinite Hessian at the last stage (M = 1): eigenvalue lifted to epsilon
extern "C" void proof_riccati_lifts_negative_curvature()
{
    auto p = problem<1, 1>(1);
    double eps = ctv::pos("epsilon");
    double h = p->R_[0](0) + p->B_[0](0) * p->B_[0](0) * p->Q_[1](0);
    ctv_assume(h < eps);
    GNRiccatiSolver<1, 1> s;
    NLOptConSettings st;
    st.fixedHessianCorrection = false;
    st.epsilon = eps;
    s.configure(st);
    s.setProblem(p);
    s.solve();
    double g = p->rv_[0](0) + p->B_[0](0) * (p->qv_[1](0) + p->Q_[1](0) * p->b_[0](0));
    ctv_eq(eps * s.get_lv()[0](0), -g, "step with lifted curvature");
    ctv_eq(eps * s.getSolutionFeedback()[0](0), -(p->P_[0](0) + p->B_[0](0) * p->Q_[1](0) * p->A_[0](0)), "gain with lifted curvature");
    ctv_cover("lifted");
}
// re-using the solver for a problem of another length
extern "C" void proof_riccati_change_length()
{
    GNRiccatiSolver<1, 1> s;
    NLOptConSettings st;
    st.fixedHessianCorrection = true;
    st.epsilon = 0.0;
    s.configure(st);
    long K1 = ctv_choose("K1", 1, 2), K2 = ctv_choose("K2", 1, 2);
    for (long K : {K1, K2})
    {
        auto p = problem<1, 1>(K);
        double S = p->Q_[K](0);
        std::vector<Eigen::Matrix<double, 1, 1>> Re(K);
        for (int k = K - 1; k >= 0; k--)
        {
            Re[k] = p->R_[k];
            double a = p->A_[k](0), b = p->B_[k](0), h = Re[k](0) + b * b * S, g = p->P_[k](0) + b * S * a;
            ctv_assume(h > 0.0);
            S = p->Q_[k](0) + a * a * S - g * g / h;
        }
        s.setProblem(p);
        s.solve();
        kkt<1, 1>(*p, s, Re);
        solution<1, 1>(*p, s);
    }
    ctv_cover("length changed");
}
extern "C" void proof_riccati_rejects_constraints()
{
    auto p = problem<2, 2>(2);
    Eigen::MatrixXd lb(1, 1), ub(1, 1);
    lb << ctv_real("lb");
    ub << ctv_real("ub");
    Eigen::VectorXi sp(1);
    sp << 0;
    long kind = ctv_choose("kind", 0, 4);
    if (kind == 1) p->setInputBoxConstraint(ctv_choose("k", 0, 1), 1, lb, ub, sp, ControlVector<2>::Zero());
    if (kind == 2) p->setIntermediateStateBoxConstraint(ctv_choose("k", 0, 1), 1, lb, ub, sp, StateVector<2>::Zero());
    if (kind == 3) p->setTerminalBoxConstraints(1, lb, ub, sp, StateVector<2>::Zero());
    if (kind == 4) p->setGeneralConstraints(lb, ub, Eigen::MatrixXd::Ones(1, 2), Eigen::MatrixXd::Ones(1, 2));
    ctv_check(p->isConstrained() == (kind != 0), "isConstrained");
    GNRiccatiSolver<2, 2> s;
    ctv_check(ctv::throws([&]() { s.setProblem(p); }) == (kind != 0), "constrained problems are rejected, unconstrained ones accepted");
    ctv_cover("constraints");
}
