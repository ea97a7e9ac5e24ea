// C19: LQOCProblem: stage data, box constraints relative to the nominal trajectory, time-invariant set-up.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
typedef LQOCProblem<2, 2> P;
typedef Eigen::MatrixXd MX;

static void sizes(P& p, int K)
{
    ctv_eqi(p.getNumberOfStages(), K, "number of stages");
    ctv_check((int)p.A_.size() == K && (int)p.B_.size() == K && (int)p.P_.size() == K && (int)p.R_.size() == K && (int)p.rv_.size() == K, "stage arrays");
    ctv_check((int)p.Q_.size() == K + 1 && (int)p.qv_.size() == K + 1 && (int)p.q_.size() == K + 1 && (int)p.b_.size() >= K, "stage arrays incl. terminal");
    ctv_check((int)p.u_lb_.size() == K && (int)p.u_ub_.size() == K && (int)p.u_I_.size() == K && (int)p.x_lb_.size() == K + 1 && (int)p.x_ub_.size() == K + 1 && (int)p.x_I_.size() == K + 1, "box arrays");
    ctv_check((int)p.nbu_.size() == K && (int)p.nbx_.size() == K + 1 && (int)p.ng_.size() == K + 1 && (int)p.d_lb_.size() == K + 1 && (int)p.d_ub_.size() == K + 1 && (int)p.C_.size() == K + 1 && (int)p.D_.size() == K + 1, "constraint arrays");
}
extern "C" void proof_size_and_zero()
{
    int K = ctv_choose("K", 0, 3);
    P p(ctv_choose("K0", 0, 3));
    p.changeNumStages(K);
    sizes(p, K);
    int ng = ctv_choose("ng", 0, 2);
    p.setZero(ng);
    sizes(p, K);
    for (int k = 0; k <= K; k++)
    {
        for (int i = 0; i < 2; i++)
        {
            ctv_eq(p.qv_[k](i), 0, "zero");
            ctv_eq(p.b_[k](i), 0, "zero");
            for (int j = 0; j < 2; j++) ctv_eq(p.Q_[k](i, j), 0, "zero");
        }
        ctv_eq(p.q_[k], 0, "zero");
        ctv_eqi(p.nbx_[k], 0, "no box constraints");
        ctv_eqi(p.ng_[k], ng, "general constraints allocated");
        ctv_check(p.d_lb_[k].rows() == ng && p.d_ub_[k].rows() == ng && p.C_[k].rows() == ng && p.D_[k].rows() == ng && p.C_[k].cols() == 2 && p.D_[k].cols() == 2, "general constraint dimensions");
        for (int i = 0; i < ng; i++)
        {
            ctv_eq(p.d_lb_[k](i), 0, "zero");
            ctv_eq(p.d_ub_[k](i), 0, "zero");
            for (int j = 0; j < 2; j++) ctv_eq(p.C_[k](i, j), 0, "zero"), ctv_eq(p.D_[k](i, j), 0, "zero");
        }
        if (k == K) break;
        ctv_eqi(p.nbu_[k], 0, "no box constraints");
        for (int i = 0; i < 2; i++)
        {
            ctv_eq(p.rv_[k](i), 0, "zero");
            for (int j = 0; j < 2; j++) ctv_eq(p.A_[k](i, j), 0, "zero"), ctv_eq(p.B_[k](i, j), 0, "zero"), ctv_eq(p.R_[k](i, j), 0, "zero"), ctv_eq(p.P_[k](i, j), 0, "zero");
        }
    }
    ctv_check(p.isGeneralConstrained() == (ng > 0) && !p.isInputBoxConstrained() && !p.isStateBoxConstrained(), "constraint flags after setZero");
    ctv_cover("sizes");
}
extern "C" void proof_box_constraints()
{
    const int K = 2;
    P p(K);
    p.setZero();
    StateVectorArray<2> xn;
    ControlVectorArray<2> un;
    for (int k = 0; k <= K; k++)
    {
        StateVector<2> x;
        ctv::fill(x, "xnom");
        xn.push_back(x);
        ControlVector<2> u;
        ctv::fill(u, "unom");
        un.push_back(u);
    }
    int n = ctv_choose("n", 1, 2);
    MX lb(n, 1), ub(n, 1);
    ctv::fill(lb, "lb");
    ctv::fill(ub, "ub");
    Eigen::VectorXi sp(n);
    if (n == 2)
        sp << 0, 1;
    else
        sp << ctv_choose("sp", 0, 1);
    long kind = ctv_choose("kind", 0, 4);
    long at = kind == 0 || kind == 2 ? ctv_choose("at", 0, K - 1) : -1;
    if (kind == 0) p.setInputBoxConstraint(at, n, lb, ub, sp, un[at]);
    if (kind == 1) p.setInputBoxConstraints(n, lb, ub, sp, un);
    if (kind == 2) p.setIntermediateStateBoxConstraint(at, n, lb, ub, sp, xn[at]);
    if (kind == 3) p.setIntermediateStateBoxConstraints(n, lb, ub, sp, xn);
    if (kind == 4) p.setTerminalBoxConstraints(n, lb, ub, sp, xn[K]);
    for (int k = 0; k <= K; k++)
    {
        bool hasX = (kind == 2 && k == at) || (kind == 3 && k < K) || (kind == 4 && k == K);
        bool hasU = k < K && ((kind == 0 && k == at) || kind == 1);
        ctv_eqi(p.nbx_[k], hasX ? n : 0, "number of state box constraints at the stage");
        if (k < K) ctv_eqi(p.nbu_[k], hasU ? n : 0, "number of input box constraints at the stage");
        for (int i = 0; i < n; i++)
        {
            if (hasX)
            {
                ctv_eqi(p.x_I_[k](i), sp(i), "constrained state index");
                ctv_eq(p.x_lb_[k](i), lb(i) - xn[k](sp(i)), "state lower bound relative to the nominal state");
                ctv_eq(p.x_ub_[k](i), ub(i) - xn[k](sp(i)), "state upper bound relative to the nominal state");
            }
            if (hasU)
            {
                ctv_eqi(p.u_I_[k](i), sp(i), "constrained input index");
                ctv_eq(p.u_lb_[k](i), lb(i) - un[k](sp(i)), "input lower bound relative to the nominal input");
                ctv_eq(p.u_ub_[k](i), ub(i) - un[k](sp(i)), "input upper bound relative to the nominal input");
            }
        }
    }
    ctv_check(p.isInputBoxConstrained() == (kind <= 1) && p.isStateBoxConstrained() == (kind >= 2) && !p.isGeneralConstrained() && p.isConstrained(), "constraint flags");
    ctv_cover("boxes");
}
extern "C" void proof_rejects()
{
    const int K = 2;
    P p(K);
    p.setZero();
    MX lb(1, 1), ub(1, 1), two(2, 1);
    lb << 0;
    ub << 1;
    two << 0, 1;
    Eigen::VectorXi sp(1), bad(1), sp2(2);
    sp << 0;
    bad << 2;
    sp2 << 0, 1;
    StateVector<2> x;
    x.setZero();
    ControlVector<2> u;
    u.setZero();
    long k = ctv_choose("case", 0, 9);
    ctv_check(ctv::throws([&]() {
        if (k == 0) p.setInputBoxConstraint(K, 1, lb, ub, sp, u);
        if (k == 1) p.setInputBoxConstraint(0, 1, lb, two, sp, u);
        if (k == 2) p.setInputBoxConstraint(0, 1, lb, ub, bad, u);
        if (k == 3) p.setIntermediateStateBoxConstraint(K, 1, lb, ub, sp, x);
        if (k == 4) p.setIntermediateStateBoxConstraint(0, 1, lb, ub, sp2, x);
        if (k == 5) p.setIntermediateStateBoxConstraint(0, 2, lb, ub, sp, x);
        if (k == 6) p.setTerminalBoxConstraints(1, lb, ub, bad, x);
        if (k == 7) p.setTerminalBoxConstraints(1, two, ub, sp, x);
        if (k == 8) p.setGeneralConstraints(lb, two, MX::Ones(1, 2), MX::Ones(1, 2));
        if (k == 9) p.setGeneralConstraints(lb, ub, MX::Ones(1, 2), MX::Ones(2, 2));
    }), "inconsistent constraint configuration rejected");
    ctv_check(!p.isConstrained(), "a rejected configuration changes nothing");
    ctv_cover("rejects");
}
extern "C" void proof_general_constraints()
{
    const int K = 2;
    P p(K);
    p.setZero();
    int n = ctv_choose("n", 1, 2);
    MX lb(n, 1), ub(n, 1), C(n, 2), D(n, 2);
    ctv::fill(lb, "lb");
    ctv::fill(ub, "ub");
    ctv::fill(C, "C");
    ctv::fill(D, "D");
    p.setGeneralConstraints(lb, ub, C, D);
    for (int k = 0; k <= K; k++)
    {
        ctv_eqi(p.ng_[k], n, "number of general constraints");
        ctv::eqm(p.d_lb_[k], lb, "general lower bound");
        ctv::eqm(p.d_ub_[k], ub, "general upper bound");
        ctv::eqm(p.C_[k], C, "general state Jacobian");
        ctv::eqm(p.D_[k], D, "general input Jacobian");
    }
    ctv_check(p.isGeneralConstrained() && p.isConstrained(), "flag");
    ctv_cover("general");
}
extern "C" void proof_time_invariant_setup()
{
    int K = ctv_choose("K", 1, 3);
    double dt = ctv::pos("dt");
    StateMatrix<2> A;
    StateControlMatrix<2, 2> B;
    ctv::fill(A, "A");
    ctv::fill(B, "B");
    DiscreteLTISystem<2, 2> sys(A, B);
    StateMatrix<2> Q, Qf;
    ControlMatrix<2> R;
    StateVector<2> xr, xf, off;
    ControlVector<2> ur;
    ctv::fillsym(Q, "Q");
    ctv::fillsym(Qf, "Qf");
    ctv::fillsym(R, "R");
    ctv::fill(xr, "xref");
    ctv::fill(xf, "xfin");
    ctv::fill(ur, "uref");
    ctv::fill(off, "offset");
    CostFunctionQuadraticSimple<2, 2> cost(Q, R, xr, ur, xf, Qf);
    P p(K);
    p.setFromTimeInvariantLinearQuadraticProblem(sys, cost, off, dt);
    sizes(p, K);
    // oracle: second-order expansion at the origin of  dt * 1/2 ((x-xr)'Q(x-xr) + (u-ur)'R(u-ur)),  1/2 (x-xf)'Qf(x-xf)
    StateVector<2> q = -dt * (Q * xr), qf = -(Qf * xf);
    ControlVector<2> r = -dt * (R * ur);
    for (int k = 0; k < K; k++)
    {
        ctv::eqm(p.A_[k], A, "A");
        ctv::eqm(p.B_[k], B, "B");
        ctv::eqm(p.b_[k], off, "offset");
        ctv::eqm(p.Q_[k], (Q * dt).eval(), "Q");
        ctv::eqm(p.R_[k], (R * dt).eval(), "R");
        ctv::eqm(p.P_[k], Eigen::Matrix2d::Zero().eval(), "P");
        ctv::eqm(p.qv_[k], q, "q");
        ctv::eqm(p.rv_[k], r, "r");
    }
    ctv::eqm(p.Q_[K], Qf, "terminal Q");
    ctv::eqm(p.qv_[K], qf, "terminal q");
    ctv_check(!p.isConstrained(), "unconstrained");
    ctv_cover("LTI");
}
