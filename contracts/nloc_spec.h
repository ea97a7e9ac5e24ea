// Specification of iterative nonlinear optimal control shared by C20 (single-threaded) and C31 (multi-threaded)
#pragma once
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
typedef DiscreteOptConProblem<1, 1> Problem;
typedef NLOCBackendBase<1, 1, 1, 1, double, false> Base;
#ifdef CTV_NLOC_MP
typedef NLOCBackendMP<1, 1, 1, 1, double, false> Backend;
#else
typedef NLOCBackendST<1, 1, 1, 1, double, false> Backend;
static void user_code(int) {}
static long threads() { return 1; }
#endif
typedef LQOCProblem<1, 1> LQ;
typedef NLOptConSettings St;
typedef std::vector<double> V;

static double fun(const char* s, double a, double b, double c, double d = 0)
{
    double v[4] = {a, b, c, d};
    return ctv_uf(s, 4, v);
}
struct Dyn : public DiscreteControlledSystem<1, 1>  // arbitrary dynamics
{
    Dyn* clone() const override { return new Dyn(*this); }
    void propagateControlledDynamics(const StateVector<1>& x, const int n, const ControlVector<1>& u, StateVector<1>& xn) override { user_code(1); xn << fun("F", x(0), u(0), n); }
};
struct Lin : public DiscreteLinearSystem<1, 1>  // arbitrary linearisation
{
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const StateVector<1>& x, const ControlVector<1>& u, const StateVector<1>& xn, const int n, size_t sub, StateMatrix<1>& A, StateControlMatrix<1, 1>& B) override
    {
        user_code(2);
        ctv_eqi(sub, 1, "substeps");
        A << fun("A", x(0), u(0), xn(0), n), B << fun("B", x(0), u(0), xn(0), n);
    }
};
struct Cost : public CostFunctionQuadratic<1, 1>  // arbitrary cost
{
    typedef CostFunctionQuadratic<1, 1> B;
    typedef StateVector<1> X;
    typedef ControlVector<1> U;
    typedef Eigen::Matrix<double, 1, 1> M;
    Cost* clone() const override { return new Cost(*this); }
    double in(const char* s) { user_code(4); return fun(s, this->x_(0), this->u_(0), this->t_); }
    double fi(const char* s) { user_code(4); return fun(s, this->x_(0), 0, this->t_); }
    double evaluateIntermediate() override { return in("L"); }
    double evaluateTerminal() override { return fi("Phi"); }
    X stateDerivativeIntermediate() override { X r; r << in("Lx"); return r; }
    X stateDerivativeTerminal() override { X r; r << fi("Phix"); return r; }
    M stateSecondDerivativeIntermediate() override { M r; r << in("Lxx"); return r; }
    M stateSecondDerivativeTerminal() override { M r; r << fi("Phixx"); return r; }
    U controlDerivativeIntermediate() override { U r; r << in("Lu"); return r; }
    M controlSecondDerivativeIntermediate() override { M r; r << in("Luu"); return r; }
    M stateControlDerivativeIntermediate() override { M r; r << in("Lux"); return r; }
};
// contract of the LQ solver: takes the problem stage by stage (last to first) or as a whole; any answer
struct Oracle : public LQOCSolver<1, 1>
{
    struct Stage { double A, B, b, Q, R, P, q, r; };
    std::vector<Stage> st;
    std::vector<int> seen;
    double QN = 0, qN = 0;
    V dx, du, lv, L;
    std::function<void()> answered;  // called when the answer is determined
    int N() const { return lqocProblem_->getNumberOfStages(); }
    void configure(const NLOptConSettings&) override {}
    void initializeAndAllocate() override {}
    void setProblemImpl(std::shared_ptr<LQ> p) override {}
    void reset()
    {
        int n = N();
        st.assign(n, Stage()), seen.assign(n, 0);
        dx.resize(n + 1), du.resize(n), lv.resize(n), L.resize(n);
        x_sol_.resize(n + 1), u_sol_.resize(n), lv_.resize(n), L_.resize(n);
        x_sol_[0] << (dx[0] = 0.0);
        for (int k = 0; k < n; k++)
        {
            x_sol_[k + 1] << (dx[k + 1] = ctv_real("dx"));
            u_sol_[k] << (du[k] = ctv_real("du"));
            lv_[k] << (lv[k] = ctv_real("lv"));
            L_[k] << (L[k] = ctv_real("Lnew"));
        }
        if (answered) answered();
    }
    void solveSingleStage(int k) override
    {
        LQ& p = *lqocProblem_;
        ctv_check(k >= 0 && k < N(), "the stage exists");
        if (k == N() - 1)
        {
            reset();
            QN = p.Q_[N()](0), qN = p.qv_[N()](0);
        }
        else
            ctv_check((int)seen.size() == N() && seen[k + 1], "stages are solved from the last to the first");
        seen[k] = 1;
        st[k] = Stage{p.A_[k](0), p.B_[k](0), p.b_[k](0), p.Q_[k](0), p.R_[k](0), p.P_[k](0), p.qv_[k](0), p.rv_[k](0)};
    }
    void solve() override { for (int k = N() - 1; k >= 0; k--) solveSingleStage(k); }
    void done() { ctv_check((int)seen.size() == N() && seen[0], "the answer is used after all stages are solved"); at = *lqocProblem_; }
    LQ at;  // the problem as a whole when the answer is used
    void computeStatesAndControls() override { done(); }
    void computeFeedbackMatrices() override { done(); }
    void compute_lv() override { done(); }
};
struct Spy : public Base
{
    static std::shared_ptr<LQOCSolver<1, 1>>& solver(Base& b) { return b.*&Spy::lqocSolver_; }
    static std::shared_ptr<LQ>& lq(Base& b) { return b.*&Spy::lqocProblem_; }
    static ct::core::StateVectorArray<1>& d(Base& b) { return b.*&Spy::d_; }
    static double boxNorm(Base& b) { return b.*&Spy::e_box_norm_; }
    static double genNorm(Base& b) { return b.*&Spy::e_gen_norm_; }
};
// ---- specification
struct Traj { V x, u, d; };
struct Sol
{
    std::shared_ptr<Base> b;
    std::shared_ptr<NLOCAlgorithm<1, 1, 1, 1, double, false>> alg;
    std::shared_ptr<Oracle> o;
    NLOptConSettings s;
    long K, Ks;      // stages, stages per shot
    V xg, ug, Lg;    // guess
    double x0;
    bool closed() const { return s.nlocp_algorithm == St::ILQR || s.nlocp_algorithm == St::MS_ILQR || s.nlocp_algorithm == St::SS_CL || s.nlocp_algorithm == St::GNMS_M_CL; }
    bool single() const { return s.nlocp_algorithm == St::ILQR || s.nlocp_algorithm == St::SS_OL || s.nlocp_algorithm == St::SS_CL; }
    double cost(const Traj& t)
    {
        double J = 0;
        for (long k = 0; k < K; k++) J += s.dt * fun("L", t.x[k], t.u[k], k * s.dt);
        return J + fun("Phi", t.x[K], 0, K * s.dt);
    }
    static double dn(const Traj& t) { double r = 0; for (double v : t.d) r += v < 0 ? -v : v; return r; }
    double merit(const Traj& t) { return cost(t) + s.meritFunctionRho * dn(t) + (con ? s.meritFunctionRhoConstraints * (box(t) + gen(t)) : 0.0); }
    bool con = false;                      // constrained problem
    double ul = 0, uu = 0, xl = 0, xu = 0, gl = 0, gu = 0;  // bounds
    static double viol(double v, double l, double u) { return std::max(l - v, 0.0) + std::max(v - u, 0.0); }
    int kind = 7;  // which constraints are present (bits: input box, state box, general)
    double box(const Traj& t)
    {
        double r = 0;
        for (long k = 0; k < K; k++) r += s.dt * ((kind & 1 ? viol(t.u[k], ul, uu) : 0.0) + (kind & 2 ? viol(t.x[k], xl, xu) : 0.0));
        return r + (kind & 2 ? viol(t.x[K], xl, xu) : 0.0);
    }
    double gen(const Traj& t)
    {
        double r = 0;
        if (!(kind & 4)) return r;
        for (long k = 0; k < K; k++) r += s.dt * viol(fun("g", t.x[k], t.u[k], k * s.dt), gl, gu);
        return r + viol(fun("g", t.x[K], 0, K * s.dt), gl, gu);
    }
    void constrain();
    void lqcon(const Traj& t)
    {
        LQ& p = o->at;
        for (long k = 0; k <= K; k++)
        {
            double u = k < K ? t.u[k] : 0.0, T = k * s.dt, g = fun("g", t.x[k], u, T);
            ctv_eqi(p.ng_[k], 1, "general constraints per stage");
            ctv_eq(p.C_[k](0, 0), fun("gx", t.x[k], u, T), "LQ: C");
            ctv_eq(p.D_[k](0, 0), fun("gu", t.x[k], u, T), "LQ: D");
            ctv_eq(p.d_lb_[k](0), gl - g, "LQ: lower bound of the general constraint");
            ctv_eq(p.d_ub_[k](0), gu - g, "LQ: upper bound of the general constraint");
            if (k < K)
            {
                ctv_eqi(p.nbu_[k], 1, "input bounds per stage");
                ctv_eq(p.u_lb_[k](0), ul - u, "LQ: lower input bound relative to the control");
                ctv_eq(p.u_ub_[k](0), uu - u, "LQ: upper input bound relative to the control");
            }
            if (k == 0) continue;  // the initial state is fixed
            ctv_eqi(p.nbx_[k], 1, "state bounds per stage");
            ctv_eq(p.x_lb_[k](0), xl - t.x[k], "LQ: lower state bound relative to the state");
            ctv_eq(p.x_ub_[k](0), xu - t.x[k], "LQ: upper state bound relative to the state");
        }
    }
    // what a rollout has to produce from shot starts xs, controls us, gains L around xr
    Traj roll(const V& xs, const V& us, const V& L, const V& xr)
    {
        Traj t;
        t.x = xs, t.u = us, t.d.assign(K + 1, 0.0);
        for (long k = 0; k < K; k++)
        {
            if (closed()) t.u[k] = us[k] + L[k] * (t.x[k] - xr[k]);
            double n = fun("F", t.x[k], t.u[k], k);
            if (k + 1 == K || (k + 1) % Ks != 0) t.x[k + 1] = n;
            else t.d[k] = n - t.x[k + 1];
        }
        return t;
    }
    Traj first() { V xs = xg; xs[0] = x0; return roll(xs, ug, Lg, xg); }
    V step(const V& a, const V& da, double al) { V r = a; for (size_t k = 0; k < r.size(); k++) r[k] = a[k] + al * da[k]; return r; }
    // the update of the algorithm with step length al
    Traj cand(const Traj& t, double al)
    {
        V z(K + 1, 0.0);
        auto a = s.nlocp_algorithm;
        bool lvs = a == St::ILQR || a == St::MS_ILQR;
        V xs = step(t.x, a == St::ILQR ? z : o->dx, al), us = step(t.u, lvs ? o->lv : o->du, al);
        V xr = step(t.x, a == St::SS_CL || a == St::GNMS_M_CL ? o->dx : z, al);
        return roll(xs, us, o->L, xr);
    }
    void same(const Traj& t, const char* lx, const char* lu)
    {
        auto& p = b->getSolution();
        auto xt = b->getStateTrajectory();
        auto ut = b->getControlTrajectory();
        ctv_eqi(p.x_ref().size(), K + 1, "number of states");
        ctv_eqi(p.uff().size(), K, "number of controls");
        ctv_eqi(p.K().size(), K, "number of gains");
        ctv_eqi(xt.size(), K + 1, "length of the state trajectory");
        ctv_eqi(ut.size(), K, "length of the control trajectory");
        for (long k = 0; k <= K; k++)
        {
            ctv_eq(p.x_ref()[k](0), t.x[k], lx);
            ctv_eq(xt[k](0), t.x[k], lx);
            ctv_eq(xt.getTimeArray()[k], k * s.dt, "time grid");
            ctv_eq(p.time()[k], k * s.dt, "time grid of the policy");
            if (k == K) break;
            ctv_eq(p.uff()[k](0), t.u[k], lu);
            ctv_eq(ut[k](0), t.u[k], lu);
            ctv_eq(ut.getTimeArray()[k], k * s.dt, "time grid of the controls");
            ctv_eq(Spy::d(*b)[k](0), t.d[k], "defects");
        }
        ctv_eq(b->getCost(), cost(t), "the reported cost is the cost of the reported trajectories");
    }
    void gains(const V& L)
    {
        auto& p = b->getSolution();
        for (long k = 0; k < K; k++) ctv_eq(p.K()[k](0), L[k], "feedback gains");
    }
    void lq(const Traj& t)
    {
        for (long k = 0; k < K; k++)
        {
            const Oracle::Stage& g = o->st[k];
            double n = fun("F", t.x[k], t.u[k], k), T = k * s.dt;
            ctv_eq(g.A, fun("A", t.x[k], t.u[k], n, k), "LQ: A");
            ctv_eq(g.B, fun("B", t.x[k], t.u[k], n, k), "LQ: B");
            ctv_eq(g.b, t.d[k], "LQ: defect");
            ctv_eq(g.Q, s.dt * fun("Lxx", t.x[k], t.u[k], T), "LQ: Q");
            ctv_eq(g.R, s.dt * fun("Luu", t.x[k], t.u[k], T), "LQ: R");
            ctv_eq(g.P, s.dt * fun("Lux", t.x[k], t.u[k], T), "LQ: P");
            ctv_eq(g.q, s.dt * fun("Lx", t.x[k], t.u[k], T), "LQ: q");
            ctv_eq(g.r, s.dt * fun("Lu", t.x[k], t.u[k], T), "LQ: r");
        }
        ctv_eq(o->QN, fun("Phixx", t.x[K], 0, K * s.dt), "LQ: terminal Q");
        ctv_eq(o->qN, fun("Phix", t.x[K], 0, K * s.dt), "LQ: terminal q");
    }
    void use(const std::shared_ptr<Base>& bk)
    {
        b = bk;
        o = std::make_shared<Oracle>();
        Spy::solver(*b) = o;
        std::shared_ptr<Base> p = b;
        if (single()) alg.reset(new SingleShooting<1, 1, 1, 1, double, false>(p, s));
        else alg.reset(new MultipleShooting<1, 1, 1, 1, double, false>(p, s));
    }
    void guess(long n)  // an initial guess with n stages
    {
        xg.resize(K + 1), ug.resize(K), Lg.resize(K);
        StateVectorArray<1> xs(n + 1);
        ControlVectorArray<1> us(n);
        FeedbackArray<1, 1> fb(n);
        for (long k = 0; k <= n; k++)
        {
            xs[k] << ctv_real("xg");
            if (k <= K) xg[k] = xs[k](0);
            if (k == n) break;
            us[k] << ctv_real("ug"), fb[k] << ctv_real("Lg");
            if (k < K) ug[k] = us[k](0), Lg[k] = fb[k](0);
        }
        b->setInitialGuess(StateFeedbackController<1, 1>(xs, us, fb, s.dt));
        x0 = xg[0];
    }
};
struct Gen : public ConstraintBase<1, 1>  // arbitrary constraint
{
    typedef Eigen::Matrix<double, -1, 1> Vx;
    typedef Eigen::Matrix<double, -1, -1> Mx;
    Gen(double l, double u) { lb_.resize(1), ub_.resize(1), lb_(0) = l, ub_(0) = u; }
    Gen* clone() const override { return new Gen(*this); }
    size_t getConstraintSize() const override { return 1; }
    Vx evaluate(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { return Vx::Constant(1, fun("g", x(0), u(0), t)); }
    Mx jacobianState(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { return Mx::Constant(1, 1, fun("gx", x(0), u(0), t)); }
    Mx jacobianInput(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { return Mx::Constant(1, 1, fun("gu", x(0), u(0), t)); }
};
void Sol::constrain()
{
    typedef ConstraintContainerAnalytical<1, 1> C;
    typedef Eigen::Matrix<double, 1, 1> V1;
    con = true;
    ul = ctv_real("ul"), xl = ctv_real("xl"), gl = ctv_real("gl");
    uu = ul + ctv::pos("ru"), xu = xl + ctv::pos("rx"), gu = gl + ctv::pos("rg");
    auto ib = std::make_shared<C>(), sb = std::make_shared<C>(), gc = std::make_shared<C>();
    ControlVector<1> ua, ub;
    StateVector<1> xa, xb;
    ua << ul, ub << uu, xa << xl, xb << xu;
    ib->addIntermediateConstraint(std::make_shared<ControlInputConstraint<1, 1>>(ua, ub), false);
    sb->addIntermediateConstraint(std::make_shared<StateConstraint<1, 1>>(xa, xb), false);
    sb->addTerminalConstraint(std::make_shared<StateConstraint<1, 1>>(xa, xb), false);
    gc->addIntermediateConstraint(std::make_shared<Gen>(gl, gu), false);
    gc->addTerminalConstraint(std::make_shared<Gen>(gl, gu), false);
    ib->initialize(), sb->initialize(), gc->initialize();
    if (kind & 1) b->changeInputBoxConstraints(ib);
    if (kind & 2) b->changeStateBoxConstraints(sb);
    if (kind & 4) b->changeGeneralConstraints(gc);
}
static NLOptConSettings settings(long alg, long ls)
{
    NLOptConSettings s;
    s.nlocp_algorithm = (St::NLOCP_ALGORITHM)alg;
    s.lineSearchSettings.type = (LineSearchSettings::TYPE)ls;
    s.nThreads = threads(), s.nThreadsEigen = 1;
    s.printSummary = false;
    s.dt = ctv::pos("dt");
    s.meritFunctionRho = ctv::pos("rho");
    s.meritFunctionRhoConstraints = ctv::pos("rhoc");
    s.min_cost_improvement = ctv::pos("minimp");
    s.maxDefectSum = ctv::pos("maxdefect");
    return s;
}
static Sol make(const NLOptConSettings& s, long K)
{
    Sol q;
    q.s = s, q.K = K, q.Ks = q.single() ? K : std::min<long>(s.K_shot, K);
    StateVector<1> x0;
    x0 << ctv_real("xinit");
    Problem p(K, x0, std::make_shared<Dyn>(), std::make_shared<Cost>(), std::make_shared<Lin>());
    q.use(std::make_shared<Backend>(p, s));
    return q;
}
