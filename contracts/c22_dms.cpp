// C22: direct multiple shooting transcribes the optimal control problem exactly: decision vector, shots, continuity and
// path constraints, cost, and all first derivatives (dense content of the sparse Jacobian) at the current iterate.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
const size_t NX = 2, NU = 1, NW = NX + NU;
typedef DmsProblem<NX, NU> Dms;
typedef StateVector<NX> X;
typedef ControlVector<NU> U;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef std::vector<double> V;

static double fun(const char* s, double x0, double x1, double u, double t, double i = 0, double j = 0)
{
    double v[6] = {x0, x1, u, t, i, j};
    return ctv_uf(s, 6, v);
}
static double fun(const char* s, const X& x, const U& u, double t, double i = 0, double j = 0) { return fun(s, x(0), x(1), u(0), t, i, j); }
struct Dyn : public ControlledSystem<NX, NU>  // arbitrary dynamics
{
    Dyn* clone() const override { return new Dyn(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override { for (size_t i = 0; i < NX; i++) d(i) = fun("f", x, u, t, i); }
};
struct Lin : public LinearSystem<NX, NU>  // its derivatives
{
    typedef LinearSystem<NX, NU> B;
    StateMatrix<NX> A_;
    StateControlMatrix<NX, NU> B_;
    Lin* clone() const override { return new Lin(*this); }
    const StateMatrix<NX>& getDerivativeState(const X& x, const U& u, const double t) override
    {
        for (size_t i = 0; i < NX; i++) for (size_t j = 0; j < NX; j++) A_(i, j) = fun("fx", x, u, t, i, j);
        return A_;
    }
    const StateControlMatrix<NX, NU>& getDerivativeControl(const X& x, const U& u, const double t) override
    {
        for (size_t i = 0; i < NX; i++) B_(i, 0) = fun("fu", x, u, t, i);
        return B_;
    }
};
struct Cost : public CostFunctionQuadratic<NX, NU>  // arbitrary cost
{
    typedef Eigen::Matrix<double, NX, NX> MXX;
    typedef Eigen::Matrix<double, NU, NU> MUU;
    typedef Eigen::Matrix<double, NU, NX> MUX;
    Cost* clone() const override { return new Cost(*this); }
    double fi(const char* s, int i = 0) { return fun(s, this->x_(0), this->x_(1), 0, 0, i); }
    double evaluateIntermediate() override { return fun("L", this->x_, this->u_, this->t_); }
    double evaluateTerminal() override { return fi("Phi"); }
    X stateDerivativeIntermediate() override { X r; for (size_t i = 0; i < NX; i++) r(i) = fun("Lx", this->x_, this->u_, this->t_, i); return r; }
    X stateDerivativeTerminal() override { X r; for (size_t i = 0; i < NX; i++) r(i) = fi("Phix", i); return r; }
    U controlDerivativeIntermediate() override { U r; r(0) = fun("Lu", this->x_, this->u_, this->t_); return r; }
    MXX stateSecondDerivativeIntermediate() override { return MXX::Zero(); }
    MXX stateSecondDerivativeTerminal() override { return MXX::Zero(); }
    MUU controlSecondDerivativeIntermediate() override { return MUU::Zero(); }
    MUX stateControlDerivativeIntermediate() override { return MUX::Zero(); }
};
struct Gen : public ConstraintBase<NX, NU>  // arbitrary constraint
{
    Gen(double l, double u) { lb_.resize(1), ub_.resize(1), lb_(0) = l, ub_(0) = u; }
    Gen* clone() const override { return new Gen(*this); }
    size_t getConstraintSize() const override { return 1; }
    VX evaluate(const X& x, const U& u, const double t) override { return VX::Constant(1, fun("g", x, u, t)); }
    MX jacobianState(const X& x, const U& u, const double t) override { MX r(1, NX); for (size_t j = 0; j < NX; j++) r(0, j) = fun("gx", x, u, t, j); return r; }
    MX jacobianInput(const X& x, const U& u, const double t) override { return MX::Constant(1, 1, fun("gu", x, u, t)); }
};
// ---- specification of one shot: value and derivatives with respect to (s_i, q_i, q_{i+1})
struct Dual
{
    X x;
    Eigen::Matrix<double, NX, 4> dx;
    double J;
    Eigen::Matrix<double, 1, 4> dJ;
    Dual() { x.setZero(), dx.setZero(), J = 0, dJ.setZero(); }
    Dual plus(double h, const Dual& k) const { Dual r; r.x = x + h * k.x, r.dx = dx + h * k.dx, r.J = J + h * k.J, r.dJ = dJ + h * k.dJ; return r; }
};
struct Spec
{
    DmsSettings s;
    long m;  // integration steps per shot
    VX w;
    X x0;
    double h() const { return s.T_ / s.N_; }
    X st(long i) const { return w.segment(i * NW, NX); }
    U in(long i) const { return w.segment(i * NW + NX, NU); }
    Dual rhs(long i, const Dual& a, double t) const
    {
        Dual k;
        double f = s.splineType_ == DmsSettings::PIECEWISE_LINEAR ? (t - i * h()) / h() : 0.0;
        U u = (1 - f) * in(i);
        if (s.splineType_ == DmsSettings::PIECEWISE_LINEAR) u += f * in(i + 1);
        Eigen::Matrix<double, 1, 4> du;
        du << 0, 0, 1 - f, f;
        k.J = fun("L", a.x, u, t);
        k.dJ = fun("Lu", a.x, u, t) * du;
        for (size_t r = 0; r < NX; r++)
        {
            k.x(r) = fun("f", a.x, u, t, r);
            k.dx.row(r) = fun("fu", a.x, u, t, r) * du;
            for (size_t c = 0; c < NX; c++) k.dx.row(r) += fun("fx", a.x, u, t, r, c) * a.dx.row(c);
            k.dJ += fun("Lx", a.x, u, t, r) * a.dx.row(r);
        }
        return k;
    }
    Dual shot(long i) const
    {
        Dual a;
        a.x = st(i), a.dx(0, 0) = a.dx(1, 1) = 1;
        double dt = s.dt_sim_;
        for (long n = 0; n < m; n++)
        {
            double t = i * h() + n * dt;
            Dual k1 = rhs(i, a, t);
            if (s.integrationType_ == DmsSettings::EULER) { a = a.plus(dt, k1); continue; }
            Dual k2 = rhs(i, a.plus(dt / 2, k1), t + dt / 2), k3 = rhs(i, a.plus(dt / 2, k2), t + dt / 2), k4 = rhs(i, a.plus(dt, k3), t + dt);
            a = a.plus(dt / 6, k1.plus(2, k2).plus(2, k3).plus(1, k4));
        }
        return a;
    }
};
struct Prob
{
    Spec sp;
    std::shared_ptr<Dms> p;
    int kind = 0;  // bits: input box, state box, general
    double lo[3], up[3];
    typedef ConstraintContainerAnalytical<NX, NU> C;
    std::vector<std::shared_ptr<LinearConstraintContainer<NX, NU>>> box(int which)
    {
        std::vector<std::shared_ptr<LinearConstraintContainer<NX, NU>>> r;
        if (!(kind >> which & 1)) return r;
        auto c = std::make_shared<C>();
        lo[which] = ctv_real("lo"), up[which] = lo[which] + ctv::pos("range");
        X xl = X::Constant(lo[which]), xu = X::Constant(up[which]);
        U ul = U::Constant(lo[which]), uu = U::Constant(up[which]);
        if (which == 0) c->addIntermediateConstraint(std::make_shared<ControlInputConstraint<NX, NU>>(ul, uu), false);
        if (which == 1) c->addIntermediateConstraint(std::make_shared<StateConstraint<NX, NU>>(xl, xu), false);
        if (which == 1) c->addTerminalConstraint(std::make_shared<StateConstraint<NX, NU>>(xl, xu), false);
        if (which == 2) c->addIntermediateConstraint(std::make_shared<Gen>(lo[2], up[2]), false);
        if (which == 2) c->addTerminalConstraint(std::make_shared<Gen>(lo[2], up[2]), false);
        c->initialize();
        r.push_back(c);
        return r;
    }
    void make(const DmsSettings& s, long m)
    {
        sp.s = s, sp.m = m;
        std::vector<std::shared_ptr<ControlledSystem<NX, NU>>> sys;
        std::vector<std::shared_ptr<LinearSystem<NX, NU>>> lin;
        std::vector<std::shared_ptr<CostFunctionQuadratic<NX, NU>>> cost;
        for (size_t i = 0; i < s.N_; i++) sys.push_back(std::make_shared<Dyn>()), lin.push_back(std::make_shared<Lin>()), cost.push_back(std::make_shared<Cost>());
        ctv::fill(sp.x0, "x0");
        auto a = box(0), b = box(1), c = box(2);
        p = std::make_shared<Dms>(s, sys, lin, cost, a, b, c, sp.x0);
    }
    void iterate(bool isNew = true)  // hand over a new decision vector
    {
        VX w((sp.s.N_ + 1) * NW);
        ctv::fill(w, "w");
        Eigen::Map<const VX> mw(w.data(), w.size());
        p->extractOptimizationVars(mw, isNew);
        if (isNew) sp.w = w;
    }
    // the constraints and their Jacobian as they should be
    void constraints(VX& c, MX& G, VX& l, VX& u)
    {
        long N = sp.s.N_, n = (N + 1) * NW;
        long per = (kind & 1 ? NU : 0) + (kind & 2 ? NX : 0) + (kind & 4 ? 1 : 0), ter = (kind & 2 ? NX : 0) + (kind & 4 ? 1 : 0);
        long m = NX * (N + 1) + (N + 1) * per + ter, row = 0;
        c = VX::Zero(m), l = c, u = c, G = MX::Zero(m, n);
        c.head(NX) = sp.st(0) - sp.x0;
        G.topLeftCorner(NX, NX).setIdentity();
        row = NX;
        for (long i = 0; i < N; i++, row += NX)
        {
            Dual a = sp.shot(i);
            c.segment(row, NX) = sp.st(i + 1) - a.x;
            G.block(row, i * NW, NX, NW) = -a.dx.leftCols(NW);
            G.block(row, (i + 1) * NW, NX, NX).setIdentity();
            if (sp.s.splineType_ == DmsSettings::PIECEWISE_LINEAR) G.block(row, (i + 1) * NW + NX, NX, NU) = -a.dx.rightCols(NU);
        }
        for (long i = 0; i <= N + 1; i++)
        {
            bool last = i == N + 1;  // terminal constraints
            long n = last ? N : i;
            X x = sp.st(n);
            U q = sp.in(n);
            double t = n * sp.h();
            if (kind & 1 && !last) c(row) = q(0), l(row) = lo[0], u(row) = up[0], G(row, n * NW + NX) = 1, row++;
            if (kind & 2)
                for (size_t k = 0; k < NX; k++, row++) c(row) = x(k), l(row) = lo[1], u(row) = up[1], G(row, n * NW + k) = 1;
            if (kind & 4)
            {
                c(row) = fun("g", x, q, t), l(row) = lo[2], u(row) = up[2];
                for (size_t k = 0; k < NX; k++) G(row, n * NW + k) = fun("gx", x, q, t, k);
                G(row, n * NW + NX) = fun("gu", x, q, t);
                row++;
            }
        }
    }
    double cost(VX& g)
    {
        long N = sp.s.N_;
        g = VX::Zero((N + 1) * NW);
        X xN = sp.st(N);
        double J = fun("Phi", xN(0), xN(1), 0, 0);
        for (size_t k = 0; k < NX; k++) g(N * NW + k) = fun("Phix", xN(0), xN(1), 0, 0, k);
        bool pl = sp.s.splineType_ == DmsSettings::PIECEWISE_LINEAR;
        if (sp.s.costEvaluationType_ == DmsSettings::FULL)
            for (long i = 0; i < N; i++)
            {
                Dual a = sp.shot(i);
                J += a.J;
                g.segment(i * NW, NW) += a.dJ.leftCols(NW).transpose();
                if (pl) g((i + 1) * NW + NX) += a.dJ(3);
            }
        else
            for (long i = 0; i <= N; i++)
            {
                double f = pl ? (i == 0 || i == N ? 0.5 : 1.0) * sp.h() : i == N ? 0.0 : sp.h(), t = i * sp.h();
                J += f * fun("L", sp.st(i), sp.in(i), t);
                for (size_t k = 0; k < NX; k++) g(i * NW + k) += f * fun("Lx", sp.st(i), sp.in(i), t, k);
                g(i * NW + NX) += f * fun("Lu", sp.st(i), sp.in(i), t);
            }
        return J;
    }
    void checkConstraints()
    {
        VX c, l, u;
        MX G;
        constraints(c, G, l, u);
        ctv_eqi(p->getConstraintsCount(), c.size(), "number of constraints");
        if ((long)p->getConstraintsCount() != c.size()) return;
        VX v = VX::Zero(c.size()), a = v, b = v;
        Eigen::Map<VX> mv(v.data(), v.size()), ma(a.data(), a.size()), mb(b.data(), b.size());
        p->evaluateConstraints(mv);
        p->getConstraintBounds(ma, mb, c.size());
        ctv::eqm(v, c, "constraint values");
        ctv::eqm(a, l, "lower bounds of the constraints");
        ctv::eqm(b, u, "upper bounds of the constraints");
    }
    void checkJacobian()
    {
        VX c, l, u;
        MX G;
        constraints(c, G, l, u);
        long nz = p->getNonZeroJacobianCount();
        VX j = VX::Zero(nz);
        Eigen::VectorXi r = Eigen::VectorXi::Zero(nz), k = r;
        Eigen::Map<VX> mj(j.data(), nz);
        Eigen::Map<Eigen::VectorXi> mr(r.data(), nz), mk(k.data(), nz);
        p->getSparsityPatternJacobian(nz, mr, mk);
        p->evaluateConstraintJacobian(nz, mj);
        MX D = MX::Zero(G.rows(), G.cols());
        for (long i = 0; i < nz; i++)
        {
            ctv_check(r(i) >= 0 && r(i) < G.rows() && k(i) >= 0 && k(i) < G.cols(), "sparsity pattern within the Jacobian");
            D(r(i), k(i)) += j(i);
        }
        ctv::eqm(D, G, "constraint Jacobian");
    }
    void checkCost()
    {
        VX g;
        ctv_eq(p->evaluateCostFun(), cost(g), "cost");
    }
    void checkGradient()
    {
        VX g, v = VX::Zero(sp.w.size());
        cost(g);
        Eigen::Map<VX> m(v.data(), v.size());
        p->evaluateCostGradient(v.size(), m);
        ctv::eqm(v, g, "cost gradient");
    }
    void checkSolution()
    {
        auto& x = p->getStateSolution();
        auto& u = p->getInputSolution();
        auto& t = p->getTimeSolution();
        ctv_check(x.size() == sp.s.N_ + 1 && u.size() == sp.s.N_ + 1 && t.size() == sp.s.N_ + 1, "length of the solution");
        for (size_t i = 0; i <= sp.s.N_; i++)
        {
            ctv::eqm(x[i], sp.st(i), "states of the solution");
            ctv::eqm(u[i], sp.in(i), "controls of the solution");
            ctv_eq(t[i], i * sp.h(), "times of the solution");
        }
    }
    void checkAll(bool back)
    {
        if (back) checkGradient(), checkCost(), checkJacobian(), checkConstraints();
        else checkConstraints(), checkJacobian(), checkCost(), checkGradient();
        checkSolution();
    }
};
static DmsSettings settings(long N, long m)
{
    DmsSettings s;
    s.N_ = N;
    s.dt_sim_ = ctv::pos("dt");
    s.T_ = N * m * s.dt_sim_;
    s.nThreads_ = 1;
    s.splineType_ = (DmsSettings::SplineType_t)ctv_choose("spline", 0, 1);
    s.costEvaluationType_ = (DmsSettings::CostEvaluationType_t)ctv_choose("cost", 0, 1);
    return s;
}
extern "C" void proof_transcription_euler()
{
    long N = ctv_choose("N", 1, 3), m = ctv_choose("m", 1, 3);
    DmsSettings s = settings(N, m);
    s.integrationType_ = DmsSettings::EULER;
    Prob q;
    q.make(s, m);
    q.iterate();
    bool back = ctv_choose("order", 0, 1);
    q.checkAll(back);
    q.iterate(false);  // not a new point: nothing changes
    q.checkAll(!back);
    q.iterate();
    q.checkAll(back);
    ctv_cover("euler");
}
extern "C" void proof_transcription_rk4()
{
    long N = ctv_choose("N", 1, 2), m = ctv_choose("m", 1, 2);
    DmsSettings s = settings(N, m);
    s.integrationType_ = DmsSettings::RK4;
    Prob q;
    q.make(s, m);
    q.iterate();
    q.checkAll(ctv_choose("order", 0, 1));
    ctv_cover("rk4");
}
extern "C" void proof_path_constraints()
{
    DmsSettings s = settings(ctv_choose("N", 1, 2), 1);
    s.integrationType_ = DmsSettings::EULER;
    Prob q;
    q.kind = ctv_choose("constraints", 0, 7);
    q.make(s, 1);
    for (int i = 0; i < 2; i++)
    {
        q.iterate();
        q.checkJacobian();
        q.checkConstraints();
    }
    ctv_cover("path constraints");
}
// the problem data can be changed after construction
extern "C" void proof_changes()
{
    long N = ctv_choose("N", 1, 2), m2 = ctv_choose("m2", 1, 2);
    DmsSettings s = settings(N, 1);
    s.integrationType_ = DmsSettings::EULER;
    Prob q;
    q.make(s, 1);
    bool before = ctv_choose("before", 0, 1);
    if (before) q.iterate(), q.checkAll(false);
    ctv::fill(q.sp.x0, "x0new");
    q.p->changeInitialState(q.sp.x0);
    q.sp.m = m2, q.sp.s.T_ = N * m2 * s.dt_sim_;
    q.p->changeTimeHorizon(q.sp.s.T_);
    ctv_eq(q.p->getTimeHorizon(), q.sp.s.T_, "time horizon");
    q.iterate();
    q.checkAll(ctv_choose("order", 0, 1));
    ctv_cover("changes");
}
// initial guesses
extern "C" void proof_guess()
{
    long N = ctv_choose("N", 1, 3);
    DmsSettings s;
    s.N_ = N;
    OptVectorDms<NX, NU> w((N + 1) * NW, s);
    VX g = VX::Zero((N + 1) * NW);
    Eigen::Map<VX> m(g.data(), g.size());
    X a, b;
    U u;
    ctv::fill(a, "a"), ctv::fill(b, "b"), ctv::fill(u, "u");
    w.setInitGuess(a, b, u);
    w.getInitialGuess(g.size(), m);
    for (long i = 0; i <= N; i++)
    {
        X e = a + (b - a) * (double(i) / double(N));
        ctv::eqm(X(g.segment(i * NW, NX)), e, "guess: states on the line from start to goal");
        ctv_eq(g(i * NW + NX), u(0), "guess: constant control");
    }
    long k = ctv_choose("size", 0, 4), l = ctv_choose("usize", 0, 4);
    StateVectorArray<NX> xs(k);
    ControlVectorArray<NU> us(l);
    for (long i = 0; i < k; i++) ctv::fill(xs[i], "xs");
    for (long i = 0; i < l; i++) ctv::fill(us[i], "us");
    bool bad = ctv::throws([&]() { w.setInitGuess(xs, us); });
    ctv_check(bad == (k != N + 1 || l != N + 1), "guesses of the wrong length are rejected");
    if (bad) return;
    w.getInitialGuess(g.size(), m);
    for (long i = 0; i <= N; i++)
    {
        ctv::eqm(X(g.segment(i * NW, NX)), xs[i], "guess: states");
        ctv::eqm(U(g.segment(i * NW + NX, NU)), us[i], "guess: controls");
        ctv_eqi(w.getStateIndex(i), i * NW, "index of a state");
        ctv_eqi(w.getControlIndex(i), i * NW + NX, "index of a control");
    }
    X x;
    ctv::fill(x, "x");
    w.changeInitialState(x);
    ctv::eqm(w.getOptimizedState(0), x, "changed initial state");
    ctv::fill(x, "xf");
    w.changeDesiredState(x);
    ctv::eqm(w.getOptimizedState(N), x, "changed final state");
    ctv_cover("guess");
}
// control parameterisation
extern "C" void proof_splines()
{
    long N = ctv_choose("N", 1, 3), i = ctv_choose("shot", 0, 2);
    if (i >= N) return;
    double T = ctv::pos("T"), t = ctv_real("t");
    auto g = std::make_shared<TimeGrid>(N, T);
    LinearSpliner<U> l(g);
    ZeroOrderHoldSpliner<U> z(g);
    LinearSpliner<U>::vector_array_t q(N + 1);
    for (auto& v : q) ctv::fill(v, "q");
    l.computeSpline(q), z.computeSpline(q);
    double h = T / N, f = (t - i * h) / h;
    ctv_eq(g->getShotStartTime(i), i * h, "shot start");
    ctv_eq(g->getShotEndTime(i), (i + 1) * h, "shot end");
    ctv_eq(g->getShotDuration(i), h, "shot duration");
    ctv_eq(l.evalSpline(t, i)(0), (1 - f) * q[i](0) + f * q[i + 1](0), "linear spline");
    ctv_eq(l.splineDerivative_t(t, i)(0), (q[i + 1](0) - q[i](0)) / h, "linear spline: time derivative");
    ctv_eq(l.splineDerivative_q_i(t, i)(0), 1 - f, "linear spline: derivative by the first node");
    ctv_eq(l.splineDerivative_q_iplus1(t, i)(0), f, "linear spline: derivative by the second node");
    ctv_eq(l.splineDerivative_h_i(t, i)(0), -f * (q[i + 1](0) - q[i](0)) / h, "linear spline: derivative by the shot length");
    ctv_eq(z.evalSpline(t, i)(0), q[i](0), "hold");
    ctv_eq(z.splineDerivative_t(t, i)(0), 0, "hold: time derivative");
    ctv_eq(z.splineDerivative_h_i(t, i)(0), 0, "hold: derivative by the shot length");
    ctv_eq(z.splineDerivative_q_i(t, i)(0), 1, "hold: derivative by the first node");
    ctv_eq(z.splineDerivative_q_iplus1(t, i)(0), 0, "hold: derivative by the second node");
    long N2 = ctv_choose("N2", 1, 3);
    double T2 = ctv::pos("T2");
    g->changeShotCount(N2);
    g->changeTimeHorizon(T2);
    ctv_eqi(g->toImplementation().size(), N2 + 1, "grid length");
    for (long k = 0; k <= N2; k++) ctv_eq(g->toImplementation()[k], k * T2 / N2, "uniform grid");
    ctv_eq(g->getTimeHorizon(), T2, "horizon");
    ctv_eq(g->getOptimizedTimeHorizon(), T2, "horizon");
    VX hs(N2);
    ctv::fill(hs, "h");
    g->updateTimeGrid(hs);
    double e = 0;
    for (long k = 0; k <= N2; k++)
    {
        ctv_eq(g->toImplementation()[k], e, "non-uniform grid");
        if (k < N2) e += hs(k);
    }
    ctv_cover("splines");
}
