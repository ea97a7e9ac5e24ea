// C23: nonlinear programs: constraints, bounds, Jacobians and Hessians of all parts are stacked exactly; the decision
// vector, its bounds, guesses and multipliers are handed through unchanged.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::optcon;
typedef Eigen::VectorXd VX;
typedef Eigen::VectorXi VI;
typedef Eigen::MatrixXd MX;
typedef Eigen::Map<VX> MV;
typedef Eigen::Map<VI> MI;

static double fun(const char* s, double tag, double i, const VX& x, double l = 0)
{
    double v[5] = {tag, i, x(0), x(1), l};
    return ctv_uf(s, 5, v);
}
// which entries a part has (bit r*2+c)
struct Pattern
{
    int bits;
    int count() const { int n = 0; for (int i = 0; i < 4; i++) n += bits >> i & 1; return n; }
    void put(VI& r, VI& c, int rows) const
    {
        int n = 0;
        for (int i = 0; i < 2 * rows; i++)
            if (bits >> i & 1) r(n) = i / 2, c(n) = i % 2, n++;
    }
};
struct Con : public DiscreteConstraintBase  // an arbitrary constraint of 1 or 2 rows in two variables
{
    std::shared_ptr<OptVector> w;
    int tag, rows;
    Pattern jac, hes;
    bool* ready;
    VX eval() override { ctv_check(*ready, "evaluation is prepared first"); VX r(rows); for (int i = 0; i < rows; i++) r(i) = fun("c", tag, i, w->getOptimizationVars()); return r; }
    VX evalSparseJacobian() override
    {
        ctv_check(*ready, "evaluation is prepared first");
        VX r(jac.count());
        int n = 0;
        for (int i = 0; i < 2 * rows; i++) if (jac.bits >> i & 1) r(n++) = fun("J", tag, i, w->getOptimizationVars());
        return r;
    }
    size_t getConstraintSize() override { return rows; }
    size_t getNumNonZerosJacobian() override { return jac.count(); }
    void genSparsityPattern(VI& r, VI& c) override { jac.put(r, c, rows); }
    void genSparsityPatternHessian(VI& r, VI& c) override { r.resize(hes.count()), c.resize(hes.count()), hes.put(r, c, 2); }
    void sparseHessianValues(const VX& x, const VX& l, VX& h) override
    {
        ctv_eqi(l.size(), rows, "one multiplier per row");
        h.resize(hes.count());
        int n = 0;
        for (int i = 0; i < 4; i++) if (hes.bits >> i & 1) h(n++) = value(x, l, i);
    }
    double value(const VX& x, const VX& l, int i) { double v = 0; for (int k = 0; k < rows; k++) v += l(k) * fun("H", tag, 4 * k + i, x); return v; }
    VX getLowerBound() override { return VX::Constant(rows, fun("lb", tag, 0, VX::Zero(2))); }
    VX getUpperBound() override { return VX::Constant(rows, fun("ub", tag, 0, VX::Zero(2))); }
};
struct Box : public DiscreteConstraintContainerBase
{
    bool ready = false, readyJ = false;
    void prepareEvaluation() override { ready = true; }
    void prepareJacobianEvaluation() override { ready = true; }
    void add(std::shared_ptr<DiscreteConstraintBase> c) { this->constraints_.push_back(c); }
};
struct CostEv : public DiscreteCostEvaluatorBase
{
    std::shared_ptr<OptVector> w;
    Pattern hes;
    double eval() override { return fun("cost", 0, 0, w->getOptimizationVars()); }
    void evalGradient(size_t n, MV& g) override { for (size_t i = 0; i < n; i++) g(i) = fun("grad", 0, i, w->getOptimizationVars()); }
    void getSparsityPatternHessian(VI& r, VI& c) override { r.resize(hes.count()), c.resize(hes.count()), hes.put(r, c, 2); }
    void sparseHessianValues(const VX& x, const VX& o, VX& h) override
    {
        h.resize(hes.count());
        int n = 0;
        for (int i = 0; i < 4; i++) if (hes.bits >> i & 1) h(n++) = o(0) * fun("HJ", 0, i, x);
    }
};
struct Prog : public Nlp
{
    int updates = 0;
    void updateProblem() override { updates++; }
    void set(std::shared_ptr<OptVector> w, std::shared_ptr<CostEv> c, std::shared_ptr<Box> b) { optVariables_ = w, costEvaluator_ = c, constraints_ = b; }
};
struct All
{
    std::shared_ptr<OptVector> w = std::make_shared<OptVector>(2);
    std::shared_ptr<CostEv> cost = std::make_shared<CostEv>();
    std::shared_ptr<Box> box = std::make_shared<Box>();
    std::vector<std::shared_ptr<Con>> con;
    Prog p;
    VX x;
    void add(int tag, int rows, int jac, int hes)
    {
        auto c = std::make_shared<Con>();
        c->w = w, c->tag = tag, c->rows = rows, c->jac.bits = jac, c->hes.bits = hes, c->ready = &box->ready;
        con.push_back(c), box->add(c);
    }
    void go(bool isNew)
    {
        cost->w = w;
        p.set(w, cost, box);
        point(isNew);
    }
    void point(bool isNew)
    {
        VX n(2);
        ctv::fill(n, "x");
        Eigen::Map<const VX> m(n.data(), 2);
        int u = p.updates;
        p.extractOptimizationVars(m, isNew);
        ctv_eqi(p.updates, u + isNew, "the problem is updated for a new point only");
        if (isNew) x = n;
        box->ready = false;
    }
};
extern "C" void proof_stacking()
{
    All a;
    int n = ctv_choose("constraints", 0, 3), m = 0, nz = 0;
    for (int i = 0; i < n; i++)
    {
        int rows = ctv_choose("rows", 1, 2);
        a.add(i, rows, i == 1 ? (rows == 2 ? 6 : 1) : ctv_choose("pattern", 0, rows == 2 ? 15 : 3), 0);
        m += rows, nz += a.con[i]->jac.count();
    }
    a.go(true);
    for (int round = 0; round < 2; round++)
    {
        ctv_eqi(a.p.getConstraintsCount(), m, "number of constraints");
        ctv_eqi(a.p.getNonZeroJacobianCount(), nz, "number of Jacobian entries");
        ctv_eqi(a.p.getVarCount(), 2, "number of variables");
        VX v = VX::Zero(m), l = v, u = v, j = VX::Zero(nz), g = VX::Zero(2);
        VI r = VI::Zero(nz), c = r;
        MV mv(v.data(), m), ml(l.data(), m), mu(u.data(), m), mj(j.data(), nz), mg(g.data(), 2);
        MI mr(r.data(), nz), mc(c.data(), nz);
        if (round) a.p.evaluateConstraintJacobian(nz, mj), a.box->ready = false, a.p.evaluateConstraints(mv);
        else a.p.evaluateConstraints(mv), a.box->ready = false, a.p.evaluateConstraintJacobian(nz, mj);
        a.p.getConstraintBounds(ml, mu, m);
        a.p.getSparsityPatternJacobian(nz, mr, mc);
        a.p.evaluateCostGradient(2, mg);
        ctv_eq(a.p.evaluateCostFun(), fun("cost", 0, 0, a.x), "cost");
        for (int i = 0; i < 2; i++) ctv_eq(g(i), fun("grad", 0, i, a.x), "gradient");
        int row = 0, k = 0;
        for (auto& q : a.con)
        {
            for (int i = 0; i < q->rows; i++)
            {
                ctv_eq(v(row + i), fun("c", q->tag, i, a.x), "constraint values");
                ctv_eq(l(row + i), fun("lb", q->tag, 0, VX::Zero(2)), "lower bounds");
                ctv_eq(u(row + i), fun("ub", q->tag, 0, VX::Zero(2)), "upper bounds");
            }
            for (int i = 0; i < 2 * q->rows; i++)
                if (q->jac.bits >> i & 1)
                {
                    ctv_eqi(r(k), row + i / 2, "row of a Jacobian entry");
                    ctv_eqi(c(k), i % 2, "column of a Jacobian entry");
                    ctv_eq(j(k), fun("J", q->tag, i, a.x), "Jacobian entry");
                    k++;
                }
            row += q->rows;
        }
        VX v2 = VX::Zero(m);
        a.box->evalConstraints(v2);
        ctv::eqm(v2, v, "both evaluation functions agree");
        a.point(round == 0 ? false : true);
    }
    ctv_cover("stacking");
}
extern "C" void proof_hessian()
{
    All a;
    a.add(0, 1, 1, ctv_choose("hes0", 0, 15));
    a.add(1, 2, 1, ctv_choose("hes1", 0, 1) ? 9 : 6);
    a.cost->hes.bits = ctv_choose("hesJ", 0, 15);
    a.go(true);
    long nz = a.p.getNonZeroHessianCount();
    VI r = VI::Zero(nz), c = r;
    MI mr(r.data(), nz), mc(c.data(), nz);
    a.p.getSparsityPatternHessian(nz, mr, mc);
    for (int round = 0; round < 2; round++)
    {
        VX h = VX::Zero(nz), lam(3);
        MV mh(h.data(), nz);
        ctv::fill(lam, "lambda");
        Eigen::Map<const VX> ml(lam.data(), 3);
        double o = ctv_real("o");
        a.p.evaluateHessian(nz, mh, o, ml);
        MX D = MX::Zero(2, 2), E = D;
        for (long i = 0; i < nz; i++)
        {
            ctv_check(r(i) >= c(i) && r(i) < 2 && c(i) >= 0, "Hessian pattern: lower triangle");
            for (long k = 0; k < i; k++) ctv_check(r(k) != r(i) || c(k) != c(i), "Hessian pattern: every entry once");
            D(r(i), c(i)) += h(i);
        }
        for (int i = 0; i < 4; i++)
        {
            if (i % 2 > i / 2) continue;
            if (a.con[0]->hes.bits >> i & 1) E(i / 2, i % 2) += a.con[0]->value(a.x, lam.head(1), i);
            if (a.con[1]->hes.bits >> i & 1) E(i / 2, i % 2) += a.con[1]->value(a.x, lam.tail(2), i);
            if (a.cost->hes.bits >> i & 1) E(i / 2, i % 2) += o * fun("HJ", 0, i, a.x);
        }
        ctv::eqm(D, E, "Hessian of the Lagrangian (lower triangle)");
        a.point(true);
    }
    ctv_cover("hessian");
}
extern "C" void proof_variables()
{
    long n = ctv_choose("n", 1, 3), m = ctv_choose("m", 0, 2);
    auto w = std::make_shared<OptVector>(n);
    Prog p;
    VX v = VX::Zero(n), l = v, u = v, e = VX::Zero(m + 1);
    VI s = VI::Zero(n), es = VI::Zero(m + 1);
    MV mv(v.data(), n), ml(l.data(), n), mu(u.data(), n), me(e.data(), m + 1);
    MI ms(s.data(), n), mes(es.data(), m + 1);
    Eigen::Map<const VX> cv(v.data(), n);
    ctv_check(ctv::throws([&]() { p.getVarCount(); }) && ctv::throws([&]() { p.getConstraintsCount(); }) && ctv::throws([&]() { p.evaluateCostFun(); }) &&
                  ctv::throws([&]() { p.evaluateConstraints(mv); }) && ctv::throws([&]() { p.evaluateCostGradient(n, mv); }) && ctv::throws([&]() { p.getInitialGuess(n, mv); }) &&
                  ctv::throws([&]() { p.extractOptimizationVars(cv, true); }) && ctv::throws([&]() { p.getVariableBounds(ml, mu, n); }) && ctv::throws([&]() { p.getNonZeroJacobianCount(); }),
        "an incomplete program is rejected");
    p.set(w, nullptr, nullptr);
    w->resizeConstraintVars(m);
    ctv_eqi(p.getVarCount(), n, "number of variables");
    VX a(n), b(n), g(n), x(n);
    ctv::fill(a, "a"), ctv::fill(b, "b"), ctv::fill(g, "g"), ctv::fill(x, "x");
    w->setBounds(a, b);
    p.getVariableBounds(ml, mu, n);
    ctv::eqm(l, a, "lower bounds of the variables");
    ctv::eqm(u, b, "upper bounds of the variables");
    w->setInitialGuess(g);
    p.getInitialGuess(n, mv);
    ctv::eqm(v, g, "initial guess");
    ctv::eqm(w->getOptimizationVars(), g, "the guess is the first point");
    size_t k = w->getUpdateCount();
    w->setOptimizationVars(x);
    ctv::eqm(w->getOptimizationVars(), x, "variables");
    ctv_eqi(w->getUpdateCount(), k + 1, "updates are counted");
    p.getInitialGuess(n, mv);
    ctv::eqm(v, g, "the guess stays");
    // solutions of the two solver interfaces
    VX zl(n), zu(n), la(m), x2(n);
    ctv::fill(zl, "zl"), ctv::fill(zu, "zu"), ctv::fill(la, "la"), ctv::fill(x2, "x2");
    Eigen::Map<const VX> cx(x2.data(), n), cl(zl.data(), n), cu(zu.data(), n), ca(la.data(), m);
    p.extractIpoptSolution(cx, cl, cu, ca);
    ctv::eqm(w->getOptimizationVars(), x2, "solution");
    p.getBoundMultipliers(n, ml, mu);
    ctv::eqm(l, zl, "lower bound multipliers");
    ctv::eqm(u, zu, "upper bound multipliers");
    VX la2 = VX::Zero(m);
    MV mla(la2.data(), m);
    p.getLambdaVars(m, mla);
    ctv::eqm(la2, la, "constraint multipliers");
    VX x3(n), xm(n), fm(m + 1);
    VI xs(n), fs(m + 1);
    ctv::fill(x3, "x3"), ctv::fill(xm, "xm"), ctv::fill(fm, "fm");
    for (long i = 0; i < n; i++) xs(i) = i + 1;
    for (long i = 0; i <= m; i++) fs(i) = 7 + i;
    MV mx3(x3.data(), n), mxm(xm.data(), n), mfm(fm.data(), m + 1);
    MI mxs(xs.data(), n), mfs(fs.data(), m + 1);
    p.extractSnoptSolution(mx3, mxm, mxs, mfm, mfs);
    ctv::eqm(w->getOptimizationVars(), x3, "solution");
    p.getOptimizationMultState(n, mv, ms);
    p.getConstraintsMultState(m + 1, me, mes);
    ctv::eqm(v, xm, "multipliers of the variables");
    ctv::eqm(e, fm, "multipliers of the constraints");
    for (long i = 0; i < n; i++) ctv_eqi(s(i), i + 1, "states of the variables");
    for (long i = 0; i <= m; i++) ctv_eqi(es(i), 7 + i, "states of the constraints");
    ctv_check(w->checkOptimizationVarDimension(n) && !w->checkOptimizationVarDimension(n + 1), "dimension check");
    w->resizeOptimizationVars(n + 1);
    ctv_check(w->checkOptimizationVarDimension(n + 1) && w->size() == size_t(n + 1), "resized");
    w->setZero();
    VX zz = VX::Ones(n + 1);
    MV mz(zz.data(), n + 1);
    w->getOptimizationVars(n + 1, mz);
    ctv::eqm(zz, VX::Zero(n + 1), "zeroed");
    ctv_cover("variables");
}
