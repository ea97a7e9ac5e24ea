// C14: cost functions are the activation-weighted sum of their terms, consistently in value and derivatives.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const int N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::Matrix<double, N, N> Q;
typedef TermBase<N, M> Term;
typedef CostFunctionAnalytical<N, M> CF;
// an arbitrary term: every function it offers is uninterpreted
struct UT : public Term
{
    int id;
    X ref;
    U uref;
    UT(int i) : Term("t" + std::to_string(i)), id(i) { ref.setZero(); uref.setZero(); }
    UT(const UT& o) : Term(o), id(o.id), ref(o.ref), uref(o.uref) {}
    UT* clone() const override { return new UT(*this); }
    double F(const char* n, const X& x, const U& u, double t, int k) const
    {
        double a[] = {(double)id, (double)k, x(0), x(1), u(0), u(1), t, ref(0), ref(1), uref(0), uref(1)};
        return ctv::uf(n, a);
    }
    double evaluate(const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, M, 1>& u, const double& t) override { return F("L", x, u, t, 0); }
    X stateDerivative(const X& x, const U& u, const double& t) override { X r; for (int i = 0; i < 2; i++) r(i) = F("Lx", x, u, t, i); return r; }
    U controlDerivative(const X& x, const U& u, const double& t) override { U r; for (int i = 0; i < 2; i++) r(i) = F("Lu", x, u, t, i); return r; }
    Q stateSecondDerivative(const X& x, const U& u, const double& t) override { Q r; for (int i = 0; i < 4; i++) r(i) = F("Lxx", x, u, t, i); return r; }
    Q controlSecondDerivative(const X& x, const U& u, const double& t) override { Q r; for (int i = 0; i < 4; i++) r(i) = F("Luu", x, u, t, i); return r; }
    Q stateControlDerivative(const X& x, const U& u, const double& t) override { Q r; for (int i = 0; i < 4; i++) r(i) = F("Lux", x, u, t, i); return r; }
    void updateReferenceState(const Eigen::Matrix<double, N, 1>& r) override { ref = r; }
    void updateReferenceControl(const Eigen::Matrix<double, M, 1>& r) override { uref = r; }
};
struct Sum
{
    double v = 0;
    X x;
    U u;
    Q xx, uu, ux;
    Sum() { x.setZero(), u.setZero(), xx.setZero(), uu.setZero(), ux.setZero(); }
    void add(double w, UT& t, const X& px, const U& pu, double pt)
    {
        v += w * t.evaluate(px, pu, pt);
        X a = t.stateDerivative(px, pu, pt);
        U b = t.controlDerivative(px, pu, pt);
        Q c = t.stateSecondDerivative(px, pu, pt), d = t.controlSecondDerivative(px, pu, pt), e = t.stateControlDerivative(px, pu, pt);
        for (int i = 0; i < 2; i++) x(i) += w * a(i), u(i) += w * b(i);
        for (int i = 0; i < 4; i++) xx(i) += w * c(i), uu(i) += w * d(i), ux(i) += w * e(i);
    }
};
static void same(CF& c, const Sum& I, const Sum& T)
{
    ctv_eq(c.evaluateIntermediate(), I.v, "intermediate cost");
    ctv::eqm(c.stateDerivativeIntermediate(), I.x, "intermediate state gradient");
    ctv::eqm(c.controlDerivativeIntermediate(), I.u, "intermediate control gradient");
    ctv::eqm(c.stateSecondDerivativeIntermediate(), I.xx, "intermediate state Hessian");
    ctv::eqm(c.controlSecondDerivativeIntermediate(), I.uu, "intermediate control Hessian");
    ctv::eqm(c.stateControlDerivativeIntermediate(), I.ux, "intermediate mixed Hessian");
    ctv_eq(c.evaluateTerminal(), T.v, "terminal cost");
    ctv::eqm(c.stateDerivativeTerminal(), T.x, "terminal state gradient");
    ctv::eqm(c.controlDerivativeTerminal(), T.u, "terminal control gradient");
    ctv::eqm(c.stateSecondDerivativeTerminal(), T.xx, "terminal state Hessian");
    ctv::eqm(c.controlSecondDerivativeTerminal(), T.uu, "terminal control Hessian");
    ctv::eqm(c.stateControlDerivativeTerminal(), T.ux, "terminal mixed Hessian");
}
extern "C" void proof_weighted_sum()
{
    CF c;
    X x;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t"), sh = 0;
    long n = ctv_choose("intermediate terms", 0, 3), m = ctv_choose("final terms", 0, 2);
    if (ctv_choose("shift", 0, 1)) c.shiftTime(sh = ctv_real("shift"));
    std::vector<std::shared_ptr<UT>> ti, tf;
    std::vector<double> w;
    for (long i = 0; i < n; i++)
    {
        std::shared_ptr<UT> T(new UT(i));
        double wt = 1;
        if (i != 1)  // the second term keeps the default activation
        {
            double on = ctv_real("on"), off = ctv_real("off"), k = ctv_real("slope"), v = ctv_real("start");
            ctv_assume(on < off);
            T->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(on, off, k, v)));
            wt = (t + sh >= on && t + sh < off) ? v + k * (t + sh - on) : 0.0;
        }
        w.push_back(wt);
        ti.push_back(T);
        ctv_eqi(c.addIntermediateTerm(T), i, "term id");
    }
    for (long i = 0; i < m; i++)
    {
        std::shared_ptr<UT> T(new UT(10 + i));
        tf.push_back(T);
        ctv_eqi(c.addFinalTerm(T), i, "term id");
    }
    Sum I, T;
    for (long i = 0; i < n; i++) I.add(w[i], *ti[i], x, u, t + sh);
    for (long i = 0; i < m; i++) T.add(1, *tf[i], x, u, t + sh);
    c.setCurrentStateAndControl(x, u, t);
    bool cl = ctv_choose("clone", 0, 1);
    if (!cl)
        same(c, I, T);
    else
    {
        std::shared_ptr<CF> d(c.clone());  // independent copy, evaluation point included
        X z;
        ctv::fill(z, "z");
        c.setCurrentStateAndControl(z, u, t);
        c.updateReferenceState(z);
        c.updateFinalState(z);
        same(*d, I, T);
    }
    ctv_cover("done");
}
extern "C" void proof_references_and_lookup()
{
    CF c;
    X x, r, f;
    U u, v;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    ctv::fill(r, "r");
    ctv::fill(f, "f");
    ctv::fill(v, "v");
    double t = ctv_real("t");
    std::shared_ptr<UT> a(new UT(0)), b(new UT(1)), g(new UT(2)), h(new UT(3));
    c.addIntermediateTerm(a);
    c.addIntermediateTerm(b);
    c.addFinalTerm(g);
    c.addFinalTerm(h);
    ctv_check(c.getIntermediateTermById(1) == b && c.getFinalTermById(1) == h, "lookup by id");
    ctv_check(c.getIntermediateTermByName("t1") == b && c.getFinalTermByName("t3") == h, "lookup by name");
    ctv_check(ctv::throws([&] { c.getIntermediateTermByName("t2"); }), "unknown name rejected");
    ctv_check(ctv::throws([&] { c.getFinalTermByName("t1"); }), "unknown name rejected");
    c.updateReferenceState(r);
    c.updateFinalState(f);
    c.updateReferenceControl(v);
    for (auto& T : {a, b}) { ctv::eqm(T->ref, r, "reference state reaches every intermediate term"); ctv::eqm(T->uref, v, "reference control reaches every intermediate term"); }
    for (auto& T : {g, h}) { ctv::eqm(T->ref, f, "final state reaches every final term"); ctv::eqm(T->uref, U::Zero().eval(), "final terms keep their control reference"); }
    ctv_cover("done");
}
// numerical derivatives: exact for affine costs (one-sided) and quadratic costs (double-sided); evaluation point kept
struct NumCF : public CF
{
    void mode(bool d) { this->doubleSidedDerivative_ = d; }
    X dx() { return this->stateDerivativeIntermediateNumDiff(); }
    U du() { return this->controlDerivativeIntermediateNumDiff(); }
};
extern "C" void proof_numerical_derivatives()
{
    bool dbl = ctv_choose("double", 0, 1), shift = ctv_choose("shift", 0, 1);
    NumCF c;
    X x, a, x2;
    U u, b, u2;
    Q q, r;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    ctv::fill(a, "a");
    ctv::fill(b, "b");
    double t = ctv_real("t"), k = ctv_real("k"), on = ctv_real("on"), sl = ctv_real("slope"), v0 = ctv_real("v0"), sh = shift ? ctv_real("shift") : 0.0, tt;
    ctv_assume(t + sh >= on && t + sh + sh >= on);
    if (shift) c.shiftTime(sh);
    std::shared_ptr<TermLinear<N, M>> T(new TermLinear<N, M>(a, b, k));
    T->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(on, 1e9, sl, v0)));
    ctv_assume(t + sh < 1e9 && t + sh + sh < 1e9);
    c.addIntermediateTerm(T);
    c.mode(dbl);
    c.setCurrentStateAndControl(x, u, t);
    double w = v0 + sl * (t + sh - on);
    X d = c.dx();
    for (int i = 0; i < 2; i++) ctv_eq(d(i), w * a(i), "numerical state gradient of an affine cost");
    c.getCurrentStateAndControl(x2, u2, tt);
    ctv::eqm(x2, x, "evaluation point unchanged");
    ctv::eqm(u2, u, "evaluation point unchanged");
    ctv_eq(tt, t + sh, "evaluation time unchanged");
    U e = c.du();
    for (int i = 0; i < 2; i++) ctv_eq(e(i), w * b(i), "numerical control gradient of an affine cost");
    c.getCurrentStateAndControl(x2, u2, tt);
    ctv::eqm(x2, x, "evaluation point unchanged");
    ctv::eqm(u2, u, "evaluation point unchanged");
    ctv_eq(tt, t + sh, "evaluation time unchanged");
    ctv_cover("done");
}
static double quad(const Q& q, const X& d)
{
    double s = 0;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) s += d(i) * q(i, j) * d(j);
    return s;
}
extern "C" void proof_quadratic_simple()
{
    X x, xn, xf, z;
    U u, un;
    Q q, r, qf;
    ctv::fill(x, "x");
    ctv::fill(z, "z");
    ctv::fill(u, "u");
    ctv::fill(xn, "xn");
    ctv::fill(un, "un");
    ctv::fill(xf, "xf");
    ctv::fillsym(q, "Q");
    ctv::fillsym(r, "R");
    ctv::fillsym(qf, "Qf");
    double t = ctv_real("t");
    std::shared_ptr<CostFunctionQuadraticSimple<N, M>> c;
    long how = ctv_choose("how", 0, 3);
    if (how == 3)  // default-constructed: no cost
    {
        c.reset(new CostFunctionQuadraticSimple<N, M>());
        q.setZero(), r.setZero(), qf.setZero();
    }
    else
        c.reset(new CostFunctionQuadraticSimple<N, M>(q, r, how == 1 ? z : xn, un, how == 1 ? z : xf, qf));
    if (how == 1)
    {
        c->updateReferenceState(xn);
        c->updateFinalState(xf);
    }
    c->setCurrentStateAndControl(x, u, t);
    if (how == 2)
    {
        std::shared_ptr<CostFunctionQuadraticSimple<N, M>> d(c->clone());
        c->setCurrentStateAndControl(z, u, t);
        c->updateReferenceState(z);
        c = d;
    }
    X dx, df;
    U du;
    for (int i = 0; i < 2; i++) dx(i) = x(i) - xn(i), df(i) = x(i) - xf(i), du(i) = u(i) - un(i);
    ctv_eq(c->evaluateIntermediate(), 0.5 * quad(q, dx) + 0.5 * quad(r, du), "intermediate = 1/2 dx'Q dx + 1/2 du'R du");
    ctv_eq(c->evaluateTerminal(), 0.5 * quad(qf, df), "terminal = 1/2 dx'Qf dx");
    for (int i = 0; i < 2; i++)
    {
        ctv_eq(c->stateDerivativeIntermediate()(i), q(i, 0) * dx(0) + q(i, 1) * dx(1), "intermediate state gradient");
        ctv_eq(c->controlDerivativeIntermediate()(i), r(i, 0) * du(0) + r(i, 1) * du(1), "intermediate control gradient");
        ctv_eq(c->stateDerivativeTerminal()(i), qf(i, 0) * df(0) + qf(i, 1) * df(1), "terminal state gradient");
    }
    ctv::eqm(c->stateSecondDerivativeIntermediate(), q, "intermediate state Hessian");
    ctv::eqm(c->controlSecondDerivativeIntermediate(), r, "intermediate control Hessian");
    ctv::eqm(c->stateControlDerivativeIntermediate(), Q::Zero().eval(), "mixed Hessian");
    ctv::eqm(c->stateSecondDerivativeTerminal(), qf, "terminal Hessian");
    ctv_cover("done");
}
