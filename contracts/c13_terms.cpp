// C13: cost terms: value = defining formula, analytic derivatives = derivatives of the value.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const int N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::Matrix<double, N, N> Q;
typedef Eigen::Matrix<double, M, M> R;
typedef Eigen::Matrix<double, M, N> P;
typedef TermBase<N, M> Term;
static double quad(const Q& q, const X& d)
{
    double s = 0;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) s += d(i) * q(i, j) * d(j);
    return s;
}
struct Pt
{
    X x, x0, w;
    U u, u0, v;
    Q q, r, p;
    double t;
    Pt()
    {
        ctv::fill(x, "x");
        ctv::fill(u, "u");
        ctv::fill(x0, "xref");
        ctv::fill(u0, "uref");
        ctv::fill(w, "a");
        ctv::fill(v, "b");
        ctv::fill(q, "Q");
        ctv::fill(r, "R");
        ctv::fill(p, "P");
        t = ctv_real("t");
    }
    X dx() const { X d; d << x(0) - x0(0), x(1) - x0(1); return d; }
    U du() const { U d; d << u(0) - u0(0), u(1) - u0(1); return d; }
};
static void derivatives(Term& T, const Pt& c)
{
    const X& x = c.x;
    const U& u = c.u;
    double t = c.t;
    X gx = T.stateDerivative(x, u, t);
    U gu = T.controlDerivative(x, u, t);
    auto hx = T.stateSecondDerivative(x, u, t);
    auto hu = T.controlSecondDerivative(x, u, t);
    auto hux = T.stateControlDerivative(x, u, t);
    for (int i = 0; i < 2; i++)
    {
        ctv_eq(gx(i), ctv::grad([&](const X& y) { return T.evaluate(y, u, t); }, x, i), "stateDerivative = dL/dx");
        ctv_eq(gu(i), ctv::grad([&](const U& y) { return T.evaluate(x, y, t); }, u, i), "controlDerivative = dL/du");
        for (int j = 0; j < 2; j++)
        {
            ctv_eq(hx(i, j), ctv::grad([&](const X& y) { return T.stateDerivative(y, u, t)(i); }, x, j), "stateSecondDerivative = d2L/dx2");
            ctv_eq(hu(i, j), ctv::grad([&](const U& y) { return T.controlDerivative(x, y, t)(i); }, u, j), "controlSecondDerivative = d2L/du2");
            ctv_eq(hux(i, j), ctv::grad([&](const X& y) { return T.controlDerivative(y, u, t)(i); }, x, j), "stateControlDerivative = d2L/dudx");
        }
    }
}
// value, derivatives, clone and time activation of one term
template <class F>
static void term(std::shared_ptr<Term> T, const Pt& c, double value, F&& perturb, bool deriv = true)
{
    double t1 = ctv_real("ton"), t2 = ctv_real("toff"), sl = ctv_real("slope"), v0 = ctv_real("v0");
    ctv_assume(t1 < t2);
    bool act = ctv_choose("activation", 0, 1);
    if (act) T->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(t1, t2, sl, v0)));
    T->setName("myterm");
    std::shared_ptr<Term> cl(T->clone());
    bool useClone = ctv_choose("clone", 0, 1);
    if (useClone)
    {
        perturb();  // changing the original afterwards must not show in the clone
        T = cl;
        ctv_check(T->getName() == "myterm", "clone keeps its name");
    }
    ctv_eq(T->evaluate(c.x, c.u, c.t), value, "value = defining formula");
    ctv_check(T->isActiveAtTime(c.t) == (!act || (c.t >= t1 && c.t < t2)), "active exactly in its interval");
    ctv_eq(T->eval(c.x, c.u, c.t), (act ? v0 + sl * (c.t - t1) : 1.0) * value, "eval = activation times value");
    if (deriv) derivatives(*T, c);
    ctv_cover("done");
}
extern "C" void proof_linear()
{
    Pt c;
    double k = ctv_real("c");
    std::shared_ptr<Term> T(new TermLinear<N, M>(c.w, c.v, k));
    term(T, c, c.w(0) * c.x(0) + c.w(1) * c.x(1) + c.v(0) * c.u(0) + c.v(1) * c.u(1) + k, [] {});
}
extern "C" void proof_quadratic()
{
    Pt c;
    std::shared_ptr<TermQuadratic<N, M>> T;
    long how = ctv_choose("how", 0, 2);
    if (how == 0) T.reset(new TermQuadratic<N, M>(c.q, c.r, c.x0, c.u0));
    if (how == 1)
    {
        T.reset(new TermQuadratic<N, M>(c.q, c.r));
        T->updateReferenceState(c.x0);
        T->updateReferenceControl(c.u0);
    }
    if (how == 2)
    {
        T.reset(new TermQuadratic<N, M>());
        T->setWeights(c.q, c.r);
        T->setStateAndControlReference(c.x0, c.u0);
    }
    ctv::eqm(T->getReferenceState(), c.x0, "getReferenceState");
    ctv::eqm(T->getStateWeight(), c.q, "getStateWeight");
    ctv::eqm(T->getControlWeight(), c.r, "getControlWeight");
    term(T, c, quad(c.q, c.dx()) + quad(c.r, c.du()), [&] { T->setWeights(2 * c.q, 3 * c.r); T->setStateAndControlReference(2 * c.x0, 2 * c.u0); });
}
extern "C" void proof_mixed()
{
    Pt c;
    std::shared_ptr<TermMixed<N, M>> T;
    long how = ctv_choose("how", 0, 1);
    if (how == 0) T.reset(new TermMixed<N, M>(c.p, c.x0, c.u0));
    if (how == 1)
    {
        T.reset(new TermMixed<N, M>());
        T->setWeights(c.p);
        T->setStateAndControlReference(c.x0, c.u0);
    }
    double v = 0;
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) v += c.du()(i) * c.p(i, j) * c.dx()(j);
    term(T, c, v, [&] { T->setWeights(2 * c.p); });
}
extern "C" void proof_quad_mult()
{
    Pt c;
    std::shared_ptr<TermQuadMult<N, M>> T;
    long how = ctv_choose("how", 0, 1);
    if (how == 0) T.reset(new TermQuadMult<N, M>(c.q, c.r, c.x0, c.u0));
    if (how == 1)
    {
        T.reset(new TermQuadMult<N, M>());
        T->setWeights(c.q, c.r);
        T->setStateAndControlReference(c.x0, c.u0);
    }
    term(T, c, quad(c.q, c.dx()) * quad(c.r, c.du()), [&] { T->setWeights(2 * c.q, 3 * c.r); });
}
extern "C" void proof_quad_tracking()
{
    Pt c;
    // references: two samples each, linearly interpolated at times 0 and 1 (interpolation itself is C03)
    StateTrajectory<N> xt(LIN);
    ControlTrajectory<M> ut(LIN);
    X x1;
    U u1;
    ctv::fill(x1, "xref1");
    ctv::fill(u1, "uref1");
    xt.push_back(c.x0, 0.0, true);
    xt.push_back(x1, 1.0, true);
    ut.push_back(c.u0, 0.0, true);
    ut.push_back(u1, 1.0, true);
    ctv_assume(c.t >= 0 && c.t < 1);
    bool track = ctv_choose("track control", 0, 1);
    std::shared_ptr<TermQuadTracking<N, M>> T(new TermQuadTracking<N, M>(c.q, c.r, LIN, LIN, track));
    T->setStateAndControlReference(xt, ut);
    X dx;
    U du;
    for (int i = 0; i < 2; i++)
    {
        dx(i) = c.x(i) - (c.x0(i) + c.t * (x1(i) - c.x0(i)));
        du(i) = c.u(i) - (track ? c.u0(i) + c.t * (u1(i) - c.u0(i)) : 0.0);
    }
    term(T, c, quad(c.q, dx) + quad(c.r, du), [&] { T->setWeights(2 * c.q, 3 * c.r); });
}
extern "C" void proof_smooth_abs()
{
    Pt c;
    double al = ctv::pos("alpha");
    std::shared_ptr<Term> T(new TermSmoothAbs<N, M>(c.w, c.x0, c.v, c.u0, al));
    double v = 0;
    for (int i = 0; i < 2; i++)
        v += c.w(i) * std::sqrt(c.dx()(i) * c.dx()(i) + al * al) + c.v(i) * std::sqrt(c.du()(i) * c.du()(i) + al * al);
    term(T, c, v, [] {});
}
extern "C" void proof_state_barrier()
{
    Pt c;
    X al;
    for (int i = 0; i < 2; i++) al(i) = ctv::pos("alpha");
    ctv_assume(c.w(0) >= c.x0(0) && c.w(1) >= c.x0(1));
    std::shared_ptr<Term> T(new TermStateBarrier<N, M>(c.w, c.x0, al));
    double v = 0;
    for (int i = 0; i < 2; i++) v += std::exp(al(i) * (c.x(i) - c.w(i))) + std::exp(al(i) * (c.x0(i) - c.x(i)));
    term(T, c, v, [] {}, false);
}
