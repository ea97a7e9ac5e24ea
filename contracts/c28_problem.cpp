// C28: problem description, settings and the interface between the nonlinear solvers and continuous-time systems.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
typedef NLOptConSettings St;
typedef Eigen::Matrix<double, 1, 1> M1;
typedef SensitivityApproximationSettings::APPROXIMATION Appr;
template <class T> static T vec(double v) { T m; m << v; return m; }
static std::shared_ptr<CostFunctionAnalytical<1, 1>> cost()
{
    auto c = std::make_shared<CostFunctionAnalytical<1, 1>>();
    c->initialize();
    return c;
}
struct Dyn : public DiscreteControlledSystem<1, 1>
{
    Dyn* clone() const override { return new Dyn(*this); }
    void propagateControlledDynamics(const StateVector<1>& x, const int n, const ControlVector<1>& u, StateVector<1>& xn) override { xn = x; }
};
struct Lin : public DiscreteLinearSystem<1, 1>
{
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const StateVector<1>&, const ControlVector<1>&, const StateVector<1>&, const int, size_t, StateMatrix<1>& A, StateControlMatrix<1, 1>& B) override {}
};
static St settings()
{
    St s;
    s.lineSearchSettings.type = LineSearchSettings::NONE;
    s.nThreads = 1, s.nThreadsEigen = 1;
    s.printSummary = false;
    s.dt = ctv::pos("dt");
    return s;
}
// ---- the interface between solver and continuous-time system: every step of length dt starts at n dt, is integrated with K_sim substeps under a constant control,
// and its sensitivities are those of that map (or the chosen approximation of it); settings and systems can be exchanged
static double F(const char* f, double x, double u, double t) { double v[3] = {x, u, t}; return ctv_uf(f, 3, v); }
struct NDyn : public ControlledSystem<1, 1>
{
    const char* f;
    NDyn(const char* f) : f(f) {}
    NDyn* clone() const override { return new NDyn(*this); }
    void computeControlledDynamics(const StateVector<1>& x, const double& t, const ControlVector<1>& u, StateVector<1>& dx) override { dx << F(f, x(0), u(0), t); }
};
struct NLin : public LinearSystem<1, 1>
{
    const char *a, *b;
    StateMatrix<1> A;
    StateControlMatrix<1, 1> B;
    NLin(const char* a, const char* b) : a(a), b(b) {}
    NLin* clone() const override { return new NLin(*this); }
    const StateMatrix<1>& getDerivativeState(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { A << F(a, x(0), u(0), t); return A; }
    const StateControlMatrix<1, 1>& getDerivativeControl(const StateVector<1>& x, const ControlVector<1>& u, const double t) override { B << F(b, x(0), u(0), t); return B; }
};
typedef OptconContinuousSystemInterface<1, 1, 0, 0> CIf;
static double stepSpec(const char* f, bool rk4, double x, double u, double t, double h)
{
    double k1 = F(f, x, u, t);
    if (!rk4) return x + h * k1;
    double k2 = F(f, x + h / 2 * k1, u, t + h / 2), k3 = F(f, x + h / 2 * k2, u, t + h / 2), k4 = F(f, x + h * k3, u, t + h);
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
extern "C" void proof_interface()
{
    St s = settings();
    bool rk4 = ctv_choose("rk4", 0, 1), sens = ctv_choose("sens", 0, 1);
    s.integrator = rk4 ? IntegrationType::RK4CT : IntegrationType::EULERCT;
    s.useSensitivityIntegrator = sens;
    s.timeVaryingDiscretization = sens && ctv_bool("varying");
    s.K_sim = ctv_choose("Ksim", 1, rk4 ? 1 : 2);
    s.discretization = ctv_bool("be") ? Appr::BACKWARD_EULER : Appr::FORWARD_EULER;
    ContinuousOptConProblem<1, 1> prob(s.dt, vec<StateVector<1>>(0.0), std::make_shared<NDyn>("f"), cost(), std::make_shared<NLin>("fx", "fu"));
    CIf I(prob, s);
    I.initialize();
    const char *f = "f", *fa = "fx", *fb = "fu";
    long what = ctv_choose("what", 0, 3);
    if (what == 1)
    {
        f = "g", fa = "gx", fb = "gu";
        I.changeNonlinearSystem(std::make_shared<NDyn>("g"));
        I.changeLinearSystem(std::make_shared<NLin>("gx", "gu"));
    }
    if (what == 2)
    {
        s.dt = ctv::pos("dt2"), s.K_sim = 3 - s.K_sim;
        s.discretization = s.discretization == Appr::BACKWARD_EULER ? Appr::FORWARD_EULER : Appr::BACKWARD_EULER;
        I.configure(s);
    }
    if (what == 3)
    {
        St w = s;
        if (ctv_bool("threads")) w.nThreads = 2;
        else w.integrator = IntegrationType::EULER;
        ctv_check(ctv::throws([&] { I.configure(w); }), "another number of threads or integrator is rejected");
        ctv_check(ctv::throws([&] { I.changeNonlinearSystem(nullptr); }), "missing dynamics are rejected");
        ctv_check(ctv::throws([&] { I.changeLinearSystem(nullptr); }), "missing linear system is rejected");
    }
    long n = ctv_choose("n", 0, 2), th = ctv_choose("thread", 0, 1);
    if (rk4 && s.K_sim == 2) ctv_assume(n == 1 && th == 0);
    StateVector<1> x, xn;
    ControlVector<1> u;
    x << ctv_real("x"), u << ctv_real("u");
    if (ctv_bool("before"))  // an earlier step with another control has no influence
    {
        ControlVector<1> w;
        w << ctv_real("w");
        I.propagateControlledDynamics(x, n + 1, w, xn, th);
    }
    I.propagateControlledDynamics(x, n, u, xn, th);
    double h = s.dt / s.K_sim, y = x(0), A = 1, B = 0;
    CIf::StateVectorArrayPtr xs;
    CIf::ControlVectorArrayPtr us;
    I.getSubstates(xs, th);
    I.getSubcontrols(us, th);
    ctv_check((long)xs->size() >= s.K_sim && (long)us->size() >= s.K_sim, "substeps are recorded");
    for (long i = 0; i < s.K_sim; i++)
    {
        if (!rk4 || i == 0) ctv_eq((*xs)[i](0), y, "recorded substate");
        ctv_eq((*us)[i](0), u(0), "recorded control");
        double t = n * s.dt + i * h;
        if (!rk4)
        {
            bool v = s.timeVaryingDiscretization;  // linearised along the substeps, or at the beginning of the step
            double xl = v ? y : x(0), tl = v ? t : n * s.dt;
            double a = 1 + h * F(fa, xl, u(0), tl), b = h * F(fb, xl, u(0), tl);
            B = a * B + b, A = a * A;
        }
        y = stepSpec(f, rk4, y, u(0), t, h);
    }
    ctv_eq(xn(0), y, "a step integrates the dynamics from n dt over dt with K_sim substeps");
    if (sens && rk4) { ctv_cover("propagation"); return; }  // RK4 sensitivities: C09 and the solver proofs above
    auto X = std::make_shared<std::vector<CIf::StateVectorArrayPtr, Eigen::aligned_allocator<CIf::StateVectorArrayPtr>>>();
    auto U = std::make_shared<std::vector<CIf::ControlVectorArrayPtr, Eigen::aligned_allocator<CIf::ControlVectorArrayPtr>>>();
    for (long k = 0; k <= n; k++) X->push_back(xs), U->push_back(us);
    I.setSubstepTrajectoryReference(X, U, th);
    StateMatrix<1> Am;
    StateControlMatrix<1, 1> Bm;
    I.getAandB(x, u, xn, n, s.K_sim, Am, Bm, th);
    if (!sens)
    {
        double a = F(fa, x(0), u(0), n * s.dt), b = F(fb, x(0), u(0), n * s.dt);
        if (s.discretization == Appr::FORWARD_EULER) A = 1 + s.dt * a, B = s.dt * b;
        else
        {
            a = F(fa, x(0), u(0), (n + 1) * s.dt), b = F(fb, x(0), u(0), (n + 1) * s.dt);
            ctv_assume(s.dt * a != 1.0);
            A = 1 / (1 - s.dt * a), B = A * s.dt * b;
        }
    }
    ctv_eq(Am(0), A, "state sensitivity of the step");
    ctv_eq(Bm(0), B, "control sensitivity of the step");
    ctv_cover("interface");
}
// ---- problem description and settings
template <class P, class D, class L>
static void problem(std::shared_ptr<D> dyn, std::shared_ptr<L> lin, std::shared_ptr<D> dyn2, std::shared_ptr<L> lin2, double tf, double tf2)
{
    typedef ConstraintContainerAnalytical<1, 1> C;
    std::shared_ptr<CostFunctionQuadratic<1, 1>> ca = cost(), cb = cost();
    std::shared_ptr<LinearConstraintContainer<1, 1>> c1 = std::make_shared<C>(), c2 = std::make_shared<C>(), c3 = std::make_shared<C>();
    StateVector<1> x0 = vec<StateVector<1>>(ctv_real("x0")), x1 = vec<StateVector<1>>(ctv_real("x1"));
    long ctor = ctv_choose("ctor", 0, 3);
    bool timed = ctor == 1 || ctor == 3, constrained = ctor >= 2, own = ctv_bool("lin");
    std::shared_ptr<L> none;
    std::shared_ptr<L> l = own ? lin : none;
    P p = ctor == 0 ? P(dyn, ca, l) : ctor == 1 ? P(tf, x0, dyn, ca, l) : ctor == 2 ? P(dyn, ca, c1, c2, c3, l) : P(tf, x0, dyn, ca, c1, c2, c3, l);
    ctv_check(p.getNonlinearSystem() == dyn, "dynamics");
    ctv_check(p.getCostFunction() == ca, "cost function");
    ctv_check(own ? p.getLinearSystem() == lin : (bool)p.getLinearSystem(), "linear system: the given one or a numerical linearisation");
    ctv_eq(p.getTimeHorizon(), timed ? tf : 0.0, "time horizon");
    ctv_eq(p.getInitialState()(0), timed ? x0(0) : 0.0, "initial state");
    ctv_check(p.getInputBoxConstraints() == (constrained ? c1 : nullptr), "input constraints");
    ctv_check(p.getStateBoxConstraints() == (constrained ? c2 : nullptr), "state constraints");
    ctv_check(p.getGeneralConstraints() == (constrained ? c3 : nullptr), "general constraints");
    ctv_check(ctv::throws([&] { p.verify(); }) == (p.getTimeHorizon() < 0), "a negative horizon is rejected");
    p.setTimeHorizon(tf2), p.setInitialState(x1), p.setCostFunction(cb), p.setNonlinearSystem(dyn2), p.setLinearSystem(lin2);
    p.setGeneralConstraints(c1), p.setInputBoxConstraints(c2), p.setStateBoxConstraints(c3);
    ctv_check(p.getNonlinearSystem() == dyn2 && p.getLinearSystem() == lin2 && p.getCostFunction() == cb, "exchanged systems and cost");
    ctv_check(p.getGeneralConstraints() == c1 && p.getInputBoxConstraints() == c2 && p.getStateBoxConstraints() == c3, "exchanged constraints");
    ctv_check(c1->isInitialized() && c2->isInitialized() && c3->isInitialized(), "constraints set later are ready for use");
    ctv_eq(p.getTimeHorizon(), tf2, "exchanged time horizon");
    ctv_eq(p.getInitialState()(0), x1(0), "exchanged initial state");
    long miss = ctv_choose("missing", 0, 2);
    if (miss == 0) p.setNonlinearSystem(nullptr);
    if (miss == 1) p.setLinearSystem(nullptr);
    if (miss == 2) p.setCostFunction(nullptr);
    p.setTimeHorizon(tf2 < 0 ? -tf2 : tf2);
    ctv_check(ctv::throws([&] { p.verify(); }), "an incomplete problem is rejected");
    ctv_cover("problem");
}
// the sensitivity integrator exists for the Euler and RK4 integrators only; the others need the approximation
extern "C" void proof_interface_rejects()
{
    static const IntegrationType all[] = {IntegrationType::EULER, IntegrationType::EULERCT, IntegrationType::RK4, IntegrationType::RK4CT,
        IntegrationType::MODIFIED_MIDPOINT, IntegrationType::ODE45, IntegrationType::RK5VARIABLE,
        IntegrationType::RK78, IntegrationType::BULIRSCHSTOER};
    St s = settings();
    long i = ctv_choose("integrator", 0, 8);
    s.integrator = all[i];
    s.useSensitivityIntegrator = ctv_choose("sens", 0, 1);
    ContinuousOptConProblem<1, 1> prob(s.dt, vec<StateVector<1>>(0.0), std::make_shared<NDyn>("f"), cost(), std::make_shared<NLin>("fx", "fu"));
    bool t = ctv::throws([&] {
        CIf I(prob, s);
        I.initialize();
    });
    ctv_check(t == (s.useSensitivityIntegrator && i >= 4), "rejected exactly when no sensitivity integrator exists");
    ctv_cover("interface rejects");
}
extern "C" void proof_problem_continuous()
{
    problem<ContinuousOptConProblem<1, 1>, ControlledSystem<1, 1>, LinearSystem<1, 1>>(std::make_shared<NDyn>("f"), std::make_shared<NLin>("a", "b"), std::make_shared<NDyn>("g"), std::make_shared<NLin>("c", "d"),
        ctv_real("tf"), ctv_real("tf2"));
}
extern "C" void proof_problem_discrete()
{
    problem<DiscreteOptConProblem<1, 1>, DiscreteControlledSystem<1, 1>, DiscreteLinearSystem<1, 1>>(
        std::make_shared<Dyn>(), std::make_shared<Lin>(), std::make_shared<Dyn>(), std::make_shared<Lin>(), ctv_int("tf", -5, 5), ctv_int("tf2", -5, 5));
}
extern "C" void proof_settings()
{
    St s;
    s.dt = ctv_real("dt");
    double T = ctv_real("T");
    s.K_sim = ctv_int("Ksim", -3, 3), s.K_shot = ctv_int("Kshot", -3, 3), s.nThreads = ctv_int("threads", 0, 200);
    s.nlocp_algorithm = (St::NLOCP_ALGORITHM)ctv_choose("alg", 0, 6);
    auto& l = s.lineSearchSettings;
    l.alpha_0 = ctv_real("alpha0"), l.n_alpha = ctv_real("n_alpha"), l.alpha_max = ctv_real("alpha_max");
    bool ok = s.dt > 0 && s.K_sim > 0 && s.K_shot > 0 && !(s.K_shot > 1 && s.nlocp_algorithm == St::ILQR) && s.nThreads <= 100 && l.alpha_0 > 0 && l.alpha_max > 0 && l.n_alpha > 0 && l.n_alpha < 1;
    ctv_check(s.parametersOk() == ok, "exactly the meaningful parameters are accepted");
    auto a = s.nlocp_algorithm;
    ctv_check(s.closedLoopShooting() == (a == St::ILQR || a == St::MS_ILQR || a == St::SS_CL || a == St::GNMS_M_CL), "closed-loop algorithms");
    ctv_check(s.isSingleShooting() == (a == St::ILQR || a == St::SS_OL || a == St::SS_CL), "single-shooting algorithms");
    if (!ok) return;
    ctv_eq(s.getSimulationTimestep() * s.K_sim, s.dt, "K_sim simulation steps make up one control step");
    if (T < 0)
        ctv_check(ctv::throws([&] { s.computeK(T); }), "a negative horizon is rejected");
    else
    {
        ctv_assume(T < 1000.0 * s.dt);
        int K = s.computeK(T);
        ctv_check(K >= 1, "at least one stage");
        ctv_check(K == 1 ? T < 1.5 * s.dt : K * s.dt - T <= 0.5 * s.dt && T - K * s.dt <= 0.5 * s.dt, "the number of stages is the horizon in control steps, rounded");
    }
    ctv_cover("settings");
}
