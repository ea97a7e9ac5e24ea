// C27: the solver front end with its real components (NLOptConSolver, algorithms, backend, Riccati solver, analytic cost function, system interface) solves
// a linear-quadratic problem exactly with one full step, from any guess, whichever algorithm is selected.
#include "ctv.h"
#define CTV_EIG1
#include "eigen_contracts.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
typedef NLOptConSettings St;
typedef std::vector<double> V;
typedef Eigen::Matrix<double, 1, 1> M1;

struct Data { V a, b, c; } static data;
struct Dyn : public DiscreteControlledSystem<1, 1>
{
    Data d;
    Dyn(const Data& d) : d(d) {}
    Dyn* clone() const override { return new Dyn(*this); }
    void propagateControlledDynamics(const StateVector<1>& x, const int n, const ControlVector<1>& u, StateVector<1>& xn) override
    {
        ctv_check(n >= 0 && n < (int)d.a.size(), "dynamics are evaluated within the horizon");
        xn << d.a[n] * x(0) + d.b[n] * u(0) + d.c[n];
    }
};
struct Lin : public DiscreteLinearSystem<1, 1>
{
    Data d;
    Lin(const Data& d) : d(d) {}
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const StateVector<1>& x, const ControlVector<1>& u, const StateVector<1>& xn, const int n, size_t, StateMatrix<1>& A, StateControlMatrix<1, 1>& B) override
    {
        ctv_check(n >= 0 && n < (int)d.a.size(), "dynamics are linearised within the horizon");
        A << d.a[n], B << d.b[n];
    }
};
struct LQ  // the problem: x+ = a x + b u + c, sum of dt (q (x-xr)^2 + r (u-ur)^2) + qf (x_N-xf)^2
{
    long K;
    double dt, q, r, qf, xr, ur, xf, x0;
    Data d;
    std::shared_ptr<CostFunctionAnalytical<1, 1>> cost;
    LQ(long K, double dt, bool numbers = false) : K(K), dt(dt)
    {
        q = ctv_real("q"), r = ctv_real("r"), qf = ctv_real("qf"), xr = ctv_real("xr"), ur = ctv_real("ur"), xf = ctv_real("xf"), x0 = ctv_real("x0");
        if (numbers) q = 3, r = 2, qf = 5;  // longer horizons: fixed weights, everything else arbitrary
        cost = std::make_shared<CostFunctionAnalytical<1, 1>>();
        cost->addIntermediateTerm(std::make_shared<TermQuadratic<1, 1>>(mat(q), mat(r), vec<StateVector<1>>(xr), vec<ControlVector<1>>(ur)));
        cost->addFinalTerm(std::make_shared<TermQuadratic<1, 1>>(mat(qf), mat(0.0), vec<StateVector<1>>(xf), vec<ControlVector<1>>(0.0)));
        cost->initialize();
    }
    static M1 mat(double v) { M1 m; m << v; return m; }
    template <class T> static T vec(double v) { T m; m << v; return m; }
    void arbitrary()
    {
        for (long k = 0; k < K; k++) d.a.push_back(ctv_real("a")), d.b.push_back(ctv_real("b")), d.c.push_back(ctv_real("c"));
    }
    void constant(double a, double b, double c) { d.a.assign(K, a), d.b.assign(K, b), d.c.assign(K, c); }
    // convexity in every control given optimal successors (the Hessian the solver inverts)
    void convex()
    {
        double S = 2 * qf;
        for (long k = K - 1; k >= 0; k--)
        {
            double H = 2 * r * dt + d.b[k] * d.b[k] * S;
            ctv_assume(H > 0.0);
            S = 2 * q * dt + d.a[k] * d.a[k] * S - (d.a[k] * d.b[k] * S) * (d.a[k] * d.b[k] * S) / H;
        }
    }
    template <class S>
    void optimal(S& s)
    {
        auto x = s.getStateTrajectory();
        auto u = s.getControlTrajectory();
        ctv_eqi(x.size(), K + 1, "number of states");
        ctv_eqi(u.size(), K, "number of controls");
        ctv_eq(x[0](0), x0, "the trajectory starts at the initial state");
        double J = 0, lam = 2 * qf * (x[K](0) - xf);
        for (long k = 0; k < K; k++)
        {
            ctv_eq(x[k + 1](0), d.a[k] * x[k](0) + d.b[k] * u[k](0) + d.c[k], "the trajectory satisfies the dynamics");
            J += dt * (q * (x[k](0) - xr) * (x[k](0) - xr) + r * (u[k](0) - ur) * (u[k](0) - ur));
            ctv_eq(s.getTimeArray()[k], k * dt, "time grid");
        }
        for (long k = K - 1; k >= 0; k--)
        {
            ctv_eq(2 * dt * r * (u[k](0) - ur) + d.b[k] * lam, 0.0, "the cost is stationary in the control");
            lam = 2 * dt * q * (x[k](0) - xr) + d.a[k] * lam;
        }
        ctv_eq(s.getCost(), J + qf * (x[K](0) - xf) * (x[K](0) - xf), "the reported cost is that of the trajectory");
    }
    // the feedback policy is optimal around the trajectory: gain = -H^-1 G of the Riccati recursion
    template <class S>
    void policy(S& s)
    {
        auto& p = s.getSolution();
        double Sx = 2 * qf;
        for (long k = K - 1; k >= 0; k--)
        {
            double H = 2 * r * dt + d.b[k] * d.b[k] * Sx, G = d.a[k] * d.b[k] * Sx;
            ctv_eq(p.K()[k](0), -G / H, "the feedback gain is the optimal one");
            Sx = 2 * q * dt + d.a[k] * d.a[k] * Sx - G * G / H;
        }
    }
};
static St settings(long alg)
{
    St s;
    s.nlocp_algorithm = (St::NLOCP_ALGORITHM)alg;
    s.lineSearchSettings.type = LineSearchSettings::NONE;
    s.nThreads = 1, s.nThreadsEigen = 1;
    s.printSummary = false;
    s.fixedHessianCorrection = true, s.epsilon = 0.0;
    s.dt = ctv::pos("dt");
    return s;
}
template <class S>
static void guess(S& s, long K, double x0, double dt, bool gains)
{
    StateVectorArray<1> xs(K + 1);
    ControlVectorArray<1> us(K);
    FeedbackArray<1, 1> fb(K);
    for (long k = 0; k <= K; k++)
    {
        xs[k] << (k ? ctv_real("xg") : x0);
        if (k < K) us[k] << ctv_real("ug"), fb[k] << (gains ? ctv_real("Lg") : 0.0);
    }
    s.setInitialGuess(StateFeedbackController<1, 1>(xs, us, fb, dt));
}
typedef NLOptConSolver<1, 1, 1, 1, double, false> DSolver;
extern "C" void proof_discrete_one_step()
{
    long alg = ctv_choose("alg", 0, 6), K = ctv_choose("K", 1, 2);
    St s = settings(alg);
    bool multi = !s.isSingleShooting();
    s.K_shot = multi ? ctv_choose("K_shot", 1, K) : 1;
    if (K > 1) s.dt = 0.5;
    LQ p(K, s.dt, K > 1);
    p.arbitrary();
    p.convex();
    DiscreteOptConProblem<1, 1> prob(K, LQ::vec<StateVector<1>>(p.x0), std::make_shared<Dyn>(p.d), p.cost, std::make_shared<Lin>(p.d));
    DSolver sol(prob, s);
    guess(sol, K, p.x0, s.dt, true);
    sol.runIteration();
    p.optimal(sol);
    if (s.closedLoopShooting()) p.policy(sol);
    ctv_cover("one full step solves the linear-quadratic problem");
}
extern "C" void proof_discrete_second()
{
    long alg = ctv_choose("alg", 0, 6), K = 1;
    St s = settings(alg);
    LQ p(K, s.dt);
    p.arbitrary();
    p.convex();
    DiscreteOptConProblem<1, 1> prob(K, LQ::vec<StateVector<1>>(p.x0), std::make_shared<Dyn>(p.d), p.cost, std::make_shared<Lin>(p.d));
    DSolver sol(prob, s);
    guess(sol, K, p.x0, s.dt, false);
    sol.runIteration();
    sol.runIteration();
    p.optimal(sol);
    ctv_cover("the optimum is a fixed point");
}
extern "C" void proof_discrete_solve()
{
    long alg = ctv_choose("alg", 0, 6), K = 1;
    St s = settings(alg);
    s.max_iterations = ctv_choose("max_iterations", 1, 3);
    LQ p(K, s.dt);
    p.arbitrary();
    p.convex();
    DiscreteOptConProblem<1, 1> prob(K, LQ::vec<StateVector<1>>(p.x0), std::make_shared<Dyn>(p.d), p.cost, std::make_shared<Lin>(p.d));
    DSolver sol(prob, s);
    guess(sol, K, p.x0, s.dt, false);
    ctv_check(sol.solve(), "a solution is reported");
    p.optimal(sol);
    ctv_cover("solve");
}
// whatever is exchanged after a first solution, the next iterate solves the new problem
static void changes(long what)
{
    long alg = ctv_choose("alg", 0, 6);
    long K = what == 4 ? 2 : 1;
    St s = settings(alg);
    if (K > 1) s.dt = 0.5;
    LQ p(K, s.dt, K > 1);
    p.arbitrary();
    p.convex();
    DiscreteOptConProblem<1, 1> prob(K, LQ::vec<StateVector<1>>(p.x0), std::make_shared<Dyn>(p.d), p.cost, std::make_shared<Lin>(p.d));
    DSolver sol(prob, s);
    guess(sol, K, p.x0, s.dt, false);
    sol.runIteration();
    LQ n(what == 4 ? 1 : K, s.dt, K > 1);
    n.arbitrary();
    if (what == 0)  // initial state
    {
        double x = n.x0;
        n = p, n.x0 = x;
        sol.changeInitialState(LQ::vec<StateVector<1>>(x));
    }
    if (what == 1)  // cost function
    {
        n.d = p.d, n.x0 = p.x0;
        sol.changeCostFunction(n.cost);
    }
    if (what == 2)  // dynamics and their linearisation
    {
        Data d = n.d;
        n = p, n.d = d;
        sol.changeNonlinearSystem(std::make_shared<Dyn>(d));
        sol.changeLinearSystem(std::make_shared<Lin>(d));
    }
    if (what == 3)  // settings: another algorithm
    {
        n = p;
        s.nlocp_algorithm = (St::NLOCP_ALGORITHM)ctv_choose("alg2", 0, 6);
        sol.configure(s);
        ctv_eqi(sol.getSettings().nlocp_algorithm, s.nlocp_algorithm, "the new settings are in force");
    }
    if (what == 4)  // shorter horizon
    {
        Data d;
        d.a = {p.d.a[0]}, d.b = {p.d.b[0]}, d.c = {p.d.c[0]};
        long K1 = 1;
        n = p, n.K = K1, n.d = d;
        sol.changeTimeHorizon(K1 * s.dt);
        ctv_eq(sol.getTimeHorizon(), K1 * s.dt, "the new horizon is in force");
    }
    n.convex();
    if (what >= 2) guess(sol, n.K, n.x0, s.dt, false);
    sol.runIteration();
    n.optimal(sol);
    ctv_cover("changed problem is solved");
}
extern "C" void proof_discrete_new_state_cost() { changes(ctv_choose("what", 0, 1)); }
extern "C" void proof_discrete_new_system() { changes(2); }
extern "C" void proof_discrete_new_settings_horizon() { changes(ctv_choose("what", 3, 4)); }
// ---- continuous-time problems
struct CDyn : public ControlledSystem<1, 1>
{
    double a, b, c;
    CDyn(double a, double b, double c) : a(a), b(b), c(c) {}
    CDyn* clone() const override { return new CDyn(*this); }
    void computeControlledDynamics(const StateVector<1>& x, const double& t, const ControlVector<1>& u, StateVector<1>& dx) override { dx << a * x(0) + b * u(0) + c; }
};
struct CLin : public LinearSystem<1, 1>
{
    StateMatrix<1> A;
    StateControlMatrix<1, 1> B;
    CLin(double a, double b) { A << a, B << b; }
    CLin* clone() const override { return new CLin(*this); }
    const StateMatrix<1>& getDerivativeState(const StateVector<1>&, const ControlVector<1>&, const double) override { return A; }
    const StateControlMatrix<1, 1>& getDerivativeControl(const StateVector<1>&, const ControlVector<1>&, const double) override { return B; }
};
typedef NLOptConSolver<1, 1, 0, 0, double, true> CSolver;
typedef SensitivityApproximationSettings::APPROXIMATION Appr;
static void continuous(long alg, long K, IntegrationType integ, long Ksim, bool sens, bool numA)
{
    St s = settings(alg);
    s.integrator = integ, s.K_sim = Ksim, s.useSensitivityIntegrator = sens, s.timeVaryingDiscretization = false;
    s.discretization = Appr::FORWARD_EULER;
    if (numA) s.dt = 0.5;
    LQ p(K, s.dt, numA || K > 1);
    double a = ctv_real("a"), b = ctv_real("b"), c = ctv_real("c");
    if (numA) a = 2;
    double h = s.dt / Ksim, A = 1, B = 0, C = 0;  // discrete map of the integrator: x -> A x + B u + C
    for (long i = 0; i < Ksim; i++)
    {
        double g, e;
        if (integ == IntegrationType::EULER || integ == IntegrationType::EULERCT)
            e = 1 + a * h, g = h;
        else
        {
            double z = a * h;
            e = 1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24, g = h * (1 + z / 2 + z * z / 6 + z * z * z / 24);
        }
        A = e * A, B = e * B + g * b, C = e * C + g * c;
    }
    p.constant(A, B, C);
    p.convex();
    ContinuousOptConProblem<1, 1> prob(K * s.dt, LQ::vec<StateVector<1>>(p.x0), std::make_shared<CDyn>(a, b, c), p.cost, std::make_shared<CLin>(a, b));
    CSolver sol(prob, s);
    guess(sol, K, p.x0, s.dt, true);
    sol.runIteration();
    p.optimal(sol);
    if (s.closedLoopShooting()) p.policy(sol);
    ctv_cover("continuous-time problem solved");
}
extern "C" void proof_continuous_euler() { continuous(ctv_choose("alg", 0, 6), 1, ctv_bool("ct") ? IntegrationType::EULERCT : IntegrationType::EULER, 1, false, false); }
extern "C" void proof_continuous_euler2() { continuous(ctv_choose("alg", 0, 6), 2, IntegrationType::EULERCT, 1, false, true); }
extern "C" void proof_continuous_rk4() { continuous(ctv_choose("alg", 0, 6), 1, ctv_bool("ct") ? IntegrationType::RK4CT : IntegrationType::RK4, ctv_choose("Ksim", 1, 2), true, true); }
extern "C" void proof_continuous_euler_sens() { continuous(ctv_choose("alg", 0, 6), 1, IntegrationType::EULERCT, ctv_choose("Ksim", 1, 2), true, false); }
