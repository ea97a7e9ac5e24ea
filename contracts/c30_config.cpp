// C30: what a configuration file says is what the loaded object does.
#include "ctv.h"
#include "ptree_standin.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
using ctv_cfg::File;
using ctv_cfg::put;
static const int N = 2, M = 1;
typedef StateVector<N> X;
typedef ControlVector<M> U;
static File& file(const char* n)
{
    ctv_cfg::files().push_back(File{n, {}});
    return ctv_cfg::files().back();
}
static double real(File& f, const std::string& p)
{
    double v = ctv_real(p.c_str());
    put(f, p, v);
    return v;
}
static long integer(File& f, const std::string& p, long hi = 1)
{
    long v = ctv_int(p.c_str(), 0, hi);
    put(f, p, v);
    return v;
}
// a matrix in the file: every entry present except (0,0) where `hole`, which then counts as zero; scaled where `scaled`
template <class T>
static void matrix(File& f, const std::string& p, T& m, bool scaled, bool hole)
{
    double s = scaled ? real(f, p + ".scaling") : 1.0;
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            m(i, j) = hole && i == 0 && j == 0 ? 0.0 : s * real(f, p + ".(" + std::to_string(i) + "," + std::to_string(j) + ")");
}
extern "C" void proof_scalars_and_matrices()
{
    file("other");
    File& f = file("cfg");
    double a = real(f, "ns.a"), b = real(f, "b"), d = ctv_real("default");
    Eigen::Matrix<double, 2, 3> m, r;
    Eigen::Matrix<double, 2, 1> v, w;
    Eigen::MatrixXd dm(2, 2), dr(2, 2);
    bool scaled = ctv_choose("scaled", 0, 1), hole = ctv_choose("hole", 0, 1);
    matrix(f, "ns.m", m, scaled, hole);
    matrix(f, "v", v, false, false);
    double s = ctv_real("junk");
    loadScalar("cfg", "b", s);
    ctv_eq(s, b, "scalar");
    loadScalar("cfg", "a", s, "ns.");
    ctv_eq(s, a, "scalar in a namespace");
    loadScalarOptional("cfg", "a", s, d, "ns.");
    ctv_eq(s, a, "optional scalar that is present");
    loadScalarOptional("cfg", "a", s, d);
    ctv_eq(s, d, "optional scalar that is missing");
    s = 17;
    ctv_check(ctv::throws([&] { loadScalar("cfg", "a", s); }), "missing scalar rejected");
    ctv_check(ctv::throws([&] { loadScalar("nofile", "b", s); }), "missing file rejected");
    ctv_check(ctv::throws([&] { loadScalar("other", "b", s); }), "another file");
    ctv_eq(s, 17, "a rejected load changes nothing");
    ctv::fill(r, "junk r");
    loadMatrix("cfg", "m", r, "ns.");
    ctv::eqm(r, m, "matrix");
    ctv::fill(w, "junk w");
    loadMatrix("cfg", "v", w);
    ctv::eqm(w, v, "vector");
    ctv_cover("scalars");
}
extern "C" void proof_activations()
{
    File& f = file("cfg");
    double t = ctv_real("t");
    double on = real(f, "s.t_on"), off = real(f, "s.t_off"), slope = real(f, "s.slope"), start = real(f, "s.startVal");
    SingleActivation s;
    s.loadConfigFile("cfg", "s");
    ctv_check(s.isActive(t) == (on <= t && t < off), "single activation loaded");
    LinearActivation l;
    l.loadConfigFile("cfg", "s");
    ctv_check(l.isActive(t) == (on <= t && t < off), "linear activation loaded");
    ctv_eq(l.computeActivation(t), start + slope * (t - on), "linear ramp loaded");
    double mu = real(f, "g.mu"), sg = real(f, "g.sigma");
    ctv_assume(sg > 0);
    RBFGaussActivation g, h(mu, sg);
    g.loadConfigFile("cfg", "g");
    ctv_eq(g.computeActivation(t), h.computeActivation(t), "Gaussian loaded");
    ctv_check(g.isActive(t), "Gaussian is always active");
    ctv_check(ctv::throws([&] { l.loadConfigFile("cfg", "g"); }), "missing parameters rejected");
    ctv_cover("activations");
}
extern "C" void proof_periodic_activation()
{
    File& f = file("cfg");
    double pct = real(f, "p.active_percentage"), P = real(f, "p.period"), ao = real(f, "p.activation_offset"), po = real(f, "p.period_offset"), te = real(f, "p.t_end");
    ctv_assume(pct > 0 && pct <= 1 && P > 0 && ao >= 0);
    PeriodicActivation p;
    bool bad = ctv::throws([&] { p.loadConfigFile("cfg", "p"); });
    ctv_check(bad == (ao + pct * P > P), "rejected exactly when the active part does not fit in the period");
    if (bad) return;
    double ph = ctv_real("phase");
    ctv_assume(ph >= 0 && ph < P);
    long k = ctv_choose("k", 0, 2);
    double t = po + k * P + ph;
    ctv_check(p.isActive(t) == (ao <= ph && ph < ao + pct * P && t < te), "periodic activation loaded");
    ctv_cover("periodic");
}
extern "C" void proof_barrier_activation()
{
    File& f = file("cfg");
    long which = ctv_choose("bounds", 0, 3);
    double al = real(f, "b.alpha"), ub = 0, lb = 0;
    if (which & 1) ub = real(f, "b.upper_bound");
    if (which & 2) lb = real(f, "b.lower_bound");
    double z = ctv_real("z");
    BarrierActivation b;
    bool bad = ctv::throws([&] { b.loadConfigFile("cfg", "b"); });
    ctv_check(bad == (al < 0 || (which == 3 && lb > ub)), "rejected exactly when the bounds are crossed or alpha is negative");
    if (bad) return;
    double e = 0;
    if (which & 1) e += std::exp(al * (z - ub));
    if (which & 2) e += std::exp(al * (lb - z));
    ctv_eq(b.computeActivation(z), e, "barrier over exactly the bounds in the file");
    ctv_cover("barrier");
}
template <class T>
static void same(T& a, T& b, const X& x, const U& u, double t)
{
    ctv_eq(a.evaluate(x, u, t), b.evaluate(x, u, t), "the loaded term has the value of the term built from the same parameters");
}
extern "C" void proof_terms()
{
    File& f = file("cfg");
    bool sc = ctv_choose("scaled", 0, 1), hole = ctv_choose("hole", 0, 1);
    StateMatrix<N> q;
    ControlMatrix<M> r;
    FeedbackMatrix<N, M> p;
    X x, xd, a, xr;
    U u, ud, b, ur;
    matrix(f, "t.weights.Q", q, sc, hole);
    matrix(f, "t.weights.R", r, sc, false);
    matrix(f, "t.weights.P", p, sc, hole);
    matrix(f, "t.weights.x_des", xd, false, hole);
    matrix(f, "t.weights.u_des", ud, false, false);
    matrix(f, "t.weights.a", a, sc, hole);
    matrix(f, "t.weights.b", b, false, false);
    matrix(f, "t.weights.x_ref", xr, false, false);
    matrix(f, "t.weights.u_ref", ur, false, hole);
    double al = real(f, "t.weights.alpha"), t = ctv_real("t");
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    long which = ctv_choose("term", 0, 6);
    if (which == 0)
    {
        TermQuadratic<N, M> l, e(q, r, xd, ud);
        l.loadConfigFile("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 1)
    {
        TermLinear<N, M> l, e(a, b);
        l.loadConfigFile("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 2)
    {
        TermMixed<N, M> l, e(p, xd, ud);
        l.loadConfigFile("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 3)
    {
        TermQuadMult<N, M> l, e(q, r, xd, ud);
        l.loadConfigFile("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 4)
    {
        TermSmoothAbs<N, M> l, e(a, xr, b, ur, al);
        l.loadConfigFile("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 5)
    {
        TermQuadratic<N, M> e(q, r, xd, ud), l("cfg", "t");
        same(l, e, x, u, t);
    }
    if (which == 6)
    {
        StateTrajectory<N> xs;
        ControlTrajectory<M> us;
        xs.push_back(xd, 0.0, true);
        us.push_back(ud, 0.0, true);
        TermQuadTracking<N, M> e(q, r, LIN, LIN, true), l(StateMatrix<N>::Zero(), ControlMatrix<M>::Zero(), LIN, LIN, true);
        l.loadConfigFile("cfg", "t");
        e.setStateAndControlReference(xs, us);
        l.setStateAndControlReference(xs, us);
        same(l, e, x, u, t);
    }
    ctv_cover("terms");
}
// a cost function file: term0, term1, ... each with its kind, place (0 intermediate, 1 final), weights and time activation
extern "C" void proof_cost_function()
{
    File& f = file("cfg");
    bool act = ctv_choose("activation", 0, 1), swap = ctv_choose("places swapped", 0, 1);
    StateMatrix<N> q;
    ControlMatrix<M> r;
    X x, xd, a;
    U u, ud, b;
    long bad = ctv_choose("bad", 0, 2);
    put(f, "term0.kind", ctv_choose("spelling", 0, 1) ? "Quadratic" : "quadratic");
    put(f, "term0.type", (long)swap);
    matrix(f, "term0.weights.Q", q, true, false);
    matrix(f, "term0.weights.R", r, false, false);
    matrix(f, "term0.weights.x_des", xd, false, false);
    matrix(f, "term0.weights.u_des", ud, false, false);
    double on = 0, off = 0, sl = 0, sv = 0;
    if (act)
    {
        put(f, "term0.time_activation.kind", "linear");
        on = real(f, "term0.time_activation.t_on"), off = real(f, "term0.time_activation.t_off");
        sl = real(f, "term0.time_activation.slope"), sv = real(f, "term0.time_activation.startVal");
    }
    put(f, "term1.kind", bad == 1 ? "cubic" : "linear");
    put(f, "term1.type", bad == 2 ? 2L : (long)!swap);
    matrix(f, "term1.weights.a", a, false, false);
    matrix(f, "term1.weights.b", b, true, false);
    put(f, "term3.kind", "linear");  // not consecutive: not part of the cost function
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t");
    if (bad)
    {
        ctv_check(ctv::throws([&] { CostFunctionAnalytical<N, M> c("cfg"); }), "unknown kind or place rejected");
        ctv_cover("rejected");
        return;
    }
    CostFunctionAnalytical<N, M> c("cfg");
    TermQuadratic<N, M> tq(q, r, xd, ud);
    TermLinear<N, M> tl(a, b);
    c.setCurrentStateAndControl(x, u, t);
    double k = act ? (on <= t && t < off ? sv + sl * (t - on) : 0.0) : 1.0;
    if (swap) k = 1.0;  // a final term is evaluated at one time only and has no activation
    double first = tq.evaluate(x, u, t) * k, second = tl.evaluate(x, u, t);
    ctv_eq(c.evaluateIntermediate(), swap ? second : first, "intermediate cost loaded");
    ctv_eq(c.evaluateTerminal(), swap ? first : second, "terminal cost loaded");
    c.loadFromConfigFile("cfg");
    c.setCurrentStateAndControl(x, u, t);
    ctv_eq(c.evaluateIntermediate(), swap ? second : first, "loading again replaces the terms");
    ctv_eq(c.evaluateTerminal(), swap ? first : second, "loading again replaces the terms");
    ctv_cover("cost function");
}
// an activation of unknown kind leaves the term always active
extern "C" void proof_unknown_activation()
{
    File& f = file("cfg");
    put(f, "t.time_activation.kind", "sometimes");
    X a, x;
    U b, u;
    ctv::fill(a, "a");
    ctv::fill(b, "b");
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    TermLinear<N, M> l(a, b);
    l.loadTimeActivation("cfg", "t");
    double t = ctv_real("t");
    ctv_check(l.isActiveAtTime(t), "always active");
    ctv_eq(l.computeActivation(t), 1.0, "activation value");
    ctv_cover("unknown activation");
}
extern "C" void proof_mpc_settings()
{
    File& f = file("cfg");
    mpc_settings s;
    long a = integer(f, "mpc.measureDelay"), b = integer(f, "mpc.stateForwardIntegration"), c = integer(f, "mpc.stateForwardIntegratorType", 10), d = integer(f, "mpc.fixedDelayUs", 100000),
         e = integer(f, "mpc.additionalDelayUs", 100000), g = integer(f, "mpc.coldStart"), h = integer(f, "mpc.postTruncation"), i = integer(f, "mpc.useExternalTiming");
    double j = real(f, "mpc.stateForwardIntegration_dt"), k = real(f, "mpc.timeHorizon"), l = real(f, "mpc.delayMeasurementMultiplier");
    loadMpcSettings("cfg", s);
    ctv_eqi(s.measureDelay_, a, "measureDelay");
    ctv_eqi(s.stateForwardIntegration_, b, "stateForwardIntegration");
    ctv_eqi((long)s.stateForwardIntegratorType_, c, "stateForwardIntegratorType");
    ctv_eqi(s.fixedDelayUs_, d, "fixedDelayUs");
    ctv_eqi(s.additionalDelayUs_, e, "additionalDelayUs");
    ctv_eqi(s.coldStart_, g, "coldStart");
    ctv_eqi(s.postTruncation_, h, "postTruncation");
    ctv_eqi(s.useExternalTiming_, i, "useExternalTiming");
    ctv_eq(s.stateForwardIntegration_dt_, j, "stateForwardIntegration_dt");
    ctv_eq(s.minimumTimeHorizonMpc_, k, "timeHorizon");
    ctv_eq(s.delayMeasurementMultiplier_, l, "delayMeasurementMultiplier");
    ctv_cover("mpc");
}
extern "C" void proof_nloc_settings()
{
    File& f = file("cfg");
    long only = ctv_choose("only", 0, 20);  // which single setting is in the file; the others keep their defaults
    NLOptConSettings s, z;
    bool all = only == 0;
#define REAL(i, key, m) { double v = all || only == i ? real(f, std::string("alg.") + key) : z.m; e[n] = v, g[n++] = &s.m; }
#define INT(i, key, m) { long v = all || only == i ? integer(f, std::string("alg.") + key, hi) : (long)z.m; ei[m_++] = v; }
    double e[8];
    double* g[8];
    int n = 0;
    REAL(1, "epsilon", epsilon)
    REAL(2, "min_cost_improvement", min_cost_improvement)
    REAL(3, "maxDefectSum", maxDefectSum)
    REAL(4, "meritFunctionRho", meritFunctionRho)
    REAL(5, "meritFunctionRhoConstraints", meritFunctionRhoConstraints)
    REAL(6, "dt", dt)
    long ei[16], hi = 1000;
    int m_ = 0;
    INT(7, "max_iterations", max_iterations)
    INT(8, "nThreads", nThreads)
    INT(9, "nThreadsEigen", nThreadsEigen)
    INT(10, "K_sim", K_sim)
    INT(11, "K_shot", K_shot)
    hi = 1;
    INT(12, "timeVaryingDiscretization", timeVaryingDiscretization)
    INT(13, "debugPrint", debugPrint)
    INT(14, "printSummary", printSummary)
    INT(15, "useSensitivityIntegrator", useSensitivityIntegrator)
    INT(16, "logToMatlab", logToMatlab)
    INT(17, "recordSmallestEigenvalue", recordSmallestEigenvalue)
    INT(18, "fixedHessianCorrection", fixedHessianCorrection)
    INT(19, "lqoc_solver_settings.num_lqoc_iterations", lqoc_solver_settings.num_lqoc_iterations)
    INT(20, "lqoc_solver_settings.lqoc_debug_print", lqoc_solver_settings.lqoc_debug_print)
    s.load("cfg", false, "alg");
    for (int i = 0; i < n; i++) ctv_eq(*g[i], e[i], "real setting: the value of the file, otherwise unchanged");
    long got[] = {s.max_iterations, s.nThreads, (long)s.nThreadsEigen, s.K_sim, s.K_shot, s.timeVaryingDiscretization, s.debugPrint, s.printSummary, s.useSensitivityIntegrator,
        s.logToMatlab, s.recordSmallestEigenvalue, s.fixedHessianCorrection, s.lqoc_solver_settings.num_lqoc_iterations, s.lqoc_solver_settings.lqoc_debug_print};
    for (int i = 0; i < 14; i++) ctv_eqi(got[i], ei[i], "integer or boolean setting: the value of the file, otherwise unchanged");
    ctv_check(s.integrator == z.integrator && s.discretization == z.discretization && s.nlocp_algorithm == z.nlocp_algorithm && s.lqocp_solver == z.lqocp_solver, "methods not in the file are unchanged");
    ctv_cover("nloc");
}
extern "C" void proof_nloc_methods()
{
    static const char* in[] = {"Euler", "RK4", "MODIFIED_MIDPOINT", "ODE45", "RK5VARIABLE", "RK78", "BULIRSCHSTOER", "EulerCT", "RK4CT", "Euler_Sym", "Rk_Sym"};
    static const IntegrationType iv[] = {EULER, RK4, MODIFIED_MIDPOINT, ODE45, RK5VARIABLE, RK78, BULIRSCHSTOER, EULERCT, RK4CT, EULER_SYM, RK_SYM};
    typedef SensitivityApproximationSettings::APPROXIMATION A;
    static const char* dn[] = {"Forward_euler", "Backward_euler", "Symplectic_euler", "Tustin", "Matrix_exponential"};
    static const A dv[] = {A::FORWARD_EULER, A::BACKWARD_EULER, A::SYMPLECTIC_EULER, A::TUSTIN, A::MATRIX_EXPONENTIAL};
    typedef NLOptConSettings S;
    static const char* an[] = {"GNMS", "ILQR", "MS_ILQR", "SS_OL", "SS_CL", "GNMS_M_OL", "GNMS_M_CL"};
    static const S::NLOCP_ALGORITHM av[] = {S::GNMS, S::ILQR, S::MS_ILQR, S::SS_OL, S::SS_CL, S::GNMS_M_OL, S::GNMS_M_CL};
    static const bool closed[] = {false, true, true, false, true, false, true}, single[] = {false, true, false, true, true, false, false};
    static const char* ln[] = {"GNRICCATI_SOLVER", "HPIPM_SOLVER"};
    long i = ctv_choose("which", 0, 10);
    File& f = file("cfg");
    put(f, "x.integrator", in[i]);
    put(f, "x.discretization", dn[i % 5]);
    put(f, "x.nlocp_algorithm", an[i % 7]);
    put(f, "x.locp_solver", ln[i % 2]);
    NLOptConSettings s;
    s.load("cfg", false, "x");
    ctv_check(s.integrator == iv[i], "integrator");
    ctv_check(s.discretization == dv[i % 5], "discretisation");
    ctv_check(s.nlocp_algorithm == av[i % 7], "algorithm");
    ctv_check(s.lqocp_solver == (i % 2 ? S::HPIPM_SOLVER : S::GNRICCATI_SOLVER), "LQ solver");
    ctv_check(s.closedLoopShooting() == closed[i % 7], "closed- or open-loop shooting");
    ctv_check(s.isSingleShooting() == single[i % 7], "single or multiple shooting");
    ctv_cover("methods");
}
extern "C" void proof_line_search_settings()
{
    static const char* tn[] = {"NONE", "SIMPLE", "ARMIJO", "GOLDSTEIN"};
    static const LineSearchSettings::TYPE tv[] = {LineSearchSettings::NONE, LineSearchSettings::SIMPLE, LineSearchSettings::ARMIJO, LineSearchSettings::GOLDSTEIN};
    File& f = file("cfg");
    long k = ctv_choose("type", 0, 3), opt = ctv_choose("optional", 0, 3);
    bool nested = ctv_choose("nested", 0, 1);
    std::string ns = nested ? "alg.line_search" : "ls";
    put(f, ns + ".type", tn[k]);
    long it = integer(f, ns + ".maxIterations", 1000), db = integer(f, ns + ".debugPrint"), ad = 0;
    double a0 = real(f, ns + ".alpha_0"), na = real(f, ns + ".n_alpha"), am = a0, ar = LineSearchSettings().armijo_parameter;
    if (opt == 1) ad = integer(f, ns + ".adaptive");
    if (opt == 2) am = real(f, ns + ".alpha_max");
    if (opt == 3) ar = real(f, ns + ".armijo_parameter");
    LineSearchSettings s;
    if (nested)
    {
        NLOptConSettings o;
        o.load("cfg", false, "alg");
        s = o.lineSearchSettings;
    }
    else s.load("cfg", false, "ls");
    ctv_check(s.type == tv[k], "type");
    ctv_eqi(s.maxIterations, it, "maxIterations");
    ctv_eqi(s.debugPrint, db, "debugPrint");
    ctv_eqi(s.adaptive, ad, "adaptive");
    ctv_eq(s.alpha_0, a0, "alpha_0");
    ctv_eq(s.n_alpha, na, "n_alpha");
    ctv_eq(s.alpha_max, am, "alpha_max (alpha_0 unless given)");
    ctv_eq(s.armijo_parameter, ar, "armijo_parameter");
    ctv_cover("line search");
}
extern "C" void proof_dms_settings()
{
    File& f = file("cfg");
    long N_ = integer(f, "d.N", 1000), nt = integer(f, "d.nThreads", 16), sp = integer(f, "d.InterpolationType"), ce = integer(f, "d.CostEvaluationType"), ob = integer(f, "d.ObjectiveType"),
         it = integer(f, "d.IntegrationType", 2);
    double T = real(f, "d.T"), h = real(f, "d.h_min"), ds = real(f, "d.dt_sim"), ae = real(f, "d.AbsErrTol"), re = real(f, "d.RelErrTol");
    bool snopt = ctv_choose("snopt", 0, 1);
    put(f, "d.solver.SolverType", (long)snopt);
    long cg = integer(f, "d.solver.UseGeneratedCostGradient"), cj = integer(f, "d.solver.UseGeneratedConstraintJacobian");
    std::string ns = snopt ? "d.solver.snopt" : "d.solver.ipopt";
    double tol = real(f, ns + ".OptimalityTolerance"), ct = 0;
    long it1, it2 = 0, v1, v2 = 0, der = 0, hes = 0;
    if (snopt)
        it1 = integer(f, ns + ".MaxMinorIterations", 1000), it2 = integer(f, ns + ".MaxMajorIterations", 1000), v1 = integer(f, ns + ".MinorPrintLevelVerbosity", 9), v2 = integer(f, ns + ".MajorPrintLevelVerbosity", 9);
    else
    {
        it1 = integer(f, ns + ".MaxIterations", 1000), v1 = integer(f, ns + ".Verbosity", 9);
        der = ctv_choose("check derivatives", 0, 1), hes = ctv_choose("exact Hessian", 0, 1);
        put(f, ns + ".CheckDerivatives", der);
        put(f, ns + ".ExactHessian", hes);
        ct = real(f, ns + ".constr_viol_tol");
        put(f, ns + ".linear_solver", "ma57");
    }
    static const char* cn[] = {"MultiThreading", "CreateForwardZero", "CreateForwardOne", "CreateReverseOne", "CreateReverseTwo", "CreateJacobian", "CreateSparseJacobian", "CreateHessian", "CreateSparseHessian", "GenerateSourceCode", "UseDynamicLibrary"};
    long c[11];
    for (int i = 0; i < 11; i++) c[i] = integer(f, std::string("d.cppad.") + cn[i]);
    long ma = integer(f, "d.cppad.MaxAssignements", 100000);
    bool clang = ctv_choose("clang", 0, 1);
    put(f, "d.cppad.Compiler", clang ? "CLANG" : "GCC");
    DmsSettings s;
    s.load("cfg", false, "d");
    ctv_eqi(s.N_, N_, "N");
    ctv_eqi(s.nThreads_, nt, "nThreads");
    ctv_eqi(s.splineType_, sp, "InterpolationType");
    ctv_eqi(s.costEvaluationType_, ce, "CostEvaluationType");
    ctv_eqi(s.objectiveType_, ob, "ObjectiveType");
    ctv_eqi(s.integrationType_, it, "IntegrationType");
    ctv_eq(s.T_, T, "T");
    ctv_eq(s.h_min_, h, "h_min");
    ctv_eq(s.dt_sim_, ds, "dt_sim");
    ctv_eq(s.absErrTol_, ae, "AbsErrTol");
    ctv_eq(s.relErrTol_, re, "RelErrTol");
    const NlpSolverSettings& p = s.solverSettings_;
    ctv_check(p.solverType_ == (snopt ? NlpSolverType::SNOPT : NlpSolverType::IPOPT), "SolverType");
    ctv_eqi(p.useGeneratedCostGradient_, cg, "UseGeneratedCostGradient");
    ctv_eqi(p.useGeneratedConstraintJacobian_, cj, "UseGeneratedConstraintJacobian");
    if (snopt)
    {
        ctv_eqi((long)p.snoptSettings_.minor_iteration_limit_param_, it1, "MaxMinorIterations");
        ctv_eqi((long)p.snoptSettings_.major_iteration_limit_param_, it2, "MaxMajorIterations");
        ctv_eqi((long)p.snoptSettings_.minor_print_level_param_, v1, "MinorPrintLevelVerbosity");
        ctv_eqi((long)p.snoptSettings_.major_print_level_param_, v2, "MajorPrintLevelVerbosity");
        ctv_eq(p.snoptSettings_.major_optimality_tolerance_param_, tol, "OptimalityTolerance");
    }
    else
    {
        ctv_eqi((long)p.ipoptSettings_.max_iter_, it1, "MaxIterations");
        ctv_eqi((long)p.ipoptSettings_.printLevel_, v1, "Verbosity");
        ctv_eq(p.ipoptSettings_.tol_, tol, "OptimalityTolerance");
        ctv_eq(p.ipoptSettings_.constr_viol_tol_, ct, "constr_viol_tol");
        ctv_eq(p.ipoptSettings_.acceptableTol_, IpoptSettings().acceptableTol_, "tolerances not in the file are unchanged");
        ctv_check(p.ipoptSettings_.linear_solver_ == "ma57", "linear_solver");
        ctv_check(p.ipoptSettings_.derivativeTest_ == (der ? "first-order" : "none"), "CheckDerivatives");
        ctv_check(p.ipoptSettings_.hessian_approximation_ == (hes ? "exact" : "limited-memory"), "ExactHessian");
    }
    const DerivativesCppadSettings& d = s.cppadSettings_;
    bool g[] = {d.multiThreading_, d.createForwardZero_, d.createForwardOne_, d.createReverseOne_, d.createReverseTwo_, d.createJacobian_, d.createSparseJacobian_, d.createHessian_, d.createSparseHessian_, d.generateSourceCode_, d.useDynamicLibrary_};
    for (int i = 0; i < 11; i++) ctv_eqi(g[i], c[i], cn[i]);
    ctv_eqi(d.maxAssignements_, ma, "MaxAssignements");
    ctv_check(d.compiler_ == (clang ? DerivativesCppadSettings::CLANG : DerivativesCppadSettings::GCC), "Compiler");
    ctv_cover("dms");
}
// filter settings; the matrices are looked up at <ns><name>, the scalars at <ns>.<name>
template <class T>
static void both(File& f, const char* name, T& m)
{
    matrix(f, std::string("kf") + name, m, false, false);
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++) put(f, std::string("kf.") + name + ".(" + std::to_string(i) + "," + std::to_string(j) + ")", m(i, j));
}
extern "C" void proof_filter_settings()
{
    File& f = file("cfg");
    StateVector<2> x0;
    StateMatrix<2> P0, Q, W;
    OutputMatrix<1> R;
    OutputStateMatrix<1, 2> C;
    both(f, "x0", x0);
    both(f, "P0", P0);
    long which = ctv_choose("settings", 0, 3);
    if (which == 0)
    {
        double a = real(f, "kf.alpha"), b = real(f, "kf.beta"), k = real(f, "kf.kappa");
        UnscentedKalmanFilterSettings<2> s;
        ctv_check(!ctv::throws([&] { s.load("cfg", false, "kf"); }), "loaded");
        ctv::eqm(s.x0, x0, "x0");
        ctv::eqm(s.P0, P0, "P0");
        ctv_eq(s.alpha, a, "alpha");
        ctv_eq(s.beta, b, "beta");
        ctv_eq(s.kappa, k, "kappa");
    }
    if (which == 1)
    {
        ExtendedKalmanFilterSettings<2> s;
        s.load("cfg", false, "kf");
        ctv::eqm(s.x0, x0, "x0");
        ctv::eqm(s.P0, P0, "P0");
    }
    if (which == 2)
    {
        bool given = ctv_choose("given", 0, 1);
        long it = given ? integer(f, "kf.maxDAREIterations", 100000) : 1000;
        SteadyStateKalmanFilterSettings<2> s;
        s.load("cfg", false, "kf");
        ctv::eqm(s.x0, x0, "x0");
        ctv_eqi((long)s.maxDAREIterations, it, "maxDAREIterations");
    }
    if (which == 3)
    {
        both(f, "Q", Q);
        both(f, "R", R);
        both(f, "C", C);
        both(f, "dFdv", W);
        StateObserverSettings<1, 2> s;
        s.load("cfg", false, "kf");
        ctv::eqm(s.Q, Q, "Q");
        ctv::eqm(s.R, R, "R");
        ctv::eqm(s.C, C, "C");
        ctv::eqm(s.dFdv, W, "dFdv");
    }
    ctv_cover("filters");
}
