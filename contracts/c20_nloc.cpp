// C20: iterative nonlinear optimal control (iLQR / GNMS families): rollouts, defects, LQ approximation, step acceptance,
// reported cost and trajectories.  The LQ sub-problem solver is represented by its contract (C18): an arbitrary answer.
#include "nloc_spec.h"
// one iteration from a fresh guess, full step
extern "C" void proof_full_step()
{
    NLOptConSettings s = settings(ctv_choose("algorithm", 0, 6), LineSearchSettings::NONE);
    s.K_shot = s.nlocp_algorithm == St::ILQR ? 1 : ctv_choose("K_shot", 1, 3);
    long K = ctv_choose("K", 1, 3);
    Sol q = make(s, K);
    q.guess(K);
    if (ctv_choose("newstart", 0, 1))
    {
        StateVector<1> x0;
        x0 << (q.x0 = ctv_real("x0"));
        q.b->changeInitialState(x0);
    }
    Traj t = q.first();
    bool better = q.alg->runIteration();
    q.lq(t);
    Traj c = q.cand(t, 1.0);
    q.same(c, "states after a full step", "controls after a full step");
    if (q.closed()) q.gains(q.o->L);
    ctv_eq(q.b->getTotalDefect(), Sol::dn(c), "total defect");
    double J0 = q.cost(t), J1 = q.cost(c), ratio = (J0 - J1) / J0;
    if (ratio < 0) ratio = -ratio;
    ctv_check(better == (ratio > s.min_cost_improvement || Sol::dn(c) > s.maxDefectSum), "continue unless converged");
    ctv_cover("full step");
}
// one iteration with line search: the first step length that lowers the merit is taken, otherwise nothing changes
static void search(long ls, long Kmax)
{
    long al = ctv_choose("algorithm", 0, 6);
    if (ls == LineSearchSettings::ARMIJO && al != St::ILQR && al != St::GNMS && al != St::GNMS_M_CL) return;
    NLOptConSettings s = settings(al, ls);
    s.K_shot = s.nlocp_algorithm == St::ILQR ? 1 : ctv_choose("K_shot", 1, Kmax);
    s.lineSearchSettings.maxIterations = ctv_choose("tries", 0, 2);
    s.lineSearchSettings.alpha_0 = ctv::pos("alpha0");
    s.lineSearchSettings.n_alpha = ctv::pos("n_alpha");
    s.lineSearchSettings.armijo_parameter = ctv::pos("armijo");
    ctv_assume(s.lineSearchSettings.n_alpha < 1.0);
    long K = ctv_choose("K", 1, Kmax);
    Sol q = make(s, K);
    q.guess(K);
    Traj t = q.first();
    bool better = q.alg->runIteration();
    q.lq(t);
    double a = s.lineSearchSettings.alpha_0, M0 = q.merit(t);
    for (size_t i = 0; i < s.lineSearchSettings.maxIterations; i++, a *= s.lineSearchSettings.n_alpha)
    {
        Traj c = q.cand(t, a);
        double M = q.merit(c);
        bool ok = M < M0;
        if (ls == LineSearchSettings::ARMIJO)
        {
            double e = 0;
            for (long k = 0; k < K; k++) e += a * q.o->lv[k] * q.o->st[k].r + 0.5 * a * a * q.o->lv[k] * q.o->lv[k] * q.o->st[k].R;
            ok = M <= M0 && M0 - M >= s.lineSearchSettings.armijo_parameter * e;
        }
        if (!ok) continue;
        q.same(c, "states of the accepted step", "controls of the accepted step");
        if (q.closed()) q.gains(q.o->L);
        ctv_eq(q.b->getTotalDefect(), Sol::dn(c), "total defect");
        double ratio = (M0 - M) / M0;
        if (ratio < 0) ratio = -ratio;
        ctv_check(better == (ratio > s.min_cost_improvement || Sol::dn(c) > s.maxDefectSum), "continue unless converged");
        ctv_cover("accepted");
        return;
    }
    q.same(t, "states unchanged without improvement", "controls unchanged without improvement");
    ctv_check(!better, "no improvement found");
    ctv_eq(q.b->getTotalDefect(), Sol::dn(t), "total defect");
    ctv_eq(q.b->getSummary().defect_l1_norms.back(), Sol::dn(t), "defects in the summary");
    ctv_eq(q.b->getSummary().totalCosts.back(), q.cost(t), "cost in the summary");
    ctv_eq(q.b->getSummary().merits.back(), M0, "merit in the summary");
    ctv_cover("rejected");
}
extern "C" void proof_line_search_simple() { search(LineSearchSettings::SIMPLE, 2); }
extern "C" void proof_line_search_armijo() { search(LineSearchSettings::ARMIJO, 2); }
// a second iteration continues from the first one's result
extern "C" void proof_second_iteration()
{
    long ls = ctv_choose("linesearch", 0, 1), al = ctv_choose("algorithm", 0, 6);
    if (ls && al != St::GNMS && al != St::ILQR) return;
    NLOptConSettings s = settings(al, ls);
    if (ls) s.dt = 0.25, s.meritFunctionRho = 2.0;
    s.lineSearchSettings.maxIterations = 1;
    s.K_shot = 1;
    long K = 2;
    Sol q = make(s, K);
    q.guess(K);
    Traj t = q.first();
    for (int i = 0; i < 2; i++)
    {
        q.alg->runIteration();
        q.lq(t);
        Traj c = q.cand(t, 1.0);
        if (ls == LineSearchSettings::NONE || q.merit(c) < q.merit(t)) t = c;
        q.same(t, "states", "controls");
    }
    ctv_cover("second iteration");
}
// the real-time iteration scheme of MPC: rollout, LQ step, full update
extern "C" void proof_mpc_iteration()
{
    NLOptConSettings s = settings(ctv_choose("algorithm", 0, 6), LineSearchSettings::NONE);
    s.K_shot = s.nlocp_algorithm == St::ILQR ? 1 : ctv_choose("K_shot", 1, 3);
    long K = ctv_choose("K", 1, 3);
    Sol q = make(s, K);
    q.guess(K);
    bool late = ctv_choose("late", 0, 1);
    StateVector<1> x0;
    x0 << (q.x0 = ctv_real("x0"));
    if (!late) q.b->changeInitialState(x0);
    q.alg->prepareMPCIteration();
    if (late) q.b->changeInitialState(x0);  // the measurement arrives after the preparation
    Traj t = q.first();
    q.alg->finishMPCIteration();
    q.lq(t);
    if (q.single())
        q.same(q.cand(t, 1.0), "states", "controls");
    else
    {
        auto a = s.nlocp_algorithm;
        auto& p = q.b->getSolution();
        for (long k = 0; k <= K; k++)
        {
            ctv_eq(p.x_ref()[k](0), t.x[k] + q.o->dx[k], "states after the MPC step");
            if (k < K) ctv_eq(p.uff()[k](0), t.u[k] + (a == St::MS_ILQR ? q.o->lv[k] : q.o->du[k]), "controls after the MPC step");
        }
        if (q.closed()) q.gains(q.o->L);
    }
    ctv_cover("mpc iteration");
}
// constrained problems: what the LQ solver is given, and what the merit of a step contains
extern "C" void proof_constrained_lq()
{
    NLOptConSettings s = settings(ctv_choose("algorithm", 0, 6), LineSearchSettings::NONE);
    s.K_shot = s.nlocp_algorithm == St::ILQR ? 1 : ctv_choose("K_shot", 1, 3);
    long K = ctv_choose("K", 1, 3);
    bool mpc = ctv_choose("mpc", 0, 1);
    Sol q = make(s, K);
    q.constrain();
    q.guess(K);
    StateVector<1> x0;
    x0 << (q.x0 = ctv_real("x0"));
    q.b->changeInitialState(x0);
    Traj t = q.first();
    if (mpc)
    {
        q.alg->prepareMPCIteration();
        q.alg->finishMPCIteration();
    }
    else
        q.alg->runIteration();
    q.lq(t);
    q.lqcon(t);
    ctv_cover("constrained");
}
static void constrained_search(int kind)
{
    NLOptConSettings s = settings(kind == 1 ? ctv_choose("algorithm", 0, 1) : kind == 2 ? St::GNMS : St::ILQR, LineSearchSettings::SIMPLE);
    s.lineSearchSettings.maxIterations = 1;
    s.K_shot = 1;
    s.dt = 0.25, s.meritFunctionRho = 2.0, s.meritFunctionRhoConstraints = 3.0;  // numbers here (arbitrary in the other proofs)
    Sol q = make(s, 1);
    q.kind = kind;
    q.constrain();
    q.guess(1);
    Traj t = q.first();
    // case distinction: bounded values are below, within or above their bounds
    auto region = [&](double v, double l, double u, long r) {
        ctv_assume(r == 0 ? v < l : r == 1 ? v >= l && v <= u : v > u);
    };
    auto regions = [&](const Traj& z, bool first) {
        long r = ctv_choose("region", 0, 2);
        if (q.kind & 1) region(z.u[0], q.ul, q.uu, r);
        if (q.kind & 2)
        {
            if (first) region(z.x[0], q.xl, q.xu, ctv_choose("region0", 0, 1));
            region(z.x[1], q.xl, q.xu, r);
        }
        if (q.kind & 4) region(fun("g", z.x[0], z.u[0], 0), q.gl, q.gu, r), region(fun("g", z.x[1], 0, s.dt), q.gl, q.gu, r);
    };
    regions(t, true);
    q.o->answered = [&]() { regions(q.cand(t, 1.0), false); };
    bool better = q.alg->runIteration();
    Traj c = q.cand(t, 1.0);
    double M0 = q.merit(t), M1 = q.merit(c);
    if (M1 < M0) q.same(c, "states of the accepted step", "controls of the accepted step");
    else
    {
        ctv_check(!better, "no improvement found");
        q.same(t, "states unchanged without improvement", "controls unchanged without improvement");
    }
    ctv_eq(q.b->getSummary().e_box_norms.back(), M1 < M0 ? q.box(c) : q.box(t), "box constraint violation in the summary");
    ctv_eq(q.b->getSummary().e_gen_norms.back(), M1 < M0 ? q.gen(c) : q.gen(t), "general constraint violation in the summary");
    ctv_eq(q.b->getSummary().merits.back(), M1 < M0 ? M1 : M0, "merit in the summary");
    ctv_cover("constrained search");
}
extern "C" void proof_search_input_box() { constrained_search(1); }
extern "C" void proof_search_state_box() { constrained_search(2); }
extern "C" void proof_search_general() { constrained_search(4); }
// violation norms of a longer trajectory (after a full step): every stage and the end count, each at its own state, control and time
static void violation(int kind)
{
    NLOptConSettings s = settings(kind == 2 ? St::GNMS : St::ILQR, LineSearchSettings::NONE);
    s.K_shot = 1, s.dt = 0.25;
    Sol q = make(s, 2);
    q.kind = kind;
    q.constrain();
    q.guess(2);
    Traj t = q.first();
    long r[3];
    for (int k = 0; k < 3; k++) r[k] = kind == 1 && k == 2 ? 0 : k == 0 ? ctv_choose("region", 0, 1) : k == 1 ? ctv_choose("region", 1, 2) : 2 * ctv_choose("region", 0, 1);
    auto region = [&](double v, double l, double u, long r) { ctv_assume(r == 0 ? v < l : r == 1 ? v >= l && v <= u : v > u); };
    q.o->answered = [&]() {
        Traj c = q.cand(t, 1.0);
        for (int k = 0; k < 3; k++)
        {
            if (kind == 1 && k < 2) region(c.u[k], q.ul, q.uu, r[k]);
            if (kind == 2) region(c.x[k], q.xl, q.xu, r[k]);
            if (kind == 4) region(fun("g", c.x[k], k < 2 ? c.u[k] : 0.0, k * s.dt), q.gl, q.gu, r[k]);
        }
    };
    q.alg->runIteration();
    Traj c = q.cand(t, 1.0);
    ctv_eq(q.b->getSummary().e_box_norms.back(), q.box(c), "box constraint violation of the new trajectory");
    ctv_eq(q.b->getSummary().e_gen_norms.back(), q.gen(c), "general constraint violation of the new trajectory");
    ctv_cover("violation");
}
extern "C" void proof_violation_input_box() { violation(1); }
extern "C" void proof_violation_state_box() { violation(2); }
extern "C" void proof_violation_general() { violation(4); }
