// C31: the multi-threaded backend computes what the single-threaded one computes, whichever worker takes which piece of work and
// in whatever order they finish.  The specification is the one of C20; the threading primitives are represented by threads.h.
#include "threads.h"
static long nThreads = 2;
static long where = 7;  // where threads may be preempted: in the dynamics (1), the linearisation (2), the cost function (4)
static void user_code(int kind) { if (where & kind) ctv_threads::yield(); }
static long threads() { return nThreads; }
#define CTV_NLOC_MP
#include "nloc_spec.h"


static NLOptConSettings mp(long alg, long ls, long K)
{
    NLOptConSettings s = settings(alg, ls);
    s.dt = 0.25, s.meritFunctionRho = 2.0, s.meritFunctionRhoConstraints = 3.0;  // numbers here (arbitrary in C20)
    s.K_shot = s.nlocp_algorithm == St::ILQR || K == 1 ? 1 : ctv_choose("K_shot", 1, 2);
    return s;
}
static void ended()
{
    for (long i = 1; i < ctv_threads::n; i++) ctv_check(ctv_threads::th[i].done, "all workers have ended");
}
// one iteration, full step
static void full(long alg, long preempt, long K, long n)
{
    nThreads = n;
    ctv_threads::reset(preempt, preempt == 0);
    NLOptConSettings s = mp(alg, LineSearchSettings::NONE, K);
    {
        Sol q = make(s, K);
        q.guess(K);
        if (K < 3)
        {
            StateVector<1> x0;
            x0 << (q.x0 = ctv_real("x0"));
            q.b->changeInitialState(x0);
        }
        Traj t = q.first();
        q.alg->runIteration();
        q.lq(t);
        Traj c = q.cand(t, 1.0);
        q.same(c, "states after a full step", "controls after a full step");
        if (q.closed()) q.gains(q.o->L);
        ctv_eq(q.b->getTotalDefect(), Sol::dn(c), "total defect");
    }
    ended();
    ctv_cover("full step");
}
extern "C" void proof_full_step() { full(ctv_choose("algorithm", 0, 6), 0, 2, 2); }
extern "C" void proof_full_step_preempted() { full(ctv_choose("algorithm", 0, 6), 1, 3, 2); }
extern "C" void proof_full_step_preempted_twice() { full(ctv_choose("algorithm", 0, 1), 2, 2, 2); }
extern "C" void proof_full_step_preempted_three() { full(St::GNMS, 1, 3, 3); }
// line search: the largest step length that lowers the merit is taken whichever worker tries it, otherwise nothing changes
static void search(long alg, long preempt, long K, long tries, long n)
{
    nThreads = n;
    ctv_threads::reset(preempt, preempt == 0);
    NLOptConSettings s = mp(alg, LineSearchSettings::SIMPLE, K);
    s.lineSearchSettings.maxIterations = tries;
    s.lineSearchSettings.alpha_0 = 1.0, s.lineSearchSettings.n_alpha = 0.5;
    {
        Sol q = make(s, K);
        q.guess(K);
        Traj t = q.first();
        bool better = q.alg->runIteration();
        q.lq(t);
        double a = s.lineSearchSettings.alpha_0, M0 = q.merit(t);
        long i = 0;
        for (; i < tries; i++, a *= s.lineSearchSettings.n_alpha)
        {
            Traj c = q.cand(t, a);
            if (!(q.merit(c) < M0)) continue;
            q.same(c, "states of the accepted step", "controls of the accepted step");
            if (q.closed()) q.gains(q.o->L);
            ctv_eq(q.b->getTotalDefect(), Sol::dn(c), "total defect");
            ctv_eq(q.b->getSummary().merits.back(), q.merit(c), "merit in the summary");
            ctv_cover("accepted");
            break;
        }
        if (i == tries)
        {
            q.same(t, "states unchanged without improvement", "controls unchanged without improvement");
            ctv_check(!better, "no improvement found");
            ctv_eq(q.b->getTotalDefect(), Sol::dn(t), "total defect");
            ctv_eq(q.b->getSummary().merits.back(), M0, "merit in the summary");
            ctv_cover("rejected");
        }
    }
    ended();
}
extern "C" void proof_line_search_no_tries() { search(ctv_choose("algorithm", 0, 1), 0, 2, 0, 2); }
extern "C" void proof_line_search() { search(ctv_choose("algorithm", 0, 1), 0, 2, 2, 2); }
extern "C" void proof_line_search_preempted() { search(ctv_choose("algorithm", 0, 1), 1, 1, 3, 2); }
extern "C" void proof_line_search_preempted_stages() { search(ctv_choose("algorithm", 0, 6), 1, 2, 2, 2); }
extern "C" void proof_line_search_preempted_twice() { search(St::GNMS, 2, 1, 3, 3); }
// iterations and new problems follow each other: workers that slept or finished late take part again
static void again(long preempt, long n, long ls, long al, long what, long K = 2, long tries = 1)
{
    nThreads = n;
    ctv_threads::reset(preempt, preempt == 0);
    NLOptConSettings s = settings(al, ls);
    s.dt = 0.25, s.meritFunctionRho = 2.0, s.K_shot = 1;
    s.lineSearchSettings.maxIterations = tries;
    s.lineSearchSettings.alpha_0 = 1.0, s.lineSearchSettings.n_alpha = 0.5;
    {
        Sol q = make(s, K);
        q.guess(K);
        Traj t = q.first();
        for (int i = 0; i < 2; i++)
        {
            q.alg->runIteration();
            q.lq(t);
            double a = 1.0;
            for (long j = 0; j < tries; j++, a *= 0.5)
            {
                Traj c = q.cand(t, a);
                if (ls != LineSearchSettings::NONE && !(q.merit(c) < q.merit(t))) continue;
                t = c;
                break;
            }
            q.same(t, "states", "controls");
            if (i) break;
            if (what == 1)
            {
                q.guess(K);
                t = q.first();
            }
            if (what == 2)
            {
                StateVector<1> x0;
                q.guess(K);
                x0 << (q.x0 = ctv_real("x0"));
                q.b->changeInitialState(x0);
                t = q.first();
            }
        }
    }
    ended();
    ctv_cover("again");
}
extern "C" void proof_again_gnms() { again(1, 2, LineSearchSettings::NONE, St::GNMS, ctv_choose("between", 0, 2)); }
extern "C" void proof_again_ilqr() { again(1, 2, LineSearchSettings::NONE, St::ILQR, ctv_choose("between", 0, 2)); }
extern "C" void proof_again_ilqr_search() { again(1, 2, LineSearchSettings::SIMPLE, St::ILQR, ctv_choose("between", 0, 2)); }
extern "C" void proof_again_late_search() { where = 1; again(3, 2, LineSearchSettings::SIMPLE, St::ILQR, 0, 1, 2); }
extern "C" void proof_again_gnms_search() { again(1, 2, LineSearchSettings::SIMPLE, St::GNMS, 0); }
// the real-time iteration of MPC
static void mpc(long preempt)
{
    nThreads = 2;
    ctv_threads::reset(preempt, preempt == 0);
    long K = 3;
    NLOptConSettings s = mp(ctv_choose("algorithm", 0, 6), LineSearchSettings::NONE, K);
    {
        Sol q = make(s, K);
        q.guess(K);
        StateVector<1> x0;
        x0 << (q.x0 = ctv_real("x0"));
        q.alg->prepareMPCIteration();
        q.b->changeInitialState(x0);
        Traj t = q.first();
        q.alg->finishMPCIteration();
        q.lq(t);
        if (q.single()) q.same(q.cand(t, 1.0), "states", "controls");
        else
        {
            auto& p = q.b->getSolution();
            for (long k = 0; k <= K; k++)
            {
                ctv_eq(p.x_ref()[k](0), t.x[k] + q.o->dx[k], "states after the MPC step");
                if (k < K) ctv_eq(p.uff()[k](0), t.u[k] + (s.nlocp_algorithm == St::MS_ILQR ? q.o->lv[k] : q.o->du[k]), "controls after the MPC step");
            }
            if (q.closed()) q.gains(q.o->L);
        }
    }
    ended();
    ctv_cover("mpc");
}
extern "C" void proof_mpc() { mpc(0); }
extern "C" void proof_mpc_preempted() { mpc(1); }
// constrained problems: every stage's constraints are linearised by whichever worker takes the stage
extern "C" void proof_constrained()
{
    nThreads = 2;
    long pre = ctv_choose("preemptions", 0, 1), K = 2;
    ctv_threads::reset(pre, pre == 0);
    NLOptConSettings s = mp(ctv_choose("algorithm", 0, 1), LineSearchSettings::NONE, K);
    {
        Sol q = make(s, K);
        q.constrain();
        q.guess(K);
        Traj t = q.first();
        q.alg->prepareMPCIteration();
        q.alg->finishMPCIteration();
        q.lq(t);
        q.lqcon(t);
    }
    ended();
    ctv_cover("constrained");
}

// threads preempted just before they wait: no wake-up is lost
extern "C" void proof_waits_full_step() { where = 0, ctv_threads::inWait = true; full(ctv_choose("algorithm", 0, 1), 2, 2, 2); }
extern "C" void proof_waits_line_search() { where = 0, ctv_threads::inWait = true; search(ctv_choose("algorithm", 0, 1), 2, 2, 2, 2); }
