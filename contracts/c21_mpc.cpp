// C21: model predictive control: horizons, timing, warm starts, hand-over of state and policy.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
typedef StateFeedbackController<1, 1> Policy;

// ---- time horizon strategies
extern "C" void proof_time_horizon()
{
    mpc_settings st;
    long mode = ctv_choose("mode", 0, 3);
    st.mpc_mode = (MPC_MODE)mode;
    double T0 = ctv::pos("T0"), Tmin = ctv::pos("Tmin"), since = ctv_real("since"), stop = ctv_real("stop"), T = ctv_real("junk");
    ctv_assume(since >= 0.0 && stop >= 0.0);
    st.minimumTimeHorizonMpc_ = Tmin;
    std::shared_ptr<ct::optcon::MpcTimeHorizon> h;
    if (ctv_choose("updated", 0, 1))
    {
        mpc_settings s0;
        s0.mpc_mode = (MPC_MODE)((mode + 1) % 4);
        s0.minimumTimeHorizonMpc_ = ctv::pos("Told");
        h = std::make_shared<ct::optcon::MpcTimeHorizon>(s0, ctv::pos("Tini"));
        h->updateSettings(st);
        h->updateInitialTimeHorizon(T0);
    }
    else
        h = std::make_shared<ct::optcon::MpcTimeHorizon>(st, T0);
    bool fin = h->computeNewTimeHorizon(since, stop, T);
    double left = T0 - since - stop;
    if (mode == CONSTANT_RECEDING_HORIZON)
    {
        ctv_eq(T, T0, "constant horizon");
        ctv_check(!fin, "a receding horizon has no end");
    }
    else if (mode == FIXED_FINAL_TIME)
    {
        ctv_eq(T, left > 0 ? left : 0.0, "shrinking horizon");
        ctv_check(fin == !(left > 0), "end reached exactly when no time is left");
    }
    else if (mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON)
    {
        ctv_eq(T, left > Tmin ? left : Tmin, "shrinking horizon, not below the minimum");
        ctv_check(fin == !(left > Tmin), "end reached exactly when the minimum is reached");
    }
    else
    {
        double l = left > 0 ? left : 0.0;
        ctv_eq(T, l < Tmin ? l : Tmin, "constant horizon until the final time is in sight, then shrinking");
        ctv_check(fin == !(left > 0), "end reached exactly when no time is left");
    }
    ctv_cover("horizon");
}
// ---- time keeper with external timing: a history of n solves at arbitrary increasing times
extern "C" void proof_time_keeper()
{
    mpc_settings st;
    st.useExternalTiming_ = true;
    st.additionalDelayUs_ = 1000 * ctv_choose("additional", 0, 1);
    st.fixedDelayUs_ = 250 * ctv_choose("fixed", 0, 1);
    double delay = 1e-6 * st.additionalDelayUs_ + 1e-6 * st.fixedDelayUs_;
    st.mpc_mode = FIXED_FINAL_TIME;
    double T0 = ctv::pos("T0");
    auto h = std::make_shared<ct::optcon::MpcTimeHorizon>(st, T0);
    ct::optcon::MpcTimeKeeper tk(h, st);
    double T, a, b, t = ctv_real("start"), cur = ctv::pos("currentT"), tFirst = 0, tLast = 0;
    ctv_check(ctv::throws([&]() { tk.computeNewTimings(t, cur, T, a, b); }), "use before initialisation rejected");
    tk.initialize();
    long n = ctv_choose("solves", 0, 2);
    long fails = ctv_choose("calls without solve", 0, 1);
    for (long k = 0; k <= n + fails; k++)
    {
        ctv_eq(tk.timeSinceFirstSuccessfulSolve(t), k ? t - tFirst : 0.0, "time since the first solve");
        ctv_eq(tk.timeSincePreviousSuccessfulSolve(t), k ? t - tLast : 0.0, "time since the previous solve");
        tk.computeNewTimings(t, cur, T, a, b);
        double el = k ? t - tLast : 0.0, e2 = k ? el + delay : 0.0;
        ctv_eq(a, el < cur ? el : cur, "forward prediction starts where the last policy stands now");
        ctv_eq(b, e2 < cur ? e2 : cur, "... and spans the delay, within the last horizon");
        ctv_check(a <= b, "start not after stop");
        double left = T0 - ((k ? t - tFirst : 0.0) + b);
        ctv_eq(T, left > 0 ? left : 0.0, "horizon of the strategy");
        ctv_check(tk.finalPointReached() == !(left > 0), "final point");
        if (k < n)
        {
            tk.startDelayMeasurement(t);
            double d = ctv_real("solvetime");
            ctv_assume(d >= 0.0);
            t += d;
            tk.stopDelayMeasurement(t);
            ctv_eq(tk.getMeasuredDelay(), d, "measured delay is the time between start and stop");
            if (k == 0) tFirst = t;
            tLast = t;
        }
        else
        {
            if (n == 0) break;
        }
        double w = ctv_real("wait");
        ctv_assume(w >= 0.0);
        t += w;
        if (k >= n) break;
    }
    tk.initialize();
    ctv_eq(tk.timeSinceFirstSuccessfulSolve(t), 0.0, "re-initialised: no solve yet");
    ctv_check(!tk.finalPointReached(), "re-initialised");
    ctv_eq(tk.getMaxMeasuredDelay(), 0.0, "re-initialised");
    ctv_cover("history");
}
extern "C" void proof_delay_statistics()
{
    mpc_settings st;
    st.useExternalTiming_ = true;
    auto h = std::make_shared<ct::optcon::MpcTimeHorizon>(st, 1.0);
    ct::optcon::MpcTimeKeeper tk(h, st);
    tk.initialize();
    double t = ctv_real("start"), sum = 0, mx = 0, mn = 0;
    for (int k = 0; k < 3; k++)
    {
        double d = ctv_real("d");
        tk.startDelayMeasurement(t);
        t += d;
        bool thr = ctv::throws([&]() { tk.stopDelayMeasurement(t); });
        ctv_check(thr == (d < 0), "negative delays are reported");
        if (thr) { ctv_cover("negative"); return; }
        sum += d;
        mx = d > mx ? d : mx;
        mn = k == 0 || d < mn ? d : mn;
        ctv_eq(tk.getMeasuredDelay(), d, "last delay");
        ctv_eq(tk.getMaxMeasuredDelay(), mx, "largest delay");
        ctv_eq(tk.getMinMeasuredDelay(), mn, "smallest delay");
        ctv_eq(tk.getSummedDelay(), sum, "sum of the delays");
    }
    ctv_cover("statistics");
}
// ---- warm starts
static Policy policy(long K, double dt, std::vector<double>& u, std::vector<double>& L, std::vector<double>& x)
{
    StateVectorArray<1> xs(K + 1);
    ControlVectorArray<1> us(K);
    FeedbackArray<1, 1> fb(K);
    x.resize(K + 1), u.resize(K), L.resize(K);
    for (long k = 0; k <= K; k++)
    {
        xs[k] << (x[k] = ctv_real("x"));
        if (k == K) break;
        us[k] << (u[k] = ctv_real("u"));
        fb[k] << (L[k] = ctv_real("L"));
    }
    return Policy(xs, us, fb, dt);
}
static void same(Policy& p, long K, double dt, const std::vector<double>& u, const std::vector<double>& L, const std::vector<double>& x, long shift)
{
    auto at = [](const std::vector<double>& v, long k) { return v[std::min<long>(k, (long)v.size() - 1)]; };
    ctv_eqi(p.getFeedforwardTrajectory().size(), K, "number of controls");
    ctv_eqi(p.getFeedbackTrajectory().size(), K, "number of gains");
    ctv_eqi(p.getReferenceStateTrajectory().size(), K + 1, "number of states");
    for (long k = 0; k <= K; k++)
    {
        ctv_eq(p.getReferenceStateTrajectory()[k](0), at(x, k + shift), "shifted state reference, last one repeated");
        ctv_eq(p.getReferenceStateTrajectory().getTimeArray()[k], k * dt, "state time");
        if (k == K) break;
        ctv_eq(p.getFeedforwardTrajectory()[k](0), at(u, k + shift), "shifted feedforward, last one repeated");
        ctv_eq(p.getFeedbackTrajectory()[k](0), at(L, k + shift), "shifted gain, last one repeated");
        ctv_eq(p.getFeedforwardTrajectory().getTimeArray()[k], k * dt, "control time");
        ctv_eq(p.getFeedbackTrajectory().getTimeArray()[k], k * dt, "gain time");
    }
}
extern "C" void proof_warm_start()
{
    double dt = ctv::pos("dt"), frac = ctv_real("fraction");
    long K = ctv_choose("K", 1, 3), s = ctv_choose("shift", 0, 4), Kn = ctv_choose("Knew", 0, 3);
    ctv_assume(frac >= 0.0 && frac < 1.0);
    std::vector<double> u, L, x;
    Policy p = policy(K, dt, u, L, x);
    StateFeedbackPolicyHandler<1, 1, double> h(dt);
    double Tn = Kn * dt + (frac - 0.5) * dt;  // rounds to Kn stages
    if (frac == 0.0) Tn = Kn * dt;
    h.designWarmStartingPolicy(s * dt + frac * dt, Tn, p);
    long sh = s < K - 1 ? s : K - 1, kn = Kn > 1 ? Kn : 1;
    same(p, kn, dt, u, L, x, sh);
    ctv_cover("warm start");
}
extern "C" void proof_truncate_front()
{
    double dt = ctv::pos("dt"), frac = ctv_real("fraction"), eff = ctv_real("junk");
    long K = ctv_choose("K", 1, 3), s = ctv_choose("shift", 0, 4);
    ctv_assume(frac >= 0.0 && frac < 1.0);
    std::vector<double> u, L, x;
    Policy p = policy(K, dt, u, L, x);
    StateFeedbackPolicyHandler<1, 1, double> h(dt);
    h.truncateSolutionFront(s * dt + frac * dt, p, eff);
    long sh = s < K - 1 ? s : K - 1;
    ctv_eq(eff, sh * dt, "reported truncation");
    same(p, K - sh, dt, u, L, x, sh);
    ctv_cover("truncation");
}
// ---- the MPC loop around an arbitrary solver
struct Plant : public ControlledSystem<1, 1>
{
    Plant* clone() const override { return new Plant(*this); }
    static double f(double x, double t, double u)
    {
        double a[] = {x, t, u};
        return ctv::uf("plant", a);
    }
    void computeControlledDynamics(const StateVector<1>& x, const double& t, const ControlVector<1>& u, StateVector<1>& d) override { d(0) = f(x(0), t, u(0)); }
};
struct Solver
{
    static const size_t STATE_D = 1, CONTROL_D = 1, POS_DIM = 0, VEL_DIM = 1;
    typedef double Scalar_t;
    typedef Policy Policy_t;
    struct Settings_t { double dt; };
    typedef ContinuousOptConProblem<1, 1, double> Prob;
    typedef Prob OptConProblem_t;
    double T;
    StateVector<1> x0;
    Policy guess, sol;
    bool ok = true;
    int prepared = 0, finished = 0;
    Solver(const Prob& p, const Settings_t& s) : T(p.getTimeHorizon()) { x0.setZero(); }
    double getTimeHorizon() const { return T; }
    void changeTimeHorizon(double t) { T = t; }
    void setInitialGuess(const Policy& p) { guess = p; }
    void prepareMPCIteration() { prepared++; }
    bool finishMPCIteration() { finished++; return ok; }
    void changeInitialState(const StateVector<1>& x) { x0 = x; }
    const Policy& getSolution() { return sol; }
};
struct Const : public Controller<1, 1>
{
    double u;
    Const(double v) : u(v) {}
    Const* clone() const override { return new Const(*this); }
    void computeControl(const StateVector<1>& x, const double& t, ControlVector<1>& o) override { o(0) = u; }
};
extern "C" void proof_mpc_iterations()
{
    double dt = ctv::pos("dt"), h = ctv::pos("h");
    long K = 2;
    double T0 = K * dt;
    ContinuousOptConProblem<1, 1> prob(std::make_shared<Plant>(), nullptr, nullptr);
    prob.setTimeHorizon(T0);
    mpc_settings st;
    st.useExternalTiming_ = true;
    st.stateForwardIntegration_ = ctv_choose("forward", 0, 1);
    st.stateForwardIntegratorType_ = IntegrationType::EULERCT;
    st.stateForwardIntegration_dt_ = 0.001;
    st.fixedDelayUs_ = 1000 * ctv_choose("delay", 0, 2);
    double delay = 1e-6 * st.fixedDelayUs_;
    ctv_assume(dt > 0.01);
    Solver::Settings_t ss;
    ss.dt = dt;
    std::vector<double> u, L, x;
    Policy init = policy(K, dt, u, L, x);
    MPC<Solver> mpc(prob, ss, st, std::make_shared<StateFeedbackPolicyHandler<1, 1, double>>(dt));
    mpc.setInitialGuess(init);
    Solver& s = mpc.getSolver();
    same(s.guess, K, dt, u, L, x, 0);
    double t0 = ctv_real("t0"), ts;
    // first iteration: no forward integration
    mpc.prepareIteration(t0);
    ctv_eqi(s.prepared, 1, "prepared");
    ctv_eq(s.T, T0, "constant horizon");
    same(s.guess, K, dt, u, L, x, 0);
    std::vector<double> u1, L1, x1;
    s.sol = policy(K, dt, u1, L1, x1);
    StateVector<1> xm;
    ctv::fill(xm, "xm");
    Policy np;
    bool ok = s.ok = ctv_choose("first successful", 0, 1);
    ctv_check(mpc.finishIteration(xm, t0, np, ts) == ok, "success reported");
    ctv_eqi(s.finished, 1, "finished");
    ctv_eq(s.x0(0), xm(0), "first solve starts at the measured state");
    ctv_eq(ts, t0, "time stamp of the first policy (no time passes on the external clock)");
    same(np, K, dt, ok ? u1 : u, ok ? L1 : L, ok ? x1 : x, 0);
    // second iteration: e seconds later, the state is predicted over the delay
    double e = ctv_real("elapsed");
    ctv_assume(e >= 0.0 && e + delay < dt);  // within the first stage of the last policy: no shift
    mpc.prepareIteration(t0 + e);
    ctv_eq(s.T, T0, "constant horizon");
    same(s.guess, K, dt, ok ? u1 : u, ok ? L1 : L, ok ? x1 : x, 0);
    double uc = ctv_real("uc");
    std::shared_ptr<Const> c = std::make_shared<Const>(uc);
    s.ok = true;
    std::vector<double> u2, L2, x2;
    s.sol = policy(K, dt, u2, L2, x2);
    ctv_check(mpc.finishIteration(xm, t0 + e, np, ts, c), "success reported");
    double xp = xm(0);
    if (st.stateForwardIntegration_)
        for (long i = 0; i < st.fixedDelayUs_ / 1000; i++) xp += 0.001 * Plant::f(xp, e + i * 0.001, uc);
    ctv_eq(s.x0(0), xp, "state predicted over the delay under the given controller");
    ctv_eq(ts, t0 + e + delay, "time stamp of the policy: measurement time plus delay");
    same(np, K, dt, u2, L2, x2, 0);
    ctv_cover("two iterations");
    double Tn = ctv::pos("Tn");
    mpc.resetMpc(Tn);
    ctv_eq(s.T, Tn, "reset changes the horizon");
    ctv_eq(mpc.timeSinceFirstSuccessfulSolve(t0 + e), 0.0, "reset forgets the solves");
}
// post-truncation: a measurement taken later than the predicted delay cuts the elapsed stages off the new policy
extern "C" void proof_mpc_post_truncation()
{
    double dt = ctv::pos("dt"), e = ctv_real("elapsed"), frac = ctv_real("fraction");
    long K = 3;
    ContinuousOptConProblem<1, 1> prob(std::make_shared<Plant>(), nullptr, nullptr);
    prob.setTimeHorizon(K * dt);
    mpc_settings st;
    st.useExternalTiming_ = true;
    st.stateForwardIntegration_ = false;
    st.postTruncation_ = ctv_choose("post truncation", 0, 1);
    double delay = 0.001;
    st.fixedDelayUs_ = 1000;
    ctv_assume(dt > 0.01 && e >= 0.0 && e + delay < dt && frac > 0.0 && frac < 1.0);
    Solver::Settings_t ss;
    ss.dt = dt;
    std::vector<double> u, L, x;
    MPC<Solver> mpc(prob, ss, st, std::make_shared<StateFeedbackPolicyHandler<1, 1, double>>(dt));
    mpc.setInitialGuess(policy(K, dt, u, L, x));
    Solver& s = mpc.getSolver();
    double t0 = ctv_real("t0"), ts;
    StateVector<1> xm;
    ctv::fill(xm, "xm");
    std::vector<double> u1, L1, x1, u2, L2, x2;
    Policy np;
    mpc.prepareIteration(t0);
    s.sol = policy(K, dt, u1, L1, x1);
    mpc.finishIteration(xm, t0, np, ts);
    same(np, K, dt, u1, L1, x1, 0);
    mpc.prepareIteration(t0 + e);
    s.sol = policy(K, dt, u2, L2, x2);
    s.ok = ctv_choose("successful", 0, 1);
    long m = ctv_choose("stages late", -1, 3);  // -1: the measurement is not later than predicted
    double late = m < 0 ? frac * delay : delay + m * dt + frac * dt;
    ctv_check(mpc.finishIteration(xm, t0 + e + late, np, ts) == s.ok, "success reported");
    long cut = st.postTruncation_ && m > 0 ? (m < K - 1 ? m : K - 1) : 0;
    if (s.ok)
    {
        ctv_eq(ts, t0 + e + late + delay + cut * dt, "time stamp: measurement time, plus delay, plus what was cut off");
        same(np, K - cut, dt, u2, L2, x2, cut);
    }
    else
    {
        ctv_eq(ts, t0 + e + late, "time stamp of an unsuccessful solve");
        same(np, K, dt, u1, L1, x1, 0);
    }
    ctv_cover("post truncation");
}
// a horizon strategy given to the constructor or set later is the one that is used
struct Fixed : public ct::optcon::MpcTimeHorizon
{
    double T;
    Fixed(double t) : ct::optcon::MpcTimeHorizon(mpc_settings(), t), T(t) {}
    bool computeNewTimeHorizon(const double& a, const double& b, double& n) override { n = T; return true; }
};
extern "C" void proof_mpc_strategy_replaced()
{
    double dt = 1.0;
    ContinuousOptConProblem<1, 1> prob(std::make_shared<Plant>(), nullptr, nullptr);
    prob.setTimeHorizon(2.0);
    mpc_settings st;
    st.useExternalTiming_ = true;
    Solver::Settings_t ss;
    ss.dt = dt;
    double Tc = ctv_choose("T", 1, 3);
    auto h = std::make_shared<Fixed>(Tc);
    bool later = ctv_choose("later", 0, 1);
    MPC<Solver> mpc(prob, ss, st, std::make_shared<StateFeedbackPolicyHandler<1, 1, double>>(dt), later ? nullptr : h);
    if (later) mpc.setTimeHorizonStrategy(h);
    std::vector<double> u, L, x;
    mpc.setInitialGuess(policy(2, dt, u, L, x));
    mpc.prepareIteration(ctv_real("t0"));
    ctv_eq(mpc.getSolver().T, Tc, "horizon of the custom strategy");
    same(mpc.getSolver().guess, (long)Tc, dt, u, L, x, 0);
    ctv_check(mpc.timeHorizonReached(), "end reported by the custom strategy");
    mpc_settings bad = st;
    bad.measureDelay_ = true;
    ctv_check(ctv::throws([&]() { mpc.updateSettings(bad); }), "contradicting settings rejected");
    ctv_cover("custom");
}
