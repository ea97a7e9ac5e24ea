// C24: Kalman filters: EKF, steady-state KF, UKF;  C25: filter models and disturbance-augmented systems.
#include "ctv.h"
#include "eigen_contracts.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;

template <int N>
struct Model : public SystemModelBase<N, 1>  // arbitrary process model
{
    typedef SystemModelBase<N, 1> Base;
    typedef StateVector<N> X;
    typedef StateMatrix<N> M;
    typedef ControlVector<1> U;
    double f(const char* s, int i, int j, const X& x, const U& u, double dt, double t)
    {
        double a[N + 5];
        for (int k = 0; k < N; k++) a[k] = x(k);
        a[N] = u(0), a[N + 1] = dt, a[N + 2] = t, a[N + 3] = i, a[N + 4] = j;
        return ctv_uf(s, N + 5, a);
    }
    M mat(const char* s, const X& x, const U& u, double dt, double t)
    {
        M m;
        for (int i = 0; i < N; i++)
            for (int j = 0; j < N; j++) m(i, j) = f(s, i, j, x, u, dt, t);
        return m;
    }
    X computeDynamics(const X& x, const U& u, const double dt, double t) override
    {
        X r;
        for (int i = 0; i < N; i++) r(i) = f("f", i, 0, x, u, dt, t);
        return r;
    }
    M computeDerivativeState(const X& x, const U& u, const double dt, double t) override { return mat("dfdx", x, u, dt, t); }
    M computeDerivativeNoise(const X& x, const U& u, const double dt, double t) override { return mat("dfdv", x, u, dt, t); }
};
template <int N, int K>
struct Meas : public LinearMeasurementModel<K, N>  // arbitrary measurement model
{
    typedef StateVector<N> X;
    double h(const char* s, int i, int j, const X& x, double t)
    {
        double a[N + 3];
        for (int k = 0; k < N; k++) a[k] = x(k);
        a[N] = t, a[N + 1] = i, a[N + 2] = j;
        return ctv_uf(s, N + 3, a);
    }
    OutputVector<K> computeMeasurement(const X& x, const Time& t = 0) override
    {
        OutputVector<K> r;
        for (int i = 0; i < K; i++) r(i) = h("h", i, 0, x, t);
        return r;
    }
    OutputStateMatrix<K, N> computeDerivativeState(const X& x, const Time& t) override
    {
        OutputStateMatrix<K, N> m;
        for (int i = 0; i < K; i++)
            for (int j = 0; j < N; j++) m(i, j) = h("dhdx", i, j, x, t);
        return m;
    }
    OutputMatrix<K> computeDerivativeNoise(const X& x, const Time& t) override
    {
        OutputMatrix<K> m;
        for (int i = 0; i < K; i++)
            for (int j = 0; j < K; j++) m(i, j) = h("dhdw", i, j, x, t);
        return m;
    }
};
// ---- extended Kalman filter: any number of predictions and updates from any state (one operation from an arbitrary state)
template <int N, int K>
static void ekf()
{
    auto f = std::make_shared<Model<N>>();
    auto h = std::make_shared<Meas<N, K>>();
    StateMatrix<N> Q, P0;
    OutputMatrix<K> R;
    StateVector<N> x0;
    ctv::fill(Q, "Q");
    ctv::fillsym(P0, "P0");
    ctv::fill(R, "R");
    ctv::fill(x0, "x0");
    ExtendedKalmanFilter<N, 1, K> e(f, h, Q, R, x0, P0);
    ctv::eqm(e.getEstimate(), x0, "initial estimate");
    ctv::eqm(e.getCovarianceMatrix(), P0, "initial covariance");
    double dt = ctv::pos("dt"), t = ctv_real("t");
    if (ctv_choose("op", 0, 1) == 0)
    {
        ControlVector<1> u;
        ctv::fill(u, "u");
        StateVector<N> r = e.predict(u, dt, t), want = f->computeDynamics(x0, u, dt, t);
        StateMatrix<N> F = f->mat("dfdx", x0, u, dt, t), V = f->mat("dfdv", x0, u, dt, t);
        ctv::eqm(r, want, "predicted estimate");
        ctv::eqm(e.getEstimate(), want, "predicted estimate stored");
        StateMatrix<N> Pw = F * P0 * F.transpose() + V * (dt * Q) * V.transpose();
        ctv::eqm(e.getCovarianceMatrix(), Pw, "predicted covariance");
        ctv_cover("predict");
        return;
    }
    OutputVector<K> y;
    ctv::fill(y, "y");
    OutputStateMatrix<K, N> H = h->computeDerivativeState(x0, t);
    OutputMatrix<K> W = h->computeDerivativeNoise(x0, t);
    OutputMatrix<K> S = H * P0 * H.transpose() + W * R * W.transpose();
    double det = K == 1 ? S(0, 0) : S(0, 0) * S(K - 1, K - 1) - S(0, K - 1) * S(K - 1, 0);
    ctv_assume(det != 0.0);
    OutputMatrix<K> Si;
    if (K == 1)
        Si(0, 0) = 1.0 / det;
    else
        Si(0, 0) = S(K - 1, K - 1) / det, Si(K - 1, K - 1) = S(0, 0) / det, Si(0, K - 1) = -S(0, K - 1) / det, Si(K - 1, 0) = -S(K - 1, 0) / det;
    Eigen::Matrix<double, N, K> G = P0 * H.transpose() * Si;
    StateVector<N> want = x0 + G * (y - h->computeMeasurement(x0, t));
    StateVector<N> r = e.update(y, dt, t);
    ctv::eqm(r, want, "corrected estimate (gain P H' S^-1, innovation at the measurement time)");
    ctv::eqm(e.getEstimate(), want, "corrected estimate stored");
    StateMatrix<N> Pw = P0 - G * H * P0;
    ctv::eqm(e.getCovarianceMatrix(), Pw, "corrected covariance");
    ctv_cover("update");
}
extern "C" void proof_ekf_11() { ekf<1, 1>(); }
extern "C" void proof_ekf_21() { ekf<2, 1>(); }
extern "C" void proof_ekf_22() { ekf<2, 2>(); }
extern "C" void proof_estimate_and_models_replaced()
{
    auto f = std::make_shared<Model<1>>(), f2 = std::make_shared<Model<1>>();
    auto h = std::make_shared<Meas<1, 1>>();
    StateVector<1> x0, x1;
    ctv::fill(x0, "x0");
    ctv::fill(x1, "x1");
    ExtendedKalmanFilter<1, 1, 1> e(f, h, StateMatrix<1>::Zero(), OutputMatrix<1>::Identity(), x0, StateMatrix<1>::Zero());
    e.setEstimate(x1);
    e.setSystemModel(f2);
    e.setMeasurementModel(h);
    ctv::eqm(e.getEstimate(), x1, "estimate set");
    ControlVector<1> u;
    ctv::fill(u, "u");
    double dt = ctv::pos("dt"), t = ctv_real("t");
    ctv::eqm(e.predict(u, dt, t), f2->computeDynamics(x1, u, dt, t), "prediction from the estimate set");
    ctv_cover("set");
}
// ---- steady-state Kalman filter: filter gain P H' (H P H' + R)^-1 with P the steady-state Riccati solution of the linearisation
extern "C" void proof_steady_state()
{
    auto f = std::make_shared<Model<1>>();
    auto h = std::make_shared<Meas<1, 1>>();
    StateMatrix<1> Q;
    OutputMatrix<1> R;
    StateVector<1> x0;
    Q << ctv::pos("Q");
    R << ctv::pos("R");
    ctv::fill(x0, "x0");
    long iters = ctv_choose("iterations", 1, 2);
    SteadyStateKalmanFilter<1, 1, 1> e(f, h, Q, R, x0, iters);
    ctv::eqm(e.getEstimate(), x0, "initial estimate");
    double dt = ctv::pos("dt"), t = ctv_real("t"), t2 = ctv_real("t2");
    ControlVector<1> u;
    ctv::fill(u, "u");
    StateVector<1> xp = f->computeDynamics(x0, u, dt, t);
    ctv::eqm(e.predict(u, dt, t), xp, "predicted estimate: the model's step of length dt at time t");
    ctv::eqm(e.getEstimate(), xp, "stored");
    StateMatrix<1> A = f->computeDerivativeState(x0, u, dt, t), At = A.transpose(), P0 = StateMatrix<1>::Zero(), P;
    OutputStateMatrix<1, 1> H = h->computeDerivativeState(xp, t2);
    StateControlMatrix<1, 1> Ht;
    Ht << H(0);
    Eigen::Matrix<double, 1, 1> K;
    DARE<1, 1> dare;
    bool thr = ctv::throws([&]() { P = dare.computeSteadyStateRiccatiMatrix(Q, R, At, Ht, P0, K, false, 1e-6, iters); });
    OutputVector<1> y;
    ctv::fill(y, "y");
    StateVector<1> r;
    bool thr2 = ctv::throws([&]() { r = e.update(y, dt, t2); });
    ctv_check(thr == thr2, "error exactly when the Riccati iteration does not converge");
    if (thr) { ctv_cover("not converged"); return; }
    double S = H(0) * P(0) * H(0) + R(0);
    ctv_assume(S > 0.0);
    ctv_eq(r(0), xp(0) + P(0) * H(0) / S * (y(0) - h->computeMeasurement(xp, t2)(0)), "Kalman correction with the steady-state covariance");
    ctv_cover("converged");
}
// ---- unscented Kalman filter: scaled unscented transform through the models, noise entering additively
template <int N>
static Eigen::Matrix<double, N, N> chol(const Eigen::Matrix<double, N, N>& P)
{
    Eigen::Matrix<double, N, N> L = Eigen::Matrix<double, N, N>::Zero();
    ctv_assume(P(0, 0) > 0.0);
    L(0, 0) = std::sqrt(P(0, 0));
    if (N > 1)
    {
        L(N - 1, 0) = P(N - 1, 0) / L(0, 0);
        double d = P(N - 1, N - 1) - L(N - 1, 0) * L(N - 1, 0);
        ctv_assume(d > 0.0);
        L(N - 1, N - 1) = std::sqrt(d);
    }
    return L;
}
template <int N, int K>
static void ukf(bool settings, bool upd)
{
    auto f = std::make_shared<Model<N>>();
    auto h = std::make_shared<Meas<N, K>>();
    const int S = 2 * N + 1;
    StateMatrix<N> P0;
    StateVector<N> x0;
    ctv::fillsym(P0, "P0");
    ctv::fill(x0, "x0");
    double al = ctv::pos("alpha"), be = ctv_real("beta"), ka = ctv_real("kappa");
    if (upd) al = 0.5, ka = 3.0;  // update: numeric spread (the weights are covered by the prediction, beta only enters here)
    ctv_assume(N + ka > 0.0);
    UnscentedKalmanFilterSettings<N> st;
    st.x0 = x0, st.P0 = P0, st.alpha = al, st.beta = be, st.kappa = ka;
    std::shared_ptr<UnscentedKalmanFilter<N, 1, K>> e;
    if (settings)
        e = std::make_shared<UnscentedKalmanFilter<N, 1, K>>(f, h, st);
    else
        e = std::make_shared<UnscentedKalmanFilter<N, 1, K>>(f, h, x0, al, be, ka, P0);
    ctv::eqm(e->getEstimate(), x0, "initial estimate");
    double lam = al * al * (N + ka) - N, gam = std::sqrt(N + lam);
    double wm0 = lam / (N + lam), wc0 = wm0 + 1 - al * al + be, wi = 1 / (2 * (N + lam));
    Eigen::Matrix<double, N, N> L = chol<N>(P0);
    StateVector<N> pts[S], xm;
    double dt = ctv::pos("dt"), t = ctv_real("t"), t2 = ctv_real("t2");
    ControlVector<1> u;
    ctv::fill(u, "u");
    for (int i = 0; i < S; i++)
    {
        StateVector<N> p = x0;
        if (i > 0) p += (i <= N ? gam : -gam) * L.col((i - 1) % N);
        pts[i] = f->computeDynamics(p, u, dt, t);
    }
    xm = wm0 * pts[0];
    for (int i = 1; i < S; i++) xm += wi * pts[i];
    ctv::eqm(e->predict(u, dt, t), xm, "predicted estimate: weighted mean of the propagated sigma points");
    ctv::eqm(e->getEstimate(), xm, "stored");
    ctv_cover("predict");
    if (!upd) return;
    // update: observable through the corrected estimate
    OutputVector<K> y, ys[S], ym;
    ctv::fill(y, "y");
    for (int i = 0; i < S; i++) ys[i] = h->computeMeasurement(pts[i], t2);
    ym = wm0 * ys[0];
    for (int i = 1; i < S; i++) ym += wi * ys[i];
    OutputMatrix<K> Pyy = h->computeDerivativeNoise(xm, t2);
    Eigen::Matrix<double, N, K> Pxy;
    Pxy.setZero();
    for (int i = 0; i < S; i++)
    {
        double w = i ? wi : wc0;
        Pyy += w * (ys[i] - ym) * (ys[i] - ym).transpose();
        Pxy += w * (pts[i] - xm) * (ys[i] - ym).transpose();
    }
    ctv_assume(Pyy(0, 0) != 0.0);
    StateVector<N> xc = xm + Pxy * (1 / Pyy(0, 0)) * (y - ym);
    ctv::eqm(e->update(y, dt, t2), xc, "corrected estimate: gain Pxy Pyy^-1");
    ctv_cover("update");
}
extern "C" void proof_ukf_predict_1() { ukf<1, 1>(ctv_choose("settings", 0, 1), false); }
extern "C" void proof_ukf_predict_2() { ukf<2, 1>(false, false); }
extern "C" void proof_ukf_update_1() { ukf<1, 1>(ctv_choose("settings", 0, 1), true); }
extern "C" void proof_ukf_update_2() { ukf<2, 1>(false, true); }
// the covariance of predictions and updates, observed through the sigma points of the next prediction
extern "C" void proof_ukf_covariance()
{
    auto f = std::make_shared<Model<1>>();
    auto h = std::make_shared<Meas<1, 1>>();
    StateMatrix<1> P0;
    StateVector<1> x;
    P0 << ctv::pos("P0");
    ctv::fill(x, "x0");
    double al = 0.5, be = ctv_real("beta"), ka = 3.0;
    UnscentedKalmanFilter<1, 1, 1> e(f, h, x, al, be, ka, P0);
    double gam = 1.0, wm0 = 0.0, wc0 = 0.75 + be, wi = 0.5, P = P0(0), t = ctv_real("t");
    double dt = ctv::pos("dt");
    ControlVector<1> u;
    ctv::fill(u, "u");
    bool upd = ctv_choose("update", 0, 1);
    for (int k = 0; k < 2; k++)
    {
        ctv_assume(P > 0.0);
        StateVector<1> p[3] = {x, x, x}, q[3];
        p[1](0) += gam * std::sqrt(P);
        p[2](0) -= gam * std::sqrt(P);
        for (int i = 0; i < 3; i++) q[i] = f->computeDynamics(p[i], u, dt, t);
        StateVector<1> xm = wm0 * q[0] + wi * q[1] + wi * q[2];
        P = f->computeDerivativeNoise(xm, u, dt, t)(0);
        for (int i = 0; i < 3; i++) P += (i ? wi : wc0) * (q[i](0) - xm(0)) * (q[i](0) - xm(0));
        ctv::eqm(e.predict(u, dt, t), xm, "prediction with the covariance of the previous operations");
        x = xm;
        if (k == 0 && upd)
        {
            OutputVector<1> y;
            ctv::fill(y, "y");
            double ys[3], ym, Pyy = h->computeDerivativeNoise(x, t)(0), Pxy = 0;
            for (int i = 0; i < 3; i++) ys[i] = h->computeMeasurement(q[i], t)(0);
            ym = wm0 * ys[0] + wi * ys[1] + wi * ys[2];
            for (int i = 0; i < 3; i++)
            {
                Pyy += (i ? wi : wc0) * (ys[i] - ym) * (ys[i] - ym);
                Pxy += (i ? wi : wc0) * (q[i](0) - xm(0)) * (ys[i] - ym);
            }
            ctv_assume(Pyy != 0.0);
            double K = Pxy / Pyy;
            P -= K * Pyy * K;
            x(0) += K * (y(0) - ym);
            ctv::eqm(e.update(y, dt, t), x, "correction");
            ctv_cover("update");
        }
    }
    ctv_cover("two predictions");
}
// ---- models
struct Sens : public SensitivityApproximation<2, 1, 1, 1>  // arbitrary sensitivities
{
    typedef SensitivityApproximation<2, 1, 1, 1> B;
    double dt = 0;
    Sens() : B(0.5) {}
    void getAandB(const StateVector<2>& x, const ControlVector<1>& u, const StateVector<2>& xn, const int n, size_t sub, StateMatrix<2>& A, StateControlMatrix<2, 1>& Bm) override
    {
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 3; j++)
            {
                double a[] = {x(0), x(1), u(0), dt, (double)n, (double)i, (double)j};
                (j < 2 ? A(i, j) : Bm(i, 0)) = ctv::uf("sens", a);
            }
    }
    void setTimeDiscretization(const double& d) override { dt = d; }
};
struct Plant : public ControlledSystem<2, 1>
{
    Plant* clone() const override { return new Plant(*this); }
    static double f(int i, const StateVector<2>& x, double t, double u)
    {
        double a[] = {x(0), x(1), t, u, (double)i};
        return ctv::uf("plant", a);
    }
    void computeControlledDynamics(const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& d) override
    {
        for (int i = 0; i < 2; i++) d(i) = f(i, x, t, u(0));
    }
};
extern "C" void proof_ct_system_model()
{
    auto sys = std::make_shared<Plant>();
    auto sens = std::make_shared<Sens>();
    StateMatrix<2> V;
    ctv::fill(V, "V");
    bool rk = ctv_choose("rk4", 0, 1);
    CTSystemModel<2, 1> m(sys, sens, V, rk ? IntegrationType::RK4CT : IntegrationType::EULERCT);
    StateVector<2> x, w;
    ctv::fill(x, "x");
    ControlVector<1> u;
    double dt = ctv::pos("dt");
    for (int rep = 0; rep < 2; rep++)  // the control of every call is used
    {
        ctv::fill(u, "u");
        double t = ctv_real("t");
        StateVector<2> k1, k2, k3, k4;
        auto F = [&](const StateVector<2>& z, double tt) { StateVector<2> d; sys->computeControlledDynamics(z, tt, u, d); return d; };
        k1 = F(x, t);
        if (rk)
        {
            k2 = F(x + dt / 2 * k1, t + dt / 2);
            k3 = F(x + dt / 2 * k2, t + dt / 2);
            k4 = F(x + dt * k3, t + dt);
            w = x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        }
        else
            w = x + dt * k1;
        ctv::eqm(m.computeDynamics(x, u, dt, t), w, "one integration step of length dt from t under the given control");
    }
    long n = ctv_choose("n", 0, 3);
    StateMatrix<2> A = m.computeDerivativeState(x, u, dt, n * dt), Aw;
    StateControlMatrix<2, 1> Bw;
    sens->dt = dt;
    sens->getAandB(x, u, x, n, 1, Aw, Bw);
    ctv::eqm(A, Aw, "sensitivity at the state, control and step of the query, for the step length of the query");
    ctv::eqm(m.computeDerivativeNoise(x, u, dt, n * dt), V, "noise sensitivity");
    ctv_cover("model");
}
extern "C" void proof_lti_measurement()
{
    OutputStateMatrix<1, 2> C;
    OutputMatrix<1> W;
    ctv::fill(C, "C");
    ctv::fill(W, "W");
    LTIMeasurementModel<1, 2> m(C, W);
    StateVector<2> x;
    ctv::fill(x, "x");
    double t = ctv_real("t");
    ctv_eq(m.computeMeasurement(x, t)(0), C(0) * x(0) + C(1) * x(1), "C x");
    ctv::eqm(m.computeDerivativeState(x, t), C, "C");
    ctv::eqm(m.computeDerivativeNoise(x, t), W, "W");
    LTIMeasurementModel<2, 2> id;
    ctv::eqm(id.computeMeasurement(x, t), x, "the default model measures the state");
    ctv::eqm(id.computeDerivativeState(x, t), Eigen::Matrix2d::Identity().eval(), "default derivative");
    ctv::eqm(id.computeDerivativeNoise(x, t), Eigen::Matrix2d::Zero().eval(), "default noise derivative");
    ctv_cover("measurement");
}
struct Ctl : public Controller<2, 1>
{
    double tag;
    Ctl(double g) : tag(g) {}
    Ctl* clone() const override { return new Ctl(*this); }
    void computeControl(const StateVector<2>& x, const double& t, ControlVector<1>& u) override
    {
        double a[] = {x(0), x(1), t, tag};
        u(0) = ctv::uf("ctl", a);
    }
    ControlMatrix<1> d(const char* n, const StateVector<2>& x, double t)
    {
        double a[] = {x(0), x(1), t, tag};
        ControlMatrix<1> m;
        m << ctv::uf(n, a);
        return m;
    }
    ControlMatrix<1> getDerivativeU0(const StateVector<2>& x, const double t) override { return d("du0", x, t); }
    ControlMatrix<1> getDerivativeUf(const StateVector<2>& x, const double t) override { return d("duf", x, t); }
};
// the augmented system [x; d]: plant under u + d, constant disturbance; the controller sees the plant state
extern "C" void proof_input_disturbed_system()
{
    auto sys = std::make_shared<Plant>();
    auto c0 = std::make_shared<Ctl>(ctv_real("tag0")), c1 = std::make_shared<Ctl>(ctv_real("tag1"));
    bool has = ctv_choose("controller", 0, 1);
    if (has) sys->setController(c0);
    InputDisturbedSystem<2, 1> d0(sys);
    std::shared_ptr<InputDisturbedSystem<2, 1>> cp;
    bool viaClone = ctv_choose("clone", 0, 1);
    if (viaClone) cp.reset(d0.clone());
    InputDisturbedSystem<2, 1>& d = viaClone ? *cp : d0;
    StateVector<3> z, dz;
    ctv::fill(z, "z");
    StateVector<2> x = z.head<2>();
    ControlVector<1> u;
    ctv::fill(u, "u");
    double t = ctv_real("t");
    d.computeControlledDynamics(z, t, u, dz);
    for (int i = 0; i < 2; i++) ctv_eq(dz(i), Plant::f(i, x, t, u(0) + z(2)), "plant driven by control plus disturbance");
    ctv_eq(dz(2), 0.0, "constant disturbance");
    if (ctv_choose("replace", 0, 1))
    {
        d.setController(c1);
        has = true;
        c0 = c1;
    }
    ControlVector<1> uc;
    c0->computeControl(x, t, uc);
    if (has)
    {
        d.computeDynamics(z, t, dz);
        for (int i = 0; i < 2; i++) ctv_eq(dz(i), Plant::f(i, x, t, uc(0) + z(2)), "closed loop: controller on the plant state");
        ctv_eq(dz(2), 0.0, "constant disturbance");
        ctv::eqm(d.getController()->getDerivativeU0(z, t), c0->getDerivativeU0(x, t), "dU0");
        ctv::eqm(d.getController()->getDerivativeUf(z, t), c0->getDerivativeUf(x, t), "dUf");
        ctv_cover("closed loop");
    }
    else
        ctv_check(ctv::throws([&]() { d.computeDynamics(z, t, dz); }), "no controller: reported");
    ctv_cover("open loop");
}
