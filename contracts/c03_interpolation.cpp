// C03: trajectories evaluate to the interpolant of their samples, whatever was asked before.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef StateVectorArray<2> XA;

static void samples(TimeArray& t, XA& x, long n)
{
    t.clear();
    x.clear();
    double tk = ctv_real("t0");
    for (long i = 0; i < n; i++)
    {
        if (i) tk = tk + ctv::pos("gap");
        t.push_back(tk);
        X v;
        ctv::fill(v, "x");
        x.push_back(v);
    }
}
// specification: index of the last sample time <= t (0 if t precedes all)
static long specIndex(const TimeArray& t, double q)
{
    long r = 0;
    for (size_t i = 0; i < t.size(); i++)
        if (t[i] <= q) r = i;
    return r;
}
static void checkEval(const TimeArray& t, const XA& x, double q, InterpolationType ty, const X& r, const char* l)
{
    long n = t.size();
    if (q <= t[0]) { ctv::eqm(r, x[0], l); return; }
    if (q >= t[n - 1]) { ctv::eqm(r, x[n - 1], l); return; }
    long i = specIndex(t, q);
    if (ty == ZOH) { ctv::eqm(r, x[i], l); return; }
    double w = (q - t[i]) / (t[i + 1] - t[i]);
    for (int k = 0; k < 2; k++) ctv_eq(r(k), x[i](k) + w * (x[i + 1](k) - x[i](k)), l);
}
struct Probe : public Interpolation<X>
{
    Probe(InterpolationType t) : Interpolation<X>(t) {}
    void setCached(int i) { this->index_ = i; }
};
// interpolation from an arbitrary cached index: representation invariant is index_ >= 0, nothing else
static void interp(InterpolationType ty)
{
    TimeArray t;
    XA x;
    long n = ctv_choose("n", 1, 5);
    samples(t, x, n);
    Probe p(ty);
    p.setCached(ctv_choose("cached", 0, n + 1));
    double q = ctv_real("q");
    X r;
    p.interpolate(t, x, q, r);
    checkEval(t, x, q, ty, r, "interpolated value");
    ctv_check(p.getGreatestLessTimeStampIndex() >= 0, "cached index stays non-negative");
    ctv_cover("interpolated");
}
extern "C" void proof_interpolate_lin() { interp(LIN); }
extern "C" void proof_interpolate_zoh() { interp(ZOH); }
extern "C" void proof_find_index()
{
    TimeArray t;
    XA x;
    long n = ctv_choose("n", 1, 5);
    samples(t, x, n);
    Probe p(LIN);
    p.setCached(ctv_choose("cached", 0, n + 1));
    double q = ctv_real("q");
    int i = p.findIndex(t, q);
    ctv_eqi(i, specIndex(t, q), "findIndex");
    ctv_eqi(p.getGreatestLessTimeStampIndex(), i, "cached index");
    ctv_cover("found");
}
// caller-supplied index is used and gives the same value
extern "C" void proof_interpolate_given_index()
{
    TimeArray t;
    XA x;
    long n = ctv_choose("n", 2, 4);
    samples(t, x, n);
    InterpolationType ty = ctv_choose("type", 0, 1) ? LIN : ZOH;
    Probe p(ty);
    p.setCached(ctv_choose("cached", 0, n - 1));
    double q = ctv_real("q");
    X r;
    p.interpolate(t, x, q, r, specIndex(t, q));
    checkEval(t, x, q, ty, r, "interpolated value");
    ctv_cover("interpolated");
}
static void seq(InterpolationType ty)
{
    TimeArray t;
    XA x;
    long n = ctv_choose("n", 1, 3);
    samples(t, x, n);
    StateTrajectory<2> tr(t, x, ty);
    double q1 = ctv_real("q1"), q2 = ctv_real("q2");
    X r = tr.eval(q1);
    checkEval(t, x, q1, ty, r, "first evaluation");
    r = tr.eval(q2);
    checkEval(t, x, q2, ty, r, "second evaluation");
    ctv_cover("evaluated");
}
extern "C" void proof_eval_sequence_lin() { seq(LIN); }
extern "C" void proof_eval_sequence_zoh() { seq(ZOH); }
// shrinking / replacing the samples under a warm cache
extern "C" void proof_eval_after_edit()
{
    TimeArray t, t2;
    XA x, x2;
    samples(t, x, 3);
    long n2 = ctv_choose("n2", 1, 4);
    samples(t2, x2, n2);
    InterpolationType ty = ctv_choose("type", 0, 1) ? LIN : ZOH;
    StateTrajectory<2> tr(t, x, ty);
    tr.eval(ctv_real("q1"));
    tr.setTime(t2);
    tr.setData(x2);
    double q2 = ctv_real("q2");
    X r = tr.eval(q2);
    checkEval(t2, x2, q2, ty, r, "evaluation after replacing the samples");
    StateTrajectory<2> cp(tr), as(ZOH);
    as = tr;
    double q3 = ctv_real("q3");
    checkEval(t2, x2, q3, ty, cp.eval(q3), "evaluation of a copy");
    checkEval(t2, x2, q3, ty, as.eval(q3), "evaluation of an assigned trajectory");
    long lo = ctv_choose("lo", 0, n2 - 1);
    StateTrajectory<2> sub(tr, lo, n2 - 1);
    TimeArray ts;
    XA xs;
    for (long i = lo; i < n2; i++) ts.push_back(t2[i]), xs.push_back(x2[i]);
    checkEval(ts, xs, q3, ty, sub.eval(q3), "evaluation of a segment");
    tr.setInterpolationType(ty == LIN ? ZOH : LIN);
    checkEval(t2, x2, q3, ty == LIN ? ZOH : LIN, tr.eval(q3), "evaluation after changing the interpolation type");
    ctv_cover("evaluated");
}
// swapped samples are evaluated under each trajectory's own interpolation type, with warm caches
extern "C" void proof_eval_after_swap()
{
    TimeArray t, t2;
    XA x, x2;
    samples(t, x, 2);
    samples(t2, x2, ctv_choose("n2", 1, 3));
    StateTrajectory<2> a(t, x, LIN), b(t2, x2, ZOH);
    double q1 = ctv_real("q1");
    if (ctv_choose("warm", 0, 1)) a.eval(q1), b.eval(q1);
    a.swapData(b);
    double q = ctv_real("q");
    checkEval(t2, x2, q, LIN, a.eval(q), "evaluation after swapData");
    checkEval(t, x, q, ZOH, b.eval(q), "evaluation after swapData");
    ctv_cover("evaluated");
}
extern "C" void proof_eval_scalar_trajectory()
{
    DiscreteTrajectoryBase<double> tr(LIN);
    double t0 = ctv_real("t0"), h1 = ctv::pos("h1"), h2 = ctv::pos("h2");
    double a = ctv_real("a"), b = ctv_real("b"), c = ctv_real("c");
    tr.push_back(a, t0, true);
    tr.push_back(b, h1, false);
    tr.push_back(c, h2, false);
    ctv_eq(tr.startTime(), t0, "startTime");
    ctv_eq(tr.finalTime(), t0 + h1 + h2, "finalTime");
    ctv_eq(tr.duration(), h1 + h2, "duration");
    double q = ctv_real("q");
    double r = tr.eval(q), e;
    if (q <= t0) e = a;
    else if (q <= t0 + h1) e = a + (b - a) * (q - t0) / h1;
    else if (q <= t0 + h1 + h2) e = b + (c - b) * (q - t0 - h1) / h2;
    else e = c;
    ctv_eq(r, e, "scalar interpolation");
    ctv_cover("evaluated");
}
// malformed trajectories are rejected, not evaluated
extern "C" void proof_eval_rejects_malformed()
{
    long n = ctv_choose("n", 0, 3), m = ctv_choose("m", 0, 3);
    TimeArray t, td;
    XA x, xd;
    samples(t, xd, n);
    samples(td, x, m);
    StateTrajectory<2> tr(t, x, ctv_choose("type", 0, 1) ? LIN : ZOH);
    double q = ctv_real("q");
    bool th = ctv::throws([&] { tr.eval(q); });
    ctv_check(th == (n == 0 || m == 0 || n != m), "eval throws exactly on empty or mismatched samples");
    bool th2 = ctv::throws([&] { (void)tr.size(); });
    ctv_check(th2 == (n != m), "size throws exactly on mismatched samples");
    ctv_cover("checked");
}
extern "C" void proof_get_index_from_time()
{
    TimeArray t;
    XA x;
    long n = ctv_choose("n", 1, 4);
    samples(t, x, n);
    StateTrajectory<2> tr(t, x, LIN);
    double q1 = ctv_real("q1"), q2 = ctv_real("q2");
    tr.eval(q1);
    ctv_eqi(tr.getIndexFromTime(q2), specIndex(t, q2), "getIndexFromTime");
    long k = ctv_choose("k", 0, n - 1);
    ctv_eq(tr.getTimeFromIndex(k), t[k], "getTimeFromIndex");
    ctv_eqi(tr.getIndexFromTime(tr.getTimeFromIndex(k)), k, "index/time round trip");
    ctv_cover("found");
}
// an enquiry on an empty trajectory must not spoil later enquiries
extern "C" void proof_empty_then_filled()
{
    StateTrajectory<2> tr(LIN);
    double q = ctv_real("q");
    ctv_check(ctv::throws([&] { tr.getIndexFromTime(q); }), "index query on an empty trajectory throws");
    TimeArray t;
    XA x;
    samples(t, x, ctv_choose("n", 1, 2));
    tr.setTime(t);
    tr.setData(x);
    double q2 = ctv_real("q2");
    checkEval(t, x, q2, LIN, tr.eval(q2), "evaluation after the trajectory was filled");
    ctv_cover("evaluated");
}
