// C04: arrays and trajectories are edited element-wise, in order, exactly as documented.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
typedef StateVector<2> X;
typedef StateVectorArray<2> XA;

static XA arr(long n, const char* nm)
{
    XA a;
    for (long i = 0; i < n; i++)
    {
        X v;
        ctv::fill(v, nm);
        a.push_back(v);
    }
    return a;
}
static void same(const XA& a, const XA& b, const char* l)
{
    ctv_eqi(a.size(), b.size(), l);
    for (size_t i = 0; i < b.size(); i++) ctv::eqm(a[i], b[i], l);
}
extern "C" void proof_array_algebra()
{
    long n = ctv_choose("n", 0, 3);
    XA a = arr(n, "a"), b = arr(n, "b"), a0(a), b0(b);
    double s = ctv::pos("s");
    XA p = a + b, m = a - b, k = a * s, d = a / s;
    ctv_check(p.size() == (size_t)n && m.size() == (size_t)n && k.size() == (size_t)n && d.size() == (size_t)n, "size");
    for (long i = 0; i < n; i++)
        for (int j = 0; j < 2; j++)
        {
            ctv_eq(p[i](j), a0[i](j) + b0[i](j), "a+b");
            ctv_eq(m[i](j), a0[i](j) - b0[i](j), "a-b");
            ctv_eq(k[i](j), a0[i](j) * s, "a*s");
            ctv_eq(d[i](j) * s, a0[i](j), "a/s");
        }
    same(a, a0, "operands unchanged");
    same(b, b0, "operands unchanged");
    XA c(a), e(a);
    c += b;
    e -= b;
    same(c, p, "+=");
    same(e, m, "-=");
    same(b, b0, "operands unchanged by +=,-=");
    X off;
    ctv::fill(off, "off");
    c = a;
    c.addOffset(off);
    for (long i = 0; i < n; i++)
        for (int j = 0; j < 2; j++) ctv_eq(c[i](j), a0[i](j) + off(j), "addOffset");
    c.setConstant(off);
    ctv_eqi(c.size(), n, "setConstant size");
    for (long i = 0; i < n; i++) ctv::eqm(c[i], off, "setConstant");
    ctv_cover("done");
}
extern "C" void proof_array_size_mismatch_throws()
{
    long n = ctv_choose("n", 0, 3), m = ctv_choose("m", 0, 3);
    XA a = arr(n, "a"), b = arr(m, "b"), a0(a);
    bool bad = n != m;
    ctv_check(ctv::throws([&] { XA r = a + b; }) == bad, "operator+ rejects exactly mismatched sizes");
    ctv_check(ctv::throws([&] { XA r = a - b; }) == bad, "operator- rejects exactly mismatched sizes");
    if (bad)
    {
        ctv_check(ctv::throws([&] { a += b; }), "operator+= rejects mismatched sizes");
        ctv_check(ctv::throws([&] { a -= b; }), "operator-= rejects mismatched sizes");
        same(a, a0, "array unchanged by a rejected update");
    }
    ctv_cover("done");
}
extern "C" void proof_array_copy_erase_swap()
{
    long n = ctv_choose("n", 1, 4), m = ctv_choose("m", 0, 2);
    XA a = arr(n, "a"), b = arr(m, "b"), a0(a), b0(b);
    XA as;
    as = a;
    same(as, a0, "assignment");
    as = *&as;
    same(as, a0, "self assignment");
    XA rng(a.begin(), a.end());
    same(rng, a0, "range construction");
    X v;
    ctv::fill(v, "v");
    XA filled((int)n, v);
    ctv_eqi(filled.size(), n, "fill construction size");
    for (long i = 0; i < n; i++) ctv::eqm(filled[i], v, "fill construction");
    // copies are deep
    as[0] = v;
    same(a, a0, "copy is independent");
    long k = ctv_choose("k", 0, 4);
    if (k <= n)
    {
        XA e(a);
        e.eraseFront(k);
        ctv_eqi(e.size(), n - k, "eraseFront size");
        for (long i = k; i < n; i++) ctv::eqm(e[i - k], a0[i], "eraseFront keeps the tail in order");
    }
    a.swap(b);
    same(a, b0, "swap");
    same(b, a0, "swap");
    ctv_cover("done");
}
extern "C" void proof_time_array()
{
    long n = ctv_choose("n", 1, 5);
    double dt = ctv::pos("dt"), t0 = ctv_real("t0");
    TimeArray t(dt, n, t0);
    ctv_eqi(t.size(), n, "TimeArray size");
    for (long i = 0; i < n; i++) ctv_eq(t[i], t0 + i * dt, "TimeArray is uniform from t0");
    TimeArray z(dt, n);
    ctv_eqi(z.size(), n, "TimeArray size");
    for (long i = 0; i < n; i++) ctv_eq(z[i], i * dt, "TimeArray starts at 0 by default");
    TimeArray c((size_t)n, t0);
    ctv_eqi(c.size(), n, "constant TimeArray size");
    for (long i = 0; i < n; i++) ctv_eq(c[i], t0, "constant TimeArray");
    std::vector<double> v;
    for (long i = 0; i < n; i++) v.push_back(ctv_real("v"));
    TimeArray w(v);
    ScalarArray<double> s(v);
    ctv_check(w.size() == (size_t)n && s.size() == (size_t)n, "size from std::vector");
    for (long i = 0; i < n; i++)
    {
        ctv_eq(w[i], v[i], "TimeArray from std::vector");
        ctv_eq(s[i], v[i], "ScalarArray from std::vector");
    }
    auto eg = s.toEigenTrajectory();
    ctv_eqi(eg.size(), n, "toEigenTrajectory size");
    for (long i = 0; i < n; i++) ctv_eq(eg[i](0, 0), v[i], "toEigenTrajectory");
    ScalarArray<double> back;
    back.fromEigenTrajectory(eg);
    ctv_eqi(back.size(), n, "fromEigenTrajectory size");
    for (long i = 0; i < n; i++) ctv_eq(back[i], v[i], "Eigen round trip");
    ctv_cover("done");
}
extern "C" void proof_transpose_array()
{
    long n = ctv_choose("n", 1, 3);
    XA a = arr(n, "a");
    auto r = transposeArray(a);
    ctv_eqi(r.size(), 2, "transposeArray size");
    for (int j = 0; j < 2; j++)
    {
        ctv_check(r[j].rows() == n && r[j].cols() == 1, "transposeArray shape");
        for (long i = 0; i < n; i++) ctv_eq(r[j](i, 0), a[i](j), "transposeArray");
    }
    ctv_cover("done");
}
static void sameTraj(const StateTrajectory<2>& tr, const TimeArray& t, const XA& x, const char* l)
{
    ctv_eqi(tr.getTimeArray().size(), t.size(), l);
    ctv_eqi(tr.getDataArray().size(), x.size(), l);
    for (size_t i = 0; i < t.size(); i++) ctv_eq(tr.getTimeArray()[i], t[i], l);
    for (size_t i = 0; i < x.size(); i++) ctv::eqm(tr.getDataArray()[i], x[i], l);
}
static TimeArray times(long n)
{
    TimeArray t;
    double tk = ctv_real("t0");
    for (long i = 0; i < n; i++)
    {
        if (i) tk = tk + ctv::pos("gap");
        t.push_back(tk);
    }
    return t;
}
extern "C" void proof_trajectory_edit()
{
    long n = ctv_choose("n", 1, 4);
    TimeArray t = times(n);
    XA x = arr(n, "x");
    StateTrajectory<2> tr(t, x, LIN);
    sameTraj(tr, t, x, "constructed");
    ctv_eq(tr.startTime(), t[0], "startTime");
    ctv_eq(tr.finalTime(), t[n - 1], "finalTime");
    ctv_eq(tr.duration(), t[n - 1] - t[0], "duration");
    ctv_eqi(tr.size(), n, "size");
    ctv::eqm(tr.front(), x[0], "front");
    ctv::eqm(tr.back(), x[n - 1], "back");
    for (long i = 0; i < n; i++) ctv::eqm(tr[i], x[i], "operator[]");
    double dt = ctv_real("shift");
    StateTrajectory<2> sh(tr);
    sameTraj(sh, t, x, "copy");
    sh.shiftTime(dt);
    TimeArray ts;
    for (long i = 0; i < n; i++) ts.push_back(t[i] - dt);
    sameTraj(sh, ts, x, "shiftTime subtracts the offset from every time stamp, data unchanged");
    sameTraj(tr, t, x, "copy is independent");
    // push (absolute and relative), pop
    X v;
    ctv::fill(v, "v");
    double dur = ctv_real("dur");
    StateTrajectory<2> pu(tr);
    pu.push_back(v, dur, true);
    TimeArray tp(t);
    tp.push_back(dur);
    XA xp(x);
    xp.push_back(v);
    sameTraj(pu, tp, xp, "push_back absolute");
    pu.pop_back();
    sameTraj(pu, t, x, "pop_back undoes push_back");
    pu.push_back(v, dur, false);
    TimeArray tq(t);
    tq.push_back(t[n - 1] + dur);
    sameTraj(pu, tq, xp, "push_back relative to the last time");
    // eraseFront with shift
    long k = ctv_choose("k", 0, 4);
    if (k <= n)
    {
        StateTrajectory<2> e(tr);
        e.eraseFront(k, dt);
        TimeArray te;
        XA xe;
        for (long i = k; i < n; i++)
        {
            te.push_back(t[i] - dt);
            xe.push_back(x[i]);
        }
        sameTraj(e, te, xe, "eraseFront removes the first N samples and shifts time");
    }
    ctv_cover("done");
}
extern "C" void proof_trajectory_construct_swap()
{
    long n = ctv_choose("n", 1, 4), m = ctv_choose("m", 1, 2);
    double dt = ctv::pos("dt"), t0 = ctv_real("t0");
    XA x = arr(n, "x");
    StateTrajectory<2> u(x, dt, t0, ZOH);
    TimeArray tu;
    for (long i = 0; i < n; i++) tu.push_back(t0 + i * dt);
    sameTraj(u, tu, x, "uniform construction");
    long s = ctv_choose("s", 0, 3), e = ctv_choose("e", 0, 3);
    if (s <= e && e < n)
    {
        StateTrajectory<2> sub(u, s, e);
        TimeArray tsub;
        XA xsub;
        for (long i = s; i <= e; i++)
        {
            tsub.push_back(tu[i]);
            xsub.push_back(x[i]);
        }
        sameTraj(sub, tsub, xsub, "sub-trajectory [startIndex, endIndex]");
    }
    TimeArray t2 = times(m);
    XA x2 = arr(m, "y");
    StateTrajectory<2> w(t2, x2, ZOH);
    u.swapData(w);
    sameTraj(u, t2, x2, "swapData");
    sameTraj(w, tu, x, "swapData");
    StateTrajectory<2> li(ctv_choose("lin", 0, 1) ? LIN : ZOH);
    u = w;
    sameTraj(u, tu, x, "assignment");
    li = w;
    if (n > 1) ctv::eqm(li.eval(t0 + dt / 2), x[0], "assignment carries the interpolation type");
    u = *&u;
    sameTraj(u, tu, x, "self assignment");
    u.clear();
    ctv_eqi(u.size(), 0, "clear");
    sameTraj(w, tu, x, "assignment is deep");
    ctv_cover("done");
}
