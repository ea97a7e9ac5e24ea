// C07: activation functions.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;
extern "C" void proof_single_and_linear()
{
    double on = ctv_real("t_on"), off = ctv_real("t_off"), t = ctv_real("t");
    SingleActivation s(on, off), s2(s);
    ctv_check(s.isActive(t) == (on <= t && t < off), "single activation is active exactly on [t_on, t_off)");
    ctv_eq(s.computeActivation(t), 1, "single activation value");
    ctv_check(s2.isActive(t) == (on <= t && t < off), "copy");
    double k = ctv_real("slope"), v = ctv_real("start");
    LinearActivation l(on, off, k, v), l2(l);
    ctv_check(l.isActive(t) == (on <= t && t < off), "linear activation is active exactly on [t_on, t_off)");
    ctv_eq(l.computeActivation(t), v + k * (t - on), "linear ramp");
    ctv_eq(l2.computeActivation(t), v + k * (t - on), "linear ramp of a copy");
    ctv_check(l2.isActive(t) == (on <= t && t < off), "copy");
    tpl::ActivationBase<double> b;
    ctv_check(b.isActive(t), "default activation is always active");
    ctv_eq(b.computeActivation(t), 1, "default activation value");
    ctv_cover("done");
}
extern "C" void proof_periodic()
{
    double pct = ctv::pos("pct"), P = ctv::pos("period"), off = ctv_real("act_off"), po = ctv_real("period_off");
    ctv_assume(pct <= 1 && off >= 0 && off + pct * P <= P);
    PeriodicActivation p(pct, P, off, po), p2(p);
    long k = ctv_choose("k", 0, 3);  // period number
    double ph = ctv_real("phase");
    ctv_assume(ph >= 0 && ph < P);
    double t = po + k * P + ph;
    bool e = (off <= ph && ph < off + pct * P);
    ctv_check(p.isActive(t) == e, "active exactly on [offset, offset + pct*period) of every period");
    ctv_check(p2.isActive(t) == e, "copy");
    double b = ctv::pos("before");
    ctv_check(!p.isActive(po - b), "inactive before the period offset");
    ctv_eq(p.computeActivation(t), 1, "value");
    ctv_cover("done");
}
extern "C" void proof_rbf()
{
    double mu = ctv_real("mu"), sg = ctv::pos("sigma"), t = ctv_real("t");
    RBFGaussActivation r(mu, sg), r2(r);
    double e = 1.0 / std::sqrt(2.0 * M_PI * sg * sg) * std::exp(-(t - mu) * (t - mu) / (2 * sg * sg));
    ctv_check(r.isActive(t), "always active");
    ctv_eq(r.computeActivation(t), e, "Gaussian density");
    ctv_eq(r2.computeActivation(t), e, "Gaussian density of a copy");
    ctv_cover("done");
}
extern "C" void proof_barrier()
{
    double ub = ctv_real("ub"), lb = ctv_real("lb"), al = ctv_real("alpha"), x = ctv_real("x");
    long m = ctv_choose("mode", 0, 3);
    BarrierActivation b;
    if (m == 0) b = BarrierActivation(ub, lb, al);
    if (m == 1) b.setUpperBoundOnly(ub, al);
    if (m == 2) b.setLowerBoundOnly(lb, al);
    double U = (m == 0 || m == 1), L = (m == 0 || m == 2);
    auto f = [&](double y) { return U * std::exp(al * (y - ub)) + L * std::exp(al * (lb - y)); };
    ctv_eq(b.computeActivation(x), f(x), "barrier value");
    ctv_eq(b.firstOrderDerivative(x), U * al * std::exp(al * (x - ub)) - L * al * std::exp(al * (lb - x)), "first derivative of the barrier value");
    ctv_eq(b.secondOrderDerivative(x), U * al * al * std::exp(al * (x - ub)) + L * al * al * std::exp(al * (lb - x)), "second derivative of the barrier value");
    ctv_check(b.isActive(x), "always active");
    // re-configuring replaces the previous bounds
    b.setUpperBoundOnly(ub, al);
    ctv_eq(b.computeActivation(x), std::exp(al * (x - ub)), "upper bound only");
    b.setLowerBoundOnly(lb, al);
    ctv_eq(b.computeActivation(x), std::exp(al * (lb - x)), "lower bound only");
    ctv_cover("done");
}
