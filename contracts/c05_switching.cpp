// C05: a mode schedule partitions the time axis; switched systems run exactly the scheduled mode.
#include "ctv.h"
#include <ct/core/core.h>
using namespace ct::core;

template <class Seq, class T>
static void sequence(T (*dur)(), T (*anyT)(const char*))
{
    long n = ctv_choose("phases", 1, 5);
    T t0 = anyT("t0");
    Seq s(t0);
    std::vector<T> b;
    std::vector<size_t> ph;
    b.push_back(t0);
    for (long i = 0; i < n; i++)
    {
        T d = dur();
        size_t p = (size_t)ctv_int("phase", 0, 1000);
        s.addPhase(p, d);
        b.push_back(b.back() + d);
        ph.push_back(p);
    }
    ctv_eqi(s.getNumPhases(), n, "getNumPhases");
    ctv_eqi(s.getNumSwitches(), n - 1, "getNumSwitches");
    ctv_check(s.getTotalDuration() == b[n] - b[0], "getTotalDuration");
    ctv_eqi(s.getFirstPhase(), ph[0], "getFirstPhase");
    ctv_eqi(s.getFinalPhase(), ph[n - 1], "getFinalPhase");
    for (long i = 0; i < n; i++)
    {
        ctv_check(s.getStartTimeFromIdx(i) == b[i], "phase start");
        ctv_check(s.getEndTimeFromIdx(i) == b[i + 1], "phase end = start of next");
        ctv_eqi(s.getPhaseFromIdx(i), ph[i], "getPhaseFromIdx");
    }
    T t = anyT("t");
    long idx = s.getIdxFromTime(t);
    ctv_check(idx >= 0 && idx < n, "index in range for every time");
    if (t < b[0]) ctv_eqi(idx, 0, "before the schedule: first phase");
    else if (t >= b[n]) ctv_eqi(idx, n - 1, "after the schedule: last phase");
    else
        for (long i = 0; i < n; i++) ctv_check((idx == i) == (b[i] <= t && t < b[i + 1]), "phase i is active exactly on [start_i, end_i)");
    ctv_eqi(s.getPhaseFromTime(t), ph[idx], "getPhaseFromTime");
    if (idx < n - 1)
    {
        auto e = s.getSwitchEventFromTime(t);
        ctv_eqi(e.pre_phase, ph[idx], "switch event pre_phase");
        ctv_eqi(e.post_phase, ph[idx + 1], "switch event post_phase");
        ctv_check(e.switch_time == b[idx + 1], "switch event time");
        auto f = s.getSwitchEventFromIdx(idx);
        ctv_check(f.pre_phase == e.pre_phase && f.post_phase == e.post_phase && f.switch_time == e.switch_time, "switch event from index");
    }
    ctv_cover("looked up");
}
static double durR() { return ctv::pos("dur"); }
static int durI() { return (int)ctv_int("dur", 1, 100000); }
static double anyR(const char* n) { return ctv_real(n); }
static int anyI(const char* n) { return (int)ctv_int(n, -1000000, 1000000); }
extern "C" void proof_continuous_mode_sequence() { sequence<ContinuousModeSequence, double>(durR, anyR); }
extern "C" void proof_discrete_mode_sequence() { sequence<DiscreteModeSequence, int>(durI, anyI); }

typedef StateVector<2> X;
typedef ControlVector<1> U;
static const char* FN[3][2] = {{"f00", "f01"}, {"f10", "f11"}, {"f20", "f21"}};
class CSys : public ControlledSystem<2, 1>
{
public:
    int id;
    CSys(int i) : id(i) {}
    CSys* clone() const override { return new CSys(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        double a[4] = {x(0), x(1), u(0), t};
        d(0) = ctv::uf(FN[id][0], a);
        d(1) = ctv::uf(FN[id][1], a);
    }
};
class DSys : public DiscreteControlledSystem<2, 1>
{
public:
    int id;
    DSys(int i) : id(i) {}
    DSys* clone() const override { return new DSys(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& xn) override
    {
        double a[4] = {x(0), x(1), u(0), (double)n};
        xn(0) = ctv::uf(FN[id][0], a);
        xn(1) = ctv::uf(FN[id][1], a);
    }
};
class LSys : public LinearSystem<2, 1>
{
public:
    int id;
    StateMatrix<2> A;
    StateControlMatrix<2, 1> B;
    LSys(int i) : id(i) { ctv::fill(A, "A"); ctv::fill(B, "B"); }
    LSys* clone() const override { return new LSys(*this); }
    const StateMatrix<2>& getDerivativeState(const X&, const U&, const double) override { return A; }
    const StateControlMatrix<2, 1>& getDerivativeControl(const X&, const U&, const double) override { return B; }
};
class DLSys : public DiscreteLinearSystem<2, 1>
{
public:
    StateMatrix<2> A;
    StateControlMatrix<2, 1> B;
    DLSys() { ctv::fill(A, "A"); ctv::fill(B, "B"); }
    DLSys* clone() const override { return new DLSys(*this); }
    void getAandB(const X&, const U&, const X&, const int, size_t, StateMatrix<2>& a, StateControlMatrix<2, 1>& b) override { a = A; b = B; }
};
static size_t activeC(const std::vector<double>& b, const std::vector<size_t>& m, double t)
{
    size_t r = m[0];
    for (size_t i = 1; i < m.size(); i++)
        if (t >= b[i]) r = m[i];
    return r;
}
template <class Seq, class T>
static void schedule(Seq& s, std::vector<T>& b, std::vector<size_t>& m, T t0, T (*dur)())
{
    b.push_back(t0);
    for (long i = 0; i < 3; i++)
    {
        T d = dur();
        size_t k = (size_t)ctv_choose("mode", 0, 1) + (i == 2 ? 1 : 0);
        s.addPhase(k, d);
        b.push_back(b.back() + d);
        m.push_back(k);
    }
}
extern "C" void proof_switched_controlled_system()
{
    double t0 = ctv_real("t0");
    ContinuousModeSequence s(t0);
    std::vector<double> b;
    std::vector<size_t> m;
    schedule(s, b, m, t0, durR);
    SwitchedControlledSystem<2, 1>::SwitchedSystems sys;
    for (int i = 0; i < 3; i++) sys.push_back(std::shared_ptr<ControlledSystem<2, 1>>(new CSys(i)));
    SwitchedControlledSystem<2, 1> sw(sys, s);
    std::shared_ptr<SwitchedControlledSystem<2, 1>> cl(sw.clone());
    X x, d, e, dc;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t");
    sw.computeControlledDynamics(x, t, u, d);
    cl->computeControlledDynamics(x, t, u, dc);
    CSys(activeC(b, m, t)).computeControlledDynamics(x, t, u, e);
    ctv::eqm(d, e, "dynamics of the scheduled mode");
    ctv::eqm(dc, e, "dynamics of a clone");
    sw.computeDynamics(x, t, d);
    U z;
    z.setZero();
    CSys(activeC(b, m, t)).computeControlledDynamics(x, t, z, e);
    ctv::eqm(d, e, "uncontrolled dynamics = zero control");
    ctv_cover("done");
}
extern "C" void proof_switched_linear_system()
{
    double t0 = ctv_real("t0");
    ContinuousModeSequence s(t0);
    std::vector<double> b;
    std::vector<size_t> m;
    schedule(s, b, m, t0, durR);
    SwitchedLinearSystem<2, 1>::SwitchedLinearSystems sys;
    std::vector<std::shared_ptr<LSys>> ls;
    for (int i = 0; i < 3; i++)
    {
        ls.push_back(std::shared_ptr<LSys>(new LSys(i)));
        sys.push_back(ls.back());
    }
    SwitchedLinearSystem<2, 1> sw(sys, s);
    std::shared_ptr<SwitchedLinearSystem<2, 1>> cl(sw.clone());
    X x, d;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    double t = ctv_real("t");
    size_t k = activeC(b, m, t);
    ctv::eqm(sw.getDerivativeState(x, u, t), ls[k]->A, "A of the scheduled mode");
    ctv::eqm(sw.getDerivativeControl(x, u, t), ls[k]->B, "B of the scheduled mode");
    ctv::eqm(cl->getDerivativeState(x, u, t), ls[k]->A, "A of a clone");
    ctv::eqm(cl->getDerivativeControl(x, u, t), ls[k]->B, "B of a clone");
    sw.computeControlledDynamics(x, t, u, d);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), ls[k]->A(i, 0) * x(0) + ls[k]->A(i, 1) * x(1) + ls[k]->B(i, 0) * u(0), "Ax+Bu of the scheduled mode");
    ctv_cover("done");
}
static size_t activeD(const std::vector<int>& b, const std::vector<size_t>& m, int t)
{
    size_t r = m[0];
    for (size_t i = 1; i < m.size(); i++)
        if (t >= b[i]) r = m[i];
    return r;
}
extern "C" void proof_switched_discrete_systems()
{
    int t0 = anyI("n0");
    DiscreteModeSequence s(t0);
    std::vector<int> b;
    std::vector<size_t> m;
    schedule(s, b, m, t0, durI);
    SwitchedDiscreteControlledSystem<2, 1>::SwitchedSystems sys;
    SwitchedDiscreteLinearSystem<2, 1>::SwitchedLinearSystems lsys;
    std::vector<std::shared_ptr<DLSys>> ls;
    for (int i = 0; i < 3; i++)
    {
        sys.push_back(std::shared_ptr<DiscreteControlledSystem<2, 1>>(new DSys(i)));
        ls.push_back(std::shared_ptr<DLSys>(new DLSys()));
        lsys.push_back(ls.back());
    }
    SwitchedDiscreteControlledSystem<2, 1> sw(sys, s);
    SwitchedDiscreteLinearSystem<2, 1> sl(lsys, s);
    std::shared_ptr<SwitchedDiscreteControlledSystem<2, 1>> cl(sw.clone());
    std::shared_ptr<SwitchedDiscreteLinearSystem<2, 1>> cll(sl.clone());
    X x, d, e, dc;
    U u;
    ctv::fill(x, "x");
    ctv::fill(u, "u");
    int n = anyI("n");
    size_t k = activeD(b, m, n);
    sw.propagateControlledDynamics(x, n, u, d);
    cl->propagateControlledDynamics(x, n, u, dc);
    DSys(k).propagateControlledDynamics(x, n, u, e);
    ctv::eqm(d, e, "propagation of the scheduled mode");
    ctv::eqm(dc, e, "propagation of a clone");
    StateMatrix<2> A;
    StateControlMatrix<2, 1> B;
    sl.getAandB(x, u, x, n, 1, A, B);
    ctv::eqm(A, ls[k]->A, "A of the scheduled mode");
    ctv::eqm(B, ls[k]->B, "B of the scheduled mode");
    cll->getAandB(x, u, n, A, B);
    ctv::eqm(A, ls[k]->A, "A of a clone");
    ctv::eqm(B, ls[k]->B, "B of a clone");
    sl.propagateControlledDynamics(x, n, u, d);
    for (int i = 0; i < 2; i++) ctv_eq(d(i), ls[k]->A(i, 0) * x(0) + ls[k]->A(i, 1) * x(1) + ls[k]->B(i, 0) * u(0), "Ax+Bu of the scheduled mode");
    ctv_cover("done");
}
