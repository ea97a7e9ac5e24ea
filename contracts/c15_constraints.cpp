// C15: constraint terms and containers: stacked evaluation, Jacobians consistent in dense and sparse form, bounds, violations, switching.
#include "ctv.h"
#include <ct/optcon/optcon.h>
using namespace ct::core;
using namespace ct::optcon;
static const int N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXi VI;
typedef ConstraintBase<N, M> Con;
typedef ConstraintContainerAnalytical<N, M> CC;

static X stateOf(const char* n)
{
    X x;
    ctv::fill(x, n);
    return x;
}
static U controlOf(const char* n)
{
    U u;
    ctv::fill(u, n);
    return u;
}
static MX scatter(const V& val, const VI& r, const VI& c, int rows, int cols)
{
    MX m = MX::Zero(rows, cols);
    for (int i = 0; i < val.rows(); i++)
    {
        ctv_check(r(i) >= 0 && r(i) < rows && c(i) >= 0 && c(i) < cols, "sparsity indices in range");
        if (r(i) >= 0 && r(i) < rows && c(i) >= 0 && c(i) < cols) m(r(i), c(i)) += val(i);
    }
    return m;
}
static void sparseIsDense(const MX& dense, size_t nnz, const V& val, const VI& r, const VI& c, const char* what)
{
    ctv_eqi(val.rows(), nnz, "length of the sparse Jacobian = advertised non-zeros");
    ctv_check(r.rows() == (long)nnz && c.rows() == (long)nnz, "length of the sparsity pattern = advertised non-zeros");
    if (val.rows() != (long)nnz || r.rows() != (long)nnz || c.rows() != (long)nnz) return;
    ctv::eqm(scatter(val, r, c, dense.rows(), dense.cols()), dense, what);
}
// term-level contract: Jacobians are derivatives of evaluate, sparse = dense
static void term(Con& c, const X& x, const U& u, double t, long size)
{
    V v = c.evaluate(x, u, t);
    ctv_eqi(v.rows(), size, "constraint size");
    ctv_eqi(c.getConstraintSize(), size, "getConstraintSize");
    ctv_check(c.getLowerBound().rows() == size && c.getUpperBound().rows() == size, "bounds have the size of the constraint");
    MX jx = c.jacobianState(x, u, t), ju = c.jacobianInput(x, u, t);
    ctv_check(jx.rows() == size && jx.cols() == N && ju.rows() == size && ju.cols() == M, "Jacobian dimensions");
    for (int k = 0; k < size; k++)
    {
        for (int i = 0; i < N; i++)
            ctv_eq(jx(k, i), ctv::grad([&](const X& y) { return (double)c.evaluate(y, u, t)(k); }, x, i), "state Jacobian = derivative of the constraint");
        for (int i = 0; i < M; i++)
            ctv_eq(ju(k, i), ctv::grad([&](const U& w) { return (double)c.evaluate(x, w, t)(k); }, u, i), "input Jacobian = derivative of the constraint");
    }
    VI r, q;
    size_t nx = c.getNumNonZerosJacobianState(), nu = c.getNumNonZerosJacobianInput();
    if (nx)
    {
        c.sparsityPatternState(r, q);
        sparseIsDense(jx, nx, c.jacobianStateSparse(x, u, t), r, q, "sparse state Jacobian = dense");
    }
    else
        ctv::eqm(jx, MX::Zero(size, N).eval(), "no non-zeros: dense state Jacobian is zero");
    if (nu)
    {
        c.sparsityPatternInput(r, q);
        sparseIsDense(ju, nu, c.jacobianInputSparse(x, u, t), r, q, "sparse input Jacobian = dense");
    }
    else
        ctv::eqm(ju, MX::Zero(size, M).eval(), "no non-zeros: dense input Jacobian is zero");
}
template <class C>
static void box(bool onState)
{
    X x = stateOf("x");
    U u = controlOf("u");
    double t = ctv_real("t");
    V z = onState ? V(x) : V(u);
    long form = ctv_choose("form", 0, 1);
    VI sp(2);
    sp << 1, 1;
    if (form)
        for (int i = 0; i < 2; i++) sp(i) = ctv_choose("sparsity", 0, 1);
    int n = sp.sum();
    V lb(n), ub(n);
    ctv::fill(lb, "lb");
    for (int i = 0; i < n; i++) ub(i) = lb(i) + ctv::pos("range");
    std::shared_ptr<C> c;
    if (form)
        c = std::make_shared<C>(lb, ub, sp);
    else
    {
        Eigen::Matrix<double, 2, 1> l2 = lb, u2 = ub;
        c = std::make_shared<C>(typename std::conditional<std::is_same<C, StateConstraint<N, M>>::value, X, U>::type(l2),
            typename std::conditional<std::is_same<C, StateConstraint<N, M>>::value, X, U>::type(u2));
    }
    c->setName("box");
    if (ctv_choose("clone", 0, 1)) c.reset(c->clone());
    std::string nm;
    c->getName(nm);
    ctv_check(nm == "box", "name kept");
    V e = c->evaluate(x, u, t);
    ctv_eqi(e.rows(), n, "size");
    int k = 0;
    for (int i = 0; i < 2; i++)
        if (sp(i))
        {
            ctv_eq(e(k), z(i), "box constraint selects the constrained coordinates in order");
            ctv_eq(c->getLowerBound()(k), lb(k), "lower bound");
            ctv_eq(c->getUpperBound()(k), ub(k), "upper bound");
            k++;
        }
    term(*c, x, u, t, n);
    ctv_cover("box");
}
extern "C" void proof_state_box() { box<StateConstraint<N, M>>(true); }
extern "C" void proof_control_box() { box<ControlInputConstraint<N, M>>(false); }
extern "C" void proof_box_rejects()
{
    V lb(2), ub(2);
    ctv::fill(lb, "lb");
    ctv::fill(ub, "ub");
    VI sp(2);
    sp << 1, 1;
    bool bad = ctv::throws([&]() { StateConstraint<N, M> c(lb, ub, sp); });
    ctv_check(bad == (lb(0) > ub(0) || lb(1) > ub(1)), "rejected exactly when a lower bound exceeds its upper bound");
    bool dense = ctv::throws([&]() { ControlInputConstraint<N, M> c(lb, ub); });
    ctv_check(dense == (lb(0) > ub(0) || lb(1) > ub(1)), "dense box: rejected exactly when a lower bound exceeds its upper bound");
    sp(ctv_choose("off", 0, 1)) = 0;
    ctv_check(ctv::throws([&]() { ControlInputConstraint<N, M> c(lb, ub, sp); }), "wrong number of bounds rejected");
    ctv_cover("rejects");
}
extern "C" void proof_terminal_and_obstacle()
{
    X x = stateOf("x"), xf = stateOf("xf");
    U u = controlOf("u");
    double t = ctv_real("t");
    std::shared_ptr<Con> c(new TerminalConstraint<N, M>(xf));
    if (ctv_choose("clone", 0, 1)) c.reset(c->clone());
    V e = c->evaluate(x, u, t);
    for (int i = 0; i < N; i++)
    {
        ctv_eq(e(i), x(i) - xf(i), "terminal constraint value");
        ctv_eq(c->getLowerBound()(i), 0.0, "terminal lower bound");
        ctv_eq(c->getUpperBound()(i), 0.0, "terminal upper bound");
    }
    term(*c, x, u, t, N);
    // obstacle
    Eigen::Vector3d x0;
    ctv::fill(x0, "centre");
    Eigen::Matrix3d S, ax;
    ctv::fill(ax, "A");
    ctv::fill(S, "S");
    Eigen::Matrix<double, 3, 4> co;
    ctv::fill(co, "pos");
    auto p = [co](const X& y, Eigen::Vector3d& o) {
        for (int i = 0; i < 3; i++) o(i) = co(i, 0) + co(i, 1) * y(0) + co(i, 2) * y(1) + co(i, 3) * y(0) * y(1);
    };
    auto dp = [co](const X& y, Eigen::Matrix<double, 3, N>& J) {
        for (int i = 0; i < 3; i++) J(i, 0) = co(i, 1) + co(i, 3) * y(1), J(i, 1) = co(i, 2) + co(i, 3) * y(0);
    };
    auto ell = std::make_shared<ct::core::Ellipsoid>(x0, ax, S);
    std::shared_ptr<Con> o(new ObstacleConstraint<N, M>(ell, p, dp));
    if (ctv_choose("clone", 0, 1)) o.reset(o->clone());
    Eigen::Vector3d pos;
    p(x, pos);
    double want = -1;
    for (int i = 0; i < 3; i++)
    {
        double l = 0;
        for (int j = 0; j < 3; j++)
            for (int k = 0; k < 3; k++) l += ax(i, j) * S(k, j) * (pos(k) - x0(k));
        want += l * l;
    }
    ctv_eq(o->evaluate(x, u, t)(0), want, "obstacle constraint value: |A S^T (p - x0)|^2 - 1");
    ctv_eq(o->getLowerBound()(0), 0.0, "obstacle: outside is feasible");
    term(*o, x, u, t, 1);
    ctv_cover("terms");
}
// an arbitrary user constraint (size s) relying on the default sparse interface
struct UC : public Con
{
    int s, id;
    UC(int s, int id) : s(s), id(id)
    {
        lb_.resize(s);
        ub_.resize(s);
        for (int i = 0; i < s; i++) lb_(i) = ctv_real("lb"), ub_(i) = lb_(i) + ctv::pos("range");
    }
    UC* clone() const override { return new UC(*this); }
    size_t getConstraintSize() const override { return s; }
    V evaluate(const X& x, const U& u, const double t) override
    {
        V v(s);
        for (int i = 0; i < s; i++) v(i) = ctv::uf("con", {(double)id, (double)i, x(0), x(1), u(0), u(1), t});
        return v;
    }
    MX jacobianState(const X& x, const U& u, const double t) override
    {
        MX m(s, N);
        for (int i = 0; i < s; i++)
            for (int j = 0; j < N; j++) m(i, j) = ctv::uf("jx", {(double)id, (double)i, (double)j, x(0), x(1), u(0), u(1), t});
        return m;
    }
    MX jacobianInput(const X& x, const U& u, const double t) override
    {
        MX m(s, M);
        for (int i = 0; i < s; i++)
            for (int j = 0; j < M; j++) m(i, j) = ctv::uf("ju", {(double)id, (double)i, (double)j, x(0), x(1), u(0), u(1), t});
        return m;
    }
};
static std::shared_ptr<Con> pick(int id)
{
    long k = ctv_choose("kind", 0, 3);
    if (k == 0) return std::make_shared<UC>(2, id);
    if (k == 1) return std::make_shared<UC>(1, id);
    VI sp(2);
    sp << 0, 1;
    V lb(1), ub(1);
    lb(0) = ctv_real("lb");
    ub(0) = lb(0) + ctv::pos("range");
    if (k == 2) return std::make_shared<StateConstraint<N, M>>(lb, ub, sp);
    return std::make_shared<ControlInputConstraint<N, M>>(lb, ub, sp);
}
static void check(LinearConstraintContainer<N, M>& c, bool term, std::vector<std::shared_ptr<Con>>& cs, const X& x, const U& u, double t)
{
    int n = 0;
    for (auto& k : cs) n += k->getConstraintSize();
    V ev = term ? c.evaluateTerminal() : c.evaluateIntermediate();
    MX jx = term ? c.jacobianStateTerminal() : c.jacobianStateIntermediate();
    MX ju = term ? c.jacobianInputTerminal() : c.jacobianInputIntermediate();
    V lb = term ? c.getLowerBoundsTerminal() : c.getLowerBoundsIntermediate();
    V ub = term ? c.getUpperBoundsTerminal() : c.getUpperBoundsIntermediate();
    ctv_eqi(term ? c.getTerminalConstraintsCount() : c.getIntermediateConstraintsCount(), n, "number of constraints");
    ctv_check(ev.rows() == n && jx.rows() == n && ju.rows() == n && lb.rows() == n && ub.rows() == n, "stacked sizes");
    int r0 = 0;
    for (auto& k : cs)
    {
        V e = k->evaluate(x, u, t);
        MX ax = k->jacobianState(x, u, t), au = k->jacobianInput(x, u, t);
        for (int i = 0; i < e.rows(); i++)
        {
            ctv_eq(ev(r0 + i), e(i), "stacked value");
            ctv_eq(lb(r0 + i), k->getLowerBound()(i), "stacked lower bound");
            ctv_eq(ub(r0 + i), k->getUpperBound()(i), "stacked upper bound");
            for (int j = 0; j < N; j++) ctv_eq(jx(r0 + i, j), ax(i, j), "stacked state Jacobian");
            for (int j = 0; j < M; j++) ctv_eq(ju(r0 + i, j), au(i, j), "stacked input Jacobian");
        }
        r0 += e.rows();
    }
    VI r, q;
    if (term)
    {
        c.sparsityPatternStateTerminal(r, q);
        sparseIsDense(jx, c.getJacobianStateNonZeroCountTerminal(), c.jacobianStateSparseTerminal(), r, q, "sparse state Jacobian = dense (container)");
        c.sparsityPatternInputTerminal(r, q);
        sparseIsDense(ju, c.getJacobianInputNonZeroCountTerminal(), c.jacobianInputSparseTerminal(), r, q, "sparse input Jacobian = dense (container)");
    }
    else
    {
        c.sparsityPatternStateIntermediate(r, q);
        sparseIsDense(jx, c.getJacobianStateNonZeroCountIntermediate(), c.jacobianStateSparseIntermediate(), r, q, "sparse state Jacobian = dense (container)");
        c.sparsityPatternInputIntermediate(r, q);
        sparseIsDense(ju, c.getJacobianInputNonZeroCountIntermediate(), c.jacobianInputSparseIntermediate(), r, q, "sparse input Jacobian = dense (container)");
    }
}
static void violations(CC& c, bool term, int i)
{
    double e = (term ? c.evaluateTerminal() : c.evaluateIntermediate())(i);
    double l = (term ? c.getLowerBoundsTerminal() : c.getLowerBoundsIntermediate())(i);
    double u = (term ? c.getUpperBoundsTerminal() : c.getUpperBoundsIntermediate())(i);
    double vu = (term ? c.getUpperBoundsViolationTerminal() : c.getUpperBoundsViolationIntermediate())(i);
    double vl = (term ? c.getLowerBoundsViolationTerminal() : c.getLowerBoundsViolationIntermediate())(i);
    double vt = (term ? c.getTotalBoundsViolationTerminal() : c.getTotalBoundsViolationIntermediate())(i);
    ctv_eq(vu, e > u ? e - u : 0.0, "upper bound violation");
    ctv_eq(vl, e < l ? e - l : 0.0, "lower bound violation");
    ctv_eq(vt, e > u ? e - u : (e < l ? e - l : 0.0), "total bound violation");
}
extern "C" void proof_container()
{
    bool term = ctv_choose("terminal", 0, 1);
    X x = stateOf("x");
    U u = controlOf("u");
    double t = ctv_real("t");
    std::shared_ptr<CC> c;
    long ctor = ctv_choose("ctor", 0, 1);
    if (ctor)
        c = std::make_shared<CC>(x, u, t);
    else
        c = std::make_shared<CC>();
    std::vector<std::shared_ptr<Con>> cs;
    std::vector<std::shared_ptr<Con>> other;
    for (int i = 0; i < 2; i++) cs.push_back(pick(i)), term ? c->addTerminalConstraint(cs[i], false) : c->addIntermediateConstraint(cs[i], false);
    other.push_back(std::make_shared<UC>(1, 9));
    term ? c->addIntermediateConstraint(other[0], false) : c->addTerminalConstraint(other[0], false);
    ctv_check(!c->isInitialized(), "not initialised before initialize()");
    c->initialize();
    ctv_check(c->isInitialized(), "initialised");
    if (!ctor) c->setCurrentStateAndControl(x, u, t);
    if (ctv_choose("copy", 0, 1)) c.reset(c->clone());
    check(*c, term, cs, x, u, t);
    check(*c, !term, other, x, u, t);
    violations(*c, term, 0);
    size_t n = c->getIntermediateConstraintsCount() + c->getTerminalConstraintsCount();
    ctv_eqi(c->getConstraintsCount(), n, "total number of constraints");
    ctv_eqi(c->getJacNonZeroCount(), c->getJacobianStateNonZeroCountIntermediate() + c->getJacobianInputNonZeroCountIntermediate() +
                                         c->getJacobianStateNonZeroCountTerminal() + c->getJacobianInputNonZeroCountTerminal(), "total number of Jacobian non-zeros");
    // a second point: nothing of the first evaluation is left over
    X x2 = stateOf("x2");
    U u2 = controlOf("u2");
    double t2 = ctv_real("t2");
    c->setCurrentStateAndControl(x2, u2, t2);
    check(*c, term, cs, x2, u2, t2);
    ctv_cover("container");
}
extern "C" void proof_container_rejects_uninitialised()
{
    CC c;
    // state of initialisation: only one of the two stages is initialised
    c.initialize();
    bool term = ctv_choose("terminal", 0, 1);
    if (term)
        c.addTerminalConstraint(std::make_shared<UC>(2, 0), false);
    else
        c.addIntermediateConstraint(std::make_shared<UC>(2, 0), false);
    ctv_check(!c.isInitialized(), "adding a constraint invalidates the initialisation");
    VI r, q;
    long f = ctv_choose("function", 0, 6);
    bool thr = ctv::throws([&]() {
        if (term)
        {
            if (f == 0) c.evaluateTerminal();
            if (f == 1) c.jacobianStateTerminal();
            if (f == 2) c.jacobianInputTerminal();
            if (f == 3) c.jacobianStateSparseTerminal();
            if (f == 4) c.jacobianInputSparseTerminal();
            if (f == 5) c.sparsityPatternStateTerminal(r, q);
            if (f == 6) c.sparsityPatternInputTerminal(r, q);
        }
        else
        {
            if (f == 0) c.evaluateIntermediate();
            if (f == 1) c.jacobianStateIntermediate();
            if (f == 2) c.jacobianInputIntermediate();
            if (f == 3) c.jacobianStateSparseIntermediate();
            if (f == 4) c.jacobianInputSparseIntermediate();
            if (f == 5) c.sparsityPatternStateIntermediate(r, q);
            if (f == 6) c.sparsityPatternInputIntermediate(r, q);
        }
    });
    ctv_check(thr, "evaluation of uninitialised constraints is rejected");
    // the other stage stays usable
    ctv_check(!ctv::throws([&]() { term ? c.evaluateIntermediate() : c.evaluateTerminal(); }), "the initialised stage stays usable");
    ctv_check(!ctv::throws([&]() { term ? c.jacobianStateIntermediate() : c.jacobianStateTerminal(); }), "the initialised stage stays usable (state Jacobian)");
    ctv_cover("rejects");
}
extern "C" void proof_switched_container()
{
    typedef SwitchedLinearConstraintContainer<N, M> SC;
    std::vector<std::vector<std::shared_ptr<Con>>> in(2), te(2);
    SC::SwitchedLinearConstraintContainers all;
    for (int m = 0; m < 2; m++)
    {
        auto c = std::make_shared<CC>();
        in[m].push_back(std::make_shared<UC>(1 + m, 2 * m));
        te[m].push_back(std::make_shared<UC>(2 - m, 2 * m + 1));
        c->addIntermediateConstraint(in[m][0], false);
        c->addTerminalConstraint(te[m][0], false);
        all.push_back(c);
    }
    double t0 = ctv_real("t0"), d0 = ctv::pos("d0"), d1 = ctv::pos("d1");
    ContinuousModeSequence s(t0);
    long p0 = ctv_choose("p0", 0, 1), p1 = ctv_choose("p1", 0, 1);
    s.addPhase(p0, d0);
    s.addPhase(p1, d1);
    std::shared_ptr<SC> c = std::make_shared<SC>(all, s);
    c->initialize();
    ctv_check(c->isInitialized(), "initialised");
    long copy = ctv_choose("copy", 0, 2);
    if (copy == 1) c.reset(c->clone());
    X x = stateOf("x");
    U u = controlOf("u");
    double t = ctv_real("t");
    c->setCurrentStateAndControl(x, u, t);
    if (copy == 2) c.reset(c->clone());
    long mode = t < t0 + d0 ? p0 : p1;
    check(*c, false, in[mode], x, u, t);
    check(*c, true, te[p1], x, u, t);
    ctv_cover("switched");
}
