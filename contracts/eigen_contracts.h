// Assumed contracts on Eigen's pivoting decompositions (a dependency, not /repo code):
// for a nonsingular square matrix M of fixed size,  M.decomposition().inverse() = M^-1  and
// .solve(b) = M^-1 b.  Here M^-1 is Eigen's own cofactor formula (fixed size <= 4), which is an
// exact closed form; the pivoting search of the decompositions is thereby outside the proofs.
#pragma once
#include <Eigen/Dense>
namespace Eigen {
#define CTV_DECOMP(NAME)                                                              \
    template <int N>                                                                  \
    class NAME<Matrix<double, N, N, 0, N, N>>                                         \
    {                                                                                 \
    public:                                                                           \
        typedef Matrix<double, N, N, 0, N, N> M;                                      \
        M m_;                                                                         \
        NAME() {}                                                                     \
        template <typename D>                                                         \
        explicit NAME(const EigenBase<D>& m) : m_(m.derived()) {}                     \
        template <typename D>                                                         \
        NAME& compute(const EigenBase<D>& m) { m_ = m.derived(); return *this; }      \
        M inverse() const { return m_.inverse(); }                                    \
        double determinant() const { return m_.determinant(); }                       \
        ComputationInfo info() const { return Success; }                              \
        template <typename R>                                                         \
        Matrix<double, N, R::ColsAtCompileTime> solve(const MatrixBase<R>& b) const   \
        {                                                                             \
            M i = m_.inverse();                                                       \
            return i * b;                                                             \
        }                                                                             \
    };
CTV_DECOMP(ColPivHouseholderQR)
CTV_DECOMP(HouseholderQR)
CTV_DECOMP(PartialPivLU)
CTV_DECOMP(FullPivLU)
#undef CTV_DECOMP
}  // namespace Eigen
#ifndef CTV_NATIVE
// Assumed contract on Eigen's (self-adjoint) eigenvalue solvers for symmetric 2x2 matrices: H = V diag(lambda) V^T with V orthogonal and real,
// stated by the closed form.  (1x1 matrices and the native replay run Eigen's own code.)
namespace Eigen {
namespace ctv_eig {
typedef Matrix<double, 2, 2, 0, 2, 2> M2;
typedef Matrix<double, 2, 1, 0, 2, 1> V2;
// The harness may name the decomposition (V = rotation with half-angle tangent gT, eigenvalues gL): every symmetric 2x2 matrix has one.
// The callee contract then has the precondition that it is called for exactly that matrix.
static bool gArmed = false;
static double gT, gL0, gL1;
inline void rotation(double t, M2& V) { double n = 1.0 / (1.0 + t * t), c = (1.0 - t * t) * n, s = 2.0 * t * n; V << c, -s, s, c; }
inline void symeig(const M2& H, M2& V, V2& l)
{
    if (gArmed)
    {
        rotation(gT, V);
        l << gL0, gL1;
        for (int i = 0; i < 2; i++)
            for (int j = 0; j <= i; j++) ctv_eq(H(i, j), V(i, 0) * gL0 * V(j, 0) + V(i, 1) * gL1 * V(j, 1), "eigenvalue decomposition requested for the Hessian");
        return;
    }
    double a = H(0, 0), b = H(1, 0), d = H(1, 1);
    if (b == 0.0)
    {
        if (a <= d)
            V << 1, 0, 0, 1, l << a, d;
        else
            V << 0, 1, 1, 0, l << d, a;
        return;
    }
    double h = 0.5 * (a - d), r = std::sqrt(h * h + b * b);
    l << 0.5 * (a + d) - r, 0.5 * (a + d) + r;
    // eigenvector of l0 = (b, l0 - a), |.|^2 = b^2 + (h + r)^2
    double n = 1.0 / std::sqrt(b * b + (h + r) * (h + r));
    V << b * n, (h + r) * n, -(h + r) * n, b * n;
}
}  // namespace ctv_eig
template <>
class SelfAdjointEigenSolver<ctv_eig::M2>
{
    ctv_eig::M2 V_;
    ctv_eig::V2 l_;

public:
    SelfAdjointEigenSolver() {}
    explicit SelfAdjointEigenSolver(Index) {}
    template <typename D>
    explicit SelfAdjointEigenSolver(const EigenBase<D>& m, int o = ComputeEigenvectors) { compute(m, o); }
    template <typename D>
    SelfAdjointEigenSolver& compute(const EigenBase<D>& m, int = ComputeEigenvectors)
    {
        ctv_eig::M2 H = m.derived();
        ctv_eig::symeig(H, V_, l_);
        return *this;
    }
    const ctv_eig::M2& eigenvectors() const { return V_; }
    const ctv_eig::V2& eigenvalues() const { return l_; }
    ComputationInfo info() const { return Success; }
};
template <>
class EigenSolver<ctv_eig::M2>
{
    ctv_eig::M2 V_;
    ctv_eig::V2 l_;

public:
    typedef Matrix<std::complex<double>, 2, 2, 0, 2, 2> C2;
    typedef Matrix<std::complex<double>, 2, 1, 0, 2, 1> CV2;
    EigenSolver() {}
    explicit EigenSolver(Index) {}
    template <typename D>
    EigenSolver(const EigenBase<D>& m, bool) { compute(m); }
    template <typename D>
    EigenSolver& compute(const EigenBase<D>& m, bool = true)
    {
        ctv_eig::M2 H = m.derived();
        ctv_eig::symeig(H, V_, l_);
        return *this;
    }
    C2 eigenvectors() const { return V_.cast<std::complex<double>>(); }
    CV2 eigenvalues() const { return l_.cast<std::complex<double>>(); }
    ComputationInfo info() const { return Success; }
};
#ifdef CTV_EIG1
// 1x1: the eigenvalue is the entry, the eigenvector 1 (c17_riccati proves the same recursions with Eigen's own code for one step)
template <>
class EigenSolver<Matrix<double, 1, 1, 0, 1, 1>>
{
    Matrix<double, 1, 1, 0, 1, 1> l_;

public:
    typedef Matrix<std::complex<double>, 1, 1, 0, 1, 1> C1;
    EigenSolver() {}
    explicit EigenSolver(Index) {}
    template <typename D>
    EigenSolver(const EigenBase<D>& m, bool) { compute(m); }
    template <typename D>
    EigenSolver& compute(const EigenBase<D>& m, bool = true)
    {
        l_ = m.derived();
        return *this;
    }
    C1 eigenvectors() const { return C1::Ones(); }
    C1 eigenvalues() const { return l_.cast<std::complex<double>>(); }
    ComputationInfo info() const { return Success; }
};
#endif
// Assumed contract on FullPivLU of a tall 2nxn matrix of full column rank: solve(b) is the exact solution of a consistent system.
template <int R, int C>
class FullPivLU<Matrix<double, R, C, 0, R, C>>
{
    Matrix<double, R, C, 0, R, C> m_;

public:
    FullPivLU() {}
    template <typename D>
    FullPivLU& compute(const EigenBase<D>& m) { m_ = m.derived(); return *this; }
    template <typename B>
    Matrix<double, C, B::ColsAtCompileTime> solve(const MatrixBase<B>& b) const
    {
        Matrix<double, C, C> g = m_.transpose() * m_;
        Matrix<double, C, C> gi = g.inverse();
        Matrix<double, C, B::ColsAtCompileTime> rhs = m_.transpose() * b;
        return gi * rhs;
    }
};
}  // namespace Eigen
#endif
