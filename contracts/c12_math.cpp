// C12: numerical helpers: linear solvers, grids, quantisation, geometry, timers.
#include "ctv.h"
#include <ct/core/core.h>
#include <ct/core/math/Inverses.h>
using namespace ct::core;
typedef Eigen::Matrix<double, -1, -1> MX;
static MX mat(int n, int m, const char* nm, bool s = false)
{
    MX a(n, m);
    if (s)
        ctv::fillsym(a, nm);
    else
        ctv::fill(a, nm);
    return a;
}
static double det2(const MX& a) { return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); }
static double det3(const MX& a)
{
    return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) +
           a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
}
// A X = B whenever all leading principal minors are non-zero (the condition for LU/LDLT without pivoting)
static void solver(bool ldlt)
{
    long n = ctv_choose("n", 1, 3), m = ctv_choose("m", 1, 2);
    MX A = mat(n, n, "A", ldlt), B = mat(n, m, "B"), A0 = A, B0 = B;
    ctv_assume(A(0, 0) != 0);
    if (n > 1) ctv_assume(det2(A) != 0);
    if (n > 2) ctv_assume(det3(A) != 0);
    MX X = ldlt ? LDLTsolve<double>(A, B) : LUsolve<double>(A, B);
    ctv_eqi(X.rows(), n, "rows");
    ctv_eqi(X.cols(), m, "cols");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++)
        {
            double s = 0;
            for (int k = 0; k < n; k++) s += A(i, k) * X(k, j);
            ctv_eq(s, B(i, j), "A X = B");
        }
    ctv::eqm(A, A0, "A unchanged");
    ctv::eqm(B, B0, "B unchanged");
    ctv_cover("done");
}
extern "C" void proof_lu_solve() { solver(false); }
extern "C" void proof_ldlt_solve() { solver(true); }
extern "C" void proof_linspace()
{
    double a = ctv_real("a"), b = ctv_real("b");
    long n = ctv_choose("N", 2, 6);
    ScalarArray<double> v = linspace<ScalarArray<double>>(a, b, n);
    ctv_eqi(v.size(), n, "N points");
    for (long i = 0; i < n; i++) ctv_eq(v[i], a + i * (b - a) / (n - 1), "evenly spaced from a to b");
    ctv_check(ctv::throws([&] { linspace<ScalarArray<double>>(a, b, 0); }), "N < 1 rejected");
    ctv_cover("done");
}
// the quantiser never loses anything: what it withholds stays below one quantum and is carried to the next call
extern "C" void proof_quantization()
{
    double bias = ctv_real("bias"), q = ctv::pos("q");
    bool rnd = ctv_choose("round", 0, 1);
    QuantizationNoise nz(bias, q, rnd ? QuantizationNoise::ROUND : QuantizationNoise::FLOOR);
    if (ctv_choose("reset", 0, 1)) nz.reset();
    size_t ix = ctv_choose("index", 0, 2);
    double in = 0, out = 0;
    for (int k = 0; k < 2; k++)
    {
        // v = w q for an arbitrary real w (q > 0), so that every v is covered
        double w = ctv_real("w");
        ctv_assume(w <= 1000 && w >= -1000);
        double v = w * q;
        in += w;
        nz.noisify(v, ix);
        out += (v - bias) / q;
        double rest = in - out;
        if (rnd)
            ctv_check(rest <= 0.5 + 1e-9 && rest >= -0.5 - 1e-9, "withheld part is at most half a quantum");
        else
            ctv_check(rest >= -1e-9 && rest < 1 + 1e-9, "withheld part is within [0, one quantum)");
        double other = ctv_choose("o", 0, 1) * 0.75 * q;
        nz.noisify(other, 3);  // other channels have their own remainder
    }
    ctv_cover("done");
}
extern "C" void proof_geometry()
{
    double p[4], s[4];
    for (int i = 0; i < 4; i++) p[i] = ctv_real("p");
    Plane pl(p[0], p[1], p[2], p[3]);
    if (ctv_choose("set", 0, 1))
    {
        Plane t;
        t.set(p[0], p[1], p[2], p[3]);
        pl = t;
    }
    double x = ctv_real("x"), y = ctv_real("y"), z = ctv_real("z");
    for (int i = 0; i < 4; i++) ctv_eq(pl.getCoefficient(i), p[i], "coefficient");
    ctv_check(ctv::throws([&] { pl.getCoefficient(4); }), "coefficient index rejected");
    if (p[0] != 0) ctv_eq(p[0] * pl.solveX(y, z) + p[1] * y + p[2] * z, p[3], "solveX lies on the plane");
    if (p[1] != 0) ctv_eq(p[0] * x + p[1] * pl.solveY(x, z) + p[2] * z, p[3], "solveY lies on the plane");
    if (p[2] != 0) ctv_eq(p[0] * x + p[1] * y + p[2] * pl.solveZ(x, y), p[3], "solveZ lies on the plane");
    ExternallyDrivenTimer t;
    ctv_eq(t.getElapsedTime(), 0, "fresh timer");
    t.start(x);
    t.stop(y);
    ctv_eq(t.getElapsedTime(), y - x, "elapsed");
    t.reset();
    ctv_eq(t.getElapsedTime(), 0, "reset timer");
    ctv_cover("done");
}
extern "C" void proof_ellipsoid()
{
    Eigen::Vector3d x0, x;
    Eigen::Matrix3d A, S;
    ctv::fill(x0, "x0");
    ctv::fill(x, "x");
    ctv::fill(A, "A");
    ctv::fill(S, "S");
    Ellipsoid e(x0, A, S);
    // || A S^T (x - x0) ||^2 - 1
    double d[3], w[3], r = -1;
    for (int i = 0; i < 3; i++) d[i] = 0;
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 3; k++) d[i] += S(k, i) * (x(k) - x0(k));
    for (int i = 0; i < 3; i++)
    {
        w[i] = 0;
        for (int k = 0; k < 3; k++) w[i] += A(i, k) * d[k];
        r += w[i] * w[i];
    }
    ctv_eq(e.insideEllipsoid(x), r, "||A S'(x-x0)||^2 - 1");
    ctv_cover("done");
}
