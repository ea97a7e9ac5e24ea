// Contract harness interface.  The same text is compiled twice:
//  * to LLVM IR (symbolic): every ctv_* call is interpreted by the deductive engine (inputs are unconstrained symbols,
//    ctv_assume = requires, ctv_check/ctv_eq = ensures, ctv_uf = an arbitrary function, ctv_cover = vacuity guard);
//  * natively (CTV_NATIVE): to replay a counterexample against the real code with IEEE doubles.
#pragma once
#include <Eigen/Core>
#include <functional>

extern "C" {
double ctv_real(const char* name);                          // an arbitrary real
long ctv_int(const char* name, long lo, long hi);           // an arbitrary (symbolic) integer in [lo,hi]
long ctv_choose(const char* name, long lo, long hi);        // every integer in [lo,hi], one path each
bool ctv_bool(const char* name);
void ctv_assume(bool c);
void ctv_check(bool c, const char* label);
void ctv_eq(double a, double b, const char* label);
void ctv_eqi(long a, long b, const char* label);
void ctv_fail(const char* label);
void ctv_cover(const char* label);
bool ctv_is_symbolic();
double ctv_uf(const char* name, int n, const double* args); // an arbitrary (smooth) function
double ctv_diff(double f, double x);                        // symbolic only: partial derivative of a term
double ctv_subst(double f, double x, double v);             // symbolic only
void ctv_replace(const char* regex, void (*fn)());          // calls to functions matching regex go to fn
void ctv_unreplace();
void ctv_loop(void (*contract)(long it, int mode));         // loop contract for the next loop with a symbolic exit condition; mode 0: on entry (it = 0), 1: at an
                                                            // arbitrary iteration (definitions of the specification sequences may be assumed), 2: at the next one
void ctv_cand(double v);                                    // (in a loop contract) a term that locations may follow
void ctv_inv(bool c);                                       // (in a loop contract) a condition on the iteration number
void ctv_loop_end();
void ctv_opt(const char* name, int v);
void ctv_dump(const char* name, double v);
}

namespace ctv {
inline double real(const char* n) { return ctv_real(n); }
#ifdef CTV_NATIVE
double native_pos(const char* name);
bool native_le(double a, double b);
#endif
inline double pos(const char* n)
{
#ifdef CTV_NATIVE
    return native_pos(n);
#else
    double v = ctv_real(n);
    ctv_assume(v > 0.0);
    return v;
#endif
}
inline void le(double a, double b, const char* label)
{
#ifdef CTV_NATIVE
    ctv_check(native_le(a, b), label);
#else
    ctv_check(a <= b, label);
#endif
}
template <class M>
inline void fill(M&& m, const char* n)
{
    for (int c = 0; c < m.cols(); c++)
        for (int r = 0; r < m.rows(); r++) m(r, c) = ctv_real(n);
}
template <class M>
inline void fillsym(M&& m, const char* n)
{
    for (int c = 0; c < m.cols(); c++)
        for (int r = 0; r <= c; r++) m(c, r) = m(r, c) = ctv_real(n);
}
template <class A, class B>
inline void eqm(const A& a, const B& b, const char* label)
{
    ctv_check(a.rows() == b.rows() && a.cols() == b.cols(), label);
    for (int c = 0; c < b.cols(); c++)
        for (int r = 0; r < b.rows(); r++) ctv_eq((double)a(r, c), (double)b(r, c), label);
}
// component i of an arbitrary vector function of v (and optional w, t)
template <int N>
inline double uf(const char* n, const double (&a)[N]) { return ctv_uf(n, N, a); }

// does calling g throw?
template <class F>
inline bool throws(F&& g)
{
    try { g(); }
    catch (const std::exception&) { return true; }
    return false;
}
// d f / d x_i (x0) : symbolic differentiation of the executed real code / central differences natively
template <class F, class X>
inline double grad(F&& f, const X& x0, int i)
{
#ifdef CTV_NATIVE
    const double h = 1e-5;
    X a = x0, b = x0;
    a(i) += h;
    b(i) -= h;
    return (f(a) - f(b)) / (2 * h);
#else
    return ctv_diff(f(x0), x0(i));
#endif
}
}  // namespace ctv
