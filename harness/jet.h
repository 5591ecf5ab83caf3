#pragma once
// Truncated Taylor polynomials: exact derivatives of a formula, from the formula alone.
// Jet: in two variables (temperature and pressure, or temperature and density), up to
// total order 3.  Dual<S>: value and first derivative in one more variable, over S.
#include <cmath>
namespace vf {
using ld = long double;
struct Jet
{
    static constexpr int N = 4; // orders 0..3
    ld c[N][N]{};               // coefficient of x^i y^j, i+j<N
    Jet(ld v = 0) { c[0][0] = v; }
    static Jet x(ld v) { Jet j(v); j.c[1][0] = 1; return j; }
    static Jet y(ld v) { Jet j(v); j.c[0][1] = 1; return j; }
    ld val() const { return c[0][0]; }
    // partial derivative of order (i, j)
    ld d(int i, int j) const { static const ld f[] = {1, 1, 2, 6}; return c[i][j] * f[i] * f[j]; }
    Jet nilpotent() const { Jet r = *this; r.c[0][0] = 0; return r; }
    // the derivative as a jet again (the highest order is lost and set to 0)
    Jet dx() const { Jet r; for (int i = 0; i + 1 < N; i++) for (int j = 0; i + 1 + j < N; j++) r.c[i][j] = (i + 1) * c[i + 1][j]; return r; }
    Jet dy() const { Jet r; for (int i = 0; i < N; i++) for (int j = 0; i + j + 1 < N; j++) r.c[i][j] = (j + 1) * c[i][j + 1]; return r; }
};
inline Jet operator+(const Jet& a, const Jet& b) { Jet r; for (int i = 0; i < Jet::N; i++) for (int j = 0; i + j < Jet::N; j++) r.c[i][j] = a.c[i][j] + b.c[i][j]; return r; }
inline Jet operator-(const Jet& a, const Jet& b) { Jet r; for (int i = 0; i < Jet::N; i++) for (int j = 0; i + j < Jet::N; j++) r.c[i][j] = a.c[i][j] - b.c[i][j]; return r; }
inline Jet operator-(const Jet& a) { return Jet(0) - a; }
inline Jet operator*(const Jet& a, const Jet& b)
{
    Jet r;
    for (int i = 0; i < Jet::N; i++) for (int j = 0; i + j < Jet::N; j++)
        for (int k = 0; k <= i; k++) for (int l = 0; l <= j; l++) r.c[i][j] += a.c[k][l] * b.c[i - k][j - l];
    return r;
}
// f(a) from the derivatives of f at the value of a
inline Jet compose(const Jet& a, ld f0, ld f1, ld f2, ld f3) { Jet n = a.nilpotent(), n2 = n * n; return Jet(f0) + Jet(f1) * n + Jet(f2 / 2) * n2 + Jet(f3 / 6) * (n2 * n); }
inline Jet inv(const Jet& a) { ld v = 1 / a.val(); return compose(a, v, -v * v, 2 * v * v * v, -6 * v * v * v * v); }
inline Jet operator/(const Jet& a, const Jet& b) { return a * inv(b); }
inline Jet exp(const Jet& a) { ld v = std::exp(a.val()); return compose(a, v, v, v, v); }
inline Jet log(const Jet& a) { ld v = a.val(); return compose(a, std::log(v), 1 / v, -1 / (v * v), 2 / (v * v * v)); }
inline Jet pow(const Jet& a, ld p)
{
    ld v = a.val();
    auto t = [&](int k) { ld f = 1; for (int i = 0; i < k; i++) f *= p - i; return f == 0 ? ld(0) : f * std::pow(v, p - k); };
    return compose(a, t(0), t(1), t(2), t(3));
}
inline Jet sqrt(const Jet& a) { return pow(a, 0.5L); }
inline ld value(const Jet& a) { return a.val(); }
inline ld value(ld a) { return a; }
// the same formulas can be evaluated for plain numbers
inline ld exp(ld a) { return std::exp(a); }
inline ld log(ld a) { return std::log(a); }
inline ld pow(ld a, ld b) { return std::pow(a, b); }
inline ld sqrt(ld a) { return std::sqrt(a); }

template <class S> struct Dual
{
    S v, d;
    Dual(S v_ = S(0), S d_ = S(0)) : v(v_), d(d_) {}
    Dual(ld x) requires(!std::is_same_v<S, ld>) : v(S(x)), d(S(0)) {}
};
#define VF_DUAL template <class S> Dual<S>
VF_DUAL operator+(const Dual<S>& a, const Dual<S>& b) { return {a.v + b.v, a.d + b.d}; }
VF_DUAL operator-(const Dual<S>& a, const Dual<S>& b) { return {a.v - b.v, a.d - b.d}; }
VF_DUAL operator-(const Dual<S>& a) { return {-a.v, -a.d}; }
VF_DUAL operator*(const Dual<S>& a, const Dual<S>& b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
VF_DUAL operator/(const Dual<S>& a, const Dual<S>& b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
VF_DUAL exp(const Dual<S>& a) { using std::exp; auto e = exp(a.v); return {e, e * a.d}; }
VF_DUAL log(const Dual<S>& a) { using std::log; return {log(a.v), a.d / a.v}; }
VF_DUAL pow(const Dual<S>& a, ld p) { using std::pow; return {pow(a.v, p), p == 0 ? S(0) : S(p) * pow(a.v, p - 1) * a.d}; }
template <class S> ld value(const Dual<S>& a) { return value(a.v); }
#undef VF_DUAL
// mixed operands
template <class T> concept Poly = std::is_class_v<T> && (requires(T t) { t.v; } || requires(T t) { t.c; });
template <Poly T> T operator+(const T& a, ld b) { return a + T(b); }
template <Poly T> T operator+(ld a, const T& b) { return T(a) + b; }
template <Poly T> T operator-(const T& a, ld b) { return a - T(b); }
template <Poly T> T operator-(ld a, const T& b) { return T(a) - b; }
template <Poly T> T operator*(const T& a, ld b) { return a * T(b); }
template <Poly T> T operator*(ld a, const T& b) { return T(a) * b; }
template <Poly T> T operator/(const T& a, ld b) { return a / T(b); }
template <Poly T> T operator/(ld a, const T& b) { return T(a) / b; }
} // namespace vf
