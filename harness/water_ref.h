#pragma once
// The equations of state and dielectric constant of water as published: one formula each
// (Helmholtz energy, dielectric constant), everything else by exact differentiation.
#include "jet.h"
#include <array>
namespace vf::water_ref {
// ---- Wagner and Pruss (2002), IAPWS-95: f(T, rho) in J/kg
template <class S> S wp95_ideal(const S& tau, const S& delta)
{
    static const ld a[] = {1.28728967L, 3.53734222L, 7.74073708L, 9.24437796L, 27.5075105L}, n[] = {0.012436L, 0.97315L, 1.27950L, 0.96956L, 0.24873L};
    S r = log(delta) + S(-8.32044648201L) + 6.6832105268L * tau + 3.00632L * log(tau);
    for (int i = 0; i < 5; i++) r = r + n[i] * log(1 - exp(-a[i] * tau));
    return r;
}
template <class S> S wp95_residual(const S& tau, const S& delta)
{
    struct R { ld n, c, d, t; };
    static const R k[] = {
        {0.12533547935523e-01L, 0, 1, -0.5L}, {0.78957634722828e+01L, 0, 1, 0.875L}, {-0.87803203303561e+01L, 0, 1, 1},
        {0.31802509345418L, 0, 2, 0.5L}, {-0.26145533859358L, 0, 2, 0.75L}, {-0.78199751687981e-02L, 0, 3, 0.375L},
        {0.88089493102134e-02L, 0, 4, 1}, {-0.66856572307965L, 1, 1, 4}, {0.20433810950965L, 1, 1, 6},
        {-0.66212605039687e-04L, 1, 1, 12}, {-0.19232721156002L, 1, 2, 1}, {-0.25709043003438L, 1, 2, 5},
        {0.16074868486251L, 1, 3, 4}, {-0.40092828925807e-01L, 1, 4, 2}, {0.39343422603254e-06L, 1, 4, 13},
        {-0.75941377088144e-05L, 1, 5, 9}, {0.56250979351888e-03L, 1, 7, 3}, {-0.15608652257135e-04L, 1, 9, 4},
        {0.11537996422951e-08L, 1, 10, 11}, {0.36582165144204e-06L, 1, 11, 4}, {-0.13251180074668e-11L, 1, 13, 13},
        {-0.62639586912454e-09L, 1, 15, 1}, {-0.10793600908932L, 2, 1, 7}, {0.17611491008752e-01L, 2, 2, 1},
        {0.22132295167546L, 2, 2, 9}, {-0.40247669763528L, 2, 2, 10}, {0.58083399985759L, 2, 3, 10},
        {0.49969146990806e-02L, 2, 4, 3}, {-0.31358700712549e-01L, 2, 4, 7}, {-0.74315929710341L, 2, 4, 10},
        {0.47807329915480L, 2, 5, 10}, {0.20527940895948e-01L, 2, 6, 6}, {-0.13636435110343L, 2, 6, 10},
        {0.14180634400617e-01L, 2, 7, 10}, {0.83326504880713e-02L, 2, 9, 1}, {-0.29052336009585e-01L, 2, 9, 2},
        {0.38615085574206e-01L, 2, 9, 3}, {-0.20393486513704e-01L, 2, 9, 4}, {-0.16554050063734e-02L, 2, 9, 8},
        {0.19955571979541e-02L, 2, 10, 6}, {0.15870308324157e-03L, 2, 10, 9}, {-0.16388568342530e-04L, 2, 12, 8},
        {0.43613615723811e-01L, 3, 3, 16}, {0.34994005463765e-01L, 3, 4, 22}, {-0.76788197844621e-01L, 3, 4, 23},
        {0.22446277332006e-01L, 3, 5, 23}, {-0.62689710414685e-04L, 4, 14, 10}, {-0.55711118565645e-09L, 6, 3, 50},
        {-0.19905718354408L, 6, 6, 44}, {0.31777497330738L, 6, 6, 46}, {-0.11841182425981L, 6, 6, 50},
        {-0.31306260323435e+02L, 0, 3, 0}, {0.31546140237781e+02L, 0, 3, 1}, {-0.25213154341695e+04L, 0, 3, 4}};
    S r(0);
    for (int i = 0; i < 51; i++)
    {
        S x = k[i].n * (pow(delta, k[i].d) * pow(tau, k[i].t));
        if (k[i].c > 0) x = x * exp(-pow(delta, k[i].c));
        r = r + x;
    }
    static const ld beta[] = {150L, 150, 250}, gamma[] = {1.21L, 1.21L, 1.25L};
    for (int i = 51; i < 54; i++)
        r = r + k[i].n * (pow(delta, k[i].d) * pow(tau, k[i].t) * exp(-20 * ((delta - 1) * (delta - 1)) - beta[i - 51] * ((tau - gamma[i - 51]) * (tau - gamma[i - 51]))));
    static const ld n[] = {-0.14874640856724L, 0.31806110878444L}, b[] = {0.85L, 0.95L}, C[] = {28, 32}, D[] = {700, 800};
    S q = (delta - 1) * (delta - 1);
    for (int i = 0; i < 2; i++)
    {
        S theta = (1 - tau) + 0.32L * pow(q, 1 / 0.6L);
        S Delta = theta * theta + 0.2L * pow(q, 3.5L);
        r = r + n[i] * (pow(Delta, b[i]) * delta * exp(-C[i] * q - D[i] * ((tau - 1) * (tau - 1))));
    }
    return r;
}
template <class S> S wp95(const S& T, const S& rho) { S tau = 647.096L / T, delta = rho / 322.0L; return 461.51805L * T * (wp95_ideal(tau, delta) + wp95_residual(tau, delta)); }

// ---- Haar, Gallagher and Kell (1984) in the form of Kestin et al. (1984): f(T, rho) in J/kg
template <class S> S hgk(const S& T, const S& rho)
{
    S t = T / 647.27L, d = rho / 317.763L;
    static const ld A0[] = {-0.130840393653E+2L, -0.857020420940E+2L, 0.765192919131E-2L, -0.620600116069E+0L, -0.106924329402E+2L, -0.280671377296E+1L, 0.119843634845E+3L, -0.823907389256E+2L, 0.555864146443E+2L, -0.310698122980E+2L, 0.136200239305E+2L, -0.457116129409E+1L, 0.115382128188E+1L, -0.214242224683E+0L, 0.282800597384E-1L, -0.250384152737E-2L, 0.132952679669E-3L, -0.319277411208E-5L};
    static const ld A1[] = {0.15383053E+1L, -0.81048367E+0L, -0.68305748E+1L, 0.00000000E+0L, 0.86756271E+0L};
    S lt = log(t);
    S r = (A0[0] + A0[1] * t) * lt;
    for (int i = 2; i < 18; i++) r = r + A0[i] * pow(t, i - 4);
    for (int i = 0; i < 5; i++) r = r + A1[i] * (d * pow(t, 1 - i));
    S y = d * (0.59402227E-1L + -0.28128238E-1L * lt + 0.56826674E-3L * pow(t, -3) + -0.27987451E-3L * pow(t, -5));
    S x = 1 / (1 - y);
    r = r + 0.42923415E+1L * (t * (log(d * x) - (130 / 3.0L) * x + (169 / 6.0L) * (x * x) - 14 * y));
    struct R { ld n; int k, l; };
    static const R k[] = {
        {-0.76221190138079E+1L, 1, 1}, {0.32661493707555E+2L, 1, 2}, {0.11305763156821E+2L, 1, 4},
        {-0.10015404767712E+1L, 1, 6}, {0.12830064355028E+3L, 2, 1}, {-0.28371416789846E+3L, 2, 2},
        {0.24256279839182E+3L, 2, 4}, {-0.99357645626725E+2L, 2, 6}, {-0.12275453013171E+4L, 3, 1},
        {0.23077622506234E+4L, 3, 2}, {-0.16352219929859E+4L, 3, 4}, {0.58436648297764E+3L, 3, 6},
        {0.42365441415641E+4L, 4, 1}, {-0.78027526961828E+4L, 4, 2}, {0.38855645739589E+4L, 4, 4},
        {-0.91225112529381E+3L, 4, 6}, {-0.90143895703666E+4L, 5, 1}, {0.15196214817734E+5L, 5, 2},
        {-0.39616651358508E+4L, 5, 4}, {-0.72027511617558E+3L, 5, 6}, {0.11147126705990E+5L, 6, 1},
        {-0.17412065252210E+5L, 6, 2}, {0.99918281207782E+3L, 6, 4}, {0.33504807153854E+4L, 6, 6},
        {-0.64752644922631E+4L, 7, 1}, {0.98323730907847E+4L, 7, 2}, {0.83877854108422E+3L, 7, 4},
        {-0.27919349903103E+4L, 7, 6}, {0.11112410081192E+4L, 9, 1}, {-0.17287587261807E+4L, 9, 2},
        {-0.36233262795423E+3L, 9, 4}, {0.61139429010144E+3L, 9, 6}, {0.32968064728562E+2L, 3, 0},
        {0.10411239605066E+3L, 3, 3}, {-0.38225874712590E+2L, 1, 3}, {-0.20307478607599E+3L, 5, 3}};
    S z = 1 - exp(-0.317763L * d);
    for (auto& i : k) r = r + i.n * (pow(t, -i.l) * pow(z, i.k));
    static const ld m[] = {2L, 2, 2, 4}, n[] = {0L, 2, 0, 0}, al[] = {34L, 40, 30, 1050}, be[] = {2e4L, 2e4L, 4e4L, 25}, ri[] = {0.10038928E+1L, 0.10038928E+1L, 0.10038928E+1L, 0.48778492E+1L},
        ti[] = {0.98876821L, 0.98876821L, 0.99124013L, 0.41713659L}, A4[] = {-0.32329494E-2L, -0.24139355E-1L, 0.79027651E-3L, -0.13362857E+1L};
    for (int i = 0; i < 4; i++)
    {
        S de = (d - ri[i]) / ri[i], ta = (t - ti[i]) / ti[i];
        r = r + A4[i] * (pow(de, n[i]) * exp(-al[i] * pow(de, m[i]) - be[i] * (ta * ta)));
    }
    return 69595.89L * r;
}
// ---- saturation: auxiliary equations of Wagner and Pruss (2002)
inline ld psat(ld T)
{
    ld t = 1 - T / 647.096L;
    return 22.064e6L * std::exp(647.096L / T * (-7.85951783L * t + 1.84408259L * std::pow(t, 1.5L) - 11.7866497L * t * t * t + 22.6807411L * std::pow(t, 3.5L) - 15.9618719L * std::pow(t, 4.0L) + 1.80122502L * std::pow(t, 7.5L)));
}
inline ld sat_liquid(ld T)
{
    ld t = 1 - T / 647.096L;
    auto p = [&](ld e) { return std::pow(t, e / 3); };
    return 322 * (1 + 1.99274064L * p(1) + 1.09965342L * p(2) - 0.510839303L * p(5) - 1.75493479L * p(16) - 45.5170352L * p(43) - 6.74694450e5L * p(110));
}
inline ld sat_vapour(ld T)
{
    ld t = 1 - T / 647.096L;
    auto p = [&](ld e) { return std::pow(t, e / 6); };
    return 322 * std::exp(-2.03150240L * p(2) - 2.68302940L * p(4) - 5.38626492L * p(8) - 17.2991605L * p(18) - 44.7586581L * p(37) - 63.9201063L * p(71));
}
enum Eos { WP95, HGK };
template <class S> S helmholtz(int eos, const S& T, const S& rho) { return eos == WP95 ? wp95(T, rho) : hgk(T, rho); }
// pressure as a function of T and rho
template <class S> S pressure(int eos, const S& T, const S& rho)
{
    Dual<S> r = helmholtz(eos, Dual<S>(T), Dual<S>(rho, S(1)));
    return rho * rho * r.d;
}
struct State
{
    Jet T, P, rho, f; // as functions of T and P (rho, f)
    bool ok = false;
};
// the state near the density rho0
inline State state(int eos, ld T, ld P, ld rho0)
{
    State s;
    ld r = rho0;
    for (int i = 0; i < 40; i++)
    {
        Jet p = pressure(eos, Jet(T), Jet::y(r));
        ld step = (p.val() - P) / p.d(0, 1);
        if (!(std::fabs(step) < 0.3L * r)) step = std::copysign(0.3L * r, step);
        r -= step;
        if (std::fabs(step) < 1e-17L * r) break;
    }
    ld pr = pressure(eos, Jet(T), Jet::y(r)).d(0, 1);
    s.T = Jet::x(T); s.P = Jet::y(P); s.rho = Jet(r);
    for (int i = 0; i < 5; i++) s.rho = s.rho - (pressure(eos, s.T, s.rho) - s.P) / pr; // each step one order more
    s.f = helmholtz(eos, s.T, s.rho);
    s.ok = std::isfinite(double(r)) && std::fabs(r / rho0 - 1) < 1e-3L;
    return s;
}
} // namespace vf::water_ref
namespace vf::water_ref {
// ---- dielectric constant as a function of T and density
enum Diel { JN91, F97, SV14 };
template <class S> S epsilon(int model, const S& T, const S& rho)
{
    if (model == JN91)
    { // Johnson and Norton (1991)
        S t = T / 298.15L, r = rho / 1000.0L;
        return S(1) + 0.1470333593e+02L / t * r + (0.2128462733e+03L / t - 0.1154445173e+03L + 0.1955210915e+02L * t) * (r * r) +
               (-0.8330347980e+02L / t + 0.3213240048e+02L * t - 0.6694098645e+01L * (t * t)) * (r * r * r) +
               (-0.3786202045e+02L / (t * t) + 0.6887359646e+02L / t - 0.2729401652e+02L) * (r * r * r * r);
    }
    if (model == SV14)
    { // Sverjensky et al. (2014), T in C, density in g/cm3
        S t = T - 273.15L, q = pow(t, 0.5L);
        return exp(-8.016651e-05L * t - 6.871618e-02L * q + 4.747973L) * exp((-1.576377e-03L * t + 6.810288e-02L * q + 7.548755e-01L) * log(rho / 1000.0L));
    }
    // Fernandez et al. (1997)
    static const ld I[] = {1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10}, J[] = {0.25L, 1, 2.5L, 1.5L, 1.5L, 2.5L, 2, 2, 5, 0.5L, 10},
        n[] = {0.978224486826L, -0.957771379375L, 0.237511794148L, 0.714692244396L, -0.298217036956L, -0.108863472196L, 0.949327488264e-1L, -0.980469816509e-2L, 0.165167634970e-4L, 0.937359795772e-4L, -0.12317921872e-9L};
    S d = rho / 322.0L, t = 647.096L / T, g = 1 + 0.196096504426e-2L * d * pow(T / 228.0L - 1, -1.2L);
    for (int i = 0; i < 11; i++) g = g + n[i] * (pow(d, I[i]) * pow(t, J[i]));
    const ld Na = 6.0221367e23L, e0 = 8.854187817e-12L, M = 0.018015268L;
    S A = (Na * 6.138e-30L * 6.138e-30L / M / e0 / 1.380658e-23L) * (rho * g / T), B = (Na * 1.636e-40L / 3 / M / e0) * rho;
    return (1 + A + 5 * B + pow(9 + 2 * A + 18 * B + A * A + 10 * (A * B) + 9 * (B * B), 0.5L)) / (4 * (1 - B));
}
// ---- Zhang and Duan (2005): Z - 1 as a function of T and the reduced volume
template <class S> S zd05_Z(const S& T, const S& Vr)
{
    S t = T / 647.25L, i2 = 1 / (t * t), i3 = i2 / t;
    S B = 3.49824207e-01L - 2.91046273e+00L * i2 + 2.00914688e+00L * i3, C = 1.12819964e-01L + 7.48997714e-01L * i2 - 8.73207040e-01L * i3,
      D = 1.70609505e-02L - 1.46355822e-02L * i2 + 5.79768283e-02L * i3, E = -8.41246372e-04L + 4.95186474e-03L * i2 - 9.16248538e-03L * i3;
    S w = 1 / (Vr * Vr);
    return 1 + B / Vr + C * w + D * (w * w) + E * (w * w / Vr) + (-1.00358152e-01L / t * w + -1.82674744e-03L * t * (w * w)) * exp(-1.05999998e-02L * w);
}
// density in kg/m3 near rho0 as a function of T and P (Pa)
inline State zd05(ld T, ld P, ld rho0, ld M)
{
    State s;
    s.T = Jet::x(T); s.P = Jet::y(P);
    const ld Vc = 55.9480373L, R = 83.14467L;
    auto f = [&](const Jet& t, const Jet& p, const Jet& vr) { return zd05_Z(t, vr) * (R * t) / vr / Vc - p / 1e5L; };
    ld v = M / (rho0 / 1000) / Vc;
    for (int i = 0; i < 60; i++) { Jet x = f(Jet(T), Jet(P), Jet::x(v)); v -= x.val() / x.d(1, 0); }
    ld d = f(Jet(T), Jet(P), Jet::x(v)).d(1, 0);
    Jet vr(v);
    for (int i = 0; i < 5; i++) vr = vr - f(s.T, s.P, vr) / d;
    s.rho = M * 1000 / (vr * Vc);
    s.ok = std::isfinite(double(v)) && std::fabs(s.rho.val() / rho0 - 1) < 1e-3L;
    return s;
}
} // namespace vf::water_ref
