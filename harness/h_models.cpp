// Models of minerals, aqueous solutes and gases: the answers of the engine against the
// Gibbs energy of the published model and its exact derivatives (jet.h).
#include "judge.h"
#include "random_specs.h"
#include "water_ref.h"
using namespace vf;
namespace W = vf::water_ref;
using TS = ThermoPropertiesSubstance;
const ld cal = 4.184L, C0 = 273.15L;

static Database db_of(const std::vector<Substance>& s) { Database d; for (auto& x : s) d.addSubstance(x); return d; }

// ---------------------------------------------------------------- minerals
// Heat capacity: sum of coefficients times these powers of the temperature
static const ld powers[10] = {0, 1, -2, -0.5L, 2, 3, 4, -3, -1, 0.5L};
template <class S> S cp_of(const vd& a, const S& T) { S r = S(0); for (size_t i = 0; i < a.size() && i < 10; i++) r = r + ld(a[i]) * pow(T, powers[i]); return r; }
template <class S> S int_pow(ld e, const S& T, ld T0) { return e == -1 ? log(T) - std::log(T0) : (pow(T, e + 1) - std::pow(T0, e + 1)) / (e + 1); }
template <class S> S int_cp(const vd& a, const S& T, ld T0) { S r = S(0); for (size_t i = 0; i < a.size() && i < 10; i++) r = r + ld(a[i]) * int_pow(powers[i], T, T0); return r; }
template <class S> S int_cp_T(const vd& a, const S& T, ld T0) { S r = S(0); for (size_t i = 0; i < a.size() && i < 10; i++) r = r + ld(a[i]) * int_pow(powers[i] - 1, T, T0); return r; }

struct Min { Jet G, H; ld V0 = 0; double scale = 0; bool ok = true; };
// properties at the reference pressure
static Min at_reference_pressure(const SubstanceSpec& k, ld T)
{
    Min m;
    auto& iv = k.par.temperature_intervals;
    auto& tr = k.par.phase_transition_prop;
    size_t n = 0;
    for (size_t i = 0; i < iv.size(); i++) if (ld(iv[i][0]) <= T) n = i; // intervals are contiguous
    ld H = k.H, S = k.S, G = k.G;
    size_t ft = 0;
    for (size_t j = 0; j <= n; j++)
    {
        ld T0 = j ? iv[j][0] : k.Tr;
        if (j && ft < tr.size() && tr[ft][0] <= T0)
        {
            S += tr[ft].size() > 1 ? tr[ft][1] : 0; H += tr[ft].size() > 2 ? tr[ft][2] : 0; m.V0 += tr[ft].size() > 3 ? tr[ft][3] : 0;
            ft++;
        }
        auto& a = k.par.Cp_coeff[j];
        if (j < n)
        { // dG = -int S dT = -(T S(T) - T0 S0 - int Cp dT)
            ld T1 = iv[j][1], dH = int_cp<ld>(a, T1, T0), S1 = S + int_cp_T<ld>(a, T1, T0);
            G -= T1 * S1 - T0 * S - dH;
            H += dH; S = S1;
            for (size_t i = 0; i < a.size() && i < 10; i++) m.scale += std::fabs(double(a[i] * int_pow<ld>(powers[i], T1, T0)));
        }
        else
        {
            Jet t = Jet::x(T), dH = int_cp(a, t, T0), S1 = S + int_cp_T(a, t, T0);
            m.G = G - (t * S1 - T0 * S - dH);
            m.H = H + dH;
            for (size_t i = 0; i < a.size() && i < 10; i++) m.scale += std::fabs(double(a[i] * int_pow<ld>(powers[i], T, T0)));
        }
    }
    m.scale += std::fabs(k.G) + std::fabs(k.H) + std::fabs(k.S) * double(T);
    return m;
}
// contributions of pressure to the Gibbs energy, P in bar
static Jet g_constant(const SubstanceSpec& k, const Jet&, const Jet& P) { return ld(k.V) * (P - ld(k.Pr) / 1e5L); }
static Jet g_berman(const SubstanceSpec& k, const Jet& T, const Jet& P)
{
    auto& v = k.par.volume_coeff;
    Jet t = T - ld(k.Tr), p = P - ld(k.Pr) / 1e5L;
    return ld(k.V) * (p * (1 + ld(v[0]) * t + ld(v[1]) * (t * t) + ld(v[2]) * (t * t * t)) + ld(v[3]) / 2 * (p * p) + ld(v[4]) / 3 * (p * p * p));
}
// integral of V dP after Murnaghan with the expansivity and bulk modulus of Holland and Powell (1998)
static Jet g_murnaghan(const SubstanceSpec& k, ld V, const Jet& T, const Jet& P)
{
    ld a = k.par.isobaric_expansivity * 1e-5L;
    Jet kt = ld(k.par.isothermal_compresibility) * (1 - 1.5e-4L * (T - ld(k.Tr))), p = P / 1000;
    Jet vt = V * (1 + a * (T - ld(k.Tr)) - 20 * a * (sqrt(T) - std::sqrt(ld(k.Tr))));
    return vt * kt / 3 * (pow(1 + 4 * p / kt, 0.75L) - 1) * 1000;
}
static Jet g_landau(const SubstanceSpec& k, const Jet& T, const Jet& P)
{
    auto& l = k.par.m_landau_phase_trans_props;
    ld Tc0 = l[0] + C0, S = l[1], V = l[2], q0 = std::sqrt(1 - ld(k.Tr) / Tc0); // q = Q^2
    Jet Tc = Tc0 + V / S * P;
    Jet g = S * Tc0 * (q0 - q0 * q0 * q0 / 3) - S * q0 * T + g_murnaghan(k, V * q0, T, P);
    if (T.val() < Tc.val())
    {
        Jet q = sqrt(1 - T / Tc);
        g = g + S * ((T - Tc) * q + Tc * (q * q * q) / 3);
    }
    return g;
}
// third or fourth order Birch-Murnaghan; returns the Gibbs energy
static Jet g_birch(const SubstanceSpec& k, const Jet& T, const Jet& Pbar, Jet& V)
{
    auto& c = k.par.volume_BirchM_coeff;
    Jet P = Pbar / 10;
    ld Pr = ld(k.Pr) / 1e6L, Tr = k.Tr;
    Jet v0 = 10 * ld(k.V) * exp(ld(c[0]) * (T - Tr) + ld(c[1]) / 2 * (T * T - Tr * Tr) + ld(c[2]) * (1 / Tr - 1 / T));
    Jet kt = ld(c[5]) + ld(c[6]) * (T - Tr);
    ld kp = c[7];
    Jet kpp = std::fabs(c[8]) < 1e-20 ? -((35 / 9.0L + (3 - kp) * (4 - kp)) / kt) : Jet(c[8]);
    ld a1 = 1.5L * (kp - 4);
    Jet a2 = 1.5L * (kt * kpp + (kp * kp - 7 * kp + 143 / 9.0L));
    // P = 3 k f (1+2f)^(5/2) (1 + a1 f + a2 f^2), f the Eulerian strain
    auto eq = [&](const Jet& f) { return 3 * kt * f * pow(1 + 2 * f, 2.5L) * (1 + a1 * f + a2 * (f * f)) - P; };
    Jet f = P / (3 * kt);
    for (int i = 0; i < 60; i++)
    {
        ld x = f.val(), h = 1e-6L;
        ld d = (eq(Jet(x + h)).val() - eq(Jet(x - h)).val()) / (2 * h);
        f = f - eq(f) / d;
    }
    V = v0 * pow(1 + 2 * f, -1.5L);
    Jet E = 9 * kt * v0 * (f * f / 2 + a1 * (f * f * f) / 3 + a2 * (f * f * f * f) / 4);
    Jet G = P * V - Pr * v0 + E;
    V = V / 10;
    return G;
}


static void one_mineral(Judge& j, const SubstanceSpec& k, ld T, ld Pbar, const TS& t)
{
    using MP = MethodCorrP_Thrift;
    Min m = at_reference_pressure(k, T);
    Jet x = Jet::x(T), y = Jet::y(Pbar), g(0), V(0), lan(0);
    bool reference = double(T) == k.Tr && double(Pbar) == k.Pr / 1e5;
    bool volume = true;
    if (k.mT == MethodCorrT_Thrift::CTM_CHP) lan = g_landau(k, x, y);
    switch (k.mP)
    {
    case MP::CPM_CON: if (std::isnan(k.V)) { V = m.V0; break; } g = g_constant(k, x, y); V = ld(k.V); break;
    case MP::CPM_VBE: g = g_berman(k, x, y); V = g.dy(); break;
    case MP::CPM_CEH:
        if (reference || std::fabs(k.V) <= 1e-9 || k.par.isobaric_expansivity == 0 || k.par.isothermal_compresibility == 0) { g = g_constant(k, x, y); V = ld(k.V); break; }
        g = g_murnaghan(k, k.V, x, y); V = g.dy() + (k.mT ? lan.dy() : Jet(m.V0)); break;
    case MP::CPM_VBM: if (!reference) { g = g_birch(k, x, y, V); } else { V = ld(k.V); } break;
    default: V = m.V0; break;
    }
    Jet gp = g + lan, G = m.G + gp;
    ld S = -G.d(1, 0), H = m.H.val() + gp.val() - T * gp.d(1, 0), Cp = -T * G.d(2, 0);
    double sc = m.scale + std::fabs(double(gp.val())), sS = sc / double(T);
    bool birch = k.mP == MP::CPM_VBM; // its entropy is a difference over 0.2 K
    // the integral is a small difference of large terms, differentiated numerically
    double nz = birch ? 3e-13 * k.par.volume_BirchM_coeff[5] * k.V : 0, bt = birch ? 1e-5 * std::fabs(double(g.d(1, 0))) + 2e-8 * double(Pbar) * k.V + 10 * nz : 0;
    j("Gibbs energy", t.gibbs_energy.val, G.val(), 1e-12, sc, birch ? 1e-9 * double(Pbar) * k.V + nz : 0);
    j("entropy", t.entropy.val, S, birch ? 1e-9 : 1e-12, sS, bt);
    j("enthalpy", t.enthalpy.val, H, birch ? 1e-9 : 1e-12, sc, double(T) * bt);
    j("heat capacity", t.heat_capacity_cp.val, Cp, birch ? 1e-8 : 1e-10, 1 + sS, birch ? double(T) * (4 * nz + 1e-4 * std::fabs(double(g.d(2, 0)))) + 1e-6 : 0);
    if (volume) j("volume", t.volume.val, V.val(), birch ? 1e-9 : 1e-11, std::isnan(k.V) ? 1 : std::fabs(k.V));
    if (k.mP && !(k.mP == MP::CPM_CON && std::isnan(k.V)) && !reference)
    {
        ld U = H - Pbar * V.val(), A = U - T * S;
        double sp = double(Pbar) * std::fabs(double(V.val()));
        j("internal energy", t.internal_energy.val, U, birch ? 1e-9 : 1e-11, sc + sp, double(T) * bt);
        j("Helmholtz energy", t.helmholtz_energy.val, A, birch ? 1e-9 : 1e-11, sc + sp, double(T) * bt);
    }
}
static double some_temperature(Rng& r, const SubstanceSpec& k)
{
    auto& iv = k.par.temperature_intervals;
    double lo = iv.empty() ? 273.15 : iv[0][0], hi = iv.empty() ? 1500 : iv.back()[1];
    switch (r.below(8))
    {
    case 0: return k.Tr;
    case 1: if (!iv.empty()) return r.pick(iv)[r.below(2)]; return lo;
    case 2: return hi + r.u(0, 300);
    case 3: return lo - r.u(0, 40);
    case 4: if (!iv.empty()) return r.pick(iv)[r.below(2)] + r.pickd({-1e-9, 1e-9, 1e-6, -1e-6}); return lo;
    default: return r.u(lo, hi);
    }
}
static const char* model_name(const SubstanceSpec& k)
{
    using MP = MethodCorrP_Thrift;
    if (k.mT == MethodCorrT_Thrift::CTM_CHP) return "Landau";
    if (k.mT == MethodCorrT_Thrift::CTM_CST) return "EntropyCp";
    switch (k.mP) { case MP::CPM_CON: return "CpConstantVolume"; case MP::CPM_VBE: return "Berman"; case MP::CPM_CEH: return "Murnaghan"; case MP::CPM_VBM: return "BirchMurnaghan"; default: return "Cp"; }
}
static void minerals(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 12000 : 1600; c < n; c++)
    {
        if (!run("mineral|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        SubstanceSpec k = random_mineral(r);
        if (r.coin(0.12))
        { // constant heat capacity and entropy
            k.genEos = 0; k.mT = MethodCorrT_Thrift::CTM_CST; k.mP = r.coin(0.8) ? int(MethodCorrP_Thrift::CPM_CON) : 0; k.par = {};
            if (std::isnan(k.V)) k.V = 3;
        }
        ThermoEngine e(db_of({water("H2O@", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WJNR), make(k)}));
        for (int q = 0; q < 12; q++)
        {
            double T = some_temperature(r, k), P = r.coin(0.15) ? k.Pr : r.coin(0.2) ? 1e5 : r.logu(1e5, r.coin() ? 1e9 : 5e9);
            if (T < 150) continue;
            Judge j{std::string(model_name(k)) + " mineral", {{"T", T}, {"P", P}, {"record", describe(k)}}};
            run.doing(j.kind + " T=" + num(T) + " P=" + num(P));
            auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, "X"); });
            if (!a.ok) { rep().violation(j.kind + ": no answer", json{{"at", j.at}, {"error", a.error.substr(0, 300)}}); continue; }
            rep().distinct(j.kind + std::to_string(k.par.Cp_coeff.size()) + "," + std::to_string(int(T / 20)) + "," + std::to_string(int(std::log(P) * 4)));
            rep().count(std::string("states of ") + model_name(k));
            if (k.mT == MethodCorrT_Thrift::CTM_CST)
            {
                SubstanceSpec s = k;
                s.par.temperature_intervals = {{0, 1e5}}; s.par.Cp_coeff = {{k.Cp}};
                if (!k.mP) { Min m = at_reference_pressure(s, T); j("Gibbs energy", a.value.gibbs_energy.val, m.G.val(), 1e-12, m.scale); j("entropy", a.value.entropy.val, -m.G.d(1, 0), 1e-12, m.scale / T); j("enthalpy", a.value.enthalpy.val, m.H.val(), 1e-12, m.scale); j("heat capacity", a.value.heat_capacity_cp.val, k.Cp, 1e-12); continue; }
                one_mineral(j, s, T, P / 1e5L, a.value);
                continue;
            }
            one_mineral(j, k, T, P / 1e5L, a.value);
        }
    }
}

// ---------------------------------------------------------------- aqueous solutes
const ld Rg = 8.31451L, M = 0.018015268L;
struct SolventKind { const char* symbol; int eos, diel, model; ld Str, Gtr, T0; };
static const SolventKind solvents[] = {{"W_WP95_JNr", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WJNR, W::WP95, 15.1320L * 4.184L, -56290.0L * 4.184L, 273.16L},
    {"W_HGKr_JNr", MethodCorrT_Thrift::CTM_WAR, MethodGenEoS_Thrift::CTPM_WJNR, W::HGK, 15.1320L * 4.184L, -56290.0L * 4.184L, 273.15L}};
static Jet water_gibbs(const SolventKind& w, const W::State& s) { return M * (s.f + s.P / s.rho) - w.Str * (s.T - w.T0) + w.Gtr; }
static Jet ideal_water_gibbs(const Jet& T)
{ // Woolley (1980)
    static const ld c[18] = {.19730271018e2L, .209662681977e2L, -.483429455355e0L, .605743189245e1L, .2256023885e2L, -.987532442e1L, -.43135538513e1L, .458155781e0L, -.47754901883e-1L,
        .41238460633e-2L, -.27929052852e-3L, .14481695261e-4L, -.56473658748e-6L, .16200446e-7L, -.3303822796e-9L, .451916067368e-11L, -.370734122708e-13L, .137546068238e-15L};
    Jet t = T / 100.0L, g = -((c[0] / t + c[1]) * log(t));
    for (int i = 2; i < 18; i++) g = g - c[i] * pow(t, i - 5);
    return Rg * T * g - 182161.88L;
}
// The size of a thermodynamic potential's terms, for tolerances
struct Potential
{
    Jet G; double size = 0, sizeT = 0, sizeTT = 0, sizeP = 0;
    void add(const Jet& g) { G = G + g; size += std::fabs(double(g.val())); sizeT += std::fabs(double(g.d(1, 0))); sizeTT += std::fabs(double(g.d(2, 0))); sizeP += std::fabs(double(g.d(0, 1))); }
};
// the effective radius function of Shock et al. (1992), in Angstrom
static Jet g_function(bool gems, const W::State& s)
{
    Jet r = s.rho / 1000, t = s.T - C0, p = s.P / 1e5L;
    Jet g(0);
    if (!gems && r.val() > 1) return g;
    Jet a = -2.037662L + 5.747e-3L * t - 6.557892e-6L * (t * t), b = 6.107361L - 1.074377e-2L * t + 1.268348e-5L * (t * t);
    g = a * exp(b * log(r.val() > 1 ? r - 1 : 1 - r));
    ld TC = t.val(), P = p.val();
    if (P < 1000 && TC > 155)
    {
        Jet x = (t - 155) / 300, q = 1000 - p;
        Jet f = (pow(x, 4.8L) + (gems ? 36.66666L : 36.6666L) * pow(x, 16)) * (-1.504956e-10L * pow(q, 3) + (gems ? 5.017997e-14L : 5.017990e-14L) * pow(q, 4));
        g = g - f;
    }
    return g;
}
static Potential hkf(bool gems, const SubstanceSpec& k, const W::State& s)
{
    auto& h = k.par.HKF_parameters;
    const ld a1 = h[0], a2 = h[1], a3 = h[2], a4 = h[3], c1 = h[4], c2 = h[5], wr = h[6], th = 228, psi = 2600, Tr = 298.15L, eta = 1.66027e5L;
    const ld Zr = gems ? -0.1278034682e-1L : -1.278055636e-2L, Yr = gems ? -0.5798650444e-4L : -5.795424563e-5L, z = k.charge;
    Jet T = s.T, P = s.P / 1e5L, Z = -1 / W::epsilon(W::JN91, s.T, s.rho), lp = log((psi + P) / (psi + 1));
    Jet w(wr);
    if (k.charge)
    {
        ld rr = z * z / (wr / eta + z / 3.082L);
        Jet g = g_function(gems, s);
        w = eta * (z * z / (rr + std::fabs(z) * g) - z / (3.082L + g));
    }
    Potential p;
    const ld G = k.G / cal, S = k.S / cal;
    auto add = [&](const Jet& x) { p.add(cal * x); };
    add(G - S * (T - Tr));
    add(-c1 * (T * log(T / Tr) - T + Tr));
    add(a1 * (P - 1)); add(a2 * lp);
    add(-c2 * ((1 / (T - th) - 1 / (Tr - th)) * (th - T) / th - T / (th * th) * log(Tr * (T - th) / (T * (Tr - th)))));
    add((a3 * (P - 1) + a4 * lp) / (T - th));
    add(-w * (Z + 1)); add(wr * (Zr + 1) + wr * Yr * (T - Tr));
    // the two factors of the Born term are computed and differentiated separately
    p.sizeTT += double(std::fabs(cal * w.d(1, 0) * Z.d(1, 0)) * 2 + std::fabs(cal * w.val() * Z.d(2, 0)) + std::fabs(cal * w.d(2, 0)));
    return p;
}
static Jet ad_increment(const SubstanceSpec& k, const SolventKind& w, const W::State& s)
{
    auto& c = k.par.Cp_nonElectrolyte_coeff;
    Jet RT = Rg * s.T, r = s.rho / 1000;
    return -RT * std::log(1000 / 18.01528L) + (1 - ld(c[0])) * (water_gibbs(w, s) - ideal_water_gibbs(s.T)) + ld(c[0]) * RT * log(83.1451L * s.T / 18.01528L * r) + RT * r * (ld(c[1]) + ld(c[2]) * pow(1000 / s.T, 0.5L));
}
static void solutes(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 9000 : 560; c < n; c++)
    {
        if (!run("solute|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        bool gems = false;
        SubstanceSpec k = random_solute(r, gems);
        const SolventKind& w = solvents[r.below(2)];
        ThermoEngine e(db_of({water(w.symbol, w.eos, w.diel), make(k)}));
        e.setSolventSymbol(w.symbol);
        using MG = MethodGenEoS_Thrift;
        std::string model = k.genEos == MG::CTPM_HP98 ? "HollandPowell98" : k.genEos == MG::CTPM_AN91 ? "Anderson91" : k.genEos == MG::CTPM_CPT ? "AkinfievDiamond" : gems ? "HKFgems" : "HKFreaktoro";
        double pr = 1e5;
        double rho_r = e.propertiesSolvent(298.15, pr, w.symbol, 0).density.val;
        W::State ref = W::state(w.model, 298.15L, 1e5L, rho_r);
        for (int q = 0; q < 12; q++)
        {
            double T, P;
            switch (r.below(5))
            {
            case 0: T = r.u(273.16, 640); P = std::max(1e5, double(W::psat(T)) * (1 + r.logu(1e-3, 1))); break;
            case 1: T = r.u(273.16, 400); P = r.logu(1e5, 5e8); break;
            case 2: T = 298.15; P = 1e5; break;
            case 3: T = r.u(650, 1200); P = r.u(5e7, 6e8); break;
            default: T = r.u(273.16, 1000); P = r.u(3e7, 5e8);
            }
            if (k.genEos == MG::CTPM_HP98 && r.coin(0.1)) T = 500;
            Judge j{model + " solute", {{"T", T}, {"P", P}, {"solvent", w.symbol}, {"record", describe(k)}}};
            run.doing(j.kind + " T=" + num(T) + " P=" + num(P));
            auto d = query(P, [&](double& p) { return e.propertiesSolvent(T, p, w.symbol, 0).density.val; });
            W::State s = d.ok ? W::state(w.model, T, P, d.value) : W::State{};
            if (!s.ok) { rep().count("water not available"); continue; } // judged by P16
            auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, "X"); });
            if (!a.ok) { rep().violation(j.kind + ": no answer", json{{"at", j.at}, {"error", a.error.substr(0, 300)}}); continue; }
            rep().distinct(model + w.symbol + std::to_string(k.charge) + "," + std::to_string(int(T / 20)) + "," + std::to_string(int(std::log(P) * 4)));
            rep().count("states of " + model);
            const TS& t = a.value;
            const ld Pb = P / 1e5L;
            Potential p;
            ld H0 = 0, Vfix = 0, Vfix2 = 0; // enthalpy = G + T S + H0
            bool fixed_volume = false;
            ld cm = 1;
            const ld al = -ref.rho.d(1, 0) / ref.rho.val(), be = ref.rho.d(0, 1) / ref.rho.val() * 1e5L, dal = -ref.rho.d(2, 0) / ref.rho.val() + al * al;
            const ld Tr = 298.15L, F = (k.Cp - (k.genEos == MG::CTPM_HP98 ? Tr * k.par.solute_holland_powell98_coeff[0] : 0)) / (Tr * dal);
            if (k.genEos == MG::CTPM_HP98)
            {
                ld b = k.par.solute_holland_powell98_coeff[0];
                Jet P1 = s.P / 1e5L, lr = log(s.rho / ref.rho.val());
                p.add(k.G - (s.T - Tr) * ld(k.S)); p.add(P1 * ld(k.V)); p.add(b * (Tr * s.T - Tr * Tr / 2 - s.T * s.T / 2));
                p.add(F * al * (s.T - Tr)); p.add(-F * be * P1); p.add(F * (T <= 500 ? lr : s.T / 500 * lr));
                H0 = k.H - k.G - Tr * k.S;
            }
            else if (k.genEos == MG::CTPM_AN91)
            {
                p.add(k.G - (s.T - Tr) * ld(k.S)); p.add(F * al * (s.T - Tr)); p.add(F * log(s.rho / ref.rho.val()));
                H0 = k.H - k.G - Tr * k.S;
                fixed_volume = true; Vfix = k.V;
            }
            else if (k.genEos == MG::CTPM_CPT)
            {
                Min m = at_reference_pressure(k, T);
                Jet x = ad_increment(k, w, s), xr = ad_increment(k, w, ref);
                ld S0 = -xr.d(1, 0);
                p.add(m.G); p.add(x); p.add(S0 * (s.T - Tr) - xr.val());
                p.size += m.scale + 3e5; p.sizeT += m.scale / T + 500; p.sizeTT += m.scale / T / T + 1;
                ld h = m.H.val() - (xr.val() + Tr * S0) + x.val() - T * x.d(1, 0);
                Vfix2 = (1 - ld(k.par.Cp_nonElectrolyte_coeff[0])) * (18.01528L - 1000 * M) / (s.rho.val() / 1000) / 10; // its volume is taken with another molar mass of water
                H0 = h - (p.G.val() - T * p.G.d(1, 0));
            }
            else
            {
                p = hkf(gems, k, s);
                H0 = k.H - k.G - Tr * k.S;
                cm = 4.184004L / 4.184L;
            }
            const ld S = -p.G.d(1, 0), H = p.G.val() + T * S + H0, Cp = -T * p.G.d(2, 0), V = fixed_volume ? Vfix : cm * 1e5L * p.G.d(0, 1) + Vfix2, U = H - Pb * V, A = U - T * S;
            double sU = p.size + T * p.sizeT + std::fabs(k.H) + double(Pb * std::fabs(V)) + p.sizeP * P;
            j("Gibbs energy", t.gibbs_energy.val, p.G.val(), 1e-9, p.size);
            j("entropy", t.entropy.val, S, 2e-8, p.sizeT);
            j("enthalpy", t.enthalpy.val, H, 1e-8, sU);
            j("heat capacity", t.heat_capacity_cp.val, Cp, 1e-7, T * p.sizeTT);
            j("volume", t.volume.val, V, 2e-8, 1e5 * p.sizeP);
            j("internal energy", t.internal_energy.val, U, 1e-8, sU);
            j("Helmholtz energy", t.helmholtz_energy.val, A, 1e-8, sU);
        }
    }
}

// ---------------------------------------------------------------- gases

struct Gas { bool ok = false, volume_only = false; ld lnphi = 0, H = 0, V = 0; double tol = 1e-6; };
// real roots of z^3 + a z^2 + b z + c, polished
static std::vector<ld> cubic(ld a, ld b, ld c)
{
    std::vector<ld> r;
    ld q = (a * a - 3 * b) / 9, t = (2 * a * a * a - 9 * a * b + 27 * c) / 54;
    if (t * t < q * q * q) { ld th = std::acos(t / std::sqrt(q * q * q)); for (int k = -1; k <= 1; k++) r.push_back(-2 * std::sqrt(q) * std::cos((th + k * 2 * M_PIl) / 3) - a / 3); }
    else { ld A = -(t < 0 ? -1 : 1) * std::cbrt(std::fabs(t) + std::sqrt(t * t - q * q * q)); r.push_back(A + (A != 0 ? q / A : 0) - a / 3); }
    for (auto& z : r) for (int i = 0; i < 4; i++) { ld f = ((z + a) * z + b) * z + c, d = (3 * z + 2 * a) * z + b; if (d == 0) break; ld n = z - f / d; if (!(std::fabs(n - z) < 1e-3L * std::fabs(z))) break; z = n; }
    return r;
}
static Gas cubic_gas(const SubstanceSpec& k, ld T, ld P)
{
    using MP = MethodCorrP_Thrift;
    Gas g;
    auto& c = k.par.critical_parameters;
    auto get = [&](size_t i) { return i < c.size() ? ld(c[i]) : 0; };
    ld Tc = get(0), Pc = get(1), w = get(2), k1 = T < Tc ? get(3) : 0;
    Jet tr = Jet::x(T) / Tc, kp;
    ld Oa, Ob;
    if (k.mP == MP::CPM_PRSV) { Oa = 0.457235L; Ob = 0.077796L; kp = 0.378893L + 1.4897153L * w - 0.17131848L * w * w + 0.0196554L * w * w * w + k1 * (1 + sqrt(tr)) * (0.7L - tr); }
    else if (k.mP == MP::CPM_PR78) { Oa = 0.457235529L; Ob = 0.0777960739L; kp = Jet(w <= 0.491L ? 0.37464L + 1.54226L * w - 0.26992L * w * w : 0.379642L + 1.48503L * w - 0.164423L * w * w + 0.0166666L * w * w * w); }
    else { Oa = 0.42747L; Ob = 0.08664L; kp = Jet(0.48L + 1.574L * w - 0.176L * w * w); }
    Jet sq = 1 + kp * (1 - sqrt(tr)), a = Oa * Rg * Rg * Tc * Tc / Pc * sq * sq;
    ld b = Ob * Rg * Tc / Pc, A = a.val() * P / (Rg * Rg * T * T), B = b * P / (Rg * T), da = a.d(1, 0);
    bool srk = k.mP == MP::CPM_SRK;
    auto z = srk ? cubic(-1, A - B - B * B, -A * B) : cubic(B - 1, A - 3 * B * B - 2 * B, B * B * B + B * B - A * B);
    const ld s2 = std::sqrt(2.0L);
    ld best = 1e9, second = 1e9, zb = 0, Lb = 0;
    for (ld x : z)
    {
        if (!(x > B)) continue;
        ld L = srk ? std::log(1 + B / x) : std::log((x + (1 + s2) * B) / (x + (1 - s2) * B)) / (2 * s2);
        ld f = x - 1 - std::log(x - B) - A / B * L;
        if (f < best) { second = best; best = f; zb = x; Lb = L; } else second = std::min(second, f);
    }
    if (best > 1e8) return g;
    g.ok = second - best > 1e-5L;
    g.lnphi = best; g.V = zb * Rg * T / P; g.H = Rg * T * (zb - 1) - (a.val() - T * da) / b * Lb;
    // the engine solves the cubic with seven digits of pi: error of the root and what it does to the results
    ld dz = 2e-6L, slope = std::fabs(3 * zb * zb + 2 * zb * (srk ? -1 : B - 1) + (srk ? A - B - B * B : A - 3 * B * B - 2 * B));
    if (slope < 1e-3L) { dz = 1e-6L + 1e-10L / (slope + 1e-9L); }
    g.tol = double(dz / (zb - B) + dz / zb * (A / B) * (A / B < 1e9L ? B / (zb + B) + 0 : 0));
    return g;
}
// Holland and Powell (1991): CORK, V in J/bar, P in bar
static Gas cork_gas(const SubstanceSpec& k, ld T, ld P)
{
    Gas g;
    const ld R = Rg / 1000; // kJ
    Jet t = Jet::x(T);
    ld p = P / 1000;
    if (k.formula != "CO2" && k.formula != "H2O")
    {
        ld Tc = k.par.critical_parameters[0], Pc = k.par.critical_parameters[1] / 1000, b = 9.18301e-4L * Tc / Pc;
        Jet y = Jet::y(p);
        Jet a = (5.45963e-5L * Tc - 8.6392e-6L * t) * (std::pow(Tc, 1.5L) / Pc), c = (-3.30558e-5L * Tc + 2.30524e-6L * t) / std::pow(Pc, 1.5L), d = (6.93054e-7L * Tc - 8.38293e-8L * t) / (Pc * Pc);
        Jet rt = R * t, f = b * y + a / (b * sqrt(t)) * (log(rt + b * y) - log(rt + 2 * b * y)) + 2.0L / 3 * c * pow(y, 1.5L) + 0.5L * d * y * y; // RT ln(fugacity coefficient)
        ld scale = std::fabs((a / (b * sqrt(t))).val()) + std::fabs(rt.val());
        // the equation for RT ln f omits the reference to zero pressure, where its logarithms cancel exactly
        g.ok = true; g.lnphi = f.val() / rt.val(); g.H = (f.val() - T * f.d(1, 0)) * 1000; g.V = Rg * T / P + f.d(0, 1);
        g.tol = 1e-9 + double(1e-14L * scale / rt.val());
        return g;
    }
    bool co2 = k.formula == "CO2";
    ld b = co2 ? 3.057L : 1.465L, p0 = co2 ? 5 : 2, Psat = 0;
    Jet a;
    bool liquid = false;
    if (co2) a = 659.8L + 0.21078L * t - 6.3976e-4L * t * t;
    else if (T > 673) { Jet x = t - 673; a = 1113.4L - 0.22291L * x - 3.8022e-4L * x * x + 1.7791e-7L * x * x * x; if (T <= 695) { Psat = -13.627e-3L + 7.29395e-7L * T * T - 2.34622e-9L * T * T * T + 4.83607e-15L * std::pow(T, 5.0L); liquid = p >= Psat; } }
    else
    {
        Psat = -13.627e-3L + 7.29395e-7L * T * T - 2.34622e-9L * T * T * T + 4.83607e-15L * std::pow(T, 5.0L);
        liquid = p >= Psat;
        Jet x = 673 - t;
        if (liquid) a = 1113.4L - 0.88517L * x + 4.53e-3L * x * x - 1.3183e-5L * x * x * x;
        else a = 1113.4L + 5.8487L * x - 2.1370e-2L * x * x + 6.8133e-5L * x * x * x;
    }
    if (T == 673 || std::fabs(p - Psat) < 1e-9L || std::fabs(p - p0) < 1e-9L) return g;
    ld aT = a.val(), sT = std::sqrt(T);
    auto v = cubic(-R * T / p, -(b * R * T + b * b * p - aT / sT) / p, -aT * b / (sT * p));
    ld vm = 0;
    for (ld x : v) if (x > 0) { if (vm == 0) vm = x; vm = liquid ? std::min(vm, x) : std::max(vm, x); }
    if (!(vm > b)) return g;
    ld vir = 0, lnvir = 0;
    if (p > p0)
    {
        ld q = p - p0, c = co2 ? -1.78198e-1L + 2.45317e-5L * T : -8.909e-2L, d = co2 ? 5.40776e-3L - 1.59046e-6L * T : 1.9853e-3L, e = co2 ? 0 : 8.0331e-2L;
        vir = c * std::sqrt(q) + d * q + e * std::pow(q, 0.25L);
        lnvir = (2.0L / 3 * c * std::pow(q, 1.5L) + d / 2 * q * q + 0.8L * e * std::pow(q, 1.25L)) / (R * T);
    }
    ld z = p * vm / (R * T);
    g.ok = true;
    g.volume_only = p > p0 || (!co2 && liquid && T <= 695);
    g.V = vm + vir;
    g.lnphi = z - 1 - std::log(z - b * p / (R * T)) - aT / (b * R * T * sT) * std::log(1 + b / vm) + lnvir;
    g.H = (R * T * (z - 1) + (1.5L * aT / sT - sT * a.d(1, 0)) / b * std::log(vm / (vm + b))) * 1000;
    ld slope = std::fabs(3 * vm * vm - 2 * vm * R * T / p - (b * R * T + b * b * p - aT / sT) / p) * (p / (R * T)) * (p / (R * T)), dz = 3e-7L + 1e-10L / (slope + 1e-9L);
    g.tol = double(dz / (z - b * p / (R * T)) + dz / z);
    return g;
}
static const char* gas_name(const SubstanceSpec& k)
{
    using MP = MethodCorrP_Thrift;
    switch (k.mP)
    {
    case MP::CPM_PRSV: return "PRSV"; case MP::CPM_PR78: return "PR78"; case MP::CPM_SRK: return "SRK"; case MP::CPM_STP: return "STP"; case MP::CPM_EMP: return "CGF"; case MP::CPM_OFF: return "IdealGas";
    case MP::CPM_CORK: return k.formula == "CO2" ? "CORK_CO2" : k.formula == "H2O" ? "CORK_H2O" : "CORK"; default: return "Cp";
    }
}
static void gases(const Options& o, Cases& run)
{
    using MP = MethodCorrP_Thrift;
    for (int c = 0, n = o.thorough ? 40000 : 5000; c < n; c++)
    {
        if (!run("gas|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        SubstanceSpec k = random_gas(r), k0 = k;
        k0.symbol = "Y"; k0.mP = 0;
        ThermoEngine e(db_of({make(k), make(k0)}));
        std::string model = gas_name(k);
        bool eos = k.mP != MP::CPM_OFF && k.mP;
        bool numeric = k.mP == MP::CPM_STP || k.mP == MP::CPM_EMP;
        for (int s = 0; s < (o.thorough ? 12 : 8); s++)
        {
            ld Tc = k.par.critical_parameters.empty() || k.mP == MP::CPM_EMP ? 300 : k.par.critical_parameters[0], Pc = k.par.critical_parameters.empty() || k.mP == MP::CPM_EMP ? 50 : k.par.critical_parameters[1];
            double lo = k.par.temperature_intervals[0][0], hi = k.par.temperature_intervals[0][1], T = r.u(lo, hi), P = r.logu(1e4, 9e8);
            switch (r.below(10))
            {
            case 0: T = double(Tc); break;
            case 1: T = double(Tc) * (1 + r.u(-1e-3, 1e-3)); break;
            case 2: case 3: T = double(Tc) * r.u(0.5, 1.3); P = double(Pc) * 1e5 * r.u(0.01, 3); break;
            case 4: T = lo; break;
            case 5: T = hi + r.u(0, 500); break;
            case 6: P = r.pickd({1e5, 5e8, 2e8, 1e10, 2e10, 1, 0.5}); break;
            case 7: if (model == "CORK_H2O") { T = r.pickd({673, 673.5, 690, 695, 695.5, 400, 600, 650}); P = r.coin() ? r.u(1e5, 4e7) : r.u(4e7, 6e8); } break;
            case 8: T = lo - r.u(0, 50); break;
            }
            if (k.mP == MP::CPM_EMP && r.coin(0.5)) { auto& q = k.par.critical_parameters; T = std::max(lo, std::min(hi, q[1] * (1 + q[2]) * r.u(2.5, 8))); P = r.logu(1e7, 2e9); }
            Judge j{model + " gas", {{"T", T}, {"P", P}, {"record", describe(k)}}};
            run.doing(j.kind + " T=" + num(T) + " P=" + num(P));
            rep().distinct(model + std::to_string(int(T / 20)) + "," + std::to_string(int(std::log(P) * 4)));
            auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, "X"); });
            auto b = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, "Y"); });
            if (!a.ok || !b.ok) { rep().violation(j.kind + ": no answer", json{{"at", j.at}, {"error", a.error.substr(0, 300)}}); continue; }
            const TS &t = a.value, &i = b.value;
            const ld p = P / 1e5L, V0 = Rg * T / p;
            // the heat capacity and the Gibbs energy stay those of the ideal gas at the temperature, whatever the pressure
            Min m = at_reference_pressure(k, T);
            j("Gibbs energy", t.gibbs_energy.val, m.G.val(), 1e-12, m.scale + (eos ? 1e5 : 0));
            j("heat capacity", t.heat_capacity_cp.val, -T * m.G.d(2, 0), 1e-10, 1 + m.scale / T);
            if (!eos)
            {
                j("entropy", t.entropy.val, -m.G.d(1, 0), 1e-12, m.scale / T);
                j("enthalpy", t.enthalpy.val, m.H.val(), 1e-12, m.scale);
                if (k.mP) j("volume", t.volume.val, V0, 1e-12);
                rep().count("states of " + model);
                continue;
            }
            const ld dH = t.enthalpy.val - m.H.val(), dS = t.entropy.val + m.G.d(1, 0);
            double sc = m.scale * 1e-12;
            bool inside = T >= lo && T < 1e4 && p >= 1e-5L && p < 1e5L;
            if (numeric && inside && p * 0.99L < 1e-5L) continue;
            if (!inside)
            {
                j("volume of the ideal gas outside the range", t.volume.val, V0, 1e-9);
                j("enthalpy outside the range", double(dH), 0, 0, 0, sc);
                j("entropy outside the range", double(dS), 0, 0, 0, sc / T);
                rep().count("states outside the range");
                continue;
            }
            if (numeric)
            { // the residual Gibbs energy H - T S is the integral of V - RT/P from zero pressure
                auto at = [&](double q) { auto x = query(q, [&](double& w) { return e.thermoPropertiesSubstance(T, w, "X"); }); return x.value; };
                bool cgf = k.mP == MP::CPM_EMP;
                double h = cgf ? 0.05 : 1e-3;
                ld p1 = p * (1 - h), p2 = p * (1 + h);
                TS u = at(double(p1 * 1e5L)), v = at(double(p2 * 1e5L));
                if (cgf)
                { // the model knows gas only above the reduced density 0.01 and fluid below 0.9; no two phases well above the critical temperature
                    auto& q = k.par.critical_parameters;
                    ld eps = q[1], rs = 0.6022L * q[0] * q[0] * q[0] / 10;
                    if (T < 2.5L * eps * (1 + q[2]) || q[2] > 2 || p2 >= 1e5L || rs / u.volume.val < 0.02L || rs / v.volume.val > 0.85L) { rep().count("CGF states that are not dense supercritical fluid"); continue; }
                }
                else if (std::fabs(u.volume.val / v.volume.val - 1) > 6 * h || std::fabs(u.volume.val / t.volume.val - 1) > 6 * h) { rep().count("STP states at a change of phase"); continue; }
                ld g = (ld(v.enthalpy.val) - T * v.entropy.val) - (ld(u.enthalpy.val) - T * u.entropy.val) + Rg * T * std::log(p2 / p1);
                j("pressure derivative of the residual Gibbs energy", double(g / (p2 - p1)), (u.volume.val + 4 * ld(t.volume.val) + v.volume.val) / 6, cgf ? 1e-3 : 1e-4, 0, 1e-5 / double(p2 - p1));
                rep().count("states of " + model);
                continue;
            }
            Gas g = k.mP == MP::CPM_CORK ? cork_gas(k, T, p) : cubic_gas(k, T, p);
            if (!g.ok) { rep().count("states too close to a change of root"); continue; }
            rep().count("states of " + model);
            j("volume", t.volume.val, g.V, g.tol, 0, 1e-12);
            if (g.volume_only) continue;
            double ht = double(g.tol) * (std::fabs(double(g.H)) + Rg * T) + sc;
            j("residual enthalpy", double(dH), g.H, 0, 0, ht);
            j("residual entropy", double(dS), g.H / T - Rg * g.lnphi, 0, 0, ht / T);
        }
    }
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv);
    Cases run(o);
    std::string mode = o.rest.empty() ? "minerals" : o.rest[0];
    if (mode == "minerals") minerals(o, run);
    else if (mode == "solutes") solutes(o, run);
    else gases(o, run);
    rep().summary();
}
