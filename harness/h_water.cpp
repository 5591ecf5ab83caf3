// Water: every equation of state and dielectric model of the library against the
// published formulas, with all derivatives taken exactly (jet.h).
#include "models.h"
#include "water_ref.h"
#include "Substances/Solvent/Reaktoro/WaterUtils.hpp"
#include "Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp"
#include "Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.hpp"
#include "Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.hpp"
using namespace vf;
namespace RK = Reaktoro_;
namespace W = vf::water_ref;
using PS = PropertiesSolvent;
using TS = ThermoPropertiesSubstance;
using ES = ElectroPropertiesSolvent;
const ld M = 0.018015268L, cal = 4.184L;

struct Point { double T, P; int state; const char* region; };
// a state inside the range of the equations, in the phase asked for
static Point point(Rng& r, bool sat)
{
    for (;;)
    {
        Point p;
        switch (r.below(sat ? 7 : 6))
        {
        case 0: p.T = r.u(273.16, 640); p.P = r.logu(1e5, 5e8); p.state = 0; p.region = "liquid"; break;
        case 1: p.T = r.u(273.16, 640); p.P = double(W::psat(p.T)) * (1 + r.logu(1e-4, 1)); p.state = 0; p.region = "liquid near saturation"; break;
        case 2: p.T = r.u(650, 1200); p.P = r.logu(1e5, 8e8); p.state = int(r.below(2)); p.region = "supercritical"; break;
        case 3: p.T = r.u(300, 640); p.P = double(W::psat(p.T)) * (1 - r.logu(1e-4, 0.9)); p.state = 1; p.region = "vapour"; break;
        case 4: p.T = r.u(273.16, 373.15); p.P = r.u(1e5, 1e8); p.state = 0; p.region = "cool liquid"; break;
        case 5: p.T = r.u(647.2, 680); p.P = r.logu(2.25e7, 2e8); p.state = 0; p.region = "above the critical temperature"; break;
        default: p.T = r.u(273.2, 640); p.P = 0; p.state = int(r.below(2)); p.region = "saturated"; break;
        }
        if (p.P > 0 && p.T < 647.096)
        {
            double s = double(W::psat(p.T));
            // (the equations of state differ by up to 1e-3 in their saturation pressure)
            if (p.state == 0 ? p.P < s * 1.0001 : p.P > s * 0.9999) continue;
        }
        return p;
    }
}
// the range of Zhang and Duan (2005), away from its cold dense corner
static Point dense(Rng& r)
{
    double T = r.u(300, 2200);
    return {T, r.logu(1.1e8, T < 500 ? 1.5e9 : T < 800 ? 3e9 : 5e9), 0, "dense"};
}
struct Judge;
static std::string run_name(const Judge&);
struct Judge
{
    std::string kind; json at;
    std::map<std::string, double>* worst = nullptr;
    void operator()(const std::string& name, double got, ld want, double rel, double scale = 0, double abs_ = 0)
    {
        rep().eval("values compared with the published formula");
        double w = double(want), tol = rel * (std::fabs(w) + scale) + abs_;
        if (std::isfinite(got) && std::fabs(got - w) <= tol) { if (tol > 0) rep().maxed(kind.substr(0, kind.find(' ')) + " deviation/tolerance", std::fabs(got - w) / tol); return; }
        json d = at;
        d["got"] = jnum(got); d["expected"] = jnum(w); d["tolerance"] = jnum(tol);
        rep().violation(kind + ": " + name, d);
    }
};

static std::string run_name(const Judge& j) { return j.kind + " " + j.at.dump(); }
static const std::map<std::string, int>& eos_of()
{
    static const std::map<std::string, int> m{{"W_WP95_JNr", 0}, {"W_HGKr_JNr", 1}, {"W_HGKg_JNg", 2}, {"W_HGKg_JNr", 2}, {"W_WP95_JNg", 0}, {"W_WP95_SV14", 0}, {"W_WP95_F97", 0}, {"W_ZD05_SV14", 3}, {"W_ZD05_F97", 3}};
    return m;
}
// scale of the expansivity and its relatives where they pass through zero
static ld alpha_scale(const W::State& s) { return std::fabs(-s.rho.d(1, 0) / s.rho.val()) + 1e-4L; }
static bool near_critical(double T, double rho) { return T > 641 && T < 695 && rho > 185 && rho < 435; }

static void density_and_derivatives(Judge& j, const W::State& s, const PS& p, int eos, double lowp)
{
    const ld r = s.rho.val(), rT = s.rho.d(1, 0), rP = s.rho.d(0, 1), rTT = s.rho.d(2, 0), rTP = s.rho.d(1, 1), rPP = s.rho.d(0, 2);
    const ld al = -rT / r, be = rP / r;
    double t1 = (eos == 2 ? 1e-4 : 1e-8) + lowp, as = double(alpha_scale(s));
    j("density", p.density.val, r, (eos == 2 ? 2e-5 : 1e-8) + lowp);
    j("densityT", p.densityT.val, rT, t1, as * double(r));
    j("densityP", p.densityP.val, rP, t1);
    j("Alpha", p.Alpha.val, al, t1, as);
    j("Beta", p.Beta.val, be, t1);
    double ts = double(std::fabs(rTT)) + 1e-5 * double(r);
    j("densityTT", p.densityTT.val, rTT, eos == 2 ? 3e-4 : t1 * 4, ts);
    j("dAldT", p.dAldT.val, -rTT / r + al * al, eos == 2 ? 3e-4 : t1 * 4, ts / double(r));
    if (eos == 2)
    {
        j("Albe", p.Albe.val, al / be, 1e-4, as / double(be));
        return;
    }
    j("densityTP", p.densityTP.val, rTP, t1 * 4, double(std::fabs(rTP) + 1e-13L * r));
    j("densityPP", p.densityPP.val, rPP, t1 * 4, double(std::fabs(rPP)));
    Jet pr = W::pressure(eos, Jet::x(s.T.val()), Jet::y(r));
    j("pressure", p.pressure.val, s.P.val(), 1e-7 + lowp);
    j("pressureT", p.pressureT.val, pr.d(1, 0), t1, double(s.P.val() / s.T.val()));
    j("pressureD", p.pressureD.val, pr.d(0, 1), t1 * 4);
    j("pressureTT", p.pressureTT.val, pr.d(2, 0), t1 * 4, 1e-3 * double(std::fabs(pr.d(1, 0))));
    j("pressureTD", p.pressureTD.val, pr.d(1, 1), t1 * 4);
    j("pressureDD", p.pressureDD.val, pr.d(0, 2), t1 * 4, double(std::fabs(pr.d(0, 1) / r)));
}
static void thermo(Judge& j, const W::State& s, const TS& t, int eos, double lowp, double Str, double Htr, double Gtr, double Utr, double Atr)
{
    const ld T = s.T.val(), P = s.P.val(), v = 1 / s.rho.val();
    Jet g = s.f + s.P / s.rho;               // J/kg, of T and P
    const ld S = -g.d(1, 0), H = g.val() + T * S, Cp = -T * g.d(2, 0);
    // Cv = -T f_TT at constant density
    Jet fr = W::helmholtz(eos == 2 ? 1 : eos, Jet::x(T), Jet::y(s.rho.val()));
    const ld Cv = -T * fr.d(2, 0), U = H - P * v, A = g.val() - P * v;
    const ld T0 = eos == 1 ? 273.15L : 273.16L;
    double k = (eos == 2 ? 6e-6 : 1e-9) + lowp;
    auto ck = [&](const char* n, const Scalar& got, ld want, double rel, double scale) { j(n, got.val, want, rel, scale); };
    ck("S", t.entropy, M * S + Str, eos == 2 ? 1.5e-5 + lowp : k, 10);
    ck("H", t.enthalpy, M * H + Htr, k, 1e4);
    ck("G", t.gibbs_energy, M * g.val() - (T - T0) * Str + Gtr, k, 1e4);
    ck("U", t.internal_energy, M * U + Utr, k, 1e4);
    ck("A", t.helmholtz_energy, M * A - (T - T0) * Str + Atr, k, 1e4);
    ck("V", t.volume, M * v * 1e5L, (eos == 2 ? 2e-5 : 1e-8) + lowp, 0);
    ck("Cp", t.heat_capacity_cp, M * Cp, eos == 2 ? 1e-4 : 1e-8 + 4 * lowp, 0);
    ck("Cv", t.heat_capacity_cv, M * Cv, eos == 2 ? 1e-4 : 1e-8 + 4 * lowp, 0);
}
struct Triple { const char* name; double Str, Gtr, Htr, Utr, Atr; };
static const Triple triples[] = {{"HKF_HGK_1974", 15.1320 * 4.184, -56290.0 * 4.184, -68767.0 * 4.184, -67887.0 * 4.184, -55415.0 * 4.184},
    {"NEA_HGK", 15.1386 * 4.184, -56279.9 * 4.184, -68766.44 * 4.184, -67921.9 * 4.184, -55434.49 * 4.184},
    {"NEA_IAPWS", 15.1374 * 4.184, -56279.9 * 4.184, -68766.76 * 4.184, -67922.22 * 4.184, -55434.49 * 4.184}};

// the phase: the density is that of the asked phase
static bool right_phase(const Point& p, double P, double rho)
{
    if (p.T >= 647.096) return true;
    (void)P;
    return p.state == 0 ? rho > 322 : rho < 322;
}
static void electro(Judge& j, const W::State& s, const ES& e, int diel, const std::string& kind, double lowp)
{
    Jet eps = W::epsilon(diel, s.T, s.rho), Z = -1 / eps;
    bool gems = kind == "HGKg", fd = diel != W::JN91, zd = kind == "ZD05";
    // gems: other form of the same equation; fd: central differences with steps of 0.1 %
    double t = (gems ? 1e-4 : 1e-8) + lowp;
    double t1 = (fd ? 2e-4 : t) + lowp, t2 = (fd ? 1e-3 : gems ? 4e-4 : 4 * t) + lowp;
    (void)zd;
    double T = double(s.T.val()), P = double(s.P.val()), e0 = double(eps.val());
    j("epsilon", e.epsilon.val, eps.val(), t);
    j("bornZ", e.bornZ.val, Z.val(), t);
    auto scale = [&](int i, int k) { double m = double(std::fabs(eps.d(i, k))); return m; };
    double cut = fd ? 1e-6 * T * T * scale(3, 0) / 3 : 0; // what central differences cut off
    double sT = scale(1, 0) + (gems || fd ? 1e-3 * e0 / T : 0), sP = scale(0, 1), sTT = scale(2, 0) + (fd || gems ? e0 / (T * T) : 0), zT = sT / (e0 * e0);
    j("epsilonT", e.epsilonT.val, eps.d(1, 0), t1, sT, cut);
    j("bornY", e.bornY.val, Z.d(1, 0), t1, zT, cut / (e0 * e0));
    j("epsilonTT", e.epsilonTT.val, eps.d(2, 0), t2, sTT);
    j("bornX", e.bornX.val, Z.d(2, 0), t2, sTT / (e0 * e0) + 2 * zT * zT * e0);
    j("epsilonP", e.epsilonP.val, eps.d(0, 1), t1, sP);
    j("bornQ", e.bornQ.val, Z.d(0, 1), t1, sP / (e0 * e0));
    double sPP = double(std::fabs(eps.d(0, 2)));
    if (fd)
    { // the second difference is lost in the convergence of the density below 1 kbar
        if (P > 1e8) j("epsilonPP", e.epsilonPP.val, eps.d(0, 2), 2e-3, sPP + sP / P * 0.1);
        return;
    }
    if (gems) return;
    j("epsilonPP", e.epsilonPP.val, eps.d(0, 2), t2, sPP);
    j("epsilonTP", e.epsilonTP.val, eps.d(1, 1), t2, double(std::fabs(eps.d(1, 1))));
    double zz = double(2 * std::fabs(Z.d(1, 0) * Z.d(0, 1))) * e0;
    j("bornU", e.bornU.val, Z.d(1, 1), t2, double(std::fabs(eps.d(1, 1))) / (e0 * e0) + zz);
    j("bornN", e.bornN.val, Z.d(0, 2), t2, sPP / (e0 * e0) + double(2 * Z.d(0, 1) * Z.d(0, 1)) * e0);
}
static double psat_hgk(double T)
{ // saturation pressure after Haar, Gallagher and Kell (1984), bar
    static const double a[] = {-0.78889166e1, 0.25514255e1, -0.6716169e1, 0.33239495e2, -0.10538479e3, 0.17435319e3, -0.14839348e3, 0.48631602e2};
    if (T <= 314) return std::exp(6.3573118 - 8858.843 / T + 607.56335 * std::pow(T, -0.6));
    double v = T / 647.25, w = std::fabs(1 - v), b = 0;
    for (int i = 0; i < 8; i++) b += a[i] * std::pow(w, (i + 2) / 2.0);
    return 220.93 * std::exp(b / v);
}

// ---------------------------------------------------------------- engine answers
static void waters(const Options& o, Cases& run, bool dielectric)
{
    Database db = model_database();
    for (int c = 0, n = o.thorough ? 6000 : 480; c < n; c++)
    {
        if (!run((dielectric ? "dielectric|" : "water|") + std::to_string(c))) continue;
        Rng& r = run.rng;
        ThermoEngine e(db);
        const Triple* tr = &triples[0];
        if (!dielectric && r.coin(0.3))
        {
            tr = &triples[r.below(3)];
            Database d2 = db;
            d2.conventions().water_triple_point_reference = tr->name;
            e = ThermoEngine(d2);
        }
        for (int k = 0; k < (dielectric ? 8 : 12); k++)
        {
            auto kv = std::next(eos_of().begin(), r.below(eos_of().size()));
            const std::string& kind = kv->first;
            int eos = kv->second;
            if (!dielectric && eos != 3 && (kind == "W_HGKg_JNr" || kind.substr(0, 7) == "W_WP95_") && kind != "W_WP95_JNr") continue; // the same equation of state
            Point p = eos == 3 ? dense(r) : point(r, true);
            std::string eosname = kind.substr(2, 4);
            Judge j{kind.substr(2) + " " + (dielectric ? "dielectric" : "water"), {{"kind", kind}, {"T", p.T}, {"P", p.P}, {"state", p.state}, {"region", p.region}}};
            run.doing(run_name(j));
            auto sol = query(p.P, [&](double& P) { return e.propertiesSolvent(p.T, P, kind, p.state); });
            if (!sol.ok) { rep().violation(j.kind + ": no answer inside the range", json{{"at", j.at}, {"error", sol.error.substr(0, 400)}}); continue; }
            double P = p.P;
            if (P == 0)
            {
                // saturation: the pressure written back is the vapour pressure
                double want = eos == 2 ? psat_hgk(p.T) * 1e5 : double(W::psat(p.T));
                if (eos == 2) j("saturation pressure", sol.P, want, 2e-4); // corrected to equal Gibbs energies of both phases
                else j("saturation pressure", sol.P, want, 1e-12);
                P = sol.P;
            }
            double rho0 = sol.value.density.val;
            rep().distinct(kind + p.region + std::to_string(int(p.T / 10)) + "," + std::to_string(int(std::log(std::max(P, 1.0)) * 4)));
            if (!right_phase(p, P, rho0)) { rep().violation(j.kind + ": density of the wrong phase", json{{"at", j.at}, {"density", jnum(rho0)}}); continue; }
            // near the critical point the gems water uses another equation; 2 K around Tc nothing is promised
            if (eos == 2 && near_critical(p.T, rho0)) { rep().count("near critical (gems)"); continue; }
            W::State s = eos == 3 ? W::zd05(p.T, P, rho0, 1000 * M) : W::state(eos == 0 ? 0 : 1, p.T, P, rho0);
            if (!s.ok) { rep().violation(j.kind + ": density is not a solution of the equation of state", json{{"at", j.at}, {"density", jnum(rho0)}, {"solution", jnum(double(s.rho.val()))}}); continue; }
            // the density is iterated until the pressure is right within 1e-8 Pc, and improved once more
            double q = 0.22 / P, lowp = q > 1e-2 ? 1 : q * q * 3 + (eos == 2 ? q * 0.01 : 0);
            if (eos == 2 && p.state == 1 && (p.P == 0 || std::fabs(p.P / double(W::psat(p.T)) - 1) < 3e-3)) lowp += 3e-4; // its vapour at saturation is iterated to 1e-4 in the Gibbs energies
            if (!dielectric)
            {
                if (eos == 3)
                {
                    j("density", sol.value.density.val, s.rho.val(), 1e-8);
                    ld rr = s.rho.val();
                    j("densityT", sol.value.densityT.val, s.rho.d(1, 0), 1e-4, double(rr / p.T) * 1e-2);
                    j("densityP", sol.value.densityP.val, s.rho.d(0, 1), 1e-4);
                    j("densityTT", sol.value.densityTT.val, s.rho.d(2, 0), 3e-3, double(rr / p.T / p.T) * 0.1);
                    j("densityPP", sol.value.densityPP.val, s.rho.d(0, 2), 3e-3, double(rr / P / P) * 1e-2);
                    j("Alpha", sol.value.Alpha.val, -s.rho.d(1, 0) / rr, 1e-4, 1e-2 / p.T);
                    j("Beta", sol.value.Beta.val, s.rho.d(0, 1) / rr, 1e-4);
                    j("dAldT", sol.value.dAldT.val, -s.rho.d(2, 0) / rr + s.rho.d(1, 0) * s.rho.d(1, 0) / rr / rr, 3e-3, 0.1 / p.T / p.T);
                    auto t = query(p.P, [&](double& P) { return e.thermoPropertiesSubstance(p.T, P, kind); });
                    if (t.ok) j("V", t.value.volume.val, M / s.rho.val() * 1e5L, 1e-8);
                    else rep().violation(j.kind + ": no answer inside the range", json{{"at", j.at}, {"error", t.error.substr(0, 400)}});
                    continue;
                }
                density_and_derivatives(j, s, sol.value, eos, lowp);
                if (p.state == 1 && p.T < 647.096) continue; // substances are asked for in the liquid state
                auto t = query(p.P, [&](double& P) { return e.thermoPropertiesSubstance(p.T, P, kind); });
                if (!t.ok) { rep().violation(j.kind + ": no answer inside the range", json{{"at", j.at}, {"error", t.error.substr(0, 400)}}); continue; }
                thermo(j, s, t.value, eos, lowp, tr->Str, tr->Htr, tr->Gtr, tr->Utr, tr->Atr);
            }
            else
            {
                int diel = kind.find("SV14") != std::string::npos ? W::SV14 : kind.find("F97") != std::string::npos ? W::F97 : W::JN91;
                if (diel == W::JN91 && kind.find("JNg") != std::string::npos && P > 5e8) continue; // zero above 5 kbar, the range of Johnson and Norton
                if (diel == W::SV14 && p.T < 274.2) continue; // not differentiable at 0 C
                if (diel == W::F97 && std::fabs(p.T - 228) < 1) continue;
                if (diel != W::JN91 && (p.P == 0 || std::string(p.region) == "liquid near saturation" || std::string(p.region) == "vapour")) continue; // differences across the phase boundary
                if (diel != W::JN91 && P < 1e5) continue;
                if (diel != W::JN91 && p.T > 635 && p.T < 700 && rho0 > 130 && rho0 < 580) continue; // varies too fast for differences over 0.1 %
                auto el = query(p.P, [&](double& P) { return e.electroPropertiesSolvent(p.T, P, kind, p.state); });
                if (!el.ok) { rep().violation(j.kind + ": no answer inside the range", json{{"at", j.at}, {"error", el.error.substr(0, 400)}}); continue; }
                std::string as = eosname;
                if (kind == "W_WP95_JNg") { as = "HGKg"; if (near_critical(p.T, rho0)) continue; s = W::state(1, p.T, P, rho0 ); if (p.P == 0) continue; }
                if (kind == "W_HGKg_JNr") as = "HGKg";
                electro(j, s, el.value, diel, as, lowp);
            }
        }
    }
}
// ---------------------------------------------------------------- free functions of the library
static void functions(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 800 : 64; c < n; c++)
    {
        if (!run("functions|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        for (int k = 0; k < 60; k++)
        {
            int eos = int(r.below(2));
            double T = r.u(273.16, 1273), D = r.coin() ? r.u(1, 1100) : r.logu(1e-3, 1200);
            if (std::fabs(T - 647.1) < 0.5 && std::fabs(D - 322) < 5) continue;
            Judge j{std::string(eos ? "HGK" : "WP95") + " functions", {{"T", T}, {"density", D}}};
            auto h = eos ? waterHelmholtzStateHGK(RK::Temperature(T), Scalar(D)) : waterHelmholtzStateWagnerPruss(RK::Temperature(T), Scalar(D));
            Jet f = W::helmholtz(eos == 0 ? 0 : 1, Jet::x(T), Jet::y(D));
            rep().distinct(j.kind + std::to_string(int(T / 5)) + "," + std::to_string(int(std::log(D) * 10)));
            double RT = 461.5 * T;
            auto sc = [&](int a, int b) { return RT / std::pow(T, a) / std::pow(D, b); };
            j("helmholtz", h.helmholtz.val, f.val(), 1e-11, sc(0, 0));
            j("helmholtzT", h.helmholtzT.val, f.d(1, 0), 1e-10, sc(1, 0));
            j("helmholtzD", h.helmholtzD.val, f.d(0, 1), 1e-10, sc(0, 1));
            j("helmholtzTT", h.helmholtzTT.val, f.d(2, 0), 1e-9, sc(2, 0));
            j("helmholtzTD", h.helmholtzTD.val, f.d(1, 1), 1e-9, sc(1, 1));
            j("helmholtzDD", h.helmholtzDD.val, f.d(0, 2), 1e-9, sc(0, 2));
            j("helmholtzTTT", h.helmholtzTTT.val, f.d(3, 0), 1e-8, sc(3, 0));
            j("helmholtzTTD", h.helmholtzTTD.val, f.d(2, 1), 1e-8, sc(2, 1));
            j("helmholtzTDD", h.helmholtzTDD.val, f.d(1, 2), 1e-8, sc(1, 2));
            j("helmholtzDDD", h.helmholtzDDD.val, f.d(0, 3), 1e-8, sc(0, 3));
            auto p = eos ? waterPressureHGK(RK::Temperature(T), Scalar(D)) : waterPressureWagnerPruss(RK::Temperature(T), Scalar(D));
            j("pressure of temperature and density", p.val, W::pressure<ld>(eos == 0 ? 0 : 1, T, D), 1e-9, RT * D);
            double Ts = r.u(273.16, 647.0);
            j.at = json{{"T", Ts}};
            j("saturation pressure", waterSaturatedPressureWagnerPruss(RK::Temperature(Ts)).val, W::psat(Ts), 1e-12);
            j("density of saturated liquid", waterSaturatedLiquidDensityWagnerPruss(RK::Temperature(Ts)).val, W::sat_liquid(Ts), 1e-12);
            j("density of saturated vapour", waterSaturatedVapourDensityWagnerPruss(RK::Temperature(Ts)).val, W::sat_vapour(Ts), 1e-12);
            // there and back; state -1: the phase follows from the pressure
            if (k % 6 == 0)
            {
                Point q = point(r, false);
                int state = r.coin(0.3) ? -1 : q.state;
                j.at = json{{"T", q.T}, {"P", q.P}, {"state", state}, {"region", q.region}};
                auto d = query(q.P, [&](double& P) { TS t; t.volume = eos ? waterDensityHGK(RK::Temperature(q.T), RK::Pressure(P), state) : waterDensityWagnerPruss(RK::Temperature(q.T), RK::Pressure(P), state); return t; });
                if (!d.ok) { rep().violation(j.kind + ": no density inside the range", j.at); continue; }
                double rho = d.value.volume.val;
                if (!right_phase(q, q.P, rho)) { rep().violation(j.kind + ": density of the wrong phase", json{{"at", j.at}, {"density", jnum(rho)}}); continue; }
                j("pressure at the density found", W::pressure<ld>(eos == 0 ? 0 : 1, q.T, rho), q.P, 1e-9, 0, 1);
            }
        }
    }
}
// two phases in equilibrium: equal pressure, and for WP95 equal Gibbs energy
static void saturation(const Options& o, Cases& run)
{
    Database db = model_database();
    for (int c = 0, n = o.thorough ? 800 : 64; c < n; c++)
    {
        if (!run("saturation|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        ThermoEngine e(db);
        for (int k = 0; k < 6; k++)
        {
            double T = r.u(274, 630);
            auto kind = r.pick(std::vector<std::string>{"W_WP95_JNr", "W_HGKr_JNr", "W_HGKg_JNg"});
            int eos = eos_of().at(kind);
            Judge j{kind.substr(2) + " saturation", {{"kind", kind}, {"T", T}}};
            auto l = query(0, [&](double& P) { return e.propertiesSolvent(T, P, kind, 0); }), v = query(0, [&](double& P) { return e.propertiesSolvent(T, P, kind, 1); });
            if (!l.ok || !v.ok) { rep().violation(j.kind + ": no answer", j.at); continue; }
            rep().distinct(j.kind + std::to_string(int(T)));
            j("pressures of both phases", v.P, l.P, 1e-12);
            // Wagner and Pruss: the auxiliary equations are within 1e-4 (liquid) and 2e-3 (vapour) of the equation of state
            j("density of the liquid", l.value.density.val, W::sat_liquid(T), 1.5e-3);
            j("density of the vapour", v.value.density.val, W::sat_vapour(T), 4e-3);
            auto g = [&](double rho) { ld f = W::helmholtz<ld>(eos == 0 ? 0 : 1, T, rho); return double(M * (f + l.P / rho)); };
            // (densities at low pressure are converged to 0.2 Pa only)
            j("equal Gibbs energies", g(v.value.density.val), g(l.value.density.val), 0, 0, eos == 0 ? 0.6 : 4);
        }
    }
}
// what has to hold near the critical point, whatever the equation: derivatives and functions belong together
static void critical(const Options& o, Cases& run)
{
    Database db = model_database();
    for (int c = 0, n = o.thorough ? 1200 : 96; c < n; c++)
    {
        if (!run("critical|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        ThermoEngine e(db);
        const std::string kind = "W_HGKg_JNg";
        for (int k = 0; k < 3; k++)
        {
            double T = r.u(649, 690), D = r.u(235, 385);
            double P = (double)W::pressure<ld>(W::HGK, T, D);
            Judge j{"HGKg_JNg critical region", {{"T", T}, {"P", P}}};
            // The equation is solved to about 1e-5 in the density only, so differences are taken over three
            // distances, and the nearest counts: what is wrong is wrong over all of them.
            std::map<std::string, std::tuple<double, double, double>> best; // name -> got, expected, deviation/tolerance
            auto note = [&](const char* name, double got, double want, double rel, double scale = 0)
            {
                double ratio = std::fabs(got - want) / (rel * (std::fabs(want) + scale));
                auto f = best.find(name);
                if (!std::isfinite(ratio)) ratio = 1e300;
                if (f == best.end() || ratio < std::get<2>(f->second)) best[name] = std::make_tuple(got, want, ratio);
            };
            auto so = [&](double t, double p) { return query(p, [&](double& p) { return e.propertiesSolvent(t, p, kind, 0); }); };
            auto el = [&](double t, double p) { return query(p, [&](double& p) { return e.electroPropertiesSolvent(t, p, kind, 0); }); };
            auto th = [&](double t, double p) { return query(p, [&](double& p) { return e.thermoPropertiesSubstance(t, p, kind); }); };
            auto s = so(T, P); auto x = el(T, P); auto t = th(T, P);
            if (!s.ok || !x.ok || !t.ok) { rep().violation(j.kind + ": no answer", j.at); continue; }
            double rho = s.value.density.val, V = t.value.volume.val / 1e5;
            rep().distinct("critical" + std::to_string(int(T)) + "," + std::to_string(int(D / 2)));
            bool hgk = false; // the boundary between both equations must not lie inside the differences
            auto other = [&](double t, double p, double d) { W::State w = W::state(W::HGK, t, p, d); hgk |= !w.ok || std::fabs(double(w.rho.val()) / d - 1) < 3e-5; };
            other(T, P, rho);
            const double tol = 1.5e-2;
            for (double size : {0.5, 1.0, 2.5})
            {
                double h = 0.1 * size, q = 1e-3 * P * size;
                auto s1 = so(T - h, P), s2 = so(T + h, P), s3 = so(T, P - q), s4 = so(T, P + q);
                auto x1 = el(T - h, P), x2 = el(T + h, P), x3 = el(T, P - q), x4 = el(T, P + q);
                auto t1 = th(T - h, P), t2 = th(T + h, P), t3 = th(T, P - q), t4 = th(T, P + q);
                for (bool ok : {s1.ok, s2.ok, s3.ok, s4.ok, x1.ok, x2.ok, x3.ok, x4.ok, t1.ok, t2.ok, t3.ok, t4.ok})
                    if (!ok) { rep().violation(j.kind + ": no answer", j.at); goto next; }
                other(T - h, P, s1.value.density.val); other(T + h, P, s2.value.density.val);
                other(T, P - q, s3.value.density.val); other(T, P + q, s4.value.density.val);
                auto dT = [&](double a, double b) { return (b - a) / (2 * h); };
                auto dP = [&](double a, double b) { return (b - a) / (2 * q); };
                note("Alpha", s.value.Alpha.val, -dT(s1.value.density.val, s2.value.density.val) / rho, tol, 1e-3);
                note("Beta", s.value.Beta.val, dP(s3.value.density.val, s4.value.density.val) / rho, tol);
                note("dAldT", s.value.dAldT.val, dT(s1.value.Alpha.val, s2.value.Alpha.val), tol, 1e-2 * s.value.Alpha.val);
                note("bornY", x.value.bornY.val, dT(x1.value.bornZ.val, x2.value.bornZ.val), tol);
                note("bornX", x.value.bornX.val, dT(x1.value.bornY.val, x2.value.bornY.val), tol, 1e-2 * std::fabs(x.value.bornY.val));
                note("bornQ", x.value.bornQ.val, dP(x3.value.bornZ.val, x4.value.bornZ.val), tol);
                note("S", t.value.entropy.val, -dT(t1.value.gibbs_energy.val, t2.value.gibbs_energy.val), 1e-3);
                note("Cp", t.value.heat_capacity_cp.val, dT(t1.value.enthalpy.val, t2.value.enthalpy.val), tol);
                note("V", V, dP(t3.value.gibbs_energy.val, t4.value.gibbs_energy.val), tol);
            }
            if (hgk) { rep().count("answered by the other equation, or near the boundary"); continue; }
            for (auto& b : best)
            {
                rep().eval("relations near the critical point");
                rep().maxed("HGKg_JNg critical region relation deviation/tolerance", std::get<2>(b.second));
                if (std::get<2>(b.second) > 1) rep().violation(j.kind + ": " + b.first, json{{"at", j.at}, {"got", std::get<0>(b.second)}, {"expected", std::get<1>(b.second)}});
            }
            {
                j("density against HGK", rho, D, 0.03);
                j("volume and density", V * rho, M, 2e-5);
                j("epsilon", x.value.epsilon.val, W::epsilon<ld>(W::JN91, T, rho), 1e-4);
                const auto& tr = triples[0];
                j("G, H and S", t.value.gibbs_energy.val - t.value.enthalpy.val + T * t.value.entropy.val, tr.Gtr - tr.Htr + 273.16 * tr.Str, 0, 0, 0.05);
                j("U", t.value.enthalpy.val - t.value.internal_energy.val, P * V + tr.Htr - tr.Utr, 0, 0, 0.05);
                j("Cv below Cp", t.value.heat_capacity_cp.val - t.value.heat_capacity_cv.val, T * V * s.value.Alpha.val * s.value.Alpha.val / s.value.Beta.val, 2e-3);
            }
        next:;
        }
        // on both sides of the critical temperature at, and off, saturation: there is a density, and the call returns
        for (double T : {643.5, 645.0, 647.0, 647.067, 647.0670001}) for (int st : {0, 1})
        {
            double P = r.coin() ? 0 : r.u(2.1e7, 2.5e7);
            if (T > 647.067 && P == 0) continue;
            auto s = query(P, [&](double& p) { return e.propertiesSolvent(T, p, kind, st); });
            rep().eval("answers near the critical point");
            if (!s.ok || !(s.value.density.val > 50 && s.value.density.val < 700))
                rep().violation("HGKg_JNg critical region: no density", json{{"T", T}, {"P", P}, {"state", st}, {"answer", s.show()}});
        }
    }
}

int main(int c, char** v)
{
    auto o = parse(c, v);
    Cases run(o);
    std::string mode = o.rest.empty() ? "" : o.rest[0];
    if (mode == "eos") { waters(o, run, false); functions(o, run); saturation(o, run); critical(o, run); }
    else if (mode == "dielectric") waters(o, run, true);
    else return 98;
    rep().summary();
}
