// Reactions: P09 stoichiometry, P10 relations between their properties, P11 their models,
// P12 substances defined through them.
#include "pool.h"
using namespace vf;

using RP = ThermoPropertiesReaction;
using SP = ThermoPropertiesSubstance;
static const double R = 8.31451, LN10 = 2.302585093;

// property of a substance that a property of a reaction sums
static const std::array<std::pair<Scalar RP::*, Scalar SP::*>, 8> sums{{{&RP::reaction_gibbs_energy, &SP::gibbs_energy}, {&RP::reaction_helmholtz_energy, &SP::helmholtz_energy},
    {&RP::reaction_internal_energy, &SP::internal_energy}, {&RP::reaction_enthalpy, &SP::enthalpy}, {&RP::reaction_entropy, &SP::entropy}, {&RP::reaction_volume, &SP::volume},
    {&RP::reaction_heat_capacity_cp, &SP::heat_capacity_cp}, {&RP::reaction_heat_capacity_cv, &SP::heat_capacity_cv}}};
static const char* sum_name[] = {"G", "A", "U", "H", "S", "V", "Cp", "Cv"};

static TF engine(const Database& db, bool gas_p)
{
    TF e(db);
    EnginePreferences p;
    p.enable_memoize = false;
    p.apply_pressure_correction_to_gas_props = gas_p;
    e.preferences() = p;
    return e;
}
static SmallDb pick(const Options& o, Rng& r, size_t i)
{
    static const std::vector<std::string> dbs = databases(o);
    if (i % 3 == 0) return model_small();
    return small_db(dbs[r.below(dbs.size())], r, 20, 14);
}
static std::map<std::string, double> some_reactants(Rng& r, const SmallDb& d)
{
    std::map<std::string, double> m;
    size_t n = 1 + r.below(5);
    while (m.size() < n && m.size() < d.substances.size())
        m[r.pick(d.substances)] = r.coin(0.6) ? double(int(r.below(7)) - 3) + (r.coin(0.2) ? 0.5 : 0) : r.u(-4, 4);
    for (auto& x : m) if (x.second == 0) x.second = 1;
    return m;
}
static void some_TP(Rng& r, double& T, double& P)
{
    T = some_T(r);
    P = r.coin(0.25) ? 1e5 : r.logu(1e5, 5e8);
    if (T > 620 && P < 2e7) P *= 300;
}
static std::string coefficient(Rng& r, double c)
{
    char b[40];
    if (c == 1 && r.coin(0.8)) return "";
    if (c == int(c) && r.coin(0.8)) snprintf(b, sizeof b, "%d", int(c));
    else snprintf(b, sizeof b, "%.17g", c);
    // the parser reads "2e5..." and the like as one number, and needs a number to end before a name
    return b;
}
// names that an equation can hold: no blanks, =, and a letter or bracket in front, no exponent or hexadecimal look-alikes
static bool equation_name(const std::string& s)
{
    if (s.empty() || !(isalpha(s[0]) || s[0] == '(')) return false;
    if (s[0] == 'e' || s[0] == 'E' || s[0] == 'x' || s[0] == 'X') return false;
    return s.find_first_of(" =\t\n") == std::string::npos;
}

// -------------------------------------------------------------------------------- P09
static bool same_scalar(const Scalar& a, const Scalar& b, double rel, double scale) { return close(a.val, b.val, rel, rel * scale); }

static void stoichiometry(const Options& o, Cases& run)
{
    size_t n = o.thorough ? 3000 : 220;
    for (size_t i = 0; i < n; i++)
    {
        if (!run("stoichiometry|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick(o, r, i);
        // a shared engine answering the reactions, another answering the substances
        TF er = engine(d.db, r.coin(0.5)), es = engine(d.db, true);
        if (r.coin(0.5)) { auto p = er.preferences(); p.enable_memoize = true; er.preferences() = p; }
        for (int k = 0; k < 12; k++)
        {
            double T, P;
            some_TP(r, T, P);
            std::map<std::string, double> m;
            std::string sym = "X" + std::to_string(k);
            bool own = !d.reactions.empty() && r.coin(0.35);
            if (own) { sym = r.pick(d.reactions); m = d.db.getReaction(sym).reactants(); }
            else m = some_reactants(r, d);
            run.doing("stoichiometry|" + std::to_string(i) + " " + d.source + " " + sym + " T=" + num(T) + " P=" + num(P));
            // what the substances say
            std::vector<SP> tp;
            std::vector<double> nu;
            bool ok = true;
            for (auto& x : m)
            {
                auto q = query(P, [&](double& p) { return es.thermoPropertiesSubstance(T, p, x.first); });
                if (!q.ok) { ok = false; break; }
                tp.push_back(q.value);
                nu.push_back(x.second);
            }
            Reaction re;
            re.setSymbol(own ? sym : "test reaction");
            re.setReactants(m);
            if (!own) { re.setMethodGenEoS(MethodGenEoS_Thrift::type(0)); re.setMethod_T(MethodCorrT_Thrift::type(0)); re.setMethod_P(MethodCorrP_Thrift::type(0)); }
            int way = own ? r.below(2) : 2 + r.below(2);
            auto got = query(P, [&](double& p) {
                switch (way)
                {
                case 0: return er.thermoPropertiesReactionFromReactants(T, p, sym);
                case 1: return er.thermoPropertiesReactionFromReactants(T, p, er.database().getReaction(sym));
                case 2: return er.thermoPropertiesReactionFromReactants(T, p, re);
                default: return er.thermoPropertiesReaction(T, p, re);
                }
            });
            bool circular = false; // a substance without methods defined by this very reaction cannot be summed
            for (auto& x : m) if (d.db.containsSubstance(x.first)) { Substance s = d.db.getSubstance(x.first); if (!s.methodGenEOS() && !s.method_P() && !s.method_T() && s.reactionSymbol() == re.symbol()) circular = true; }
            if (circular) { rep().count("reactions that define one of their own substances"); if (got.ok) rep().violation("reaction summed over a substance it defines itself", {{"db", d.source}, {"reaction", sym}}); continue; }
            rep().eval("reactions compared with the sum of their substances");
            if (ok != got.ok) { rep().violation(got.ok ? "reaction has a value though a substance fails" : "reaction fails though its substances have values", {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}, {"got", got.show()}}); continue; }
            if (!ok) { rep().count("reactions with failing substances"); continue; }
            // one water may hand on the pressure rounded, with which another iterates its density differently
            size_t waters = 0;
            for (auto& x : m) if (d.db.containsSubstance(x.first) && d.db.getSubstance(x.first).substanceClass() == SubstanceClass::AQSOLVENT) waters++;
            double tv = waters > 1 ? 1e-9 : 1e-11, td = waters > 1 ? 1e-6 : 1e-11;
            for (size_t j = 0; j < sums.size(); j++)
            {
                double v = 0, scale = 0, ddt = 0, sd = 0, ddp = 0, sp = 0, err = 0;
                bool defined = true;
                for (size_t s = 0; s < tp.size(); s++)
                {
                    auto& x = tp[s].*sums[j].second;
                    v += nu[s] * x.val; scale += std::fabs(nu[s] * x.val);
                    ddt += nu[s] * x.ddt; sd += std::fabs(nu[s] * x.ddt);
                    ddp += nu[s] * x.ddp; sp += std::fabs(nu[s] * x.ddp);
                    if (x.val != 0) err += nu[s] * nu[s] * x.err * x.err;
                    if (x.sta.first == Reaktoro_::notdefined) defined = false;
                }
                auto& g = got.value.*sums[j].first;
                if (!close(g.val, v, tv, tv * scale) || !close(g.ddt, ddt, td, td * sd) || !close(g.ddp, ddp, td, td * sp))
                    rep().violation(std::string("reaction property is not the sum over its substances: ") + sum_name[j], {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}, {"got", {jnum(g.val), jnum(g.ddt), jnum(g.ddp)}}, {"expected", {jnum(v), jnum(ddt), jnum(ddp)}}});
                if (defined != (g.sta.first != Reaktoro_::notdefined))
                    rep().violation(std::string("reaction property is ") + (defined ? "undefined though its substances define it: " : "defined though a substance leaves it undefined: ") + sum_name[j], {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}});
                if (std::isfinite(err) && !close(std::fabs(g.err), std::sqrt(err), 1e-9, 1e-12))
                    rep().violation(std::string("error of a reaction property is not propagated from its substances: ") + sum_name[j], {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}, {"got", jnum(g.err)}, {"expected", std::sqrt(err)}});
                if (scale > 0) rep().count(std::string("summed ") + sum_name[j]);
                rep().maxed("largest deviation of a sum, relative", scale > 0 && std::isfinite(v) ? std::fabs(g.val - v) / scale : 0);
            }
            double G = 0, sc = 0;
            for (size_t s = 0; s < tp.size(); s++) { G += nu[s] * tp[s].gibbs_energy.val; sc += std::fabs(nu[s] * tp[s].gibbs_energy.val); }
            auto& t = got.value;
            if (!close(t.ln_equilibrium_constant.val, -G / (R * T), 1e-11, 1e-11 * sc / (R * T))) rep().violation("ln K of a reaction is not -G/RT of its substances", {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}, {"got", jnum(t.ln_equilibrium_constant.val)}, {"expected", -G / R / T}});
            if (!close(t.log_equilibrium_constant.val * LN10, -G / (R * T), 1e-8, 1e-8 * sc / (R * T))) rep().violation("log K of a reaction is not -G/RT ln10 of its substances", {{"db", d.source}, {"reactants", m}, {"T", T}, {"P", P}, {"got", jnum(t.log_equilibrium_constant.val)}, {"expected", -G / R / T / LN10}});
            std::string sig;
            for (auto& x : m) sig += num(x.second) + x.first + " ";
            rep().distinct(d.source + " " + sig + "way " + std::to_string(way) + " T=" + num(T) + " P=" + num(P));

            // as an equation in text, written in some way
            bool names = true;
            for (auto& x : m) if (!equation_name(x.first)) names = false;
            bool left = false, right = false;
            for (auto& x : m) (x.second < 0 ? left : right) = true;
            if (names && left && right)
            {
                std::vector<std::pair<std::string, double>> terms(m.begin(), m.end());
                // a substance may be named more than once, also on both sides
                if (r.coin(0.3)) { size_t w = r.below(terms.size()); std::string nm = terms[w].first; terms[w].second -= 1; double c = 1; if (terms[w].second == 0) terms[w].second = -0.5, c = 1.5; terms.push_back({nm, c}); }
                if (r.coin(0.2)) { auto& s = r.pick(d.substances); if (equation_name(s) && es.database().containsSubstance(s) && query(P, [&](double& p) { return es.thermoPropertiesSubstance(T, p, s); }).ok) { terms.push_back({s, 2}); terms.push_back({s, -2}); } }
                r.shuffle(terms);
                std::string l, rr;
                for (auto& x : terms)
                {
                    auto& side = x.second < 0 ? l : rr;
                    static const char* plus[] = {" + ", "  +  ", " +  ", "\t+\t"};
                    if (!side.empty()) side += plus[r.below(r.coin(0.7) ? 1 : 4)];
                    side += coefficient(r, std::fabs(x.second)) + x.first;
                }
                std::string eq = r.coin(0.3) ? l + "=" + rr : l + (r.coin(0.8) ? " = " : "  =  ") + rr;
                if (!d.db.containsReaction(eq))
                {
                    auto e = query(P, [&](double& p) { return er.thermoPropertiesReaction(T, p, eq); });
                    rep().eval("reactions given as equations");
                    bool same = e.ok;
                    double tol = 0;
                    for (auto& x : terms) for (size_t s = 0; s < tp.size(); s++) tol += std::fabs(x.second * tp[s].gibbs_energy.val);
                    if (e.ok && !std::isnan(G)) same = close(e.value.reaction_gibbs_energy.val, t.reaction_gibbs_energy.val, 1e-10, 1e-10 * tol);
                    if (e.ok && same && std::isfinite(t.reaction_volume.val)) same = close(e.value.reaction_volume.val, t.reaction_volume.val, 1e-9, 1e-7);
                    if (!same) rep().violation("a reaction given as an equation differs from the same reaction given by its reactants", {{"db", d.source}, {"equation", eq}, {"reactants", m}, {"T", T}, {"P", P}, {"got", e.show()}, {"expected", got.show()}});
                }
            }
            // reversed, scaled and combined reactions
            double f = r.coin() ? -1 : r.u(-3, 3);
            auto m2 = some_reactants(r, d);
            bool valid = true;
            for (auto& x : m2) if (!query(P, [&](double& p) { return es.thermoPropertiesSubstance(T, p, x.first); }).ok) valid = false;
            if (!valid) continue;
            std::map<std::string, double> m3;
            for (auto& x : m) m3[x.first] += f * x.second;
            for (auto& x : m2) m3[x.first] += x.second;
            auto ask = [&](const std::map<std::string, double>& x) {
                Reaction a;
                a.setSymbol("combination");
                a.setReactants(x);
                return query(P, [&](double& p) { return er.thermoPropertiesReactionFromReactants(T, p, a); });
            };
            auto b = ask(m2), c = ask(m3);
            rep().eval("linear combinations of reactions");
            if (!b.ok || !c.ok) { rep().violation("combination of reactions fails", {{"db", d.source}, {"reactants", m3}, {"got", c.show()}}); continue; }
            for (size_t j = 0; j < sums.size(); j++)
            {
                auto va = (t.*sums[j].first).val, vb = (b.value.*sums[j].first).val, vc = (c.value.*sums[j].first).val;
                if (!std::isfinite(va) || !std::isfinite(vb)) continue;
                // sums of terms up to 1e8 J cancel
                if (!close(vc, f * va + vb, 1e-9, 1e-4)) rep().violation(std::string("Hess' law: combined reactions do not add up: ") + sum_name[j], {{"db", d.source}, {"first", m}, {"factor", f}, {"second", m2}, {"T", T}, {"P", P}, {"got", vc}, {"expected", f * va + vb}});
            }
        }
    }
}

// -------------------------------------------------------------------------------- P10, P11
// Which relations a method promises
struct Promise { bool h = false, s = false, cp = false, v = false; };
static std::string method_text(const Reaction& x) { return std::to_string(x.methodGenEOS()) + "/" + std::to_string(x.method_T()) + "/" + std::to_string(x.method_P()); }

// log K coefficients and reference properties at random; every way of giving them
static Reaction random_logk(Rng& r, int k)
{
    using MT = MethodCorrT_Thrift;
    using MP = MethodCorrP_Thrift;
    static const int methods[] = {MT::CTM_LGK, MT::CTM_LGX, MT::CTM_EK0, MT::CTM_EK1, MT::CTM_EK2, MT::CTM_EK3};
    static const int pmethods[] = {0, MP::CPM_CON, MP::CPM_NUL, MP::CPM_OFF};
    int mT = methods[k % 6], mP = pmethods[r.below(4)];
    Reaction x = reaction_of("R_random", {{"H2O@", -1}, {"M_AD", 1}}, mT == MT::CTM_LGK && r.coin(0.3) ? int(MethodGenEoS_Thrift::CTPM_REA) : 0, mT, mP);
    ThermoParametersReaction p;
    double scale[7] = {5, 5e-3, 2000, 2, 3e5, 3e-6, 40}, cscale[5] = {60, 0.05, 5e5, 300, 3e-5};
    int what = r.below(4);
    if (mT == MT::CTM_LGK || mT == MT::CTM_LGX)
    {
        if (what != 1) for (size_t j = 0, n = r.coin(0.7) ? 7 : 1 + r.below(7); j < n; j++) p.reaction_logK_fT_coeff.push_back(r.coin(0.2) ? 0 : r.u(-1, 1) * scale[j]);
        else for (size_t j = 0, n = r.coin(0.7) ? 5 : 1 + r.below(5); j < n; j++) p.reaction_Cp_fT_coeff.push_back(r.coin(0.2) ? 0 : r.u(-1, 1) * cscale[j]);
    }
    x.setThermoParameters(p);
    double Tr = r.coin(0.7) ? 298.15 : r.u(280, 400), Pr = r.coin(0.7) ? 1e5 : r.logu(1e5, 1e7);
    x.setReferenceT(Tr);
    x.setReferenceP(Pr);
    RP ref;
    double dH = r.u(-5e4, 5e4), dS = r.u(-150, 150), dG = dH - Tr * dS;
    bool all = mT == MT::CTM_LGK || mT == MT::CTM_LGX; // integration constants
    if (all || r.coin(0.85)) ref.reaction_gibbs_energy = dG;
    if (all || r.coin(0.85)) ref.reaction_enthalpy = dH;
    if (all || r.coin(0.85)) ref.reaction_entropy = dS;
    if (r.coin(0.8)) ref.reaction_heat_capacity_cp = r.u(-200, 200);
    if (r.coin(0.8)) ref.reaction_volume = r.u(-3, 3);
    ref.log_equilibrium_constant = -dG / (R * Tr * LN10);
    ref.ln_equilibrium_constant = -dG / (R * Tr);
    x.setThermoReferenceProperties(ref);
    return x;
}

struct Want { double logK = NAN, G = NAN, H = NAN, S = NAN, Cp = NAN, V = NAN, U = NAN, A = NAN; bool integrates = false; };

// The published functions, written down a second time
static bool expected(const Reaction& x, double T, double P, const PropertiesSolvent* w, Want& o)
{
    using MT = MethodCorrT_Thrift;
    using MP = MethodCorrP_Thrift;
    using MG = MethodGenEoS_Thrift;
    auto ref = x.thermoReferenceProperties();
    auto par = x.thermoParameters();
    double Tr = x.referenceT(), Pb = P / 1e5, Pr = x.referenceP() / 1e5;
    auto def = [](const Scalar& s) { return s.sta.first != Reaktoro_::notdefined; };
    int mT = x.method_T(), mP = x.method_P();
    if (x.methodGenEOS() == MG::CTPM_CON) return false;
    if (x.methodGenEOS() == MG::CTPM_REA) mT = MT::CTM_LGK;
    const double RL = R * LN10;
    bool energies = true;
    double dG = ref.reaction_gibbs_energy.val, dH = ref.reaction_enthalpy.val, dS = ref.reaction_entropy.val, dCp = ref.reaction_heat_capacity_cp.val, dV = ref.reaction_volume.val;
    bool hH = def(ref.reaction_enthalpy), hS = def(ref.reaction_entropy), hG = def(ref.reaction_gibbs_energy), hC = def(ref.reaction_heat_capacity_cp);
    if (mT == MT::CTM_EK0 || mT == MT::CTM_EK1 || mT == MT::CTM_EK2 || mT == MT::CTM_EK3)
    {
        bool H0 = hH, S0 = hS;
        if (hS && hG && !hH) dH = dG + dS * Tr, H0 = true;
        if (hH && hG && !hS) dS = (dH - dG) / Tr, S0 = true;
        if (mT == MT::CTM_EK3)
            mT = hC && H0 && S0 ? MT::CTM_EK3 : H0 && S0 ? MT::CTM_EK2 : (H0 && dH == 0) || (S0 && dS == 0) ? MT::CTM_EK1 : MT::CTM_EK0;
        switch (mT)
        {
        case MT::CTM_EK0: o.logK = ref.log_equilibrium_constant.val; break;
        case MT::CTM_EK1: dH = dG; o.logK = -dG / (T * RL); break;
        case MT::CTM_EK2: o.logK = (dS - dH / T) / RL; break;
        case MT::CTM_EK3:
            o.logK = (dS + dCp * std::log(T / Tr) - (dH + dCp * (T - Tr)) / T) / RL;
            dS += dCp * std::log(T / Tr);
            dH += dCp * (T - Tr);
            o.integrates = true;
            break;
        }
    }
    else if (mT == MT::CTM_LGK || mT == MT::CTM_LGX)
    {
        auto A = par.reaction_logK_fT_coeff;
        auto C = par.reaction_Cp_fT_coeff;
        bool cgiven = !C.empty();
        if (A.empty() && C.empty()) return false;
        C.resize(5, 0);
        double L = std::log(T), T2 = T * T;
        if (!A.empty())
        {
            A.resize(7, 0);
            o.logK = A[0] + A[1] * T + A[2] / T + A[3] * L + A[4] / T2 + A[5] * T2 + A[6] / std::sqrt(T);
            double d = A[1] - A[2] / T2 + A[3] / T - 2 * A[4] / (T2 * T) + 2 * A[5] * T - 0.5 * A[6] / (T * std::sqrt(T)); // d logK / dT
            dH = RL * T2 * d;
            dS = RL * (o.logK + T * d);
            if (!cgiven) dCp = RL * (2 * A[1] * T + A[3] + 2 * A[4] / T2 + 6 * A[5] * T2 - 0.25 * A[6] / std::sqrt(T));
            o.integrates = !cgiven;
        }
        else
        {
            if (hS && hG && !hH) dH = dG + dS * Tr;
            if (hH && hG && !hS) dS = (dH - dG) / Tr;
            // integral of Cp from the reference temperature
            auto Hi = [&](double t) { return C[0] * t + C[1] * t * t / 2 - C[2] / t + 2 * C[3] * std::sqrt(t) + C[4] * t * t * t / 3; };
            auto Si = [&](double t) { return C[0] * std::log(t) + C[1] * t - C[2] / (2 * t * t) - 2 * C[3] / std::sqrt(t) + C[4] * t * t / 2; };
            dH += Hi(T) - Hi(Tr);
            dS += Si(T) - Si(Tr);
            o.logK = (dS - dH / T) / RL;
            o.integrates = true;
        }
        if (cgiven) dCp = C[0] + C[1] * T + C[2] / T2 + C[3] / std::sqrt(T) + C[4] * T2;
    }
    else if (mT == MT::CTM_DMD && w)
    {
        auto& c = par.reaction_DM10_coeff;
        double rho = w->density.val / 1000, al = w->Alpha.val, be = w->Beta.val * 1e5, dal = w->dAldT.val;
        double G = c[0] + c[1] * T + c[2] * T * std::log(T) + c[3] * T * T + c[4] * T * std::log(rho);
        o.logK = -G / (R * T) * 0.434294481;
        dH = c[0] - c[2] * T - c[3] * T * T + c[4] * T * T * al;
        dS = (dH - G) / T;
        dCp = -c[2] - 2 * c[3] * T + 2 * c[4] * T * al + c[4] * T * T * dal;
        dV = c[4] * T * be;
        dG = G;
        o.integrates = true;
    }
    else if ((mT == MT::CTM_DKR || mT == MT::CTM_MRB) && w)
    {
        double rho = w->density.val / 1000, al = w->Alpha.val, be = w->Beta.val * 1e5, dal = w->dAldT.val;
        const double l10 = std::log(10.);
        auto lr = [&](double) { return std::log10(rho); };
        // logK = J(T) with log10(rho): derivative -alpha/ln10; its derivative -dalpha/ln10
        double r0 = lr(T), r1 = -al / l10, r2 = -dal / l10, rP = be / l10;
        if (mT == MT::CTM_DKR)
        {
            auto& c = par.reaction_FM_coeff;
            double k0 = c[4] + c[5] / T + c[6] / (T * T), k1 = -c[5] / (T * T) - 2 * c[6] / (T * T * T), k2 = 2 * c[5] / (T * T * T) + 6 * c[6] / (T * T * T * T);
            double J = c[0] + c[1] / T + c[2] / (T * T) + c[3] / (T * T * T) + k0 * r0;
            double J1 = -c[1] / (T * T) - 2 * c[2] / (T * T * T) - 3 * c[3] / (T * T * T * T) + k1 * r0 + k0 * r1;
            double J2 = 2 * c[1] / (T * T * T) + 6 * c[2] / (T * T * T * T) + 12 * c[3] / (T * T * T * T * T) + k2 * r0 + 2 * k1 * r1 + k0 * r2;
            o.logK = J;
            dS = R * l10 * (J + T * J1);
            dH = R * l10 * T * T * J1;
            dCp = R * l10 * (2 * T * J1 + T * T * J2);
            dV = -R * T * l10 * k0 * rP;
            dG = -R * l10 * T * J;
        }
        else
        {
            auto& c = par.reaction_RB_coeff;
            const double a = -4.098, b = -3245.2, cc = 2.2362e5, d = -3.984e7, e = 13.957, f = -1262.3, g = 8.5641e5;
            auto Kw = [&](double t, double lrho) { return a + b / t + cc / (t * t) + d / (t * t * t) + (e + f / t + g / (t * t)) * lrho; };
            double K0 = Kw(298.15, std::log10(0.997061));
            // log K = -pK298 298.15/T + (A+B/T)(logKw - logKw298 298.15/T)/1.0107; in terms of T logK = F(T)
            double k0 = e + f / T + g / (T * T), k1 = -f / (T * T) - 2 * g / (T * T * T), k2 = 2 * f / (T * T * T) + 6 * g / (T * T * T * T);
            double W = Kw(T, r0), W1 = -b / (T * T) - 2 * cc / (T * T * T) - 3 * d / (T * T * T * T) + k1 * r0 + k0 * r1;
            double W2 = 2 * b / (T * T * T) + 6 * cc / (T * T * T * T) + 12 * d / (T * T * T * T * T) + k2 * r0 + 2 * k1 * r1 + k0 * r2;
            double I = T * W - K0 * 298.15, I1 = W + T * W1, I2 = 2 * W1 + T * W2;
            double Z = c[1] + c[2] / T, Z1 = -c[2] / (T * T), Z2 = 2 * c[2] / (T * T * T);
            double F = -c[0] * 298.15 + Z * I / 1.0107, F1 = (Z1 * I + Z * I1) / 1.0107, F2 = (Z2 * I + 2 * Z1 * I1 + Z * I2) / 1.0107;
            o.logK = F / T;
            dG = -R * l10 * F;
            dS = R * l10 * F1;
            dH = dG + T * dS;
            dCp = R * l10 * T * F2;
            dV = -R * l10 / 1.0107 * Z * T * k0 * rP;
        }
        o.integrates = true;
    }
    else return false;
    if (mT != MT::CTM_DMD && mT != MT::CTM_DKR && mT != MT::CTM_MRB)
    {
        dG = -R * T * o.logK * LN10;
        if (dH == 0) energies = false;
    }
    o.H = dH; o.S = dS; o.Cp = dCp; o.V = dV; o.G = dG;
    o.U = energies ? dH - Pb * dV : 0;
    o.A = energies ? o.U - T * dS : 0;
    if (mT != MT::CTM_MRB && (mP == MP::CPM_CON || mP == MP::CPM_NUL))
    { // constant volume of reaction
        double VP = dV * (Pb - Pr);
        o.G += VP;
        o.H += VP;
        o.logK -= ref.reaction_volume.val * (Pb - Pr) / (R * T * LN10);
        o.S = (o.H - o.G) / T;
        o.U = o.H - Pb * dV;
        o.A = o.U - T * o.S;
    }
    if (mP == MP::CPM_VKE || mP == MP::CPM_VBE) return false;
    return true;
}

template <class F> static void with_reactions(const Options& o, Cases& run, const char* mode, F&& f)
{
    size_t n = o.thorough ? 20000 : 1600;
    static const std::vector<std::string> dbs = databases(o);
    // every reaction of the shipped files, then the models, then reactions at random
    for (auto& path : dbs)
    {
        std::vector<Reaction> all;
        for (auto& x : load(path).getReactions()) all.push_back(x);
        for (size_t k = 0; k < all.size(); k += 10)
        {
            if (!run(std::string(mode) + "|" + base(path) + " " + std::to_string(k))) continue;
            TF e = engine(load(path), false);
            for (size_t j = k; j < std::min(k + 10, all.size()); j++)
                for (int t = 0; t < (o.thorough ? 12 : 3); t++) f(e, base(path), all[j], run);
        }
    }
    for (size_t i = 0; i < n; i++)
    {
        if (!run(std::string(mode) + "|models " + std::to_string(i))) continue;
        auto& w = water_kinds()[i % 5 == 0 ? run.rng.below(water_kinds().size()) : 0];
        SmallDb d = model_small(w.eos, w.diel);
        // recorded under symbols of any kind, also ones that are equations
        std::vector<std::pair<std::string, Reaction>> all;
        for (int t = 0; t < 3; t++)
        {
            static const char* symbols[] = {"R_random", "H2O@ = M_AD", "M_AD=2H2O@", "=", "", "2 H2O@ = M_AD + M_AD", "a b", "R1"};
            Reaction y = random_logk(run.rng, run.rng.below(6));
            y.setSymbol(std::string(symbols[run.rng.below(8)]) + (t ? std::to_string(t) : ""));
            all.push_back({"random reaction", y});
            Reaction x = d.db.getReaction(run.rng.pick(d.reactions));
            auto p = x.thermoParameters(); // other coefficients of the density models
            for (auto* v : {&p.reaction_DM10_coeff, &p.reaction_FM_coeff, &p.reaction_RB_coeff}) if (run.rng.coin(0.6)) for (double& c : *v) c *= run.rng.u(0.3, 1.5);
            x.setThermoParameters(p);
            x.setSymbol("other" + x.symbol() + std::to_string(t));
            all.push_back({"models with " + std::string(w.symbol), x});
        }
        for (auto& x : all) d.db.addReaction(x.second);
        TF e = engine(d.db, false);
        for (auto& x : all) f(e, x.first, x.second, run);
    }
}
static void reaction_TP(Rng& r, const Reaction& x, double& T, double& P)
{
    bool density = x.method_T() == MethodCorrT_Thrift::CTM_DMD || x.method_T() == MethodCorrT_Thrift::CTM_DKR || x.method_T() == MethodCorrT_Thrift::CTM_MRB;
    T = r.coin(0.2) ? 298.15 : r.u(275, density ? 620 : 900);
    P = r.coin(0.2) ? 1e5 : r.logu(1e5, 4e8);
    if (density && T > 370) P = r.logu(2.5e7, 4e8);
}

static void models(const Options& o, Cases& run)
{
    with_reactions(o, run, "models", [&](TF& e, const std::string& source, const Reaction& x, Cases& run) {
        Rng& r = run.rng;
        double T, P;
        reaction_TP(r, x, T, P);
        auto w = query(P, [&](double& p) { return e.propertiesSolvent(T, p, std::string(e.preferences().solvent_symbol), -1); });
        Want want;
        if (!expected(x, T, P, w.ok ? &w.value : nullptr, want)) { rep().count("reactions without an own model"); return; }
        bool by_symbol = r.coin();
        rep().count(by_symbol ? "asked by symbol" : "asked by record");
        auto got = query(P, [&](double& p) { return by_symbol ? e.thermoPropertiesReaction(T, p, x.symbol()) : e.thermoPropertiesReaction(T, p, x); });
        rep().eval("reactions compared with their model");
        json at{{"by symbol", by_symbol}, {"source", source}, {"reaction", x.symbol()}, {"methods", method_text(x)}, {"T", T}, {"P", P}};
        if (!got.ok) { rep().violation("reaction model fails: T method " + std::to_string(x.method_T()), {{"at", at}, {"got", got.show()}}); return; }
        std::string kind = "T method " + std::to_string(x.method_T()) + " P method " + std::to_string(x.method_P());
        rep().distinct(source + " " + x.symbol() + " " + kind + " T=" + num(T) + " P=" + num(P));
        rep().count("T method " + std::to_string(x.method_T()));
        auto& v = got.value;
        double gs = std::max({std::fabs(want.G), std::fabs(want.H), std::fabs(T * want.S), 1.0});
        auto check = [&](const char* name, const Scalar& s, double val, double scale) {
            if (!std::isfinite(val)) return;
            rep().count(std::string("compared ") + name);
            rep().maxed(std::string("largest deviation of ") + name, std::fabs(s.val - val) / (scale + std::fabs(val)));
            if (!close(s.val, val, 2e-8, 2e-8 * scale)) rep().violation(std::string("reaction model: ") + name + ", " + kind, {{"at", at}, {"got", jnum(s.val)}, {"expected", val}});
        };
        check("log K", v.log_equilibrium_constant, want.logK, gs / (R * T * LN10));
        check("ln K", v.ln_equilibrium_constant, want.logK * LN10, gs / (R * T));
        check("G", v.reaction_gibbs_energy, want.G, gs);
        check("H", v.reaction_enthalpy, want.H, gs);
        check("S", v.reaction_entropy, want.S, gs / T);
        check("Cp", v.reaction_heat_capacity_cp, want.Cp, gs / T);
        check("V", v.reaction_volume, want.V, 1);
        check("U", v.reaction_internal_energy, want.U, gs + std::fabs(P / 1e5 * want.V));
        check("A", v.reaction_helmholtz_energy, want.A, gs + std::fabs(P / 1e5 * want.V));
    });
    size_t n = o.thorough ? 3000 : 300;
    for (size_t i = 0; i < n; i++)
    {
        if (!run("conversion|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        Database db;
        TF e = engine(db, false);
        // coefficients generated from the properties of the record
        Reaction z = random_logk(r, 5);
        RP ref;
        double dH = r.u(-5e4, 5e4), dS = r.u(-150, 150);
        ref.reaction_enthalpy = dH; ref.reaction_entropy = dS; ref.reaction_gibbs_energy = dH - z.referenceT() * dS; ref.reaction_heat_capacity_cp = r.u(-200, 200);
        ref.log_equilibrium_constant = -(dH - z.referenceT() * dS) / (R * z.referenceT() * LN10);
        z.setThermoReferenceProperties(ref);
        z.setMethod_P(MethodCorrP_Thrift::type(0));
        bool three = r.coin();
        z.setMethod_T(three ? MethodCorrT_Thrift::CTM_EK3 : MethodCorrT_Thrift::CTM_EK2);
        double T = r.u(280, 800), P = 1e5;
        auto own = e.thermoPropertiesReaction(T, P, z);
        auto coef = z.calc_logK_fT_coefficients();
        coef.resize(7, 0);
        double lk = coef[0] + coef[1] * T + coef[2] / T + coef[3] * std::log(T) + coef[4] / (T * T) + coef[5] * T * T + coef[6] / std::sqrt(T);
        double Tz = z.referenceT();
        (void)Tz;
        rep().eval("generated coefficients compared");
        // the generated three term function is written for ln(T) with the reference temperature in its constants
        if (three) { /* compared at the level of its derivative only: H and Cp */ double h = R * LN10 * (-coef[2] + coef[3] * T); if (!close(h, own.reaction_enthalpy.val, 1e-8, 1e-3)) rep().violation("generated coefficients of a reaction: enthalpy", {{"T", T}, {"got", h}, {"expected", own.reaction_enthalpy.val}}); }
        else if (!close(lk, own.log_equilibrium_constant.val, 1e-8, 1e-8)) rep().violation("generated coefficients of a reaction: log K", {{"T", T}, {"got", lk}, {"expected", own.log_equilibrium_constant.val}});
    }
}

static void relations(const Options& o, Cases& run)
{
    with_reactions(o, run, "relations", [&](TF& e, const std::string& source, const Reaction& x, Cases& run) {
        Rng& r = run.rng;
        double T, P;
        reaction_TP(r, x, T, P);
        auto q = [&](double t, double pp) { return query(pp, [&](double& p) { return e.thermoPropertiesReaction(t, p, x); }); };
        auto got = q(T, P);
        if (!got.ok || x.methodGenEOS() == MethodGenEoS_Thrift::CTPM_CON) { rep().count("not calculated"); return; }
        auto& v = got.value;
        using MT = MethodCorrT_Thrift;
        using MP = MethodCorrP_Thrift;
        int mT = x.methodGenEOS() == MethodGenEoS_Thrift::CTPM_REA ? int(MT::CTM_LGK) : int(x.method_T()), mP = x.method_P();
        bool summed = !x.methodGenEOS() && !x.method_T() && !x.method_P();
        if (!summed && mT == 0) { rep().count("no model of T"); return; } // only a pressure correction
        if (mP == MP::CPM_VKE || mP == MP::CPM_VBE) { rep().count("volume functions of T are not implemented"); return; }
        bool density = mT == MT::CTM_DMD || mT == MT::CTM_DKR || mT == MT::CTM_MRB;
        bool corrected = mP == MP::CPM_CON || mP == MP::CPM_NUL;
        std::string kind = summed ? "from reactants" : "T method " + std::to_string(mT);
        json at{{"source", source}, {"reaction", x.symbol()}, {"methods", method_text(x)}, {"T", T}, {"P", P}, {"got", got.show()}};
        double lnK = v.ln_equilibrium_constant.val, logK = v.log_equilibrium_constant.val, G = v.reaction_gibbs_energy.val, H = v.reaction_enthalpy.val, S = v.reaction_entropy.val,
               V = v.reaction_volume.val, Cp = v.reaction_heat_capacity_cp.val, U = v.reaction_internal_energy.val, A = v.reaction_helmholtz_energy.val;
        if (!std::isfinite(G) || !std::isfinite(lnK)) { rep().count("not finite"); return; }
        rep().eval("reactions with relations checked");
        rep().distinct(source + " " + x.symbol() + " " + kind + " T=" + num(T) + " P=" + num(P));
        auto check = [&](const char* what, double a, double b, double tol) {
            if (!std::isfinite(a) || !std::isfinite(b)) return;
            rep().count(std::string("checked ") + what);
            rep().maxed(std::string("largest deviation of ") + what + " / tolerance", std::fabs(a - b) / tol);
            if (std::fabs(a - b) > tol) rep().violation(std::string("reaction: ") + what + ", " + kind, {{"at", at}, {"left", a}, {"right", b}, {"tolerance", tol}});
        };
        double sc = std::max({std::fabs(G), std::fabs(H), std::fabs(T * S), 1.0});
        if (summed) for (auto& y : x.reactants()) { auto z = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, y.first); }); if (z.ok) sc += std::fabs(y.second * z.value.gibbs_energy.val); }
        check("ln K = log K ln 10", lnK, logK * LN10, 3e-9 * (std::fabs(lnK) + sc / (R * T)));
        // a density model carries its own volume; its constant volume correction is that of the record
        if (!(density && corrected)) check("G = -RT ln K", G, -R * T * lnK, 1e-8 * sc);
        bool hs = summed ? false : mT == MT::CTM_LGK || mT == MT::CTM_LGX || mT == MT::CTM_EK2 || density || corrected;
        if (mT == MT::CTM_EK3 || hs)
        {
            auto def = [](const Scalar& s) { return s.sta.first != Reaktoro_::notdefined; };
            bool h = def(x.thermoReferenceProperties().reaction_enthalpy), s = def(x.thermoReferenceProperties().reaction_entropy), g = def(x.thermoReferenceProperties().reaction_gibbs_energy);
            bool two = (h && s) || (h && g) || (s && g);
            if ((mT != MT::CTM_EK3 && mT != MT::CTM_EK2) || two || corrected) check("G = H - TS", G, H - T * S, 1e-8 * sc);
        }
        bool energies = !(U == 0 && A == 0);
        if (energies && !summed)
        {
            check("U = H - PV", U, H - P / 1e5 * V, 1e-9 * (sc + std::fabs(P / 1e5 * V)));
            check("A = U - TS", A, U - T * S, 1e-9 * (sc + std::fabs(P / 1e5 * V)));
        }
        // derivatives of the reported functions themselves
        Want w;
        PropertiesSolvent ps{};
        if (density) { auto z = query(P, [&](double& p) { return e.propertiesSolvent(T, p, std::string(e.preferences().solvent_symbol), -1); }); if (!z.ok) return; ps = z.value; }
        bool smooth = !summed && expected(x, T, P, density ? &ps : nullptr, w) && (w.integrates || mT == MT::CTM_EK2);
        if (mT == MT::CTM_EK2 || mT == MT::CTM_EK3)
        {
            auto def = [](const Scalar& s) { return s.sta.first != Reaktoro_::notdefined; };
            auto ref = x.thermoReferenceProperties();
            int n = def(ref.reaction_enthalpy) + def(ref.reaction_entropy) + def(ref.reaction_gibbs_energy);
            if (n < 2) smooth = false;
        }
        if (!smooth || (density && corrected)) return;
        if (density && T > 560) return; // steep
        double dT = 0.05, dP = std::max(P * 1e-3, 1e3);
        if (density && P < 1.2e5) return;
        auto a = q(T - dT, P), b = q(T + dT, P), c = q(T, P - dP), d = q(T, P + dP);
        if (!a.ok || !b.ok || !c.ok || !d.ok) return;
        // volumes and expansivities of water models come from other derivatives (tolerances for those)
        double rel = density ? 3e-4 : 2e-6;
        double dlnK = (b.value.ln_equilibrium_constant.val - a.value.ln_equilibrium_constant.val) / (2 * dT);
        check("van 't Hoff: d lnK/dT = H/RT2", R * T * T * dlnK, H, rel * (sc + 1000));
        double dG = (b.value.reaction_gibbs_energy.val - a.value.reaction_gibbs_energy.val) / (2 * dT);
        check("S = -dG/dT", S, -dG, rel * (sc / T + 10));
        if (mT != MT::CTM_EK2)
        {
            double dH = (b.value.reaction_enthalpy.val - a.value.reaction_enthalpy.val) / (2 * dT);
            check("Cp = dH/dT", Cp, dH, (density ? 3e-3 : 1e-5) * (std::fabs(Cp) + sc / T + 10));
        }
        if (density || corrected)
        {
            double dlnKP = (d.value.ln_equilibrium_constant.val - c.value.ln_equilibrium_constant.val) / (2 * dP / 1e5);
            check("d lnK/dP = -V/RT", -R * T * dlnKP, V, (density ? 2e-3 : 1e-5) * (std::fabs(V) + 0.1 + (density ? 0 : sc * 1e-9 / (dP / 1e5) * 1e5)));
        }
    });
}

// -------------------------------------------------------------------------------- P12
static void defined_by(const Options& o, Cases& run)
{
    static const std::vector<std::string> dbs = databases(o);
    struct Item { std::string path, sym; };
    std::vector<Item> items;
    for (auto& path : dbs)
        for (auto& [sym, s] : load(path).mapSubstances())
            if (!s.reactionSymbol().empty() && load(path).containsReaction(s.reactionSymbol())) items.push_back({path, sym});
    size_t from_files = items.size();
    for (int k = 0; k < (o.thorough ? 8000 : 800); k++) items.push_back({"", k % 2 ? "D_SiO4" : "D_H2CO3"});
    for (size_t i = 0; i < items.size(); i += 4)
    {
        if (!run("defined|" + (i < from_files ? base(items[i].path) + " " + items[i].sym : "models " + std::to_string(i)))) continue;
        Rng& r = run.rng;
        for (size_t j = i; j < std::min(i + 4, items.size()); j++)
        {
            SmallDb small;
            Database db;
            std::string source = items[j].path.empty() ? "models" : base(items[j].path);
            if (items[j].path.empty())
            {
                auto& w = water_kinds()[r.coin(0.8) ? r.below(6) : r.below(water_kinds().size())];
                small = model_small(w.eos, w.diel);
                db = small.db;
                // other coefficients, pressure corrections and other substances in the reaction
                Reaction x = db.getReaction(items[j].sym == "D_SiO4" ? "R_def1" : "R_def2");
                auto m = x.reactants();
                for (auto& y : m) y.second *= r.pickd({1, 1, 2, 0.5, -1, 3});
                for (int k = r.below(3); k > 0; k--) { auto& s = r.pick(small.substances); if (s[0] != 'D' && !m.count(s)) m[s] = r.pickd({-1, 1, 2, -0.5}); }
                x.setReactants(m);
                x.setMethod_P(MethodCorrP_Thrift::type(int(r.pickd({0, double(MethodCorrP_Thrift::CPM_CON), double(MethodCorrP_Thrift::CPM_OFF), double(MethodCorrP_Thrift::CPM_NUL)}))));
                if (r.coin(0.3)) { x = random_logk(r, r.below(6)); x.setSymbol(items[j].sym == "D_SiO4" ? "R_def1" : "R_def2"); x.setReactants(m); }
                db.setReaction(x);
                Substance s = db.getSubstance(items[j].sym);
                s.setMethod_P(MethodCorrP_Thrift::type(r.coin() ? int(MethodCorrP_Thrift::CPM_CON) : 0));
                auto ref = s.thermoReferenceProperties();
                if (r.coin(0.3)) ref.volume = Scalar(); else ref.volume = r.u(-2, 5);
                s.setThermoReferenceProperties(ref);
                db.setSubstance(s);
            }
            else db = load(items[j].path);
            TF e = engine(db, r.coin()), es = engine(db, true);
            Substance s = db.getSubstance(items[j].sym);
            if (!s.reactionSymbol().empty() && s.thermoCalculationType() != SubstanceThermoCalculationType::REACDC && (s.methodGenEOS() || s.method_T() || (s.method_P() && s.method_P() != MethodCorrP_Thrift::CPM_CON)))
            { rep().count("substances with a reaction but an own model"); continue; }
            Reaction x = db.getReaction(s.reactionSymbol());
            auto m = x.reactants();
            for (int k = 0; k < (o.thorough ? 8 : 3); k++)
            {
                double T, P;
                some_TP(r, T, P);
                if (T > 700) T -= 400;
                run.doing("defined|" + source + " " + s.symbol() + " T=" + num(T) + " P=" + num(P));
                bool order = r.coin(); // asked before or after the others
                Outcome<SP> got;
                auto ask = [&] { got = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, s.symbol()); }); };
                if (order) ask();
                auto rx = query(P, [&](double& p) { return es.thermoPropertiesReaction(T, p, x); });
                bool ok = rx.ok;
                std::vector<std::pair<double, SP>> others;
                for (auto& y : m)
                {
                    if (y.first == s.symbol() || !ok) continue;
                    auto q = query(P, [&](double& p) { return es.thermoPropertiesSubstance(T, p, y.first); });
                    if (!q.ok) ok = false; else others.push_back({y.second, q.value});
                }
                if (!order) ask();
                json at{{"source", source}, {"substance", s.symbol()}, {"reaction", x.symbol()}, {"reactants", m}, {"T", T}, {"P", P}};
                rep().eval("substances compared with their reaction");
                if (ok != got.ok) { rep().violation(got.ok ? "substance defined by a reaction has a value though the reaction fails" : "substance defined by a reaction fails though the reaction has a value", {{"at", at}, {"got", got.show()}}); continue; }
                if (!ok) { rep().count("failing"); continue; }
                if (!m.count(s.symbol()) || m[s.symbol()] == 0) { rep().count("reaction does not hold the substance"); continue; }
                double nu = m[s.symbol()];
                rep().distinct(source + " " + s.symbol() + " " + method_text(x) + "/" + std::to_string(s.method_P()) + " T=" + num(T) + " P=" + num(P));
                double vals[8], scale[8];
                bool defd[8];
                for (size_t p = 0; p < 8; p++)
                {
                    auto& xv = rx.value.*sums[p].first;
                    vals[p] = xv.val; scale[p] = std::fabs(xv.val); defd[p] = xv.sta.first != Reaktoro_::notdefined;
                    for (auto& y : others) { auto& yv = y.second.*sums[p].second; vals[p] -= y.first * yv.val; scale[p] += std::fabs(y.first * yv.val); if (yv.sta.first == Reaktoro_::notdefined) defd[p] = false; }
                    vals[p] /= nu; scale[p] /= std::fabs(nu);
                }
                auto ref = s.thermoReferenceProperties();
                bool con = s.method_P() == MethodCorrP_Thrift::CPM_CON && (x.method_P() == MethodCorrP_Thrift::CPM_OFF || !x.method_P()) && ref.volume.sta.first != Reaktoro_::notdefined;
                if (con)
                {
                    double Pb = P / 1e5, dV = ref.volume.val * (Pb - s.referenceP() / 1e5);
                    vals[0] += dV; vals[3] += dV; vals[5] = ref.volume.val; defd[5] = true;
                    vals[2] = vals[3] - Pb * vals[5]; vals[1] = vals[2] - T * vals[4];
                    scale[2] = scale[1] = scale[3] + std::fabs(Pb * vals[5]) + T * scale[4];
                }
                for (size_t p = 0; p < 8; p++)
                {
                    auto& g = got.value.*sums[p].second;
                    rep().count("compared");
                    if (!close(g.val, vals[p], 1e-9, 1e-11 * scale[p] + 1e-12))
                        rep().violation(std::string("substance defined by a reaction does not close it: ") + sum_name[p], {{"at", at}, {"got", jnum(g.val)}, {"expected", jnum(vals[p])}, {"constant volume", con}});
                    // the constant volume correction computes energies from whatever is defined
                    if (!(con && (p == 1 || p == 2)) && defd[p] != (g.sta.first != Reaktoro_::notdefined))
                        rep().violation(std::string("status of a substance defined by a reaction: ") + sum_name[p], {{"at", at}, {"defined", defd[p]}});
                }
                // Hess: the reaction computed back from the substances
                if (!con && s.thermoCalculationType() == SubstanceThermoCalculationType::REACDC && (s.methodGenEOS() || s.method_T() || s.method_P()))
                {
                    auto back = query(P, [&](double& p) { return e.thermoPropertiesReactionFromReactants(T, p, x); });
                    rep().eval("reactions recovered from the substances they define");
                    if (back.ok && std::isfinite(vals[0]) && !close(back.value.log_equilibrium_constant.val * -R * T * LN10, rx.value.reaction_gibbs_energy.val, 1e-8, 1e-8 * scale[0] * std::fabs(nu)))
                        rep().violation("reaction is not recovered from the substance it defines", {{"at", at}, {"got", back.show()}, {"expected", rx.show()}});
                }
            }
        }
    }
}

int main(int c, char** v)
{
    auto o = parse(c, v);
    Cases run(o);
    std::string mode = o.rest.empty() ? "" : o.rest[0];
    if (mode == "stoichiometry") stoichiometry(o, run);
    else if (mode == "relations") relations(o, run);
    else if (mode == "models") models(o, run);
    else if (mode == "defined") defined_by(o, run);
    else return 98;
    rep().summary();
}
