// Thermodynamic relations that the answers for every record of the shipped databases obey.
#include "judge.h"
#include "pool.h"
#include "random_specs.h"
#include "water_ref.h"
using namespace vf;
namespace W = vf::water_ref;
using TS = ThermoPropertiesSubstance;
using MP = MethodCorrP_Thrift;
using MG = MethodGenEoS_Thrift;
using MT = MethodCorrT_Thrift;

// The shipped databases, one with a record of each model, and some with random records
static std::vector<std::pair<std::string, Database>> all_databases(const Options& o, bool random_ones = true)
{
    std::vector<std::pair<std::string, Database>> v;
    for (auto& path : databases(o)) v.push_back({base(path), load(path)});
    v.push_back({"models", model_database()});
    for (int n = 0; random_ones && n < (o.thorough ? 40 : 6); n++)
    {
        Rng r(o.seed * 1000 + n);
        Database db;
        db.addSubstance(water("H2O@", n % 2 ? MT::CTM_WAR : MT::CTM_WWP, MG::CTPM_WJNR));
        for (int i = 0; i < 40; i++)
        {
            bool gems;
            SubstanceSpec k = i < 24 ? random_mineral(r, true) : i < 32 ? random_solute(r, gems) : random_gas(r);
            k.symbol = "X" + std::to_string(i);
            db.addSubstance(make(k));
        }
        v.push_back({"random " + std::to_string(n), db});
    }
    return v;
}
static std::string model_of(const Substance& s) { return std::to_string(int(s.methodGenEOS())) + "/" + std::to_string(int(s.method_T())) + "/" + std::to_string(int(s.method_P())); }
static bool gas_eos(const Substance& s) { int p = int(s.method_P()); return p == MP::CPM_CORK || p == MP::CPM_PRSV || p == MP::CPM_SRK || p == MP::CPM_PR78 || p == MP::CPM_EMP || p == MP::CPM_STP; }
static bool gas(const Substance& s) { return s.substanceClass() == SubstanceClass::GASFLUID; }
static bool solute(const Substance& s) { return s.substanceClass() == SubstanceClass::AQSOLUTE; }
static bool solvent(const Substance& s) { return s.substanceClass() == SubstanceClass::AQSOLVENT; }
static bool by_reaction(const Substance& s)
{
    bool no = !s.methodGenEOS() && !s.method_T();
    return s.thermoCalculationType() == SubstanceThermoCalculationType::REACDC || (no && (!s.method_P() || int(s.method_P()) == MP::CPM_CON));
}
static bool defined(const Scalar& x) { return x.sta.first != Reaktoro_::Status::notdefined; }

static double psat(double T) { return T < 647.09 ? double(W::psat(T)) : 0; }
// a state where all models are smooth: off boundaries of heat capacity intervals, off the saturation curve, not in cold vapour
static bool some_state(Rng& r, const Substance& s, double& T, double& P, double margin)
{
    auto iv = s.thermoParameters().temperature_intervals;
    auto tr = s.thermoParameters().phase_transition_prop;
    auto la = s.thermoParameters().m_landau_phase_trans_props;
    for (int i = 0; i < 30; i++)
    {
        bool vapour = s.aggregateState() == AggregateState::GAS && solvent(s), aq = solute(s) || (solvent(s) && !vapour);
        T = aq ? r.u(275, r.coin(0.7) ? 630 : 1000) : r.u(280, r.coin(0.5) ? 700 : 1500);
        P = r.coin(0.2) ? 1e5 : r.logu(1e5, 5e8);
        if (aq && T > 640) P = r.u(6e7, 5e8);
        if (aq && T <= 640 && P < psat(T) * 1.02) P = psat(T) * r.u(1.02, 3);
        bool ok = true;
        if (vapour && T < 650) { T = std::max(T, 310.0); P = psat(T) * r.u(0.15, 0.9); } // the model begins at 612 Pa
        for (auto& v : iv) for (double x : v) ok = ok && std::fabs(T - x) > margin * T;
        for (auto& v : tr) if (!v.empty()) ok = ok && std::fabs(T - v[0]) > margin * T;
        if (!iv.empty() && !iv[0].empty()) ok = ok && T > iv[0][0]; // gases: the equations of state begin there
        if (la.size() > 2) { double tc = la[0] + 273.15 + (la[1] ? la[2] / la[1] * P / 1e5 : 0); ok = ok && std::fabs(T - tc) > 0.05 * T; }
        if (ok) return true;
    }
    return false;
}

// ---------------------------------------------------------------- U, A and G
static void identities(const Options& o, Cases& run)
{
    for (auto& [name, db] : all_databases(o))
    {
        for (auto& s : db.getSubstances())
        {
            if (!run("identities|" + name + "|" + s.symbol()) || by_reaction(s)) continue; // reactions: P09, P10
            Rng& r = run.rng;
            ThermoEngine e(db);
            bool first = true;
            double c0 = 0, cs = 0, data = 0; // how far the transitions of the record are from H = T S
            for (auto& v : s.thermoParameters().phase_transition_prop) if (v.size() > 2) data += std::fabs(v[2] - v[0] * v[1]) * 1.01;
            for (int i = 0; i < (o.thorough ? 60 : 6); i++)
            {
                double T, P;
                if (!some_state(r, s, T, P, 0)) continue;
                auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, s.symbol()); });
                if (!a.ok) { rep().count("no answer"); continue; }
                const TS& t = a.value;
                Judge j{"model " + model_of(s), {{"database", name}, {"substance", s.symbol()}, {"T", T}, {"P", P}}};
                if (s.symbol() == "H+")
                {
                    for (auto& q : substance_props()) j(std::string("hydrogen ion ") + q.name, (t.*q.p).val, 0, 0);
                    rep().distinct("H+");
                    continue;
                }
                double G = t.gibbs_energy.val, H = t.enthalpy.val, S = t.entropy.val, V = t.volume.val, U = t.internal_energy.val, A = t.helmholtz_energy.val;
                if (!std::isfinite(G) || !std::isfinite(H) || !std::isfinite(S)) { rep().count("answers that are not numbers"); continue; }
                rep().distinct(name + s.symbol() + std::to_string(int(T / 100)));
                double sc = std::fabs(H) + std::fabs(T * S) + std::fabs(P / 1e5 * V);
                if (!solvent(s) && !gas_eos(s))
                {
                    if (defined(t.internal_energy) && defined(t.volume)) j("U = H - PV", U, ld(H) - ld(P) / 1e5L * V, 1e-9, sc);
                    if (defined(t.helmholtz_energy) && defined(t.internal_energy)) j("A = U - TS", A, ld(U) - ld(T) * S, 1e-9, sc);
                }
                if (gas_eos(s)) continue; // the residual part of G is left out by convention
                double c = G - H + T * S;
                if (first) { c0 = c; first = false; cs = sc; }
                else j("G - H + TS is a constant of the record", c, c0, 2e-9, sc + cs, data);
            }
        }
    }
}

// ---------------------------------------------------------------- derivatives
static void derivatives(const Options& o, Cases& run)
{
    for (auto& [name, db] : all_databases(o))
    {
        for (auto& s : db.getSubstances())
        {
            if (!run("derivatives|" + name + "|" + s.symbol()) || s.symbol() == "H+" || by_reaction(s)) continue;
            Rng& r = run.rng;
            ThermoEngine e(db);
            for (int i = 0; i < (o.thorough ? 30 : 2); i++)
            {
                double T, P;
                if (!some_state(r, s, T, P, 3e-3)) continue;
                double hT = 1e-3 * T, hP = P < 1e5 ? 3e-3 * P : std::max(1e4, 1e-3 * P);
                auto at = [&](double t, double p) { auto a = query(p, [&](double& q) { return e.thermoPropertiesSubstance(t, q, s.symbol()); }); return a.ok ? a.value : TS{}; };
                TS c = at(T, P);
                if (!std::isfinite(c.gibbs_energy.val) || !std::isfinite(c.entropy.val) || !defined(c.gibbs_energy)) { rep().count("no answer"); continue; }
                // fourth order differences; their error is estimated by those of double step
                auto diff = [&](bool inT, Scalar TS::*q, double& err) {
                    double h = inT ? hT : hP;
                    auto g = [&](double k) { TS x = inT ? at(T + k * h, P) : at(T, P + k * h); return ld((x.*q).val); };
                    ld m1 = g(-1), p1 = g(1), m2 = g(-2), p2 = g(2);
                    ld d1 = (p1 - m1) / (2 * h), d2 = (p2 - m2) / (4 * h), d = (4 * d1 - d2) / 3;
                    err = double(std::fabs(d - d1)) * 0.5 + 4e-15 * double(std::fabs(p1)) / h * 100;
                    return d;
                };
                Judge j{"model " + model_of(s), {{"database", name}, {"substance", s.symbol()}, {"T", T}, {"P", P}}};
                rep().distinct(name + s.symbol() + std::to_string(int(T / 100)));
                double e1, e2, e3;
                double loose = 1; // HGK (gems) iterates to 1e-5; Birch-Murnaghan takes differences; HKF takes tabulated derivatives of the solvent
                if (int(s.method_T()) == MT::CTM_WAT || int(s.methodGenEOS()) == MG::CTPM_HKF || int(s.methodGenEOS()) == MG::CTPM_HKFR || int(s.method_P()) == MP::CPM_VBM) loose = 30;
                if (!gas_eos(s) && defined(c.entropy)) { ld d = diff(true, &TS::gibbs_energy, e1); j("S = -dG/dT", c.entropy.val, -d, 1e-6 * loose, 1, 3 * e1); }
                if (!gas_eos(s) && defined(c.heat_capacity_cp) && defined(c.enthalpy)) { ld d = diff(true, &TS::enthalpy, e2); j("Cp = dH/dT", c.heat_capacity_cp.val, d, 1e-5 * loose, 1, 3 * e2); }
                if (!gas(s) && defined(c.volume) && defined(c.gibbs_energy)) { ld d = diff(false, &TS::gibbs_energy, e3) * 1e5L; j("V = dG/dP", c.volume.val, d, 1e-5 * loose, 0.1, 3 * e3 * 1e5); }
            }
        }
    }
}

// ---------------------------------------------------------------- reference state
static void reference(const Options& o, Cases& run)
{
    for (auto& [name, db] : all_databases(o))
    {
        for (auto& s : db.getSubstances())
        {
            if (!run("reference|" + name + "|" + s.symbol()) || s.symbol() == "H+" || solvent(s) || by_reaction(s)) continue;
            ThermoEngine e(db);
            double T = s.referenceT(), P = s.referenceP();
            auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, s.symbol()); });
            if (!a.ok) { rep().violation("model " + model_of(s) + ": no answer at the reference state", json{{"database", name}, {"substance", s.symbol()}, {"error", a.error.substr(0, 200)}}); continue; }
            const TS &t = a.value, &k = s.thermoReferenceProperties();
            Judge j{"model " + model_of(s), {{"database", name}, {"substance", s.symbol()}, {"T", T}, {"P", P}}};
            rep().distinct(name + s.symbol());
            // HKF: properties of the solvent at the reference state are rounded; Landau: pressures count from 0 instead of 1 bar
            bool random = name.rfind("random", 0) == 0 || name == "models"; // Akinfiev-Diamond: the volume follows from the parameters
            bool rounded = int(s.methodGenEOS()) == MG::CTPM_HKF || int(s.methodGenEOS()) == MG::CTPM_HKFR;
            bool landau = s.thermoParameters().m_landau_phase_trans_props.size() > 2;
            double vmax = landau ? s.thermoParameters().m_landau_phase_trans_props[2] : 0;
            auto cmp = [&](const char* n, Scalar TS::*q, double abs_) { if (defined(k.*q) && defined(t.*q)) j(n, (t.*q).val, (k.*q).val, 1e-9, 0, abs_); };
            double pv = int(s.methodGenEOS()) == MG::CTPM_HP98 ? 1.02 * (std::fabs(k.volume.val) + 0.017 * (std::fabs(k.heat_capacity_cp.val) + T * std::fabs(s.thermoParameters().solute_holland_powell98_coeff[0]))) : 0; // counts pressures from 0
            cmp("G", &TS::gibbs_energy, pv + 1e-6 + (rounded ? (random ? 4 : 1) : 0) + 2 * std::fabs(vmax));
            if (!gas_eos(s)) { cmp("S", &TS::entropy, 1e-9 + (rounded ? (random ? 0.4 : 0.1) : 0) + (landau ? 2e-3 : 0)); cmp("H", &TS::enthalpy, pv + 1e-6 + (rounded ? (random ? 120 : 30) : 0) + 2 * std::fabs(vmax)); }
            if (!gas_eos(s) && !rounded && int(s.method_P()) && int(s.method_P()) != MP::CPM_OFF && !(random && int(s.method_P()) == MP::CPM_AKI)) cmp("V", &TS::volume, int(s.method_P()) == MP::CPM_AKI ? 3e-3 : 1e-6);
        }
    }
}

// ---------------------------------------------------------------- conventions
struct Triple { const char* name; double S, G, H, U, A; };
static const Triple triples[] = { // Helgeson and Kirkham (1974); NEA; NEA with IAPWS: cal/mol
    {"HKF_HGK_1974", 15.1320, -56290.0, -68767.0, -67887.0, -55415.0},
    {"NEA_HGK", 15.1386, -56279.9, -68766.44, -67921.9, -55434.49},
    {"NEA_IAPWS", 15.1374, -56279.9, -68766.76, -67922.22, -55434.49}};

static void conventions(const Options& o, Cases& run)
{
    auto mixed = [](Rng& r, std::string s) { if (r.coin(0.3)) for (auto& c : s) if (r.coin()) c = char(std::tolower(c)); return s; };
    for (auto& path : databases(o))
    {
        std::vector<std::pair<std::string, bool>> names;
        for (auto& s : load(path).getSubstances()) names.push_back({s.symbol(), solvent(s) || int(s.method_P()) == MP::CPM_AKI});
        for (auto& [name, often] : names)
        {
            if (!run("conventions|" + base(path) + "|" + name)) continue;
            Rng& r = run.rng;
            for (int k = 0; k < (o.thorough ? 20 : 1) * (often ? 3 : 1); k++)
            {
                Database db = load(path);
                const Triple& tr = triples[r.below(3)];
                bool set = r.coin(0.8);
                if (set) db.conventions().water_triple_point_reference = tr.name;
                const Triple& w = set ? tr : triples[0];
                if (!set && db.conventions().water_triple_point_reference != w.name) continue; // the record of the database: only the default is judged
                Substance s = db.getSubstance(name);
                if (!query(0, [&](double&) { return db.parseSubstanceFormula(s.formula()); }).ok) { rep().count("formulas not understood"); continue; }
                if (by_reaction(s)) continue; // reactions mix converted and unconverted substances
                double T, P;
                if (!some_state(r, s, T, P, 1e-3)) continue;
                bool steam = r.coin(0.6), berman = r.coin(0.6);
                ThermoEngine plain(db), other(db);
                auto fetch = [&](ThermoEngine& e) { return query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, name); }); };
                auto change = [&](bool st, bool be) {
                    other.conventions().water_properties = mixed(r, st ? "STEAM_TABLES" : "GEOCHEMICAL");
                    other.conventions().apparent_properties = mixed(r, be ? "BERMAN_BROWN" : "BENSON_HELGESON");
                };
                for (int i = r.below(3); i > 0; i--) { change(r.coin(), r.coin()); fetch(other); } // a history of other conventions
                change(steam, berman);
                auto a = fetch(plain), b = fetch(other);
                Judge j{"convention, model " + model_of(s), {{"database", base(path)}, {"substance", name}, {"T", T}, {"P", P}, {"steam tables", steam}, {"Berman Brown", berman}, {"triple point", w.name}}};
                if (!a.ok) { rep().count("no answer"); continue; }
                if (!b.ok) { rep().violation("convention: no answer", json{{"database", base(path)}, {"substance", name}, {"T", T}, {"P", P}, {"error", b.error.substr(0, 200)}}); continue; }
                rep().distinct(base(path) + name + std::to_string(steam * 2 + berman) + w.name);
                rep().count(solvent(s) ? "solvents" : int(s.method_P()) == MP::CPM_AKI ? "Akinfiev-Diamond solutes" : "other substances");
                double dG = 0, dH = 0, dS = 0, dU = 0, dA = 0;
                const double cal = 4.184, Ttr = 273.16;
                if (solvent(s) && steam)
                {
                    dG = -cal * (w.G - w.S * (T - Ttr)); dA = -cal * (w.A - w.S * (T - Ttr));
                    dH = -cal * w.H; dS = -cal * w.S; dU = -cal * w.U;
                }
                if (!solvent(s) && berman)
                {
                    ld sum = 0;
                    for (auto& [el, n] : db.parseSubstanceFormula(s.formula())) sum += ld(n) * db.getElement(el.symbol()).entropy();
                    dG = -double(s.referenceT() * sum);
                }
                bool ad = int(s.method_P()) == MP::CPM_AKI; // works with differences to the converted solvent
                for (auto& q : substance_props())
                {
                    const Scalar &x = a.value.*q.p, &y = b.value.*q.p;
                    if (!std::isfinite(x.val)) continue;
                    double d = q.p == &TS::gibbs_energy ? dG : q.p == &TS::enthalpy ? dH : q.p == &TS::entropy ? dS : q.p == &TS::internal_energy ? dU : q.p == &TS::helmholtz_energy ? dA : 0;
                    j(q.name, y.val, ld(x.val) + d, 1e-12, std::fabs(x.val) + std::fabs(d), ad ? 1e-5 : 0);
                    if (x.sta.first != y.sta.first) rep().violation("convention changes a status", json{{"database", base(path)}, {"substance", name}, {"T", T}, {"P", P}, {"property", q.name}});
                }
                if (solvent(s) && steam && int(s.method_T()) != MT::CTM_WZD && int(s.methodGenEOS()) != MG::CTPM_CON)
                { // in the steam tables G = H - TS: both S and U vanish at the triple point
                    const TS& t = b.value;
                    double c = t.gibbs_energy.val - t.enthalpy.val + T * t.entropy.val;
                    rep().maxed("G - H + TS of water in the steam tables convention", std::fabs(c));
                    j("G = H - TS in the steam tables convention", c, 0, 0, 0, 60);
                }
                if (solvent(s))
                {
                    auto p0 = query(P, [&](double& p) { return plain.propertiesSolvent(T, p, name, 0); }), p1 = query(P, [&](double& p) { return other.propertiesSolvent(T, p, name, 0); });
                    if (p0.ok && p1.ok) { j("density", p1.value.density.val, p0.value.density.val, 1e-13); j("expansivity", p1.value.Alpha.val, p0.value.Alpha.val, 1e-13); }
                    auto q0 = query(P, [&](double& p) { return plain.electroPropertiesSolvent(T, p, name, 0); }), q1 = query(P, [&](double& p) { return other.electroPropertiesSolvent(T, p, name, 0); });
                    if (q0.ok && q1.ok) j("epsilon", q1.value.epsilon.val, q0.value.epsilon.val, 1e-13);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- warnings
static bool checks_limits(const SubstanceSpec& k)
{
    using P = MethodCorrP_Thrift;
    if (k.genEos == MG::CTPM_HKF || k.genEos == MG::CTPM_HKFR) return true;
    return k.mP == P::CPM_VBE || k.mP == P::CPM_VBM || k.mP == P::CPM_CEH || k.mP == P::CPM_AKI || k.mP == P::CPM_CORK || k.mP == P::CPM_PRSV || k.mP == P::CPM_SRK || k.mP == P::CPM_PR78 || k.mP == P::CPM_STP;
}
static const std::string outside = "out of T(", dense = "outside of 600-1400 kg/m3";
static bool has(const std::string& text, const std::string& part) { return text.find(part) != std::string::npos; }
static json with(json a, const json& b) { a.update(b); return a; }
static void warnings(const Options& o, Cases& run)
{
    std::vector<SubstanceSpec> specs;
    for (auto& k : model_specs())
        if (checks_limits(k))
        {
            specs.push_back(k);
            if (k.symbol == "M_Landau") { specs.push_back(k); specs.back().symbol = "M_Murnaghan"; specs.back().mT = 0; }
        }
    const std::vector<std::pair<const char*, Scalar TS::*>> props{{"G0", &TS::gibbs_energy}, {"H0", &TS::enthalpy}, {"S0", &TS::entropy}, {"Cp", &TS::heat_capacity_cp}, {"V0", &TS::volume}};
    auto limit = [](Rng& r, double x, bool lower) { // of what is asked for: not given, far or close, on one side or the other
        if (r.coin(0.3)) return 0.0;
        double f = r.coin() ? 1e-6 : r.u(0.01, 0.5);
        return r.coin(0.7) == lower ? x * (1 - f) : x * (1 + f);
    };
    auto limits = [&](Rng& r, Substance& s, double T, double P) {
        double lT = limit(r, T, true), uT = limit(r, T, false), lP = limit(r, P, true), uP = limit(r, P, false);
        s.setLowerT(lT); s.setUpperT(uT); s.setLowerP(lP); s.setUpperP(uP);
        return T < lT || (uT > 0 && T > uT) || P < lP || (uP > 0 && P > uP);
    };
    auto state = [](Rng& r, double& T, double& P) {
        T = r.u(300, r.coin() ? 620 : 900);
        P = r.logu(T > 620 ? 4e7 : std::max(1e5, psat(T) * 1.05), 4e8);
    };
    for (int k = 0; k < (o.thorough ? 2000 : 160); k++)
        for (auto& spec : specs)
        {
            if (!run("warnings|" + spec.symbol)) continue;
            Rng& r = run.rng;
            for (int i = 0; i < 6; i++)
            {
                double T, P;
                state(r, T, P);
                Substance s = make(spec);
                bool out = limits(r, s, T, P);
                Database db;
                auto& w = r.pick(water_kinds());
                db.addSubstance(water("H2O@", w.eos, w.diel));
                db.addSubstance(s);
                ThermoEngine e(db);
                auto a = query(P, [&](double& p) { return e.thermoPropertiesSubstance(T, p, s.symbol()); });
                if (!a.ok) { rep().count("no answer"); continue; }
                json what{{"record", spec.symbol}, {"water", w.symbol}, {"T", T}, {"P", P}, {"limits of T", {s.lowerT(), s.upperT()}}, {"limits of P", {s.lowerP(), s.upperP()}}};
                double rho = 1000;
                bool hkf = spec.genEos == MG::CTPM_HKF || spec.genEos == MG::CTPM_HKFR;
                if (hkf) rho = query(P, [&](double& p) { return e.propertiesSolvent(T, p, "H2O@", 0); }).value.density.val;
                for (auto& q : props)
                {
                    const Scalar& x = a.value.*q.second;
                    if (x.sta.first != Reaktoro_::Status::calculated) { rep().count("properties not calculated"); continue; }
                    rep().eval(out ? "answers outside limits" : "answers inside limits");
                    if (has(x.sta.second, outside) != out)
                        rep().violation(std::string(out ? "no warning outside limits: " : "warning inside limits: ") + spec.symbol, with(what, json{{"property", q.first}, {"message", x.sta.second}}));
                    if (hkf && std::fabs(rho - 600) > 1e-6 && std::fabs(rho - 1400) > 1e-6 && has(x.sta.second, dense) != (rho < 600 || rho > 1400))
                        rep().violation("warning of the density of water: " + spec.symbol, with(what, json{{"property", q.first}, {"density", rho}, {"message", x.sta.second}}));
                }
                rep().distinct(spec.symbol + std::string(w.symbol) + (out ? "1" : "0") + (s.lowerT() ? "a" : "") + (s.upperT() ? "b" : "") + (s.lowerP() ? "c" : "") + (s.upperP() ? "d" : "") + (rho < 600 || rho > 1400 ? "e" : ""));
            }
        }
    // reactions: the messages of all reactants
    for (int k = 0; k < (o.thorough ? 20000 : 2000); k++)
    {
        if (!run("warnings|reaction")) continue;
        Rng& r = run.rng;
        double T, P;
        state(r, T, P);
        Database db;
        auto& w = r.pick(water_kinds());
        db.addSubstance(water("H2O@", w.eos, w.diel));
        std::map<std::string, double> reactants;
        auto pool = model_specs();
        for (int n = 1 + r.below(6); n-- > 0;)
        {
            SubstanceSpec spec = r.pick(pool);
            spec.symbol = std::string(1, char('A' + r.below(26))) + spec.symbol;
            if (reactants.count(spec.symbol)) continue;
            // some records lack something
            for (double SubstanceSpec::*m : {&SubstanceSpec::G, &SubstanceSpec::H, &SubstanceSpec::S, &SubstanceSpec::Cp, &SubstanceSpec::V}) if (r.coin(0.1)) spec.*m = NAN;
            Substance s = make(spec);
            limits(r, s, T, P);
            db.addSubstance(s);
            reactants[spec.symbol] = r.u(-3, 3);
        }
        Reaction x;
        x.setName("R"); x.setSymbol("R"); x.setReactants(reactants);
        ThermoEngine e(db), single(db);
        auto a = query(P, [&](double& p) { return e.thermoPropertiesReactionFromReactants(T, p, x); });
        json what{{"reactants", reactants}, {"water", w.symbol}, {"T", T}, {"P", P}};
        if (!a.ok) { rep().count("no answer"); continue; }
        using TR = ThermoPropertiesReaction;
        const std::vector<std::tuple<const char*, Scalar TS::*, Scalar TR::*>> pairs{{"G0", &TS::gibbs_energy, &TR::reaction_gibbs_energy}, {"G0", &TS::gibbs_energy, &TR::log_equilibrium_constant}, {"G0", &TS::gibbs_energy, &TR::ln_equilibrium_constant},
            {"H0", &TS::enthalpy, &TR::reaction_enthalpy}, {"S0", &TS::entropy, &TR::reaction_entropy}, {"Cp", &TS::heat_capacity_cp, &TR::reaction_heat_capacity_cp}, {"V0", &TS::volume, &TR::reaction_volume}};
        int warned = 0, missing = 0;
        for (auto& [name, coeff] : reactants)
        {
            auto t = query(P, [&](double& p) { return single.thermoPropertiesSubstance(T, p, name); });
            if (!t.ok) { rep().count("no answer"); continue; }
            for (auto& [tag, from, to] : pairs)
            {
                const Scalar &y = t.value.*from, &z = a.value.*to;
                bool gas_record = gas(db.getSubstance(name)); // in reactions with pressure correction
                std::string lacks = std::string(tag) + " of component " + name + " not defined";
                rep().eval("messages of reactants");
                if ((y.sta.first == Reaktoro_::Status::notdefined) != has(z.sta.second, lacks))
                    rep().violation("undefined component not named or named wrongly", with(what, json{{"expected", y.sta.first == Reaktoro_::Status::notdefined}, {"reactant", name}, {"property", tag}, {"message", z.sta.second}}));
                if (y.sta.first == Reaktoro_::Status::notdefined) { missing++; continue; }
                if (!gas_record && !y.sta.second.empty())
                {
                    warned++;
                    if (!has(z.sta.second, y.sta.second)) rep().violation("warning of a reactant lost", with(what, json{{"reactant", name}, {"property", tag}, {"warning", y.sta.second}, {"message", z.sta.second}}));
                }
            }
        }
        rep().distinct("reaction " + std::to_string(reactants.size()) + " " + std::to_string(std::min(warned, 20)) + " " + std::to_string(std::min(missing, 20)));
    }
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv);
    Cases run(o);
    std::string mode = o.rest.empty() ? "identities" : o.rest[0];
    if (mode == "identities") identities(o, run);
    else if (mode == "derivatives") derivatives(o, run);
    else if (mode == "conventions") conventions(o, run);
    else if (mode == "reference") reference(o, run);
    else if (mode == "warnings") warnings(o, run);
    rep().summary();
}
