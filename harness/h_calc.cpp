// P01: calculations with hostile states and parameters, in builds with sanitizers.
// The sanitizers, the process and the clock are the monitors; the program also checks that
// every failure is a std::exception and that the engine still answers afterwards.
#include "pool.h"
using namespace vf;

namespace {
using MT = MethodCorrT_Thrift;
using MP = MethodCorrP_Thrift;
using MG = MethodGenEoS_Thrift;

double hostile(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return r.pickd({NAN, INFINITY, -INFINITY});
    case 1: return 0;
    case 2: return r.pickd({-1, 1, -273.15, 273.15, 298.15, 100});
    case 3: return r.pickd({1e300, -1e300, 1e-300, DBL_MAX, DBL_MIN, 4.9e-324, 2147483648.0, -2147483649.0, 1e19});
    case 4: return -r.logu(1e-6, 1e12);
    default: return r.logu(1e-9, 1e12);
    }
}
double hostile_T(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return hostile(r);
    case 1: return r.pickd({647.096, 647.1, 647.27, 273.16, 273.15, 273.14, 298.15, 298.15000001, 373.15, 372.7, 227.15, 228, 623.15, 0.01, 1e-5, 5000, 20000, 695, 848, 847});
    default: return r.coin() ? r.u(200, 1400) : some_T(r);
    }
}
double hostile_P(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return hostile(r);
    case 1: return r.pickd({0, 1e5, 611.657, 612, 22.064e6, 22.055e6, 1e-300, 1, 1e8, 5e8, 1e9, 1e10, 1e12, -1e5});
    default: return r.coin() ? r.logu(1, 1e11) : some_P(r);
    }
}

// what has been done to a vector of parameters
std::string damage(vd& v, Rng& r)
{
    switch (r.below(9))
    {
    case 0: v.clear(); return "none";
    case 1: if (!v.empty()) v.resize(r.below(v.size())); return "short";
    case 2: for (int i = 1 + r.below(30); i-- > 0;) v.push_back(r.coin() ? hostile(r) : 0); return "long";
    case 3: v = vd(1 + r.below(3), hostile(r)); return "few";
    case 4: for (auto& x : v) x = hostile(r); return "hostile";
    case 5: for (auto& x : v) x = 0; return "zero";
    case 6: for (auto& x : v) x = -x; return "negative";
    default: if (!v.empty()) v[r.below(v.size())] = hostile(r); return "one hostile";
    }
}
std::string damage(vvd& v, Rng& r)
{
    switch (r.below(7))
    {
    case 0: v.clear(); return "none";
    case 1: if (!v.empty()) v.resize(r.below(v.size())); return "short";
    case 2: for (int i = 1 + r.below(5); i-- > 0;) { v.push_back(v.empty() ? vd{} : v.back()); if (r.coin()) damage(v.back(), r); } return "long";
    case 3: r.shuffle(v); return "shuffled";
    default: if (v.empty()) { v.push_back({}); } return damage(v[r.below(v.size())], r);
    }
}
std::string damage(ThermoParametersSubstance& p, Rng& r)
{
    // vectors the record has are damaged more often than absent ones given
    std::vector<std::function<std::string()>> have, lack;
    auto v1 = [&](vd& v, const char* n) { (v.empty() ? lack : have).push_back([&v, n, &r] { return std::string(n) + " " + damage(v, r); }); };
    auto v2 = [&](vvd& v, const char* n) { (v.empty() ? lack : have).push_back([&v, n, &r] { return std::string(n) + " " + damage(v, r); }); };
    v2(p.temperature_intervals, "intervals"); v2(p.pressure_intervals, "p intervals"); v2(p.Cp_coeff, "Cp"); v1(p.Cp_nonElectrolyte_coeff, "AD");
    v2(p.phase_transition_prop, "transitions"); v2(p.phase_transition_prop_Berman, "Berman"); v1(p.m_landau_phase_trans_props, "Landau"); v1(p.HKF_parameters, "HKF");
    v1(p.volume_coeff, "volume"); v1(p.critical_parameters, "critical"); v1(p.volume_BirchM_coeff, "Birch"); v1(p.empirical_coeff, "empirical"); v1(p.solute_holland_powell98_coeff, "HP98");
    have.push_back([&] { p.isothermal_compresibility = hostile(r); return "compressibility"; });
    have.push_back([&] { p.isobaric_expansivity = hostile(r); return "expansivity"; });
    return r.coin(0.8) || lack.empty() ? r.pick(have)() : r.pick(lack)();
}
std::string damage(ThermoParametersReaction& p, Rng& r)
{
    std::vector<std::function<std::string()>> have, lack;
    auto v1 = [&](vd& v, const char* n) { (v.empty() ? lack : have).push_back([&v, n, &r] { return std::string(n) + " " + damage(v, r); }); };
    auto v2 = [&](vvd& v, const char* n) { (v.empty() ? lack : have).push_back([&v, n, &r] { return std::string(n) + " " + damage(v, r); }); };
    v2(p.temperature_intervals, "intervals"); v2(p.pressure_intervals, "p intervals"); v1(p.reaction_logK_fT_coeff, "logK"); v1(p.logK_TP_array, "TP array");
    v1(p.reaction_Cp_fT_coeff, "Cp"); v1(p.reaction_V_fT_coeff, "V"); v1(p.reaction_RB_coeff, "RB"); v1(p.reaction_FM_coeff, "FM"); v1(p.reaction_DM10_coeff, "DM10");
    if (have.empty() || r.coin(0.2)) return r.pick(lack)();
    return r.pick(have)();
}

std::vector<int> range(int a, int b) { std::vector<int> v; for (; a <= b; a++) v.push_back(a); return v; }
const std::vector<int>& methods_T() { static const auto v = range(MT::CTM_CST, MT::CTM_DMD); return v; }
const std::vector<int>& methods_P() { static const auto v = range(MP::CPM_OFF, MP::CPM_INK); return v; }
const std::vector<int>& methods_G() { static const auto v = range(MG::CTPM_CON, MG::CTPM_AN91); return v; }
std::string methods(int g, int t, int p) { return std::to_string(g) + "/" + std::to_string(t) + "/" + std::to_string(p); }

// changes a substance in 0-3 places
std::string damage(Substance& s, Rng& r, bool methods_too)
{
    std::string what;
    for (int n = r.below(4); n-- > 0;)
    {
        switch (r.below(12))
        {
        case 0: { auto p = s.thermoReferenceProperties(); auto& x = p.*r.pick(substance_props()).p; x.val = hostile(r); s.setThermoReferenceProperties(p); what += "reference value; "; break; }
        case 1: s.setReferenceT(hostile(r)); what += "reference T; "; break;
        case 2: s.setReferenceP(hostile(r)); what += "reference P; "; break;
        case 3: s.setFormula(r.pick(std::vector<std::string>{"", "H2O", "Xx", "((", "Na+", "CO2@", "H+", "Fe|3|2O3", "e-", std::string(3000, 'H')})); what += "formula; "; break;
        case 4: s.setCharge(r.pick(std::vector<int>{0, 1, -1, 7, INT32_MAX, INT32_MIN})); what += "charge; "; break;
        case 5: s.setMolarMass(hostile(r)); what += "molar mass; "; break;
        case 6:
            if (!methods_too) break;
            s.setMethod_T(MT::type(r.pick(methods_T()))); what += "method T; "; break;
        case 7:
            if (!methods_too) break;
            s.setMethod_P(MP::type(r.pick(methods_P()))); what += "method P; "; break;
        case 8:
            if (!methods_too) break;
            s.setMethodGenEoS(MG::type(r.pick(methods_G()))); what += "method EoS; "; break;
        case 9:
            if (!methods_too) break;
            s.setSubstanceClass(SubstanceClass::type(r.below(8))); what += "class; "; break;
        default: { auto p = s.thermoParameters(); what += damage(p, r) + "; "; s.setThermoParameters(p); }
        }
    }
    return what.empty() ? "as it is; " : what;
}
std::string damage(Reaction& s, Rng& r, const std::vector<std::string>& subs)
{
    std::string what;
    for (int n = r.below(4); n-- > 0;)
    {
        switch (r.below(8))
        {
        case 0: { auto p = s.thermoReferenceProperties(); auto& x = p.*r.pick(reaction_props()).p; x.val = hostile(r); s.setThermoReferenceProperties(p); what += "reference value; "; break; }
        case 1: s.setReferenceT(hostile(r)); what += "reference T; "; break;
        case 2: s.setReferenceP(hostile(r)); what += "reference P; "; break;
        case 3: { auto m = s.reactants(); if (r.coin(0.3)) m.clear(); else m[r.pick(subs)] = hostile(r); s.setReactants(m); what += "reactants; "; break; }
        case 4: s.setMethod_T(MT::type(r.pick(methods_T()))); what += "method T; "; break;
        case 5: s.setMethod_P(MP::type(r.pick(methods_P()))); what += "method P; "; break;
        default: { auto p = s.thermoParameters(); what += damage(p, r) + "; "; s.setThermoParameters(p); }
        }
    }
    return what.empty() ? "as it is; " : what;
}

// the monitored call: anything but a value or a std::exception ends the process
void tell(const TF& e, const Q& q, const std::string& label, Cases& c)
{
    c.doing(label + "|" + q.text());
    try
    {
        auto a = ask(e, q);
        rep().eval(a.ok ? "answers" : "exceptions");
    }
    catch (...) { rep().violation("not a std::exception:" + label, {{"query", q.text()}}); }
}
std::vector<Q> hostile_queries(Rng& r, const Q& first, int n)
{
    std::vector<Q> v;
    for (int i = 0; i < n; i++)
    {
        Q q = first;
        q.T = hostile_T(r); q.P = hostile_P(r);
        v.push_back(q);
    }
    return v;
}
// every length of every vector of parameters that a record has
std::vector<std::pair<const char*, std::function<vd&(ThermoParametersSubstance&)>>> vectors(const ThermoParametersSubstance& p)
{
    using TP = ThermoParametersSubstance;
    std::vector<std::pair<const char*, std::function<vd&(TP&)>>> v;
    auto v1 = [&](vd TP::*m, const char* n) { v.push_back({n, [m](TP& x) -> vd& { return x.*m; }}); };
    auto v2 = [&](vvd TP::*m, const char* n) { for (size_t i = 0; i < (p.*m).size(); i++) v.push_back({n, [m, i](TP& x) -> vd& { return (x.*m)[i]; }}); };
    v2(&TP::temperature_intervals, "intervals"); v2(&TP::pressure_intervals, "p intervals"); v2(&TP::Cp_coeff, "Cp"); v1(&TP::Cp_nonElectrolyte_coeff, "AD");
    v2(&TP::phase_transition_prop, "transitions"); v2(&TP::phase_transition_prop_Berman, "Berman"); v1(&TP::m_landau_phase_trans_props, "Landau"); v1(&TP::HKF_parameters, "HKF");
    v1(&TP::volume_coeff, "volume"); v1(&TP::critical_parameters, "critical"); v1(&TP::volume_BirchM_coeff, "Birch"); v1(&TP::empirical_coeff, "empirical"); v1(&TP::solute_holland_powell98_coeff, "HP98");
    return v;
}
std::vector<std::pair<const char*, std::function<vd&(ThermoParametersReaction&)>>> vectors(const ThermoParametersReaction& p)
{
    using TP = ThermoParametersReaction;
    std::vector<std::pair<const char*, std::function<vd&(TP&)>>> v;
    auto v1 = [&](vd TP::*m, const char* n) { v.push_back({n, [m](TP& x) -> vd& { return x.*m; }}); };
    auto v2 = [&](vvd TP::*m, const char* n) { for (size_t i = 0; i < (p.*m).size(); i++) v.push_back({n, [m, i](TP& x) -> vd& { return (x.*m)[i]; }}); };
    v2(&TP::temperature_intervals, "intervals"); v2(&TP::pressure_intervals, "p intervals"); v1(&TP::reaction_logK_fT_coeff, "logK"); v1(&TP::logK_TP_array, "TP array");
    v1(&TP::reaction_Cp_fT_coeff, "Cp"); v1(&TP::reaction_V_fT_coeff, "V"); v1(&TP::reaction_RB_coeff, "RB"); v1(&TP::reaction_FM_coeff, "FM"); v1(&TP::reaction_DM10_coeff, "DM10");
    return v;
}
const std::vector<std::pair<double, double>>& plain_states()
{
    static const std::vector<std::pair<double, double>> v{{298.15, 1e5}, {350, 2e5}, {623, 5e7}, {1000, 5e8}, {573.15, 0}};
    return v;
}
void cut_substances(Cases& cases)
{
    for (auto& spec : model_specs())
    {
        if (!cases("lengths " + spec.symbol)) continue;
        Substance s = make(spec);
        auto full = s.thermoParameters();
        for (auto& [name, at] : vectors(full))
        {
            size_t size = at(full).size();
            for (size_t n = 0; n < std::max<size_t>(size, 12) + 2; n++)
            {
                auto p = full;
                // a new vector, so that what lies beyond its end is nobody's
                vd cut;
                for (size_t i = 0; i < n; i++) cut.push_back(i < size ? at(full)[i] : 1);
                cut.shrink_to_fit();
                at(p).swap(cut);
                Substance x = s;
                x.setThermoParameters(p);
                Database db;
                db.addSubstance(water("H2O@", MT::CTM_WAT, MG::CTPM_WJNG));
                db.addSubstance(x);
                TF e(db);
                std::string label = std::string("lengths ") + spec.symbol + " " + name;
                for (auto& st : plain_states())
                {
                    Q q; q.kind = SUBST; q.sym = spec.symbol; q.T = st.first; q.P = st.second;
                    tell(e, q, label, cases);
                }
                rep().distinct(label + " " + std::to_string(n));
            }
        }
    }
}
void cut_reactions(Cases& cases)
{
    SmallDb d = model_small();
    for (auto& name : d.reactions)
    {
        if (!cases("lengths " + name)) continue;
        auto full = d.db.getReaction(name).thermoParameters();
        for (auto& [what, at] : vectors(full))
        {
            size_t size = at(full).size();
            for (size_t n = 0; n < std::max<size_t>(size, 12) + 2; n++)
            {
                auto p = full;
                vd cut;
                for (size_t i = 0; i < n; i++) cut.push_back(i < size ? at(full)[i] : 1);
                cut.shrink_to_fit();
                at(p).swap(cut);
                Database db = d.db;
                Reaction x = db.getReaction(name);
                x.setThermoParameters(p);
                db.setReaction(x);
                TF e(db);
                e.setSolventSymbol("H2O@");
                std::string label = "lengths " + name + " " + what;
                for (auto& st : plain_states())
                {
                    Q q; q.kind = REACT; q.sym = name; q.T = st.first; q.P = st.second;
                    tell(e, q, label, cases);
                }
                cases.doing("coefficients of logK|" + label);
                try { x.calc_logK_fT_coefficients(); rep().eval("coefficients of logK"); }
                catch (const std::exception&) { rep().eval("exceptions"); }
                rep().distinct(label + " " + std::to_string(n));
            }
        }
    }
}
int solvent_state(Rng& r) { return r.pick(std::vector<int>{-1, 0, 1, 2, 7, INT32_MAX, INT32_MIN}); }

void substances(const Options& o, Cases& cases)
{
    // the records: every model, and recorded substances of every combination of methods
    std::vector<std::pair<std::string, std::string>> dbs;
    for (auto& p : databases(o)) dbs.push_back({base(p), p});
    auto waters = water_kinds();
    auto specs = model_specs();
    int rounds = o.thorough ? 400 : 16;
    cut_substances(cases);
    for (int k = 0; k < rounds; k++)
        for (size_t i = 0; i < specs.size(); i++)
        {
            if (!cases("model " + specs[i].symbol)) continue;
            Rng& r = cases.rng;
            auto& w = r.pick(waters);
            Substance s = make(specs[i]);
            std::string what = damage(s, r, r.coin(0.3));
            Database db;
            Substance h2o = water("H2O@", w.eos, w.diel);
            std::string wwhat = r.coin(0.15) ? damage(h2o, r, false) : "";
            db.addSubstance(h2o);
            db.addSubstance(s);
            TF e(db);
            e.setSolventSymbol("H2O@");
            std::string label = std::string("model ") + specs[i].symbol + " " + methods(s.methodGenEOS(), s.method_T(), s.method_P());
            Q q; q.kind = r.coin(0.9) ? SUBST : SUBST_OBJ; q.sym = s.symbol();
            for (auto& x : hostile_queries(r, q, o.thorough ? 40 : 16)) tell(e, x, label, cases);
            rep().distinct(label + " " + what + wwhat);
        }
    for (int k = 0; k < rounds; k++)
        for (auto& w : waters)
        {
            if (!cases(std::string("water ") + w.symbol)) continue;
            Rng& r = cases.rng;
            Substance s = water("H2O@", w.eos, w.diel);
            std::string what = damage(s, r, r.coin(0.2));
            Database db;
            db.addSubstance(s);
            TF e(db);
            e.setSolventSymbol(r.coin(0.95) ? "H2O@" : "none");
            std::string label = std::string("water ") + methods(s.methodGenEOS(), s.method_T(), s.method_P());
            auto states = hostile_queries(r, Q(), o.thorough ? 20 : 10);
            for (int n = o.thorough ? 60 : 30; n-- > 0;)
            {
                auto& st = r.pick(states);
                Q q; q.T = st.T; q.P = st.P; q.kind = r.pick(std::vector<int>{SUBST, SUBST_OBJ, SOLVENT, ELECTRO}); q.sym = "H2O@"; q.state = solvent_state(r);
                tell(e, q, label, cases);
            }
            rep().distinct(label + " " + what);
        }
    // eight at a time, so that each process reads few of them
    std::sort(dbs.begin(), dbs.end(), [](auto& a, auto& b) { return fs::file_size(a.second) > fs::file_size(b.second); });
    while (dbs.size() % 8) dbs.push_back(dbs[dbs.size() % 8]);
    for (size_t n = 0; n < dbs.size() * (o.thorough ? 60 : 6); n++)
        {
            size_t block = n / (8 * (o.thorough ? 60 : 6)), j = n % 8;
            auto& [name, path] = dbs[block % 2 ? block * 8 + 7 - j : block * 8 + j];
            if (!cases("records " + name)) continue;
            Rng& r = cases.rng;
            SmallDb d = small_db(path, r, 14, 5);
            // a third of the records are damaged
            for (auto& sy : d.substances)
                if (r.coin(0.33)) { Substance s = d.db.getSubstance(sy); rep().distinct(name + " " + sy + " " + damage(s, r, r.coin(0.3))); d.db.setSubstance(s); }
            for (auto& sy : d.reactions)
                if (r.coin(0.33)) { Reaction s = d.db.getReaction(sy); rep().distinct(name + " " + sy + " " + damage(s, r, d.substances)); d.db.setReaction(s); }
            TF e(d.db);
            if (!d.waters.empty()) e.setSolventSymbol(r.pick(d.waters));
            // few states, as the engine keeps the water of each
            auto states = hostile_queries(r, Q(), o.thorough ? 40 : 9);
            for (int m = o.thorough ? 400 : 110; m-- > 0;)
            {
                Q q = some_query(r, d);
                auto& st = r.pick(states);
                q.T = st.T; q.P = st.P;
                if (q.kind == SOLVENT || q.kind == ELECTRO) q.state = solvent_state(r);
                tell(e, q, "records " + name + " " + kind_name(q.kind), cases);
            }
        }
}

void reactions(const Options& o, Cases& cases)
{
    SmallDb d = model_small();
    int rounds = o.thorough ? 600 : 30;
    cut_reactions(cases);
    for (int k = 0; k < rounds; k++)
        for (auto& name : d.reactions)
        {
            if (!cases("reaction " + name)) continue;
            Rng& r = cases.rng;
            Database db = d.db;
            Reaction x = db.getReaction(name);
            std::string what = damage(x, r, d.substances);
            db.setReaction(x);
            // definitions that refer to each other
            if (r.coin(0.1))
            {
                auto& s = r.pick(d.substances);
                Substance y = db.getSubstance(s);
                y.setReactionSymbol(r.pick(d.reactions));
                y.setThermoCalculationType(SubstanceThermoCalculationType::REACDC);
                db.setSubstance(y);
                what += "definition of " + s;
            }
            TF e(db);
            e.setSolventSymbol(r.coin(0.9) ? "H2O@" : r.pick(d.waters));
            std::string label = "reaction " + name + " " + methods(x.methodGenEOS(), x.method_T(), x.method_P());
            for (int n = o.thorough ? 40 : 12; n-- > 0;)
            {
                Q q; q.kind = r.pick(std::vector<int>{REACT, REACT_OBJ, REACTANTS, REACTANTS_OBJ}); q.sym = name;
                tell(e, hostile_queries(r, q, 1)[0], label, cases);
            }
            cases.doing("coefficients of logK|" + label + " " + what);
            try { x.calc_logK_fT_coefficients(); rep().eval("coefficients of logK"); }
            catch (const std::exception&) { rep().eval("exceptions"); }
            catch (...) { rep().violation("not a std::exception:coefficients of logK", {{"what", what}}); }
            rep().distinct(label + " " + what);
        }
}
} // namespace

int main(int argc, char** argv)
{
    auto o = parse(argc, argv);
    Cases cases(o);
    std::string mode = o.rest.empty() ? "substances" : o.rest[0];
    if (mode == "substances") substances(o, cases);
    else if (mode == "reactions") reactions(o, cases);
    else return 97;
    rep().summary();
    return 0;
}
