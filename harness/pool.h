#pragma once
// Queries to an engine as data, and small databases to ask them of.
#include "models.h"

namespace vf {

enum Kind { SUBST, SUBST_OBJ, REACT, REACT_OBJ, REACTANTS, REACTANTS_OBJ, SOLVENT, ELECTRO, EQUATION, NKIND };
inline const char* kind_name(int k)
{
    static const char* n[] = {"substance", "substance object", "reaction", "reaction object", "reaction from reactants", "reaction object from reactants", "solvent properties", "electro properties", "reaction equation"};
    return n[k];
}
struct Q
{
    int kind = SUBST;
    std::string sym;
    double T = 298.15, P = 1e5;
    int state = -1;
    std::string text() const { return std::string(kind_name(kind)) + " " + sym + " T=" + num(T) + " P=" + num(P) + (kind == SOLVENT || kind == ELECTRO ? " state=" + std::to_string(state) : ""); }
};
struct Answer { std::string image; json shown; bool ok = false; };

inline Answer ask(const TF& e, const Q& q, bool want_json = false)
{
    Answer a;
    auto fill = [&](auto&& o) { a.image = o.image(); a.ok = o.ok; if (want_json) a.shown = o.show(); };
    switch (q.kind)
    {
    case SUBST: fill(query(q.P, [&](double& P) { return e.thermoPropertiesSubstance(q.T, P, q.sym); })); break;
    case SUBST_OBJ: fill(query(q.P, [&](double& P) { return e.thermoPropertiesSubstance(q.T, P, e.database().getSubstance(q.sym)); })); break;
    case EQUATION:
    case REACT: fill(query(q.P, [&](double& P) { return e.thermoPropertiesReaction(q.T, P, q.sym); })); break;
    case REACT_OBJ: fill(query(q.P, [&](double& P) { return e.thermoPropertiesReaction(q.T, P, e.database().getReaction(q.sym)); })); break;
    case REACTANTS: fill(query(q.P, [&](double& P) { return e.thermoPropertiesReactionFromReactants(q.T, P, q.sym); })); break;
    case REACTANTS_OBJ: fill(query(q.P, [&](double& P) { return e.thermoPropertiesReactionFromReactants(q.T, P, e.database().getReaction(q.sym)); })); break;
    case SOLVENT: fill(query(q.P, [&](double& P) { return e.propertiesSolvent(q.T, P, q.sym, q.state); })); break;
    case ELECTRO: fill(query(q.P, [&](double& P) { return e.electroPropertiesSolvent(q.T, P, q.sym, q.state); })); break;
    }
    return a;
}

// A small database with every substance its reactions need
struct SmallDb
{
    Database db;
    std::string source;
    std::vector<std::string> substances, reactions, waters;
};

inline const Database& load(const std::string& path)
{
    static std::map<std::string, Database> cache;
    auto it = cache.find(path);
    if (it == cache.end()) it = cache.emplace(path, Database(path)).first;
    return it->second;
}

inline void add_closed(const Database& from, Database& to, const std::string& s, std::set<std::string>& seen, std::set<std::string>& seenR);
inline void add_closed_reaction(const Database& from, Database& to, const std::string& r, std::set<std::string>& seen, std::set<std::string>& seenR)
{
    if (!from.containsReaction(r) || !seenR.insert(r).second) return;
    Reaction re = from.getReaction(r);
    to.addReaction(re);
    for (auto& x : re.reactants()) add_closed(from, to, x.first, seen, seenR);
}
inline void add_closed(const Database& from, Database& to, const std::string& s, std::set<std::string>& seen, std::set<std::string>& seenR)
{
    if (!from.containsSubstance(s) || !seen.insert(s).second) return;
    Substance su = from.getSubstance(s);
    to.addSubstance(su);
    if (!su.reactionSymbol().empty()) add_closed_reaction(from, to, su.reactionSymbol(), seen, seenR);
}

inline SmallDb small_db(const std::string& path, Rng& r, size_t nsub, size_t nreact)
{
    SmallDb d;
    const Database& full = load(path);
    d.source = base(path);
    for (auto& e : full.getElements()) d.db.addElement(e);
    std::set<std::string> seen, seenR;
    auto subs = full.getSubstances();
    for (auto& s : subs)
        if (s.substanceClass() == SubstanceClass::AQSOLVENT) { add_closed(full, d.db, s.symbol(), seen, seenR); d.waters.push_back(s.symbol()); }
    // one of each combination of methods first, then at random
    r.shuffle(subs);
    std::map<std::tuple<int, int, int>, int> kinds;
    for (auto& s : subs)
        if (kinds[{int(s.methodGenEOS()), int(s.method_T()), int(s.method_P())}]++ < 1 && seen.size() < 2 * nsub) add_closed(full, d.db, s.symbol(), seen, seenR);
    for (auto& s : subs)
        if (seen.size() < nsub) add_closed(full, d.db, s.symbol(), seen, seenR);
    auto reacts = full.getReactions();
    r.shuffle(reacts);
    std::map<std::tuple<int, int, int>, int> rkinds;
    for (auto& x : reacts)
        if (rkinds[{int(x.methodGenEOS()), int(x.method_T()), int(x.method_P())}]++ < 1) add_closed_reaction(full, d.db, x.symbol(), seen, seenR);
    for (auto& x : reacts)
        if (seenR.size() < nreact) add_closed_reaction(full, d.db, x.symbol(), seen, seenR);
    d.substances.assign(seen.begin(), seen.end());
    d.reactions.assign(seenR.begin(), seenR.end());
    return d;
}

inline Reaction reaction_of(const std::string& symbol, const std::map<std::string, double>& reactants, int eos = 0, int mT = 0, int mP = 0)
{
    Reaction r;
    r.setSymbol(symbol);
    r.setName(symbol);
    r.setReactants(reactants);
    if (eos) r.setMethodGenEoS(MethodGenEoS_Thrift::type(eos));
    if (mT) r.setMethod_T(MethodCorrT_Thrift::type(mT));
    if (mP) r.setMethod_P(MethodCorrP_Thrift::type(mP));
    r.setReferenceT(298.15); r.setReferenceP(1e5);
    r.setLowerT(0); r.setUpperT(5000); r.setLowerP(0); r.setUpperP(1e10);
    return r;
}

// the synthetic records of every model, with reactions between them
inline SmallDb model_small(int eos = MethodCorrT_Thrift::CTM_WWP, int diel = MethodGenEoS_Thrift::CTPM_WJNR)
{
    SmallDb d;
    d.source = "models";
    d.db = model_database(eos, diel);
    for (const char* e : {"Al", "Si", "O", "H", "Fe", "Cu", "C", "N", "Na", "Zz"})
    {
        Element x; x.setSymbol(e); x.setName(e); x.setValence(e[0] == 'O' ? -2 : 1); x.setEntropy(10 + e[0] % 7); x.setHeatCapacity(20); x.setVolume(1); x.setMolarMass(10);
        d.db.addElement(x);
    }
    auto ref = [](double lk, double G, double H, double S, double Cp, double V) {
        ThermoPropertiesReaction p;
        p.log_equilibrium_constant = lk; p.ln_equilibrium_constant = lk * 2.302585093; p.reaction_gibbs_energy = G; p.reaction_enthalpy = H; p.reaction_entropy = S;
        p.reaction_heat_capacity_cp = Cp; p.reaction_volume = V;
        return p;
    };
    auto add = [&](Reaction r, std::function<void(Reaction&)> f) { f(r); d.db.addReaction(r); };
    using MT = MethodCorrT_Thrift;
    using MP = MethodCorrP_Thrift;
    using MG = MethodGenEoS_Thrift;
    std::map<std::string, double> eq{{"M_Landau", -1}, {"H2O@", -2}, {"R_SiO4", 1}};
    auto logk = [](std::vector<double> a) { return [=](Reaction& r) { ThermoParametersReaction p; p.reaction_logK_fT_coeff = a; r.setThermoParameters(p); }; };
    add(reaction_of("R_logK7", {{"M_AD", -1}, {"H2O@", -1}, {"M_ReakHKF", 1}}, MG::CTPM_REA, MT::CTM_LGK, MP::CPM_CON), [&](Reaction& r) {
        logk({3.2, -0.0012, -1200, -0.7, 15000, 2e-7, 12})(r); r.setThermoReferenceProperties(ref(-1.3, 7420, -5000, -41.7, 33, 1.2)); });
    add(reaction_of("R_logK3", {{"M_Landau", -1}, {"H2O@", -2}, {"M_HP98", 1}}, 0, MT::CTM_LGX, 0), [&](Reaction& r) {
        logk({1.25, 0, -700, -0.3})(r); r.setThermoReferenceProperties(ref(-1.9, 10800, 14000, 10.7, 0, 0.3)); });
    add(reaction_of("R_EK1", {{"M_EntropyCp", -1}, {"M_ReakHKF", 1}}, 0, MT::CTM_EK1, MP::CPM_CON), [&](Reaction& r) {
        r.setThermoReferenceProperties(ref(2.4, -13700, 4100, 59.7, 0, -0.8)); });
    add(reaction_of("R_EK3", {{"M_CpFull", -2}, {"M_Berman88", 1}}, 0, MT::CTM_EK3, MP::CPM_CON), [&](Reaction& r) {
        r.setThermoReferenceProperties(ref(0.7, -4000, 21000, 83.8, 45, 0.6)); });
    add(reaction_of("R_DM10", {{"M_Landau", -1}, {"M_AD", 1}}, 0, MT::CTM_DMD, 0), [&](Reaction& r) {
        ThermoParametersReaction p; p.reaction_DM10_coeff = {23600, 2.9, -1.1, 0.02, -2e-6, 3.5, 0.1}; r.setThermoParameters(p); r.setThermoReferenceProperties(ref(-2.7, 15400, 14500, -3, 0, 0)); });
    add(reaction_of("R_FM", {{"M_Landau", -1}, {"M_AD", 1}}, 0, MT::CTM_DKR, 0), [&](Reaction& r) {
        ThermoParametersReaction p; p.reaction_FM_coeff = {-4.098, -3245.2, 2.2362e5, -3.984e7, 13.957, -1262.3, 8.5641e5}; r.setThermoParameters(p); r.setThermoReferenceProperties(ref(-14, 79900, 55800, -80.7, 0, 0)); });
    add(reaction_of("R_RB", {{"M_HP98", -1}, {"M_GemsHKF", -1}, {"M_AN91", 1}}, 0, MT::CTM_MRB, 0), [&](Reaction& r) {
        ThermoParametersReaction p; p.reaction_RB_coeff = {3.1, 1.4, 200}; r.setThermoParameters(p); r.setThermoReferenceProperties(ref(3.1, -17700, 4000, 72, 0, 0)); });
    add(reaction_of("R_react", {{"M_Landau", -1}, {"M_Berman88", -0.5}, {"M_BMGott", 0.5}, {"M_CpFull", 1}}), [](Reaction&) {});
    add(reaction_of("R_gas", {{"G_PRSV", -1}, {"M_AD", 1}}), [](Reaction&) {});
    add(reaction_of("R_gas2", {{"G_CORK_CO2", -1}, {"G_SRK", 2}, {"H2O@", 1}}), [](Reaction&) {});
    // substances defined through a reaction
    add(reaction_of("R_def1", {{"M_Landau", -1}, {"H2O@", -2}, {"D_SiO4", 1}}, 0, MT::CTM_LGX, MP::CPM_CON), [&](Reaction& r) {
        logk({1.25, 0, -700, -0.3})(r); r.setThermoReferenceProperties(ref(-1.9, 10800, 14000, 10.7, 0, 0.3)); });
    add(reaction_of("R_def2", {{"G_PRSV", -1}, {"H2O@", -1}, {"D_H2CO3", 2}}, 0, MT::CTM_EK3, 0), [&](Reaction& r) {
        r.setThermoReferenceProperties(ref(-1.5, 8600, -20000, -96, 120, 0)); });
    for (auto& [sym, formula, reac, mP] : std::vector<std::tuple<const char*, const char*, const char*, int>>{{"D_SiO4", "SiO4H4", "R_def1", 0}, {"D_H2CO3", "H2CO3", "R_def2", MP::CPM_CON}})
    {
        SubstanceSpec k; k.symbol = sym; k.formula = formula; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.mP = mP; k.V = 1.7;
        Substance s = make(k);
        s.setReactionSymbol(reac);
        s.setThermoCalculationType(SubstanceThermoCalculationType::REACDC);
        d.db.addSubstance(s);
    }
    for (auto& s : d.db.getSubstances()) { d.substances.push_back(s.symbol()); if (s.substanceClass() == SubstanceClass::AQSOLVENT) d.waters.push_back(s.symbol()); }
    for (auto& s : d.db.getReactions()) d.reactions.push_back(s.symbol());
    return d;
}

inline std::string equation_of(const Database& db, Rng& r, const std::vector<std::string>& subs)
{
    std::string left, right;
    std::set<std::string> used;
    for (int i = 0, n = 2 + r.below(3); i < n; i++)
    {
        auto& s = r.pick(subs);
        if (s.find_first_of(" =+") != std::string::npos || !used.insert(s).second || (!s.empty() && (isdigit(s[0]) || s[0] == '-'))) continue;
        std::string& side = i % 2 ? left : right;
        int c = 1 + r.below(3);
        if (!side.empty()) side += " + ";
        side += (c > 1 ? std::to_string(c) : "") + s;
    }
    if (left.empty() || right.empty()) return "";
    return left + " = " + right;
}

inline double some_T(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return 298.15;
    case 1: return r.pickd({273.16, 300, 323.15, 373.15, 473.15, 573.15, 673.15, 848, 1000, 1273.15});
    default: return r.u(275, r.coin(0.7) ? 620 : 1200);
    }
}
inline double some_P(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return 1e5;
    case 1: return 0;
    case 2: return r.pickd({1e5, 1e6, 1e7, 5e7, 1e8, 5e8});
    default: return r.logu(1e5, 6e8);
    }
}
inline Q some_query(Rng& r, const SmallDb& d)
{
    Q q;
    q.T = some_T(r);
    q.P = some_P(r);
    unsigned k = r.below(20);
    if (k < 9) { q.kind = r.coin(0.85) ? SUBST : SUBST_OBJ; q.sym = r.pick(d.substances); }
    else if (k < 12 && !d.waters.empty()) { q.kind = r.coin() ? SOLVENT : ELECTRO; q.sym = r.pick(d.waters); q.state = int(r.below(3)) - 1; }
    else if (k < 14) { q.kind = EQUATION; q.sym = equation_of(d.db, r, d.substances); }
    if (q.sym.empty())
    {
        if (d.reactions.empty()) { q.kind = SUBST; q.sym = r.pick(d.substances); }
        else { q.kind = int(REACT) + int(r.below(4)); q.sym = r.pick(d.reactions); }
    }
    if (q.P == 0 && q.kind == EQUATION) q.P = 1e5;
    return q;
}
} // namespace vf
