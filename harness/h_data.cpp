// Data: P24 records load as written, P25 the database as a collection.
#include "pool.h"
#include "records.h"
#include "ChemicalFun/FormulaParser/ChemicalData.h"
using namespace vf;

// ------------------------------------------------------------------ P24
// What a record holds, by name of field
struct Fields
{
    std::map<std::string, std::string> text;
    std::map<std::string, double> number;
    std::map<std::string, std::vector<double>> list;
};
static void compare(const std::string& how, const std::string& what, const Fields& want, const Fields& got)
{
    rep().eval("records compared");
    auto diff = [&](const std::string& field, const json& w, const json& g) {
        rep().violation("a field of a loaded record differs from what the data says: " + field.substr(0, field.find(' ')), {{"record", what}, {"loaded", how}, {"expected", w}, {"got", g}});
    };
    for (auto& x : want.text) { rep().count("texts"); if (got.text.at(x.first) != x.second) diff(x.first, x.second, got.text.at(x.first)); }
    for (auto& x : want.number)
    {
        rep().count("numbers");
        if (!close(x.second, got.number.at(x.first), 1e-12)) diff(x.first, x.second, got.number.at(x.first));
    }
    for (auto& x : want.list)
    {
        auto& g = got.list.at(x.first);
        rep().count("lists");
        bool ok = g.size() == x.second.size();
        for (size_t i = 0; ok && i < g.size(); i++) ok = close(g[i], x.second[i], 1e-11, x.first == "Landau coefficients" ? 1e-9 : 0); // the first of them is a temperature
        if (!ok) diff(x.first, x.second, g);
    }
}
static void scalar(Fields& f, const std::string& n, const Scalar& s) { f.number[n] = s.val; f.number[n + " error"] = s.err; f.number[n + " defined"] = s.sta.first != Reaktoro_::notdefined; }
static void lists(Fields& f, const std::string& n, const vvd& v) { f.number[n + " count"] = v.size(); f.list[n].clear(); for (auto& x : v) { f.list[n].push_back(x.size()); f.list[n].insert(f.list[n].end(), x.begin(), x.end()); } }

static Fields of(const Substance& s)
{
    Fields f;
    f.text = {{"name", s.name()}, {"symbol", s.symbol()}, {"formula", s.formula()}, {"reaction", s.reactionSymbol()}};
    f.number = {{"charge", s.charge()}, {"molar mass", s.molarMass()}, {"aggregate state", s.aggregateState()}, {"class", s.substanceClass()}, {"lower T", s.lowerT()}, {"upper T", s.upperT()}, {"lower P", s.lowerP()}, {"upper P", s.upperP()}, {"reference T", s.referenceT()}, {"reference P", s.referenceP()},
        {"general method", s.methodGenEOS()}, {"method of T", s.method_T()}, {"method of P", s.method_P()}, {"defined by reaction", s.thermoCalculationType() == SubstanceThermoCalculationType::REACDC}};
    auto r = s.thermoReferenceProperties();
    scalar(f, "Cp", r.heat_capacity_cp); scalar(f, "G", r.gibbs_energy); scalar(f, "H", r.enthalpy); scalar(f, "S", r.entropy); scalar(f, "V", r.volume);
    auto p = s.thermoParameters();
    f.number["expansivity"] = p.isobaric_expansivity; f.number["compressibility"] = p.isothermal_compresibility;
    lists(f, "temperature intervals", p.temperature_intervals); lists(f, "Cp coefficients", p.Cp_coeff); lists(f, "phase transitions", p.phase_transition_prop);
    f.list["AD coefficients"] = p.Cp_nonElectrolyte_coeff; f.list["critical parameters"] = p.critical_parameters; f.list["HKF coefficients"] = p.HKF_parameters;
    f.list["Landau coefficients"] = p.m_landau_phase_trans_props; f.list["HP98 coefficients"] = p.solute_holland_powell98_coeff;
    return f;
}
static Fields of(const Reaction& r)
{
    Fields f;
    f.text = {{"name", r.name()}, {"symbol", r.symbol()}, {"equation", r.equation()}, {"reactants", json(r.reactants()).dump()}};
    f.number = {{"lower T", r.lowerT()}, {"upper T", r.upperT()}, {"lower P", r.lowerP()}, {"upper P", r.upperP()}, {"reference T", r.referenceT()}, {"reference P", r.referenceP()}, {"general method", r.methodGenEOS()}, {"method of T", r.method_T()}, {"method of P", r.method_P()}};
    auto t = r.thermoReferenceProperties();
    scalar(f, "log K", t.log_equilibrium_constant); scalar(f, "Cp", t.reaction_heat_capacity_cp); scalar(f, "G", t.reaction_gibbs_energy); scalar(f, "H", t.reaction_enthalpy); scalar(f, "S", t.reaction_entropy); scalar(f, "V", t.reaction_volume);
    auto p = r.thermoParameters();
    f.list = {{"log K coefficients", p.reaction_logK_fT_coeff}, {"Cp coefficients", p.reaction_Cp_fT_coeff}, {"V coefficients", p.reaction_V_fT_coeff}, {"RB coefficients", p.reaction_RB_coeff}, {"FM coefficients", p.reaction_FM_coeff}, {"DM coefficients", p.reaction_DM10_coeff}};
    return f;
}
static Fields of(const Element& e)
{
    Fields f;
    f.text = {{"name", e.name()}, {"symbol", e.symbol()}};
    f.number = {{"entropy", e.entropy()}, {"heat capacity", e.heatCapacity()}, {"volume", e.volume()}, {"molar mass", e.molarMass()}, {"class", e.class_()}, {"isotope mass", e.isotopeMass()}, {"number", e.number()}};
    return f;
}

// The same, from the JSON alone
static const json* at(const json& j, const char* k) { auto i = j.find(k); return i == j.end() || i->is_null() ? nullptr : &*i; }
// the first entry of a list field, if there is one
static const json* first(const json& j, const char* k) { auto x = at(j, k); return x && x->is_array() && !x->empty() && !(*x)[0].is_null() ? &(*x)[0] : nullptr; }
static std::string unit_in(const json& j, const std::string& other) { auto x = first(j, "units"); return x ? x->get<std::string>() : other; }
static double in_units(double v, const std::string& from, const std::string& to) { return from == to ? v : v * unit_factor(from) / unit_factor(to); }
static void value(Fields& f, const std::string& n, const json& j, const char* key, const std::string& unit)
{
    double v = 0, e = 0; bool def = false;
    if (auto p = at(j, key))
    {
        std::string u = unit_in(*p, unit);
        if (auto x = first(*p, "values")) { v = in_units(x->get<double>(), u, unit); def = true; }
        if (auto x = first(*p, "errors")) e = in_units(x->get<double>(), u, unit);
    }
    f.number[n] = v; f.number[n + " error"] = e; f.number[n + " defined"] = def;
}
static bool values(std::vector<double>& out, const json& j, const char* key, const std::vector<std::string>& to)
{
    auto p = at(j, key);
    if (!p || !at(*p, "values")) return false;
    std::vector<std::string> from = to;
    if (auto u = at(*p, "units")) from = u->get<std::vector<std::string>>();
    // the shipped HKF records name six of the seven units; they are in the default ones
    if (std::string(key) == "eos_hkf_coeffs" && from.size() >= 3 && from[2] == "(cal*K)/mol") from = to;
    out = (*p)["values"].get<std::vector<double>>();
    for (size_t i = 0; i < out.size(); i++)
    {
        std::string a = i < from.size() ? from[i] : "", b = i < to.size() ? to[i] : "";
        if (a.empty() || b.empty()) continue; // no unit: as it is
        // temperatures convert by their scale
        if (a != b && (a == "degC" || b == "degC")) { if (a == "K" && b == "degC") out[i] -= 273.15; else if (a == "degC" && b == "K") out[i] += 273.15; }
        else out[i] = in_units(out[i], a, b);
    }
    return !out.empty();
}

static void methods(Fields& f, const json& j, const std::map<int, std::pair<char, int>>& table, std::function<void(const json&, const std::string&)> each)
{
    f.number["general method"] = f.number["method of T"] = f.number["method of P"] = 0;
    if (auto t = at(j, "TPMethods"))
        for (auto& m : *t)
            if (auto x = at(m, "method"))
            {
                auto k = table.at(std::stoi(x->begin().key()));
                f.number[k.first == 'g' ? "general method" : k.first == 't' ? "method of T" : "method of P"] = k.second;
                each(m, x->begin().value());
            }
}
static void common(Fields& f, const json& j)
{
    f.number["lower T"] = f.number["upper T"] = f.number["lower P"] = f.number["upper P"] = 0;
    f.number["reference T"] = at(j, "Tst") ? j["Tst"].get<double>() : 298.15;
    f.number["reference P"] = at(j, "Pst") ? j["Pst"].get<double>() : 1e5;
    if (auto l = at(j, "limitsTP")) { if (at(*l, "lowerT")) f.number["lower T"] = (*l)["lowerT"]; if (at(*l, "upperT")) f.number["upper T"] = (*l)["upperT"]; if (at(*l, "lowerP")) f.number["lower P"] = (*l)["lowerP"]; if (at(*l, "upperP")) f.number["upper P"] = (*l)["upperP"]; }
    for (auto k : {"name", "symbol"}) f.text[k] = at(j, k) ? j[k].get<std::string>() : "";
}
static Fields substance_of(const json& j)
{
    Fields f;
    common(f, j);
    for (auto k : {"formula", "reaction"}) f.text[k] = at(j, k) ? j[k].get<std::string>() : "";
    f.number["charge"] = at(j, "formula_charge") ? j["formula_charge"].get<int>() : 0;
    f.number["molar mass"] = 0;
    if (auto p = at(j, "mass_per_mole")) if (auto v = first(*p, "values")) f.number["molar mass"] = in_units(v->get<double>(), unit_in(*p, "g/mol"), "g/mol");
    f.number["aggregate state"] = at(j, "aggregate_state") ? std::stoi(j["aggregate_state"].begin().key()) : 0;
    f.number["class"] = at(j, "class_") ? std::stoi(j["class_"].begin().key()) : 0;
    vvd T, cp, pt;
    std::vector<double> ad, gas, hkf, landau, hp;
    methods(f, j, s_methods, [&](const json& m, const std::string& name) {
        std::vector<double> v;
        values(ad, m, "eos_akinfiev_diamond_coeffs", AD_UNITS); values(gas, m, "eos_gas_crit_props", GAS_UNITS); values(hkf, m, "eos_hkf_coeffs", HKF_UNITS);
        values(landau, m, "m_landau_phase_trans_props", LANDAU_UNITS); values(hp, m, "solute_holland_powell98_coeff", HP_UNITS);
        if (name == "cp_ft_equation")
        {
            if (auto l = at(m, "limitsTP")) for (auto k : {"lowerT", "upperT"}) if (at(*l, k)) v.push_back((*l)[k]);
            T.push_back(v);
        }
        v.clear(); if (values(v, m, "m_heat_capacity_ft_coeffs", CP_UNITS)) cp.push_back(v);
        v.clear(); if (values(v, m, "m_phase_trans_props", PT_UNITS)) pt.push_back(v);
    });
    lists(f, "temperature intervals", T); lists(f, "Cp coefficients", cp); lists(f, "phase transitions", pt);
    f.list["AD coefficients"] = ad; f.list["critical parameters"] = gas; f.list["HKF coefficients"] = hkf; f.list["Landau coefficients"] = landau; f.list["HP98 coefficients"] = hp;
    f.number["defined by reaction"] = !j.contains("TPMethods") && at(j, "reaction");
    value(f, "Cp", j, "sm_heat_capacity_p", "J/K/mol"); value(f, "G", j, "sm_gibbs_energy", "J/mol"); value(f, "H", j, "sm_enthalpy", "J/mol"); value(f, "S", j, "sm_entropy_abs", "J/K/mol"); value(f, "V", j, "sm_volume", "J/bar");
    // units of these two are mixed up in the shipped data: values named kbar are 1e-5/K, values named 1e-05/K are kbar
    if (at(j, "TPMethods"))
    {
        f.number["expansivity"] = f.number["compressibility"] = 0;
        if (auto p = at(j, "m_expansivity")) if (auto x = first(*p, "values")) { std::string u = unit_in(*p, "1/K"); double v = *x; f.number["expansivity"] = u == "kbar" ? v * 1e5 : in_units(v, u, "1/K"); }
        if (auto p = at(j, "m_compressibility")) if (auto x = first(*p, "values")) { std::string u = unit_in(*p, "kbar"); double v = *x; f.number["compressibility"] = u == "1e-05/K" ? v : in_units(v, u, "kbar"); }
    }
    return f;
}
static Fields reaction_record_of(const json& j)
{
    Fields f;
    common(f, j);
    f.text["equation"] = at(j, "equation") ? j["equation"].get<std::string>() : "";
    std::map<std::string, double> r;
    if (auto p = at(j, "reactants")) { for (auto& x : *p) if (at(x, "symbol") && at(x, "coefficient")) r[x["symbol"]] = x["coefficient"]; f.text["reactants"] = json(r).dump(); }
    if (f.text["symbol"].empty()) f.text["symbol"] = f.text["equation"];
    for (auto n : {"log K coefficients", "Cp coefficients", "V coefficients", "RB coefficients", "FM coefficients", "DM coefficients"}) f.list[n] = {};
    methods(f, j, r_methods, [&](const json& m, const std::string&) {
        values(f.list["log K coefficients"], m, "logk_ft_coeffs", LOGK_UNITS); values(f.list["Cp coefficients"], m, "dr_heat_capacity_ft_coeffs", RCP_UNITS); values(f.list["V coefficients"], m, "dr_volume_fpt_coeffs", RV_UNITS);
        values(f.list["RB coefficients"], m, "dr_ryzhenko_coeffs", RB_UNITS); values(f.list["FM coefficients"], m, "dr_marshall_franck_coeffs", FM_UNITS); values(f.list["DM coefficients"], m, "dr_dolejs_manning10_coeffs", DM_UNITS);
    });
    value(f, "log K", j, "logKr", "1"); value(f, "Cp", j, "drsm_heat_capacity_p", "J/K/mol"); value(f, "G", j, "drsm_gibbs_energy", "J/mol"); value(f, "H", j, "drsm_enthalpy", "J/mol"); value(f, "S", j, "drsm_entropy", "J/K/mol"); value(f, "V", j, "drsm_volume", "J/bar");
    return f;
}
static Fields element_of(const json& j)
{
    Fields f;
    for (auto k : {"name", "symbol"}) f.text[k] = at(j, k) ? j[k].get<std::string>() : "";
    auto one = [&](const char* n, const char* key, const char* unit) { f.number[n] = 0; if (auto p = at(j, key)) if (auto v = first(*p, "values")) f.number[n] = in_units(v->get<double>(), unit_in(*p, unit), unit); };
    one("entropy", "entropy", "J/(mol*K)"); one("heat capacity", "heat_capacity", "J/(mol*K)"); one("volume", "volume", "J/bar"); one("molar mass", "atomic_mass", "g/mol");
    auto c = at(j, "class_");
    f.number["class"] = c && c->is_object() && !c->empty() ? std::stoi(c->begin().key()) : 0;
    f.number["isotope mass"] = at(j, "isotope_mass") ? j["isotope_mass"].get<int>() : 0;
    f.number["number"] = at(j, "number") ? j["number"].get<int>() : 0;
    return f;
}

static void records(const Options& o, Cases& run)
{
    // every record that is shipped
    for (auto& p : databases(o))
    {
        if (!run("shipped records|" + base(p))) continue;
        json d = json::parse(slurp(p));
        const Database& db = load(p);
        auto props = [](const json& x) { return x.contains("properties") && !x["properties"].is_null() ? x["properties"] : x; };
        std::map<std::string, json> s, r, e; // the last of each symbol counts
        for (auto& x : d.value("substances", json::array())) s[props(x)["symbol"]] = props(x);
        for (auto& x : d.value("reactions", json::array())) r[props(x)["symbol"]] = props(x);
        for (auto& x : d.value("elements", json::array())) e[props(x)["symbol"]] = props(x);
        if (db.numberOfSubstances() != s.size() || db.numberOfReactions() != r.size() || db.numberOfElements() != e.size())
            rep().violation("number of loaded records", {{"data", base(p)}, {"expected", {s.size(), r.size(), e.size()}}, {"got", {db.numberOfSubstances(), db.numberOfReactions(), db.numberOfElements()}}});
        for (auto& x : s) if (db.containsSubstance(x.first)) { compare("file", base(p) + " " + x.first, substance_of(x.second), of(db.getSubstance(x.first))); rep().distinct(base(p) + " " + x.first); } else rep().violation("shipped record is not loaded", {{"data", base(p)}, {"substance", x.first}});
        for (auto& x : r) if (db.containsReaction(x.first)) { compare("file", base(p) + " " + x.first, reaction_record_of(x.second), of(db.getReaction(x.first))); rep().distinct(base(p) + " " + x.first); } else rep().violation("shipped record is not loaded", {{"data", base(p)}, {"reaction", x.first}});
        for (auto& x : e) if (db.containsElement(x.first)) compare("file", base(p) + " " + x.first, element_of(x.second), of(db.getElement(x.first))); else rep().violation("shipped record is not loaded", {{"data", base(p)}, {"element", x.first}});
        std::string water = d.contains("conventions") && d["conventions"].contains("water_triple_point_reference") ? d["conventions"]["water_triple_point_reference"].get<std::string>() : "";
        if (!water.empty() && db.conventions().water_triple_point_reference != water) rep().violation("recorded convention is not loaded", {{"data", base(p)}, {"expected", water}, {"got", db.conventions().water_triple_point_reference}});
    }
    for (int c = 0, n = o.thorough ? 4000 : 400; c < n; c++)
    {
        if (!run("random records|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        std::map<std::string, json> s, x, e;
        for (int i = 0, k = 1 + r.below(6); i < k; i++) { auto n = "S" + std::to_string(i); s[n] = some_substance(r, n); }
        for (int i = 0, k = r.below(5); i < k; i++) { auto n = "R" + std::to_string(i); x[n] = some_reaction(r, n); }
        for (int i = 0, k = r.below(5); i < k; i++) { auto n = "E" + std::to_string(i); e[n] = some_element(r, n); }
        auto wrap = [&](const json& j, const char* label, bool must) { json w = j; if (r.coin(0.4)) w = {{"properties", j}}; if (must || r.coin(0.2)) w["_label"] = label; return w; };
        int way = r.below(6);
        Database db;
        std::string how;
        auto file = [&](const json& j) { std::string p = o.scratch + "/db.json"; std::ofstream(p) << j.dump(r.coin() ? 1 : -1); return p; };
        auto whole = [&] {
            json d = json::object();
            for (auto& i : s) d["substances"].push_back(wrap(i.second, "substance", false));
            for (auto& i : x) d["reactions"].push_back(wrap(i.second, "reaction", false));
            for (auto& i : e) d["elements"].push_back(wrap(i.second, "element", false));
            return d;
        };
        auto flat = [&] {
            std::vector<json> v;
            for (auto& i : s) v.push_back(wrap(i.second, "substance", true));
            for (auto& i : x) v.push_back(wrap(i.second, "reaction", true));
            for (auto& i : e) v.push_back(wrap(i.second, "element", true));
            r.shuffle(v);
            return v;
        };
        auto texts = [](const std::vector<json>& v) { std::vector<std::string> t; for (auto& j : v) t.push_back(j.dump()); return t; };
        switch (way)
        {
        case 0: how = "file"; db = Database(file(whole())); break;
        case 1: how = "text"; db = Database(whole().dump()); break;
        case 2: how = "file with a list"; db = Database(file(json(flat()))); break;
        case 3: how = "list of texts"; db = Database(texts(flat()), "unknown label"); break;
        case 4: how = "appended"; if (r.coin()) db.appendData(file(whole())); else db.appendData(texts(flat()), "unknown label"); break;
        case 5: how = "added one by one";
            for (auto& i : s) { if (r.coin()) db.addSubstance(wrap(i.second, "substance", false).dump()); else db.setSubstance(i.second.dump()); }
            for (auto& i : x) { if (r.coin()) db.addReaction(wrap(i.second, "reaction", false).dump()); else db.setReaction(i.second.dump()); }
            for (auto& i : e) { if (r.coin()) db.addElement(wrap(i.second, "element", false).dump()); else db.setElement(i.second.dump()); }
            break;
        }
        rep().distinct(how + std::to_string(c));
        if (db.numberOfSubstances() != s.size() || db.numberOfReactions() != x.size() || db.numberOfElements() != e.size())
            rep().violation("number of loaded records", {{"loaded", how}, {"expected", {s.size(), x.size(), e.size()}}, {"got", {db.numberOfSubstances(), db.numberOfReactions(), db.numberOfElements()}}});
        for (auto& i : s) if (db.containsSubstance(i.first)) compare(how, i.second.dump().substr(0, 3000), substance_of(i.second), of(db.getSubstance(i.first)));
        for (auto& i : x) if (db.containsReaction(i.first)) compare(how, i.second.dump().substr(0, 3000), reaction_record_of(i.second), of(db.getReaction(i.first)));
        for (auto& i : e) if (db.containsElement(i.first)) compare(how, i.second.dump().substr(0, 3000), element_of(i.second), of(db.getElement(i.first)));
    }
}

// ------------------------------------------------------------------ P25
// The database as maps from symbols to versions of records; a version is told by its molar mass, reference T or entropy
struct Model
{
    std::map<std::string, double> s, r, e;
    std::map<std::string, int> cls; // class of elements
};
static Substance substance_v(const std::string& n, double v, const std::string& formula = "SiO2") { Substance s; s.setSymbol(n); s.setName(n); s.setFormula(formula); s.setMolarMass(v); return s; }
static Reaction reaction_v(const std::string& n, double v) { Reaction s; s.setSymbol(n); s.setName(n); s.setReferenceT(v); return s; }
static Element element_v(const std::string& n, double v) { Element e; e.setSymbol(n); e.setName(n); e.setEntropy(v); e.setMolarMass(v + 1); e.setClass(n == "Zz" ? 4 : 0); e.setIsotopeMass(0); e.setValence(1); return e; }

static void collections(const Options& o, Cases& run)
{
    static const std::vector<std::string> S{"Quartz", "H2O@", "Na+", "Cl-", "", "a b", "CO2"}, R{"R1", "R2", "H2O@", "x = y", "-"}, E{"Si", "O", "H", "Na", "Cl", "C", "Zz"};
    static const std::vector<std::string> formulas{"SiO2", "H2O@", "Na+", "Cl-", "CO3-2", "NaCl(H2O)2", "Si(OH)4", "C2H5OH@", "H4SiO4@", "(SiO2)3H|1|2"};
    for (int c = 0, n = o.thorough ? 30000 : 3000; c < n; c++)
    {
        if (!run("collections|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        struct Member { Database db; Model m; };
        std::vector<Member> all(1);
        double version = 1;
        std::string log;
        for (int k = 0, steps = 60; k < steps; k++)
        {
            size_t w = r.below(all.size());
            Database& db = all[w].db;
            Model& m = all[w].m;
            auto s = r.pick(S), x = r.pick(R), e = r.pick(E);
            double v = version++;
            log = (log.size() > 1500 ? log.substr(log.size() - 1500) : log) + " ";
            unsigned op = r.below(24);
            log += std::to_string(op) + ":" + std::to_string(w);
            rep().distinct(std::to_string(op) + (m.s.count(s) ? "s" : "-") + (m.r.count(x) ? "r" : "-") + (m.e.count(e) ? "e" : "-") + std::to_string(all.size()) + std::to_string(std::min<size_t>(m.s.size(), 5)));
            switch (op)
            {
            case 0: db.addSubstance(substance_v(s, v)); m.s.insert({s, v}); break;
            case 1: db.setSubstance(substance_v(s, v)); m.s[s] = v; break;
            case 2: db.addReaction(reaction_v(x, v)); m.r.insert({x, v}); break;
            case 3: db.setReaction(reaction_v(x, v)); m.r[x] = v; break;
            case 4: db.addElement(element_v(e, v)); m.e.insert({e, v}); break;
            case 5: db.setElement(element_v(e, v)); m.e[e] = v; break;
            case 6: case 7: { SubstancesMap q; for (int i = 0; i < 3; i++) { auto z = r.pick(S); q[z] = substance_v(z, v + i * 0.25); }
                if (op == 6) { db.addMapSubstances(q); for (auto& z : q) m.s.insert({z.first, z.second.molarMass()}); } else { db.setMapSubstances(q); for (auto& z : q) m.s[z.first] = z.second.molarMass(); } } break;
            case 8: case 9: { ReactionsMap q; for (int i = 0; i < 3; i++) { auto z = r.pick(R); q[z] = reaction_v(z, v + i * 0.25); }
                if (op == 8) { db.addMapReactions(q); for (auto& z : q) m.r.insert({z.first, z.second.referenceT()}); } else { db.setMapReactions(q); for (auto& z : q) m.r[z.first] = z.second.referenceT(); } } break;
            case 10: case 11: { ElementsMap q; for (int i = 0; i < 3; i++) { auto z = r.pick(E); q[z] = element_v(z, v + i * 0.25); }
                if (op == 10) { db.addMapElements(q); for (auto& z : q) m.e.insert({z.first, z.second.entropy()}); } else { db.setMapElements(q); for (auto& z : q) m.e[z.first] = z.second.entropy(); } } break;
            case 12: { // appended data replace
                json d;
                for (int i = 0; i < 2; i++) { auto z = r.pick(S); d["substances"].push_back({{"symbol", z}, {"formula", "SiO2"}, {"mass_per_mole", {{"values", {v + i * 0.5}}}}}); m.s[z] = v + i * 0.5; }
                { auto z = r.pick(R); d["reactions"].push_back({{"symbol", z}, {"Tst", v}}); m.r[z] = v; }
                { auto z = r.pick(E); d["elements"].push_back({{"symbol", z}, {"class_", {{z == "Zz" ? "4" : "0", ""}}}, {"entropy", {{"values", {v}}}}}); m.e[z] = v; }
                if (r.coin()) db.appendData(d.dump());
                else { std::vector<std::string> t; for (auto& z : d["substances"]) { z["_label"] = "substance"; t.push_back(z.dump()); } db.appendData(t, "x"); t.clear(); for (auto& z : d["elements"]) t.push_back(z.dump()); db.appendData(t, "element"); t.clear(); for (auto& z : d["reactions"]) t.push_back(z.dump()); db.appendData(t, "reaction"); }
            } break;
            case 13: { auto& q = db.substance(s); if (!m.s.count(s)) { m.s[s] = 0; if (q.symbol() != s) rep().violation("a record made by looking it up", {{"substance", s}, {"got", q.symbol()}}); } if (r.coin()) { q.setMolarMass(v); m.s[s] = v; } } break;
            case 14: { auto& q = db.reaction(x); if (!m.r.count(x)) m.r[x] = 298.15; if (r.coin()) { q.setReferenceT(v); m.r[x] = v; } } break;
            case 15: { if (m.e.count(e)) { auto& q = db.element(e); if (q.symbol() != e) rep().violation("element found under a symbol", {{"element", e}, {"got", q.symbol()}}); } } break;
            case 16: if (all.size() < 4) { Member z = all[w]; all.push_back(z); } break;
            case 17: if (all.size() > 1) { size_t y = r.below(all.size()); Member z = all[y]; all[w].db = z.db; all[w].m = z.m; } break;
            case 18: if (all.size() > 1) all.erase(all.begin() + w); break;
            default: break; // only look
            }
            // look at one of them
            Member& l = r.pick(all);
            const Database& d = l.db;
            const Model& q = l.m;
            rep().eval("states of collections compared");
            auto bad = [&](const char* what, json detail) { detail["history"] = log; rep().violation(what, detail); };
            auto keys = [](auto& m) { std::vector<std::string> v; for (auto& i : m) v.push_back(i.first); return v; };
            if (d.getSubstancesList() != keys(q.s) || d.getReactionsList() != keys(q.r) || d.getElementsList() != keys(q.e)) bad("lists of symbols", {{"expected", {keys(q.s), keys(q.r), keys(q.e)}}, {"got", {d.getSubstancesList(), d.getReactionsList(), d.getElementsList()}}});
            if (d.numberOfSubstances() != q.s.size() || d.numberOfReactions() != q.r.size() || d.numberOfElements() != q.e.size()) bad("numbers of records", {});
            if (keys(d.mapSubstances()) != keys(q.s) || keys(d.mapReactions()) != keys(q.r) || keys(d.mapElements()) != keys(q.e)) bad("maps of records", {});
            auto vs = d.getSubstances(); auto vr = d.getReactions(); auto ve = d.getElements();
            if (vs.size() != q.s.size() || vr.size() != q.r.size() || ve.size() != q.e.size()) bad("vectors of records", {});
            else
            {
                size_t i = 0; for (auto& z : q.s) { if (vs[i].symbol() != z.first || vs[i].molarMass() != z.second) bad("record in a vector", {{"substance", z.first}, {"got", vs[i].symbol()}}); i++; }
                i = 0; for (auto& z : q.r) { if (vr[i].symbol() != z.first || vr[i].referenceT() != z.second) bad("record in a vector", {{"reaction", z.first}}); i++; }
                i = 0; for (auto& z : q.e) { if (ve[i].symbol() != z.first || ve[i].entropy() != z.second) bad("record in a vector", {{"element", z.first}}); i++; }
            }
            auto lookup = [&](const char* kind, const std::string& n, bool has, bool contains, auto get, double want) {
                bool threw = false; double got = 0; std::string sym;
                try { auto z = get(); got = z.first; sym = z.second; } catch (const std::exception&) { threw = true; }
                if (contains != has || threw == has) bad("lookup of a record", {{"kind", kind}, {"symbol", n}, {"contained", has}, {"contains", contains}, {"threw", threw}});
                else if (has && (got != want || sym != n)) bad("wrong version of a record", {{"kind", kind}, {"symbol", n}, {"expected", want}, {"got", got}, {"symbol found", sym}});
                rep().count(has ? "records looked up" : "missing records looked up");
            };
            for (auto& z : S) lookup("substance", z, q.s.count(z), d.containsSubstance(z), [&] { auto& y = d.getSubstance(z); return std::pair(y.molarMass(), y.symbol()); }, q.s.count(z) ? q.s.at(z) : 0);
            for (auto& z : R) lookup("reaction", z, q.r.count(z), d.containsReaction(z), [&] { auto& y = d.getReaction(z); return std::pair(y.referenceT(), y.symbol()); }, q.r.count(z) ? q.r.at(z) : 0);
            for (auto& z : E) lookup("element", z, q.e.count(z), d.containsElement(z), [&] { auto& y = d.getElement(z); return std::pair(y.entropy(), y.symbol()); }, q.e.count(z) ? q.e.at(z) : 0);
            // formulas use the elements of the database
            auto& f = r.pick(formulas);
            ChemicalFun::FormulaToken token(f);
            bool known = true, plain = true; double ent = 0;
            for (auto& t : token.getStoichCoefficients()) { if (!q.e.count(t.first.Symbol())) known = false; else ent += t.second * q.e.at(t.first.Symbol()); }
            std::map<Element, double> pf; double es = 0; bool threwp = false, threwe = false;
            try { pf = d.parseSubstanceFormula(f); } catch (const std::exception&) { threwp = true; }
            try { es = d.elementalEntropyFormula(f); } catch (const std::exception&) { threwe = true; }
            (void)plain;
            rep().eval("formulas");
            if (threwp == known || threwe == known) bad("formula with unknown or known elements", {{"formula", f}, {"known", known}, {"parse failed", threwp}, {"entropy failed", threwe}});
            else if (known)
            {
                if (!close(es, ent, 1e-12, 1e-12)) bad("elemental entropy of a formula", {{"formula", f}, {"expected", ent}, {"got", es}});
                std::map<std::string, double> a, b;
                for (auto& t : token.getStoichCoefficients()) a[t.first.Symbol()] = t.second;
                for (auto& t : pf) { b[t.first.symbol()] = t.second; if (t.first.entropy() != q.e.at(t.first.symbol())) bad("element in a parsed formula", {{"formula", f}, {"element", t.first.symbol()}}); }
                if (a != b) bad("elements of a formula", {{"formula", f}, {"expected", a}, {"got", b}});
            }
        }
    }
    // ordering of elements is a strict weak order, and only equal elements are equivalent
    for (int c = 0, n = o.thorough ? 200 : 20; c < n; c++)
    {
        if (!run("order of elements|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        auto rnd = [&] { Element e; e.setSymbol(r.coin() ? "H" : "O"); e.setName(r.coin() ? "H" : "x"); e.setClass(r.below(2)); e.setIsotopeMass(r.below(3)); e.setValence(r.below(3)); return e; };
        auto rns = [&] { Substance s; s.setSymbol(r.coin() ? "a" : "b"); s.setName(r.coin() ? "a" : "b"); s.setFormula(r.coin() ? "a" : "b"); s.setSubstanceClass(SubstanceClass::type(r.below(2))); s.setAggregateState(AggregateState::type(r.below(2))); return s; };
        auto order = [&](const char* kind, auto make) {
            for (int k = 0; k < 2000; k++)
            {
                auto a = make(), b = make(), z = make();
                rep().eval("orderings");
                if ((a < b && b < a) || (a < a)) rep().violation("order of records is not antisymmetric", {{"kind", kind}, {"a", str(a)}, {"b", str(b)}});
                if (a < b && b < z && !(a < z)) rep().violation("order of records is not transitive", {{"kind", kind}, {"a", str(a)}, {"b", str(b)}, {"c", str(z)}});
            }
        };
        order("element", rnd);
        order("substance", rns);
    }
}

// ------------------------------------------------------------------ P06
// Records as values: families of copies, each member with the fields it should have
template <class T>
static void family(const char* kind, Rng& r, int steps, const std::vector<std::pair<std::string, std::function<void(T&, Fields&, double)>>>& changes, std::function<Fields(const T&)> fields)
{
    struct Member { std::unique_ptr<T> x; Fields f; };
    std::vector<Member> all;
    all.push_back({std::make_unique<T>(), fields(T())});
    std::string log;
    for (int k = 0; k < steps; k++)
    {
        size_t w = r.below(all.size()), y = r.below(all.size());
        double v = 1 + r.below(100000) / 4.0;
        unsigned op = r.below(12);
        std::string did;
        switch (op)
        {
        case 0: if (all.size() < 5) all.push_back({std::make_unique<T>(*all[w].x), all[w].f}); did = "copied"; break;
        case 1: *all[w].x = *all[y].x; all[w].f = all[y].f; did = w == y ? "assigned to itself" : "assigned"; break;
        case 2: if (all.size() > 1) all.erase(all.begin() + w); did = "destroyed"; break;
        case 3: { T t(*all[w].x); Fields f = all[w].f; auto& c = r.pick(changes); c.second(t, f, v); did = "temporary changed: " + c.first; } break;
        case 4: { auto by_value = [&](T t) { Fields f = all[w].f; auto& c = r.pick(changes); c.second(t, f, v); return t; }; T t = by_value(*all[w].x); did = "passed by value"; } break;
        case 5: { std::vector<T> q(3, *all[w].x); q.push_back(*all[y].x); std::map<std::string, T> m; m["a"] = q[0]; m["b"] = q[3]; Fields f = all[w].f; auto& c = r.pick(changes); c.second(m["a"], f, v); c.second(q[1], f, v); *all[y].x = q[3]; did = "held in collections, one changed"; } break;
        case 6: { T t(*all[w].x); *all[w].x = std::move(t); did = "moved"; } break;
        case 7: { std::swap(*all[w].x, *all[y].x); std::swap(all[w].f, all[y].f); did = "swapped"; } break;
        default: { auto& c = r.pick(changes); c.second(*all[w].x, all[w].f, v); did = "changed: " + c.first; }
        }
        rep().distinct(std::string(kind) + did + std::to_string(all.size()));
        log = (log.size() > 800 ? log.substr(log.size() - 800) : log) + " " + did + "/" + std::to_string(w);
        for (auto& m : all)
        {
            Fields g = fields(*m.x);
            rep().eval("records compared with their own history");
            auto same = [](double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; };
            bool ok = g.text == m.f.text && g.list == m.f.list;
            std::string field;
            for (auto& n : m.f.number) if (!same(n.second, g.number[n.first])) { ok = false; field = n.first; }
            for (auto& n : m.f.text) if (n.second != g.text[n.first]) field = n.first;
            for (auto& n : m.f.list) if (n.second != g.list[n.first]) field = n.first;
            if (!ok) { rep().violation(std::string("a ") + kind + " changed with one of its copies, or lost its own changes", {{"field", field}, {"did", did}, {"history", log}}); return; }
        }
    }
}

static void values_of_records(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 4000 : 400; c < n; c++)
    {
        if (!run("copies of records|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        using E = std::pair<std::string, std::function<void(Element&, Fields&, double)>>;
        auto text = [](double v) { return "t" + std::to_string(int(v)); };
        std::vector<E> es{
            {"name", [&](Element& e, Fields& f, double v) { e.setName(text(v)); f.text["name"] = text(v); }},
            {"symbol", [&](Element& e, Fields& f, double v) { e.setSymbol(text(v)); f.text["symbol"] = text(v); }},
            {"entropy", [](Element& e, Fields& f, double v) { e.setEntropy(v); f.number["entropy"] = v; }},
            {"heat capacity", [](Element& e, Fields& f, double v) { e.setHeatCapacity(v); f.number["heat capacity"] = v; }},
            {"volume", [](Element& e, Fields& f, double v) { e.setVolume(v); f.number["volume"] = v; }},
            {"molar mass", [](Element& e, Fields& f, double v) { e.setMolarMass(v); f.number["molar mass"] = v; }},
            {"class", [](Element& e, Fields& f, double v) { e.setClass(int(v)); f.number["class"] = int(v); }},
            {"isotope mass", [](Element& e, Fields& f, double v) { e.setIsotopeMass(int(v)); f.number["isotope mass"] = int(v); }},
            {"number", [](Element& e, Fields& f, double v) { e.setNumber(int(v)); f.number["number"] = int(v); }},
            {"valence", [](Element& e, Fields& f, double v) { e.setValence(int(v)); f.number["valence"] = int(v); }},
            {"JSON", [&](Element& e, Fields& f, double v) { e.setJsonString(text(v)); f.text["JSON"] = text(v); }}};
        family<Element>("element", r, 120, es, [](const Element& e) { Fields f = of(e); f.number["valence"] = e.valence(); f.text["JSON"] = e.jsonString(); return f; });

        using S = std::pair<std::string, std::function<void(Substance&, Fields&, double)>>;
        auto number = [](const char* n, auto set) { return S{n, [n, set](Substance& s, Fields& f, double v) { set(s, v); f.number[n] = v; }}; };
        std::vector<S> ss{
            {"name", [&](Substance& e, Fields& f, double v) { e.setName(text(v)); f.text["name"] = text(v); }},
            {"symbol", [&](Substance& e, Fields& f, double v) { e.setSymbol(text(v)); f.text["symbol"] = text(v); }},
            {"formula", [&](Substance& e, Fields& f, double v) { e.setFormula(text(v)); f.text["formula"] = text(v); }},
            {"reaction", [&](Substance& e, Fields& f, double v) { e.setReactionSymbol(text(v)); f.text["reaction"] = text(v); }},
            {"JSON", [&](Substance& e, Fields& f, double v) { e.setJsonString(text(v)); f.text["JSON"] = text(v); }},
            number("molar mass", [](Substance& s, double v) { s.setMolarMass(v); }), number("lower T", [](Substance& s, double v) { s.setLowerT(v); }), number("upper T", [](Substance& s, double v) { s.setUpperT(v); }),
            number("lower P", [](Substance& s, double v) { s.setLowerP(v); }), number("upper P", [](Substance& s, double v) { s.setUpperP(v); }), number("reference T", [](Substance& s, double v) { s.setReferenceT(v); }), number("reference P", [](Substance& s, double v) { s.setReferenceP(v); }),
            {"charge", [](Substance& s, Fields& f, double v) { s.setCharge(int(v)); f.number["charge"] = int(v); }},
            {"methods", [](Substance& s, Fields& f, double v) { auto g = int(v) % 2 ? MethodGenEoS_Thrift::CTPM_HKF : MethodGenEoS_Thrift::CTPM_CPT; auto t = int(v) % 3 ? MethodCorrT_Thrift::CTM_CHP : MethodCorrT_Thrift::CTM_CST; auto p = int(v) % 3 ? MethodCorrP_Thrift::CPM_CON : MethodCorrP_Thrift::CPM_GAS;
                s.setMethodGenEoS(g); s.setMethod_T(t); s.setMethod_P(p); f.number["general method"] = g; f.number["method of T"] = t; f.number["method of P"] = p; }},
            {"states", [](Substance& s, Fields& f, double v) { auto a = int(v) % 2 ? AggregateState::GAS : AggregateState::CRYSTAL; auto c = int(v) % 3 ? SubstanceClass::COMPONENT : SubstanceClass::AQSOLVENT; auto t = int(v) % 5 ? SubstanceThermoCalculationType::DCOMP : SubstanceThermoCalculationType::REACDC;
                s.setAggregateState(a); s.setSubstanceClass(c); s.setThermoCalculationType(t); f.number["aggregate state"] = a; f.number["class"] = c; f.number["defined by reaction"] = t == SubstanceThermoCalculationType::REACDC; }},
            {"reference properties", [](Substance& s, Fields& f, double v) { auto x = s.thermoReferenceProperties(); x.gibbs_energy = v; x.entropy = v + 1; x.volume = v + 2; x.heat_capacity_cp = v + 3; x.enthalpy = v + 4; s.setThermoReferenceProperties(x);
                scalar(f, "G", x.gibbs_energy); scalar(f, "S", x.entropy); scalar(f, "V", x.volume); scalar(f, "Cp", x.heat_capacity_cp); scalar(f, "H", x.enthalpy); }},
            {"parameters", [](Substance& s, Fields& f, double v) { auto p = s.thermoParameters(); p.isobaric_expansivity = v; p.temperature_intervals.push_back({v, v + 1}); if (p.temperature_intervals.size() > 3) p.temperature_intervals.clear(); p.HKF_parameters = {v, v + 1}; p.Cp_nonElectrolyte_coeff = {v + 2};
                s.setThermoParameters(p); f.number["expansivity"] = v; lists(f, "temperature intervals", p.temperature_intervals); f.list["HKF coefficients"] = {v, v + 1}; f.list["AD coefficients"] = {v + 2}; }}};
        family<Substance>("substance", r, 120, ss, [](const Substance& s) { Fields f = of(s); f.text["JSON"] = s.jsonString(); return f; });

        using X = std::pair<std::string, std::function<void(Reaction&, Fields&, double)>>;
        auto numr = [](const char* n, auto set) { return X{n, [n, set](Reaction& s, Fields& f, double v) { set(s, v); f.number[n] = v; }}; };
        std::vector<X> rs{
            {"name", [&](Reaction& e, Fields& f, double v) { e.setName(text(v)); f.text["name"] = text(v); }},
            {"symbol", [&](Reaction& e, Fields& f, double v) { e.setSymbol(text(v)); f.text["symbol"] = text(v); }},
            {"equation", [&](Reaction& e, Fields& f, double v) { e.setEquation(text(v)); f.text["equation"] = text(v); }},
            {"JSON", [&](Reaction& e, Fields& f, double v) { e.setJsonString(text(v)); f.text["JSON"] = text(v); }},
            {"reactants", [&](Reaction& e, Fields& f, double v) { std::map<std::string, double> m{{"a", v}, {text(v), -1}}; e.setReactants(m); f.text["reactants"] = json(m).dump(); }},
            numr("lower T", [](Reaction& s, double v) { s.setLowerT(v); }), numr("upper T", [](Reaction& s, double v) { s.setUpperT(v); }), numr("lower P", [](Reaction& s, double v) { s.setLowerP(v); }), numr("upper P", [](Reaction& s, double v) { s.setUpperP(v); }),
            numr("reference T", [](Reaction& s, double v) { s.setReferenceT(v); }), numr("reference P", [](Reaction& s, double v) { s.setReferenceP(v); }),
            {"methods", [](Reaction& s, Fields& f, double v) { auto g = int(v) % 2 ? MethodGenEoS_Thrift::CTPM_REA : MethodGenEoS_Thrift::CTPM_CPT; auto t = int(v) % 3 ? MethodCorrT_Thrift::CTM_LGX : MethodCorrT_Thrift::CTM_LGK; auto p = int(v) % 3 ? MethodCorrP_Thrift::CPM_CON : MethodCorrP_Thrift::CPM_VBE;
                s.setMethodGenEoS(g); s.setMethod_T(t); s.setMethod_P(p); f.number["general method"] = g; f.number["method of T"] = t; f.number["method of P"] = p; }},
            {"reference properties", [](Reaction& s, Fields& f, double v) { auto x = s.thermoReferenceProperties(); x.log_equilibrium_constant = v; x.reaction_gibbs_energy = v + 1; x.reaction_entropy = v + 2; s.setThermoReferenceProperties(x); scalar(f, "log K", x.log_equilibrium_constant); scalar(f, "G", x.reaction_gibbs_energy); scalar(f, "S", x.reaction_entropy); }},
            {"parameters", [](Reaction& s, Fields& f, double v) { auto p = s.thermoParameters(); p.reaction_logK_fT_coeff = {v, v + 1}; p.reaction_FM_coeff = {v + 2}; s.setThermoParameters(p); f.list["log K coefficients"] = {v, v + 1}; f.list["FM coefficients"] = {v + 2}; }}};
        family<Reaction>("reaction", r, 120, rs, [](const Reaction& s) { Fields f = of(s); f.text["JSON"] = s.jsonString(); return f; });
    }
}

int main(int c, char** v)
{
    auto o = parse(c, v);
    Cases run(o);
    std::string mode = o.rest.empty() ? "" : o.rest[0];
    if (mode == "records") records(o, run);
    else if (mode == "collections") collections(o, run);
    else if (mode == "values") values_of_records(o, run);
    else return 98;
    rep().summary();
}
