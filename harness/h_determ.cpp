// P03: images of everything the library answers, to be compared between processes whose fresh
// memory is filled differently and that do the same work in another order.
#include "pool.h"
using namespace vf;

namespace {
FILE* out = nullptr;
uint64_t fnv(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
// one line for each answer: what was asked, and a hash of what can be seen of the answer
void record(const std::string& key, const std::string& image)
{
    std::string k = key;
    for (auto& c : k) if (c == '\n' || c == '\t') c = ' ';
    fprintf(out, "%s\t%016" PRIx64 "\n", k.c_str(), fnv(image));
    rep().eval("answers");
}
void raw(std::string& o, double d) { if (std::isnan(d)) d = std::bit_cast<double>(0x7ff8000000000000ull); o.append(reinterpret_cast<const char*>(&d), 8); }
void raw(std::string& o, int i) { o += std::to_string(i) + ";"; }
void raw(std::string& o, const vd& v) { o += std::to_string(v.size()) + ":"; for (double d : v) raw(o, d); }
void raw(std::string& o, const vvd& v) { o += std::to_string(v.size()) + "::"; for (auto& d : v) raw(o, d); }
void raw(std::string& o, const std::string& s) { o += s; o += '\0'; }

std::string fields(const Substance& s)
{
    std::string o;
    for (auto& x : {s.name(), s.symbol(), s.formula(), s.reactionSymbol(), s.jsonString()}) raw(o, x);
    for (double x : {s.molarMass(), s.referenceT(), s.referenceP(), s.lowerT(), s.lowerP(), s.upperT(), s.upperP()}) raw(o, x);
    for (int x : {int(s.methodGenEOS()), int(s.method_T()), int(s.method_P()), int(s.substanceClass()), int(s.thermoCalculationType()), int(s.aggregateState()), s.charge()}) raw(o, x);
    o += image(s.thermoProperties()) + image(s.thermoReferenceProperties());
    auto p = s.thermoParameters();
    raw(o, p.isothermal_compresibility); raw(o, p.isobaric_expansivity);
    for (auto& v : {p.temperature_intervals, p.pressure_intervals, p.Cp_coeff, p.phase_transition_prop, p.phase_transition_prop_Berman}) raw(o, v);
    for (auto& v : {p.Cp_nonElectrolyte_coeff, p.m_landau_phase_trans_props, p.HKF_parameters, p.volume_coeff, p.critical_parameters, p.volume_BirchM_coeff, p.empirical_coeff, p.solute_holland_powell98_coeff}) raw(o, v);
    std::ostringstream t; t << s;
    return o + t.str();
}
std::string fields(const Reaction& s)
{
    std::string o;
    for (auto& x : {s.name(), s.symbol(), s.equation(), s.jsonString()}) raw(o, x);
    for (auto& x : s.reactants()) { raw(o, x.first); raw(o, x.second); }
    for (double x : {s.referenceT(), s.referenceP(), s.lowerT(), s.lowerP(), s.upperT(), s.upperP()}) raw(o, x);
    for (int x : {int(s.methodGenEOS()), int(s.method_T()), int(s.method_P())}) raw(o, x);
    o += image(s.thermoReferenceProperties());
    auto p = s.thermoParameters();
    for (auto& v : {p.temperature_intervals, p.pressure_intervals}) raw(o, v);
    for (auto& v : {p.reaction_logK_fT_coeff, p.logK_TP_array, p.reaction_Cp_fT_coeff, p.reaction_V_fT_coeff, p.reaction_RB_coeff, p.reaction_FM_coeff, p.reaction_DM10_coeff}) raw(o, v);
    Reaction t = s;
    raw(o, t.calc_logK_fT_coefficients());
    std::ostringstream x; x << s;
    return o + x.str();
}
std::string fields(const Element& s)
{
    std::string o;
    for (auto& x : {s.name(), s.symbol(), s.jsonString()}) raw(o, x);
    for (double x : {s.molarMass(), s.entropy(), s.heatCapacity(), s.volume()}) raw(o, x);
    for (int x : {s.valence(), s.class_(), s.isotopeMass(), s.number()}) raw(o, x);
    std::ostringstream t; t << s;
    return o + t.str();
}

// takes away up to n of the values of a record
void lose(json& j, Rng& r, int n)
{
    for (; n > 0; n--)
    {
        json* p = &j;
        while (p->is_structured() && !p->empty())
        {
            bool deeper = r.coin(0.5);
            auto it = p->begin(); std::advance(it, r.below(p->size()));
            if (deeper && it->is_structured() && !it->empty()) { p = &*it; continue; }
            if (p->is_object()) { std::string k = it.key(); if (k != "symbol") p->erase(k); } else p->erase(it);
            break;
        }
    }
}
std::string lose(vd& v, Rng& r) { if (r.coin(0.3)) v.clear(); else if (!v.empty()) v.resize(r.below(v.size())); return ""; }
void lose(ThermoParametersSubstance& p, Rng& r)
{
    for (auto* v : {&p.Cp_nonElectrolyte_coeff, &p.m_landau_phase_trans_props, &p.HKF_parameters, &p.volume_coeff, &p.critical_parameters, &p.volume_BirchM_coeff, &p.solute_holland_powell98_coeff}) if (r.coin(0.3)) lose(*v, r);
    for (auto* v : {&p.Cp_coeff, &p.temperature_intervals, &p.phase_transition_prop}) { if (r.coin(0.2) && !v->empty()) lose(v->back(), r); if (r.coin(0.05)) v->clear(); }
}
void lose(ThermoPropertiesSubstance& p, Rng& r)
{
    for (auto& x : substance_props()) if (r.coin(0.15)) p.*x.p = Scalar();
}

struct Work { std::string key; std::function<std::string()> f; };
// does the pieces of work in this or the other order
void run(std::vector<Work>& w, bool backwards)
{
    if (backwards) std::reverse(w.begin(), w.end());
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& x : w)
    {
        std::string im;
        try { im = x.f(); } catch (const std::exception&) { im = "E"; }
        r.push_back({x.key, im});
    }
    if (backwards) std::reverse(r.begin(), r.end());
    for (auto& x : r) record(x.first, x.second);
}

std::string batch_text(const SmallDb& d, Rng& r, const Options& o)
{
    ThermoFun::ThermoBatch b(d.db);
    if (!d.waters.empty()) b.setSolventSymbol(d.waters[r.below(d.waters.size())]);
    std::vector<std::string> subs(d.substances.begin(), d.substances.begin() + std::min<size_t>(3, d.substances.size()));
    std::string f = o.scratch + "/b.csv";
    b.thermoPropertiesSubstance({298.15, 350, 425.5}, {1e7, 5e7}, subs, {"gibbs_energy", "entropy", "volume", "heat_capacity_cp"}).toCSV(f);
    std::string s = slurp(f);
    if (!d.reactions.empty())
    {
        b.thermoPropertiesReaction({298.15, 350, 425.5}, {1e7, 5e7}, {d.reactions[0]}, {"logKr", "reaction_gibbs_energy"}).toCSV(f);
        s += slurp(f);
    }
    fs::remove(f);
    return s;
}
} // namespace

int main(int argc, char** argv)
{
    auto o = parse(argc, argv);
    Cases cases(o);
    bool backwards = !o.rest.empty() && o.rest[0] == "backwards";
    out = fopen(o.images.empty() ? "/dev/null" : o.images.c_str(), "a");
    if (!out) return 97;
    auto dbs = databases(o);
    std::sort(dbs.begin(), dbs.end(), [](auto& a, auto& b) { return fs::file_size(a) > fs::file_size(b); });
    while (dbs.size() % 8) dbs.push_back(dbs[dbs.size() % 8]);
    const size_t rounds = o.thorough ? 150 : 8;
    std::map<std::string, json> files;
    for (size_t n = 0; n < dbs.size() * rounds; n++)
    {
        size_t block = n / (8 * rounds), j = n % 8;
        auto& path = dbs[block % 2 ? block * 8 + 7 - j : block * 8 + j];
        if (!cases("records " + base(path))) continue;
        Rng& r = cases.rng;
        if (!files.count(path)) { std::ifstream f(path); files[path] = json::parse(f); }
        json& doc = files[path];
        std::vector<Work> w;
        std::string at = std::to_string(rep().case_index) + " " + base(path) + " ";
        for (auto kind : {"elements", "substances", "reactions"})
        {
            if (!doc.contains(kind) || doc[kind].empty()) continue;
            for (int i = 0; i < 12; i++)
            {
                auto x = std::make_shared<json>(doc[kind][r.below(doc[kind].size())]);
                int lost = r.below(5);
                lose(*x, r, lost);
                std::string key = at + std::to_string(i) + " fields of " + x->value("symbol", std::string("?")) + " without " + std::to_string(lost);
                rep().distinct(base(path) + x->value("symbol", std::string("?")) + std::to_string(lost));
                std::string k = kind;
                w.push_back({key, [x, k] {
                    std::string t = x->dump();
                    return k == "elements" ? fields(Element(t)) : k == "substances" ? fields(Substance(t)) : fields(Reaction(t)); }});
            }
        }
        auto d = std::make_shared<SmallDb>(small_db(path, r, 14, 5));
        auto e = std::make_shared<TF>(d->db);
        if (!d->waters.empty()) e->setSolventSymbol(r.pick(d->waters));
        for (int i = 0; i < 45; i++)
        {
            Q q = some_query(r, *d);
            w.push_back({at + "q" + std::to_string(i) + " " + q.text(), [q, e] { return ask(*e, q).image; }});
            rep().distinct(base(path) + " " + kind_name(q.kind) + q.sym);
        }
        uint64_t s = r.next();
        w.push_back({at + "batch", [d, s, &o] { Rng q(s); return batch_text(*d, q, o); }});
        cases.doing("records " + base(path));
        run(w, backwards);
    }
    // every model, complete and not
    auto specs = model_specs();
    auto waters = water_kinds();
    for (size_t k = 0; k < (o.thorough ? 2500 : 160); k++)
    {
        if (!cases("models")) continue;
        Rng& r = cases.rng;
        auto& wk = r.pick(waters);
        auto d = std::make_shared<SmallDb>(model_small(wk.eos, wk.diel));
        std::vector<Work> w;
        std::string at = std::to_string(rep().case_index) + " " + wk.symbol + " ";
        bool whole = r.coin(0.4);
        if (!whole)
            for (auto& s : specs)
            {
                auto x = d->db.getSubstance(s.symbol);
                auto p = x.thermoParameters(); lose(p, r); x.setThermoParameters(p);
                auto q = x.thermoReferenceProperties(); lose(q, r); x.setThermoReferenceProperties(q);
                d->db.setSubstance(x);
            }
        auto e = std::make_shared<TF>(d->db);
        e->setSolventSymbol("H2O@");
        double T = some_T(r), P = some_P(r);
        for (int i = 0; i < 40; i++)
        {
            Q q = some_query(r, *d);
            if (r.coin(0.7)) q.T = T, q.P = P;
            w.push_back({at + "q" + std::to_string(i) + " " + q.text(), [q, e] { return ask(*e, q).image; }});
            rep().distinct(std::string(whole ? "whole " : "incomplete ") + wk.symbol + kind_name(q.kind) + q.sym);
        }
        run(w, backwards);
    }
    fclose(out);
    rep().summary();
    return 0;
}
