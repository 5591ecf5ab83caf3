// Batch calculations: every result is the engine's answer at the converted state (mode results),
// and the files show the results, states and units faithfully (mode files).
#include "judge.h"
#include "pool.h"
#include "Batch/ThermoBatch.h"
#include "Common/OutputToCSV.h"
#include "Common/Units.hpp"
#include <filesystem>
#include <fstream>
using namespace vf;
using ThermoFun::ThermoBatch;
using ThermoFun::BatchPreferences;
namespace fs = std::filesystem;
using vstr = std::vector<std::string>;
using vvd = std::vector<std::vector<double>>;

struct UnitDef { const char* name; double factor, shift; }; // value in default unit = factor * (x + shift)
static const std::vector<UnitDef> unitsT{{"K", 1, 0}, {"degC", 1, 273.15}, {"degF", 1 / 1.8, 459.67}};
static const std::vector<UnitDef> unitsP{{"Pa", 1, 0}, {"bar", 1e5, 0}, {"kbar", 1e8, 0}, {"MPa", 1e6, 0}, {"atm", 101325, 0}};
static const std::vector<UnitDef> unitsE{{"J/mol", 1, 0}, {"kJ/mol", 1e3, 0}, {"cal/mol", 4.184, 0}, {"kcal/mol", 4184, 0}};
static const std::vector<UnitDef> unitsS{{"J/K/mol", 1, 0}, {"cal/K/mol", 4.184, 0}, {"kJ/K/mol", 1e3, 0}};
static const std::vector<UnitDef> unitsV{{"J/bar", 1, 0}, {"cm3", 0.1, 0}, {"m3", 1e5, 0}, {"cal/bar", 4.184, 0}};
static const std::vector<UnitDef> units1{{"1", 1, 0}};

static const std::vector<UnitDef>& units_of(const std::string& p)
{
    if (p == "temperature") return unitsT;
    if (p == "pressure") return unitsP;
    if (p.find("K") != std::string::npos && p[0] == 'l') return units1;
    if (p.find("energy") != std::string::npos || p.find("enthalpy") != std::string::npos) return unitsE;
    if (p.find("volume") != std::string::npos) return unitsV;
    return unitsS;
}
static const vstr substance_names{"gibbs_energy", "enthalpy", "entropy", "heat_capacity_cp", "heat_capacity_cv", "volume", "helmholtz_energy", "internal_energy"};
static const vstr reaction_names{"reaction_gibbs_energy", "reaction_helmholtz_energy", "reaction_internal_energy", "reaction_enthalpy", "reaction_entropy", "reaction_volume",
                                 "reaction_heat_capacity_cp", "reaction_heat_capacity_cv", "logKr", "lnKr"};
static const Scalar& of(const ThermoPropertiesSubstance& t, const std::string& n)
{
    using T = ThermoPropertiesSubstance;
    static const std::map<std::string, Scalar T::*> m{{"gibbs_energy", &T::gibbs_energy}, {"enthalpy", &T::enthalpy}, {"entropy", &T::entropy}, {"heat_capacity_cp", &T::heat_capacity_cp},
        {"heat_capacity_cv", &T::heat_capacity_cv}, {"volume", &T::volume}, {"helmholtz_energy", &T::helmholtz_energy}, {"internal_energy", &T::internal_energy}};
    return t.*m.at(n);
}
static const Scalar& of(const ThermoPropertiesReaction& t, const std::string& n)
{
    using T = ThermoPropertiesReaction;
    static const std::map<std::string, Scalar T::*> m{{"reaction_gibbs_energy", &T::reaction_gibbs_energy}, {"reaction_helmholtz_energy", &T::reaction_helmholtz_energy}, {"reaction_internal_energy", &T::reaction_internal_energy},
        {"reaction_enthalpy", &T::reaction_enthalpy}, {"reaction_entropy", &T::reaction_entropy}, {"reaction_volume", &T::reaction_volume}, {"reaction_heat_capacity_cp", &T::reaction_heat_capacity_cp},
        {"reaction_heat_capacity_cv", &T::reaction_heat_capacity_cv}, {"logKr", &T::log_equilibrium_constant}, {"lnKr", &T::ln_equilibrium_constant}};
    return t.*m.at(n);
}

struct Cell { Scalar v; };
// What a batch call has to deliver
struct Expected
{
    bool error = false;
    std::string text;
    vvd pairs;                                  // in the units of the user
    std::vector<double> P;                      // pressure of the results (the saturation pressure for 0)
    vstr symbols, props;
    std::vector<std::vector<std::vector<Scalar>>> v; // symbol, pair, property
};
struct Settings
{
    std::map<std::string, const UnitDef*> unit;
    std::map<std::string, int> digits;
    BatchPreferences pref;
};

// the very number the batch gets, as some models answer from the record at exactly Tr and Pr
static double convert(const UnitDef& u, double x, const char* to)
{
    double y = units::convert(x, u.name, to), z = u.factor * (x + u.shift);
    Judge{"conversion", {{"unit", u.name}, {"value", x}}}(to, y, z, 1e-12, 1);
    return y;
}

struct Scene
{
    Rng& r;
    const SmallDb& d;
    TF ref; // another engine
    ThermoBatch batch;
    Settings s;
    vstr smooth;

    static ThermoBatch make_batch(Rng& r, const SmallDb& d) { if (r.coin()) return ThermoBatch(d.db); TF e(d.db); return ThermoBatch(e); }
    Scene(Rng& r_, const SmallDb& d_) : r(r_), d(d_), ref(d_.db), batch(make_batch(r_, d_))
    {
        ref.preferences().enable_memoize = false;
        for (auto& [p, u] : ThermoFun::defaultPropertyUnits) { s.unit[p] = &units_of(p)[0]; }
        for (auto& [p, n] : ThermoFun::defaultPropertyDigits) s.digits[p] = n;
        if (!d.waters.empty()) { auto w = r.pick(d.waters); batch.setSolventSymbol(w); ref.setSolventSymbol(w); }
    }

    // ---- settings, through all the ways to make them
    void change_settings()
    {
        vstr names;
        for (auto& [p, u] : s.unit) names.push_back(p);
        r.shuffle(names);
        names.resize(r.below(names.size() + 1));
        if (r.coin(0.9)) names.push_back("temperature");
        if (r.coin(0.9)) names.push_back("pressure");
        vstr units;
        std::vector<int> digits;
        auto some_digits = [&] { return int(r.below(r.coin(0.8) ? 8 : 15)); };
        for (auto& n : names)
        {
            s.unit[n] = &r.pick(units_of(n));
            s.digits[n] = some_digits();
        }
        for (auto& n : names) { units.push_back(s.unit[n]->name); digits.push_back(s.digits[n]); }
        switch (r.below(4))
        {
        case 0: batch.setPropertiesUnits(names, units); batch.setPropertiesDigits(names, digits); break;
        case 1: for (size_t i = 0; i < names.size(); i++) batch.setPropertyUnitDigit(names[i], units[i], digits[i]); break;
        case 2: for (size_t i = 0; i < names.size(); i++) { batch.setPropertyUnit(names[i], units[i]); batch.setPropertyDigit(names[i], digits[i]); } break;
        default:
        {
            std::map<std::string, std::string> u;
            for (auto& [p, x] : s.unit) u[p] = x->name;
            batch.setUnits(u);
            batch.setDigits(s.digits);
        }
        }
        BatchPreferences p;
        p.isFixed = r.coin(0.6);
        p.isScientific = !p.isFixed && r.coin(0.6);
        p.separator = r.pick(vstr{",", ",", ";", "\t", " ; "});
        p.reactionPropertiesFromReactants = r.coin(0.3);
        p.loopOverTPpairsFirst = r.coin(0.7);
        p.loopTemperatureThenPressure = r.coin(0.6);
        p.writeNaNifNotDefinedValue = r.coin(0.7);
        if (r.coin()) batch.setBatchPreferences(p); else batch.preferences() = p;
        s.pref = p;
    }

    double user(const char* what, double x) { auto& u = *s.unit[what]; double y = x / u.factor - u.shift; return r.coin(0.6) ? std::round(y * 100) / 100 : y; }
    double T() { return user("temperature", r.coin(0.2) ? 298.15 : r.u(280, r.coin(0.7) ? 600 : 1100)); }
    double P() { return r.coin(0.25) ? 0 : user("pressure", r.pickd({1e5, 5e5, 1e7, 5e7, r.logu(1e5, 5e8)})); }
    static std::vector<double> increments(double lo, double hi, double step)
    {
        std::vector<double> o{lo};
        if (step > 0) for (int i = 1; lo + i * step <= hi + step * 1e-4; i++) o.push_back(lo + i * step);
        return o;
    }

    // ---- what has to come out
    template <class Ask> void fill(Expected& e, Ask ask)
    {
        auto T_ = [&](size_t k) { return convert(*s.unit["temperature"], e.pairs[k][0], "K"); };
        e.v.assign(e.symbols.size(), std::vector<std::vector<Scalar>>(e.pairs.size()));
        e.P.assign(e.pairs.size(), 0);
        for (size_t k = 0; k < e.pairs.size() && !e.error; k++)
        {
            auto& uP = *s.unit["pressure"];
            double P = convert(uP, e.pairs[k][1], "Pa");
            std::vector<size_t> early;
            for (size_t i = 0; i < e.symbols.size(); i++)
            {
                auto a = query(P, [&](double& p) { return ask(T_(k), p, e.symbols[i]); });
                if (!a.ok) { e.error = true; e.text = a.error; return; }
                P = a.P;
                if (P != 0) P = units::convert(units::convert(P, "Pa", uP.name), uP.name, "Pa"); // the pressure is kept in the units of the user
                if (P == 0) early.push_back(i);
                for (auto& n : e.props) e.v[i][k].push_back(of(a.value, n));
            }
            if (P != 0)
                for (size_t i : early)
                { // P = 0 stands for one pressure
                    auto a = query(P, [&](double& p) { return ask(T_(k), p, e.symbols[i]); });
                    if (!a.ok) { e.error = true; e.text = a.error; return; }
                    e.v[i][k].clear();
                    for (auto& n : e.props) e.v[i][k].push_back(of(a.value, n));
                }
            e.P[k] = P / uP.factor - uP.shift;
        }
    }

    std::string call;
    std::unique_ptr<ThermoFun::Output> out;
    bool grid = false;
    std::vector<double> rows, cols;

    // a random calculation, its expected results, and those of the batch
    Expected calculate(bool& threw, std::string& error)
    {
        Expected e;
        bool reaction = !d.reactions.empty() && r.coin(0.35);
        auto& pool = reaction ? d.reactions : d.substances;
        int entry = int(r.below(6));
        size_t n = entry == 0 ? 1 : 1 + r.below(4);
        for (size_t i = 0; i < n; i++) e.symbols.push_back(!reaction && !d.waters.empty() && r.coin(0.15) ? r.pick(d.waters) : r.pick(pool));
        auto& names = reaction ? reaction_names : substance_names;
        size_t m = entry == 0 ? 1 : 1 + r.below(5);
        for (size_t i = 0; i < m; i++) e.props.push_back(r.pick(names));
        std::vector<double> Ts, Ps;
        auto axes = [&] {
            auto& A = s.pref.loopTemperatureThenPressure ? Ts : Ps;
            auto& B = s.pref.loopTemperatureThenPressure ? Ps : Ts;
            for (double a : A) for (double b : B) e.pairs.push_back(s.pref.loopTemperatureThenPressure ? std::vector<double>{a, b} : std::vector<double>{b, a});
            rows = A; cols = B; grid = true;
        };
        grid = false;
        call = std::string(reaction ? "reactions, " : "substances, ");
        const double T0 = T(), P0 = P();
        switch (entry)
        {
        case 0: case 1: e.pairs = {{T0, P0}}; Ts = {T0}; Ps = {P0}; rows = s.pref.loopTemperatureThenPressure ? Ts : Ps; cols = s.pref.loopTemperatureThenPressure ? Ps : Ts; grid = true; call += "one state"; break;
        case 2:
        {
            double dT = r.pickd({5, 10, 25, 0.1, 7.3, 40, 100}), hi = T0 + dT * (r.coin() ? double(r.below(6)) : r.u(0, 5.5));
            if (r.coin(0.1)) { dT = 0; hi = T0 + 10; }
            if (std::fabs((hi - T0) / dT - std::round((hi - T0) / dT)) < 1e-2 && dT > 0) hi = T0 + dT * std::round((hi - T0) / dT);
            double p0 = r.coin() ? 0 : P0, dP = p0 == 0 ? 0 : user("pressure", r.pickd({1e6, 2e7})), ph = dP > 0 ? p0 + dP * r.below(4) : p0;
            batch.setTemperatureIncrement(T0, hi, dT);
            batch.setPressureIncrement(p0, ph, dP);
            Ts = increments(T0, hi, dT); Ps = increments(p0, ph, dP);
            call += "increments " + num(T0) + ":" + num(dT) + ":" + num(hi) + ", " + num(p0) + ":" + num(dP) + ":" + num(ph);
            axes();
            break;
        }
        case 3: for (int i = 1 + r.below(5); i > 0; i--) e.pairs.push_back({T(), P()}); call += "pairs"; break;
        default:
        {
            std::set<double> a, b;
            for (int i = 1 + r.below(4); i > 0; i--) a.insert(T());
            for (int i = 1 + r.below(3); i > 0; i--) b.insert(P());
            Ts.assign(a.begin(), a.end()); Ps.assign(b.begin(), b.end());
            r.shuffle(Ts); r.shuffle(Ps);
            call += "lists";
            axes();
        }
        }
        TF& q = ref;
        if (reaction)
        {
            if (s.pref.reactionPropertiesFromReactants) fill(e, [&](double T, double& P, const std::string& x) { return q.thermoPropertiesReactionFromReactants(T, P, x); });
            else fill(e, [&](double T, double& P, const std::string& x) { return q.thermoPropertiesReaction(T, P, x); });
        }
        else fill(e, [&](double T, double& P, const std::string& x) { return q.thermoPropertiesSubstance(T, P, x); });
        threw = false;
        try
        {
            auto go = [&](auto&&... a) { out.reset(new ThermoFun::Output(reaction ? batch.thermoPropertiesReaction(a...) : batch.thermoPropertiesSubstance(a...))); };
            switch (entry)
            {
            case 0: go(T0, P0, e.symbols[0], e.props[0]); break;
            case 1: go(T0, P0, e.symbols, e.props); break;
            case 2: go(e.symbols, e.props); break;
            case 3: go(e.pairs, e.symbols, e.props); break;
            default: go(Ts, Ps, e.symbols, e.props);
            }
        }
        catch (const std::exception& x) { threw = true; error = x.what(); }
        return e;
    }
    json about(const Expected& e)
    {
        json u;
        for (auto& p : e.props) u[p] = s.unit[p]->name;
        return {{"source", d.source}, {"call", call}, {"symbols", e.symbols}, {"properties", e.props}, {"pairs", e.pairs}, {"units", {s.unit["temperature"]->name, s.unit["pressure"]->name, u}}, {"pairs first", s.pref.loopOverTPpairsFirst},
                {"T first", s.pref.loopTemperatureThenPressure}, {"from reactants", s.pref.reactionPropertiesFromReactants}};
    }
    size_t index(const Expected& e, size_t i, size_t k) const { return s.pref.loopOverTPpairsFirst ? i * e.pairs.size() + k : k * e.symbols.size() + i; }
};

static SmallDb some_db(const Options& o, Rng& r)
{
    auto paths = databases(o);
    return r.coin(0.35) ? model_small() : small_db(r.pick(paths), r, 12, 6);
}

// ---------------------------------------------------------------- results
static void results(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 40000 : 1600; c < n; c++)
    {
        if (!run("results|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        SmallDb d = some_db(o, r);
        if (d.substances.empty()) continue;
        Scene s(r, d);
        for (int k = 1 + r.below(4); k > 0; k--)
        {
            if (r.coin(0.7)) s.change_settings();
            bool threw;
            std::string error;
            Expected e = s.calculate(threw, error);
            if (threw != e.error) { rep().eval("calls that fail when the engine does"); json j = s.about(e); j["batch"] = threw ? error.substr(0, 300) : "results"; j["engine"] = e.error ? e.text.substr(0, 300) : "results"; rep().violation("batch and engine do not fail alike", j); break; }
            rep().eval("calls that fail when the engine does");
            if (threw) { rep().count("calls that failed"); continue; }
            rep().count("calls " + s.call.substr(0, s.call.find(' ', s.call.find(',') + 2)));
            rep().distinct(d.source + s.call.substr(0, 20) + e.symbols[0] + e.props[0]);
            auto m = s.out->to2DVectorDouble();
            if (m.size() != e.symbols.size() * e.pairs.size()) { json j = s.about(e); j["results"] = m.size(); rep().violation("number of results", j); continue; }
            Judge j{"batch", s.about(e)};
            for (size_t i = 0; i < e.symbols.size(); i++)
                for (size_t q = 0; q < e.pairs.size(); q++)
                {
                    auto& got = m[s.index(e, i, q)];
                    if (got.size() != e.props.size()) { rep().violation("number of properties", s.about(e)); continue; }
                    double sc = 0;
                    for (auto& x : e.v[i][q]) sc = std::max(sc, std::isfinite(x.val) ? std::fabs(x.val) : 0);
                    for (size_t p = 0; p < e.props.size(); p++)
                    {
                        j.at["symbol"] = e.symbols[i]; j.at["pair"] = q;
                        if (!std::isfinite(e.v[i][q][p].val) && !std::isfinite(got[p])) { rep().eval("values compared with the expected value"); continue; }
                        j(e.props[p].c_str(), got[p], e.v[i][q][p].val, 1e-9, 0, 1e-9 + 1e-13 * sc);
                    }
                }
            Judge f{"first", s.about(e)};
            if (std::isfinite(m[0][0])) { f("toDouble", s.out->toDouble(), m[0][0], 0); f("toThermoScalar", s.out->toThermoScalar().val, m[0][0], 0); }
        }
    }
}

// ---------------------------------------------------------------- files
static std::vector<vstr> read_csv(const std::string& path, const std::string& sep)
{
    std::vector<vstr> o;
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line))
    {
        vstr f;
        size_t a = 0, b;
        while ((b = line.find(sep, a)) != std::string::npos) { f.push_back(line.substr(a, b - a)); a = b + sep.size(); }
        f.push_back(line.substr(a));
        o.push_back(f);
    }
    return o;
}
static std::string clean(std::string x, const std::string& sep)
{
    for (size_t p; (p = x.find(sep)) != std::string::npos;) x.replace(p, sep.size(), "_");
    return x;
}

struct Sheet
{
    Scene& s; const Expected& e; std::string format;
    bool bad = false;
    void fail(const std::string& what, const std::string& got, const std::string& want)
    {
        json j = s.about(e);
        j["got"] = got; j["expected"] = want; j["separator"] = s.s.pref.separator;
        rep().violation(format + ": " + what, j);
        bad = true;
    }
    void text(const std::string& what, const std::string& got, const std::string& want)
    {
        rep().eval("fields compared");
        if (got != want && !bad) fail(what, got, want);
    }
    // a number printed with the digits asked for
    void number(const std::string& what, const std::string& got, double want, int digits, double abs_ = 0)
    {
        rep().eval("fields compared");
        if (bad) return;
        auto& p = s.s.pref;
        char buf[400];
        snprintf(buf, sizeof buf, p.isFixed ? "%.*f" : p.isScientific ? "%.*e" : "%.*g", digits, want);
        if (got == buf) return;
        char* end;
        double v = std::strtod(got.c_str(), &end);
        if (got.empty() || *end) return fail(what, got, buf);
        if (!std::isfinite(want) || !std::isfinite(v)) { if (std::isfinite(want) == std::isfinite(v)) return; return fail(what, got, buf); }
        double step = p.isFixed ? std::pow(10., -digits) : std::pow(10., std::floor(std::log10(std::max(std::fabs(want), 1e-300))) - (p.isScientific ? digits : std::max(digits, 1) - 1));
        if (std::fabs(v - want) > 0.51 * step * 1.001 + std::fabs(want) * 2e-9 + abs_) return fail(what, got, buf);
        // as many decimals
        auto decimals = [](const std::string& x) { auto d = x.find('.'); if (d == std::string::npos) return 0; size_t k = d + 1; while (k < x.size() && isdigit(x[k])) k++; return int(k - d - 1); };
        if ((p.isFixed || p.isScientific) && decimals(got) != digits) return fail(what + " (digits)", got, buf);
        if (!p.isFixed && !p.isScientific && decimals(got) > std::max(digits, 1) + 5) return fail(what + " (digits)", got, buf);
    }
    void value(const Scalar& v, const std::string& prop, const std::string& got)
    {
        if (v.sta.first == Reaktoro_::Status::notdefined && s.s.pref.writeNaNifNotDefinedValue) return text("undefined value of " + prop, got, "NaN");
        auto& u = *s.s.unit[prop];
        number("value of " + prop, got, v.val / u.factor - u.shift, s.s.digits[prop], 1e-9 / u.factor);
    }
    std::string unit(const std::string& p) { return s.s.unit[p]->name; }
    void states(const vstr& row, size_t k)
    {
        number("temperature", row[1], e.pairs[k][0], s.s.digits["temperature"], 1e-9);
        number("pressure", row[2], e.P[k], s.s.digits["pressure"], 1e-12 + std::fabs(e.P[k]) * 1e-8);
    }
};

static void files(const Options& o, Cases& run)
{
    char pattern[] = "/tmp/vf_batch_XXXXXX";
    std::string dir = mkdtemp(pattern);
    auto here = fs::current_path();
    for (int c = 0, n = o.thorough ? 40000 : 1600; c < n; c++)
    {
        if (!run("files|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        SmallDb d = some_db(o, r);
        if (d.substances.empty()) continue;
        Scene s(r, d);
        for (int k = 1 + r.below(3); k > 0; k--)
        {
            if (r.coin(0.8)) s.change_settings();
            bool threw;
            std::string error;
            Expected e = s.calculate(threw, error);
            if (threw || e.error) { rep().count("calls that failed"); continue; } // mode results
            auto& sep = s.s.pref.separator;
            const int kind = int(r.below(3));
            std::string file = dir + "/out.csv";
            Sheet h{s, e, kind == 0 ? "toCSV" : kind == 1 ? "toCSVTransposed" : "toCSVPropertyGrid"};
            rep().distinct(h.format + s.call.substr(0, 20) + d.source + e.symbols[0] + sep);
            rep().count("files " + h.format);
            if (kind == 0)
            {
                s.out->toCSV(file);
                auto t = read_csv(file, sep);
                vstr head{"Symbol", "T(" + h.unit("temperature") + ")", "P(" + h.unit("pressure") + ")"};
                for (auto& p : e.props) head.push_back(p + "(" + h.unit(p) + ")");
                h.text("number of lines", std::to_string(t.size()), std::to_string(1 + e.symbols.size() * e.pairs.size()));
                if (h.bad) continue;
                h.text("header", json(t[0]).dump(), json(head).dump());
                for (size_t i = 0; i < e.symbols.size() && !h.bad; i++)
                    for (size_t q = 0; q < e.pairs.size() && !h.bad; q++)
                    {
                        auto& row = t[1 + s.index(e, i, q)];
                        h.text("number of fields", std::to_string(row.size()), std::to_string(head.size()));
                        if (h.bad) break;
                        h.text("symbol", row[0], clean(e.symbols[i], sep));
                        h.states(row, q);
                        for (size_t p = 0; p < e.props.size(); p++) h.value(e.v[i][q][p], e.props[p], row[3 + p]);
                    }
            }
            else if (kind == 1)
            {
                s.out->toCSVTransposed(file);
                auto t = read_csv(file, sep);
                vstr head{"Property", "T(" + h.unit("temperature") + ")", "P(" + h.unit("pressure") + ")"};
                for (auto& x : e.symbols) head.push_back(clean(x, sep));
                h.text("number of lines", std::to_string(t.size()), std::to_string(1 + e.props.size() * e.pairs.size()));
                if (h.bad) continue;
                h.text("header", json(t[0]).dump(), json(head).dump());
                for (size_t p = 0; p < e.props.size() && !h.bad; p++)
                    for (size_t q = 0; q < e.pairs.size() && !h.bad; q++)
                    {
                        auto& row = t[1 + (s.s.pref.loopOverTPpairsFirst ? p * e.pairs.size() + q : q * e.props.size() + p)];
                        h.text("number of fields", std::to_string(row.size()), std::to_string(head.size()));
                        if (h.bad) break;
                        h.text("property", row[0], clean(e.props[p], sep) + "(" + h.unit(e.props[p]) + ")");
                        h.states(row, q);
                        for (size_t i = 0; i < e.symbols.size(); i++) h.value(e.v[i][q][p], e.props[p], row[3 + i]);
                    }
            }
            else
            {
                std::string name = "out.csv";
                bool other = r.coin();
                for (auto& f : fs::directory_iterator(dir)) fs::remove(f);
                if (!other) fs::current_path(dir);
                s.out->toCSVPropertyGrid(other ? dir + "/" + name : name);
                if (!other) fs::current_path(here);
                for (size_t p = 0; p < e.props.size() && !h.bad; p++)
                {
                    file = dir + "/" + e.props[p] + "_" + name;
                    rep().eval("fields compared");
                    if (!fs::exists(file)) { h.fail("no file", file, "a file"); break; }
                    auto t = read_csv(file, sep);
                    bool rowsT = s.s.pref.loopTemperatureThenPressure;
                    std::string cell = "T(" + h.unit("temperature") + ")_P(" + h.unit("pressure") + ")";
                    if (!rowsT) cell = "P(" + h.unit("pressure") + ")_T(" + h.unit("temperature") + ")";
                    if (!s.grid || !s.s.pref.loopOverTPpairsFirst)
                    { // no values
                        bool square = s.call.find("pairs") != std::string::npos && s.s.pref.loopOverTPpairsFirst; // pairs may happen to form a grid
                        if (!square) h.text("lines without a grid", std::to_string(t.size()), "2");
                        continue;
                    }
                    h.text("number of lines", std::to_string(t.size()), std::to_string(1 + e.symbols.size() * s.rows.size()));
                    if (h.bad) break;
                    h.text("number of columns", std::to_string(t[0].size()), std::to_string(2 + s.cols.size()));
                    if (h.bad) break;
                    h.text("header", t[0][0] + sep + t[0][1], "Symbol" + sep + cell);
                    for (size_t q = 0; q < s.cols.size(); q++) h.number("column", t[0][2 + q], s.cols[q], s.s.digits[rowsT ? "pressure" : "temperature"], 1e-9);
                    for (size_t i = 0; i < e.symbols.size() && !h.bad; i++)
                        for (size_t a = 0; a < s.rows.size() && !h.bad; a++)
                        {
                            auto& row = t[1 + i * s.rows.size() + a];
                            h.text("number of fields", std::to_string(row.size()), std::to_string(2 + s.cols.size()));
                            if (h.bad) break;
                            h.text("symbol", row[0], clean(e.symbols[i], sep));
                            h.number("row", row[1], s.rows[a], s.s.digits[rowsT ? "temperature" : "pressure"], 1e-9);
                            for (size_t q = 0; q < s.cols.size(); q++) h.value(e.v[i][a * s.cols.size() + q][p], e.props[p], row[2 + q]);
                        }
                }
            }
        }
    }
    fs::remove_all(dir);
}

// The plain writer of answers: each property stands in the column that the header names.
static void writer(const Options& o, Cases& run)
{
    using W = ThermoFun::OutputToCSV;
    using T = ThermoPropertiesSubstance;
    using S = ThermoFun::PropertiesSolvent;
    using E = ThermoFun::ElectroPropertiesSolvent;
    static const std::vector<std::pair<std::string, Scalar T::*>> tf{{"G0", &T::gibbs_energy}, {"H0", &T::enthalpy}, {"S0", &T::entropy}, {"Cp0", &T::heat_capacity_cp}, {"Cv0", &T::heat_capacity_cv},
        {"V0", &T::volume}, {"A0", &T::helmholtz_energy}, {"U0", &T::internal_energy}};
    static const std::vector<std::pair<std::string, Scalar S::*>> sf{{"Rho", &S::density}, {"Rho_dT", &S::densityT}, {"Rho_dP", &S::densityP}, {"Rho_d2T", &S::densityTT}, {"Rho_dTdP", &S::densityTP},
        {"Rho_d2P", &S::densityPP}, {"Aplha", &S::Alpha}, {"Alpha", &S::Alpha}, {"Alpha_dT", &S::dAldT}, {"Beta", &S::Beta}};
    static const std::vector<std::pair<std::string, Scalar E::*>> ef{{"bornN", &E::bornN}, {"bornQ", &E::bornQ}, {"bornU", &E::bornU}, {"bornX", &E::bornX}, {"bornY", &E::bornY}, {"bornZ", &E::bornZ},
        {"eps", &E::epsilon}, {"eps_dP", &E::epsilonP}, {"eps_d2P", &E::epsilonPP}, {"eps_dT", &E::epsilonT}, {"eps_dTdP", &E::epsilonTP}, {"eps_d2T", &E::epsilonTT}};
    char pattern[] = "/tmp/vf_batch_XXXXXX";
    std::string dir = mkdtemp(pattern);
    using Line = std::map<std::string, std::string>;
    for (int c = 0, n = o.thorough ? 20000 : 800; c < n; c++)
    {
        if (!run("writer|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        std::string names[3] = {"a.csv", "b.csv", "c.csv"};
        std::vector<Line> want[3];
        {
            W w(dir + "/program");
            if (r.coin()) { w.setOutputFolderPath(dir); }
            bool open[3] = {};
            for (int k = 3 + r.below(12); k > 0; k--)
            {
                int f = r.below(3);
                if (!open[f])
                {
                    f == 0 ? w.openThermoPropertiesSubstanceFile(names[f]) : f == 1 ? w.openPropertiesSolventFile(names[f]) : w.openElectroPropertiesSolventFile(names[f]);
                    open[f] = true;
                    want[f].clear();
                }
                else if (r.coin(0.15))
                {
                    f == 0 ? w.closeThermoPropertiesSubstanceFile() : f == 1 ? w.closePropertiesSolventFile() : w.closeElectroPropertiesSolventFile();
                    open[f] = false;
                    continue;
                }
                auto number = [&] { char b[40]; snprintf(b, sizeof b, "%.6g", r.u(-1, 1) * std::pow(10., r.below(12) - 6)); return std::string(b); };
                Line l{{"Substance", "S" + std::to_string(r.below(1000))}, {"T", number()}, {"P", number()}};
                auto fill = [&](auto& x, auto& fields) { for (auto& [name, m] : fields) { auto v = number(); (x.*m).val = std::strtod(v.c_str(), nullptr); } for (auto& [name, m] : fields) { char b[40]; snprintf(b, sizeof b, "%.6g", (x.*m).val); l[name] = b; } };
                double Tv = std::strtod(l["T"].c_str(), nullptr), Pv = std::strtod(l["P"].c_str(), nullptr);
                if (f == 0) { T x; fill(x, tf); w.writeThermoPropertiesSubstance(l["Substance"], Tv, Pv, x); }
                else if (f == 1) { S x; fill(x, sf); w.writePropertiesSolvent(l["Substance"], Tv, Pv, x); }
                else { E x; fill(x, ef); w.writeElectroPropertiesSolvent(l["Substance"], Tv, Pv, x); }
                want[f].push_back(l);
            }
        }
        for (int f = 0; f < 3; f++)
        {
            if (want[f].empty()) continue;
            auto t = read_csv(dir + "/" + names[f], ",");
            auto fail = [&](const std::string& what, const std::string& got, const std::string& exp) {
                rep().violation("writer:" + what, {{"file", f}, {"got", got}, {"expected", exp}});
            };
            rep().count("files writer");
            rep().distinct("writer" + std::to_string(f) + std::to_string(want[f].size()));
            if (t.size() != want[f].size() + 1) { fail("lines", std::to_string(t.size()), std::to_string(want[f].size() + 1)); continue; }
            std::vector<std::string> head;
            for (auto h : t[0]) head.push_back(h.substr(0, h.find('(')));
            for (size_t i = 0; i < want[f].size(); i++)
            {
                rep().eval("fields compared", int(head.size()));
                if (t[i + 1].size() != head.size()) { fail("number of fields", std::to_string(t[i + 1].size()), std::to_string(head.size())); break; }
                for (size_t k = 0; k < head.size(); k++)
                {
                    if (!want[f][i].count(head[k])) { fail("column without property", head[k], ""); break; }
                    if (t[i + 1][k] != want[f][i][head[k]]) { fail("column " + head[k], t[i + 1][k], want[f][i][head[k]]); break; }
                }
            }
        }
        for (auto& f : fs::directory_iterator(dir)) fs::remove(f);
    }
    fs::remove_all(dir);
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv);
    Cases run(o);
    std::string mode = o.rest.empty() ? "results" : o.rest[0];
    if (mode == "results") results(o, run);
    else if (mode == "files") files(o, run);
    else if (mode == "writer") writer(o, run);
    rep().summary();
}
