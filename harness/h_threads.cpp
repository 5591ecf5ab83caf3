// P07: threads that each use their own objects: no races (thread sanitizer), and the answers of a serial run.
#include "pool.h"
#include <barrier>
#include <locale>
#include <thread>
using namespace vf;

namespace {
struct Job
{
    enum { QUERY, UNITS, EQUATION_TEXT, RECORD, BATCH, COPY, LOAD, SETTINGS, FORMULA } kind = QUERY;
    Q q;
    std::string a, b;
    double v = 0;
    std::string text() const
    {
        static const char* n[] = {"query ", "units ", "equation ", "record ", "batch ", "copy", "load ", "settings", "formula "};
        return n[kind] + (kind == QUERY ? q.text() : a + " " + b);
    }
};
// The objects of one thread
struct Own
{
    std::unique_ptr<TF> engine;
    std::string scratch;
    bool memo = true;
};
std::string fields(const Substance& s)
{
    std::ostringstream o;
    o << s;
    return o.str() + std::to_string(int(s.method_T())) + std::to_string(s.thermoParameters().HKF_parameters.size());
}
std::string work(Own& w, const Job& j)
{
    try
    {
        switch (j.kind)
        {
        case Job::QUERY: return ask(*w.engine, j.q).image;
        case Job::UNITS: return num(units::convert(j.v, j.a, j.b));
        case Job::EQUATION_TEXT: { Reaction r; r.fromEquation(j.a); std::ostringstream o; o << r; return o.str(); }
        case Job::RECORD: { Substance s(j.a); return fields(s); }
        case Job::BATCH:
        {
            ThermoFun::ThermoBatch b(w.engine->database());
            b.setSolventSymbol(w.engine->solventSymbol());
            std::string f = w.scratch + "/b.csv";
            b.thermoPropertiesSubstance({298.15, 350}, {1e7, 5e7}, {j.a}, {"gibbs_energy", "entropy", "volume"}).toCSV(f);
            return slurp(f);
        }
        case Job::COPY: { TF c(*w.engine); *w.engine = c; return ask(c, j.q).image; }
        case Job::LOAD:
        {
            Database db(std::vector<std::string>{j.a}, j.b);
            std::string o;
            for (auto& s : db.getSubstances()) o += fields(s);
            return o;
        }
        case Job::SETTINGS:
        {
            EnginePreferences p;
            p.enable_memoize = j.v < 0.5; p.max_cache_size = j.v < 0.25 ? 3 : 0;
            p.solvent_symbol = w.engine->solventSymbol();
            w.engine->setPreferences(p);
            return "";
        }
        case Job::FORMULA: return num(w.engine->database().elementalEntropyFormula(j.a));
        }
    }
    catch (const std::exception&) { return "E"; }
    return "?";
}
const std::vector<std::string>& unit_pairs()
{
    static const std::vector<std::string> v{"J/mol", "cal/mol", "kJ/mol", "kcal/mol", "K", "degC", "bar", "Pa", "kbar", "J/bar", "cm^3", "m^3", "J/(mol*K)", "cal/(mol*K)", "g/mol", "kg/mol", "nonsense"};
    return v;
}
} // namespace

int main(int argc, char** argv)
{
    // libstdc++ fills the narrow() cache of the locale's ctype facet at first use without a lock, the same values
    // from every thread: not ThermoFun's, so filled before any thread starts.
    for (int c = 0; c < 256; c++) (void)std::use_facet<std::ctype<char>>(std::locale()).narrow(char(c), 0);
    auto o = parse(argc, argv);
    Cases cases(o);
    auto dbs = databases(o);
    std::sort(dbs.begin(), dbs.end(), [](auto& a, auto& b) { return fs::file_size(a) < fs::file_size(b); });
    // the smaller data sets, as the sanitizer makes reading slow
    if (!o.thorough && dbs.size() > 12) dbs.resize(12);
    auto waters = water_kinds();
    const int rounds = o.thorough ? 1500 : 56;
    for (int n = 0; n < rounds; n++)
    {
        if (!cases("threads")) continue;
        Rng& r = cases.rng;
        SmallDb d;
        if (r.coin(0.6)) { auto& w = r.pick(waters); d = model_small(w.eos, w.diel); }
        else d = small_db(dbs[n % dbs.size()], r, 16, 5);
        std::string solvent = d.waters.empty() ? "H2O@" : r.pick(d.waters);
        int nthreads = 2 + r.below(5);
        int how = r.below(4);
        static const char* hows[] = {"copies of one engine", "engines from one database", "copies made by the threads", "engines made by the threads from one database"};
        // what each does: the same for most, so that they meet
        std::vector<Job> common;
        auto some_job = [&] {
            Job j;
            j.q = some_query(r, d);
            j.v = r.u();
            unsigned k = r.below(20);
            j.kind = k < 12 ? Job::QUERY : k < 14 ? Job::UNITS : k == 14 ? Job::EQUATION_TEXT : k == 15 ? Job::RECORD : k == 16 ? Job::COPY : k == 17 ? Job::LOAD : k == 18 ? (r.coin() ? Job::SETTINGS : Job::FORMULA) : Job::BATCH;
            if (j.kind == Job::UNITS) { j.a = r.pick(unit_pairs()); j.b = r.pick(unit_pairs()); }
            if (j.kind == Job::EQUATION_TEXT) j.a = equation_of(d.db, r, d.substances);
            if (j.kind == Job::BATCH) j.a = r.pick(d.substances);
            if (j.kind == Job::FORMULA) j.a = d.db.getSubstance(r.pick(d.substances)).formula();
            if (j.kind == Job::RECORD || j.kind == Job::LOAD)
            {
                j.a = d.db.getSubstance(r.pick(d.substances)).jsonString();
                j.b = "substance";
                if (j.a.empty()) j.a = R"({"symbol":"x","sm_gibbs_energy":{"values":[1],"units":["cal/mol"]},"TPMethods":[{"method":{"3":"solute_hkf88_gems"},"eos_hkf_coeffs":{"values":[1,2,3,4,5,6,7]}}]})";
            }
            return j;
        };
        for (int i = 0; i < 14; i++) common.push_back(some_job());
        std::vector<std::vector<Job>> jobs(nthreads);
        for (auto& js : jobs) { js = common; for (int i = 0; i < 6; i++) js.push_back(some_job()); if (r.coin(0.7)) r.shuffle(js); }
        TF first(d.db);
        first.setSolventSymbol(solvent);
        if (r.coin(0.3)) { EnginePreferences p; p.enable_memoize = false; p.solvent_symbol = solvent; first.setPreferences(p); }
        if (r.coin(0.3)) ask(first, common[0].q);
        auto own = [&](int t, bool inside) {
            Own w;
            w.scratch = o.scratch + "/t" + std::to_string(t);
            fs::create_directories(w.scratch);
            if (how == 0 || how == 2) w.engine = std::make_unique<TF>(first);
            else { w.engine = std::make_unique<TF>(d.db); w.engine->setSolventSymbol(solvent); }
            return w;
        };
        std::vector<std::vector<std::string>> got(nthreads), want(nthreads);
        std::barrier start(nthreads);
        std::vector<Own> owns(nthreads);
        for (int t = 0; t < nthreads; t++) if (how < 2) owns[t] = own(t, false);
        std::vector<std::thread> ts;
        cases.doing("threads|" + std::string(hows[how]) + ", " + std::to_string(nthreads) + " threads, " + d.source);
        std::vector<uint64_t> delays;
        for (int t = 0; t < nthreads; t++) delays.push_back(r.below(3) ? 0 : r.below(2000));
        for (int t = 0; t < nthreads; t++)
            ts.emplace_back([&, t] {
                start.arrive_and_wait();
                for (volatile uint64_t i = 0; i < delays[t]; i = i + 1) {}
                if (how >= 2) owns[t] = own(t, true);
                for (auto& j : jobs[t]) got[t].push_back(work(owns[t], j));
            });
        for (auto& t : ts) t.join();
        // the same, one after the other
        for (int t = 0; t < nthreads; t++)
        {
            Own w = own(t, false);
            for (auto& j : jobs[t]) want[t].push_back(work(w, j));
            for (size_t i = 0; i < jobs[t].size(); i++)
            {
                rep().eval("answers of threads compared");
                rep().distinct(d.source + hows[how] + jobs[t][i].text());
                if (got[t][i] != want[t][i])
                    rep().violation(std::string("differs from the serial run: ") + (jobs[t][i].kind == Job::QUERY ? kind_name(jobs[t][i].q.kind) : jobs[t][i].text().substr(0, 9)), {{"how", hows[how]}, {"job", jobs[t][i].text()}, {"source", d.source}});
            }
        }
        rep().count(std::string("groups of threads: ") + hows[how]);
        rep().count("threads", nthreads);
    }
    rep().summary();
    return 0;
}
