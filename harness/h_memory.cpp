// What is kept: memory in use after histories of queries and after lives of objects (P30).
// The monitor counts the live bytes of all operator new of the process.
#include "pool.h"
#include "records.h"
#include "Batch/ThermoBatch.h"
#include "Common/Units.hpp"
#include <malloc.h>
#include <new>
using namespace vf;

static long long live_bytes = 0;
static unsigned long long allocations = 0;
static void* counted(size_t n, size_t align = 0)
{
    void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    live_bytes += (long long)malloc_usable_size(p);
    allocations++;
    return p;
}
static void uncounted(void* p) noexcept { if (p) { live_bytes -= (long long)malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return counted(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return counted(n); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return counted(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return counted(n, size_t(a)); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, size_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t) noexcept { uncounted(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { uncounted(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { uncounted(p); }
void operator delete(void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { uncounted(p); }

// what the monitor itself keeps is not counted
static long long own_bytes = 0;
template <class F> void quietly(F&& f) { long long b = live_bytes; f(); own_bytes += live_bytes - b; }
static long long live() { return live_bytes - own_bytes; }

// a question, without its answer
static bool put(const TF& e, const Q& q)
{
    try
    {
        double P = q.P;
        switch (q.kind)
        {
        case SUBST: e.thermoPropertiesSubstance(q.T, P, q.sym); break;
        case SUBST_OBJ: e.thermoPropertiesSubstance(q.T, P, e.database().getSubstance(q.sym)); break;
        case EQUATION: case REACT: e.thermoPropertiesReaction(q.T, P, q.sym); break;
        case REACT_OBJ: e.thermoPropertiesReaction(q.T, P, e.database().getReaction(q.sym)); break;
        case REACTANTS: e.thermoPropertiesReactionFromReactants(q.T, P, q.sym); break;
        case REACTANTS_OBJ: e.thermoPropertiesReactionFromReactants(q.T, P, e.database().getReaction(q.sym)); break;
        case SOLVENT: e.propertiesSolvent(q.T, P, q.sym, q.state); break;
        case ELECTRO: e.electroPropertiesSolvent(q.T, P, q.sym, q.state); break;
        }
        return true;
    }
    catch (const std::exception&) { return false; }
}

static void one_history(Cases& run, int i, const std::vector<std::string>& dbs, Rng r, bool judged)
{
        SmallDb d;
        if (i % 3 == 0) { auto& w = r.pick(water_kinds()); d = model_small(w.eos, w.diel); }
        else d = small_db(r.pick(dbs), r, 14, 8);
        TF e(d.db);
        if (!d.waters.empty() && r.coin(0.3)) e.setSolventSymbol(r.pick(d.waters));
        std::vector<Q> pool;
        for (int k = 0; k < 24; k++)
        {
            Q q = some_query(r, d);
            if (r.coin(0.1)) q.sym = r.coin() ? "nowhere recorded" : "nothing = " + q.sym; // these fail
            pool.push_back(q);
        }
        auto settings = [&](bool memoize, size_t n) { auto p = e.preferences(); p.enable_memoize = memoize; p.max_cache_size = n; if (r.coin()) e.setPreferences(p); else { e.preferences().enable_memoize = memoize; e.preferences().max_cache_size = n; } };
        auto elsewhere = [&](Q q) { if (r.coin(0.1)) { q.T = r.logu(50, 1e4); q.P = r.logu(1e-2, 1e11); return q; } double f = r.u(0.98, 1.02); q.T *= f; if (q.P > 0) q.P *= r.u(0.98, 1.02); return q; };
        auto touch = [&](TF& x) { Q q; q.sym = d.substances[0]; put(x, q); }; // a change of settings takes effect with the next question
        // everything there is once, so that what is made at first use is there
        for (int k = 0; k < 2; k++)
        {
            for (bool m : {true, false}) { settings(m, 5); touch(e); }
            for (auto& q : pool) { run.doing("history|warm " + q.text()); put(e, q); put(e, elsewhere(q)); }
        }
        std::vector<Q> asked_now;
        asked_now.reserve(2 * pool.size());
        const long long before = live();
        auto same = [&](const char* when, long long expected, const Q* q = nullptr) {
            const long long now = live();
            if (judged) quietly([&] {
                rep().eval(when);
                rep().maxed(std::string(when) + ": bytes", double(now - expected));
                if (now > expected) rep().violation(when, json{{"database", d.source}, {"before", expected}, {"now", now}, {"query", q ? q->text() : ""}});
            });
        };
        auto doing = [&](const char* how, const Q& q) { quietly([&] { run.doing(how + q.text()); }); };
        // nothing is kept without a cache
        unsigned failed = 0, asked = 0;
        for (int k = 0; k < 3; k++)
            for (auto& q0 : pool)
            {
                Q q = elsewhere(q0);
                doing("history|", q);
                long long b = live();
                failed += !put(e, q);
                asked++;
                same("kept by a query without cache", b, &q);
            }
        same("kept after queries without cache", before);
        // the cache without limit: how much an answer takes; asking again takes nothing
        settings(true, 0);
        touch(e);
        long long largest = 0;
        for (int k = 0; k < 2; k++)
            for (auto& q0 : pool)
            {
                Q q = elsewhere(q0);
                long long b = live();
                put(e, q);
                largest = std::max(largest, live() - b);
                quietly([&] { asked_now.push_back(q); });
            }
        for (auto& q : asked_now)
        {
            // objects and failures are not cached, nor what they need that is not cached either
            doing("history|again ", q);
            put(e, q);
            long long b = live();
            put(e, q);
            same("kept by asking again", b, &q);
        }
        // and with a limit: four kinds of answers, each with so many
        size_t n = 1 + r.below(4);
        settings(true, n);
        touch(e);
        for (int k = 0; k < 12; k++)
            for (auto& q0 : pool)
            {
                Q q = elsewhere(q0);
                doing("history|limited ", q);
                put(e, q);
                long long bound = before + (long long)(4 * n) * largest + 4096;
                rep().eval("memory with a limited cache");
                rep().maxed("limited cache: part of the bound in use", double(live() - before) / double(bound - before));
                if (live_bytes > bound) rep().violation("a limited cache holds more than its limit", json{{"database", d.source}, {"limit", n}, {"largest answer", largest}, {"held", live() - before}, {"queries", k * pool.size()}});
            }
        settings(false, 5);
        touch(e);
        same("kept after switching the cache off", before);
        // a copy and its cache
        {
            TF c(e);
            auto p = c.preferences(); p.enable_memoize = true; p.max_cache_size = 0; c.setPreferences(p);
            for (auto& q : pool) put(c, q);
            if (r.coin()) { TF x(d.db); x = c; for (auto& q : pool) put(x, elsewhere(q)); }
        }
        same("kept after a copy of the engine is gone", before);
        if (!judged) return;
        rep().count("queries", asked);
        rep().count("queries that failed", failed);
        for (auto& q : pool) rep().distinct(d.source + " " + kind_name(q.kind) + " " + q.sym);
}
static void histories(const Options& o, Cases& run)
{
    auto dbs = databases(o);
    bool first = true;
    for (int i = 0; i < (o.thorough ? 1500 : 120); i++)
    {
        if (!run("history|" + std::to_string(i))) continue;
        // what the program makes once, at first use
        if (first) one_history(run, i, dbs, run.rng, false);
        first = false;
        one_history(run, i, dbs, run.rng, true);
    }
}

static void lives(const Options& o, Cases& run)
{
    auto dbs = databases(o);
    struct Life { const char* name; std::function<void(Rng)> live; };
    std::string text, file;
    json doc;
    const std::string dir = o.scratch.empty() ? "/tmp" : o.scratch;
    std::vector<Life> lives{
        {"database from a file", [&](Rng) { Database db(file); }},
        {"engine from a file, with questions", [&](Rng r) { TF e(file); auto l = e.database().getSubstances(); for (int k = 0; k < 6; k++) { Q q; q.T = some_T(r); q.P = some_P(r); q.sym = r.pick(l).symbol(); put(e, q); } }},
        {"lists and copies of records", [&](Rng r) { Database db(load(file)); auto a = db.mapSubstances(); auto b = db.mapReactions(); auto c = db.mapElements(); Database x(db); x.addMapSubstances(a); x.setMapReactions(b); x = db; Database y; y = x; if (!a.empty()) y.substance(a.begin()->first).setName(std::string(100, 'x')); }},
        {"records appended", [&](Rng r) { Database db; for (int k = 0; k < 10; k++) { db.appendData(std::vector<std::string>{some_substance(r, "s" + std::to_string(k)).dump()}, "substance"); db.appendData(std::vector<std::string>{some_reaction(r, "r" + std::to_string(k)).dump()}, "reaction"); } }},
        {"random records, with questions", [&](Rng r) { Database db(load(file)); std::vector<std::string> s; for (int k = 0; k < 10; k++) { s.push_back("new" + std::to_string(k)); db.appendData(std::vector<std::string>{some_substance(r, s.back()).dump()}, "substance"); }
            TF e(db); for (int k = 0; k < 40; k++) { Q q; q.T = r.logu(100, 3000); q.P = r.coin(0.2) ? 0 : r.logu(1, 1e10); q.sym = r.pick(s); put(e, q); } }},
        {"damaged data", [&](Rng r) { for (int k = 0; k < 6; k++) { std::string t = text; for (int n = 1 + r.below(4); n-- > 0;) t[r.below(t.size())] = char(32 + r.below(90)); if (r.coin(0.3)) t.resize(r.below(t.size())); Database db; try { db.appendData(t); } catch (const std::exception&) {} } }},
        {"formulas", [&](Rng r) { const Database& db = load(file); for (auto& s : db.getSubstances()) { try { db.parseSubstanceFormula(s.formula()); db.parseSubstanceFormula(s.formula() + "Q(x"); } catch (const std::exception&) {} } }},
        {"equations", [&](Rng r) { std::vector<std::string> l; for (auto& s : load(file).getSubstances()) l.push_back(s.symbol()); for (int k = 0; k < 20; k++) { std::string t = equation_of(load(file), r, l); if (r.coin(0.3)) t += " + = 3"; Reaction x; try { x.fromEquation(t); } catch (const std::exception&) {} } }},
        {"units", [&](Rng r) { static const std::vector<std::string> u{"J", "kcal", "degC", "K", "bar", "J/mol/K", "cm3/mol", "cal/(mol*K)", "nothing", "J/("}; for (int k = 0; k < 40; k++) try { units::convert(r.u(1, 9), r.pick(u), r.pick(u)); } catch (const std::exception&) {} }},
        {"batch and its files", [&](Rng r) {
            ThermoBatch b(file);
            auto l = load(file).getSubstances();
            std::vector<std::string> s{r.pick(l).symbol(), r.pick(l).symbol()};
            b.setPropertiesUnits({"temperature", "pressure"}, {"degC", "bar"});
            const std::string out = dir + "/memory-" + std::to_string(getpid());
            try { b.thermoPropertiesSubstance(std::vector<double>{25, 50, 75}, std::vector<double>{100, 200}, s, std::vector<std::string>{"gibbs_energy", "volume"}).toCSV(out); } catch (const std::exception&) {}
            try { auto x = b.thermoPropertiesSubstance(25, 1, r.pick(l).symbol(), "entropy"); x.toDouble(); } catch (const std::exception&) {}
            try { auto x = b.thermoPropertiesSubstance(25, 1, "nowhere", "entropy"); x.toDouble(); } catch (const std::exception&) {}
            ::unlink(out.c_str());
        }},
        {"engines assigned", [&](Rng r) { TF a(load(file)), b(load(file)); auto l = a.database().getSubstances(); for (int k = 0; k < 8; k++) { Q q; q.T = some_T(r); q.P = some_P(r); q.sym = r.pick(l).symbol(); put(a, q); put(b, q); if (r.coin(0.3)) a = b; if (r.coin(0.2)) { TF c(a); put(c, q); b = c; } } }},
    };
    for (int i = 0; i < (o.thorough ? 40 : 3); i++)
        for (auto& path : dbs)
            for (auto& life : lives)
            {
                if (!o.thorough && i && fs::file_size(path) > 300000) continue;
                if (!run(std::string("life|") + life.name + "|" + base(path))) continue;
                Rng r = run.rng;
                file = path;
                text = slurp(path);
                if (text.size() > 60000) text.resize(60000); // the larger data sets are only read as they are
                load(file);
                long long at[5];
                for (auto& x : at)
                {
                    life.live(r); // the same each time
                    x = live_bytes;
                }
                long long least = 1e15;
                for (int k = 2; k < 5; k++) least = std::min(least, at[k] - at[k - 1]);
                rep().eval("lives of objects");
                rep().distinct(std::string(life.name) + base(path) + std::to_string(i));
                rep().maxed("bytes kept by each life", double(least));
                if (least > 0) rep().violation(std::string("kept after: ") + life.name, json{{"data", base(path)}, {"bytes each time", least}});
            }
    rep().maxed("allocations seen by the monitor", double(allocations));
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv);
    Cases run(o);
    std::string mode = o.rest.empty() ? "histories" : o.rest[0];
    if (mode == "histories") histories(o, run);
    else if (mode == "lives") lives(o, run);
    else return 97;
    rep().summary();
}
