// Histories of calls to engines: P04 (history), P05 (settings), P06 (copies), P08 (failures).
// Oracle: the same question asked of a new engine, built from the same data with the same
// settings, that never cached anything.
#include "pool.h"
using namespace vf;

static json diff(const Answer& got, const Answer& want) { return json{{"got", got.shown}, {"expected", want.shown}}; }

struct Settings
{
    EnginePreferences p;
    EngineConventions c;
};
static TF reference_engine(const Database& db, Settings s)
{
    TF e(db);
    s.p.enable_memoize = false;
    e.preferences() = s.p;
    e.conventions() = s.c;
    return e;
}
// what appending a record does, by way of a new database and the replacing setters
static void replace(Database& db, const std::string& record, const std::string& label)
{
    Database one;
    one.appendData(std::vector<std::string>{record}, label);
    for (auto& x : one.getSubstances()) db.setSubstance(x);
    for (auto& x : one.getReactions()) db.setReaction(x);
}
// the kind of difference, so that different defects are reported apart
static std::string aspect(const Answer& a, const Answer& b)
{
    if (a.ok != b.ok) return a.ok ? "value instead of error" : "error instead of value";
    if (a.ok && a.image.substr(0, a.image.size() - 8) == b.image.substr(0, b.image.size() - 8)) return "output pressure";
    return "values";
}

static SmallDb pick_db(const Options& o, Rng& r, size_t i, size_t nsub = 18, size_t nreact = 10)
{
    static const std::vector<std::string> dbs = databases(o);
    if (i % 3 == 0)
    {
        auto& w = r.pick(water_kinds());
        bool common = r.coin(0.5);
        return model_small(common ? int(MethodCorrT_Thrift::CTM_WWP) : w.eos, common ? int(MethodGenEoS_Thrift::CTPM_WJNR) : w.diel);
    }
    return small_db(r.pick(dbs), r, nsub, nreact);
}

// Questions that are easily taken for one another: neighbouring doubles, the same numbers in
// other places, the same symbol asked otherwise.
static std::vector<Q> question_pool(Rng& r, const SmallDb& d, size_t n)
{
    std::vector<Q> v;
    while (v.size() < n)
    {
        Q q = some_query(r, d);
        v.push_back(q);
        int k = r.below(8);
        Q w = q;
        if (k == 0) w.T = std::nextafter(q.T, 1e9), w.T = std::nextafter(w.T, 1e9);
        else if (k == 1) w.T = q.T + 1e-7 * (1 + r.below(9));
        else if (k == 2) w.P = q.P + (q.P > 0 ? q.P * 1e-9 : 1e5);
        else if (k == 3) w.P = q.P == 0 ? 1e5 : q.P * 1.001;
        else if (k == 4) w.sym = r.pick(q.kind == SOLVENT || q.kind == ELECTRO ? d.waters : q.kind == SUBST || q.kind == SUBST_OBJ || d.reactions.empty() ? d.substances : d.reactions);
        else if (k == 5) { if (q.kind == SOLVENT) w.kind = ELECTRO; else if (q.kind == ELECTRO) w.kind = SUBST; else if (q.kind >= REACT && q.kind <= REACTANTS_OBJ) w.kind = REACT + r.below(4); else if (q.kind == SUBST_OBJ) w.kind = SUBST; }
        else if (k == 6) w.state = int(r.below(3)) - 1;
        else continue;
        if (w.kind == EQUATION && w.sym.find('=') == std::string::npos) continue;
        v.push_back(w);
    }
    return v;
}

static void history(const Options& o, Cases& run)
{
    size_t n = o.thorough ? 4000 : 320;
    for (size_t i = 0; i < n; i++)
    {
        if (!run("history|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick_db(o, r, i);
        Settings s;
        s.p.enable_memoize = r.coin(0.85);
        static const size_t sizes[] = {0, 1, 2, 3, 7, 1000000};
        s.p.max_cache_size = sizes[r.below(6)];
        s.p.fallback_to_reference_properties = r.coin(0.25);
        s.p.apply_pressure_correction_to_gas_props = r.coin(0.3);
        if (r.coin(0.2)) s.c.apparent_properties = "BERMAN_BROWN";
        if (r.coin(0.2)) s.c.water_properties = "STEAM_TABLES";
        if (r.coin(0.5) && !d.waters.empty()) s.p.solvent_symbol = r.pick(d.waters);
        TF e(d.db);
        if (r.coin()) e.setPreferences(s.p); else e.preferences() = s.p;
        e.conventions() = s.c;
        if (e.preferences().enable_memoize != s.p.enable_memoize) e.preferences() = s.p;
        auto pool = question_pool(r, d, 10 + r.below(12));
        std::map<size_t, Answer> oracle;
        std::string trace;
        size_t steps = 30 + r.below(40);
        for (size_t k = 0; k < steps; k++)
        {
            size_t q = r.below(pool.size());
            if (r.coin(0.3)) q = r.below(std::min<size_t>(pool.size(), 5));
            run.doing("history|" + std::to_string(i) + " " + d.source + " " + pool[q].text());
            if (!oracle.count(q)) oracle[q] = ask(reference_engine(d.db, s), pool[q]);
            Answer a = ask(e, pool[q]);
            rep().eval("answers compared");
            trace += pool[q].text() + "; ";
            if (a.ok) rep().count(std::string("answered: ") + kind_name(pool[q].kind)); else rep().count("errors");
            if (a.ok) rep().distinct(d.source + " " + pool[q].text() + " memo=" + std::to_string(s.p.enable_memoize) + " size=" + std::to_string(s.p.max_cache_size));
            if (a.image != oracle[q].image)
            {
                auto want = ask(reference_engine(d.db, s), pool[q], true);
                auto got = ask(e, pool[q], true);
                rep().violation(std::string("answer depends on earlier queries: ") + kind_name(pool[q].kind) + " " + aspect(a, oracle[q]),
                    json{{"db", d.source}, {"query", pool[q].text()}, {"again", diff(got, want)}, {"memo", s.p.enable_memoize}, {"cache", s.p.max_cache_size}, {"history", trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)}});
                break;
            }
        }
    }
}

// ------------------------------------------------------------------------- settings
// a changed copy of a record, as JSON or as an object
static Substance changed(const Substance& s, Rng& r)
{
    Substance c = s;
    auto p = c.thermoReferenceProperties();
    p.gibbs_energy.val += 1000 * (1 + r.below(9));
    p.entropy.val += 1 + r.below(9);
    p.enthalpy.val -= 500 * (1 + r.below(9));
    c.setThermoReferenceProperties(p);
    return c;
}

static void settings(const Options& o, Cases& run)
{
    size_t n = o.thorough ? 3000 : 240;
    static const std::vector<std::string> dbs = databases(o);
    for (size_t i = 0; i < n; i++)
    {
        if (!run("settings|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick_db(o, r, i, 14, 8);
        Settings s;
        TF e(d.db);
        Database now = d.db; // what the engine's database should be
        if (r.coin(0.3)) { s.p.max_cache_size = r.below(4); e.setPreferences(s.p); }
        auto pool = question_pool(r, d, 8 + r.below(8));
        std::string trace;
        for (size_t k = 0, steps = 25 + r.below(30); k < steps; k++)
        {
            int what = r.below(14);
            std::string did;
            auto& p = e.preferences();
            switch (what)
            {
            case 0: s.p.apply_pressure_correction_to_gas_props ^= true; p.apply_pressure_correction_to_gas_props = s.p.apply_pressure_correction_to_gas_props; did = "gas correction toggled"; break;
            case 1: s.p.fallback_to_reference_properties ^= true; p.fallback_to_reference_properties = s.p.fallback_to_reference_properties; did = "fallback toggled"; break;
            case 2: s.p.enable_memoize ^= true; s.p.max_cache_size = r.below(4); { auto q = e.preferences(); q.enable_memoize = s.p.enable_memoize; q.max_cache_size = s.p.max_cache_size; e.setPreferences(q); } p.enable_memoize = s.p.enable_memoize; p.max_cache_size = s.p.max_cache_size; did = "memoize changed"; break;
            case 3: s.c.apparent_properties = s.c.apparent_properties == "BERMAN_BROWN" ? "BENSON_HELGESON" : "BERMAN_BROWN"; e.conventions().apparent_properties = s.c.apparent_properties; did = "apparent " + s.c.apparent_properties; break;
            case 4: s.c.water_properties = s.c.water_properties == "STEAM_TABLES" ? "GEOCHEMICAL" : "STEAM_TABLES"; e.conventions().water_properties = s.c.water_properties; did = "water " + s.c.water_properties; break;
            case 5: if (!d.waters.empty()) { s.p.solvent_symbol = r.pick(d.waters); if (r.coin()) e.setSolventSymbol(s.p.solvent_symbol); else e.solventSymbol() = s.p.solvent_symbol; did = "solvent " + s.p.solvent_symbol; } break;
            case 6: // records of the same data set, changed, appended as JSON
            {
                std::string sym = r.pick(d.substances);
                std::string js = now.getSubstance(sym).jsonString();
                if (js.empty() || js[0] != '{') break;
                json j = json::parse(js);
                for (auto key : {"sm_gibbs_energy", "sm_entropy_abs", "sm_enthalpy", "sm_volume"})
                    if (j.contains(key) && j[key].contains("values") && !j[key]["values"].empty() && j[key]["values"][0].is_number())
                        j[key]["values"][0] = j[key]["values"][0].get<double>() * (1 + 0.001 * (1 + r.below(9))) + 1;
                j["_label"] = "substance";
                try { e.appendData(std::vector<std::string>{j.dump()}, "substance"); replace(now, j.dump(), "substance"); did = "appended " + sym; rep().count("records appended"); }
                catch (const std::exception& x) { did = std::string("append failed ") + x.what(); }
                break;
            }
            case 7: // and a changed reaction
            {
                if (d.reactions.empty()) break;
                std::string sym = r.pick(d.reactions);
                std::string js = now.getReaction(sym).jsonString();
                if (js.empty() || js[0] != '{') break;
                json j = json::parse(js);
                for (auto key : {"logKr", "drsm_heat_capacity_p", "drsm_gibbs_energy", "drsm_enthalpy", "drsm_entropy", "drsm_volume"})
                    if (j.contains(key) && j[key].contains("values") && !j[key]["values"].empty() && j[key]["values"][0].is_number())
                        j[key]["values"][0] = j[key]["values"][0].get<double>() * (1 + 0.001 * (1 + r.below(9))) + 0.1;
                j["_label"] = "reaction";
                try { e.appendData(std::vector<std::string>{j.dump()}, "reaction"); replace(now, j.dump(), "reaction"); did = "appended reaction " + sym; rep().count("reactions appended"); }
                catch (const std::exception& x) { did = std::string("append failed ") + x.what(); }
                break;
            }
            default: break;
            }
            if (!did.empty()) { trace += "[" + did + "]; "; rep().count("changes of settings or data"); }
            // repeat one question of before, and one at random
            size_t q = r.below(r.coin(0.6) ? std::min<size_t>(4, pool.size()) : pool.size());
            run.doing("settings|" + std::to_string(i) + " " + d.source + " " + pool[q].text());
            Answer want = ask(reference_engine(now, s), pool[q]);
            Answer a = ask(e, pool[q]);
            trace += pool[q].text() + "; ";
            rep().eval("answers compared");
            if (a.ok) rep().distinct(d.source + " " + pool[q].text() + did);
            if (a.image != want.image)
            {
                rep().violation("query after a change answers as before it: " + aspect(a, want),
                    json{{"db", d.source}, {"query", pool[q].text()}, {"again", diff(ask(e, pool[q], true), ask(reference_engine(now, s), pool[q], true))}, {"history", trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)}});
                break;
            }
        }
    }
}

// ------------------------------------------------------------------------- copies
static void copies(const Options& o, Cases& run)
{
    size_t n = o.thorough ? 3000 : 240;
    for (size_t i = 0; i < n; i++)
    {
        if (!run("copies|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick_db(o, r, i, 12, 6);
        auto pool = question_pool(r, d, 10);
        struct Member { std::unique_ptr<TF> e; Database db; Settings s; };
        std::vector<Member> v;
        v.push_back({std::make_unique<TF>(d.db), d.db, {}});
        std::string trace;
        bool bad = false;
        for (size_t k = 0, steps = 30 + r.below(30); k < steps && !bad; k++)
        {
            int what = r.below(12);
            size_t m = r.below(v.size());
            if (what == 0 && v.size() < 5)
            {
                v.push_back({std::make_unique<TF>(*v[m].e), v[m].db, v[m].s});
                trace += "copy of " + std::to_string(m) + "; ";
            }
            else if (what == 1 && v.size() > 1)
            {
                size_t t = r.below(v.size());
                *v[t].e = *v[m].e; // also self-assignment
                v[t].db = v[m].db; v[t].s = v[m].s;
                trace += std::to_string(t) + " = " + std::to_string(m) + "; ";
            }
            else if (what == 2 && v.size() > 1)
            {
                v.erase(v.begin() + m);
                trace += "destroy " + std::to_string(m) + "; ";
                continue;
            }
            else if (what == 3)
            {
                auto& s = v[m].s;
                switch (r.below(5))
                {
                case 0: s.p.apply_pressure_correction_to_gas_props ^= true; break;
                case 1: s.p.fallback_to_reference_properties ^= true; break;
                case 2: s.c.apparent_properties = s.c.apparent_properties == "BERMAN_BROWN" ? "BENSON_HELGESON" : "BERMAN_BROWN"; break;
                case 3: s.c.water_properties = s.c.water_properties == "STEAM_TABLES" ? "GEOCHEMICAL" : "STEAM_TABLES"; break;
                case 4: if (!d.waters.empty()) s.p.solvent_symbol = r.pick(d.waters); break;
                }
                v[m].e->preferences() = s.p;
                v[m].e->conventions() = s.c;
                trace += "set " + std::to_string(m) + "; ";
            }
            else if (what == 4)
            {
                std::string sym = r.pick(d.substances);
                std::string js = v[m].db.getSubstance(sym).jsonString();
                if (!js.empty() && js[0] == '{')
                {
                    json j = json::parse(js);
                    for (auto key : {"sm_gibbs_energy", "sm_entropy_abs", "sm_enthalpy"})
                        if (j.contains(key) && j[key].contains("values") && !j[key]["values"].empty() && j[key]["values"][0].is_number())
                            j[key]["values"][0] = j[key]["values"][0].get<double>() * 1.01 + 1;
                    try { v[m].e->appendData(std::vector<std::string>{j.dump()}, "substance"); replace(v[m].db, j.dump(), "substance"); trace += "append to " + std::to_string(m) + "; "; rep().count("records appended"); }
                    catch (const std::exception&) {}
                }
            }
            // any one of them answers from its own data and settings
            m = r.below(v.size());
            auto& q = pool[r.below(pool.size())];
            run.doing("copies|" + std::to_string(i) + " " + d.source + " " + q.text());
            Answer want = ask(reference_engine(v[m].db, v[m].s), q);
            Answer a = ask(*v[m].e, q);
            trace += "ask " + std::to_string(m) + " " + q.text() + "; ";
            rep().eval("answers of engines compared");
            rep().maxed("engines alive", v.size());
            if (a.ok) rep().distinct(d.source + " " + q.text() + " of " + std::to_string(v.size()));
            if (a.image != want.image)
            {
                rep().violation("engine copy: " + aspect(a, want), json{{"db", d.source}, {"query", q.text()}, {"again", diff(ask(*v[m].e, q, true), ask(reference_engine(v[m].db, v[m].s), q, true))},
                    {"history", trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)}});
                bad = true;
            }
        }
    }
    // records and databases are values too: changing a copy leaves the original, and the reverse
    for (size_t i = 0; i < (o.thorough ? 600 : 48); i++)
    {
        if (!run("value copies|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick_db(o, r, i, 10, 6);
        // substances
        auto img = [](const Substance& s) {
            auto t = s.thermoParameters();
            json j{{"sym", s.symbol()}, {"name", s.name()}, {"f", s.formula()}, {"rs", s.reactionSymbol()}, {"m", {int(s.methodGenEOS()), int(s.method_T()), int(s.method_P())}}, {"T", s.referenceT()}, {"P", s.referenceP()},
                {"q", s.charge()}, {"mm", s.molarMass()}, {"lim", {s.lowerT(), s.upperT(), s.lowerP(), s.upperP()}}, {"cls", int(s.substanceClass())}, {"st", int(s.aggregateState())}, {"ct", int(s.thermoCalculationType())},
                {"cp", t.Cp_coeff}, {"ti", t.temperature_intervals}, {"hkf", t.HKF_parameters}, {"cr", t.critical_parameters}, {"js", s.jsonString()}};
            return j.dump() + vf::image(s.thermoReferenceProperties());
        };
        auto rimg = [](const Reaction& s) {
            auto t = s.thermoParameters();
            json j{{"sym", s.symbol()}, {"name", s.name()}, {"eq", s.equation()}, {"re", s.reactants()}, {"m", {int(s.methodGenEOS()), int(s.method_T()), int(s.method_P())}}, {"T", s.referenceT()}, {"P", s.referenceP()},
                {"lim", {s.lowerT(), s.upperT(), s.lowerP(), s.upperP()}}, {"lk", t.reaction_logK_fT_coeff}, {"cp", t.reaction_Cp_fT_coeff}, {"rb", t.reaction_RB_coeff}, {"js", s.jsonString()}};
            return j.dump() + vf::image(s.thermoReferenceProperties());
        };
        for (int k = 0; k < 12; k++)
        {
            Substance a = d.db.getSubstance(r.pick(d.substances));
            std::string before = img(a);
            Substance b = a, c;
            c = a;
            bool other = r.coin();
            Substance& t = other ? a : b; // changed
            std::string other_before = img(other ? b : a);
            switch (r.below(9))
            {
            case 0: t.setSymbol("zz"); break;
            case 1: t = changed(t, r); break;
            case 2: { auto p = t.thermoParameters(); p.Cp_coeff.push_back({1, 2, 3}); p.HKF_parameters.assign(7, 1.0); t.setThermoParameters(p); } break;
            case 3: t.setReferenceT(t.referenceT() + 1); break;
            case 4: t.setMethodGenEoS(MethodGenEoS_Thrift::CTPM_CON); t.setMethod_P(MethodCorrP_Thrift::CPM_CORK); break;
            case 5: t.setFormula("XxYy"); t.setCharge(7); break;
            case 6: t.setReactionSymbol("zz"); t.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); break;
            case 7: t.setJsonString("{}"); break;
            case 8: t.setUpperT(1); t.setLowerP(2); t.setMolarMass(1e6); break;
            }
            rep().eval("record copies compared");
            if (img(other ? b : a) != other_before || img(c) != before)
                rep().violation("changing one substance changes its copy", json{{"db", d.source}, {"substance", before.substr(0, 500)}});
        }
        for (int k = 0; k < 8 && !d.reactions.empty(); k++)
        {
            Reaction a = d.db.getReaction(r.pick(d.reactions));
            std::string before = rimg(a);
            Reaction b = a, c;
            c = a;
            bool other = r.coin();
            Reaction& t = other ? a : b;
            std::string other_before = rimg(other ? b : a);
            switch (r.below(7))
            {
            case 0: t.setSymbol("zz"); break;
            case 1: { auto p = t.thermoReferenceProperties(); p.log_equilibrium_constant.val += 1; t.setThermoReferenceProperties(p); } break;
            case 2: { auto p = t.thermoParameters(); p.reaction_logK_fT_coeff.assign(7, 1); p.reaction_Cp_fT_coeff.push_back(4); t.setThermoParameters(p); } break;
            case 3: { auto m = t.reactants(); m["zz"] += 2; t.setReactants(m); } break;
            case 4: t.setReferenceP(77); t.setUpperT(1); break;
            case 5: t.setMethod_T(MethodCorrT_Thrift::CTM_EK0); t.setMethod_P(MethodCorrP_Thrift::CPM_VBE); break;
            case 6: t.fromEquation("zz + 2yy = xx"); break;
            }
            rep().eval("record copies compared");
            if (rimg(other ? b : a) != other_before || rimg(c) != before)
                rep().violation("changing one reaction changes its copy", json{{"db", d.source}, {"reaction", before.substr(0, 500)}});
        }
        // databases; the engine keeps the data it was given
        {
            Database a = d.db;
            TF e(a);
            Q q;
            q.sym = r.pick(d.substances);
            q.T = 350; q.P = 1e7;
            Database c;
            c = a;
            Answer want = ask(reference_engine(d.db, {}), q);
            Substance x = changed(a.getSubstance(q.sym), r);
            if (r.coin()) a.setSubstance(x); else a.substance(q.sym) = x;
            Answer got = ask(e, q), got2 = ask(TF(c), q), got3 = ask(TF(d.db), q);
            rep().eval("databases compared", 3);
            if (got.image != want.image) rep().violation("changing a database changes the engine built from it", json{{"db", d.source}, {"q", q.text()}});
            if (got2.image != want.image || got3.image != want.image) rep().violation("changing a database changes its copy", json{{"db", d.source}, {"q", q.text()}});
            if (img(a.getSubstance(q.sym)) != img(x)) rep().violation("a record set in a database is not the one found in it", json{{"db", d.source}, {"q", q.text()}});
            // an unmodified copy lists the same records
            if (c.getSubstancesList() != d.db.getSubstancesList() || c.getReactionsList() != d.db.getReactionsList() || c.getElementsList() != d.db.getElementsList())
                rep().violation("a copied database lists other records", json{{"db", d.source}});
        }
    }
}

// ------------------------------------------------------------------------- failures
static void failures(const Options& o, Cases& run)
{
    size_t n = o.thorough ? 3000 : 200;
    for (size_t i = 0; i < n; i++)
    {
        if (!run("failures|" + std::to_string(i))) continue;
        Rng& r = run.rng;
        SmallDb d = pick_db(o, r, i, 12, 8);
        // some records refer to what is not there
        {
            SubstanceSpec k; k.symbol = "X_noreac"; k.formula = "SiO2"; k.cls = SubstanceClass::AQSOLUTE;
            Substance s = make(k); s.setReactionSymbol("no such reaction"); s.setThermoCalculationType(SubstanceThermoCalculationType::REACDC);
            d.db.addSubstance(s);
            k.symbol = "X_short"; k.genEos = MethodGenEoS_Thrift::CTPM_HKF; k.par.HKF_parameters = {1, 2};
            d.db.addSubstance(make(k));
            Reaction x = reaction_of("X_missing", {{"not there", -1}, {d.substances[0], 1}});
            d.db.addReaction(x);
            // a substance defined by a reaction that is defined by the substance only
            Reaction y = reaction_of("X_loop", {{"X_self", 1}, {d.substances[0], -1}});
            d.db.addReaction(y);
            Substance z = make(SubstanceSpec{"X_self", "SiO2"});
            z.setReactionSymbol("X_loop"); z.setThermoCalculationType(SubstanceThermoCalculationType::REACDC);
            d.db.addSubstance(z);
        }
        Settings s;
        s.p.fallback_to_reference_properties = r.coin(0.3);
        s.p.max_cache_size = r.below(3);
        TF e(d.db);
        e.preferences() = s.p;
        auto good = question_pool(r, d, 8);
        std::vector<Q> bad;
        auto bq = [&](int kind, std::string sym, double T = 300, double P = 1e6) { Q q; q.kind = kind; q.sym = sym; q.T = T; q.P = P; bad.push_back(q); };
        for (std::string u : {std::string("no such thing"), std::string(""), std::string("h2o@"), d.substances[0] + " ", std::string("Xyz+")})
        {
            if (d.db.containsSubstance(u)) continue;
            bq(SUBST, u);
            bq(SOLVENT, u);
            bq(ELECTRO, u);
            if (!d.db.containsReaction(u)) { bq(REACT, u); bq(REACTANTS, u); }
            if (u.empty() || u.back() == ' ') continue;
            bq(EQUATION, u + " = " + d.substances[0]);
            bq(EQUATION, d.substances[0] + " = 2*" + u);
        }
        bq(REACT, "X_missing");
        bq(REACTANTS, "X_missing");
        bq(SUBST, "X_noreac");
        bq(SUBST, "X_short");
        bq(REACT, "X_loop");
        bq(REACTANTS, "X_loop");
        bq(SUBST, "X_self");
        std::string trace;
        for (int k = 0; k < 40; k++)
        {
            if (r.coin(0.5))
            {
                Q q = r.pick(bad);
                run.doing("failures|" + std::to_string(i) + " " + d.source + " bad " + q.text());
                double P = q.P;
                auto before = e.preferences();
                Answer a = ask(e, q, true); // anything that is not a std::exception ends the process
                rep().eval("invalid queries");
                trace += "bad " + q.text() + "; ";
                if (a.ok)
                    rep().violation(std::string("invalid query is answered: ") + kind_name(q.kind) + " " + (q.sym.substr(0, 2) == "X_" ? q.sym : q.sym.find('=') != std::string::npos ? "equation with unknown substance" : "unknown symbol"),
                        json{{"db", d.source}, {"query", q.text()}, {"got", a.shown}});
                else
                    rep().distinct(std::string(kind_name(q.kind)) + " " + q.sym + a.shown["error"].get<std::string>().substr(0, 60));
                (void)P;
                auto after = e.preferences();
                if (after.apply_pressure_correction_to_gas_props != before.apply_pressure_correction_to_gas_props || after.fallback_to_reference_properties != before.fallback_to_reference_properties || after.enable_memoize != before.enable_memoize || after.max_cache_size != before.max_cache_size)
                    rep().violation("a failed query changes the preferences", json{{"db", d.source}, {"query", q.text()}});
            }
            else
            {
                auto& q = r.pick(good);
                run.doing("failures|" + std::to_string(i) + " " + d.source + " " + q.text());
                Answer want = ask(reference_engine(d.db, s), q);
                Answer a = ask(e, q);
                rep().eval("valid queries after failures");
                trace += q.text() + "; ";
                if (a.image != want.image)
                {
                    rep().violation("after a failed query: " + aspect(a, want), json{{"db", d.source}, {"query", q.text()}, {"again", diff(ask(e, q, true), ask(reference_engine(d.db, s), q, true))}, {"history", trace}});
                    break;
                }
            }
        }
        // unknown symbols at the database
        for (std::string u : {"no such thing", "", "?"})
        {
            int ok = 0;
            auto fails = [&](auto f, const char* what) { try { f(); rep().violation(std::string("unknown symbol is found: ") + what, json{{"symbol", u}}); } catch (const std::exception&) { ok++; } rep().eval("unknown symbols"); };
            const Database& c = d.db;
            if (!c.containsSubstance(u)) { fails([&] { c.getSubstance(u); }, "substance"); }
            if (!c.containsReaction(u)) { fails([&] { c.getReaction(u); }, "reaction"); }
            if (!c.containsElement(u)) { fails([&] { c.getElement(u); }, "element"); }
        }
        // a record without any model: reference values with the fallback, and never another number
        for (auto& sym : d.substances)
        {
            auto& su = d.db.getSubstance(sym);
            if (su.symbol() == "H+") continue;
            auto ref = su.thermoReferenceProperties();
            Settings f = s;
            f.p.fallback_to_reference_properties = false;
            Q q; q.sym = sym; q.T = some_T(r); q.P = r.logu(1e5, 2e8);
            TF e0 = reference_engine(d.db, f);
            f.p.fallback_to_reference_properties = true;
            TF e1 = reference_engine(d.db, f);
            auto a = query(q.P, [&](double& P) { return e0.thermoPropertiesSubstance(q.T, P, sym); });
            auto b = query(q.P, [&](double& P) { return e1.thermoPropertiesSubstance(q.T, P, sym); });
            if (!a.ok || !b.ok)
            {
                rep().count("fallback: query fails");
                if (a.ok != b.ok && su.reactionSymbol().empty()) rep().violation("the fallback changes whether a query fails", json{{"db", d.source}, {"substance", sym}, {"off", a.show()}, {"on", b.show()}});
                continue;
            }
            if (!su.reactionSymbol().empty()) continue; // the fallback also applies to the other substances of its reaction
            for (auto& p : substance_props())
            {
                auto &x = a.value.*p.p, &y = b.value.*p.p, &z = ref.*p.p;
                rep().eval("properties with and without fallback");
                bool undefined = x.sta.first == Reaktoro_::Status::notdefined;
                auto& want = undefined ? z : x;
                if (!same_bits(y.val, want.val))
                    rep().violation(std::string("fallback: ") + p.name + (undefined ? " is not the reference value" : " calculated value replaced"), json{{"db", d.source}, {"substance", sym}, {"query", q.text()}, {"off", jnum(x.val)}, {"on", jnum(y.val)}, {"reference", jnum(z.val)}});
                if (undefined && z.sta.first != Reaktoro_::Status::notdefined) { rep().count("values taken from the reference"); rep().distinct("fallback " + sym + p.name); }
            }
        }
    }
}

int main(int c, char** v)
{
    auto o = parse(c, v);
    Cases run(o);
    std::string mode = o.rest.empty() ? "history" : o.rest[0];
    if (mode == "history") history(o, run);
    else if (mode == "settings") settings(o, run);
    else if (mode == "copies") copies(o, run);
    else if (mode == "failures") failures(o, run);
    else return 97;
    rep().summary();
}
