// P02: malformed databases, records, units and equations, in builds with sanitizers.
#include "records.h"
using namespace vf;

namespace {
std::string garbage(Rng& r, size_t n)
{
    std::string s;
    static const char some[] = "0123456789eE+-*/^()[]{}|@.,:;= \t\n\"\\'aHKJmolbarTP_%\xc3\xa9\xff\x01";
    for (size_t i = 0; i < n; i++) s += r.coin(0.9) ? some[r.below(sizeof some - 1)] : char(r.below(256));
    return s;
}
std::string some_text(Rng& r)
{
    switch (r.below(10))
    {
    case 0: return "";
    case 1: return r.pick(std::vector<std::string>{"NaN", "inf", "-1", "1e999", "99999999999999999999999", "0x10", " ", "null", "{}", "\xff\xfe", "5", "degC", "Na+", "*"});
    case 2: return std::string(1 + r.below(2000), r.coin() ? '(' : 'x');
    case 3: return r.pick(std::vector<std::string>{"J/mol", "cal/(mol*K)", "K/bar", "1/K", "m^3", "kbar", "J/K/mol", "degC", "J*K/(mol*", "J/(", "^2", "m^", "m^^2", "m^999999999999999999999", "/", "J//mol", "(cm^3*K^0.5)/g", "K^1e400", "1e400*K"});
    default: return garbage(r, r.below(30));
    }
}
json hostile_number(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return r.pick(std::vector<json>{0, -1, INT64_MAX, INT64_MIN, UINT64_MAX, 2147483648ll, -2147483649ll, 256, 99, 1000000});
    case 1: return r.pick(std::vector<json>{1e300, -1e300, 1e19, 4.9e-324, 0.5, -0.0, 2147483647.5, 1e10});
    case 2: return r.u(-10, 10);
    default: return int(r.below(400)) - 20;
    }
}
json some_json(Rng& r, int depth = 0)
{
    switch (r.below(depth > 3 ? 5 : 8))
    {
    case 0: return nullptr;
    case 1: return hostile_number(r);
    case 2: return some_text(r);
    case 3: return r.coin();
    case 4: return json::array();
    case 5: { json a = json::array(); for (int n = r.below(6); n-- > 0;) a.push_back(some_json(r, depth + 1)); return a; }
    case 6: { json a = json::object(); for (int n = r.below(4); n-- > 0;) a[some_text(r)] = some_json(r, depth + 1); return a; }
    default: { json a = json::object(); a[std::to_string(int(r.below(320)))] = some_text(r); return a; }
    }
}
// places of a document where it can be changed
void places(json& j, std::vector<json*>& v)
{
    v.push_back(&j);
    if (j.is_structured())
        for (auto& x : j) places(x, v);
}
std::string mutate(json& j, Rng& r)
{
    std::vector<json*> v;
    places(j, v);
    json& p = *r.pick(v);
    switch (r.below(9))
    {
    case 0: p = some_json(r); return "other value; ";
    case 1:
        if (p.is_object() && !p.empty()) { auto it = p.begin(); std::advance(it, r.below(p.size())); std::string k = it.key(); p.erase(k); return "without " + k + "; "; }
        if (p.is_array() && !p.empty()) { p.erase(r.below(p.size())); return "shorter; "; }
        p = some_json(r); return "other value; ";
    case 2:
        if (p.is_array()) { for (int n = 1 + r.below(20); n-- > 0;) p.push_back(p.empty() || r.coin(0.3) ? some_json(r) : json(p[0])); return "longer; "; }
        p = json::array({p}); return "in an array; ";
    case 3:
        if (p.is_object() && !p.empty())
        { // a value under another key
            auto it = p.begin(); std::advance(it, r.below(p.size()));
            json x = it.value(); p.erase(it.key()); p[some_text(r)] = x; return "renamed; ";
        }
        p = hostile_number(r); return "number; ";
    case 4: { json& q = *r.pick(v); json x = q; p = x; return "copied from elsewhere; "; }
    case 5: if (p.is_number()) { p = hostile_number(r); return "number; "; } if (p.is_string()) { p = some_text(r); return "text; "; } p = nullptr; return "null; ";
    default: break;
    }
    // what kinds of values records have
    std::vector<json*> leaves;
    for (auto* x : v) if (!x->is_structured()) leaves.push_back(x);
    if (leaves.empty()) return "";
    json& l = *r.pick(leaves);
    if (l.is_number()) { l = hostile_number(r); return "number; "; }
    if (l.is_string()) { l = some_text(r); return "text; "; }
    l = some_json(r);
    return "leaf; ";
}
std::string damage_text(std::string& s, Rng& r)
{
    switch (r.below(6))
    {
    case 0: s.resize(r.below(s.size() + 1)); return "cut; ";
    case 1: for (int n = 1 + r.below(5); n-- > 0 && !s.empty();) s[r.below(s.size())] = char(r.below(256)); return "bytes; ";
    case 2: s.insert(r.below(s.size() + 1), some_text(r)); return "inserted; ";
    case 3: { size_t a = r.below(s.size() + 1); s.erase(a, r.below(40)); return "erased; "; }
    case 4: s = garbage(r, r.below(200)); return "garbage; ";
    default: { int n = 1 + r.below(300); std::string a, b; for (; n-- > 0;) { a += r.coin() ? "[" : "{\"a\":"; b = (a.back() == '[' ? "]" : "}") + b; } s = a + "1" + b; return "nested; "; }
    }
}

// the call; anything but success or std::exception ends the process or is reported
template <class F> bool attempt(const std::string& label, F&& f)
{
    try { f(); rep().eval("accepted"); return true; }
    catch (const std::exception&) { rep().eval("rejected by an exception"); }
    catch (...) { rep().violation("not a std::exception:" + label, {{"what", rep().case_what}}); }
    return false;
}

// what was loaded before
struct Before
{
    Database db;
    std::vector<std::string> symbols, reactions;
    std::vector<Q> queries;
    std::vector<std::string> images;
    Before()
    {
        SmallDb d = model_small();
        db = d.db;
        symbols = d.substances; reactions = d.reactions;
        for (auto s : {"H2O@", "M_Landau", "M_AD", "M_ReakHKF", "D_SiO4", "G_PRSV"}) { Q q; q.sym = s; q.T = 350; q.P = 5e6; queries.push_back(q); }
        for (auto s : {"R_logK7", "R_react"}) { Q q; q.kind = REACT; q.sym = s; q.T = 350; q.P = 5e6; queries.push_back(q); }
        images = answers(db);
    }
    std::vector<std::string> answers(const Database& x) const
    {
        TF e(x);
        e.setSolventSymbol("H2O@");
        std::vector<std::string> v;
        for (auto& q : queries) v.push_back(ask(e, q).image);
        return v;
    }
    bool has(const std::string& s) const
    {
        return std::find(symbols.begin(), symbols.end(), s) != symbols.end() || std::find(reactions.begin(), reactions.end(), s) != reactions.end();
    }
};

void use(const Database& db, Rng& r, const Before& b, Cases& c, const std::string& label)
{
    // everything that can be read
    std::ostringstream o;
    c.doing(label + " reading|");
    std::vector<std::string> symbols, reactions;
    for (auto& s : db.getSubstances())
    {
        if (b.has(s.symbol())) continue;
        symbols.push_back(s.symbol());
        attempt(label + " shown", [&] { o << s << s.jsonString() << s.name() << s.formula() << s.charge() << s.molarMass() << s.reactionSymbol(); });
    }
    for (auto& s : db.getReactions())
    {
        if (b.has(s.symbol())) continue;
        reactions.push_back(s.symbol());
        attempt(label + " shown", [&] { o << s << s.jsonString() << s.name() << s.equation(); });
    }
    for (auto& s : db.getElements()) attempt(label + " shown", [&] { o << s.symbol() << s.jsonString() << s.name() << s.entropy() << s.molarMass(); });
    TF e(db);
    if (r.coin(0.8)) e.setSolventSymbol("H2O@");
    for (auto& s : symbols)
        for (int k : {SUBST, SOLVENT})
        {
            if (k == SOLVENT && !r.coin(0.2)) continue;
            Q q; q.kind = k; q.sym = s; q.T = some_T(r); q.P = some_P(r);
            c.doing(label + " calculation|" + q.text().substr(0, 300));
            attempt(label + " calculation", [&] { ask(e, q); });
        }
    for (auto& s : reactions)
    {
        Q q; q.kind = r.coin() ? REACT : REACTANTS; q.sym = s; q.T = some_T(r); q.P = some_P(r);
        c.doing(label + " calculation|" + q.text().substr(0, 300));
        attempt(label + " calculation", [&] { ask(e, q); });
    }
}

void records(const Options& o, Cases& cases)
{
    auto dbs = databases(o);
    std::sort(dbs.begin(), dbs.end(), [](auto& a, auto& b) { return fs::file_size(a) > fs::file_size(b); });
    while (dbs.size() % 8) dbs.push_back(dbs[dbs.size() % 8]);
    static std::map<std::string, json> files;
    std::unique_ptr<Before> before;
    const size_t rounds = o.thorough ? 1500 : 70;
    for (size_t n = 0; n < dbs.size() * rounds; n++)
    {
        size_t block = n / (8 * rounds), j = n % 8;
        auto& path = dbs[block % 2 ? block * 8 + 7 - j : block * 8 + j];
        if (!cases("records of " + base(path))) continue;
        Rng& r = cases.rng;
        if (!before) before = std::make_unique<Before>();
        auto& b = *before;
        if (!files.count(path)) { std::ifstream f(path); files[path] = json::parse(f); }
        json& doc = files[path];
        // a few records
        static const char* kinds[] = {"elements", "substances", "reactions"};
        std::string kind = kinds[r.below(3)];
        if (!doc.contains(kind) || doc[kind].empty()) kind = "substances";
        json recs = json::array();
        for (int k = 1 + r.below(3); k-- > 0;)
        {
            json x = doc[kind][r.below(doc[kind].size())];
            x["symbol"] = x.value("symbol", std::string("x")) + " new";
            recs.push_back(x);
        }
        std::string what;
        for (int k = r.below(4); k-- > 0;) what += mutate(recs, r);
        std::string label = kind.substr(0, kind.size() - 1);
        // how they are given
        json whole = recs;
        if (!recs.is_array()) recs = json::array({recs});
        int way = r.below(8);
        json file = json::object();
        file[kind] = whole;
        if (r.coin(0.2)) file["conventions"] = r.coin() ? some_json(r) : json{{"water_triple_point_reference", some_json(r)}};
        if (r.coin(0.1)) { what += "file " + mutate(file, r); }
        std::string text = file.dump(-1, ' ', false, json::error_handler_t::replace);
        if (r.coin(0.15)) what += "text " + damage_text(text, r);
        std::vector<std::string> texts;
        for (auto& x : recs)
        {
            json y = x;
            if (y.is_object() && r.coin(0.5)) y["_label"] = r.coin(0.8) ? json(label) : some_json(r);
            texts.push_back(y.dump(-1, ' ', false, json::error_handler_t::replace));
            if (r.coin(0.1)) what += "text " + damage_text(texts.back(), r);
        }
        if (what.empty()) what = "as it is; ";
        static const char* ways[] = {"database text", "database file", "append text", "append file", "append records", "records", "set records", "record objects"};
        std::string tag = std::string(ways[way]) + " " + label;
        cases.doing(tag + "|" + what + text.substr(0, 600));
        Database db = b.db;
        std::string fname = o.scratch + "/in.json";
        if (way == 1 || way == 3) { std::ofstream f(fname, std::ios::binary); f << text; }
        std::string given = r.coin(0.9) ? label : some_text(r);
        std::unique_ptr<Database> other;
        switch (way)
        {
        case 0: attempt(tag, [&] { other = std::make_unique<Database>(text); }); break;
        case 1: attempt(tag, [&] { other = std::make_unique<Database>(fname); }); break;
        case 2: attempt(tag, [&] { db.appendData(text); }); break;
        case 3: attempt(tag, [&] { db.appendData(fname); }); break;
        case 4: attempt(tag, [&] { db.appendData(texts, given); }); break;
        case 5: for (auto& t : texts) attempt(tag, [&] { label == "element" ? db.addElement(t) : label == "substance" ? db.addSubstance(t) : db.addReaction(t); }); break;
        case 6: for (auto& t : texts) attempt(tag, [&] { label == "element" ? db.setElement(t) : label == "substance" ? db.setSubstance(t) : db.setReaction(t); }); break;
        case 7: for (auto& t : texts) attempt(tag, [&] {
                if (label == "element") db.addElement(Element(t)); else if (label == "substance") db.addSubstance(Substance(t)); else db.addReaction(Reaction(t)); }); break;
        }
        use(other ? *other : db, r, b, cases, tag);
        cases.doing(tag + "|what was loaded before " + what);
        // (a file's conventions are those of the database from then on)
        if (!other && !file.is_object() || !other && !file.contains("conventions"))
        {
            auto after = b.answers(db);
            for (size_t k = 0; k < after.size(); k++)
                if (after[k] != b.images[k])
                    rep().violation("earlier records changed:" + tag, {{"query", b.queries[k].text()}, {"damage", what}, {"text", text.substr(0, 3000)}});
            rep().eval("earlier records asked again", after.size());
            for (auto& s : b.symbols) if (!db.containsSubstance(s)) rep().violation("earlier record lost:" + tag, {{"symbol", s}, {"damage", what}});
        }
        rep().distinct(tag + " " + what);
    }
}

// every place of a record (of each method), with each kind of value in it
void shapes_of(const json& j, const std::string& at, std::vector<std::pair<std::string, json::json_pointer>>& v, const json::json_pointer& p)
{
    v.push_back({at, p});
    if (j.is_object())
        for (auto it = j.begin(); it != j.end(); ++it)
        {
            // the numbers that stand for names of methods and the like are values
            bool number = !it.key().empty() && it.key().find_first_not_of("0123456789") == std::string::npos;
            shapes_of(it.value(), at + "/" + (number ? "#" : it.key()), v, p / it.key());
        }
    else if (j.is_array())
        for (size_t i = 0; i < j.size(); i++)
        {
            std::string k = "*";
            if (j[i].is_object() && j[i].contains("method") && j[i]["method"].is_object() && !j[i]["method"].empty()) k = "method " + j[i]["method"].begin().key();
            shapes_of(j[i], at + "/" + k, v, p / i);
        }
}
void places_of_records(const Options& o, Cases& cases)
{
    // one record for each place, of the shipped data and of the random records, which have everything there is
    struct Shape { std::string kind; json record; json::json_pointer place; };
    std::map<std::string, Shape> shapes;
    auto add = [&](const std::string& kind, const json& x) {
        std::vector<std::pair<std::string, json::json_pointer>> v;
        shapes_of(x, kind, v, json::json_pointer());
        for (auto& [k, p] : v) if (!shapes.count(k)) shapes[k] = {kind, x, p};
    };
    for (auto name : {"mines16-thermofun.json", "psinagra-12-07-thermofun.json", "aq17-thermofun.json", "Fe-O_system.json"})
        for (auto& path : databases(o))
        {
            if (base(path) != fs::path(name).stem().string() && fs::path(path).filename() != name) continue;
            std::ifstream f(path);
            json doc = json::parse(f);
            for (auto kind : {"elements", "substances", "reactions"})
                if (doc.contains(kind)) for (auto& x : doc[kind]) add(std::string(kind, strlen(kind) - 1), x);
        }
    Rng fixed(7);
    for (int i = 0; i < 400; i++)
    {
        add("substance", some_substance(fixed, "new" + std::to_string(i)));
        add("reaction", some_reaction(fixed, "new" + std::to_string(i)));
        add("element", some_element(fixed, "new" + std::to_string(i)));
    }
    rep().maxed("places of records", double(shapes.size()));
    std::unique_ptr<Before> before;
    const std::vector<json> values{nullptr, json::object(), json::array(), "", 0, -1, 1e300, 4294967296.0, true, "x", json::array({nullptr}), json::array({json::array()}), json::array({json::object()}), json::array({"x"}), json::array({1}),
        json{{"0", nullptr}}, json{{"99", "x"}}, json{{"x", "x"}}, json{{"", ""}}, json{{"-1", 1}}, json{{"1", json::object()}}, json{{"values", nullptr}}, json{{"values", json::array()}}, json{{"values", {nullptr}}}, json{{"values", {1}}, {"units", json::array()}}, json{{"values", {1}}, {"units", {nullptr}}}, json{{"values", {1, 2, 3}}, {"units", {"K"}}}};
    for (auto& [name, s] : shapes)
    {
        if (!cases("places " + name)) continue;
        Rng& r = cases.rng;
        if (!before) before = std::make_unique<Before>();
        auto& b = *before;
        json found = s.record.at(s.place);
        std::vector<std::pair<std::string, json>> changed;
        auto change = [&](const std::string& what, const json& v) { json x = s.record; x[s.place] = v; changed.push_back({what, x}); };
        for (auto& v : values) change(v.dump(), v);
        if (found.is_array())
            for (size_t n = 0; n < std::min<size_t>(found.size(), 12); n++) { json v = found; v.erase(v.begin() + n, v.end()); change("first " + std::to_string(n), v); v = found; v[n] = nullptr; change("null at " + std::to_string(n), v); }
        if (!s.place.empty())
        {
            json x = s.record;
            json& parent = x[s.place.parent_pointer()];
            if (parent.is_object()) { parent.erase(s.place.back()); changed.push_back({"without", x}); }
        }
        for (auto& [what, x] : changed)
        {
            json y = x;
            if (y.is_object() && y.contains("symbol") && y["symbol"].is_string()) y["symbol"] = y["symbol"].get<std::string>() + " new";
            Database db = b.db;
            std::string tag = "place " + s.kind, text = y.dump();
            cases.doing(tag + "|" + name + " " + what + " " + text.substr(0, 600));
            if (r.coin())
                attempt(tag, [&] { s.kind == "element" ? db.addElement(text) : s.kind == "substance" ? db.addSubstance(text) : db.addReaction(text); });
            else
            {
                json file;
                file[s.kind + "s"] = json::array({y});
                text = file.dump();
                attempt(tag, [&] { db.appendData(text); });
            }
            use(db, r, b, cases, tag);
            rep().distinct(name + " " + what);
        }
        auto after = b.answers(b.db);
        if (after != b.images) rep().violation("earlier records changed:place", {{"place", name}});
        rep().eval("earlier records asked again", after.size());
    }
}

std::string some_unit(Rng& r)
{
    static const std::vector<std::string> u{"J", "cal", "K", "degC", "bar", "Pa", "mol", "kg", "m", "cm", "kJ", "kcal", "1", "kbar", "degF", "s", "g", "l", "10^3", "2", "1e-5"};
    std::string s;
    int n = 1 + r.below(6);
    for (int i = 0; i < n; i++)
    {
        if (i) s += r.pick(std::vector<std::string>{"*", "/", " ", "^", "**"});
        if (r.coin(0.2)) s += "(";
        s += r.pick(u);
        if (r.coin(0.4)) s += "^" + (r.coin() ? std::to_string(int(r.below(7)) - 3) : num(r.u(-3, 3)));
        if (r.coin(0.2)) s += ")";
    }
    return s;
}
void units_(const Options& o, Cases& cases)
{
    const int rounds = o.thorough ? 30000 : 1600;
    for (int k = 0; k < rounds; k++)
    {
        if (!cases("units")) continue;
        Rng& r = cases.rng;
        for (int i = 0; i < 40; i++)
        {
            std::string a = some_unit(r), b = r.coin(0.3) ? a : some_unit(r), what;
            for (int n = r.below(3); n-- > 0;) what += damage_text(r.coin() ? a : b, r);
            double v = r.pickd({0, 1, -1, 1e308, NAN, INFINITY, 298.15});
            cases.doing("units|" + a.substr(0, 200) + " to " + b.substr(0, 200));
            attempt("units", [&] { units::convert(v, a, b); });
            attempt("units", [&] { units::convertible(a, b); });
            rep().distinct("units " + what + std::to_string(a.size() / 8) + " " + std::to_string(b.size() / 8));
        }
    }
}
void equations(const Options& o, Cases& cases)
{
    const int rounds = o.thorough ? 8000 : 400;
    std::unique_ptr<Before> before;
    for (int k = 0; k < rounds; k++)
    {
        if (!cases("equations")) continue;
        Rng& r = cases.rng;
        if (!before) before = std::make_unique<Before>();
        auto& b = *before;
        TF e(b.db);
        e.setSolventSymbol("H2O@");
        for (int i = 0; i < 40; i++)
        {
            std::string t, what;
            for (int n = r.below(7); n-- > 0;)
            {
                if (r.coin(0.5)) t += r.pick(std::vector<std::string>{"1", "2.5", "-1", "1e999", "1e", "-", "+", "--", "0", ".", "1/2", "(2)", "2*", "99999999999999999999", "nan", "inf", "0x1p3"});
                if (r.coin(0.3)) t += " ";
                if (r.coin(0.9)) t += r.coin(0.8) ? r.pick(b.symbols) : some_text(r);
                t += r.pick(std::vector<std::string>{" + ", " = ", "=", " - ", "+", " ", "==", "<=>", " = = "});
            }
            if (r.coin(0.3)) what = damage_text(t, r);
            cases.doing("equation|" + t.substr(0, 600));
            Reaction x;
            attempt("equation", [&] { x.fromEquation(t); });
            attempt("equation shown", [&] { std::ostringstream s; s << x << x.equation() << x.symbol(); });
            Q q; q.kind = EQUATION; q.sym = t; q.T = 350; q.P = 5e6;
            attempt("equation calculation", [&] { ask(e, q); });
            if (r.coin(0.2))
            {
                Database db = b.db;
                attempt("equation object", [&] { db.addReaction(x); TF f(db); q.kind = REACTANTS; q.sym = x.symbol(); ask(f, q); });
            }
            rep().distinct("equation " + what + t.substr(0, 30));
        }
        // formulas, through the interpreter of formulas
        for (int i = 0; i < 10; i++)
        {
            std::string f = r.pick(std::vector<std::string>{"H2O@", "CaCO3", "Fe|3|2O3", "SO4-2", "(NH4)2CO3", "Ca(OH)2", "H2O@"}), what;
            if (r.coin(0.8)) what = damage_text(f, r);
            cases.doing("formula|" + f.substr(0, 300));
            attempt("formula", [&] { b.db.parseSubstanceFormula(f); });
            attempt("formula", [&] { b.db.elementalEntropyFormula(f); });
        }
        auto after = b.answers(b.db);
        if (after != b.images) rep().violation("answers changed by equations", {{"case", rep().case_index}});
        rep().eval("earlier records asked again", after.size());
    }
}
} // namespace

int main(int argc, char** argv)
{
    auto o = parse(argc, argv);
    Cases cases(o);
    std::string mode = o.rest.empty() ? "records" : o.rest[0];
    if (mode == "records") records(o, cases);
    else if (mode == "places") places_of_records(o, cases);
    else if (mode == "units") units_(o, cases);
    else if (mode == "equations") equations(o, cases);
    else return 97;
    rep().summary();
    return 0;
}
