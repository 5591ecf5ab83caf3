// Foundations: P22 arithmetic of thermodynamic scalars, P23 units, P26 equations in text.
#include "pool.h"
#include "units_ref.h"
using namespace vf;
namespace RK = Reaktoro_;
namespace U = ThermoFun::units;

// ------------------------------------------------------------------ P22
// value, derivatives and error of one operation, by the rules of calculus and first order error propagation
struct D { long double v, t, p, e; bool def; };
static D of(const Scalar& s) { return {s.val, s.ddt, s.ddp, s.err, s.sta.first != RK::notdefined}; }
static D fn(const D& a, long double f, long double df) { return {f, df * a.t, df * a.p, fabsl(df) * a.e, a.def}; }
static D fn2(const D& a, const D& b, long double f, long double fa, long double fb)
{
    return {f, fa * a.t + fb * b.t, fa * a.p + fb * b.p, sqrtl(fa * a.e * fa * a.e + fb * b.e * fb * b.e), a.def && b.def};
}
static void agree(const char* op, const D& x, const Scalar& s, const json& args, bool status = true)
{
    rep().eval(op);
    // cancellation in a sum makes the magnitude of the summands the scale of rounding
    auto ok = [&](long double want, double got, long double scale) { return std::isfinite(double(want)) ? fabsl(want - got) <= 1e-12L * (fabsl(want) + scale) + 1e-300L : !std::isfinite(got); };
    long double sv = args.value("sv", 0.0), st = args.value("st", 0.0), sp = args.value("sp", 0.0);
    const char* bad = !ok(x.v, s.val, sv) ? "value" : !ok(x.t, s.ddt, st) ? "temperature derivative" : !ok(x.p, s.ddp, sp) ? "pressure derivative"
        : !(ok(x.e, s.err, 0) && (s.err >= 0 || !std::isfinite(s.err))) ? "error" : status && x.def != (s.sta.first != RK::notdefined) ? "status" : nullptr;
    if (bad)
        rep().violation(std::string(bad) + " of " + op, {{"arguments", args}, {"expected", {double(x.v), double(x.t), double(x.p), double(x.e), x.def}}, {"got", {jnum(s.val), jnum(s.ddt), jnum(s.ddp), jnum(s.err), int(s.sta.first)}}});
}
static json j(const Scalar& a) { return {a.val, a.ddt, a.ddp, a.err, int(a.sta.first)}; }
static double some(Rng& r) { return r.below(12) == 0 ? 0.0 : (r.coin() ? -1 : 1) * (r.coin() ? r.u(0.01, 50) : r.logu(1e-6, 1e6)); }
static Scalar scalar(Rng& r)
{
    Scalar s;
    s.val = some(r); s.ddt = some(r); s.ddp = some(r);
    s.err = r.below(3) == 0 ? 0 : fabs(some(r));
    s.sta = {r.below(6) == 0 ? RK::notdefined : r.coin() ? RK::assigned : RK::calculated, ""};
    return s;
}
static void algebra(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 4000 : 400; c < n; c++)
    {
        if (!run("scalars|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        Scalar acc = scalar(r);
        for (int k = 0; k < 300; k++)
        {
            Scalar a = r.coin(0.5) ? acc : scalar(r), b = scalar(r);
            if (!(std::fabs(a.val) < 1e9 && std::fabs(a.ddt) < 1e12 && std::fabs(a.ddp) < 1e12 && a.err < 1e12)) a = scalar(r);
            double d = some(r);
            D A = of(a), B = of(b), K{d, 0, 0, 0, true};
            json args{{"a", j(a)}, {"b", j(b)}, {"d", d}};
            auto scale = [&](long double v, long double t, long double p) { args["sv"] = double(fabsl(v)); args["st"] = double(fabsl(t)); args["sp"] = double(fabsl(p)); };
            unsigned op = r.below(31);
            rep().distinct(std::to_string(op) + (a.val == 0 ? "z" : a.val < 0 ? "-" : "+") + (b.val == 0 ? "z" : b.val < 0 ? "-" : "+") + (A.def ? "d" : "u") + (B.def ? "d" : "u") + (a.err == 0 ? "e" : "x") + (b.err == 0 ? "e" : "x") + (d == 0 ? "z" : d < 0 ? "-" : "+"));
            D sum = fn2(A, B, A.v + B.v, 1, 1), diff = fn2(A, B, A.v - B.v, 1, -1), prod = fn2(A, B, A.v * B.v, B.v, A.v), quot = fn2(A, B, A.v / B.v, 1 / B.v, -A.v / (B.v * B.v));
            switch (op)
            {
            case 0: scale(A.v, A.t, A.p); agree("a + b", sum, acc = a + b, args); break;
            case 1: scale(A.v, A.t, A.p); agree("a - b", diff, acc = a - b, args); break;
            case 2: scale(0, A.v * B.t, A.v * B.p); agree("a * b", prod, acc = a * b, args); break;
            case 3: scale(0, A.t / B.v, A.p / B.v); if (b.val != 0) agree("a / b", quot, acc = a / b, args); break;
            case 4: scale(A.v, 0, 0); agree("a + d", fn(A, A.v + d, 1), acc = a + d, args); break;
            case 5: scale(A.v, 0, 0); agree("d + a", fn(A, A.v + d, 1), acc = d + a, args); break;
            case 6: scale(A.v, 0, 0); agree("a - d", fn(A, A.v - d, 1), acc = a - d, args); break;
            case 7: scale(A.v, 0, 0); agree("d - a", fn(A, d - A.v, -1), acc = d - a, args); break;
            case 8: agree("a * d", fn(A, A.v * d, d), acc = a * d, args); break;
            case 9: agree("d * a", fn(A, A.v * d, d), acc = d * a, args); break;
            case 10: if (d != 0) agree("a / d", fn(A, A.v / d, 1.0L / d), acc = a / d, args); break;
            case 11: if (a.val != 0) agree("d / a", fn(A, d / A.v, -d / (A.v * A.v)), acc = d / a, args); break;
            case 12: scale(A.v, A.t, A.p); { Scalar x = a; x += b; agree("a += b", sum, acc = x, args); } break;
            case 13: scale(A.v, A.t, A.p); { Scalar x = a; x -= b; agree("a -= b", diff, acc = x, args); } break;
            case 14: scale(0, A.v * B.t, A.v * B.p); { Scalar x = a; x *= b; agree("a *= b", prod, acc = x, args); } break;
            case 15: scale(0, A.t / B.v, A.p / B.v); if (b.val != 0) { Scalar x = a; x /= b; agree("a /= b", quot, acc = x, args); } break;
            case 16: scale(A.v, 0, 0); { Scalar x = a; x += d; agree("a += d", fn(A, A.v + d, 1), acc = x, args); } break;
            case 17: scale(A.v, 0, 0); { Scalar x = a; x -= d; agree("a -= d", fn(A, A.v - d, 1), acc = x, args); } break;
            case 18: { Scalar x = a; x *= d; agree("a *= d", fn(A, A.v * d, d), acc = x, args); } break;
            case 19: if (d != 0) { Scalar x = a; x /= d; agree("a /= d", fn(A, A.v / d, 1.0L / d), acc = x, args); } break;
            case 20: agree("-a", fn(A, -A.v, -1), acc = -a, args); break;
            case 21: agree("+a", fn(A, A.v, 1), acc = +a, args); break;
            case 22: if (a.val > 0) agree("sqrt(a)", fn(A, sqrtl(A.v), 0.5L / sqrtl(A.v)), acc = sqrt(a), args); break;
            case 23: { double e = r.pickd({-2, -1, -0.5, 0.5, 1, 1.5, 2, 3, 4}); args["power"] = e;
                if (a.val > 0 || (a.val < 0 && e == std::floor(e))) agree("pow(a, number)", fn(A, powl(A.v, e), e * powl(A.v, e - 1)), acc = pow(a, e), args); } break;
            case 24: if (a.val > 0 && std::fabs(b.val) < 8 && a.val < 1e3) { long double f = powl(A.v, B.v); scale(0, f * logl(A.v) * B.t, f * logl(A.v) * B.p); agree("pow(a, b)", fn2(A, B, f, B.v * f / A.v, f * logl(A.v)), acc = pow(a, b), args); } break;
            case 25: if (std::fabs(a.val) < 60) agree("exp(a)", fn(A, expl(A.v), expl(A.v)), acc = exp(a), args); break;
            case 26: if (a.val > 0) { scale(1e-3, 0, 0); agree("log(a)", fn(A, logl(A.v), 1 / A.v), acc = log(a), args); } break;
            case 27: if (a.val > 0) { scale(1e-3, 0, 0); agree("log10(a)", fn(A, log10l(A.v), 1 / (A.v * logl(10.0L))), acc = log10(a), args); } break;
            case 28: { Scalar x = a; x = d; rep().eval("a = d"); if (x.val != d || x.ddt != 0 || x.ddp != 0 || x.err != 0 || x.sta.first == RK::notdefined) rep().violation("assignment of a number", {{"got", j(x)}, {"d", d}}); acc = x; } break;
            case 29:
            {
                rep().eval("comparisons");
                if (r.coin()) b.val = a.val;
                bool ok = (a < b) == (a.val < b.val) && (a <= b) == (a.val <= b.val) && (a > b) == (a.val > b.val) && (a >= b) == (a.val >= b.val) && (a == b) == (a.val == b.val) && (a != b) == (a.val != b.val)
                    && (a < d) == (a.val < d) && (a <= d) == (a.val <= d) && (a > d) == (a.val > d) && (a >= d) == (a.val >= d) && (a == d) == (a.val == d) && (a != d) == (a.val != d)
                    && (d < a) == (d < a.val) && (d <= a) == (d <= a.val) && (d > a) == (d > a.val) && (d >= a) == (d >= a.val) && (d == a) == (d == a.val) && (d != a) == (d != a.val);
                double same = a.val;
                ok = ok && (a == same) && !(a != same) && (same == a) && !(same != a) && (a <= same) && (same >= a) && !(a < same) && !(same > a) && !(a > same) && (a >= same) && !(same < a) && (same <= a);
                if (!ok) rep().violation("comparison of scalars", args);
                break;
            }
            case 30:
            {
                rep().eval("temperature and pressure variables");
                RK::Temperature T(d); RK::Pressure P(d);
                if (T.val != d || T.ddt != 1 || T.ddp != 0 || T.err != 0 || P.val != d || P.ddt != 0 || P.ddp != 1 || P.err != 0) rep().violation("temperature and pressure variables", {{"T", j(T)}, {"P", j(P)}});
                acc = a * T + P;
                break;
            }
            }
        }
    }
}
// errors of everything an engine computes
static void errors(const Options& o, Cases& run)
{
    auto dbs = databases(o);
    for (int c = 0, n = o.thorough ? 400 : 60; c < n; c++)
    {
        if (!run("errors of results|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        SmallDb d = c % 3 ? small_db(r.pick(dbs), r, 20, 12) : model_small();
        // records with error estimates
        for (auto& s : d.substances)
        {
            Substance x = d.db.getSubstance(s);
            auto q = x.thermoReferenceProperties();
            q.gibbs_energy.err = r.u(0, 500); q.enthalpy.err = r.u(0, 900); q.entropy.err = r.u(0, 3); q.volume.err = r.u(0, 0.1); q.heat_capacity_cp.err = r.u(0, 5);
            x.setThermoReferenceProperties(q);
            d.db.setSubstance(x);
        }
        TF e(d.db);
        for (int k = 0; k < 60; k++)
        {
            Q q = some_query(r, d);
            auto judge = [&](const char* p, const Scalar& s) {
                rep().eval("error estimates of results");
                if (std::isfinite(s.val) && !(s.err >= 0)) rep().violation("error estimate of a result is negative or not a number", {{"data", d.source}, {"query", q.text()}, {"property", p}, {"value", jnum(s.val)}, {"error", jnum(s.err)}});
                if (s.err > 0) rep().count("positive error estimates");
            };
            try
            {
                double P = q.P;
                if (q.kind == SUBST || q.kind == SUBST_OBJ) { auto t = e.thermoPropertiesSubstance(q.T, P, q.sym); for (auto& p : substance_props()) judge(p.name, t.*p.p); }
                else if (q.kind == REACTANTS || q.kind == REACTANTS_OBJ) { auto t = e.thermoPropertiesReactionFromReactants(q.T, P, q.sym); for (auto& p : reaction_props()) judge(p.name, t.*p.p); }
                else if (q.kind != SOLVENT && q.kind != ELECTRO) { auto t = e.thermoPropertiesReaction(q.T, P, q.sym); for (auto& p : reaction_props()) judge(p.name, t.*p.p); }
            }
            catch (const std::exception&) { rep().count("failed queries"); }
        }
    }
}

// ------------------------------------------------------------------ P23
static void unit_cases(const Options& o, Cases& run)
{
    auto& names = unit_names();
    auto same = [](double a, double b) { return close(a, b, 1e-9) || (a == 0 && b == 0); };
    if (run("units|each pair"))
        for (auto& a : unit_map())
            for (auto& b : unit_map())
            {
                bool ok = a.second.dim == b.second.dim;
                rep().eval("pairs of units");
                bool c = false;
                auto x = query(0, [&](double&) { c = U::convertible(a.first, b.first); Scalar s; s.val = U::convert(7.25, a.first, b.first); ThermoPropertiesSubstance t; t.gibbs_energy = s; return t; });
                if (c != ok || x.ok != ok) rep().violation("convertibility of units", {{"from", a.first}, {"to", b.first}, {"expected", ok}, {"convertible", c}, {"converted", x.ok}});
                else if (ok && !same(x.value.gibbs_energy.val, 7.25 * a.second.f / b.second.f)) rep().violation("conversion between units", {{"from", a.first}, {"to", b.first}, {"of", 7.25}, {"expected", 7.25 * a.second.f / b.second.f}, {"got", x.value.gibbs_energy.val}});
                if (ok) rep().distinct(a.first + " -> " + b.first);
            }
    // temperatures
    struct TU { const char* n; double f, z; }; // K = (value + z) * f
    const std::vector<TU> temps{{"K", 1, 0}, {"kelvin", 1, 0}, {"degC", 1, 273.15}, {"celsius", 1, 273.15}, {"degF", 1 / 1.8, 459.67}, {"fahrenheit", 1 / 1.8, 459.67}, {"degR", 1 / 1.8, 0}, {"rankine", 1 / 1.8, 0}};
    if (run("units|temperatures"))
        for (int k = 0; k < 4000; k++)
        {
            auto& a = run.rng.pick(temps);
            auto& b = run.rng.pick(temps);
            double v = run.rng.u(-300, 3000), K = (v + a.z) * a.f, w = K / b.f - b.z;
            rep().eval("temperatures");
            rep().distinct(std::string(a.n) + " -> " + b.n);
            if (!U::convertible(a.n, b.n) || !close(U::convert(v, a.n, b.n), w, 1e-12, 1e-9)) rep().violation("conversion of temperatures", {{"from", a.n}, {"to", b.n}, {"of", v}, {"expected", w}, {"got", U::convert(v, a.n, b.n)}});
        }
    for (int c = 0, n = o.thorough ? 2000 : 160; c < n; c++)
    {
        if (!run("unit expressions|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        for (int k = 0; k < 100; k++)
        {
            Expr a = expression(r, 2, names), b = r.coin(0.8) ? rewrite(r, a) : expression(r, 2, names), m = rewrite(r, a);
            bool ok = a.u.dim == b.u.dim;
            double v = some(r), got = 0, want = v * a.u.f / b.u.f;
            if (!(std::fabs(want) < 1e250) || (want != 0 && std::fabs(want) < 1e-250) || !(a.u.f < 1e120 && a.u.f > 1e-120 && b.u.f < 1e120 && b.u.f > 1e-120 && m.u.f < 1e120 && m.u.f > 1e-120)) continue;
            bool done = true, conv = false;
            try { conv = U::convertible(a.text, b.text); got = U::convert(v, a.text, b.text); } catch (const std::exception&) { done = false; }
            rep().eval(ok ? "unit expressions converted" : "unit expressions that do not match");
            rep().distinct(a.text);
            json d{{"from", a.text}, {"to", b.text}, {"value", v}};
            if (done != ok || conv != ok) { rep().violation("convertibility of unit expressions", d); continue; }
            if (!ok) continue;
            if (!same(got, want)) { d["expected"] = want; d["got"] = got; rep().violation("conversion of unit expressions", d); }
            // there and back, and by way of a third unit
            double back = U::convert(got, b.text, a.text), via = U::convert(U::convert(v, a.text, m.text), m.text, b.text);
            if (!close(back, v, 1e-12)) { d["back"] = back; rep().violation("conversion there and back", d); }
            if (!close(via, got, 1e-12)) { d["via"] = m.text; rep().violation("conversion by way of a third unit", d); }
        }
    }
    // text that is no unit is reported
    for (int c = 0, n = o.thorough ? 400 : 40; c < n; c++)
    {
        if (!run("unit text|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        for (int k = 0; k < 50; k++)
        {
            Expr a = expression(r, 1, names);
            std::string t = a.text;
            switch (r.below(9))
            {
            case 0: t += "/"; break;
            case 1: t = "*" + t; break;
            case 2: t += "*)"; break;
            case 3: t = "(" + t; break;
            case 4: t += "*furlong"; break;
            case 5: t = ""; break;
            case 6: t += "//" + r.pick(names); break;
            case 7: t = r.pick(names) + "(" + t + ")"; break;
            case 8: t = t + "*()"; break;
            }
            rep().eval("malformed unit expressions");
            bool threw = false, threw2 = false;
            double x = 0;
            try { x = U::convert(1, t, a.text); } catch (const std::exception&) { threw = true; }
            try { U::convertible(t, a.text); } catch (const std::exception&) { threw2 = true; }
            (void)threw2;
            if (!threw) rep().violation("malformed unit expression accepted", {{"unit", t}, {"to", a.text}, {"got", x}});
        }
    }
}

// ------------------------------------------------------------------ P26
static std::string name_for(Rng& r)
{
    static const std::vector<std::string> fixed{"H2O@", "H+", "OH-", "CO3-2", "e-", "Ca+2", "(UO2)3(OH)5+", "Al(OH)4-", "Cal", "Qtz", "zeoliteP_Ca", "Fe(CO3)2-2", "HCO3-", "X", "Mg|0|", "CO2,g", "FeO1.5", "C2H5OH@", "Na+", "Cl-", "SiO2@", "UO2(SO4)2-2", "A:B", "M_075", "Eu+3", "PO4---", "K+"};
    if (r.coin(0.7)) return r.pick(fixed);
    std::string s(1, char(r.coin() ? 'A' + r.below(26) : 'a' + r.below(26)));
    static const std::string tail = "abcXYZ0123456789()_-+@.,:|";
    for (int i = 0, n = r.below(8); i < n; i++) s += tail[r.below(tail.size())];
    return s;
}
// a name that a coefficient in front would swallow a part of (2E3..., 0X1...) needs no promise
static bool swallowed(const std::string& n) { char c = toupper(n[0]); return c == 'E' || c == 'X' || c == 'P' || c == 'I' || c == 'N'; }
static void equations(const Options& o, Cases& run)
{
    for (int c = 0, n = o.thorough ? 3000 : 300; c < n; c++)
    {
        if (!run("equations|" + std::to_string(c))) continue;
        Rng& r = run.rng;
        Reaction carried; // read into again and again
        for (int k = 0; k < 60; k++)
        {
            std::map<std::string, double> want;
            std::string text;
            for (int side = 0; side < 2; side++)
            {
                if (side) text += r.coin(0.7) ? " = " : r.coin() ? "=" : "\t=  ";
                int terms = 1 + r.below(5);
                for (int i = 0; i < terms; i++)
                {
                    if (i) text += r.coin(0.8) ? " + " : r.coin() ? "  +  " : "\t+ ";
                    std::string name = name_for(r);
                    if (!want.empty() && r.coin(0.12)) { auto it = want.begin(); std::advance(it, r.below(want.size())); name = it->first; }
                    double co = 1;
                    std::string pre;
                    bool plain = swallowed(name);
                    if (!plain || true) switch (r.below(6))
                    {
                    case 0: case 1: break;
                    case 2: co = 1 + r.below(12); pre = std::to_string(int(co)); break;
                    case 3: co = (1 + r.below(400)) / 16.0; pre = num(co); break;
                    case 4: if (!plain) { pre = "-"; co = -1; } break;
                    case 5: if (!plain) { pre = "+"; } break;
                    }
                    if (plain && !pre.empty()) { pre.clear(); co = 1; }
                    if ((pre == "-" || pre == "+") && !(isalpha(name[0]) || name[0] == '(')) { pre.clear(); co = 1; }
                    text += pre + (pre.size() && isdigit(pre.back()) && r.coin(0.2) ? " " : "") + name;
                    want[name] += side ? co : -co;
                }
            }
            if (r.coin(0.1)) text = " " + text;
            if (r.coin(0.1)) text += " ";
            rep().eval("equations read");
            rep().distinct(text);
            Reaction fresh;
            Reaction* rx = r.coin() ? &fresh : &carried;
            std::string before = rx->symbol();
            rx->fromEquation(text);
            auto got = rx->reactants();
            bool ok = got.size() == want.size();
            for (auto& w : want) ok = ok && got.count(w.first) && close(got.at(w.first), w.second, 1e-12, 1e-12);
            if (!ok) rep().violation("reactants of an equation", {{"equation", text}, {"expected", want}, {"got", got}});
            if (rx->equation() != text) rep().violation("text of an equation is not kept", {{"equation", text}, {"got", rx->equation()}});
            if (before.empty() ? rx->symbol() != text : rx->symbol() != before) rep().violation("symbol of a reaction given as an equation", {{"equation", text}, {"before", before}, {"after", rx->symbol()}});
            if (r.coin(0.1)) { Reaction copy = *rx; copy.fromEquation("Aa = Bb"); if (rx->reactants() != got) rep().violation("reading an equation into a copy changed the original", {{"equation", text}}); }
        }
    }
    // recorded equations say what the recorded reactants say
    for (auto& p : databases(o))
    {
        if (!run("recorded equations|" + base(p))) continue;
        for (auto& x : load(p).getReactions())
        {
            if (x.equation().empty() || x.equation().find('=') == std::string::npos) continue;
            Reaction y;
            y.fromEquation(x.equation());
            auto a = x.reactants(), b = y.reactants();
            bool comparable = true; // the text may name substances by formula
            for (auto& k : b) if (!a.count(k.first)) comparable = false;
            if (!comparable) { rep().count("recorded equations with other names"); continue; }
            rep().eval("recorded equations");
            rep().distinct(x.equation());
            json diff;
            for (auto& k : a) if (k.second != 0 && (!b.count(k.first) || !close(b[k.first], k.second, 1e-9))) diff[k.first] = {k.second, b.count(k.first) ? b[k.first] : 0};
            if (!diff.is_null()) rep().violation("a recorded equation differs from the recorded reactants", {{"data", base(p)}, {"reaction", x.symbol()}, {"equation", x.equation()}, {"differences", diff}});
        }
    }
}

int main(int c, char** v)
{
    auto o = parse(c, v);
    Cases run(o);
    std::string mode = o.rest.empty() ? "" : o.rest[0];
    if (mode == "algebra") { algebra(o, run); errors(o, run); }
    else if (mode == "units") unit_cases(o, run);
    else if (mode == "equations") equations(o, run);
    else return 98;
    rep().summary();
}
