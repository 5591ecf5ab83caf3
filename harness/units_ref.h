#pragma once
// A second table of units and the meaning of unit expressions, the oracle for conversions.
#include "common.h"

namespace vf {
using Dim = std::map<std::string, double>;
struct Unit { double f; Dim dim; };
// A second table of units, written from their definitions: number and powers of units above it
static const char* const unit_table[][2] = {
    {"1", "@1"}, {"g", "@g"}, {"m", "@m"}, {"s", "@s"}, {"A", "@A"}, {"mol", "@mol"}, {"cd", "@cd"}, {"radian", "@radian"}, {"sr", "@sr"}, {"eq", "@eq"}, {"K", "@K"},
    {"%%", "0.01 1"}, {"percent", "0.01 1"}, {"%%%%", "0.001 1"}, {"permil", "0.001 1"}, {"ppm", "1e-6 1"}, {"ppb", "1e-9 1"},
    {"kg", "1e3 g"}, {"mg", "1e-3 g"}, {"ug", "1e-6 g"}, {"ng", "1e-9 g"}, {"tonne", "1e6 g"}, {"lb", "453.59237 g"}, {"amu", "1.660538921e-24 g"}, {"ton", "907184.74 g"}, {"gram", "1 g"}, {"grams", "1 g"},
    {"kilogram", "1e3 g"}, {"kilograms", "1e3 g"}, {"lbm", "453.59237 g"},
    {"km", "1e3 m"}, {"cm", "1e-2 m"}, {"mm", "1e-3 m"}, {"um", "1e-6 m"}, {"nm", "1e-9 m"}, {"Angstrom", "1e-10 m"}, {"in", "0.0254 m"}, {"mil", "2.54e-5 m"}, {"ft", "0.3048 m"}, {"yd", "0.9144 m"}, {"mi", "1609.344 m"},
    {"nauticalmile", "1852 m"}, {"lightyear", "9460730472580800 m"}, {"au", "149597870700 m"}, {"feet", "1 ft"}, {"foot", "1 ft"}, {"inch", "1 in"}, {"inches", "1 in"}, {"meter", "1 m"}, {"meters", "1 m"}, {"mile", "1 mi"}, {"miles", "1 mi"},
    {"yard", "1 yd"}, {"yards", "1 yd"},
    {"ms", "1e-3 s"}, {"us", "1e-6 s"}, {"ns", "1e-9 s"}, {"minute", "60 s"}, {"hour", "3600 s"}, {"day", "86400 s"}, {"week", "604800 s"}, {"month", "2629743.84 s"}, {"year", "31556926.08 s"}, {"second", "1 s"}, {"seconds", "1 s"},
    {"minutes", "60 s"}, {"hours", "3600 s"}, {"days", "1 day"}, {"weeks", "1 week"}, {"months", "1 month"}, {"years", "1 year"},
    {"MA", "1e6 A"}, {"kA", "1e3 A"}, {"mA", "1e-3 A"}, {"uA", "1e-6 A"}, {"nA", "1e-9 A"}, {"pA", "1e-12 A"}, {"ampere", "1 A"}, {"amperes", "1 A"},
    {"mmol", "1e-3 mol"}, {"umol", "1e-6 mol"}, {"mole", "1 mol"}, {"moles", "1 mol"}, {"candela", "1 cd"},
    {"mradian", "1e-3 radian"}, {"uradian", "1e-6 radian"}, {"deg", "0.017453292519943295 radian"}, {"degree", "1 deg"}, {"degrees", "1 deg"}, {"steradian", "1 sr"},
    {"m2", "1 m^2"}, {"m^2", "1 m^2"}, {"mm2", "1e-6 m^2"}, {"mm^2", "1e-6 m^2"}, {"cm2", "1e-4 m^2"}, {"cm^2", "1e-4 m^2"}, {"in2", "1 in^2"}, {"in^2", "1 in^2"}, {"ft2", "1 ft^2"}, {"ft^2", "1 ft^2"},
    {"hectare", "1e4 m^2"}, {"acre", "4046.8726 m^2"}, {"barn", "1e-28 m^2"}, {"hectares", "1 hectare"}, {"acres", "1 acre"}, {"barns", "1 barn"},
    {"m3", "1 m^3"}, {"m^3", "1 m^3"}, {"mm3", "1e-9 m^3"}, {"mm^3", "1e-9 m^3"}, {"cm3", "1e-6 m^3"}, {"cm^3", "1e-6 m^3"}, {"in3", "1 in^3"}, {"in^3", "1 in^3"}, {"ft3", "1 ft^3"}, {"ft^3", "1 ft^3"}, {"l", "1e-3 m^3"}, {"ml", "1e-6 m^3"},
    {"ul", "1e-9 m^3"}, {"L", "1e-3 m^3"}, {"mL", "1e-6 m^3"}, {"uL", "1e-9 m^3"}, {"gal", "4.54609e-3 m^3"}, {"quart", "0.25 gal"}, {"cc", "1 cm3"}, {"gallon", "1 gal"}, {"gallons", "1 gal"}, {"liter", "1 l"}, {"liters", "1 l"},
    {"mps", "1 m s^-1"}, {"cmps", "1e-2 m s^-1"}, {"mph", "1 mi hour^-1"}, {"knot", "1852 m hour^-1"}, {"fps", "1 ft s^-1"}, {"mpss", "1 m s^-2"}, {"fpss", "1 ft s^-2"}, {"gravity", "9.80665 m s^-2"},
    {"Hz", "1 s^-1"}, {"kHz", "1e3 s^-1"}, {"MHz", "1e6 s^-1"}, {"GHz", "1e9 s^-1"}, {"rpm", "1 minute^-1"}, {"hertz", "1 s^-1"},
    {"gps", "1 gal s^-1"}, {"gpm", "1 gal minute^-1"}, {"gph", "1 gal hour^-1"}, {"cfs", "1 ft^3 s^-1"}, {"cfm", "1 ft^3 minute^-1"}, {"lps", "1 l s^-1"}, {"lpm", "1 l minute^-1"},
    {"N", "1000 g m s^-2"}, {"kN", "1e3 N"}, {"lbf", "4.44822162 N"}, {"dyne", "1 g cm s^-2"}, {"dynes", "1 dyne"}, {"newton", "1 N"}, {"newtons", "1 N"},
    {"Pa", "1 N m^-2"}, {"kPa", "1e3 Pa"}, {"MPa", "1e6 Pa"}, {"GPa", "1e9 Pa"}, {"atm", "101325 Pa"}, {"mmHg", "133.32239 Pa"}, {"inHg", "3386.3886 Pa"}, {"psi", "1 lbf in^-2"}, {"kpsi", "1e3 psi"}, {"Mpsi", "1e6 psi"}, {"psf", "1 lbf ft^-2"},
    {"bar", "1e5 Pa"}, {"kbar", "1e8 Pa"}, {"torr", "133.322368 Pa"}, {"inH2O", "249.08891 Pa"}, {"ftH2O", "12 inH2O"}, {"pascal", "1 Pa"}, {"pascals", "1 Pa"},
    {"J", "1 N m"}, {"kJ", "1e3 J"}, {"MJ", "1e6 J"}, {"erg", "1e-7 J"}, {"cal", "4.184 J"}, {"kcal", "4184 J"}, {"eV", "1.60217657e-19 J"}, {"keV", "1e3 eV"}, {"MeV", "1e6 eV"}, {"GeV", "1e9 eV"}, {"btu", "1055.05585 J"},
    {"calorie", "1 cal"}, {"calories", "1 cal"}, {"joule", "1 J"}, {"joules", "1 J"}, {"W", "1 J s^-1"}, {"watts", "1 W"},
    {"C", "1 A s"}, {"coulomb", "1 C"}, {"coulombs", "1 C"}, {"mC", "1e-3 C"}, {"V", "1 J C^-1"}, {"volt", "1 V"}, {"volts", "1 V"}, {"mV", "1e-3 V"}, {"ohm", "1 V A^-1"}, {"ohms", "1 ohm"}, {"S", "1 ohm^-1"}, {"siemens", "1 S"},
    {"F", "1 C V^-1"}, {"pF", "1e-12 F"}, {"nF", "1e-9 F"}, {"uF", "1e-6 F"}, {"mF", "1e-3 F"}, {"farad", "1 F"}, {"farads", "1 F"}, {"Wb", "1 V s"}, {"weber", "1 Wb"}, {"webers", "1 Wb"},
    {"T", "1 N A^-1 m^-1"}, {"gauss", "1e-4 T"}, {"tesla", "1 T"}, {"teslas", "1 T"}, {"H", "1 Wb A^-1"}, {"mH", "1e-3 H"}, {"uH", "1e-6 H"}, {"henry", "1 H"},
    {"molal", "1 mol kg^-1"}, {"mmolal", "1e-3 molal"}, {"umolal", "1e-6 molal"}, {"nmolal", "1e-9 molal"}, {"molar", "1 mol l^-1"}, {"mmolar", "1e-3 molar"}, {"umolar", "1e-6 molar"}, {"nmolar", "1e-9 molar"},
    {"meq", "1e-3 eq"}, {"ueq", "1e-6 eq"}, {"neq", "1e-9 eq"},
    {"K^2", "1 K^2"}, {"K^3", "1 K^3"}, {"K^4", "1 K^4"}, {"K^5", "1 K^5"}, {"K^0.5", "1 K^0.5"}, {"K^1.5", "1 K^1.5"},
    {"bar^2", "1 bar^2"}, {"bar^3", "1 bar^3"}, {"bar^4", "1 bar^4"}, {"bar^5", "1 bar^5"}, {"bar^0.5", "1 bar^0.5"},
};
inline const std::map<std::string, Unit>& unit_map()
{
    static const std::map<std::string, Unit> m = [] {
        std::map<std::string, Unit> m;
        for (auto& e : unit_table)
        {
            Unit u{1, {}};
            if (e[1][0] == '@') u.dim[e[1] + 1] = 1;
            else
            {
                std::istringstream in(e[1]);
                std::string w;
                in >> u.f;
                while (in >> w)
                {
                    double p = 1;
                    auto h = w.find('^');
                    if (h != std::string::npos) { p = std::stod(w.substr(h + 1)); w = w.substr(0, h); }
                    u.f *= std::pow(m.at(w).f, p);
                    for (auto& d : m.at(w).dim) u.dim[d.first] += d.second * p;
                }
            }
            std::erase_if(u.dim, [](auto& d) { return d.second == 0; });
            m[e[0]] = u;
        }
        return m;
    }();
    return m;
}
inline const std::vector<std::string>& unit_names()
{
    static const std::vector<std::string> v = [] { std::vector<std::string> v; for (auto& u : unit_map()) v.push_back(u.first); return v; }();
    return v;
}
// A random expression and what it means
struct Expr { std::string text; Unit u; };
inline void times(Unit& a, const Unit& b, double sign)
{
    a.f *= std::pow(b.f, sign);
    for (auto& d : b.dim) a.dim[d.first] += sign * d.second;
    std::erase_if(a.dim, [](auto& d) { return d.second == 0; });
}
inline Expr expression(Rng& r, int depth, const std::vector<std::string>& names)
{
    Expr e{"", {1, {}}};
    for (int i = 0, n = 1 + r.below(depth > 0 ? 4 : 2); i < n; i++)
    {
        double sign = i == 0 ? 1 : r.coin() ? 1 : -1;
        if (i) e.text += sign > 0 ? "*" : "/";
        // the parser takes a factor in brackets at the front or the end of an expression, or after an operator
        if (depth > 0 && r.coin(0.3))
        {
            Expr x = expression(r, depth - 1, names);
            e.text += "(" + x.text + ")";
            times(e.u, x.u, sign);
        }
        else
        {
            auto& n = r.pick(names);
            e.text += n;
            times(e.u, unit_map().at(n), sign);
        }
    }
    return e;
}
// another expression of the same dimension: each unit replaced by one of the same kind
inline Expr rewrite(Rng& r, const Expr& e)
{
    static std::map<std::string, std::vector<std::string>> kinds;
    auto key = [](const Dim& d) { std::string k; for (auto& x : d) k += x.first + num(x.second) + ";"; return k; };
    if (kinds.empty()) for (auto& u : unit_map()) kinds[key(u.second.dim)].push_back(u.first);
    Expr x{"", {1, {}}};
    std::string word;
    // walk the text; the sign of a factor is known from the operators and brackets around it
    std::vector<double> signs{1};
    double next = 1;
    auto flush = [&] {
        if (word.empty()) return;
        auto& n = r.pick(kinds.at(key(unit_map().at(word).dim)));
        x.text += n;
        times(x.u, unit_map().at(n), signs.back() * next);
        word.clear();
    };
    for (char c : e.text)
        if (c == '*' || c == '/') { flush(); next = c == '*' ? 1 : -1; x.text += c; }
        else if (c == '(') { signs.push_back(signs.back() * next); next = 1; x.text += c; }
        else if (c == ')') { flush(); signs.pop_back(); x.text += c; }
        else word += c;
    flush();
    return x;
}
// number that converts from one expression to another of the same dimension, for expressions without brackets around quotients
inline double unit_factor(const std::string& text)
{
    // recursive descent over names, *, / and brackets
    size_t i = 0;
    std::function<double()> expr, atom;
    atom = [&]() -> double {
        if (i < text.size() && text[i] == '(') { ++i; double f = expr(); ++i; return f; }
        size_t s = i;
        while (i < text.size() && !strchr("*/()", text[i])) ++i;
        return unit_map().at(text.substr(s, i - s)).f;
    };
    expr = [&]() -> double {
        double f = atom();
        while (i < text.size() && text[i] != ')') { char op = text[i++]; double g = atom(); f = op == '*' ? f * g : f / g; }
        return f;
    };
    return expr();
}
} // namespace vf
