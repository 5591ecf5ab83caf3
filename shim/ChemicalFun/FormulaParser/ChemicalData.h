// Stand-in for the part of the ChemicalFun package that ThermoFun uses.
//
// The real package (github.com/thermohub/chemicalfun) is not installed here and
// cannot be fetched.  ThermoFun/Database.cpp and ThermoFun/Element.cpp only need
// the small interface below: a table of element data, and a formula parser that
// gives stoichiometric coefficients, the charge and the elemental entropy.
// The verification harnesses link the REAL ThermoFun sources against this.
//
// Grammar (as ChemicalFun writes formulas): element symbols with optional
// isotope prefix /nn/, optional valence |n| / |-n|, coefficients, groups () and
// [], ':' or '*' for adducts, an optional trailing charge (+, -, +n, -n) or '@'.
#pragma once
#include <cctype>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace ChemicalFun {

class ElementKey final
{
public:
    explicit ElementKey(const std::string& symbol, int class_ = 0, int isotope = 0)
        : symbol_(symbol), class__(class_), isotope_(isotope) {}
    const std::string& Symbol() const { return symbol_; }
    int Class() const { return class__; }
    int Isotope() const { return isotope_; }
    friend bool operator<(const ElementKey& a, const ElementKey& b)
    {
        return std::tie(a.symbol_, a.class__, a.isotope_) < std::tie(b.symbol_, b.class__, b.isotope_);
    }
    friend bool operator==(const ElementKey& a, const ElementKey& b)
    {
        return std::tie(a.symbol_, a.class__, a.isotope_) == std::tie(b.symbol_, b.class__, b.isotope_);
    }
private:
    std::string symbol_;
    int class__;
    int isotope_;
};

struct ElementValues
{
    std::string recid;
    double atomic_mass = 0.0;
    double entropy = 0.0;
    double heat_capacity = 0.0;
    double volume = 0.0;
    int valence = 0;
    int number = 0;
    std::string name;
};

using ElementsData = std::map<ElementKey, ElementValues>;
using StoichiometryMap = std::map<ElementKey, double>;

struct FormulaProperties
{
    std::string formula;
    double charge = 0.0;
    double atomic_mass = 0.0;
    double elemental_entropy = 0.0;
    double atoms_formula_unit = 0.0;
};

class FormulaToken
{
public:
    explicit FormulaToken(const std::string& formula) : formula_(formula)
    {
        parse();
    }
    const StoichiometryMap& getStoichCoefficients() const { return coefs_; }
    bool hasCharge() const { return has_charge_; }
    double charge() const { return charge_; }
    FormulaProperties properties(const ElementsData& db) const
    {
        FormulaProperties p;
        p.formula = formula_;
        double valence_sum = 0.0;
        for (const auto& t : terms_)
        {
            auto it = find(db, t.key);
            if (t.key.Class() == 4) { p.elemental_entropy += it->second.entropy * t.coef; continue; }
            p.atomic_mass += it->second.atomic_mass * t.coef;
            p.elemental_entropy += it->second.entropy * t.coef;
            p.atoms_formula_unit += t.coef;
            valence_sum += (t.has_valence ? t.valence : it->second.valence) * t.coef;
        }
        p.charge = has_charge_ ? charge_ : valence_sum;
        return p;
    }
private:
    struct Term { ElementKey key; double coef; bool has_valence; int valence; };
    std::string formula_;
    std::vector<Term> terms_;
    StoichiometryMap coefs_;
    bool has_charge_ = false;
    double charge_ = 0.0;

    static ElementsData::const_iterator find(const ElementsData& db, const ElementKey& k)
    {
        auto it = db.find(k);
        if (it == db.end() && k.Class() == 4) // records keep the charge with varying class
            for (auto j = db.begin(); j != db.end(); ++j)
                if (j->first.Symbol() == "Zz") { it = j; break; }
        if (it == db.end())
            throw std::runtime_error("ChemicalFun: element '" + k.Symbol() + "' is not defined");
        return it;
    }
    [[noreturn]] void bad(const std::string& what) const
    {
        throw std::runtime_error("ChemicalFun: cannot parse formula '" + formula_ + "': " + what);
    }
    double number(const std::string& s, size_t& i, double dflt) const
    {
        size_t j = i;
        while (j < s.size() && (std::isdigit((unsigned char)s[j]) || s[j] == '.')) ++j;
        if (j == i) return dflt;
        double v = std::strtod(s.substr(i, j - i).c_str(), nullptr);
        i = j;
        return v;
    }
    void group(const std::string& s, size_t& i, char close, std::vector<Term>& out, int depth) const
    {
        if (depth > 64) bad("too deeply nested");
        while (i < s.size())
        {
            char c = s[i];
            if (c == close) { ++i; return; }
            if (c == '(' || c == '[' || c == '{')
            {
                char cl = c == '(' ? ')' : c == '[' ? ']' : '}';
                ++i;
                std::vector<Term> sub;
                group(s, i, cl, sub, depth + 1);
                double n = number(s, i, 1.0);
                for (auto& t : sub) { t.coef *= n; out.push_back(t); }
                continue;
            }
            if (c == ' ') { ++i; continue; }
            if (c == ':' || c == '*')
            {
                ++i;
                double n = number(s, i, 1.0);
                std::vector<Term> sub;
                // up to the next separator or the close of this group
                size_t start = i;
                int d = 0;
                while (i < s.size())
                {
                    if (d == 0 && (s[i] == ':' || s[i] == '*' || s[i] == close)) break;
                    if (s[i] == '(' || s[i] == '[' || s[i] == '{') ++d;
                    if (s[i] == ')' || s[i] == ']' || s[i] == '}') --d;
                    ++i;
                }
                std::string part = s.substr(start, i - start);
                size_t k = 0;
                group(part, k, '\0', sub, depth + 1);
                for (auto& t : sub) { t.coef *= n; out.push_back(t); }
                continue;
            }
            int isotope = 0;
            if (c == '/')
            {
                size_t e = s.find('/', i + 1);
                if (e == std::string::npos) bad("isotope");
                isotope = std::atoi(s.substr(i + 1, e - i - 1).c_str());
                i = e + 1;
                if (i >= s.size()) bad("isotope");
                c = s[i];
            }
            if (!std::isupper((unsigned char)c)) bad(std::string("unexpected '") + c + "'");
            size_t j = i + 1;
            while (j < s.size() && (std::islower((unsigned char)s[j]) || s[j] == '_')) ++j;
            std::string sym = s.substr(i, j - i);
            i = j;
            bool hv = false; int v = 0;
            if (i < s.size() && s[i] == '|')
            {
                size_t e = s.find('|', i + 1);
                if (e == std::string::npos) bad("valence");
                hv = true;
                v = std::atoi(s.substr(i + 1, e - i - 1).c_str());
                i = e + 1;
            }
            double n = number(s, i, 1.0);
            out.push_back(Term{ElementKey(sym, sym == "Zz" ? 4 : 0, isotope), n, hv, v});
        }
        if (close != '\0') bad("unbalanced bracket");
    }
    void parse()
    {
        std::string s = formula_;
        if (s.empty()) bad("empty");
        if (s.back() == '@') { has_charge_ = true; charge_ = 0; s.pop_back(); }
        else
        {
            size_t k = s.size();
            while (k > 0 && (std::isdigit((unsigned char)s[k - 1]) || s[k - 1] == '.')) --k;
            if (k > 0 && (s[k - 1] == '+' || s[k - 1] == '-'))
            {
                has_charge_ = true;
                double n = k == s.size() ? 1.0 : std::strtod(s.substr(k).c_str(), nullptr);
                charge_ = s[k - 1] == '+' ? n : -n;
                s = s.substr(0, k - 1);
            }
        }
        if (s.empty()) bad("empty");
        size_t i = 0;
        group(s, i, '\0', terms_, 0);
        bool zz = false;
        for (const auto& t : terms_) { coefs_[t.key] += t.coef; if (t.key.Class() == 4) zz = true; }
        if (has_charge_ && charge_ != 0.0 && !zz)
        {
            terms_.push_back(Term{ElementKey("Zz", 4, 0), charge_, true, 1});
            coefs_[ElementKey("Zz", 4, 0)] += charge_;
        }
    }
};

class DBElements
{
public:
    const ElementsData& elements() const { return elements_; }
    void addElement(const ElementKey& key, const ElementValues& values) { elements_[key] = values; }
    FormulaProperties formulasProperties(const std::string& formula) const
    {
        return FormulaToken(formula).properties(elements_);
    }
    static int defaultValence(const std::string& symbol)
    {
        static const std::map<std::string, int> v = {
            {"H", 1}, {"O", -2}, {"Na", 1}, {"K", 1}, {"Li", 1}, {"Rb", 1}, {"Cs", 1}, {"Mg", 2}, {"Ca", 2},
            {"Sr", 2}, {"Ba", 2}, {"Al", 3}, {"Si", 4}, {"C", 4}, {"Cl", -1}, {"F", -1}, {"Br", -1}, {"I", -1},
            {"S", 6}, {"N", 5}, {"P", 5}, {"Fe", 2}, {"Mn", 2}, {"Cu", 2}, {"Zn", 2}, {"Pb", 2}, {"Ni", 2},
            {"Co", 2}, {"Zz", 1}, {"Nit", 0}, {"Ag", 1}, {"Au", 1}, {"Cr", 3}, {"U", 6}, {"B", 3}, {"Ti", 4}};
        auto it = v.find(symbol);
        return it == v.end() ? 0 : it->second;
    }
private:
    ElementsData elements_;
};

} // namespace ChemicalFun
