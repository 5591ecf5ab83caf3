#pragma once
// Random records of substances, reactions and elements, as JSON.
#include "pool.h"
#include "units_ref.h"
using namespace vf;

static const std::vector<std::string> HKF_UNITS{"cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol"},
    CP_UNITS{"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)", "J/(mol*K^4)", "J/(mol*K^5)", "(J*K^2)/mol", "J/mol", "J/(mol*K^1.5)", "J/(mol*K)"}, PT_UNITS{"K", "J/(mol*K)", "J/mol", "J/bar", "K/bar"},
    AD_UNITS{"1", "(cm^3)/g", "(cm^3*K^0.5)/g"}, GAS_UNITS{"K", "bar", "1", "1"}, LANDAU_UNITS{"degC", "J/(mol*K)", "J/bar"}, HP_UNITS{"kJ/(mol*K^2)"},
    LOGK_UNITS{"1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5"}, RCP_UNITS{"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)"}, RV_UNITS{"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"}, RB_UNITS{"1", "1", "1"},
    FM_UNITS{"1", "K", "K^2", "K^3", "1", "K", "K^2"}, DM_UNITS{"kJ/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"};
// kind (g: general, t: temperature, p: pressure) and internal number of the methods named in records
static const std::map<int, std::pair<char, int>> s_methods{{0, {'g', 100}}, {2, {'g', 101}}, {3, {'g', 119}}, {25, {'g', 117}}, {26, {'g', 118}}, {27, {'g', 120}}, {28, {'g', 121}}, {5, {'t', 201}}, {6, {'t', 202}}, {1, {'t', 203}},
    {29, {'t', 206}}, {30, {'t', 207}}, {31, {'t', 221}}, {32, {'t', 222}}, {33, {'t', 223}}, {43, {'t', 200}}, {34, {'p', 305}}, {35, {'p', 306}}, {36, {'p', 307}}, {37, {'p', 308}}, {38, {'p', 309}}, {39, {'p', 310}}, {8, {'p', 311}}, {9, {'p', 312}},
    {10, {'p', 313}}, {11, {'p', 314}}, {12, {'p', 315}}, {13, {'p', 316}}, {14, {'p', 317}}, {4, {'p', 320}}, {40, {'p', 300}}};
static const std::map<int, std::pair<char, int>> r_methods{{11, {'g', 100}}, {0, {'g', 102}}, {3, {'t', 208}}, {4, {'t', 209}}, {5, {'t', 210}}, {6, {'t', 211}}, {7, {'t', 212}}, {8, {'t', 213}}, {9, {'t', 214}}, {10, {'t', 216}}, {14, {'t', 224}}, {12, {'p', 306}}, {13, {'p', 305}}};

// ---- random records
static json some_units(Rng& r, const std::vector<std::string>& def)
{
    json u = json::array();
    for (auto& d : def)
    {
        if (d == "degC") { u.push_back(r.coin() ? "degC" : "K"); continue; }
        Expr e{d, {1, {}}};
        u.push_back(d == "1" || r.coin(0.3) ? d : rewrite(r, e).text);
    }
    return u;
}
static json list_field(Rng& r, const std::vector<std::string>& def, size_t n)
{
    json x;
    std::vector<double> v;
    for (size_t i = 0; i < n; i++) v.push_back(r.coin(0.1) ? 0 : (r.coin() ? -1 : 1) * r.logu(1e-6, 1e6));
    x["values"] = v;
    if (r.coin(0.7)) { x["units"] = some_units(r, def); if (r.coin(0.15) && x["units"].size() > 1) x["units"].erase(x["units"].size() - 1); }
    if (r.coin(0.3)) x["names"] = json::array();
    return x;
}
static json value_field(Rng& r, const std::string& def)
{
    json x;
    if (!r.coin(0.06)) x["values"] = {(r.coin() ? -1 : 1) * r.logu(1e-3, 1e7)};
    if (r.coin(0.06)) x["values"] = json::array();
    if (r.coin(0.7)) x["units"] = some_units(r, {def});
    if (r.coin(0.5)) x["errors"] = {r.logu(1e-3, 1e4)};
    if (r.coin(0.2)) x["status"] = {{{"2", "CALCULATED"}}};
    return x;
}
static json temperature_limits(Rng& r) { json l{{"range", false}}; double a = r.u(200, 400); if (r.coin(0.9)) l["lowerT"] = a; if (r.coin(0.9)) l["upperT"] = a + r.u(50, 1500); if (r.coin(0.3)) l["lowerP"] = r.logu(0.1, 1e6); if (r.coin(0.3)) l["upperP"] = r.logu(1e6, 1e10); return l; }
static json some_substance(Rng& r, const std::string& symbol)
{
    json j{{"symbol", symbol}, {"formula", r.coin() ? "SiO2@" : "Ca(OH)2"}, {"class_", {{std::to_string(r.below(7)), "X"}}}, {"aggregate_state", {{std::to_string(r.below(9)), "X"}}}};
    if (r.coin(0.9)) j["name"] = symbol + " name";
    if (r.coin(0.8)) j["formula_charge"] = int(r.below(9)) - 4;
    if (r.coin(0.7)) j["Tst"] = r.pickd({298.15, 273.15, 300, 1000});
    if (r.coin(0.7)) j["Pst"] = r.pickd({1e5, 101325, 1e6, 0});
    if (r.coin(0.6)) j["mass_per_mole"] = {{"values", {r.u(1, 500)}}};
    if (r.coin(0.5)) j["mass_per_mole"]["values"] = {r.u(1, 500)}, j["mass_per_mole"]["units"] = {r.coin() ? "g/mol" : "kg/mol"};
    if (r.coin(0.3)) j["limitsTP"] = temperature_limits(r);
    if (r.coin(0.25)) j["reaction"] = "R_" + symbol;
    std::vector<std::pair<const char*, const char*>> props{{"sm_heat_capacity_p", "J/K/mol"}, {"sm_gibbs_energy", "J/mol"}, {"sm_enthalpy", "J/mol"}, {"sm_entropy_abs", "J/K/mol"}, {"sm_volume", "J/bar"}};
    for (auto& p : props) if (r.coin(0.85)) j[p.first] = value_field(r, p.second);
    if (r.coin(0.85))
    {
        json ms = json::array();
        int n = r.below(4);
        for (int i = 0; i < n; i++)
        {
            auto it = s_methods.begin();
            std::advance(it, r.below(s_methods.size()));
            if (r.coin(0.3)) it = s_methods.begin();
            json m{{"method", {{std::to_string(it->first), it->first == 0 ? "cp_ft_equation" : "a method"}}}};
            if (it->first == 0 || r.coin(0.1)) { if (r.coin(0.95)) m["limitsTP"] = temperature_limits(r); if (r.coin(0.95)) m["m_heat_capacity_ft_coeffs"] = list_field(r, CP_UNITS, r.coin() ? 11 : 1 + r.below(11)); if (r.coin(0.3)) m["m_phase_trans_props"] = list_field(r, PT_UNITS, 1 + r.below(5)); }
            if (it->first == 2 || it->first == 3) m["eos_hkf_coeffs"] = list_field(r, HKF_UNITS, 7);
            if (it->first == 4) m["eos_akinfiev_diamond_coeffs"] = list_field(r, AD_UNITS, 3);
            if (it->first == 5) m["m_landau_phase_trans_props"] = list_field(r, LANDAU_UNITS, 3);
            if (it->first >= 8 && it->first <= 14) m["eos_gas_crit_props"] = list_field(r, GAS_UNITS, 4);
            if (it->first == 43 && r.coin()) m["solute_holland_powell98_coeff"] = list_field(r, HP_UNITS, 1);
            ms.push_back(m);
        }
        j["TPMethods"] = ms;
        if (r.coin(0.3)) { j["m_expansivity"] = {{"values", {r.logu(1e-6, 1)}}}; if (r.coin()) j["m_expansivity"]["units"] = {r.coin() ? "1/K" : "kbar"}; }
        if (r.coin(0.3)) { j["m_compressibility"] = {{"values", {r.logu(1, 2000)}}}; if (r.coin()) j["m_compressibility"]["units"] = {r.pick(std::vector<std::string>{"kbar", "GPa", "1e-05/K", "bar"})}; }
    }
    return j;
}
static json some_reaction(Rng& r, const std::string& symbol)
{
    json j{{"symbol", symbol}};
    if (r.coin(0.7)) j["name"] = symbol + " name";
    if (r.coin(0.7)) j["Tst"] = r.pickd({298.15, 273.15, 300, 1000});
    if (r.coin(0.7)) j["Pst"] = r.pickd({1e5, 101325, 1e6});
    if (r.coin(0.6)) j["limitsTP"] = temperature_limits(r);
    json re = json::array();
    for (int i = 0, n = 1 + r.below(5); i < n; i++) { re.push_back({{"symbol", "S" + std::to_string(i)}, {"coefficient", r.coin() ? double(int(r.below(9)) - 4) : r.u(-4, 4)}}); if (r.coin(0.05)) re.back().erase("coefficient"); }
    j["reactants"] = re;
    if (r.coin(0.5)) j["equation"] = "S0 + 2S1 = S2";
    std::vector<std::pair<const char*, const char*>> props{{"logKr", "1"}, {"drsm_heat_capacity_p", "J/K/mol"}, {"drsm_gibbs_energy", "J/mol"}, {"drsm_enthalpy", "J/mol"}, {"drsm_entropy", "J/K/mol"}, {"drsm_volume", "J/bar"}};
    for (auto& p : props) if (r.coin(0.85)) j[p.first] = value_field(r, p.second);
    if (r.coin(0.9))
    {
        json ms = json::array();
        for (int i = 0, n = r.below(4); i < n; i++)
        {
            auto it = r_methods.begin();
            std::advance(it, r.below(r_methods.size()));
            json m{{"method", {{std::to_string(it->first), "a method"}}}};
            int k = it->first;
            if (k == 0 || (k >= 3 && k <= 8)) m["logk_ft_coeffs"] = list_field(r, LOGK_UNITS, 7);
            if (k == 11) m["dr_heat_capacity_ft_coeffs"] = list_field(r, RCP_UNITS, 5);
            if (k == 12) m["dr_volume_fpt_coeffs"] = list_field(r, RV_UNITS, 5);
            if (k == 10) m["dr_ryzhenko_coeffs"] = list_field(r, RB_UNITS, 3);
            if (k == 9) m["dr_marshall_franck_coeffs"] = list_field(r, FM_UNITS, 7);
            if (k == 14) m["dr_dolejs_manning10_coeffs"] = list_field(r, DM_UNITS, 5);
            ms.push_back(m);
        }
        j["TPMethods"] = ms;
    }
    return j;
}
static json some_element(Rng& r, const std::string& symbol)
{
    json j{{"symbol", symbol}};
    if (r.coin(0.8)) j["name"] = symbol + " name";
    if (r.coin(0.8)) j["number"] = 1 + r.below(110);
    for (auto& p : std::vector<std::pair<const char*, const char*>>{{"entropy", "J/(mol*K)"}, {"heat_capacity", "J/(mol*K)"}, {"atomic_mass", "g/mol"}, {"volume", "J/bar"}})
        if (r.coin(0.75)) { j[p.first] = value_field(r, p.second); }
    j["class_"] = r.coin(0.8) ? json{{std::to_string(r.below(6)), "X"}} : json();
    if (r.coin(0.5)) j["isotope_mass"] = r.below(240);
    return j;
}
