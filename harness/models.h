#pragma once
// Records for the models that no shipped database uses, built through the
// public setters (most cannot be expressed in database JSON at all).
#include "common.h"

namespace vf {
using namespace ThermoFun;

struct SubstanceSpec
{
    std::string symbol, formula;
    SubstanceClass::type cls = SubstanceClass::COMPONENT;
    AggregateState::type state = AggregateState::CRYSTAL;
    int genEos = 0, mT = 0, mP = 0;
    double G = NAN, H = NAN, S = NAN, Cp = NAN, V = NAN;
    double Tr = 298.15, Pr = 1e5;
    ThermoParametersSubstance par{};
    int charge = 0;
};

inline json describe(const SubstanceSpec& k)
{
    auto& p = k.par;
    json j{{"class", int(k.cls)}, {"state", int(k.state)}, {"methods", {k.genEos, k.mT, k.mP}}, {"G", jnum(k.G)}, {"H", jnum(k.H)}, {"S", jnum(k.S)}, {"Cp", jnum(k.Cp)}, {"V", jnum(k.V)}, {"Tr", k.Tr}, {"Pr", k.Pr}, {"formula", k.formula}, {"charge", k.charge}};
    if (p.isothermal_compresibility || p.isobaric_expansivity) j["compressibility, expansivity"] = {p.isothermal_compresibility, p.isobaric_expansivity};
    if (!p.temperature_intervals.empty()) j["intervals"] = p.temperature_intervals;
    if (!p.Cp_coeff.empty()) j["Cp"] = p.Cp_coeff;
    if (!p.phase_transition_prop.empty()) j["transitions"] = p.phase_transition_prop;
    if (!p.m_landau_phase_trans_props.empty()) j["landau"] = p.m_landau_phase_trans_props;
    if (!p.volume_coeff.empty()) j["volume_coeff"] = p.volume_coeff;
    if (!p.volume_BirchM_coeff.empty()) j["birch"] = p.volume_BirchM_coeff;
    if (!p.Cp_nonElectrolyte_coeff.empty()) j["Akinfiev-Diamond"] = p.Cp_nonElectrolyte_coeff;
    if (!p.solute_holland_powell98_coeff.empty()) j["HP98"] = p.solute_holland_powell98_coeff;
    if (!p.HKF_parameters.empty()) j["HKF"] = p.HKF_parameters;
    if (!p.critical_parameters.empty()) j["critical"] = p.critical_parameters;
    return j;
}

inline Substance make(const SubstanceSpec& k)
{
    Substance s;
    s.setSymbol(k.symbol);
    s.setName(k.symbol);
    s.setFormula(k.formula);
    s.setSubstanceClass(k.cls);
    s.setAggregateState(k.state);
    if (k.genEos) s.setMethodGenEoS(MethodGenEoS_Thrift::type(k.genEos));
    if (k.mT) s.setMethod_T(MethodCorrT_Thrift::type(k.mT));
    if (k.mP) s.setMethod_P(MethodCorrP_Thrift::type(k.mP));
    s.setReferenceT(k.Tr);
    s.setReferenceP(k.Pr);
    s.setLowerT(0); s.setUpperT(5000); s.setLowerP(0); s.setUpperP(1e10);
    s.setMolarMass(1.0);
    s.setCharge(k.charge);
    ThermoPropertiesSubstance r;
    if (!std::isnan(k.G)) r.gibbs_energy = k.G;
    if (!std::isnan(k.H)) r.enthalpy = k.H;
    if (!std::isnan(k.S)) r.entropy = k.S;
    if (!std::isnan(k.Cp)) r.heat_capacity_cp = k.Cp;
    if (!std::isnan(k.V)) r.volume = k.V;
    s.setThermoReferenceProperties(r);
    s.setThermoParameters(k.par);
    return s;
}

inline Substance water(const std::string& symbol, int eos, int diel)
{
    SubstanceSpec k;
    k.symbol = symbol; k.formula = "H2O@";
    k.cls = SubstanceClass::AQSOLVENT; k.state = AggregateState::AQUEOUS;
    k.genEos = diel; k.mT = eos;
    return make(k);
}

struct WaterKind { const char* symbol; int eos, diel; };
inline const std::vector<WaterKind>& water_kinds()
{
    static const std::vector<WaterKind> w{
        {"W_WP95_JNr", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WJNR},
        {"W_HGKr_JNr", MethodCorrT_Thrift::CTM_WAR, MethodGenEoS_Thrift::CTPM_WJNR},
        {"W_HGKg_JNg", MethodCorrT_Thrift::CTM_WAT, MethodGenEoS_Thrift::CTPM_WJNG},
        {"W_HGKg_JNr", MethodCorrT_Thrift::CTM_WAT, MethodGenEoS_Thrift::CTPM_WJNR},
        {"W_WP95_JNg", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WJNG},
        {"W_WP95_SV14", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WSV14},
        {"W_WP95_F97", MethodCorrT_Thrift::CTM_WWP, MethodGenEoS_Thrift::CTPM_WF97},
        {"W_ZD05_SV14", MethodCorrT_Thrift::CTM_WZD, MethodGenEoS_Thrift::CTPM_WSV14},
        {"W_ZD05_F97", MethodCorrT_Thrift::CTM_WZD, MethodGenEoS_Thrift::CTPM_WF97},
    };
    return w;
}

// One realistic record per model, without the waters.
inline std::vector<SubstanceSpec> model_specs()
{
    std::vector<SubstanceSpec> v;
    const int CPT = MethodGenEoS_Thrift::CTPM_CPT;
    auto gasT = [](ThermoParametersSubstance& p) { p.temperature_intervals = {{298.15, 3000}}; };
    { // Berman (1988) andalusite-like volume
        SubstanceSpec k; k.symbol = "M_Berman88"; k.formula = "Al2SiO5"; k.genEos = CPT; k.mP = MethodCorrP_Thrift::CPM_VBE;
        k.G = -2439892; k.H = -2589972; k.S = 91.434; k.Cp = 122.5; k.V = 5.147;
        k.par.temperature_intervals = {{273.15, 2000}};
        k.par.Cp_coeff = {{236.47818, 0, -7526810.2, -1102.94, 0, 0, 0, 936442368.0}};
        k.par.volume_coeff = {2.3e-5, 1e-9, 0.5e-12, -6.5e-7, 1e-12};
        v.push_back(k);
    }
    { // Birch-Murnaghan after Gottschalk (1997)
        SubstanceSpec k; k.symbol = "M_BMGott"; k.formula = "Al2SiO5"; k.genEos = CPT; k.mP = MethodCorrP_Thrift::CPM_VBM;
        k.G = -2439892; k.H = -2589972; k.S = 91.434; k.Cp = 122.5; k.V = 5.147;
        k.par.temperature_intervals = {{273.15, 2000}};
        k.par.Cp_coeff = {{236.47818, 0, -7526810.2, -1102.94, 0, 0, 0, 936442368.0}};
        k.par.volume_BirchM_coeff = {2.3e-5, 1e-9, 0, 0, 0, 135000, -20, 4.0, 0.0};
        v.push_back(k);
    }
    { // Murnaghan (HP98) + Landau (HP98): quartz
        SubstanceSpec k; k.symbol = "M_Landau"; k.formula = "SiO2"; k.genEos = CPT; k.mT = MethodCorrT_Thrift::CTM_CHP; k.mP = MethodCorrP_Thrift::CPM_CEH;
        k.G = -856288; k.H = -910700; k.S = 41.43; k.Cp = 44.4; k.V = 2.2688;
        k.par.temperature_intervals = {{273.15, 2000}};
        k.par.Cp_coeff = {{110.7, -0.005189, 0, -1128.3}};
        k.par.isothermal_compresibility = 750; k.par.isobaric_expansivity = 0.65;
        k.par.m_landau_phase_trans_props = {574, 4.95, 0.1188};
        v.push_back(k);
    }
    { // all coefficients of the heat capacity polynomial, three intervals, two transitions
        SubstanceSpec k; k.symbol = "M_CpFull"; k.formula = "Fe"; k.genEos = CPT; k.mP = MethodCorrP_Thrift::CPM_CON;
        k.G = -1000; k.H = -2000; k.S = 27.3; k.Cp = 25; k.V = 0.709;
        k.par.temperature_intervals = {{250, 500}, {500, 900}, {900, 1800}};
        k.par.Cp_coeff = {{20, 1e-2, -1e5, 100, 1e-6, 1e-9, 1e-12, 1e7, 300, 0.2}, {30, -1e-3, 2e5, -50, 2e-6, -1e-9, 1e-13, -1e7, 100, -0.1}, {35, 2e-3}};
        k.par.phase_transition_prop = {{500, 1.3, 650, 0.01, 0}, {900, 2.0, 1800, 0.02, 0}};
        v.push_back(k);
    }
    { // constant Cp and S
        SubstanceSpec k; k.symbol = "M_EntropyCp"; k.formula = "Cu"; k.mT = MethodCorrT_Thrift::CTM_CST; k.mP = MethodCorrP_Thrift::CPM_CON;
        k.G = -5000; k.H = -7000; k.S = 33; k.Cp = 24.4; k.V = 0.711;
        v.push_back(k);
    }
    { // HP98 aqueous density model (examples/solute-hp98)
        SubstanceSpec k; k.symbol = "M_HP98"; k.formula = "OH-"; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.genEos = MethodGenEoS_Thrift::CTPM_HP98;
        k.G = -157220; k.H = -230020; k.S = -10.71; k.Cp = -137.2; k.V = -0.418;
        k.par.solute_holland_powell98_coeff = {0.02};
        v.push_back(k);
    }
    { // Anderson (1991) density model (examples/solute-anderson91)
        SubstanceSpec k; k.symbol = "M_AN91"; k.formula = "OH-"; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.genEos = MethodGenEoS_Thrift::CTPM_AN91;
        k.G = -157220; k.H = -230020; k.S = -10.71; k.Cp = -137.2; k.V = -0.418;
        v.push_back(k);
    }
    { // Akinfiev-Diamond: CO2
        SubstanceSpec k; k.symbol = "M_AD"; k.formula = "CO2@"; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.genEos = CPT; k.mP = MethodCorrP_Thrift::CPM_AKI;
        k.G = -385974; k.H = -413198; k.S = 117.6; k.Cp = 243; k.V = 3.28;
        k.par.temperature_intervals = {{273.15, 2000}};
        k.par.Cp_coeff = {{87.8, -0.002644, 706400, -998.9}};
        k.par.Cp_nonElectrolyte_coeff = {-0.085, -8.8321, 11.2684};
        v.push_back(k);
    }
    for (auto& g : std::vector<std::pair<const char*, int>>{{"M_GemsHKF", MethodGenEoS_Thrift::CTPM_HKF}, {"M_ReakHKF", MethodGenEoS_Thrift::CTPM_HKFR}})
    { // Na+ / with both HKF codes
        SubstanceSpec k; k.symbol = g.first; k.formula = "Na+"; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.genEos = g.second;
        k.G = -261880.736, k.H = -240299.672, k.S = 58.40864, k.Cp = 38.1223, k.V = -0.111;
        k.par.HKF_parameters = {0.1839, -228.5, 3.256, -27260, 18.18, -29810, 33060};
        v.push_back(k);
    }
    // fluids
    auto gas = [&](const char* sym, const char* formula, int mP, vd crit) {
        SubstanceSpec k; k.symbol = sym; k.formula = formula; k.cls = SubstanceClass::GASFLUID; k.state = AggregateState::GAS; k.genEos = CPT; k.mP = mP;
        k.G = -394373; k.H = -393510; k.S = 213.74; k.Cp = 37.1; k.V = 2479;
        gasT(k.par);
        k.par.Cp_coeff = {{87.8, -0.002644, 706400, -998.9}};
        k.par.critical_parameters = crit;
        v.push_back(k);
    };
    gas("G_PRSV", "CO2", MethodCorrP_Thrift::CPM_PRSV, {304.2, 73.8, 0.225, 0.04285, 0, 0, 0});
    gas("G_PR78", "CH4", MethodCorrP_Thrift::CPM_PR78, {190.6, 46.0, 0.008, 0, 0, 0, 0});
    gas("G_SRK", "CH4", MethodCorrP_Thrift::CPM_SRK, {190.6, 46.0, 0.008, 0, 0, 0, 0});
    gas("G_CORK_CO2", "CO2", MethodCorrP_Thrift::CPM_CORK, {304.2, 73.8, 0, 0, 0, 0, 0});
    gas("G_CORK_H2O", "H2O", MethodCorrP_Thrift::CPM_CORK, {647.1, 220.6, 0, 0, 0, 0, 0});
    gas("G_CORK_CH4", "CH4", MethodCorrP_Thrift::CPM_CORK, {190.6, 46.0, 0, 0, 0, 0, 0});
    gas("G_STP_CO2", "CO2", MethodCorrP_Thrift::CPM_STP, {304.2, 73.8, 0, 0, 0, 0, 0});
    gas("G_STP_H2O", "H2O", MethodCorrP_Thrift::CPM_STP, {647.1, 220.6, 0, 0, 0, 0, 0});
    gas("G_CGF", "CO2", MethodCorrP_Thrift::CPM_EMP, {3.7, 236, 2.4, 0, 0, 0, 0});
    gas("G_IDEAL", "N2", MethodCorrP_Thrift::CPM_OFF, {});
    return v;
}

// A database with all the models; the solvent is the given kind of water ("H2O@")
inline Database model_database(int eos = MethodCorrT_Thrift::CTM_WWP, int diel = MethodGenEoS_Thrift::CTPM_WJNR)
{
    Database db;
    db.addSubstance(water("H2O@", eos, diel));
    for (auto& w : water_kinds()) db.addSubstance(water(w.symbol, w.eos, w.diel));
    for (auto& k : model_specs()) db.addSubstance(make(k));
    return db;
}
} // namespace vf
