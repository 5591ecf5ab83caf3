#pragma once
// Random records of minerals, solutes and gases. Consistent minerals: transitions where the intervals meet and
// at equilibrium, and any reference temperature, and pressure where the model has one.
#include "models.h"

namespace vf {
inline vd random_cp(Rng& r)
{
    static const double mag[10] = {100, 0.05, 2e6, 800, 2e-5, 1e-8, 5e-12, 3e8, 5000, 1};
    vd c;
    size_t n = r.coin(0.5) ? 3 + r.below(3) : 1 + r.below(10);
    for (size_t i = 0; i < n; i++) c.push_back(i == 0 ? r.u(20, 200) : r.coin(0.3) ? 0 : r.u(-1, 1) * mag[i]);
    if (r.coin(0.15)) { while (c.size() < 10) c.push_back(0); c.push_back(r.u(-5, 5)); c.push_back(3); } // further coefficients are not part of the function
    return c;
}

inline SubstanceSpec random_mineral(Rng& r, bool consistent = false)
{
    using MP = MethodCorrP_Thrift;
    SubstanceSpec k;
    k.symbol = "X"; k.formula = r.coin() ? "SiO2" : "Al2O3"; k.genEos = MethodGenEoS_Thrift::CTPM_CPT;
    k.Tr = r.coin(consistent ? 0.4 : 0.8) ? 298.15 : r.u(280, 330);
    k.Pr = r.coin(consistent ? 0.4 : 0.8) ? 1e5 : r.logu(1e5, 1e7);
    k.G = r.u(-4e6, 1e5); k.H = r.u(-4e6, 1e5); k.S = r.u(5, 600); k.Cp = r.u(10, 500); k.V = r.u(0.5, 30);
    double lo = r.coin(0.7) ? 273.15 : r.u(200, k.Tr);
    size_t n = r.coin(0.5) ? 1 : 2 + r.below(3);
    double b = lo;
    for (size_t i = 0; i < n; i++)
    {
        double hi = std::max(b, k.Tr) + r.u(50, 600);
        if (r.coin(0.3)) hi = std::round(hi);
        k.par.temperature_intervals.push_back({b, hi});
        k.par.Cp_coeff.push_back(random_cp(r));
        if (i)
        {
            double t = consistent || r.coin(0.7) ? b : b - r.u(0, 3);
            if (!consistent && r.coin(0.15)) t = b + r.u(5, 40); // applies from the next interval on
            vd p{t};
            if (r.coin(0.9)) { p.push_back(r.u(0.1, 20)); if (r.coin(0.9)) { p.push_back(p[1] * t); if (r.coin(0.8)) { p.push_back(r.u(-0.1, 0.3)); if (r.coin()) p.push_back(0.1); } } }
            if (consistent) { p.resize(1); if (r.coin(0.8)) { p.push_back(r.u(0.1, 20)); p.push_back(p[1] * t); } }
            k.par.phase_transition_prop.push_back(p);
        }
        b = hi;
    }
    switch (r.below(6))
    {
    case 0: k.mP = MP::CPM_CON; if (r.coin(0.1)) k.V = NAN; break;
    case 1: k.mP = MP::CPM_VBE; k.par.volume_coeff = {r.u(0, 6e-5), r.u(-2, 2) * 1e-8, r.u(-1, 1) * 1e-12, -r.u(1, 20) * 1e-7, r.u(-1, 3) * 1e-12}; break;
    case 2: k.mP = MP::CPM_CEH; k.par.isobaric_expansivity = r.u(0.2, 8); k.par.isothermal_compresibility = r.u(200, 2500); if (r.coin(0.08)) (r.coin() ? k.par.isobaric_expansivity : k.par.isothermal_compresibility) = 0; break;
    case 3: k.mP = MP::CPM_CEH; k.mT = MethodCorrT_Thrift::CTM_CHP; k.par.isobaric_expansivity = r.u(0.2, 8); k.par.isothermal_compresibility = r.u(300, 2500);
        k.par.m_landau_phase_trans_props = {r.u(200, 1200), r.u(2, 40), r.u(0.01, 0.5)}; if (r.coin(0.1)) k.par.m_landau_phase_trans_props[2] = 0; break;
    case 4: k.mP = MP::CPM_VBM; k.par.volume_BirchM_coeff = {r.u(0.5, 5) * 1e-5, r.u(-1, 1) * 1e-9, r.coin() ? 0 : r.u(-1, 1), 0, 0, r.u(4e4, 3e5), -r.u(0, 30), r.u(3, 7), 0}; k.par.volume_BirchM_coeff[6] = -r.u(0, 1.2e-4) * k.par.volume_BirchM_coeff[5]; if (r.coin(0.4)) k.par.volume_BirchM_coeff[8] = -r.u(0.5, 4) * 1e-5; break;
    default: k.mP = r.coin() ? 0 : MP::CPM_CON; break;
    }
    if (k.mP == MP::CPM_CEH || k.mP == MP::CPM_VBM) k.Pr = 1e5; // these equations refer to 1 bar
    return k;
}

inline SubstanceSpec random_solute(Rng& r, bool& gems)
{
    using MG = MethodGenEoS_Thrift;
    SubstanceSpec k;
    k.symbol = "X"; k.cls = SubstanceClass::AQSOLUTE; k.state = AggregateState::AQUEOUS; k.formula = "CO2@";
    k.G = r.u(-1e6, 2e5); k.H = r.u(-1e6, 2e5); k.S = r.u(-200, 200); k.Cp = r.u(-200, 400); k.V = r.u(-3, 8);
    switch (r.below(10))
    {
    case 0: k.genEos = MG::CTPM_HP98; k.par.solute_holland_powell98_coeff = {r.u(-0.1, 0.2)}; break;
    case 1: k.genEos = MG::CTPM_AN91; break;
    case 2: case 3:
        k.genEos = MG::CTPM_CPT; k.mP = MethodCorrP_Thrift::CPM_AKI;
        k.par.temperature_intervals = {{273.15, 2000}}; k.par.Cp_coeff = {random_cp(r)};
        k.par.Cp_nonElectrolyte_coeff = {r.u(-1, 1), r.u(-20, 5), r.u(-5, 20)};
        break;
    default:
        gems = r.coin();
        k.genEos = gems ? MG::CTPM_HKF : MG::CTPM_HKFR;
        k.charge = r.coin(0.25) ? 0 : int(r.below(7)) - 3;
        k.par.HKF_parameters = {r.u(-0.5, 2), r.u(-500, 1000), r.u(-5, 20), r.u(-6e4, 0), r.u(-20, 60), r.u(-2e5, 1e5), 0};
        // Born coefficient from an effective radius
        if (k.charge) { double z = k.charge, re = r.u(1.5, 6) * std::fabs(z); k.par.HKF_parameters[6] = 1.66027e5 * (z * z / re - z / 3.082); }
        else k.par.HKF_parameters[6] = r.u(-5e4, 1e4);
        if (r.coin(0.1)) k.par.HKF_parameters[r.below(7)] = 0;
        if (k.charge && k.par.HKF_parameters[6] == 0) k.par.HKF_parameters[6] = 1e4;
    }
    return k;
}

inline SubstanceSpec random_gas(Rng& r)
{
    using MP = MethodCorrP_Thrift;
    SubstanceSpec k;
    k.symbol = "X"; k.cls = SubstanceClass::GASFLUID; k.state = AggregateState::GAS; k.genEos = MethodGenEoS_Thrift::CTPM_CPT;
    k.G = -r.u(0, 5e5); k.H = k.G + r.u(-1e5, 1e5); k.S = r.u(100, 400); k.Cp = r.u(20, 80); k.V = r.coin(0.5) ? 2479 : 0;
    double lo = r.coin(0.7) ? 298.15 : r.u(200, 298.15);
    static const char* formulas[] = {"CH4", "N2", "O2", "Ar", "H2S", "CO", "CO2", "H2O"};
    k.formula = formulas[r.below(8)];
    vd a{r.u(20, 80), r.u(-1, 1) * 1e-2, r.u(-1, 1) * 1e6, r.u(-3, 3) * 100};
    if (r.coin(0.3)) a.push_back(r.u(-1, 1) * 1e-6);
    k.par.Cp_coeff = {a};
    double Tc = r.u(30, 700), Pc = r.u(10, 250), w = r.u(-0.2, 0.7);
    switch (r.below(9))
    {
    case 0: case 1: k.mP = MP::CPM_PRSV; k.par.critical_parameters = {Tc, Pc, w}; if (r.coin(0.8)) { k.par.critical_parameters.push_back(r.u(-0.08, 0.08)); if (r.coin()) k.par.critical_parameters.resize(7); } break;
    case 2: k.mP = MP::CPM_PR78; k.par.critical_parameters = {Tc, Pc, w}; if (r.coin(0.2)) k.par.critical_parameters[2] = 0.491; break;
    case 3: k.mP = MP::CPM_SRK; k.par.critical_parameters = {Tc, Pc, w}; break;
    case 4: case 5: k.mP = MP::CPM_CORK; k.par.critical_parameters = {Tc, Pc, 0, 0, 0, 0, 0}; if (k.formula == "H2O" || r.coin(0.3)) { k.formula = r.coin() ? "H2O" : "CO2"; } break;
    case 6: k.mP = MP::CPM_STP; k.formula = r.coin() ? "CO2" : "H2O"; k.par.critical_parameters = {k.formula == "CO2" ? 304.2 : 647.1, k.formula == "CO2" ? 73.8 : 220.6, 0, 0, 0, 0, 0}; break;
    case 7: k.mP = MP::CPM_EMP; k.par.critical_parameters = {r.u(3, 4.2), r.u(80, 350), r.u(0, 2), 0, 0, 0, 0}; if (r.coin(0.3)) { k.formula = "H2O"; k.par.critical_parameters = {2.93, 288.8, 2.4, 3.1, 1.85, 0, 0}; } break;
    default: k.mP = r.coin() ? 0 : MP::CPM_OFF;
    }
    if (k.mP == MP::CPM_CORK && k.formula == "H2O") lo = 273.16; // its saturation curve turns negative in the cold
    k.par.temperature_intervals = {{lo, r.u(800, 3000)}};
    return k;
}

} // namespace vf
