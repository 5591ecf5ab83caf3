#include "models.h"
using namespace vf;
int main(int c, char** v)
{
    auto o = parse(c, v);
    std::vector<std::pair<std::string, Database>> dbs;
    for (auto& f : databases(o)) dbs.emplace_back(base(f), Database(f));
    dbs.emplace_back("models", model_database());
    for (auto& [n, db] : dbs)
    {
        ThermoEngine e(db);
        std::map<std::string, std::pair<double, std::string>> worst;
        std::map<std::string, int> cnt;
        for (auto& [sym, s] : db.mapSubstances())
            for (auto [T, P] : std::vector<std::pair<double, double>>{{298.15, 1e5}, {320, 1e5}, {400, 2e7}, {480, 5e7}, {530, 1e8}, {620, 2e8}, {800, 3e8}, {1000, 5e8}})
            {
                auto q = [&](double t, double p) { return query(p, [&](double& pp) { return e.thermoPropertiesSubstance(t, pp, sym); }); };
                auto r = q(T, P);
                char mk[100]; snprintf(mk, 100, "%d/%d/%d/c%d", s.methodGenEOS(), s.method_T(), s.method_P(), (int)s.substanceClass());
                if (!r.ok) { cnt[mk + std::string(" ERR ") + std::to_string(T) + r.error.substr(0, 150)]++; continue; }
                auto& t = r.value;
                auto put = [&](const std::string& k, double x) { auto& w = worst[mk + std::string(" ") + k]; if (!(std::fabs(x) <= w.first)) w = {std::fabs(x), sym + " " + std::to_string(T) + " " + std::to_string(P / 1e5)}; };
                bool un = t.internal_energy.sta.first && t.volume.sta.first;
                if (un) put("U=H-PV", t.internal_energy.val - (t.enthalpy.val - P / 1e5 * t.volume.val));
                if (un) put("A=U-TS", t.helmholtz_energy.val - (t.internal_energy.val - T * t.entropy.val));
                double dT = 0.02, dP = P * 1e-4;
                auto a = q(T - dT, P), b = q(T + dT, P), cc = q(T, P - dP), d = q(T, P + dP);
                if (!a.ok || !b.ok || !cc.ok || !d.ok) continue;
                put("S+dGdT", t.entropy.val + (b.value.gibbs_energy.val - a.value.gibbs_energy.val) / (2 * dT));
                put("Cp-dHdT", t.heat_capacity_cp.val - (b.value.enthalpy.val - a.value.enthalpy.val) / (2 * dT));
                put("Cp-TdSdT", t.heat_capacity_cp.val - T * (b.value.entropy.val - a.value.entropy.val) / (2 * dT));
                put("V-dGdP rel", (t.volume.val - (d.value.gibbs_energy.val - cc.value.gibbs_energy.val) / (2 * dP / 1e5)) / (std::fabs(t.volume.val) + 1e-3));
                put("G.ddt+S", t.gibbs_energy.ddt + t.entropy.val);
                put("H.ddt-Cp", t.enthalpy.ddt - t.heat_capacity_cp.val);
                put("G.ddp*1e5-V rel", (t.gibbs_energy.ddp*1e5 - t.volume.val)/ (std::fabs(t.volume.val) + 1e-3));
                put("d(G-H+TS)", (b.value.gibbs_energy.val - b.value.enthalpy.val + b.value.entropy.val * (T + dT)) - (a.value.gibbs_energy.val - a.value.enthalpy.val + a.value.entropy.val * (T - dT)));
            }
        for (auto& [k, w] : worst) printf("%-26s %-34s %.3g  %s\n", n.c_str(), k.c_str(), w.first, w.second.c_str());
        for (auto& [k, w] : cnt) printf("%-26s %s %d\n", n.c_str(), k.c_str(), w);
    }
}
