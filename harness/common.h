#pragma once
// Shared by all harness programs: event counting, violation reporting, random
// numbers, crash containment, readers for the property records.
#include "ThermoFun.h"
#include "Batch/ThermoBatch.h"
#include "Batch/OutputBatch.h"
#include "Common/Units.hpp"
#include "Common/Exception.h"
#include "GlobalVariables.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <spdlog/spdlog.h>
#include <nlohmann/json.hpp>

namespace vf {
using nlohmann::json;
namespace fs = std::filesystem;
using TF = ThermoFun::ThermoEngine;
using Scalar = Reaktoro_::ThermoScalar;

// ---------------------------------------------------------------- random
struct Rng
{
    uint64_t s;
    // the seed is mixed, so that streams of neighbouring seeds do not overlap
    explicit Rng(uint64_t seed) : s(seed ^ 0xD1B54A32D192ED03ull) { for (int i = 0; i < 3; i++) s = mix(s * 0xA24BAED4963EE407ull + 0x9FB21C651E98DF25ull); }
    static uint64_t mix(uint64_t z) { z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull; z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull; return z ^ (z >> 33); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * 0x1.0p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    size_t below(size_t n) { return n ? next() % n : 0; }
    bool coin(double p = 0.5) { return u() < p; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
    template <class C> const auto& pick(const C& c) { return c[below(c.size())]; }
    double pickd(std::initializer_list<double> l) { return *(l.begin() + below(l.size())); }
    template <class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};

// ---------------------------------------------------------------- numbers as text
inline std::string num(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
template <class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
inline std::string str(double v) { return num(v); }

inline bool same_bits(double a, double b)
{
    return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || (std::isnan(a) && std::isnan(b)) || (a == 0 && b == 0);
}
inline bool close(double a, double b, double rel, double abs_ = 0)
{
    if (same_bits(a, b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

// ---------------------------------------------------------------- results
// Lines of the output file: {"viol":{key,..}} while running, {"summary":..} at the end.
class Report
{
public:
    static Report& get() { static Report r; return r; }
    void open(const std::string& p) { path = p; f_ = fopen(path.c_str(), "a"); if (!f_) { perror(path.c_str()); _exit(97); } }
    // key: what fails (stable; known findings are matched on it); detail: this instance
    void violation(const std::string& key, json detail)
    {
        auto n = ++viol_[key];
        if (n > 5) return; // the first few instances of each are enough
        line(json{{"viol", {{"key", key}, {"case", case_index}, {"what", case_what}, {"detail", std::move(detail)}}}});
    }
    uint64_t case_index = 0;
    std::string case_what;
    std::string path;
    void known(const std::string& what) { line(json{{"note", what}}); }
    void eval(const std::string& kind, uint64_t n = 1) { counts_[kind] += n; evals_ += n; }
    void count(const std::string& kind, uint64_t n = 1) { counts_[kind] += n; }
    void maxed(const std::string& kind, double v) { if (!(v <= maxima_[kind])) maxima_[kind] = v; }
    // a distinct, non trivial behaviour that has been observed
    void distinct(const std::string& what)
    {
        if (distinct_.insert(std::hash<std::string>{}(what)).second && samples_.size() < 40 && distinct_.size() % stride_ == 1 % stride_)
        {
            samples_.push_back(what);
            if (samples_.size() % 10 == 0) stride_ *= 7;
        }
    }
    uint64_t violations() const { uint64_t n = 0; for (auto& v : viol_) n += v.second; return n; }
    void summary()
    {
        json j;
        j["evaluations"] = evals_;
        j["distinct"] = distinct_.size();
        j["counts"] = counts_;
        j["maxima"] = maxima_;
        j["samples"] = samples_;
        j["violation_keys"] = viol_;
        line(json{{"summary", j}});
        if (path.empty()) return;
        if (FILE* d = fopen((path + ".d").c_str(), "wb"))
        {
            for (size_t h : distinct_) fwrite(&h, sizeof h, 1, d);
            fclose(d);
        }
    }
    void line(const json& j)
    {
        std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
        if (f_) { fwrite(s.data(), 1, s.size(), f_); fflush(f_); }
        else fwrite(s.data(), 1, s.size(), stderr);
    }
private:
    FILE* f_ = nullptr;
    uint64_t evals_ = 0;
    size_t stride_ = 1;
    std::map<std::string, uint64_t> counts_, viol_;
    std::map<std::string, double> maxima_;
    std::unordered_set<size_t> distinct_;
    std::vector<std::string> samples_;
};
inline Report& rep() { return Report::get(); }

// ---------------------------------------------------------------- options
struct Options
{
    std::string out, repo = "/repo", verif = "/verif", scratch = "/tmp", only, record;
    uint64_t seed = 1;
    bool thorough = false;
    std::string progress, images;
    int64_t just = -1;
    uint64_t from = 0;
    unsigned shard = 0, shards = 1;
    std::vector<std::string> rest;
};
inline Options parse(int argc, char** argv)
{
    Options o;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--out") o.out = val();
        else if (a == "--repo") o.repo = val();
        else if (a == "--verif") o.verif = val();
        else if (a == "--scratch") o.scratch = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--only") o.only = val();
        else if (a == "--record") o.record = val();
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--progress") o.progress = val();
        else if (a == "--images") o.images = val();
        else if (a == "--from") o.from = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--just") o.just = strtoll(val().c_str(), nullptr, 10);
        else if (a == "--shard") o.shard = atoi(val().c_str());
        else if (a == "--shards") o.shards = atoi(val().c_str());
        else o.rest.push_back(a);
    }
    if (!o.out.empty()) rep().open(o.out);
    spdlog::set_level(spdlog::level::off);
    ThermoFun::thfun_logger->set_level(spdlog::level::off);
    return o;
}

inline std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

inline std::vector<std::string> databases(const Options& o)
{
    std::vector<std::string> r;
    for (auto& e : fs::directory_iterator(o.repo + "/Resources/databases"))
        if (e.path().extension() == ".json") r.push_back(e.path().string());
    std::sort(r.begin(), r.end());
    for (auto& e : fs::directory_iterator(o.verif + "/data"))
        if (e.path().extension() == ".json") r.push_back(e.path().string());
    std::sort(r.begin() + 0, r.end());
    return r;
}
inline std::string base(const std::string& p) { return fs::path(p).stem().string(); }

// ---------------------------------------------------------------- property records
struct Named { const char* name; Scalar ThermoFun::ThermoPropertiesSubstance::*p; };
inline const std::array<Named, 8>& substance_props()
{
    using S = ThermoFun::ThermoPropertiesSubstance;
    static const std::array<Named, 8> a{{{"G", &S::gibbs_energy}, {"A", &S::helmholtz_energy}, {"U", &S::internal_energy}, {"H", &S::enthalpy},
        {"S", &S::entropy}, {"V", &S::volume}, {"Cp", &S::heat_capacity_cp}, {"Cv", &S::heat_capacity_cv}}};
    return a;
}
struct NamedR { const char* name; Scalar ThermoFun::ThermoPropertiesReaction::*p; };
inline const std::array<NamedR, 10>& reaction_props()
{
    using S = ThermoFun::ThermoPropertiesReaction;
    static const std::array<NamedR, 10> a{{{"lnK", &S::ln_equilibrium_constant}, {"logK", &S::log_equilibrium_constant}, {"G", &S::reaction_gibbs_energy},
        {"A", &S::reaction_helmholtz_energy}, {"U", &S::reaction_internal_energy}, {"H", &S::reaction_enthalpy}, {"S", &S::reaction_entropy},
        {"V", &S::reaction_volume}, {"Cp", &S::reaction_heat_capacity_cp}, {"Cv", &S::reaction_heat_capacity_cv}}};
    return a;
}
struct NamedE { const char* name; Scalar ThermoFun::ElectroPropertiesSolvent::*p; };
inline const std::array<NamedE, 12>& electro_props()
{
    using S = ThermoFun::ElectroPropertiesSolvent;
    static const std::array<NamedE, 12> a{{{"epsilon", &S::epsilon}, {"epsilonT", &S::epsilonT}, {"epsilonP", &S::epsilonP}, {"epsilonTT", &S::epsilonTT},
        {"epsilonTP", &S::epsilonTP}, {"epsilonPP", &S::epsilonPP}, {"bornZ", &S::bornZ}, {"bornY", &S::bornY}, {"bornQ", &S::bornQ},
        {"bornN", &S::bornN}, {"bornU", &S::bornU}, {"bornX", &S::bornX}}};
    return a;
}
struct NamedP { const char* name; Scalar ThermoFun::PropertiesSolvent::*p; };
inline const std::array<NamedP, 16>& solvent_props()
{
    using S = ThermoFun::PropertiesSolvent;
    static const std::array<NamedP, 16> a{{{"Alpha", &S::Alpha}, {"dAldT", &S::dAldT}, {"Beta", &S::Beta}, {"Albe", &S::Albe}, {"density", &S::density},
        {"densityT", &S::densityT}, {"densityP", &S::densityP}, {"densityTT", &S::densityTT}, {"densityTP", &S::densityTP}, {"densityPP", &S::densityPP},
        {"pressureT", &S::pressureT}, {"pressureD", &S::pressureD}, {"pressureTT", &S::pressureTT}, {"pressureTD", &S::pressureTD}, {"pressureDD", &S::pressureDD},
        {"pressure", &S::pressure}}};
    return a;
}

inline void put(std::string& o, const Scalar& s)
{
    char b[8 * 4 + 8];
    double d[4] = {s.val, s.ddt, s.ddp, s.err};
    for (auto& x : d) { if (std::isnan(x)) x = NAN; if (x == 0) x = 0; x = std::isnan(x) ? std::bit_cast<double>(0x7ff8000000000000ull) : x; }
    memcpy(b, d, 32);
    o.append(b, 32);
    o += char('0' + s.sta.first);
    o += s.sta.second;
    o += '|';
}
// A byte string of everything a caller can see of a result
inline std::string image(const ThermoFun::ThermoPropertiesSubstance& t) { std::string o; for (auto& p : substance_props()) put(o, t.*p.p); return o; }
inline std::string image(const ThermoFun::ThermoPropertiesReaction& t) { std::string o; for (auto& p : reaction_props()) put(o, t.*p.p); return o; }
inline std::string image(const ThermoFun::ElectroPropertiesSolvent& t) { std::string o; for (auto& p : electro_props()) put(o, t.*p.p); return o; }
inline std::string image(const ThermoFun::PropertiesSolvent& t)
{
    std::string o;
    for (auto& p : solvent_props()) put(o, t.*p.p);
    for (double d : {t.speed_of_sound, t.dynamic_viscosity, t.thermal_conductivity, t.surface_tension, t.Tdiff, t.Prndtl, t.Visck})
    {
        if (std::isnan(d)) d = std::bit_cast<double>(0x7ff8000000000000ull);
        if (d == 0) d = 0;
        o.append(reinterpret_cast<const char*>(&d), 8);
    }
    return o;
}
template <class R> json show(const R& t);
inline json jnum(double d) { if (std::isfinite(d)) return d; return std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"; }
template <> inline json show(const ThermoFun::ThermoPropertiesSubstance& t) { json j; for (auto& p : substance_props()) j[p.name] = {jnum((t.*p.p).val), int((t.*p.p).sta.first)}; return j; }
template <> inline json show(const ThermoFun::ThermoPropertiesReaction& t) { json j; for (auto& p : reaction_props()) j[p.name] = {jnum((t.*p.p).val), int((t.*p.p).sta.first)}; return j; }
template <> inline json show(const ThermoFun::ElectroPropertiesSolvent& t) { json j; for (auto& p : electro_props()) j[p.name] = jnum((t.*p.p).val); return j; }
template <> inline json show(const ThermoFun::PropertiesSolvent& t) { json j; for (auto& p : solvent_props()) j[p.name] = jnum((t.*p.p).val); return j; }

// Outcome of a query: a value, or the text of the reported error
template <class R> struct Outcome
{
    bool ok = false;
    R value{};
    double P = 0; // pressure after the call
    std::string error;
    std::string image() const
    {
        if (!ok) return "E"; // the text of errors holds source locations
        std::string o = "V" + vf::image(value);
        double p = std::isnan(P) ? 0.1234 : P;
        o.append(reinterpret_cast<const char*>(&p), 8);
        return o;
    }
    json show() const { return ok ? json{{"P", jnum(P)}, {"value", vf::show(value)}} : json{{"error", error.substr(0, 300)}}; }
};
template <class F> auto query(double P, F&& f) -> Outcome<decltype(f(P))>
{
    Outcome<decltype(f(P))> o;
    double p = P;
    try { o.value = f(p); o.ok = true; }
    catch (const std::exception& e) { o.error = e.what(); }
    o.P = p;
    return o;
}

// ---------------------------------------------------------------- cases
// A harness is a fixed sequence of numbered cases.  Each process takes the cases of its
// shard; the number and name of the running case is kept in a file mapped into memory,
// so that the runner can say what was running when a process died or hung, and resume
// after it.
struct Progress { std::atomic<uint64_t> current; char what[1000]; };
class Cases
{
public:
    explicit Cases(const Options& o) : o_(o)
    {
        if (!o.progress.empty())
        {
            int fd = ::open(o.progress.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); _exit(97); }
            p_ = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
            ::close(fd);
        }
    }
    // true if this process is to run the case named so
    bool operator()(const std::string& what)
    {
        uint64_t i = next_++;
        if (o_.just >= 0 ? i != uint64_t(o_.just) : (i % o_.shards != o_.shard || i < o_.from)) return false;
        if (!o_.only.empty() && what.find(o_.only) == std::string::npos) return false;
        rep().case_index = i;
        rep().case_what = what;
        if (p_)
        {
            size_t n = std::min(what.size(), sizeof(p_->what) - 1);
            memcpy(p_->what, what.data(), n);
            p_->what[n] = 0;
            p_->current = i + 1;
        }
        auto now = time(nullptr);
        if (now > last_ + 2) { last_ = now; rep().summary(); }
        rng = Rng(o_.seed * 1000003 + i);
        return true;
    }
    // refine the name of the running case
    void doing(const std::string& what)
    {
        if (!p_) return;
        size_t n = std::min(what.size(), sizeof(p_->what) - 1);
        memcpy(p_->what, what.data(), n);
        p_->what[n] = 0;
    }
    Rng rng{1}; // reseeded for each case from the seed and its number alone
private:
    const Options& o_;
    Progress* p_ = nullptr;
    uint64_t next_ = 0;
    time_t last_ = time(nullptr);
};
} // namespace vf
