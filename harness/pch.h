// Precompiled once per variant: the standard and third-party headers every source of the tree includes.
#include <vector>
#include <map>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include <cmath>
#include <algorithm>
#include <memory>
#include <regex>
#include <iomanip>
#include <list>
#include <set>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/sinks/rotating_file_sink.h>
inline void verif_pch_use(spdlog::logger& l, std::string s, double d, int i, size_t z)
{
    l.info(s); l.info("{}", s); l.debug("{} {}", s, s); l.warn("{}", d); l.error("{} {}", d, d); l.info("{}", i); l.trace("{}", z); l.error("{}", s.c_str());
    nlohmann::json j = nlohmann::json::parse(s); j[s] = d; j["a"] = s; j["b"] = i; s = j["a"].get<std::string>(); d = j["a"].get<double>(); i = j["a"].get<int>(); j.contains("x"); s = j.dump();
    std::vector<double> v = j.get<std::vector<double>>(); std::vector<std::string> vs = j.get<std::vector<std::string>>(); std::map<std::string, double> m; m[s] = d; std::map<std::string, std::string> ms; ms[s] = s;
    std::regex re(s); std::stringstream ss; ss << s << d << i; std::ofstream o(s); o << s; std::vector<int> vi; vi.push_back(i); v.push_back(d); vs.push_back(s);
}
