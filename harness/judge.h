#pragma once
// Comparison of a computed value with an expected one, reported with its circumstances.
#include "common.h"
#include "jet.h"
namespace vf {
struct Judge
{
    std::string kind; json at;
    // tolerance: rel * (|want| + scale) + abs
    bool operator()(const std::string& name, double got, ld want, double rel, double scale = 0, double abs_ = 0)
    {
        rep().eval("values compared with the expected value");
        double w = double(want), tol = rel * (std::fabs(w) + scale) + abs_;
        if (std::isfinite(got) && std::fabs(got - w) <= tol) { if (tol > 0) rep().maxed(kind.substr(0, kind.find(' ')) + " deviation/tolerance", std::fabs(got - w) / tol); return true; }
        if (!std::isfinite(w) && same_bits(got, w)) return true;
        json d = at;
        d["got"] = jnum(got); d["expected"] = jnum(w); d["tolerance"] = jnum(tol);
        rep().violation(kind + ": " + name, d);
        return false;
    }
};
} // namespace vf
