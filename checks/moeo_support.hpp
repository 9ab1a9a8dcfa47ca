// Shared helpers for checks on the multi-objective module.
#pragma once
#include "eo_support.hpp"
#include <mo>
#include <moeo>

namespace sup {
typedef moeoRealObjectiveVector<moeoObjectiveVectorTraits> OV;

// a solution without genotype, tracked by identity
struct Sol : public MOEO<OV, double, double> {
    int id = -1;
    Sol() {}
    Sol(int i, const OV& o) : id(i) { objectiveVector(o); }
    virtual std::string className() const { return "Sol"; }
};

inline std::vector<bool> setupObjectives(pbt::Gen& g, unsigned lo, unsigned hi) {
    unsigned n = g.range<unsigned>(lo, hi);
    std::vector<bool> m(n);
    switch (g.draw(3)) {                      // true = minimised
    case 0: m.assign(n, true); break;
    case 1: m.assign(n, false); break;
    default: m = g.mask(n);
    }
    OV::setup(n, m);
    return m;
}
inline OV genOV(pbt::Gen& g, int span) {
    OV v;
    for (unsigned i = 0; i < v.size(); ++i) v[i] = (double)g.range(0, span);
    return v;
}
inline std::vector<double> raw(const OV& o) { return std::vector<double>(o.begin(), o.end()); }
// independent definition: a Pareto-dominates b
inline bool dominates(const std::vector<double>& a, const std::vector<double>& b, const std::vector<bool>& mini) {
    bool strict = false;
    for (size_t i = 0; i < a.size(); ++i) {
        double x = mini[i] ? a[i] : -a[i], y = mini[i] ? b[i] : -b[i];
        if (x > y) return false;
        if (x < y) strict = true;
    }
    return strict;
}
inline bool weakly(const std::vector<double>& a, const std::vector<double>& b, const std::vector<bool>& mini) {
    return a == b || dominates(a, b, mini);
}
} // namespace sup
