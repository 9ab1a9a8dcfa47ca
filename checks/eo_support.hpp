// Shared helpers for checks on EO-based code.
#pragma once
#include "pbt.hpp"
#include <eo>
#include <fstream>
#include <cstdlib>

namespace sup {
inline void seedLibrary(pbt::Gen& g) {
    eo::rng.reseed((uint32_t)g.draw(0xffff) + 1);
    eo::rng.clearCache();
    srand(1);
}
// observed counts against cell probabilities: exact for 0 and 1, about seven standard deviations otherwise
inline void checkFreq(const std::vector<double>& p, const std::vector<unsigned>& c, const std::string& what) {
    double n = 0; for (unsigned x : c) n += x;
    for (size_t i = 0; i < p.size(); ++i) {
        double e = n * p[i], tol = 7 * std::sqrt(std::max(0.0, e * (1 - p[i]))) + 6;
        if (p[i] < 1e-12) { CHECK(c[i] == 0, what << ": cell " << i << " of probability zero observed " << c[i] << " times"); }
        else if (p[i] > 1 - 1e-12) { CHECK(c[i] == (unsigned)n, what << ": cell " << i << " is certain but observed only " << c[i] << " of " << n << " times"); }
        else CHECK(std::fabs(c[i] - e) <= tol, what << ": cell " << i << " observed " << c[i] << " times of " << n << ", expected about " << e);
    }
}
struct Install { Install() { pbt::beforeCase = seedLibrary; } };
static Install install_;
} // namespace sup
