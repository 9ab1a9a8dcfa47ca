// Boxes, individuals and breeding for the builders of real-valued components.
#pragma once
#include "build_support.hpp"
#include <es.h>
#include <es/make_genotype_real.h>
namespace bld {
inline std::string box(pbt::Gen& g, size_t n, bool bounded) {
    auto one = [&]() -> std::string { if (!bounded) switch (g.draw(5)) { case 0: return "[-inf,+inf]"; case 1: return "[-1,+inf]"; case 2: return "[-inf,1.5]"; } double lo = g.grid(8, 0.5), w = 0.5 * (1 + g.draw(7)); return "[" + pbt::str(lo) + "," + pbt::str(lo + w) + "]"; };
    if (g.boolean()) return std::to_string(n) + one();
    std::string s; for (size_t i = 0; i < n; ++i) s += (i ? ";" : "") + one(); return s;
}
inline std::vector<double> strategy(const eoReal<double>&) { return {}; }
inline std::vector<double> strategy(const eoEsSimple<double>& x) { return {x.stdev}; }
inline std::vector<double> strategy(const eoEsStdev<double>& x) { return x.stdevs; }
inline std::vector<double> strategy(const eoEsFull<double>& x) { std::vector<double> v = x.stdevs; v.insert(v.end(), x.correlations.begin(), x.correlations.end()); return v; }
template <class I> bool sameReal(const I& a, const I& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()) && strategy(a) == strategy(b) && a.invalid() == b.invalid() && (a.invalid() || a.fitness() == b.fitness()); }
template <class I> std::string showReal(const eoPop<I>& p) { std::string s; for (auto& x : p) s += pbt::strv(std::vector<double>(x.begin(), x.end())) + "/" + pbt::strv(strategy(x)) + (x.invalid() ? "? " : "! "); return s; }
template <class I> void sameBreeding(pbt::Gen& g, const Args& a, eoGenOp<I>& built, eoGenOp<I>& hand, eoPop<I> p, eoRealVectorBounds* inside) {
    uint32_t s = 1 + (uint32_t)g.draw(9999); bool moved = false; eoHowMany full(1.0);
    for (int round = 0; round < 2; ++round) {
        eoPop<I> o1, o2; eoSequentialSelect<I> s1(false), s2(false); eoGeneralBreeder<I> b1(s1, built, full), b2(s2, hand, full); seed(s + round); b2(p, o2); seed(s + round); b1(p, o1);
        CHECK(o1.size() == o2.size(), o1.size() << " offspring built, " << o2.size() << " by hand"); for (size_t i = 0; i < o1.size(); ++i) CHECK(sameReal(o1[i], o2[i]), a.text() << " on " << showReal(p) << ": built " << showReal(o1) << "by hand " << showReal(o2));
        if (inside) for (auto& x : o1) for (size_t k = 0; k < x.size(); ++k) { double c = x[k]; inside->truncate(k, c); CHECK(std::fabs(c - x[k]) <= 1e-9 * (1 + std::fabs(c)), a.text() << ": variable " << k << " becomes " << x[k] << ", out of its bounds"); }
        for (size_t i = 0; i < o1.size() && i < p.size(); ++i) moved = moved || !sameReal(o1[i], p[i]); p = o1; for (auto& x : p) x.fitness(1);
    }
    g.nontrivial(moved);
}
} // namespace bld
