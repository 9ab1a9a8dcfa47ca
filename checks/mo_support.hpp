// Landscapes and recorders for the local-search checks.
#pragma once
#include "ind_support.hpp"
#include <mo.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
namespace ls {
// a landscape: a value for every sequence of genes, drawn from a few levels so that ties and plateaus are common
struct Land {
    int kind = 0; unsigned levels = 1, salt = 0; double step = 1, base = 0; mutable unsigned calls = 0;
    template <class S> double operator()(const S& s) const {
        unsigned long long h = 1469598103934665603ull + salt * 7919ull; double sum = 0; for (unsigned i = 0; i < s.size(); ++i) { h = (h ^ (unsigned)(s[i] + 1)) * 1099511628211ull; h ^= h >> 29; sum += (double)s[i] * (kind == 3 ? i + 1.0 : 1.0) * (s[i] > 1 ? i + 1.0 : 1.0); }
        if (kind == 0) return base + step * ((h >> 7) % levels);
        if (kind == 1) return base + step * sum;
        if (kind == 2) return base + step * std::floor(sum / 2);
        return base + step * std::fmod(sum, levels + 2.0);
    }
};
inline Land genLand(pbt::Gen& g, bool positive = false) { Land l; l.kind = g.chance(2, 3) ? 0 : g.range(1, 3); l.levels = g.oneof({1, 2, 3, 5, 40}); l.salt = g.draw(999); l.step = g.oneof({1.0, 0.5, 3.0}); l.base = positive ? g.oneof({0.0, 1.0, 4.0}) : g.oneof({0.0, -3.0, 10.0}); return l; }
inline std::string str(const Land& l) { return "landscape " + std::to_string(l.kind) + "/" + std::to_string(l.levels) + "/" + std::to_string(l.salt); }
template <class F> struct Bits { typedef F Fit; typedef eoBit<F> Sol; typedef moBitNeighbor<F> Nb; static const bool perm = false; static unsigned neighbours(unsigned n) { return n; } static Sol make(pbt::Gen& g, unsigned n) { Sol s; for (unsigned i = 0; i < n; ++i) s.push_back(g.boolean()); return s; } };
template <class F> struct Perm { typedef F Fit; typedef eoInt<F> Sol; typedef moIndexedSwapNeighbor<Sol> Nb; static const bool perm = true; static unsigned neighbours(unsigned n) { return n * (n - 1) / 2; } static Sol make(pbt::Gen& g, unsigned n) { Sol s; s.resize(n); for (unsigned i = 0; i < n; ++i) s[i] = i; for (unsigned i = n; i > 1; --i) std::swap(s[i - 1], s[g.draw(i - 1)]); return s; } };
template <class F> bool minimises() { return F(1.0) > F(2.0); }
template <class F> double score(double v) { return minimises<F>() ? -v : v; }
template <class S> bool same(const S& a, const S& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class S> std::string text(const S& s) { std::ostringstream o; for (unsigned i = 0; i < s.size(); ++i) o << s[i]; return o.str(); }
template <class D> struct Full : public eoEvalFunc<typename D::Sol> { const Land& l; unsigned calls = 0; Full(const Land& _l) : l(_l) {} void operator()(typename D::Sol& s) { ++calls; s.fitness(typename D::Fit(l(s))); } };
// incremental evaluation written here: the value of the moved solution
template <class D> struct Incr : public moEval<typename D::Nb> { const Land& l; unsigned calls = 0; Incr(const Land& _l) : l(_l) {} void operator()(typename D::Sol& s, typename D::Nb& n) { ++calls; typename D::Sol t(s); n.move(t); n.fitness(typename D::Fit(l(t))); } };
template <class D> std::vector<typename D::Sol> around(const Land& l, typename D::Sol s, unsigned size) { std::vector<typename D::Sol> v; for (unsigned k = 0; k < size; ++k) { typename D::Nb n; n.index(s, k); typename D::Sol t(s); n.move(t); t.fitness(typename D::Fit(l(t))); v.push_back(t); } return v; }
// continuator that records the solutions it is shown and stops after a number of calls
template <class N> struct Recorder : public moContinuator<N> { typedef typename N::EOT S; unsigned most = 1000, inits = 0, lasts = 0; bool hit = false; S start; std::vector<S> path; S end; void init(S& s) { ++inits; start = s; path.clear(); hit = false; } bool operator()(S& s) { path.push_back(s); hit = path.size() >= most; return !hit; } void lastCall(S& s) { ++lasts; end = s; } };
template <class D> bool evaluated(const Land& l, const typename D::Sol& s) { return !s.invalid() && std::fabs(double(s.fitness()) - l(s)) <= 1e-9 * (1 + std::fabs(l(s))); }
template <class D> bool better(const typename D::Sol& a, const typename D::Sol& b) { return score<typename D::Fit>(a.fitness()) > score<typename D::Fit>(b.fitness()); }
template <class D> double bestAround(const Land& l, const typename D::Sol& s, unsigned size) { double b = -1e300; for (auto& t : around<D>(l, s, size)) b = std::max(b, score<typename D::Fit>(t.fitness())); return b; }
template <class D> bool neighbourOf(const Land& l, const typename D::Sol& s, const typename D::Sol& t, unsigned size) { for (auto& u : around<D>(l, s, size)) if (same(u, t)) return true; return false; }
}
