// E07: worth assignments equal their defining formulas.
#include "ind_support.hpp"
#include <eoRanking.h>
#include <eoRankingCached.h>
#include <eoLinearFitScaling.h>
#include <eoSharing.h>
#include <eoNDSorting.h>
using namespace sup;
template <class I> struct IdDistance : public eoDistance<I> { double operator()(const I& a, const I& b) { return std::abs(a.id - b.id); } };
void finite(const std::vector<double>& w, size_t n) { CHECK(w.size() == n, "there are " << w.size() << " worths for " << n << " individuals"); for (double x : w) CHECK(std::isfinite(x) && x >= -1e-12, "worth " << x); }
// ties may share ranks in any order: compare the sorted worths, and the order of unequal individuals
template <class I> void compareRanked(const eoPop<I>& p, const std::vector<double>& w, const std::vector<double>& byRank, const char* what) {
    finite(w, p.size()); std::vector<double> a = w, b = byRank; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for (size_t i = 0; i < a.size(); ++i) CHECK(pbt::near(a[i], b[i]), what << ": worths " << pbt::strv(w) << " instead of " << pbt::strv(byRank));
    for (size_t i = 0; i < p.size(); ++i) { size_t above = 0, equal = 0; for (auto& y : p) { above += better<I>(val(y), val(p[i])); equal += val(y) == val(p[i]); } CHECK(w[i] <= byRank[above] + 1e-12 && w[i] >= byRank[above + equal - 1] - 1e-12, what << ": individual of fitness " << val(p[i]) << " has worth " << w[i]); }
}
template <class I> void ranking(pbt::Gen& g) {
    double pr = g.oneof({2.0, 1.5, 1.01}), e = g.oneof({1.0, 2.0, 0.5, 3.0}); eoRanking<I> a(pr, e); eoRankingCached<I> b(pr, e); int uses = g.range(1, 4); g.note(pr); g.note(e); g.nontrivial(true);
    for (int u = 0; u < uses; ++u) { size_t n = g.range<size_t>(1, 9); eoPop<I> p = genPop<I>(g, n), keep = p; g.note(pbt::strv(vals(p)));
        if (n == 1) { bool ta = false, tb = false; try { a(p); } catch (std::exception&) { ta = true; } try { b(p); } catch (std::exception&) { tb = true; } CHECK(ta && tb, "ranking a single individual accepted"); continue; }
        std::vector<double> r; for (size_t i = 0; i < n; ++i) { double beta = (2 - pr) / n; r.push_back(e == 1 ? (2 * pr - 2) / (n * (n - 1.0)) * (n - i) + beta : (2 * pr - 2) / n * std::pow((n - (double)i) / n, e) + beta); }
        a(p); b(p); compareRanked(p, a.value(), r, "ranking"); compareRanked(p, b.value(), r, "cached ranking"); CHECK(ids(p) == ids(keep), "ranking reordered the population"); }
}
PBT(ranking_max, 1500, 15000) { ranking<Max>(g); }
PBT(ranking_min, 1000, 10000) { ranking<Min>(g); }
template <class I> void scaling(pbt::Gen& g) {
    double pr = g.oneof({2.0, 1.5, 1.1}); eoLinearFitScaling<I> s(pr); int uses = g.range(1, 3); g.nontrivial(true); for (int u = 0; u < uses; ++u) { size_t n = g.range<size_t>(1, 9); eoPop<I> p = genPop<I>(g, n); s(p); finite(s.value(), n); double best = sortedVals(p)[0], avg = 0; for (auto& x : p) avg += val(x) / n; g.note(pbt::strv(vals(p)));
        for (size_t i = 0; i < n; ++i) { double e = std::fabs(best - avg) < 1e-12 ? 1.0 / n : std::max(0.0, (1 + (pr - 1) * (val(p[i]) - avg) / (best - avg)) / n); CHECK(std::fabs(s.value()[i] - e) < 1e-9, "scaled worth of fitness " << val(p[i]) << " is " << s.value()[i] << " instead of " << e); } }
}
PBT(scaling_max, 1500, 15000) { scaling<Max>(g); }
PBT(scaling_min, 1000, 10000) { scaling<Min>(g); }
PBT(sharing, 1500, 15000) {
    double niche = g.oneof({1.0, 2.5, 0.5, 10.0, 3.0}); IdDistance<Max> d; eoSharing<Max> s(niche, d); int uses = g.range(1, 3); g.nontrivial(true); g.note(niche); for (int u = 0; u < uses; ++u) { size_t n = g.range<size_t>(1, 8); eoPop<Max> p = genPop<Max>(g, n, 0, false, true); for (auto& x : p) if (g.chance(1, 3)) x.id = g.range(0, 6);
        if (n == 1) { bool t = false; try { s(p); } catch (std::exception&) { t = true; } CHECK(t, "sharing among one individual accepted"); continue; } s(p); finite(s.value(), n);
        for (size_t i = 0; i < n; ++i) { double c = 0; for (auto& y : p) { double k = std::abs(y.id - p[i].id); c += k > niche ? 0 : 1 - k / niche; } CHECK(pbt::near(s.value()[i], val(p[i]) / c), "shared fitness of individual " << i << " is " << s.value()[i] << " instead of " << val(p[i]) / c); } }
}
// ---- sorting with worths
template <class I> struct Given : public eoPerf2Worth<I> { std::map<int, double> w; void operator()(const eoPop<I>& p) { this->value().clear(); for (auto& x : p) this->value().push_back(w[x.id]); } };
template <class I> struct GivenCached : public eoPerf2WorthCached<I, double> { std::map<int, double> w; int runs = 0; void calculate_worths(const eoPop<I>& p) { ++runs; this->value().clear(); for (auto& x : p) this->value().push_back(w[x.id]); } };
template <class W> void attached(pbt::Gen& g) {
    W w; size_t n = g.range<size_t>(0, 9); eoPop<Max> p = genPop<Max>(g, n), keep = p; for (size_t i = 0; i < n; ++i) w.w[i] = g.range(0, 5); w(p); g.nontrivial(n > 1); int ops = g.range(1, 4); std::vector<double> byId; for (auto& x : w.w) byId.push_back(x.second);
    for (int k = 0; k < ops; ++k) { bool sorting = g.boolean(); eoPop<Max> before = p; if (sorting) w.sort_pop(p); else w.resize(p, p.size() ? g.range<unsigned>(0, p.size()) : 0);
        finite(w.value(), p.size()); for (size_t i = 0; i < p.size(); ++i) { CHECK(w.value()[i] == byId[p[i].id], "individual " << p[i].id << " is given the worth " << w.value()[i] << " of another"); CHECK(val(p[i]) == val(keep[p[i].id]), "fitness changed"); }
        if (sorting) { CHECK(sorted(ids(p)) == sorted(ids(before)), "sorting lost individuals"); for (size_t i = 1; i < p.size(); ++i) CHECK(w.value()[i - 1] >= w.value()[i], "population not sorted by worth"); } else for (size_t i = 0; i < p.size(); ++i) CHECK(p[i].id == before[i].id, "resizing removed other individuals than the last ones"); }
}
PBT(attached_plain, 1000, 10000) { attached<Given<Max>>(g); }
PBT(attached_cached, 1000, 10000) { attached<GivenCached<Max>>(g); }
// ---- non-dominated sorting
template <unsigned N, unsigned MAXBITS> struct NdTraits { static unsigned nObjectives() { return N; } static bool maximizing(unsigned i) { return (MAXBITS >> i) & 1; } static double tol() { return 1e-6; } };
template <class T> struct NdFit : public std::vector<double> { typedef T fitness_traits; typedef double AtomType;
    NdFit() {} explicit NdFit(const std::vector<double>& v) : std::vector<double>(v) {}
    bool dominates(const NdFit& o) const { bool some = false; for (unsigned i = 0; i < T::nObjectives(); ++i) { double a = (*this)[i], b = o[i]; if (T::maximizing(i)) std::swap(a, b); if (a > b) return false; if (a < b) some = true; } return some; }
    bool operator<(const NdFit& o) const { for (unsigned i = 0; i < T::nObjectives(); ++i) { double a = (*this)[i], b = o[i]; if (T::maximizing(i)) std::swap(a, b); if (a != b) return a > b; } return false; } bool operator>(const NdFit& o) const { return o < *this; } bool operator<=(const NdFit& o) const { return !(o < *this); } bool operator>=(const NdFit& o) const { return !(*this < o); } };
template <class T> std::ostream& operator<<(std::ostream& o, const NdFit<T>& f) { return o << pbt::strv((const std::vector<double>&)f); } template <class T> std::istream& operator>>(std::istream& i, NdFit<T>&) { return i; }
template <class T> struct NdInd : public EO<NdFit<T>> { int id = 0; };
// each front penalised by the individual's own number, so the result can be predicted exactly
template <class I> struct OwnPenalty : public eoNDSorting<I> { OwnPenalty(bool n) : eoNDSorting<I>(n) {} std::vector<double> niche_penalty(const std::vector<unsigned>& f, const eoPop<I>& p) { std::vector<double> r; for (unsigned i : f) r.push_back(p[i].id % 5); return r; } };
template <class T> void nd(pbt::Gen& g) {
    typedef NdInd<T> I; const unsigned M = T::nObjectives(); bool nasty = M == 2 && g.chance(1, 4); int kind = g.range(0, 2); bool fine = g.boolean(); double niche = g.oneof({1.0, 4.0, 0.3}); eoNDSorting_I<I> s1(niche, nasty); eoNDSorting_II<I> s2(nasty); OwnPenalty<I> s0(nasty); eoNDSorting<I>& s = kind == 0 ? (eoNDSorting<I>&)s0 : kind == 1 ? (eoNDSorting<I>&)s1 : s2; int uses = g.range(1, 4); g.label("penalty", kind); g.nontrivial(true); size_t nOld = 0; std::vector<eoPop<I>> past;
    for (int u = 0; u < uses; ++u) {
        size_t n = u && g.boolean() ? nOld : g.range<size_t>(1, 9); nOld = n; eoPop<I> p; for (size_t i = 0; i < n; ++i) { I x; x.id = i; std::vector<double> f; for (unsigned m = 0; m < M; ++m) f.push_back(fine ? g.range(0, 200) / 4.0 : g.range(0, 3)); if (kind == 2) for (unsigned m = 0; m < M; ++m) { bool again = true; while (again) { again = false; for (auto& y : p) if (y.fitness()[m] == f[m]) { again = true; f[m] += 0.125; } } } x.fitness(NdFit<T>(f)); p.push_back(x); g.note(pbt::strv(f)); }
        if (!past.empty() && g.chance(1, 3)) { p = past[g.draw(past.size() - 1)]; nOld = n = p.size(); } past.push_back(p);
        if (g.chance(1, 6)) s(p); s(p); const std::vector<double>& w = s.value(); finite(w, n);
        // fronts by definition
        std::vector<int> front(n, -1); size_t placed = 0; int f = 0; 
        if (M == 1) { std::vector<double> e; for (size_t i = 0; i < n; ++i) { size_t above = 0, eq = 0; for (auto& y : p) { above += y.fitness().dominates(p[i].fitness()); eq += y.fitness()[0] == p[i].fitness()[0]; } CHECK(w[i] <= n - above + 1e-9 && w[i] >= n - above - eq + 1 - 1e-9, "single objective worth " << w[i]); } auto q = w; std::sort(q.begin(), q.end()); for (size_t i = 0; i < n; ++i) CHECK(q[i] == i + 1.0, "single objective worths are not the ranks"); continue; }
        std::vector<bool> clone(n, false); if (nasty) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if ((std::vector<double>)p[i].fitness() == (std::vector<double>)p[j].fitness()) clone[i] = true; bool anyClone = std::count(clone.begin(), clone.end(), true) > 0;
        if (anyClone) { // one copy of each keeps its front, the others are put behind every front
            size_t behind = 0; double mx = *std::max_element(w.begin(), w.end()); (void)mx; std::vector<double> srt = w; std::sort(srt.begin(), srt.end()); size_t clones = std::count(clone.begin(), clone.end(), true); for (size_t i = 0; i < n; ++i) { bool dup = false; size_t same = 0, low = 0; for (size_t j = 0; j < n; ++j) if ((std::vector<double>)p[i].fitness() == (std::vector<double>)p[j].fitness()) { ++same; dup = dup || j != i; low += w[j] <= srt[clones - 1] + 1e-12; } if (dup) CHECK(low >= same - 1, "copies are not put behind the others"); (void)behind; } continue; }
        while (placed < n) { std::vector<size_t> now; for (size_t i = 0; i < n; ++i) if (front[i] < 0) { bool dom = false; for (size_t j = 0; j < n; ++j) if (front[j] < 0 && p[j].fitness().dominates(p[i].fitness())) dom = true; if (!dom) now.push_back(i); } for (size_t i : now) front[i] = f; placed += now.size(); ++f; }
        std::vector<double> rank(n); for (int k = 0; k < f; ++k) { std::vector<size_t> m; for (size_t i = 0; i < n; ++i) if (front[i] == k) m.push_back(i); std::vector<double> pen(m.size(), 0);
            if (kind == 0) for (size_t a = 0; a < m.size(); ++a) pen[a] = p[m[a]].id % 5;
            if (kind == 1) for (size_t a = 0; a < m.size(); ++a) for (size_t b = 0; b < m.size(); ++b) if (a != b) { double d = 0; for (unsigned o = 0; o < M; ++o) d += std::pow(p[m[a]].fitness()[o] - p[m[b]].fitness()[o], 2); if (d < niche) pen[a] += 1 - std::pow(d / niche, 2); }
            if (kind == 2) for (unsigned o = 0; o < M; ++o) { std::vector<size_t> order(m.size()); for (size_t a = 0; a < m.size(); ++a) order[a] = a; std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return p[m[a]].fitness()[o] < p[m[b]].fitness()[o]; }); std::vector<double> nc(m.size(), 0); for (size_t a = 1; a + 1 < m.size(); ++a) nc[order[a]] = p[m[order[a + 1]]].fitness()[o] - p[m[order[a - 1]]].fitness()[o]; double md = *std::max_element(nc.begin(), nc.end()); nc[order[0]] += md + 1; nc[order.back()] += md + 1; for (size_t a = 0; a < m.size(); ++a) pen[a] += md + 1 - nc[a]; }
            double mp = *std::max_element(pen.begin(), pen.end()); for (size_t a = 0; a < m.size(); ++a) rank[m[a]] = k + pen[a] / (mp + 1); }
        double top = std::ceil(*std::max_element(rank.begin(), rank.end()) - 1e-12); for (size_t i = 0; i < n; ++i) CHECK(std::fabs(w[i] - (top - rank[i])) < 1e-9, "worth of individual " << i << " of front " << front[i] << " is " << w[i] << " instead of " << top - rank[i]);
    }
}
PBT(nd_one, 300, 3000) { if (g.boolean()) nd<NdTraits<1, 0>>(g); else nd<NdTraits<1, 1>>(g); }
PBT(nd_two, 2500, 25000) { switch (g.draw(3)) { case 0: nd<NdTraits<2, 0>>(g); break; case 1: nd<NdTraits<2, 1>>(g); break; case 2: nd<NdTraits<2, 2>>(g); break; default: nd<NdTraits<2, 3>>(g); } }
PBT(nd_three, 1200, 12000) { if (g.boolean()) nd<NdTraits<3, 0>>(g); else nd<NdTraits<3, 5>>(g); }
