// M03: multi-objective fitness assignments versus their definitions.
#include "moeo_support.hpp"
#include <comparator/moeoStrictObjectiveVectorComparator.h>
#include <fitness/moeoReferencePointIndicatorBasedFitnessAssignment.h>
using namespace sup;
namespace {
typedef std::vector<std::vector<double>> Vecs;
eoPop<Sol> genPop(pbt::Gen& g, unsigned lo, unsigned hi, int base = 0) {
    eoPop<Sol> p; unsigned n = g.size(lo, hi); int span = g.oneof({0, 1, 2, 4, 30}); double off = g.oneof({0.0, 0.0, -2.0, -40.0}), step = g.oneof({1.0, 0.25, 4.0});
    for (unsigned i = 0; i < n; ++i) {
        if (i && g.chance(1, 5)) { Sol s(base + i, p[g.draw(i - 1)].objectiveVector()); p.push_back(s); }
        else { OV v = genOV(g, span); for (auto& x : v) x = off + step * x; p.push_back(Sol(base + i, v)); }
    }
    return p;
}
Vecs vecs(const eoPop<Sol>& p) { Vecs r; for (auto& s : p) r.push_back(raw(s.objectiveVector())); return r; }
Vecs byId(const eoPop<Sol>& p) { Vecs r(p.size()); for (auto& s : p) r[s.id] = raw(s.objectiveVector()); return r; }
std::vector<double> fitById(const eoPop<Sol>& p) { std::vector<double> r(p.size(), NAN); for (auto& s : p) r[s.id] = s.fitness(); return r; }
typedef std::function<bool(const std::vector<double>&, const std::vector<double>&)> Dom;
std::vector<unsigned> ranks(const Vecs& v, Dom dom) { // peeling
    std::vector<unsigned> r(v.size(), 0); unsigned done = 0, k = 0;
    while (done < v.size()) {
        ++k; std::vector<size_t> f;
        for (size_t i = 0; i < v.size(); ++i) if (!r[i]) { bool d = false; for (size_t j = 0; j < v.size(); ++j) if (!r[j] && dom(v[j], v[i])) { d = true; break; } if (!d) f.push_back(i); }
        for (size_t i : f) r[i] = k, ++done;
    }
    return r;
}
bool strictDom(const std::vector<double>& a, const std::vector<double>& b, const std::vector<bool>& m) { for (size_t i = 0; i < a.size(); ++i) if (!(m[i] ? a[i] < b[i] : a[i] > b[i])) return false; return true; }
unsigned dups(Vecs v) { size_t n = v.size(); std::sort(v.begin(), v.end()); return n - (std::unique(v.begin(), v.end()) - v.begin()); }
}

PBT(depth, 30000, 500000) {
    auto m = setupObjectives(g, 1, 5);
    bool rm = g.chance(1, 3), useStrict = m.size() > 2 && g.chance(1, 5);
    moeoStrictObjectiveVectorComparator<OV> sc; moeoParetoObjectiveVectorComparator<OV> pc;
    std::unique_ptr<moeoDominanceDepthFitnessAssignment<Sol>> fa;
    switch (useStrict ? 3 : g.draw(2)) {
    case 0: fa.reset(new moeoDominanceDepthFitnessAssignment<Sol>()); rm = false; break;
    case 1: fa.reset(new moeoDominanceDepthFitnessAssignment<Sol>(rm)); break;
    case 2: fa.reset(new moeoDominanceDepthFitnessAssignment<Sol>(pc, rm)); break;
    case 3: fa.reset(new moeoDominanceDepthFitnessAssignment<Sol>(sc, rm)); break;
    }
    Dom dom = [&](auto& a, auto& b) { return useStrict ? strictDom(a, b, m) : dominates(a, b, m); };
    unsigned rounds = g.range(1, 3); bool nt = false;
    for (unsigned k = 0; k < rounds; ++k) {
        eoPop<Sol> p = genPop(g, 1, 14); Vecs v = vecs(p); unsigned n = p.size();
        (*fa)(p);
        CHECK(p.size() == n, "population size changed");
        CHECK(byId(p) == v, "objective vectors changed");
        auto f = fitById(p); auto r = ranks(v, dom);
        unsigned D = dups(v); unsigned maxr = *std::max_element(r.begin(), r.end()); if (maxr > 1) nt = true;
        if (rm && m.size() == 2) {
            if (D) maxr = n;
            for (unsigned i = 0; i < n; ++i) {
                unsigned cls = 0, good = 0;
                for (unsigned j = 0; j < n; ++j) if (v[j] == v[i]) { cls++; if (f[j] == (double)maxr - r[j]) good++; else CHECK(f[j] == (double)maxr - n, "duplicate " << pbt::strv(v[j]) << " neither in its front nor in the last one: fitness " << f[j]); }
                // a class may sit in the last front by right
                CHECK(good == 1 || (r[i] == n && good == cls), good << " of " << cls << " equal solutions kept in their front, objective vector " << pbt::strv(v[i]));
            }
        } else for (unsigned i = 0; i < n; ++i) CHECK(f[i] == (double)maxr - r[i], "front " << r[i] << " of " << maxr << " but fitness " << f[i] << " for " << pbt::strv(v[i]));
        // deletion: those dominated by the removed vector gain one
        OV del = genOV(g, 3); std::vector<double> before; for (auto& s : p) before.push_back(s.fitness());
        fa->updateByDeleting(p, del);
        for (unsigned i = 0; i < n; ++i) CHECK(p[i].fitness() == before[i] + (dom(raw(del), raw(p[i].objectiveVector())) ? 1 : 0), "updateByDeleting");
        if (k == 0) g.note("n=").note(n).note(" fronts=").note(maxr).note(" duplicates=").note(D).note(" objectives=").note(m.size());
    }
    g.nontrivial(nt);
}

PBT(rank_count, 30000, 500000) {
    auto m = setupObjectives(g, 1, 4);
    moeoUnboundedArchive<Sol> arch; bool useArch = g.boolean(), useComp = g.boolean(), useStrict = useComp && g.boolean(), defs = g.chance(1, 4), nocopy = g.boolean();
    double start = g.oneof({1.0, 0.0, 2.5}); int kind = g.draw(3);
    moeoStrictObjectiveVectorComparator<OV> sc; moeoParetoObjectiveVectorComparator<OV> pc; moeoObjectiveVectorComparator<OV>& c = useStrict ? (moeoObjectiveVectorComparator<OV>&)sc : (moeoObjectiveVectorComparator<OV>&)pc;
    std::unique_ptr<moeoFitnessAssignment<Sol>> fa; moeoDominanceMatrix<Sol> mat(c, nocopy);
    if (kind == 0) {
        typedef moeoDominanceRankFitnessAssignment<Sol> A; if (defs) start = 1, nocopy = true;
        if (useComp) fa.reset(useArch ? (defs ? new A(c, arch) : new A(c, arch, start, nocopy)) : (defs ? new A(c) : new A(c, start, nocopy)));
        else fa.reset(useArch ? (defs ? new A(arch) : new A(arch, start, nocopy)) : (defs ? new A() : new A(start, nocopy)));
    } else if (kind == 1) {
        typedef moeoDominanceCountFitnessAssignment<Sol> A; if (defs) nocopy = false;
        if (useComp) fa.reset(useArch ? (defs ? new A(c, arch) : new A(c, arch, nocopy)) : (defs ? new A(c) : new A(c, nocopy)));
        else fa.reset(useArch ? (defs ? new A(arch) : new A(arch, nocopy)) : (defs ? new A() : new A(nocopy)));
    } else if (kind == 2) {
        typedef moeoDominanceCountRankingFitnessAssignment<Sol> A; if (defs) nocopy = true;
        if (useComp) fa.reset(useArch ? (defs ? new A(c, arch) : new A(c, arch, nocopy)) : (defs ? new A(c) : new A(c, nocopy)));
        else fa.reset(useArch ? (defs ? new A(arch) : new A(arch, nocopy)) : (defs ? new A() : new A(nocopy)));
    }
    Dom dom = [&](auto& a, auto& b) { return useStrict ? strictDom(a, b, m) : dominates(a, b, m); };
    unsigned rounds = g.range(1, 3); bool nt = false;
    for (unsigned k = 0; k < rounds; ++k) {
        eoPop<Sol> p = genPop(g, 1, 12); arch.clear();
        if (useArch || kind == 3) { auto a = genPop(g, 0, 6, 1000); for (auto& s : a) arch.push_back(s); }
        Vecs v = vecs(arch); for (auto& x : vecs(p)) v.push_back(x);
        unsigned n = v.size(); std::vector<bool> copy(n, false); unsigned C = 0, nd = 0;
        if (nocopy) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) if (v[i] == v[j]) { if (!copy[i]) C++; copy[i] = true; }
        std::vector<double> rk(n, 0), ct(n, 0), cr(n, 0);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (!copy[i] && !copy[j] && dom(v[i], v[j])) { ct[i]++; rk[j]++; nd++; }
        for (unsigned i = 0; i < n; ++i) { if (copy[i]) { rk[i] = n - C; ct[i] = 0; } else ct[i] += C; }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (!copy[j] && (copy[i] || dom(v[j], v[i]))) cr[i] += ct[j];
        if (nd) nt = true;
        if (kind == 3) {
            mat(arch, p); CHECK(mat.size() == n, "matrix size");
            for (unsigned i = 0; i < n; ++i) { CHECK(mat.rank(i) == rk[i] && mat.count(i) == ct[i], "matrix rank " << mat.rank(i) << "/" << rk[i] << " count " << mat.count(i) << "/" << ct[i] << " of element " << i << " among " << n);
                for (unsigned j = 0; j < n; ++j) CHECK(mat[i][j] == (!copy[i] && (copy[j] || dom(v[i], v[j]))), "matrix entry"); }
        } else {
            (*fa)(p);
            CHECK(p.size() + arch.size() == n, "sizes changed");
            for (unsigned i = 0; i < n; ++i) {
                const Sol& s = i < arch.size() ? arch[i] : p[i - arch.size()]; CHECK(raw(s.objectiveVector()) == v[i], "order changed");
                double e = kind == 0 ? -(rk[i] + start) : kind == 1 ? ct[i] : -cr[i];
                CHECK_NEAR(s.fitness(), e, (kind == 0 ? "dominance rank" : kind == 1 ? "dominance count" : "count ranking") << " element " << i << " of " << n << " " << pbt::strv(v[i]) << " round " << k);
            }
        }
        if (k == 0) g.note("kind=").note(kind).note(" n=").note(n).note(" archive=").note(arch.size()).note(" copies=").note(C).note(" dominances=").note(nd);
    }
    g.nontrivial(nt);
}

namespace {
struct Bounds { std::vector<double> lo, hi; };
Bounds boundsOf(const Vecs& v) { Bounds b; size_t n = v[0].size(); for (size_t i = 0; i < n; ++i) { double lo = v[0][i], hi = lo; for (auto& x : v) lo = std::min(lo, x[i]), hi = std::max(hi, x[i]); if (lo == hi) { lo -= 1e-6; hi += 1e-6; } b.lo.push_back(lo); b.hi.push_back(hi); } return b; }
// normalised to [0,1] with 0 the best
std::vector<double> norm(const std::vector<double>& v, const Bounds& b, const std::vector<bool>& m) { auto r = v; for (size_t i = 0; i < v.size(); ++i) { double x = (v[i] - b.lo[i]) / (b.hi[i] - b.lo[i]); r[i] = m[i] ? x : 1 - x; } return r; }
double epsInd(const std::vector<double>& a, const std::vector<double>& b) { double r = a[0] - b[0]; for (size_t i = 1; i < a.size(); ++i) r = std::max(r, a[i] - b[i]); return r; }
double box(const std::vector<double>& a, double rho) { double r = 1; for (double x : a) r *= std::max(0.0, rho - x) / rho; return r; }
double hvInd(const std::vector<double>& a, const std::vector<double>& b, double rho) { // volume dominated by b and not by a; negative volume gained when a dominates b
    std::vector<double> j = a; bool adom = true, ne = false; for (size_t i = 0; i < a.size(); ++i) { j[i] = std::max(a[i], b[i]); if (a[i] > b[i] + 1e-9) adom = false; if (std::fabs(a[i] - b[i]) > 1e-9) ne = true; }
    if (adom && ne) return -(box(a, rho) - box(j, rho));
    return box(b, rho) - box(j, rho);
}
}
PBT(indicator, 20000, 300000) {
    auto m = setupObjectives(g, 1, 4); bool hv = g.boolean(); double rho = g.oneof({1.1, 1.0, 2.0}), kappa = g.oneof({0.05, 0.2, 1.0});
    std::unique_ptr<moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>> met;
    if (hv) met.reset(rho == 1.1 ? new moeoHypervolumeBinaryMetric<OV>() : new moeoHypervolumeBinaryMetric<OV>(rho)); else met.reset(new moeoAdditiveEpsilonBinaryMetric<OV>());
    std::unique_ptr<moeoExpBinaryIndicatorBasedFitnessAssignment<Sol>> fa(kappa == 0.05 ? new moeoExpBinaryIndicatorBasedFitnessAssignment<Sol>(*met) : new moeoExpBinaryIndicatorBasedFitnessAssignment<Sol>(*met, kappa));
    unsigned rounds = g.range(1, 3); bool nt = false;
    for (unsigned k = 0; k < rounds; ++k) {
        eoPop<Sol> p = genPop(g, 1, 10); Vecs v = vecs(p); Bounds b = boundsOf(v);
        auto I = [&](const std::vector<double>& x, const std::vector<double>& y) { auto a = norm(x, b, m), c = norm(y, b, m); return hv ? hvInd(a, c, rho) : epsInd(a, c); };
        auto fit = [&](const Vecs& all, size_t i) { double s = 0; for (size_t j = 0; j < all.size(); ++j) if (j != i) s -= std::exp(-I(all[j], all[i]) / kappa); return s; };
        double mag = 0; // largest magnitude met, for the comparison tolerance
        auto close = [&](double a, double e, const char* what) { mag = std::max(mag, std::fabs(e)); CHECK(std::fabs(a - e) <= 2e-5 * (1 + mag), what << ": " << a << " instead of " << e << ", population " << v.size() << " round " << k); };
        (*fa)(p);
        for (size_t i = 0; i < v.size(); ++i) { CHECK(raw(p[i].objectiveVector()) == v[i], "order changed"); close(p[i].fitness(), fit(v, i), "indicator-based fitness"); }
        if (v.size() > 1) nt = true;
        unsigned steps = g.draw(4);
        for (unsigned s = 0; s < steps; ++s) {
            if (p.size() > 1 && g.boolean()) {
                unsigned d = g.draw(p.size() - 1); OV o = p[d].objectiveVector(); p.erase(p.begin() + d); v.erase(v.begin() + d); fa->updateByDeleting(p, o);
            } else {
                OV o; for (unsigned i = 0; i < o.size(); ++i) o[i] = v[g.draw(v.size() - 1)][i]; // stays inside the bounds
                double r = fa->updateByAdding(p, o); Sol n(7, o); n.fitness(r); p.push_back(n); v.push_back(raw(o));
                close(r, fit(v, v.size() - 1), "fitness returned by updateByAdding");
            }
            for (size_t i = 0; i < v.size(); ++i) close(p[i].fitness(), fit(v, i), "fitness after update");
        }
        if (k == 0) g.note(hv ? "hypervolume" : "epsilon").note(" n=").note(v.size()).note(" updates=").note(steps);
    }
    g.nontrivial(nt);
}

PBT(reference_point, 8000, 100000) {
    auto m = setupObjectives(g, 1, 4); bool hv = g.boolean(); double rho = g.oneof({1.1, 1.0, 2.0}); OV ref = genOV(g, 4);
    moeoHypervolumeBinaryMetric<OV> h(rho); moeoAdditiveEpsilonBinaryMetric<OV> e;
    moeoReferencePointIndicatorBasedFitnessAssignment<Sol> fa(ref, hv ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)h : (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)e);
    for (int k = 0; k < 2; ++k) {
        eoPop<Sol> p = genPop(g, 0, 8); Vecs v = vecs(p), w = v; w.push_back(raw(ref)); Bounds b = boundsOf(w); fa(p);
        for (size_t i = 0; i < v.size(); ++i) { auto a = norm(v[i], b, m), r = norm(raw(ref), b, m); CHECK(std::fabs(p[i].fitness() + (hv ? hvInd(a, r, rho) : epsInd(a, r))) < 1e-9, "reference point fitness " << p[i].fitness()); }
        g.nontrivial(v.size() > 1); if (!k) g.note("n=").note(v.size());
    }
}

namespace {
struct CountEval : eoEvalFunc<Sol> { unsigned n = 0; OV v; void operator()(Sol& s) { ++n; s.objectiveVector(v); } };
}
PBT(scalarisation, 10000, 120000) {
    auto m = setupObjectives(g, 1, 5); std::vector<double> w; for (size_t i = 0; i < m.size(); ++i) w.push_back(0.25 * g.range(0, 8));
    CountEval ev; ev.v = genOV(g, 9);
    eoPop<Sol> p = genPop(g, 0, 8); std::vector<bool> inv(p.size(), false); bool withEval = g.boolean(); unsigned nInv = 0;
    if (withEval) for (size_t i = 0; i < p.size(); ++i) if (g.chance(1, 3)) { inv[i] = true; nInv++; p[i].invalidate(); }
    Vecs v; for (size_t i = 0; i < p.size(); ++i) v.push_back(inv[i] ? raw(ev.v) : raw(p[i].objectiveVector()));
    if (g.boolean()) {
        std::unique_ptr<moeoAggregationFitnessAssignment<Sol>> fa(withEval ? new moeoAggregationFitnessAssignment<Sol>(w, ev) : new moeoAggregationFitnessAssignment<Sol>(w));
        (*fa)(p);
        for (size_t i = 0; i < p.size(); ++i) { double e = 0; for (size_t k = 0; k < m.size(); ++k) e += (m[k] ? -1 : 1) * w[k] * v[i][k]; CHECK_NEAR(p[i].fitness(), e, "weighted sum"); CHECK_NEAR((*fa)(p[i].objectiveVector()), e, "weighted sum of a vector"); }
    } else {
        int opt = g.range(0, (int)m.size() - 1); OV cons = genOV(g, 9); 
        std::vector<double> lo, hi; std::vector<eoRealInterval> bs; for (size_t k = 0; k < m.size(); ++k) { double l = g.range(-3, 3), r = g.range(1, 8); lo.push_back(l); hi.push_back(l + r); bs.push_back(eoRealInterval(l, l + r)); }
        bool plain = g.boolean(); moeoObjectiveVectorNormalizer<Sol> nd, nb(bs, 10); moeoObjectiveVectorNormalizer<Sol>& no = plain ? nd : nb;
        auto N = [&](double x, size_t k) { return plain ? x : (x - lo[k]) * 10 / (hi[k] - lo[k]); };
        std::unique_ptr<moeoConstraintFitnessAssignment<Sol>> fa(withEval ? new moeoConstraintFitnessAssignment<Sol>(w, cons, opt, no, ev) : new moeoConstraintFitnessAssignment<Sol>(w, cons, opt, no));
        (*fa)(p);
        for (size_t i = 0; i < p.size(); ++i) {
            double e = 0; for (size_t k = 0; k < m.size(); ++k) { double x = N(v[i][k], k), c = N(cons[k], k); if ((int)k == opt) e += (m[k] ? -1 : 1) * w[k] * x; else e -= w[k] * std::max(0.0, m[k] ? x - c : c - x); }
            CHECK_NEAR(p[i].fitness(), e, "constraint fitness");
        }
    }
    CHECK(ev.n == nInv, "evaluated " << ev.n << " solutions, " << nInv << " were invalid");
    g.nontrivial(p.size() > 0 && m.size() > 1); g.note("n=").note(p.size()).note(" objectives=").note(m.size()).note(" invalid=").note(nInv);
}
PBT(dummy, 2000, 20000) {
    auto m = setupObjectives(g, 1, 3); eoPop<Sol> p = genPop(g, 0, 8); std::vector<double> e;
    for (auto& s : p) { if (g.boolean()) { double f = g.range(-3, 3); s.fitness(f); e.push_back(f); } else e.push_back(0); }
    moeoDummyFitnessAssignment<Sol> d; d(p); for (size_t i = 0; i < p.size(); ++i) CHECK(p[i].fitness() == e[i], "dummy fitness");
    g.nontrivial(p.size() > 1); g.note("n=").note(p.size());
}

// the same with larger sizes
PBT_LARGE(depth, 60, 600, 10)
PBT_LARGE(rank_count, 60, 600, 10)
PBT_LARGE(indicator, 60, 600, 10)
PBT_LARGE(reference_point, 60, 600, 10)
PBT_LARGE(scalarisation, 60, 600, 10)
PBT_LARGE(dummy, 50, 500, 10)
