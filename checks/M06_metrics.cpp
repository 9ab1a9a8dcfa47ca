// M06: quality indicators and objective statistics versus their definitions.
#include "moeo_support.hpp"
#include <unistd.h>
using namespace sup;
namespace {
typedef std::vector<std::vector<double>> Vecs;
std::vector<OV> genSet(pbt::Gen& g, unsigned lo, unsigned hi, int from, int span, double step) {
    std::vector<OV> s; unsigned n = g.size(lo, hi);
    for (unsigned i = 0; i < n; ++i) { OV v; for (auto& x : v) x = step * (from + g.range(0, span)); if (i && g.chance(1, 8)) v = s[g.draw(i - 1)]; s.push_back(v); }
    return s;
}
// volume of the union of the boxes [0,f]
double volume(const Vecs& f) {
    if (f.empty()) return 0; size_t m = f[0].size(); std::vector<std::vector<double>> c(m);
    for (size_t k = 0; k < m; ++k) { c[k].push_back(0); for (auto& x : f) c[k].push_back(x[k]); std::sort(c[k].begin(), c[k].end()); c[k].erase(std::unique(c[k].begin(), c[k].end()), c[k].end()); }
    std::vector<size_t> i(m, 1); double sum = 0;
    for (size_t k = 0; k < m; ++k) if (c[k].size() < 2) return 0;
    for (;;) {
        for (auto& x : f) { bool in = true; for (size_t k = 0; k < m && in; ++k) in = x[k] >= c[k][i[k]]; if (in) { double v = 1; for (size_t k = 0; k < m; ++k) v *= c[k][i[k]] - c[k][i[k] - 1]; sum += v; break; } }
        size_t k = 0; while (k < m && ++i[k] == c[k].size()) i[k++] = 1; if (k == m) return sum;
    }
}
struct Bounds { std::vector<double> lo, hi; };
Bounds boundsOf(const std::vector<OV>& a, const std::vector<OV>& b, bool widen) { Bounds r; for (unsigned k = 0; k < OV::nObjectives(); ++k) { double lo = 1e300, hi = -1e300; for (auto* s : {&a, &b}) for (auto& x : *s) lo = std::min(lo, x[k]), hi = std::max(hi, x[k]); if (widen && lo == hi) lo -= 1e-6, hi += 1e-6; r.lo.push_back(lo); r.hi.push_back(hi); } return r; }
Vecs front(const std::vector<OV>& s, const Bounds& b, bool normalise, const std::vector<double>& ref, const std::vector<bool>& m) {
    Vecs f; for (auto& v : s) { std::vector<double> x; for (size_t k = 0; k < m.size(); ++k) { double y = normalise ? (v[k] - b.lo[k]) / (b.hi[k] - b.lo[k]) : v[k]; x.push_back(std::max(0.0, m[k] ? ref[k] - y : y - ref[k])); } f.push_back(x); } return f;
}
bool tol(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }
// the reference point in the space where the volume is measured
std::vector<double> genRef(pbt::Gen& g, const std::vector<OV>& a, const std::vector<OV>& b, bool normalise, const std::vector<bool>& m) {
    std::vector<double> r; Bounds bd = boundsOf(a, b, false);
    for (size_t k = 0; k < m.size(); ++k) { double e = 0.5 * g.draw(3); r.push_back(normalise ? (m[k] ? 1 + e : -e) : (m[k] ? bd.hi[k] + e : bd.lo[k] - e)); }
    return r;
}
OV toOV(const std::vector<double>& v) { OV o; for (size_t i = 0; i < v.size(); ++i) o[i] = v[i]; return o; }
}
PBT(hypervolume, 20000, 300000) {
    auto m = setupObjectives(g, 2, 4); bool normalise = g.boolean(); int mode = g.draw(2); double rho = g.oneof({1.1, 1.0, 2.0}); bool defs = rho == 1.1 && g.boolean();
    auto s = genSet(g, 1, 7, 0, g.oneof({1, 3, 8}), g.oneof({1.0, 0.5, 3.0})); std::vector<double> ref(m.size()); std::unique_ptr<moeoHyperVolumeMetric<OV>> met;
    Bounds b = boundsOf(s, s, normalise); OV r; std::vector<eoRealInterval> bs;
    if (mode == 0) { // reference point derived from rho
        met.reset(defs ? (normalise ? new moeoHyperVolumeMetric<OV>() : new moeoHyperVolumeMetric<OV>(false)) : new moeoHyperVolumeMetric<OV>(normalise, rho));
        for (size_t k = 0; k < m.size(); ++k) ref[k] = normalise ? (m[k] ? rho : 1 - rho) : b.hi[k] * (m[k] ? rho : 1 - rho);
    } else {
        ref = genRef(g, s, s, normalise || mode == 2, m); r = toOV(ref);
        if (mode == 1) met.reset(new moeoHyperVolumeMetric<OV>(normalise, r));
        else { normalise = true; b = boundsOf(s, s, true); for (size_t k = 0; k < m.size(); ++k) { b.lo[k] -= g.draw(2); b.hi[k] += g.draw(2); bs.push_back(eoRealInterval(b.lo[k], b.hi[k])); } met.reset(new moeoHyperVolumeMetric<OV>(r, bs)); }
    }
    double e = volume(front(s, b, normalise, ref, m)), v = (*met)(s);
    CHECK(tol(v, e), "hypervolume " << v << " instead of " << e << " for " << s.size() << " points, mode " << mode << (normalise ? " normalised" : ""));
    // order, duplicates, dominated points inside the bounds
    auto t = s; for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[g.draw(i - 1)]); t.push_back(t[g.draw(t.size() - 1)]);
    CHECK(tol((*met)(t), e), "hypervolume changes with order and duplicates");
    auto u = s; u.push_back(s[g.draw(s.size() - 1)]); for (size_t k = 0; k < m.size(); ++k) { double w = u.back()[k]; for (auto& x : s) w = m[k] ? std::max(w, x[k]) : std::min(w, x[k]); if (g.boolean()) u.back()[k] = w; }
    if (g.boolean()) std::swap(u.front(), u.back());
    CHECK(tol((*met)(u), e), "hypervolume changes with a dominated point");
    CHECK(tol((*met)(s), e), "hypervolume changes when asked again");
    auto w = genSet(g, 1, 4, 0, 3, 1.0); if (mode == 0) { Bounds bw = boundsOf(w, w, normalise); auto rw = ref; if (!normalise) for (size_t k = 0; k < m.size(); ++k) rw[k] = bw.hi[k] * (m[k] ? rho : 1 - rho); double x = (*met)(w), y = volume(front(w, bw, normalise, rw, m)); CHECK(tol(x, y), "second set with the same metric: " << x << " instead of " << y); }
    g.nontrivial(s.size() > 1 && e > 0); g.note("n=").note(s.size()).note(" objectives=").note(m.size()).note(" volume=").note(e);
}
PBT(hypervolume_difference, 15000, 200000) {
    auto m = setupObjectives(g, 2, 4); bool normalise = g.boolean(), useRho = g.boolean(); double rho = g.oneof({1.1, 1.0, 2.0}); bool defs = rho == 1.1 && g.boolean();
    std::unique_ptr<moeoHyperVolumeDifferenceMetric<OV>> met; OV r; std::vector<double> ref(m.size());
    for (int k2 = 0; k2 < (useRho ? 2 : 1); ++k2) {
        int span = g.oneof({0, 1, 3, 8}); double step = g.oneof({1.0, 0.5, 3.0}); auto a = genSet(g, 1, 5, 0, span, step), c = genSet(g, 1, 5, 0, span, step); Bounds b = boundsOf(a, c, true);
        if (useRho) { if (!met) met.reset(defs ? (normalise ? new moeoHyperVolumeDifferenceMetric<OV>() : new moeoHyperVolumeDifferenceMetric<OV>(false)) : new moeoHyperVolumeDifferenceMetric<OV>(normalise, rho)); for (size_t k = 0; k < m.size(); ++k) ref[k] = normalise ? (m[k] ? rho : 1 - rho) : b.hi[k] * (m[k] ? rho : 1 - rho); }
        else { ref = genRef(g, a, c, normalise, m); r = toOV(ref); met.reset(new moeoHyperVolumeDifferenceMetric<OV>(normalise, r)); }
        double va = volume(front(a, b, normalise, ref, m)), vc = volume(front(c, b, normalise, ref, m)), v = (*met)(a, c);
        CHECK(std::fabs(v - (va - vc)) <= 1e-5 * (1 + va + vc), "difference " << v << " instead of " << va << "-" << vc);
        double z = (*met)(a, a); CHECK(std::fabs(z) < 1e-6 * (1 + va), "difference of a set with itself is " << z);
        g.nontrivial(va != vc); if (!k2) g.note("sizes ").note(a.size()).note(",").note(c.size()).note(" difference ").note(va - vc);
    }
}
PBT(epsilon_sets, 15000, 200000) {
    auto m = setupObjectives(g, 1, 5); bool mult = g.chance(1, 3), normalise = g.boolean(); int span = g.oneof({0, 1, 4}); int from = mult ? 1 : 0; double sg = mult && g.chance(1, 4) ? -1 : 1;
    moeoVecVsVecMultiplicativeEpsilonBinaryMetric<OV> mm; moeoVecVsVecAdditiveEpsilonBinaryMetric<OV> an(true), ap(false), ad;
    moeoVectorVsVectorBinaryMetric<OV, double>& met = mult ? (moeoVectorVsVectorBinaryMetric<OV, double>&)mm : normalise ? (g.boolean() ? an : ad) : ap;
    for (int q = 0; q < 2; ++q) {
        auto a = genSet(g, 1, 5, from, span, sg), c = genSet(g, 1, 5, from, span, sg); Bounds b = boundsOf(a, c, true); double e = -1e300;
        for (auto& y : c) { double best = 1e300; for (auto& x : a) { double w = -1e300; for (size_t k = 0; k < m.size(); ++k) { double p = x[k], t = y[k]; if (!m[k]) std::swap(p, t); double d = mult ? p / t : normalise ? (p - t) / (b.hi[k] - b.lo[k]) : p - t; w = std::max(w, d); } best = std::min(best, w); } e = std::max(e, best); }
        double v = met(a, c); CHECK(v == v && tol(v, e), (mult ? "multiplicative" : "additive") << " epsilon " << v << " instead of " << e);
        double z = met(a, a); CHECK(tol(z, mult ? 1 : 0) || (mult ? z <= 1 : z <= 0), "epsilon of a set with itself is " << z);
        g.nontrivial(a.size() > 1 && c.size() > 1); if (!q) g.note("sizes ").note(a.size()).note(",").note(c.size()).note(" value ").note(e);
    }
}
PBT(binary_indicators, 20000, 250000) {
    auto m = setupObjectives(g, 1, 5); size_t n = m.size(); double rho = g.oneof({1.1, 1.0, 2.0, 0.5}); bool dflt = g.chance(1, 6), def = rho == 1.1 && g.boolean(), iv = g.boolean();
    std::unique_ptr<moeoHypervolumeBinaryMetric<OV>> h(def ? new moeoHypervolumeBinaryMetric<OV>() : new moeoHypervolumeBinaryMetric<OV>(rho)); if (rho < 1) rho = 1; moeoAdditiveEpsilonBinaryMetric<OV> ep;
    std::vector<double> lo(n, 0), hi(n, 1); OV a, c;
    for (size_t k = 0; k < n; ++k) {
        if (!dflt) { lo[k] = g.range(-4, 4); hi[k] = lo[k] + g.range(iv ? 1 : 0, 8); if (iv) { h->setup(eoRealInterval(lo[k], hi[k]), k); ep.setup(eoRealInterval(lo[k], hi[k]), k); } else { h->setup(lo[k], hi[k], k); ep.setup(lo[k], hi[k], k); if (lo[k] == hi[k]) lo[k] -= 1e-6, hi[k] += 1e-6; } }
        double r = hi[k] - lo[k]; if (r < 1e-3) a[k] = c[k] = lo[k] + 1e-6; else { a[k] = lo[k] + r * g.draw(4) / 4; c[k] = g.chance(1, 3) ? a[k] : lo[k] + r * g.draw(4) / 4; }
    }
    auto nx = [&](const OV& v, size_t k) { double x = (v[k] - lo[k]) / (hi[k] - lo[k]); return m[k] ? x : 1 - x; };
    double e = -1e300; bool adom = true, ne = false; double va = 1, vc = 1, vj = 1;
    for (size_t k = 0; k < n; ++k) { double x = nx(a, k), y = nx(c, k); e = std::max(e, x - y); if (x > y + 1e-9) adom = false; if (std::fabs(x - y) > 1e-9) ne = true; va *= (rho - x) / rho; vc *= (rho - y) / rho; vj *= (rho - std::max(x, y)) / rho; }
    double ve = ep(a, c), vh = (*h)(a, c), eh = adom && ne ? -(va - vj) : vc - vj;
    CHECK(tol(ve, e), "additive epsilon " << ve << " instead of " << e); CHECK(tol(vh, eh), "hypervolume indicator " << vh << " instead of " << eh);
    g.nontrivial(ne); g.note(pbt::strv(raw(a))).note(pbt::strv(raw(c))).note(" eps ").note(e).note(" hv ").note(eh);
}
PBT(contribution, 15000, 200000) {
    auto m = setupObjectives(g, 1, 4); int span = g.oneof({1, 3, 9}); auto a = genSet(g, 0, 6, 0, span, 1), c = genSet(g, 0, 6, 0, span, 1); if (a.empty() && c.empty()) a.push_back(genOV(g, 3));
    if (g.chance(1, 4)) c.insert(c.end(), a.begin(), a.end());
    auto uniq = [](std::vector<OV>& s) { std::vector<OV> r; for (auto& x : s) { bool d = false; for (auto& y : r) if (raw(y) == raw(x)) d = true; if (!d) r.push_back(x); } s = r; }; uniq(a); uniq(c);
    moeoContributionMetric<OV> met; double x = met(a, c), y = met(c, a);
    CHECK(x >= 0 && x <= 1 && y >= 0 && y <= 1, "contribution outside [0,1]: " << x << " " << y); CHECK_NEAR(x + y, 1.0, "contributions");
    auto cnt = [&](const std::vector<OV>& s, const std::vector<OV>& t, unsigned& w, unsigned& n, unsigned& q) { w = n = q = 0; for (auto& u : s) { bool d = false, r = false, eq = false; for (auto& v : t) { if (dominates(raw(u), raw(v), m)) d = r = true; if (dominates(raw(v), raw(u), m)) r = true; if (raw(u) == raw(v)) eq = true; } w += d; n += !r; q += eq; } };
    unsigned w1, n1, c1, w2, n2, c2; cnt(a, c, w1, n1, c1); cnt(c, a, w2, n2, c2);
    CHECK_NEAR(x, (c1 / 2.0 + w1 + n1) / (c1 + w1 + n1 + w2 + n2), "contribution of sets of " << a.size() << " and " << c.size());
    g.nontrivial(c1 || w1 || w2); g.note("sizes ").note(a.size()).note(",").note(c.size()).note(" common ").note(c1).note(" contribution ").note(x);
}
PBT(statistics, 8000, 100000) {
    auto m = setupObjectives(g, 1, 4); moeoBestObjVecStat<Sol> best; moeoAverageObjVecStat<Sol> avg; moeoVecVsVecAdditiveEpsilonBinaryMetric<OV> met(false); double dv = g.range(-2, 2); moeoBinaryMetricStat<Sol> bm(met, "m", dv);
    std::vector<OV> prev; bool first = true; double last = dv; moeoConvertPopToObjectiveVectors<Sol> conv; unsigned rounds = g.range(1, 4);
    moeoUnboundedArchive<Sol> arch; eoPop<Sol> p; moeoArchiveUpdater<Sol> upd(arch, p); std::vector<std::vector<double>> all;
    for (unsigned q = 0; q < rounds; ++q) {
        p.clear(); for (auto& v : genSet(g, 0, 6, -2, 4, 0.5)) p.push_back(Sol(p.size(), v));
        auto cv = conv(p); CHECK(cv.size() == p.size(), "converted population"); for (size_t i = 0; i < p.size(); ++i) CHECK(raw(cv[i]) == raw(p[i].objectiveVector()), "converted vector");
        bm(p); if (!p.empty()) { if (!first) last = met(std::vector<OV>(cv), prev); first = false; prev = cv; } CHECK_NEAR(bm.value(), last, "metric between generations");
        upd(); for (auto& v : cv) all.push_back(raw(v)); size_t nd = 0; std::set<std::vector<double>> uq(all.begin(), all.end()); for (auto& v : uq) { bool d = false; for (auto& w : uq) if (dominates(w, v, m)) d = true; nd += !d; } CHECK(arch.size() == nd, "archive updated from the population");
        if (p.empty()) continue;
        best(p); avg(p);
        for (size_t k = 0; k < m.size(); ++k) { double b = p[0].objectiveVector()[k], s = 0; for (auto& x : p) { double y = x.objectiveVector()[k]; s += y; b = m[k] ? std::min(b, y) : std::max(b, y); } CHECK(best.value()[k] == b, "best of objective " << k); CHECK_NEAR(avg.value()[k], s / p.size(), "average of objective " << k); CHECK(best.bestindividuals(k).objectiveVector()[k] == b, "best individual of objective " << k << " in round " << q); }
        bool th = false; try { best.bestindividuals(m.size()); } catch (std::exception&) { th = true; } CHECK(th, "index out of range accepted");
    }
    g.nontrivial(rounds > 1 && p.size() > 1); g.note("rounds ").note(rounds);
}
PBT(saving_updaters, 300, 2000) {
    auto m = setupObjectives(g, 1, 3); char dir[] = "/tmp/verif-m06-XXXXXX"; CHECK(mkdtemp(dir), "scratch directory"); std::string base = dir, f1 = base + "/arch", f2 = base + "/metric";
    struct Clean { std::string d; std::vector<std::string> f; ~Clean() { for (auto& x : f) ::unlink(x.c_str()); ::rmdir(d.c_str()); } } cl{base, {}};
    moeoUnboundedArchive<Sol> arch; eoPop<Sol> p; bool count = g.boolean(); int id = g.range(-1, 2); moeoArchiveObjectiveVectorSavingUpdater<Sol> sv(arch, f1, count, id); moeoVecVsVecAdditiveEpsilonBinaryMetric<OV> met(false); moeoBinaryMetricSavingUpdater<Sol> bs(met, p, f2);
    cl.f.push_back(f2); std::vector<std::string> lines; std::vector<OV> prev; unsigned rounds = g.range(1, 3), nl = 0;
    for (unsigned q = 0; q < rounds; ++q) {
        p.clear(); for (auto& v : genSet(g, 1, 4, 0, 4, 0.5)) p.push_back(Sol(p.size(), v)); arch(p); sv(); bs();
        std::string nm = f1; if (id >= 0) nm += "." + std::to_string(id); if (count) nm += "." + std::to_string(q); cl.f.push_back(nm);
        std::ifstream in(nm); std::string l; size_t k = 0; while (std::getline(in, l)) { CHECK(k < arch.size(), "too many lines saved"); std::istringstream is(l); std::vector<double> v; double x; while (is >> x) v.push_back(x); CHECK(v == raw(arch[k].objectiveVector()), "saved vector '" << l << "'"); ++k; } CHECK(k == arch.size(), k << " vectors saved in " << (count ? "numbered file" : "file") << " of " << arch.size());
        std::vector<OV> cur; for (auto& s : p) cur.push_back(s.objectiveVector()); if (q) { std::ostringstream o; o << q << ' ' << met(cur, prev); lines.push_back(o.str()); } prev = cur;
        std::ifstream in2(f2); k = 0; while (std::getline(in2, l)) { CHECK(k < lines.size() && l == lines[k], "metric line '" << l << "'"); ++k; } CHECK(k == lines.size(), "metric lines");
    }
    g.nontrivial(rounds > 1); g.note("rounds ").note(rounds).note(" counted ").note(count);
}

// the same with larger sizes
PBT_LARGE(hypervolume, 60, 600, 10)
PBT_LARGE(hypervolume_difference, 60, 600, 10)
PBT_LARGE(epsilon_sets, 60, 600, 10)
PBT_LARGE(binary_indicators, 60, 600, 10)
PBT_LARGE(contribution, 60, 600, 10)
PBT_LARGE(statistics, 60, 600, 10)
PBT_LARGE(saving_updaters, 10, 100, 10)
