// M09: scalarising fitness, weight strategies, indexed archive and hypervolume stop.
#include "moeo_support.hpp"
#include <scalarStuffs/distance/moeoWeightedChebychevDistance.h>
#include <scalarStuffs/weighting/moeoAugmentedQexploreWeightStrategy.h>
#include <scalarStuffs/weighting/moeoDummyWeightStrategy.h>
#include <scalarStuffs/weighting/moeoFixedTimeBothDirectionWeightStrategy.h>
#include <scalarStuffs/weighting/moeoFixedTimeOneDirectionWeightStrategy.h>
#include <continue/moeoHypContinue.h>
using namespace sup;
namespace {
typedef std::vector<double> V;
typedef moeoObjectiveVectorNormalizer<Sol> Norm;
eoPop<Sol> genPop(pbt::Gen& g, unsigned lo, unsigned hi) {
    eoPop<Sol> p; unsigned n = g.size(lo, hi); int span = g.oneof({0, 1, 4, 30});
    for (unsigned i = 0; i < n; ++i) { OV v = genOV(g, span); for (auto& x : v) x = 0.5 * x - 3; p.push_back(Sol(i, v)); }
    return p;
}
struct Ev : eoEvalFunc<Sol> { OV v; unsigned n = 0; void operator()(Sol& s) { ++n; s.objectiveVector(v); } };
// the four metrics: d is obj - ref (minimised) or ref - obj (maximised) where oriented
double formula(int kind, unsigned rho, const V& w, const V& ref, const V& x, const std::vector<bool>& m) {
    double mx = -INFINITY, sum = 0, lp = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        double o = m[i] ? x[i] - ref[i] : ref[i] - x[i], a = std::fabs(x[i] - ref[i]);
        switch (kind) {
        case 0: lp += std::pow(w[i] * std::pow(a, (double)rho), 1.0 / rho); break;
        case 1: mx = std::max(mx, w[i] * a); sum += a; break;
        case 2: mx = std::max(mx, w[i] * o); break;
        case 3: mx = std::max(mx, w[i] * o); sum += w[i] * o; break;
        }
    }
    return kind == 0 ? lp : kind == 1 ? rho * sum + mx : kind == 2 ? mx : sum + rho * mx;
}
template <class F> std::unique_ptr<moeoSingleObjectivization<Sol>> make(bool ev, bool no, unsigned rho, OV& ref, OV& w, Norm& n, Ev& e) {
    if (ev && no) return std::unique_ptr<moeoSingleObjectivization<Sol>>(new F(rho, ref, w, n, e));
    if (ev) return std::unique_ptr<moeoSingleObjectivization<Sol>>(new F(rho, ref, w, e));
    if (no) return std::unique_ptr<moeoSingleObjectivization<Sol>>(new F(rho, ref, w, n));
    return std::unique_ptr<moeoSingleObjectivization<Sol>>(new F(rho, ref, w));
}
double hv2(std::vector<V> f, const V& ref) { // minimised, union of boxes
    std::sort(f.begin(), f.end()); double r = 0, y = ref[1];
    for (auto& p : f) if (p[1] < y && p[0] < ref[0]) { r += (ref[0] - p[0]) * (y - p[1]); y = p[1]; }
    return r;
}
}
PBT(metric_fitness, 12000, 150000) {
    auto m = setupObjectives(g, 1, 4); size_t n = m.size(); unsigned rho = g.range<unsigned>(1, 4); int kind = g.draw(3); bool ev = g.boolean(), no = g.boolean();
    OV ref = genOV(g, 8), w; for (auto& x : w) x = 0.25 * g.range(0, 8);
    V lo(n, 0), hi(n, 1); std::vector<eoRealInterval> bs;
    for (size_t i = 0; i < n; ++i) { double l = g.range(-4, 4), r = g.range(1, 6); if (no) lo[i] = l, hi[i] = l + r; bs.push_back(eoRealInterval(l, l + r)); }
    double mx = no ? 10 : 1; Norm nb(bs, 10); Ev e; e.v = genOV(g, 9);
    auto N = [&](const OV& o) { V r = raw(o); for (size_t i = 0; i < n; ++i) r[i] = (r[i] - lo[i]) * mx / (hi[i] - lo[i]); return r; };
    std::unique_ptr<moeoSingleObjectivization<Sol>> f;
    switch (kind) {
    case 0: f = make<moeoWeightedChebychevMetricFitnessAssignment<Sol>>(ev, no, rho, ref, w, nb, e); break;
    case 1: f = make<moeoAugmentedWeightedChebychevMetricFitnessAssignment<Sol>>(ev, no, rho, ref, w, nb, e); break;
    case 2: f = make<moeoAchievementScalarizingFunctionMetricFitnessAssignment<Sol>>(ev, no, rho, ref, w, nb, e); break;
    case 3: f = make<moeoAugmentedAchievementScalarizingFunctionMetricFitnessAssignment<Sol>>(ev, no, rho, ref, w, nb, e); break;
    }
    unsigned rounds = g.range(1, 3);
    for (unsigned r = 0; r < rounds; ++r) {
        if (r && g.boolean()) { for (auto& x : w) x = 0.25 * g.range(0, 8); }       // a weight strategy moves the weights
        if (r && g.boolean()) ref = genOV(g, 8);
        auto p = genPop(g, 0, 6); std::vector<OV> v; unsigned inv = 0; e.n = 0;
        for (auto& s : p) { v.push_back(s.objectiveVector()); if (ev && g.chance(1, 3)) { s.invalidate(); v.back() = e.v; ++inv; } else if (g.boolean()) s.fitness(77); }
        bool one = g.boolean(); if (one) for (auto& s : p) (*f)(s); else (*f)(p);
        CHECK(e.n == inv, "evaluated " << e.n << " solutions, " << inv << " had no objective vector");
        for (size_t i = 0; i < p.size(); ++i) {
            double want = -formula(kind, rho, raw(w), N(ref), N(v[i]), m);
            CHECK(raw(p[i].objectiveVector()) == raw(v[i]), "objective vector changed");
            CHECK(std::fabs(p[i].fitness() - want) <= 1e-9 * (1 + std::fabs(want)), "metric " << kind << " rho " << rho << " normaliser " << no << " evaluator " << ev << ": fitness " << p[i].fitness() << " instead of " << want << " for " << pbt::strv(raw(v[i])) << " reference " << pbt::strv(raw(ref)) << " weights " << pbt::strv(raw(w)));
            double u = (*f)(v[i]); CHECK(std::fabs(u - want) <= 1e-9 * (1 + std::fabs(want)), "value of a vector " << u << " instead of " << want);
        }
        g.nontrivial(p.size() > 1 && n > 1);
    }
    g.note("metric ").note(kind).note(" objectives ").note(n).note(" rho ").note(rho);
}
PBT(achievement, 6000, 80000) {
    auto m = setupObjectives(g, 1, 4); size_t n = m.size(); OV ref = genOV(g, 8); V l; for (size_t i = 0; i < n; ++i) l.push_back(0.25 * g.range(0, 8));
    double spn = g.oneof({0.0, 0.0001, 0.25, 1.0, -0.5, 1.5}); bool dl = g.boolean(), ds = g.chance(1, 3);
    typedef moeoAchievementFitnessAssignment<Sol> A;
    std::unique_ptr<A> a(dl ? (ds ? new A(ref) : new A(ref, spn)) : (ds ? new A(ref, l) : new A(ref, l, spn)));
    if (ds || spn < 0 || spn > 1) spn = 0.0001;
    if (dl) l.assign(n, 1.0 / n);
    OV cur = ref;
    for (unsigned r = 0; r < 2; ++r) {
        auto p = genPop(g, 0, 6); (*a)(p);
        for (auto& s : p) {
            double mn = INFINITY, sum = 0; for (size_t i = 0; i < n; ++i) { double t = l[i] * (cur[i] - s.objectiveVector()[i]); mn = std::min(mn, t); sum += t; }
            CHECK(std::fabs(s.fitness() - (mn + spn * sum)) < 1e-9 * (1 + std::fabs(mn) + std::fabs(sum)), "achievement " << s.fitness() << " instead of " << mn + spn * sum);
        }
        g.nontrivial(p.size() > 1);
        cur = genOV(g, 8); a->setReference(cur); ref = genOV(g, 8);
    }
    g.note("objectives ").note(n).note(" spn ").note(spn);
}
PBT(indexed_archive, 8000, 120000) {
    auto m = setupObjectives(g, 2, 2); moeoQuickUnboundedArchiveIndex<Sol> index; moeoIndexedArchive<Sol> arch(index); int span = g.oneof({2, 4, 8, 20});
    std::vector<std::pair<int, V>> hist; int id = 0; unsigned n = g.size(1, 30);
    std::ostringstream h;
    auto enters = [&](const V& v) { for (auto& x : hist) if (weakly(x.second, v, m)) return false; return true; };
    auto offer = [&] { OV v = genOV(g, span); if (g.chance(1, 2)) { double s = m[0] ? v[0] : span - v[0]; v[1] = std::floor(span - s) + g.range(0, 2); if (!m[1]) v[1] = -v[1]; } h << pbt::strv(raw(v)); return Sol(id++, v); };
    unsigned removed = 0;
    for (unsigned k = 0; k < n; ++k) {
        size_t before = arch.size();
        if (g.chance(1, 4)) {
            eoPop<Sol> p; unsigned c = g.size(0, 5); bool any = false;
            for (unsigned i = 0; i < c; ++i) { Sol s = offer(); p.push_back(s); V v = raw(s.objectiveVector()); if (enters(v)) any = true; hist.push_back({s.id, v}); }
            bool got = arch(p); CHECK(got == any, "population: returned " << got << " but " << any << " is right; offers " << h.str());
        } else {
            Sol s = offer(); V v = raw(s.objectiveVector()); bool e = enters(v);
            if (g.chance(1, 4)) { auto q = index(s, false); CHECK(q.first == e, "query says " << q.first << "; offers " << h.str()); }
            bool got = arch(s); hist.push_back({s.id, v});
            CHECK(got == e, "returned " << got << " but " << e << " is right; offers " << h.str());
        }
        std::map<V, int> want; for (auto& x : hist) { bool d = false; for (auto& y : hist) if (dominates(y.second, x.second, m)) d = true; if (!d && !want.count(x.second)) want[x.second] = x.first; }
        std::map<V, int> got; for (unsigned i = 0; i < arch.size(); ++i) got[raw(arch[i].objectiveVector())] = arch[i].id;
        CHECK(got.size() == arch.size(), "vector twice in the archive; offers " << h.str());
        CHECK(got == want, "archive of " << got.size() << " members is not the front of " << want.size() << "; offers " << h.str());
        if (arch.size() < before) removed += before - arch.size();
    }
    g.nontrivial(removed > 0); g.note("offers ").note(h.str());
}
PBT(weights, 6000, 60000) {
    setupObjectives(g, 2, 2); int kind = g.draw(3); Sol s(0, genOV(g, 9)); moeoVariableWeightStrategy<Sol>* st; double step = g.oneof({0.125, 0.25, 0.5, 0.3, 0.7, 1.0, 0.4, 0.15});
    unsigned n = g.size(1, kind == 3 ? 16 : 40);
    moeoDummyWeightStrategy<Sol> dummy; moeoFixedTimeOneDirectionWeightStrategy<Sol> one(step); moeoFixedTimeBothDirectionWeightStrategy<Sol> both(step); moeoAugmentedQexploreWeightStrategy<Sol> q;
    switch (kind) { case 0: st = &dummy; break; case 1: st = &one; break; case 2: st = &both; break; default: st = &q; }
    std::vector<double> w(2, 0.5), w0;
    for (unsigned k = 0; k < n; ++k) {
        (*st)(w, s); CHECK(w.size() == 2, "number of weights"); w0.push_back(w[0]);
        CHECK(w[0] >= 0 && w[1] >= 0 && std::fabs(w[0] + w[1] - 1) < 1e-9, "strategy " << kind << " call " << k << ": weights " << pbt::strv(w));
    }
    if (kind == 0) for (double x : w0) CHECK(x == 0.5, "dummy weights");
    if (kind == 1) { double cur = 0; for (unsigned k = 0; k < n; ++k) { CHECK(std::fabs(w0[k] - cur) < 1e-9, "call " << k << ": weight " << w0[k] << " instead of " << cur); double nx = cur >= 1 - 1e-12 ? step : cur + step; cur = nx > 1 - 1e-12 ? 1 : nx; } }
    g.nontrivial(n > 3); g.note("strategy ").note(kind).note(" calls ").note(n).note(" ").note(pbt::strv(w0));
}
PBT(hypervolume_stop, 6000, 60000) {
    std::vector<bool> m(2, true); OV::setup(2, m); V ref{12, 12}; unsigned n = g.size(1, 6); std::vector<V> opt; V flat;
    for (unsigned i = 0; i < n; ++i) { V v{(double)g.range(0, 8), (double)g.range(0, 8)}; bool ok = true; for (auto& o : opt) if (weakly(o, v, m) || dominates(v, o, m)) ok = false; if (ok) opt.push_back(v); }
    for (auto& v : opt) flat.insert(flat.end(), v.begin(), v.end());
    moeoUnboundedArchive<Sol> arch; OV r; r[0] = 12; r[1] = 12; moeoHyperVolumeDifferenceMetric<OV> mt(false, r);
    std::unique_ptr<moeoHypContinue<Sol>> c(g.boolean() ? new moeoHypContinue<Sol>(flat, arch, false, r) : new moeoHypContinue<Sol>(mt, flat, arch));
    eoPop<Sol> none; unsigned k = g.size(1, 8); std::vector<size_t> order; for (size_t i = 0; i < opt.size(); ++i) order.push_back(i);
    auto offer = [&](V v) { OV o; o[0] = v[0]; o[1] = v[1]; arch(Sol(0, o)); std::vector<V> f; for (unsigned i = 0; i < arch.size(); ++i) f.push_back(raw(arch[i].objectiveVector()));
        bool go = (*c)(none), want = hv2(f, ref) != hv2(opt, ref); CHECK(go == want, "continues " << go << " with volume " << hv2(f, ref) << " and optimal volume " << hv2(opt, ref)); };
    for (unsigned i = 0; i < k; ++i) { V v{(double)g.range(0, 9), (double)g.range(0, 9)}; bool above = false; for (auto& o : opt) if (weakly(o, v, m)) above = true; if (above) offer(v); }
    while (!order.empty()) { size_t i = g.draw(order.size() - 1); offer(opt[order[i]]); order.erase(order.begin() + i); }
    CHECK(!(*c)(none), "continues though the archive is the optimal set");
    g.nontrivial(opt.size() > 1); g.note("optimal points ").note(opt.size());
}

// the same with larger sizes
PBT_LARGE(metric_fitness, 60, 600, 10)
PBT_LARGE(achievement, 60, 600, 10)
PBT_LARGE(indexed_archive, 40, 400, 2)
PBT_LARGE(weights, 60, 600, 10)
PBT_LARGE(hypervolume_stop, 60, 600, 10)
