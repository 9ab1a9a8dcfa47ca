// M04: diversity assignments and distances versus their definitions.
#include "moeo_support.hpp"
using namespace sup;
namespace {
typedef std::vector<std::vector<double>> Vecs;
// mode 0: many ties, mode 1: all values of an objective distinct
eoPop<Sol> genPop(pbt::Gen& g, unsigned lo, unsigned hi, bool distinct, unsigned fits) {
    eoPop<Sol> p; unsigned n = g.size(lo, hi); int span = g.oneof({0, 1, 2, 6}); double step = g.oneof({1.0, 0.125, 50.0}), off = g.oneof({0.0, -5.0});
    std::vector<std::vector<int>> perm(OV::nObjectives());
    if (distinct) for (auto& q : perm) { std::vector<int> gap; int x = 0; for (unsigned i = 0; i < n; ++i) { x += g.range(1, 4); q.push_back(x); } for (unsigned i = n; i > 1; --i) std::swap(q[i - 1], q[g.draw(i - 1)]); }
    for (unsigned i = 0; i < n; ++i) {
        OV v; for (unsigned k = 0; k < v.size(); ++k) v[k] = off + step * (distinct ? perm[k][i] : g.range(0, span));
        if (!distinct && i && g.chance(1, 5)) v = p[g.draw(i - 1)].objectiveVector();
        Sol s(i, v); s.fitness(-(double)g.draw(fits)); s.diversity(g.range(-3, 3)); p.push_back(s);
    }
    return p;
}
std::vector<size_t> place(const eoPop<Sol>& p) { std::vector<size_t> r(p.size(), SIZE_MAX); for (size_t i = 0; i < p.size(); ++i) r[p[i].id] = i; for (size_t x : r) if (x == SIZE_MAX) throw pbt::Failure{"a solution disappeared"}; return r; }
const double INF = std::numeric_limits<double>::max();
// checks the crowding of one group (objective vectors and given values)
void crowding(const Vecs& v, const std::vector<double>& d) {
    size_t n = v.size();
    for (double x : d) CHECK(x == x, "diversity is NaN");
    if (n <= 2) { for (double x : d) CHECK(x == INF, "group of " << n << " with finite crowding " << x); return; }
    size_t m = v[0].size(); std::vector<double> lo(n, 0), hi(n, 0); size_t ends = 0;
    for (size_t k = 0; k < m; ++k) {
        std::vector<double> s; for (auto& x : v) s.push_back(x[k]); std::sort(s.begin(), s.end());
        double range = s.back() - s.front(); if (range == 0) range = 2e-6;
        size_t infMin = 0, infMax = 0;
        for (size_t i = 0; i < n; ++i) {
            size_t a = std::lower_bound(s.begin(), s.end(), v[i][k]) - s.begin(), b = std::upper_bound(s.begin(), s.end(), v[i][k]) - s.begin();
            double l = INF, h = 0; for (size_t q = a; q < b; ++q) { double c = (q == 0 || q == n - 1) ? INF : (s[q + 1] - s[q - 1]) / range; l = std::min(l, c); h = std::max(h, c); }
            lo[i] = std::min(INF, lo[i] + l); hi[i] = std::min(INF, hi[i] + h);
            if (d[i] == INF) { if (v[i][k] == s.front()) infMin++; if (v[i][k] == s.back()) infMax++; }
        }
        CHECK(infMin >= 1 && infMax >= 1, "no extreme of objective " << k << " has the greatest crowding");
        if (s.front() == s.back()) CHECK(infMin >= 2, "constant objective with a single extreme");
        ends += 2;
    }
    size_t infs = 0;
    for (size_t i = 0; i < n; ++i) {
        if (d[i] == INF) infs++;
        CHECK(d[i] == INF ? hi[i] == INF : (d[i] >= lo[i] - 1e-9 && d[i] <= hi[i] + 1e-9), "crowding " << d[i] << " of " << pbt::strv(v[i]) << " should lie in [" << lo[i] << "," << hi[i] << "]");
    }
    CHECK(infs <= ends, infs << " extremes for " << m << " objectives");
}
double eu(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
double mh(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i] - b[i]); return s; }
}
PBT(crowding_plain, 15000, 250000) {
    setupObjectives(g, 1, 5); moeoCrowdingDiversityAssignment<Sol> da; bool distinct = g.boolean();
    for (int r = 0; r < 2; ++r) {
        auto p = genPop(g, 0, 12, distinct, 2); auto q = p; da(p); auto at = place(p);
        Vecs v; std::vector<double> d; for (size_t i = 0; i < q.size(); ++i) { const Sol& s = p[at[i]]; CHECK(raw(s.objectiveVector()) == raw(q[i].objectiveVector()) && s.fitness() == q[i].fitness(), "a solution was altered"); v.push_back(raw(s.objectiveVector())); d.push_back(s.diversity()); }
        if (v.size()) crowding(v, d);
        g.nontrivial(p.size() > 2); if (!r) g.note("n=").note(p.size()).note(distinct ? " distinct" : " ties").note(" objectives=").note(OV::nObjectives());
    }
}
PBT(crowding_fronts, 15000, 250000) {
    setupObjectives(g, 1, 5); moeoFrontByFrontCrowdingDiversityAssignment<Sol> da; bool distinct = g.boolean(); unsigned fits = g.oneof({0, 1, 3});
    for (int r = 0; r < 2; ++r) {
        auto p = genPop(g, 0, 14, distinct, fits); auto q = p; da(p); auto at = place(p);
        std::map<double, std::pair<Vecs, std::vector<double>>> fr;
        for (size_t i = 0; i < q.size(); ++i) { const Sol& s = p[at[i]]; CHECK(raw(s.objectiveVector()) == raw(q[i].objectiveVector()) && s.fitness() == q[i].fitness(), "a solution was altered"); fr[s.fitness()].first.push_back(raw(s.objectiveVector())); fr[s.fitness()].second.push_back(s.diversity()); }
        for (auto& f : fr) crowding(f.second.first, f.second.second);
        g.nontrivial(p.size() > 2 && (fr.size() > 1 || !fits)); if (!r) g.note("n=").note(p.size()).note(" fronts=").note(fr.size());
    }
}
PBT(sharing, 15000, 200000) {
    auto m = setupObjectives(g, 1, 4); int dk = g.draw(3); bool fbf = g.boolean(), defs = g.chance(1, 5); double niche = g.oneof({0.5, 1.0, 3.0, 1000.0}), alpha = g.oneof({1.0, 2.0, 0.5});
    moeoEuclideanDistance<Sol> e; moeoManhattanDistance<Sol> h; std::vector<eoRealInterval> bs; for (size_t i = 0; i < m.size(); ++i) bs.push_back(eoRealInterval(0, 2 << i));
    moeoObjectiveVectorNormalizer<Sol> nb(bs, 10); moeoEuclideanDistance<Sol> en(nb); moeoManhattanDistance<Sol> hn(nb);
    auto nrm = [&](std::vector<double> v) { for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 10 / (2 << i); return v; };
    auto D = [&](const std::vector<double>& a, const std::vector<double>& b) { switch (dk) { case 0: return eu(a, b); case 1: return mh(a, b); case 2: return eu(nrm(a), nrm(b)); default: return mh(nrm(a), nrm(b)); } };
    moeoDistance<Sol, double>* ds[4] = {&e, &h, &en, &hn}; std::unique_ptr<moeoSharingDiversityAssignment<Sol>> da;
    if (defs) { dk = 0; niche = 0.5; alpha = fbf ? 2 : 1; }
    if (fbf) { typedef moeoFrontByFrontSharingDiversityAssignment<Sol> A; da.reset(defs ? (g.boolean() ? new A() : new A(*ds[0])) : dk == 0 && g.boolean() ? new A(niche, alpha) : new A(*ds[dk], niche, alpha)); }
    else { typedef moeoSharingDiversityAssignment<Sol> A; da.reset(defs ? (g.boolean() ? new A() : new A(*ds[0])) : dk == 0 && g.boolean() ? new A(niche, alpha) : new A(*ds[dk], niche, alpha)); }
    for (int r = 0; r < 2; ++r) {
        auto p = genPop(g, 1, 10, false, 2); size_t n = p.size(); Vecs v; for (auto& s : p) v.push_back(raw(s.objectiveVector()));
        (*da)(p); CHECK(p.size() == n, "size changed");
        std::vector<double> sum(n, 0); bool edge = false, share = false;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (fbf && p[i].fitness() != p[j].fitness()) continue; double d = D(v[i], v[j]); if (d < niche) { sum[i] += 1 - std::pow(d / niche, alpha); if (i != j) share = true; } }
        double mx = *std::max_element(sum.begin(), sum.end());
        for (size_t i = 0; i < n; ++i) { CHECK(raw(p[i].objectiveVector()) == v[i], "order changed"); CHECK(std::fabs(p[i].diversity() - (mx - sum[i])) < 1e-7, "niche count: diversity " << p[i].diversity() << " instead of " << mx - sum[i]); }
        g.nontrivial(share); if (!r) g.note("n=").note(n).note(" niche=").note(niche).note(" distance=").note(dk).note(fbf ? " by front" : "");
    }
}
PBT(nearest_neighbour, 12000, 150000) {
    setupObjectives(g, 1, 4); moeoUnboundedArchive<Sol> arch; bool useArch = g.boolean(), useDist = g.boolean(); unsigned k = g.range(1, 5); moeoManhattanDistance<Sol> h;
    typedef moeoNearestNeighborDiversityAssignment<Sol> A; bool def = k == 1 && g.boolean();
    std::unique_ptr<A> da(useArch ? (useDist ? (def ? new A(h, arch) : new A(h, arch, k)) : (def ? new A(arch) : new A(arch, k))) : (useDist ? (def ? new A(h) : new A(h, k)) : (def ? new A() : new A(k))));
    for (int r = 0; r < 2; ++r) {
        auto p = genPop(g, 0, 10, false, 2); arch.clear(); if (useArch) for (auto& s : genPop(g, 0, 5, false, 0)) arch.push_back(s);
        size_t n = p.size() + arch.size(); if (n == 1) p.push_back(p.empty() ? arch[0] : p[0]), n = 2;
        Vecs v; for (auto& s : p) v.push_back(raw(s.objectiveVector())); for (auto& s : arch) v.push_back(raw(s.objectiveVector()));
        (*da)(p); CHECK(p.size() + arch.size() == n, "sizes changed");
        for (size_t i = 0; i < n; ++i) {
            std::vector<double> d; for (size_t j = 0; j < n; ++j) if (j != i) d.push_back(useDist ? mh(v[i], v[j]) : eu(v[i], v[j])); std::sort(d.begin(), d.end());
            double x = d[std::min<size_t>(k, d.size()) - 1]; const Sol& s = i < p.size() ? p[i] : arch[i - p.size()];
            CHECK(std::fabs(s.diversity() + 1 / (2 + x)) < 1e-9, "k=" << k << " nearest distance " << x << " diversity " << s.diversity());
        }
        g.nontrivial(n > 2); if (!r) g.note("n=").note(n).note(" archive=").note(arch.size()).note(" k=").note(k);
    }
}
PBT(distances, 12000, 150000) {
    auto m = setupObjectives(g, 1, 5); OV a = genOV(g, 9), b = genOV(g, 9); Sol sa(0, a), sb(1, b); size_t n = m.size();
    double mx = g.oneof({100.0, 1.0, 7.0}); std::vector<double> lo(n), hi(n);
    std::unique_ptr<moeoObjectiveVectorNormalizer<Sol>> no; std::vector<eoRealInterval> bs; eoRealInterval one; eoPop<Sol> p; OV best, worst; int kind = g.draw(8);
    int l0 = g.range(-4, 4), r0 = g.range(1, 9); bool dm = mx == 100 && g.boolean();
    for (size_t i = 0; i < n; ++i) { int l = g.range(-4, 4), r = g.range(1, 9); lo[i] = l; hi[i] = l + r; bs.push_back(eoRealInterval(l, l + r)); best[i] = l; worst[i] = l + r; }
    bool flat = (kind == 3 || kind == 6) && g.chance(1, 3); if (flat) { size_t i = g.draw(n - 1); worst[i] = best[i]; hi[i] = lo[i] + mx; }
    one = eoRealInterval(l0, l0 + r0);
    p = genPop(g, 1, 6, false, 0); auto fromPop = [&] { for (size_t i = 0; i < n; ++i) { lo[i] = hi[i] = p[0].objectiveVector()[i]; for (auto& s : p) lo[i] = std::min(lo[i], s.objectiveVector()[i]), hi[i] = std::max(hi[i], s.objectiveVector()[i]); if (lo[i] == hi[i]) hi[i] = lo[i] + mx; } };
    typedef moeoObjectiveVectorNormalizer<Sol> N;
    switch (kind) {
    case 0: no.reset(new N()); for (size_t i = 0; i < n; ++i) lo[i] = 0, hi[i] = mx; break; // identity
    case 1: no.reset(dm ? new N(bs) : new N(bs, mx)); break;
    case 2: no.reset(dm ? new N(one) : new N(one, mx)); for (size_t i = 0; i < n; ++i) lo[i] = l0, hi[i] = l0 + r0; break;
    case 3: no.reset(dm ? new N(best, worst) : new N(best, worst, mx)); break;
    case 4: no.reset(dm ? new N(p) : new N(p, mx)); fromPop(); break;
    case 5: no.reset(new N(best, worst, mx)); no->update_by_pop(p); fromPop(); break;
    case 6: no.reset(new N(p, mx)); no->update_by_min_max(best, worst); break;
    case 7: no.reset(new N(p, mx)); no->update_by_bounds(bs); break;
    case 8: no.reset(new N(p, mx)); no->update_by_bounds(one); for (size_t i = 0; i < n; ++i) lo[i] = l0, hi[i] = l0 + r0; break;
    }
    auto nv = [&](const std::vector<double>& v) { auto r = v; for (size_t i = 0; i < n; ++i) r[i] = (v[i] - lo[i]) * mx / (hi[i] - lo[i]); return r; };
    auto x = nv(raw(a)), y = nv(raw(b)); OV na = (*no)(a);
    for (size_t i = 0; i < n; ++i) CHECK_NEAR(na[i], x[i], "normaliser kind " << kind << " component " << i);
    moeoEuclideanDistance<Sol> e_, en_(*no); moeoManhattanDistance<Sol> h_, hn_(*no); moeoDistance<Sol, double>&e = e_, &en = en_, &h = h_, &hn = hn_;
    CHECK_NEAR(e(sa, sb), eu(raw(a), raw(b)), "Euclidean distance"); CHECK_NEAR(h(sa, sb), mh(raw(a), raw(b)), "Manhattan distance");
    CHECK_NEAR(en(sa, sb), eu(x, y), "normalised Euclidean distance"); CHECK_NEAR(hn(sa, sb), mh(x, y), "normalised Manhattan distance");
    CHECK_NEAR(en_(a, b), eu(x, y), "normalised Euclidean distance of vectors"); CHECK(e(sa, sa) == 0 && h(sa, sa) == 0 && e(sb, sa) == e(sa, sb), "metric axioms");
    if (kind == 1) { double m2 = 3; no->change_max(m2); mx = m2; x = nv(raw(a)); na = (*no)(a); for (size_t i = 0; i < n; ++i) CHECK_NEAR(na[i], x[i], "normaliser after change_max"); CHECK_NEAR(en(sa, sb), eu(x, nv(raw(b))), "distance with a changed normaliser"); }
    moeoDistanceMatrix<Sol, double> dm2(p.size(), e_); dm2(p);
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) CHECK_NEAR(dm2[i][j], eu(raw(p[i].objectiveVector()), raw(p[j].objectiveVector())), "distance matrix");
    g.nontrivial(raw(a) != raw(b)); g.note(pbt::strv(raw(a))).note(pbt::strv(raw(b))).note(" normaliser ").note(kind);
}
PBT(dummy, 2000, 20000) {
    setupObjectives(g, 1, 3); auto p = genPop(g, 0, 8, false, 2); std::vector<double> e;
    for (auto& s : p) { if (g.boolean()) { s.invalidateDiversity(); e.push_back(0); } else e.push_back(s.diversity()); }
    moeoDummyDiversityAssignment<Sol> d; d(p); for (size_t i = 0; i < p.size(); ++i) CHECK(p[i].diversity() == e[i], "dummy diversity");
    g.nontrivial(p.size() > 1); g.note("n=").note(p.size());
}

// the same with larger sizes
PBT_LARGE(crowding_plain, 60, 600, 10)
PBT_LARGE(crowding_fronts, 60, 600, 10)
PBT_LARGE(sharing, 60, 600, 10)
PBT_LARGE(nearest_neighbour, 60, 600, 10)
PBT_LARGE(distances, 60, 600, 10)
PBT_LARGE(dummy, 50, 500, 10)
