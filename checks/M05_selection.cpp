// M05: multi-objective selection and replacement.
#include "moeo_support.hpp"
using namespace sup;
namespace {
eoPop<Sol> genPop(pbt::Gen& g, unsigned lo, unsigned hi, int base, int levels, bool nonneg = false) {
    eoPop<Sol> p; unsigned n = g.size(lo, hi);
    for (unsigned i = 0; i < n; ++i) { Sol s(base + i, genOV(g, 3)); s.fitness(nonneg ? g.range(0, levels) : g.range(-levels, levels)); s.diversity(g.range(-1, 1)); s.flag(g.oneof({0, 0, 1, -1})); p.push_back(s); }
    return p;
}
struct ById : moeoComparator<Sol> { bool operator()(const Sol& a, const Sol& b) { return a.id < b.id; } };
// classes of equivalent members, best last; returns class index of each member and class sizes
std::vector<unsigned> classes(const eoPop<Sol>& p, moeoComparator<Sol>& c, std::vector<double>& size) {
    std::vector<unsigned> idx(p.size()), cls(p.size()); for (unsigned i = 0; i < p.size(); ++i) idx[i] = i;
    std::sort(idx.begin(), idx.end(), [&](unsigned a, unsigned b) { return c(p[a], p[b]); }); size.clear();
    for (size_t k = 0; k < idx.size(); ++k) { if (k == 0 || c(p[idx[k - 1]], p[idx[k]])) size.push_back(0); size.back()++; cls[idx[k]] = size.size() - 1; }
    return cls;
}
size_t member(const eoPop<Sol>& p, const Sol& s) { CHECK(&s >= &p[0] && &s < &p[0] + p.size(), "the selected solution is not a member"); return &s - &p[0]; }
}
PBT(tournaments, 1500, 15000) {
    setupObjectives(g, 1, 2); auto p = genPop(g, 1, 8, 0, g.oneof({0, 1, 3})); auto before = p; moeoFitnessThenDiversityComparator<Sol> fd; moeoDiversityThenFitnessComparator<Sol> df; moeoFitnessComparator<Sol> f; ById bi;
    moeoComparator<Sol>* cs[] = {&fd, &df, &f, &bi}; unsigned ci = g.draw(3); moeoComparator<Sol>& c = *cs[ci]; std::vector<double> sz; double n = p.size(); 
    bool det = g.boolean(); unsigned t = g.oneof({2, 1, 3, 5, 12}); double rate = g.oneof({1.0, 0.5, 0.75, 0.2, 0.9}); bool def = g.chance(1, 3);
    std::unique_ptr<moeoSelectOne<Sol>> s;
    if (det) { if (def) { ci = 0; s.reset(t == 2 ? new moeoDetTournamentSelect<Sol>() : new moeoDetTournamentSelect<Sol>(t)); } else s.reset(new moeoDetTournamentSelect<Sol>(c, t)); if (t < 2) t = 2; }
    else { if (def) { ci = 0; s.reset(rate == 1 ? new moeoStochTournamentSelect<Sol>() : new moeoStochTournamentSelect<Sol>(rate)); } else s.reset(new moeoStochTournamentSelect<Sol>(c, rate)); if (rate < 0.5) rate = 0.55; }
    auto cls = classes(p, *cs[ci], sz); std::vector<double> pr; double worse = 0;
    for (double k : sz) { if (det) pr.push_back(std::pow((worse + k) / n, t) - std::pow(worse / n, t)); else pr.push_back((k / n) * (k / n) + 2 * k / n * (worse / n * rate + (n - worse - k) / n * (1 - rate))); worse += k; }
    std::vector<unsigned> cnt(sz.size(), 0), mem(p.size(), 0); s->setup(p);
    for (int i = 0; i < 3000; ++i) { size_t m = member(p, (*s)(p)); cnt[cls[m]]++; mem[m]++; }
    checkFreq(pr, cnt, det ? "deterministic tournament of " + std::to_string(t) + ", classes from worst to best" : "stochastic tournament " + std::to_string(rate) + ", classes from worst to best");
    std::vector<double> mp; for (size_t i = 0; i < p.size(); ++i) mp.push_back(pr[cls[i]] / sz[cls[i]]); checkFreq(mp, mem, "members of a class share its probability");
    g.nontrivial(sz.size() > 1); g.note(det ? "deterministic " : "stochastic ").note(det ? (double)t : rate).note(" n=").note(n).note(" classes=").note(sz.size());
}
PBT(random_roulette_mixed, 1200, 12000) {
    setupObjectives(g, 1, 2); auto p = genPop(g, 1, 7, 0, g.oneof({0, 1, 4}), true); auto a = genPop(g, 0, 5, 100, 3, true); double n = p.size(); int kind = g.draw(2);
    moeoUnboundedArchive<Sol> arch; for (auto& s : a) arch.push_back(s); moeoRandomSelect<Sol> rs; ById bi; moeoDetTournamentSelect<Sol> ts(bi, 2); moeoRouletteSelect<Sol> ro; double ratio = g.oneof({0.5, 0.0, 1.0, 0.3});
    std::vector<double> pr(p.size() + arch.size(), 0); std::unique_ptr<moeoSelectFromPopAndArch<Sol>> fa; moeoSelectOne<Sol>* s = &rs;
    if (kind == 0) for (size_t i = 0; i < p.size(); ++i) pr[i] = 1 / n;
    else if (kind == 1) { s = &ro; double t = 0; for (auto& x : p) t += x.fitness(); for (size_t i = 0; i < p.size(); ++i) pr[i] = t > 0 ? p[i].fitness() / t : 1 / n; }
    else { bool three = g.boolean(); fa.reset(three ? new moeoSelectFromPopAndArch<Sol>(rs, ts, arch, ratio) : ratio == 0.5 ? new moeoSelectFromPopAndArch<Sol>(rs, arch) : new moeoSelectFromPopAndArch<Sol>(rs, arch, ratio)); s = fa.get(); double r = arch.empty() ? 1 : ratio, m = arch.size();
        for (size_t i = 0; i < p.size(); ++i) pr[i] = r / n; for (size_t i = 0; i < arch.size(); ++i) pr[p.size() + i] = (1 - r) * (three ? ((i + 1) * (i + 1) - i * i) / (m * m) : 1 / m); }
    std::vector<unsigned> cnt(pr.size(), 0); s->setup(p);
    for (int i = 0; i < 3000; ++i) { const Sol& x = (*s)(p); bool in = x.id < 100; cnt[in ? member(p, x) : p.size() + member(arch, x)]++; }
    checkFreq(pr, cnt, kind == 0 ? "random selection" : kind == 1 ? "roulette" : "selection from population and archive");
    g.nontrivial(p.size() > 1); g.note("kind ").note(kind).note(" n=").note(n).note(" archive=").note(arch.size());
}
PBT(archive_and_unvisited, 8000, 80000) {
    setupObjectives(g, 1, 2); auto p = genPop(g, 0, 9, 0, 2); std::vector<unsigned> un; for (unsigned i = 0; i < p.size(); ++i) if (p[i].flag() == 0) un.push_back(i);
    moeoExhaustiveUnvisitedSelect<Sol> ex; CHECK(ex(p) == un, "all unvisited members, in order");
    unsigned k = g.draw(6); moeoNumberUnvisitedSelect<Sol> nu(k); auto r = nu(p); std::set<unsigned> u(r.begin(), r.end());
    CHECK(r.size() == std::min<size_t>(k, un.size()) && u.size() == r.size(), r.size() << " indices for " << k << " of " << un.size() << " unvisited"); for (unsigned x : r) CHECK(std::find(un.begin(), un.end(), x) != un.end(), "index " << x << " is not an unvisited member");
    if (k >= un.size()) CHECK(r == un, "all unvisited when few");
    for (size_t i = 0; i < p.size(); ++i) CHECK(p[i].id == (int)i, "population reordered");
    moeoUnboundedArchive<Sol> arch; for (auto& s : genPop(g, 0, 8, 100, 2)) arch.push_back(s); unsigned mx = g.draw(7), mn = g.draw(7); bool def = mn == 0 && g.boolean();
    eoPop<Sol> dest = genPop(g, 0, 3, 500, 1); auto d0 = dest; std::unique_ptr<moeoDetArchiveSelect<Sol>> ds(def ? new moeoDetArchiveSelect<Sol>(arch, mx) : new moeoDetArchiveSelect<Sol>(arch, mx, mn)); (*ds)(p, dest); size_t n = arch.size();
    std::multiset<int> ids; for (auto& s : dest) ids.insert(s.id);
    if (mx < mn) { CHECK(dest.size() == d0.size(), "inconsistent bounds must change nothing"); for (size_t i = 0; i < dest.size(); ++i) CHECK(dest[i].id == d0[i].id, "inconsistent bounds must change nothing"); }
    else if (n == 0) CHECK(dest.empty(), "selection from an empty archive");
    else { CHECK(dest.size() == std::min<size_t>(mx, std::max<size_t>(mn, n)), dest.size() << " selected for [" << mn << "," << mx << "] from " << n); size_t lo = dest.size() / n, hi = (dest.size() + n - 1) / n; for (auto& s : arch) { size_t c = ids.count(s.id); CHECK(c >= lo && c <= hi, "archive member taken " << c << " times, " << dest.size() << " selected from " << n); ids.erase(s.id); } CHECK(ids.empty(), "selected something out of the archive"); }
    g.nontrivial(un.size() > k || n > mx || n < mn); g.note("unvisited ").note(un.size()).note(" of ").note(p.size()).note(" archive ").note(n).note(" [").note(mn).note(",").note(mx).note("]");
}
// which of more than the maximum is taken must not favour a position
PBT(unbiased_subsets, 300, 3000) {
    setupObjectives(g, 1, 1); unsigned n = g.range(2, 6), k = g.range<unsigned>(1, n - 1); eoPop<Sol> p; moeoUnboundedArchive<Sol> arch; for (unsigned i = 0; i < n; ++i) { Sol s(i, genOV(g, 3)); p.push_back(s); arch.push_back(s); }
    moeoNumberUnvisitedSelect<Sol> nu(k); moeoDetArchiveSelect<Sol> ds(arch, k); std::vector<unsigned> a(n, 0), b(n, 0); const unsigned N = 3000;
    for (unsigned i = 0; i < N; ++i) { for (unsigned x : nu(p)) a[x]++; eoPop<Sol> d; ds(p, d); for (auto& s : d) b[s.id]++; }
    for (unsigned i = 0; i < n; ++i) for (auto* c : {&a, &b}) { double pr = (double)k / n, e = N * pr; CHECK(std::fabs((*c)[i] - e) < 7 * std::sqrt(e * (1 - pr)) + 6, (c == &a ? "unvisited" : "archive") << " selection of " << k << " out of " << n << " takes member " << i << " " << (*c)[i] << " times of " << N); }
    g.nontrivial(true); g.note(k).note(" of ").note(n);
}
namespace {
// fitness and diversity imposed from tables indexed by identity
struct TabFit : moeoFitnessAssignment<Sol> {
    std::map<int, double> f; std::map<std::vector<double>, double> w; unsigned calls = 0, updates = 0; size_t seen = 0;
    void operator()(eoPop<Sol>& p) { ++calls; seen = p.size(); for (auto& s : p) s.fitness(f.at(s.id)); }
    void updateByDeleting(eoPop<Sol>& p, OV& o) { ++updates; double d = w.at(raw(o)); for (auto& s : p) s.fitness(s.fitness() + d * (1 + s.id % 3)); }
    using moeoFitnessAssignment<Sol>::updateByDeleting;
};
struct TabDiv : moeoDiversityAssignment<Sol> {
    std::map<int, double> f; unsigned calls = 0, updates = 0;
    void operator()(eoPop<Sol>& p) { ++calls; for (auto& s : p) s.diversity(f.at(s.id)); }
    void updateByDeleting(eoPop<Sol>& p, OV&) { ++updates; for (auto& s : p) s.diversity(s.diversity() - s.id % 2); }
    using moeoDiversityAssignment<Sol>::updateByDeleting;
};
void ids(const eoPop<Sol>& p, const eoPop<Sol>& src, const char* what) { std::set<int> all, got; for (auto& s : src) all.insert(s.id); for (auto& s : p) { CHECK(all.count(s.id), what << ": a solution was invented"); CHECK(got.insert(s.id).second, what << ": a solution was duplicated"); } }
}
PBT(elitist, 10000, 120000) {
    setupObjectives(g, 1, 2); auto par = genPop(g, 0, 7, 0, 1), off = genPop(g, 0, 7, 100, 1), all = par; for (auto& s : off) all.push_back(s); size_t sz = par.size();
    TabFit tf; TabDiv td; int lv = g.oneof({0, 1, 3, 10}); for (auto& s : all) { tf.f[s.id] = g.range(-lv, lv); td.f[s.id] = g.range(-1, 1); }
    moeoDiversityThenFitnessComparator<Sol> df; bool useD = g.boolean(), useC = g.boolean(); std::unique_ptr<moeoElitistReplacement<Sol>> r(useD ? (useC ? new moeoElitistReplacement<Sol>(tf, td, df) : new moeoElitistReplacement<Sol>(tf, td)) : (useC ? new moeoElitistReplacement<Sol>(tf, df) : new moeoElitistReplacement<Sol>(tf)));
    if (!useD) for (auto& s : all) { if (g.chance(1, 4)) { for (auto& x : par) if (x.id == s.id) x.invalidateDiversity(); for (auto& x : off) if (x.id == s.id) x.invalidateDiversity(); td.f[s.id] = 0; } else td.f[s.id] = s.diversity(); }
    (*r)(par, off);
    CHECK(par.size() == sz && off.empty(), "sizes " << par.size() << " and " << off.size() << " after replacement of " << sz); ids(par, all, "elitist replacement");
    CHECK(tf.calls == 1 && tf.seen == all.size() && td.calls == (useD ? 1 : 0), "assignments called on parents and offspring together");
    auto key = [&](int id) { auto k = std::make_pair(tf.f[id], td.f[id]); if (useC) std::swap(k.first, k.second); return k; };
    std::vector<std::pair<double, double>> want, got; for (auto& s : all) want.push_back(key(s.id)); std::sort(want.rbegin(), want.rend()); want.resize(sz); for (auto& s : par) got.push_back(key(s.id));
    CHECK(got == want, "the survivors are not the best, or not sorted from the best");
    for (auto& s : par) CHECK(s.fitness() == tf.f[s.id] && s.diversity() == td.f[s.id], "survivor altered");
    g.nontrivial(sz > 0 && all.size() > sz); g.note("parents ").note(sz).note(" offspring ").note(all.size() - sz);
}
PBT(environmental, 10000, 120000) {
    setupObjectives(g, 1, 2); auto par = genPop(g, 0, 6, 0, 1), off = genPop(g, 0, 7, 100, 1), all = par; for (auto& s : off) all.push_back(s); size_t sz = par.size();
    TabFit tf; TabDiv td; int lv = g.oneof({1, 3, 40}); for (auto& s : all) { tf.f[s.id] = g.range(-lv, lv); td.f[s.id] = g.range(-9, 9); tf.w[raw(s.objectiveVector())] = 0.5 * g.range(-4, 4); }
    moeoDiversityThenFitnessComparator<Sol> df; bool useD = g.boolean(), useC = g.boolean(); std::unique_ptr<moeoEnvironmentalReplacement<Sol>> r(useD ? (useC ? new moeoEnvironmentalReplacement<Sol>(tf, td, df) : new moeoEnvironmentalReplacement<Sol>(tf, td)) : (useC ? new moeoEnvironmentalReplacement<Sol>(tf, df) : new moeoEnvironmentalReplacement<Sol>(tf)));
    if (!useD) for (auto& s : all) td.f[s.id] = s.diversity();
    // model: remove the worst, update, again
    auto M = all; for (auto& s : M) { s.fitness(tf.f[s.id]); s.diversity(td.f[s.id]); } bool tie = false; auto key = [&](const Sol& s) { return useC ? std::make_pair(s.diversity(), s.fitness()) : std::make_pair(s.fitness(), s.diversity()); };
    unsigned removed = 0; while (M.size() > sz) { size_t w = 0; for (size_t i = 1; i < M.size(); ++i) if (key(M[i]) < key(M[w])) w = i; for (size_t i = 0; i < M.size(); ++i) if (i != w && key(M[i]) == key(M[w])) tie = true; double d = tf.w[raw(M[w].objectiveVector())]; M.erase(M.begin() + w); ++removed; for (auto& s : M) { s.fitness(s.fitness() + d * (1 + s.id % 3)); if (useD) s.diversity(s.diversity() - s.id % 2); } }
    (*r)(par, off);
    CHECK(par.size() == sz && off.empty(), "sizes after replacement"); ids(par, all, "environmental replacement"); CHECK(tf.calls == 1 && tf.seen == all.size() && tf.updates == removed && td.updates == (useD ? removed : 0), "assignment once and one update per removal");
    if (!tie) { std::map<int, std::pair<double, double>> a, b; for (auto& s : M) a[s.id] = {s.fitness(), s.diversity()}; for (auto& s : par) b[s.id] = {s.fitness(), s.diversity()}; CHECK(a == b, "another individual than the worst was removed, or the values are not the updated ones"); }
    g.nontrivial(removed > 1 && !tie); g.note("removed ").note(removed).note(" of ").note(all.size());
}
PBT(generational, 3000, 30000) {
    setupObjectives(g, 1, 2); auto par = genPop(g, 0, 6, 0, 1), off = genPop(g, 0, 6, 100, 1), o = off; moeoGenerationalReplacement<Sol> r; r(par, off);
    CHECK(par.size() == o.size(), "all offspring"); for (size_t i = 0; i < o.size(); ++i) CHECK(par[i].id == o[i].id, "offspring in order");
    g.nontrivial(o.size() > 1); g.note("offspring ").note(o.size());
}
// with a real assignment: the replaced population is never behind the parents
PBT(elitist_with_fronts, 6000, 60000) {
    auto m = setupObjectives(g, 1, 3); auto par = genPop(g, 1, 7, 0, 1), off = genPop(g, 0, 7, 100, 1), all = par; for (auto& s : off) all.push_back(s); size_t sz = par.size();
    moeoDominanceDepthFitnessAssignment<Sol> fa; moeoFrontByFrontCrowdingDiversityAssignment<Sol> da; moeoElitistReplacement<Sol> r(fa, da); r(par, off);
    CHECK(par.size() == sz, "size"); ids(par, all, "NSGA-II style replacement"); std::set<int> kept; for (auto& s : par) kept.insert(s.id);
    for (auto& s : all) if (!kept.count(s.id)) for (auto& k : par) CHECK(!dominates(raw(s.objectiveVector()), raw(k.objectiveVector()), m), "dropped " << pbt::strv(raw(s.objectiveVector())) << " while keeping the dominated " << pbt::strv(raw(k.objectiveVector())));
    g.nontrivial(all.size() > sz); g.note("parents ").note(sz).note(" offspring ").note(all.size() - sz);
}

// the same with larger sizes
PBT_LARGE(tournaments, 37, 375, 10)
PBT_LARGE(random_roulette_mixed, 30, 300, 10)
PBT_LARGE(archive_and_unvisited, 60, 600, 10)
PBT_LARGE(unbiased_subsets, 10, 100, 10)
PBT_LARGE(elitist, 60, 600, 10)
PBT_LARGE(environmental, 60, 600, 10)
PBT_LARGE(generational, 60, 600, 10)
PBT_LARGE(elitist_with_fronts, 60, 600, 10)
