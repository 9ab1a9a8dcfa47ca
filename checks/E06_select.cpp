// E06: selection favours the fit exactly as configured.
#include "ind_support.hpp"
#include <eoStochasticUniversalSelect.h>
#include <eoRankMuSelect.h>
#include <eoSelectPerc.h>
#include <eoSelectNumber.h>
#include <eoTruncSelect.h>
#include <eoTruncatedSelectOne.h>
#include <eoTruncatedSelectMany.h>
#include <eoSharingSelect.h>
#include <eoFitnessScalingSelect.h>
using namespace sup;
const unsigned N = 3000;
template <class I> struct IdDistance : public eoDistance<I> { double operator()(const I& a, const I& b) { return std::abs(a.id - b.id); } };

// exact selection probabilities per individual
template <class I> std::vector<double> pDetTournament(const eoPop<I>& p, unsigned t) {
    size_t n = p.size(); std::vector<double> r(n); for (size_t i = 0; i < n; ++i) { double le = 0, lt = 0, eq = 0; for (auto& x : p) { if (!better<I>(val(x), val(p[i]))) le++; if (better<I>(val(p[i]), val(x))) lt++; if (val(x) == val(p[i])) eq++; } r[i] = (std::pow(le / n, t) - std::pow(lt / n, t)) / eq; } return r;
}
template <class I> std::vector<double> pStoch(const eoPop<I>& p, double rate, bool inverse) {
    size_t n = p.size(); std::vector<double> r(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double w = 1.0 / n / n; if (val(p[i]) == val(p[j])) { r[i] += w / 2; r[j] += w / 2; continue; } bool iBetter = better<I>(val(p[i]), val(p[j])); size_t b = iBetter ? i : j, o = iBetter ? j : i; if (inverse) std::swap(b, o); r[b] += w * rate; r[o] += w * (1 - rate); } return r;
}
template <class I> std::vector<double> pInvDet(const eoPop<I>& p, unsigned t) {
    size_t n = p.size(); std::vector<double> s(n, 1.0 / n); if (n == 1) return s; for (unsigned k = 1; k < t; ++k) { std::vector<double> q(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) { if (better<I>(val(p[i]), val(p[j]))) q[j] += s[i] / (n - 1); else q[i] += s[i] / (n - 1); } s = q; } return s;
}
std::vector<double> normalise(std::vector<double> w) { double s = 0; for (double x : w) s += x; for (double& x : w) x = s > 0 ? x / s : 1.0 / w.size(); return w; }
template <class I> std::vector<double> wRanking(const eoPop<I>& p, double pr, double e) { double n = p.size(); std::vector<double> w; for (auto& x : p) { double rank = 0; for (auto& y : p) rank += better<I>(val(y), val(x)); double beta = (2 - pr) / n; w.push_back(e == 1 ? (2 * pr - 2) / (n * (n - 1)) * (n - rank) + beta : (2 * pr - 2) / n * std::pow((n - rank) / n, e) + beta); } return w; }
template <class I> std::vector<double> wScaling(const eoPop<I>& p, double pr) { double n = p.size(), best = val(p[0]), avg = 0; for (auto& x : p) { avg += val(x) / n; if (better<I>(val(x), best)) best = val(x); } std::vector<double> w; for (auto& x : p) w.push_back(std::fabs(best - avg) < 1e-12 ? 1 / n : std::max(0.0, ((pr - 1) * val(x) + best - pr * avg) / (n * (best - avg)))); return w; }
template <class I> std::vector<double> wSharing(const eoPop<I>& p, double niche) { std::vector<double> w; for (auto& x : p) { double s = 0; for (auto& y : p) { double d = std::abs(x.id - y.id); s += d > niche ? 0 : 1 - d / niche; } w.push_back(val(x) / s); } return w; }

template <class I> struct Worths : public eoPerf2Worth<I> { std::vector<double> w; void operator()(const eoPop<I>&) { this->value() = w; } };

template <class I> void frequencies(pbt::Gen& g, int kind) {
    Silence q; bool prop = kind == 3 || kind == 4 || kind == 6 || kind == 10; if (prop && minimising<I>()) kind = 0; size_t n = g.range<size_t>(kind == 4 || kind == 5 || kind == 6 || kind == 9 ? 2 : 1, 7); eoPop<I> pop = genPop<I>(g, n, 0, kind == 4 || kind == 9, kind == 3 || kind == 6 || kind == 10);
    if ((kind == 3 || kind == 10) && g.chance(1, 3)) pop[g.draw(n - 1)].fitness(0.0);
    std::unique_ptr<eoSelectOne<I>> sel; std::vector<double> p; unsigned t = g.oneof({2u, 3u, 7u, 1u, 0u}); double rate = g.oneof({1.0, 0.75, 0.5, 0.2, 1.5}), pr = g.oneof({2.0, 1.5, 1.1}), e = g.oneof({1.0, 2.0, 0.5}); IdDistance<I> dist; Worths<I> wo; const char* what = "";
    switch (kind) {
        case 0: sel.reset(new eoDetTournamentSelect<I>(t)); p = pDetTournament(pop, std::max(2u, t)); what = "deterministic tournament"; break;
        case 1: sel.reset(new eoStochTournamentSelect<I>(rate)); p = pStoch(pop, rate < 0.5 ? 0.55 : std::min(1.0, rate), false); what = "stochastic tournament"; break;
        case 2: sel.reset(new eoRandomSelect<I>); p.assign(n, 1.0 / n); what = "random"; break;
        case 3: if constexpr (!minimising<I>()) { sel.reset(new eoProportionalSelect<I>); double s = 0; for (auto& x : pop) s += val(x); if (s == 0) g.discard(); p = normalise(vals(pop)); } what = "proportional"; break;
        case 4: case 9: sel.reset(new eoRankingSelect<I>(pr, e)); p = normalise(wRanking(pop, pr, e)); what = "ranking"; break;
        case 5: sel.reset(new eoFitnessScalingSelect<I>(pr)); p = normalise(wScaling(pop, pr)); what = "linear scaling"; break;
        case 6: { double niche = g.oneof({1.0, 2.5, 10.0}); sel.reset(new eoSharingSelect<I>(niche, dist)); p = normalise(wSharing(pop, niche)); what = "sharing"; break; }
        case 7: case 8: { for (size_t i = 0; i < n; ++i) wo.w.push_back(g.range(0, 4)); eoPop<Max> wp; for (double x : wo.w) wp.push_back(Max(0, x)); if (kind == 7) { sel.reset(new eoDetTournamentWorthSelect<I>(wo, t = std::max(2u, t))); p = pDetTournament(wp, t); } else { rate = std::min(1.0, rate); sel.reset(new eoStochTournamentWorthSelect<I>(wo, rate)); p = pStoch(wp, rate, false); } what = "tournament on worths"; break; }
        case 10: { for (size_t i = 0; i < n; ++i) wo.w.push_back(g.range(0, 3)); sel.reset(new eoRouletteWorthSelect<I>(wo)); p = normalise(wo.w); what = "roulette on worths"; break; }
        default: { sel.reset(new eoDetTournamentSelect<I>(2)); p = pDetTournament(pop, 2); }
    }
    g.label("selector", what); g.note(what); g.note(pbt::strv(vals(pop))); g.nontrivial(n > 1);
    if (g.boolean()) { eoPop<I> other = genPop<I>(g, g.range<size_t>(2, 9), 0, true, true); if (kind != 7 && kind != 8 && kind != 10) { sel->setup(other); (*sel)(other); } } // earlier use on another population
    sel->setup(pop); std::vector<unsigned> c(n, 0);
    for (unsigned k = 0; k < N; ++k) { const I& s = (*sel)(pop); size_t i = &s - &pop[0]; CHECK(i < n, what << ": the selected individual is not in the population"); c[i]++; }
    checkFreq(p, c, what);
}
PBT(frequencies_max, 130, 1300) { frequencies<Max>(g, g.range(0, 10)); }
PBT(frequencies_min, 90, 900) { frequencies<Min>(g, g.range(0, 10)); }

template <class I> void functions(pbt::Gen& g) {
    size_t n = g.range<size_t>(1, 7); eoPop<I> pop = genPop<I>(g, n); const eoPop<I>& cp = pop; int kind = g.range(0, 4); unsigned t = g.oneof({2u, 3u, 1u, 5u}); double rate = g.oneof({1.0, 0.7, 0.5, 0.0}); eoRng mine(g.range<unsigned>(1, 1000)); bool constant = g.boolean(); std::vector<double> p; std::vector<unsigned> c(n, 0); std::vector<double> w; double total = 0; for (size_t i = 0; i < n; ++i) { w.push_back(g.range(0, 4) / 2.0); total += w.back(); } if (total == 0) { w[0] = 1; total = 1; }
    std::string before = pbt::str(eo::rng.rand()); eoRng snapshot(1); std::ostringstream s0; s0 << eo::rng; g.note(kind); g.note(pbt::strv(vals(pop))); g.nontrivial(n > 1);
    for (unsigned k = 0; k < N; ++k) { const I* s = nullptr; switch (kind) { case 0: s = constant ? &deterministic_tournament(cp, t, mine) : &deterministic_tournament(pop, t, mine); break; case 1: s = &*inverse_deterministic_tournament(pop.begin(), pop.end(), t, mine); break; case 2: s = constant ? &stochastic_tournament(cp, rate, mine) : &stochastic_tournament(pop, rate, mine); break; case 3: s = constant ? &inverse_stochastic_tournament(cp, rate, mine) : &inverse_stochastic_tournament(pop, rate, mine); break; case 4: s = &pop[0] + (roulette_wheel(w.begin(), w.end(), total, mine) - w.begin()); break; } size_t i = s - &pop[0]; CHECK(i < n, "selected outside the population"); c[i]++; }
    switch (kind) { case 0: p = pDetTournament(pop, t); break; case 1: p = pInvDet(pop, t); break; case 2: p = pStoch(pop, rate, false); break; case 3: p = pStoch(pop, rate, true); break; default: p = normalise(w); }
    checkFreq(p, c, "selection function " + pbt::str(kind)); std::ostringstream s1; s1 << eo::rng; CHECK(s0.str() == s1.str(), "the global generator was used instead of the one given");
}
PBT(functions_max, 50, 500) { functions<Max>(g); }
PBT(functions_min, 30, 300) { functions<Min>(g); }
PBT(roulette_population, 30, 300) {
    size_t n = g.range<size_t>(1, 6); eoPop<Max> pop = genPop<Max>(g, n, 0, false, true); const eoPop<Max>& cp = pop; double total = sum_fitness(pop), e = 0; for (auto& x : pop) e += val(x); CHECK(pbt::near(total, e), "sum of the fitnesses"); if (total == 0) g.discard(); bool constant = g.boolean(); std::vector<unsigned> c(n, 0); g.nontrivial(n > 1); g.note(pbt::strv(vals(pop)));
    for (unsigned k = 0; k < N; ++k) { const Max& s = constant ? roulette_wheel(cp, total) : roulette_wheel(pop, total); c[&s - &pop[0]]++; } checkFreq(normalise(vals(pop)), c, "roulette wheel");
    pop[0].fitness(-1); bool th = false; try { sum_fitness(pop); } catch (std::exception&) { th = true; } CHECK(th, "negative fitness accepted in a fitness sum");
}
template <class I> void scaled(pbt::Gen& g) {
    size_t n = g.range<size_t>(1, 6); eoPop<I> pop = genPop<I>(g, n); std::pair<double, double> mm; double s = sum_fitness(pop, mm), e = 0; auto v = sortedVals(pop); CHECK(mm.second == v.front() && mm.first == v.back(), "worst and best are reported as " << mm.first << ", " << mm.second); for (double x : v) e += v.front() == v.back() ? 0 : (x - v.back()) / (v.front() - v.back()); CHECK(std::fabs(s - e) < 1e-9, "scaled sum " << s << " instead of " << e); g.nontrivial(n > 1); CHECK(minimizing_fitness<I>() == minimising<I>(), "direction of the fitness");
}
PBT(scaled_sum, 500, 5000) { if (g.boolean()) scaled<Max>(g); else scaled<Min>(g); }

template <class I> void exact(pbt::Gen& g) {
    Silence q; size_t n = g.size(1, 9); eoPop<I> pop = genPop<I>(g, n); auto best = sortedVals(pop); int kind = g.range(0, 5); int rounds = g.range(1, 3); g.note(kind); g.note(pbt::strv(vals(pop))); g.nontrivial(n > 1); g.label("selector", kind);
    std::unique_ptr<eoSelectOne<I>> sel; switch (kind) { case 0: sel.reset(new eoSequentialSelect<I>(true)); break; case 1: sel.reset(new eoSequentialSelect<I>(false)); break; case 2: sel.reset(new eoEliteSelect<I>); break; case 3: sel.reset(new eoEliteSequentialSelect<I>); break; case 4: sel.reset(new eoBestSelect<I>); break; default: sel.reset(new eoNoSelect<I>); }
    if (kind == 3 && n == 1) { bool th = false; try { sel->setup(pop); } catch (std::exception&) { th = true; } CHECK(th, "elite sequential selection accepts a single individual"); return; }
    if (g.boolean()) { eoPop<I> other = genPop<I>(g, g.range<size_t>(2, 5), 50); sel->setup(other); (*sel)(other); if (kind == 5) { while ((*sel)(other).id != other.back().id) {} } }
    bool setup = g.boolean(); if (setup || kind <= 3) sel->setup(pop);
    if (kind == 0 || kind == 1) { // populations given later are served after the next setup
        for (int r = 0; r < rounds; ++r) { std::vector<int> got; std::vector<double> v; for (size_t i = 0; i < n; ++i) { const I& s = (*sel)(pop); CHECK((size_t)(&s - &pop[0]) < n, "not in the population"); got.push_back(s.id); v.push_back(val(s)); } CHECK(sorted(got) == ids(pop), "round " << r << " of sequential selection is not a permutation: " << pbt::strv(got)); if (kind == 0) CHECK(v == best, "ordered sequential selection gives " << pbt::strv(v)); }
    } else if (kind == 2 || kind == 4) { for (int r = 0; r < 5; ++r) { const I& s = (*sel)(pop); CHECK((size_t)(&s - &pop[0]) < n, "not in the population"); CHECK(val(s) == best[0], "selected fitness " << val(s) << " is not the best " << best[0]); } }
    else if (kind == 3) { for (int r = 0; r < rounds; ++r) { std::vector<int> got; for (size_t i = 0; i < n; ++i) { const I& s = (*sel)(pop); if (i == 0) CHECK(val(s) == best[0], "the first individual of an elite round is not the best"); got.push_back(s.id); } CHECK(sorted(got) == ids(pop), "round " << r << " is not a permutation"); } }
    else for (size_t i = 0; i < 2 * n + 1; ++i) { const I& s = (*sel)(pop); if (i == 0 && s.id != 0) { /* continues from an earlier population */ while ((*sel)(pop).id != (int)n - 1) {} --i; continue; } CHECK(s.id == (int)(i % n), "pick " << i << " is individual " << s.id); }
}
PBT(exact_max, 1500, 15000) { exact<Max>(g); }
PBT(exact_min, 800, 8000) { exact<Min>(g); }
PBT(unordered_sequential, 12, 100) {
    size_t n = g.range<size_t>(2, 4); eoPop<Max> pop = genPop<Max>(g, n); bool elite = g.boolean(); std::map<std::vector<int>, unsigned> c; if (elite) pop[g.draw(n - 1)].fitness(1e6); eoSequentialSelect<Max> s(false); eoEliteSequentialSelect<Max> e; eoSelectOne<Max>& sel = elite ? (eoSelectOne<Max>&)e : s; g.nontrivial(true);
    for (unsigned k = 0; k < N; ++k) { sel.setup(pop); std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(sel(pop).id); c[v]++; } double f = 1; for (size_t i = 2; i <= n - elite; ++i) f *= i; std::vector<unsigned> cc; for (auto& x : c) cc.push_back(x.second); cc.resize((size_t)f, 0); CHECK(c.size() <= f, "more orders than possible"); checkFreq(std::vector<double>((size_t)f, 1 / f), cc, "order of unordered sequential selection");
}
PBT(universal, 2500, 25000) {
    size_t n = g.size(1, 9); eoPop<Max> pop = genPop<Max>(g, n, 0, false, true); for (auto& x : pop) if (g.chance(1, 5)) x.fitness(0.0); if (g.chance(1, 30)) for (auto& x : pop) x.fitness(0.0); double total = 0; for (auto& x : pop) total += val(x); eoStochasticUniversalSelect<Max> sel; int rounds = g.range(1, 3); g.note(pbt::strv(vals(pop))); g.nontrivial(n > 1);
    if (g.boolean()) { eoPop<Max> other = genPop<Max>(g, 12, 0, true, true); sel.setup(other); }
    sel.setup(pop); for (int r = 0; r < rounds; ++r) { std::vector<unsigned> c(n, 0); for (size_t i = 0; i < n; ++i) { size_t k = &sel(pop) - &pop[0]; CHECK(k < n, "not in the population"); c[k]++; }
        for (size_t i = 0; i < n; ++i) { double e = total > 0 ? n * val(pop[i]) / total : 1; CHECK(c[i] <= std::ceil(e + 1e-9) && c[i] + 1e-9 >= std::floor(e - 1e-9), "individual of expected count " << e << " selected " << c[i] << " times"); if (total > 0 && val(pop[i]) == 0) CHECK(c[i] == 0, "individual without worth selected"); } }
}
PBT(minimising_refused, 20, 50) { Silence q; g.nontrivial(true); bool a = false, b = false; try { eoProportionalSelect<Min> s; } catch (std::exception&) { a = true; } try { eoStochasticUniversalSelect<Min> s; } catch (std::exception&) { b = true; } CHECK(a && b, "proportional selection accepts a minimising fitness"); }
PBT(universal_frequency, 12, 100) {
    size_t n = g.range<size_t>(2, 6); eoPop<Max> pop = genPop<Max>(g, n, 0, false, true); double total = 0; for (auto& x : pop) total += val(x); if (total == 0) g.discard(); std::vector<unsigned> c(n, 0); eoStochasticUniversalSelect<Max> sel; g.nontrivial(true); for (unsigned k = 0; k < N; ++k) { sel.setup(pop); c[&sel(pop) - &pop[0]]++; } checkFreq(normalise(vals(pop)), c, "first pick of universal sampling");
}
// ---- numbers of individuals
struct Many { eoHowMany h; bool rate; double r; int count; };
PBT(how_many, 4000, 40000) {
    Silence q; unsigned size = g.range<unsigned>(0, 40); int kind = g.range(0, 5); double r = g.oneof({0.0, 1.0, 0.5, 0.3, 2.0, 0.1, 0.99, 1.01}); int c = g.range(1, 12); g.note(size); g.note(kind); g.note(r); g.note(c); g.nontrivial(true);
    auto asRate = [&](double x) { return (unsigned)std::ceil(x * size); }; auto check = [&](eoHowMany h, bool th, unsigned e, const char* what) { bool got = false; unsigned v = 0; try { v = h(size); } catch (std::exception&) { got = true; } CHECK(got == th, what << (th ? " gives " + pbt::str(v) + " instead of an error" : std::string(" is refused"))); if (!th) CHECK(v == e, what << " gives " << v << " of " << size << " instead of " << e); };
    eoHowMany h; bool bad = false; unsigned e = 0;
    switch (kind) { case 0: h = eoHowMany(r); e = asRate(r); break; case 1: h = eoHowMany(c); e = c; break; case 2: h = eoHowMany(-c); bad = (unsigned)c > size; e = size - c; break; case 3: if (r > 1) r = 1; h = eoHowMany(-r); e = asRate(r == 0 ? 0.0 : 1.0 - r); break; case 4: h = eoHowMany((double)c, false); e = c; break; default: h = eoHowMany(-(double)c, false); bad = (unsigned)c > size; e = size - c; }
    check(h, bad, e, "eoHowMany"); check(h, bad, e, "eoHowMany asked again");
    std::ostringstream o; h.printOn(o); eoHowMany back; std::istringstream is(o.str()); back.readFrom(is); if (!(kind == 0 || kind == 3)) check(back, bad, e, "printed and read eoHowMany");
    eoHowMany copy(h), neg = -copy; check(copy, bad, e, "eoHowMany after being negated into another");
    if (kind == 0 && r <= 1) check(neg, false, asRate(1.0 - r), "negated rate"); if (kind == 1 || kind == 4) check(neg, (unsigned)c > size, size - c, "negated count"); if (kind == 2 || kind == 5) check(neg, false, c, "negated negative count");
    double r2 = g.oneof({0.25, 0.75, -0.25}); h.value(r2, true); check(h, false, asRate(r2 < 0 ? 1.0 + r2 : r2), "eoHowMany given a new rate"); h.value(3, false); check(h, false, 3, "eoHowMany given a new count"); h.readFrom(std::string("50%")); check(h, false, asRate(0.5), "eoHowMany read from 50%"); h.readFrom(std::string("7")); check(h, false, 7, "eoHowMany read from 7");
    bool th = false; try { eoHowMany w(-1.5); } catch (std::exception&) { th = true; } CHECK(th, "rate below -1 accepted");
}
template <class I> void batch(pbt::Gen& g) {
    Silence q; size_t n = g.size(1, 9); eoPop<I> pop = genPop<I>(g, n), keep = pop, dest = genPop<I>(g, g.range<size_t>(0, 12), 500); int kind = g.range(0, 8); double r = g.oneof({1.0, 0.5, 0.0, 2.0, 0.34}); unsigned c = g.range<unsigned>(0, 14); bool useRate = g.boolean(); unsigned e = useRate ? (unsigned)std::ceil(r * n) : c; auto best = sortedVals(pop);
    eoHowMany hm = useRate ? eoHowMany(r) : eoHowMany((int)c); eoRandomSelect<I> rnd; eoSequentialSelect<I> seq(true); eoSelectOne<I>& one = g.boolean() ? (eoSelectOne<I>&)rnd : seq; bool isSeq = &one == &seq; g.note(kind); g.note(n); g.note(useRate ? r : c); g.label("selector", kind); g.nontrivial(n > 1); unsigned fertile = n;
    auto topCount = [&](double v) { size_t k = 0; for (double x : best) k += x == v; return k; }; (void)topCount;
    switch (kind) {
        case 0: if (useRate) eoSelectMany<I>(one, r)(pop, dest); else eoSelectMany<I>(one, c, false)(pop, dest); break;
        case 1: eoSelectMany<I>(one, hm)(pop, dest); break;
        case 2: e = c; eoSelectNumber<I>(one, c)(pop, dest); break;
        case 3: { float f = r; e = (unsigned)std::floor(f * n); eoSelectPerc<I>(one, f)(pop, dest); break; }
        case 4: eoTruncSelect<I>(one, hm)(pop, dest); break;
        case 5: { eoDetSelect<I> ds(useRate ? r : (double)c, useRate); ds(pop, dest); e = std::max(1u, e); for (unsigned i = 0; i < dest.size(); ++i) CHECK(dest[i].id == pop[i % n].id, "deterministic selection puts individual " << dest[i].id << " at " << i); break; }
        case 6: { e = std::max(1u, c); eoRankMuSelect<I> s(c); eoSelect<I>& b = s; b(pop, dest); for (unsigned i = 0; i < dest.size(); ++i) CHECK(val(dest[i]) == best[i % n], "rank " << i << " has fitness " << val(dest[i]) << " instead of " << best[i % n]); break; }
        case 7: { fertile = g.range<unsigned>(1, n); eoTruncatedSelectMany<I>(one, hm, eoHowMany((int)fertile))(pop, dest); break; }
        case 8: { double fr = g.oneof({1.0, 0.5, 0.25}); fertile = (unsigned)std::ceil(fr * n); if (useRate) eoTruncatedSelectMany<I>(one, r, fr)(pop, dest); else eoTruncatedSelectMany<I>(one, c, fr, false, true)(pop, dest); break; }
    }
    CHECK(dest.size() == e, "selected " << dest.size() << " individuals instead of " << e); CHECK(ids(pop) == ids(keep) && vals(pop) == vals(keep), "selection changed the source population");
    std::map<int, double> from; for (auto& x : pop) from[x.id] = val(x); std::map<int, unsigned> times; for (auto& x : dest) { CHECK(from.count(x.id) && !x.invalid() && from[x.id] == val(x), "individual " << x.id << " is not one of the source"); times[x.id]++; }
    if (kind >= 7) { CHECK(times.size() <= fertile, times.size() << " different individuals selected among " << fertile); for (auto& x : dest) CHECK(!better<I>(best[fertile - 1], val(x)), "individual of fitness " << val(x) << " selected among the " << fertile << " best"); if (isSeq) for (size_t i = 0; i < dest.size(); ++i) CHECK(val(dest[i]) == best[i % fertile], "truncated sequential selection"); }
    else if (kind <= 4 && isSeq) for (size_t i = 0; i < dest.size(); ++i) CHECK(val(dest[i]) == best[i % n], "batch of ordered sequential selection");
}
PBT(batch_max, 3000, 30000) { batch<Max>(g); }
PBT(batch_min, 1500, 15000) { batch<Min>(g); }
template <class I> void truncatedOne(pbt::Gen& g) {
    Silence q; eoRandomSelect<I> rnd; eoDetTournamentSelect<I> det(3); eoSequentialSelect<I> seq(true); int which = g.range(0, 2); eoSelectOne<I>& one = which == 0 ? (eoSelectOne<I>&)rnd : which == 1 ? (eoSelectOne<I>&)det : seq; double r = g.oneof({0.5, 1.0, 0.25, 0.75}); int c = g.range(1, 4); bool useRate = g.boolean(); std::unique_ptr<eoTruncatedSelectOne<I>> s(useRate ? g.boolean() ? new eoTruncatedSelectOne<I>(one, r) : new eoTruncatedSelectOne<I>(one, eoHowMany(r)) : new eoTruncatedSelectOne<I>(one, c, false)); int uses = g.range(1, 3); g.nontrivial(uses > 1); g.note(which);
    for (int u = 0; u < uses; ++u) { size_t n = g.range<size_t>(4, 10); eoPop<I> pop = genPop<I>(g, n, u * 100); auto best = sortedVals(pop); unsigned f = useRate ? (unsigned)std::ceil(r * n) : c; s->setup(pop); std::set<int> seen; for (int k = 0; k < 30; ++k) { const I& x = (*s)(pop); int i = x.id - u * 100; CHECK(i >= 0 && i < (int)n && val(pop[i]) == val(x), "individual " << x.id << " is not in the population"); CHECK(!better<I>(best[f - 1], val(x)), "individual of fitness " << val(x) << " selected, the " << f << "th best is " << best[f - 1]); seen.insert(i); if (which == 2) CHECK(val(x) == best[k % f], "truncated sequential selection"); } CHECK(seen.size() <= f, "more than " << f << " different individuals selected"); }
}
PBT(truncated_one, 1000, 10000) { if (g.boolean()) truncatedOne<Max>(g); else truncatedOne<Min>(g); }

// the same with larger sizes
PBT_LARGE(frequencies_max, 10, 100, 10)
PBT_LARGE(frequencies_min, 10, 100, 10)
PBT_LARGE(functions_max, 10, 100, 10)
PBT_LARGE(functions_min, 10, 100, 10)
PBT_LARGE(roulette_population, 10, 100, 10)
PBT_LARGE(scaled_sum, 12, 125, 10)
PBT_LARGE(exact_max, 37, 375, 10)
PBT_LARGE(exact_min, 20, 200, 10)
PBT_LARGE(unordered_sequential, 10, 100, 10)
PBT_LARGE(universal, 60, 600, 10)
PBT_LARGE(minimising_refused, 10, 100, 10)
PBT_LARGE(universal_frequency, 10, 100, 10)
PBT_LARGE(how_many, 60, 600, 10)
PBT_LARGE(batch_max, 60, 600, 10)
PBT_LARGE(batch_min, 37, 375, 10)
PBT_LARGE(truncated_one, 25, 250, 10)
