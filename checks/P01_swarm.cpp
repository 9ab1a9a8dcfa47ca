// P01: particle swarms.
#include "eo_support.hpp"
#include <eoStarTopology.h>
#include <eoRingTopology.h>
#include <eoLinearTopology.h>
#include <eoFixedInertiaWeightedVelocity.h>
#include <eoVariableInertiaWeightedVelocity.h>
#include <eoConstrictedVariableWeightVelocity.h>
#include <eoIntegerVelocity.h>
#include <eoExtendedVelocity.h>
#include <eoGaussRealWeightUp.h>
#include <eoRandomRealWeightUp.h>
#include <eoLinearDecreasingWeightUp.h>
#include <eoRealBoundModifier.h>
using namespace sup;
namespace {
typedef eoRealParticle<double> P; typedef eoRealParticle<eoMinimizingFitness> PM; typedef eoBitParticle<double> BP;
// bounds of each kind, told apart from the library
struct Bnd { bool lo, hi; double a, b; double clamp(double x) const { if (lo && x < a) x = a; if (hi && x > b) x = b; return x; } };
std::string text(const std::vector<Bnd>& v) { std::ostringstream o; for (auto& b : v) { o << '['; if (b.lo) o << b.a; else o << "-inf"; o << ','; if (b.hi) o << b.b; else o << "+inf"; o << ']'; } return o.str(); }
std::vector<Bnd> genBounds(pbt::Gen& g, unsigned n) { std::vector<Bnd> v; for (unsigned i = 0; i < n; ++i) { Bnd b; int k = g.draw(3); b.lo = k & 1; b.hi = k & 2; b.a = g.grid(8, 0.25); b.b = b.a + 0.25 + std::fabs(g.grid(8, 0.25)); v.push_back(b); } return v; }
// a topology with given bests
template <class T> struct Fixed : eoTopology<T> { T b, gb; int updates = 0; void setup(const eoPop<T>&) {} void updateNeighborhood(T&, unsigned) { ++updates; } using eoTopology<T>::updateNeighborhood; T& best(unsigned) { return b; } T& globalBest() { return gb; } };
struct Mod : eoRealBoundModifier { std::vector<unsigned> calls; void operator()(eoRealBaseVectorBounds& b, unsigned i) { calls.push_back(i); b[i] = new eoRealInterval(-0.125, 0.125); } };
struct Up : eoWeightUpdater<double> { std::vector<double> w; unsigned calls = 0; void operator()(double& x) { x = w[calls++ % w.size()]; } };
const char* vn[] = {"eoStandardVelocity", "eoExtendedVelocity", "eoIntegerVelocity", "eoFixedInertiaWeightedVelocity", "eoVariableInertiaWeightedVelocity", "eoConstrictedVelocity", "eoConstrictedVariableWeightVelocity"};
}
// each new velocity is the documented combination, for coefficients common to all dimensions and within [0,c)
PBT(velocities, 12000, 120000) {
    unsigned k = g.draw(6); unsigned extra = k == 1 ? 3 : 2, n = extra + g.size(1, 4); Fixed<P> top; top.b = P(n); top.gb = P(n); P p(n); double c1 = std::fabs(g.grid(8, 0.25)), c2 = std::fabs(g.grid(8, 0.25)), c3 = std::fabs(g.grid(8, 0.25)), w = g.grid(6, 0.25), co = g.oneof({1.0, 0.5, 0.729});
    auto val = [&] { return g.grid(12, 0.5); }; for (unsigned j = 0; j < n; ++j) { p[j] = val(); p.velocities[j] = val(); p.bestPositions[j] = g.chance(1, 5) ? p[j] : val(); top.b[j] = g.chance(1, 5) ? p[j] : val(); top.gb[j] = val(); }
    // the first dimensions tell the coefficients one by one
    double big = k == 2 ? 1e7 : 64; for (unsigned j = 0; j < extra; ++j) { p.velocities[j] = 0; p.bestPositions[j] = p[j] + (j == 0 ? big : 0); top.b[j] = p[j] + (j == 1 ? big : 0); top.gb[j] = p[j] + (j == 2 ? big : 0); }
    Up up; for (int i = 0; i < 3; ++i) up.w.push_back(g.grid(6, 0.25)); std::vector<Bnd> bs = genBounds(g, n); for (unsigned j = 0; j < extra; ++j) bs[j].lo = bs[j].hi = false; int form = g.draw(2); if (form == 2) for (auto& b : bs) b.lo = b.hi = false; eoRealVectorBounds rb(text(bs)); Mod mod; bool useMod = form == 1; bool own = g.boolean(); eoRng mine(g.draw(1000)), twin(1); { std::ostringstream o; o << mine; std::istringstream i(o.str()); i >> twin; } eoRng& gen = own ? mine : eo::rng;
    std::unique_ptr<eoVelocity<P>> v;
#define MAKE(T, ...) v.reset(form == 0 ? new T<P>(top, __VA_ARGS__, rb, gen) : form == 1 ? new T<P>(top, __VA_ARGS__, rb, mod, gen) : new T<P>(top, __VA_ARGS__, gen));
    switch (k) { case 0: MAKE(eoStandardVelocity, w, c1, c2) break; case 1: MAKE(eoExtendedVelocity, w, c1, c2, c3) break; case 2: MAKE(eoIntegerVelocity, w, c1, c2) break; case 3: MAKE(eoFixedInertiaWeightedVelocity, w, c1, c2) break; case 4: MAKE(eoVariableInertiaWeightedVelocity, up, c1, c2) break; case 5: MAKE(eoConstrictedVelocity, co, c1, c2) break; default: MAKE(eoConstrictedVariableWeightVelocity, co, up, c1, c2) }
    CHECK(&v->getTopology() == &top, vn[k] << ": another topology"); unsigned times = g.range(1, 3); std::vector<double> r[3]; double lim[3] = {c1, c2, c3};
    for (unsigned t = 0; t < times; ++t) {
        P before = p; mod.calls.clear(); if (useMod) for (unsigned j = 0; j < extra; ++j) big = 64; (*v)(p, t); double in = k == 4 || k == 6 ? up.w[t % 3] : k == 5 ? 1 : w, out = k == 5 || k == 6 ? co : 1;
        CHECK(std::vector<double>(p) == std::vector<double>(before) && p.bestPositions == before.bestPositions, vn[k] << " moved the particle"); if (useMod) { std::vector<unsigned> all(mod.calls); std::sort(all.begin(), all.end()); std::vector<unsigned> e; for (unsigned j = 0; j < n; ++j) e.push_back(j); CHECK(all == e, vn[k] << ": bound modifier applied to " << pbt::strv(mod.calls)); for (unsigned j = 0; j < n; ++j) CHECK(std::fabs(p.velocities[j]) <= 0.125, vn[k] << ": velocity " << p.velocities[j] << " outside of the modified bounds"); }
        else { double rr[3] = {0, 0, 0}; for (unsigned j = 0; j < extra; ++j) { double d = (p.velocities[j] - (t ? out * in * before.velocities[j] : 0)) / out; rr[j] = d / big; CHECK(rr[j] >= -1e-6 && rr[j] <= lim[j] + 1e-6 && (lim[j] > 0 || std::fabs(rr[j]) < 1e-6), vn[k] << ": coefficient " << j << " is " << rr[j] << ", not within [0," << lim[j] << ")"); if (lim[j] > 0) r[j].push_back(rr[j] / lim[j]); }
            for (unsigned j = extra; j < n; ++j) { double e = in * before.velocities[j] + rr[0] * (p.bestPositions[j] - p[j]) + rr[1] * (top.b[j] - p[j]) + rr[2] * (top.gb[j] - p[j]); e *= out; if (k == 2) { double f = e - std::floor(e); if (std::fabs(f - 0.5) < 1e-4) continue; e = std::floor(e + 0.5); } e = bs[j].clamp(e); CHECK(std::fabs(p.velocities[j] - e) < 1e-6 * (1 + std::fabs(e)), vn[k] << ": velocity " << j << " is " << p.velocities[j] << ", expected " << e << " from " << before.velocities[j] << " at " << p[j]); } }
        for (unsigned j = 0; j < extra; ++j) p.velocities[j] = 0;
    }
    CHECK(own || mine.rand() == twin.rand(), vn[k] << " drew from a generator it was not given");
    v->updateNeighborhood(p, 0); CHECK(top.updates == 1, vn[k] << " does not pass the update to the topology"); eoPop<P> pp; pp.push_back(p); pp.push_back(p); v->updateNeighborhood(pp); CHECK(top.updates == 3, vn[k] << " does not pass the update of the swarm to the topology");
    g.nontrivial(n > extra && (c1 > 0 || c2 > 0)); g.label("velocity", vn[k]); g.note(vn[k]).note(" dimensions ").note(n).note(form == 1 ? " modified bounds" : form == 2 ? " no bounds" : " bounds");
}
// the coefficients are uniform, and drawn from the generator given
PBT(coefficients, 60, 600) {
    unsigned k = g.draw(6); Fixed<P> top; double c1 = 0.5 + g.draw(4) * 0.5, c2 = 0.5 + g.draw(4) * 0.5, c3 = 0.5 + g.draw(4) * 0.5, w = 0, co = 1; Up up; up.w.assign(1, 0.0); const double big = 1 << 20; P p(3); top.b = P(3); top.gb = P(3); p.bestPositions[0] = big; top.b[1] = big; top.gb[2] = big; eoRng gen(g.draw(100000)); unsigned long seed = g.draw(100000); std::unique_ptr<eoVelocity<P>> v; const int form = 2; eoRealVectorBounds rb; Mod mod;
    switch (k) { case 0: v.reset(new eoStandardVelocity<P>(top, w, c1, c2, gen)); break; case 1: v.reset(new eoExtendedVelocity<P>(top, w, c1, c2, c3, gen)); break; case 2: v.reset(new eoIntegerVelocity<P>(top, w, c1, c2, gen)); break; case 3: v.reset(new eoFixedInertiaWeightedVelocity<P>(top, w, c1, c2, gen)); break; case 4: v.reset(new eoVariableInertiaWeightedVelocity<P>(top, up, c1, c2, gen)); break; case 5: v.reset(new eoConstrictedVelocity<P>(top, co, c1, c2, gen)); break; default: v.reset(new eoConstrictedVariableWeightVelocity<P>(top, co, up, c1, c2, gen)); }
    const unsigned N = 3000; std::vector<unsigned> a(5, 0), b(5, 0), c(5, 0), both(4, 0); auto cell = [&](double x, double lim) { int i = int(5 * x / big / lim); return std::max(0, std::min(4, i)); };
    for (unsigned i = 0; i < N; ++i) { p.velocities.assign(3, 0); (*v)(p, 0); a[cell(p.velocities[0], c1)]++; b[cell(p.velocities[1], c2)]++; c[cell(p.velocities[2], c3)]++; both[(p.velocities[0] > big * c1 / 2) * 2 + (p.velocities[1] > big * c2 / 2)]++; }
    std::vector<double> u(5, 0.2), q(4, 0.25); checkFreq(u, a, std::string(vn[k]) + " first coefficient"); checkFreq(u, b, std::string(vn[k]) + " second coefficient"); if (k == 1) checkFreq(u, c, "third coefficient"); checkFreq(q, both, std::string(vn[k]) + " coefficients together");
    auto run = [&](unsigned long other) { eo::rng.reseed(other); gen.reseed(seed); gen.clearCache(); std::vector<double> o; for (int i = 0; i < 5; ++i) { (*v)(p, 0); o.insert(o.end(), p.velocities.begin(), p.velocities.end()); } return o; }; p.velocities.assign(3, 0); auto x = run(1); p.velocities.assign(3, 0); auto y = run(2); CHECK(x == y, vn[k] << " does not draw from the generator given"); g.nontrivial(true); g.note(vn[k]);
}
PBT(flights, 8000, 80000) {
    unsigned n = g.size(0, 5); P p(n); for (unsigned j = 0; j < n; ++j) { p[j] = g.grid(20, 0.25); p.velocities[j] = g.grid(20, 0.25); p.bestPositions[j] = 7; } p.fitness(3.0); p.best(9.0); auto bs = genBounds(g, n ? n : 1); int form = g.draw(2); if (form == 1) { double a = g.grid(8, 0.5), b = a + 0.5 + std::fabs(g.grid(8, 0.5)); for (auto& x : bs) { x.lo = x.hi = true; x.a = a; x.b = b; } } else if (form == 2) for (auto& x : bs) x.lo = x.hi = false;
    eoRealVectorBounds rb(text(bs)); std::unique_ptr<eoFlight<P>> f(form == 0 ? new eoStandardFlight<P>(rb) : form == 1 ? new eoStandardFlight<P>(n ? n : 1, bs[0].a, bs[0].b) : new eoStandardFlight<P>()); P q = p; bool pop = g.boolean(); if (pop) { eoPop<P> pp; pp.push_back(p); pp.push_back(p); f->apply(pp); q = pp[1]; CHECK(std::vector<double>(pp[0]) == std::vector<double>(pp[1]), "flight of a swarm"); } else (*f)(q);
    CHECK(q.size() == n && q.velocities == p.velocities && q.bestPositions == p.bestPositions, "flight changed more than the position"); CHECK(q.invalid(), "a particle that moved keeps its fitness"); CHECK(!q.invalidBest() && q.best() == 9.0, "flight lost the best fitness"); for (unsigned j = 0; j < n; ++j) CHECK_NEAR(q[j], bs[j].clamp(p[j] + p.velocities[j]), "position " << j); g.nontrivial(n > 0); g.note("dimensions ").note(n).note(" bounds ").note(text(bs));
}
PBT(binary_flights, 60, 600) {
    unsigned slope = g.range(1, 3); bool def = g.boolean(); if (def) slope = 1; eoSigBinaryFlight<BP> f1(slope), f0; eoFlight<BP>& f = def ? (eoFlight<BP>&)f0 : f1; unsigned n = g.range(1, 3); BP p(n); std::vector<double> pr; for (unsigned j = 0; j < n; ++j) { p.velocities[j] = g.oneof({0.0, 1.0, -1.0, 3.0, -3.0, 1000.0, -1000.0}); pr.push_back(1 / (1 + std::exp(-p.velocities[j] / slope))); }
    std::vector<unsigned> c(n, 0); const unsigned N = 3000; for (unsigned i = 0; i < N; ++i) { p.fitness(1.0); f(p); CHECK(p.invalid(), "a particle that moved keeps its fitness"); for (unsigned j = 0; j < n; ++j) c[j] += p[j]; } for (unsigned j = 0; j < n; ++j) { double e = pr[j] < 1e-12 ? 0 : pr[j] > 1 - 1e-12 ? 1 : pr[j]; checkFreq({e, 1 - e}, {c[j], N - c[j]}, "bits of a binary flight"); } g.nontrivial(true); g.note("slope ").note(slope);
}
namespace {
// neighbourhoods and bests told from the definition, over a history of moves
template <class T> void topology(pbt::Gen& g) {
    const bool mini = std::is_same<T, PM>::value; auto better = [&](double a, double b) { return mini ? a < b : a > b; }; unsigned n = g.range(2, 7), kind = g.draw(2), s = g.range(1, kind == 1 ? (int)n - 1 : (int)n); const char* nm[] = {"ring", "linear", "star"}; g.note(nm[kind]).note(" of ").note(n).note(" size ").note(s); g.label("topology", nm[kind]);
    eoRingTopology<T> ring(s); eoLinearTopology<T> lin(s); eoStarTopology<T> star; eoTopology<T>& t = kind == 0 ? (eoTopology<T>&)ring : kind == 1 ? (eoTopology<T>&)lin : star; int tagCount = 0; eoPop<T> pop; int span = g.oneof({3, 1, 20}); auto fit = [&] { return double(g.range(-span, span)); };
    std::vector<double> fits; std::vector<std::pair<double, double>> pbest; for (unsigned i = 0; i < n; ++i) { T p(2); p[0] = ++tagCount; p[1] = i; double f = fit(); p.fitness(f); eoFirstIsBestInit<T> bi; bi(p); CHECK(std::vector<double>(p) == p.bestPositions && double(p.best()) == f, "first best"); pop.push_back(p); fits.push_back(f); pbest.push_back({f, p[0]}); }
    std::vector<std::set<unsigned>> hood; if (kind == 2) { hood.resize(1); for (unsigned i = 0; i < n; ++i) hood[0].insert(i); } else if (kind == 1) { unsigned m = n / s; hood.resize(m); for (unsigned i = 0; i < n; ++i) hood[std::min(i / s, m - 1)].insert(i); } else { hood.resize(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < s; ++j) hood[i].insert((2 * n + i - s / 2 + j) % n); }
    std::vector<double> hb(hood.size()); std::vector<std::set<double>> tags(hood.size()); std::map<double, double> fitOf; for (unsigned i = 0; i < n; ++i) fitOf[pop[i][0]] = fits[i]; for (size_t h = 0; h < hood.size(); ++h) { bool first = true; for (unsigned i : hood[h]) if (first || better(fits[i], hb[h])) { hb[h] = fits[i]; first = false; } }
    t.setup(pop); bool changed = false;
    auto look = [&](const char* when) { double best = hb[0]; for (size_t h = 0; h < hood.size(); ++h) if (better(hb[h], best)) best = hb[h];
        for (unsigned i = 0; i < n; ++i) { unsigned h = kind == 0 ? i : kind == 2 ? 0 : std::min<unsigned>(i / s, hood.size() - 1); T& b = t.best(i); CHECK(double(b.fitness()) == hb[h], nm[kind] << " topology " << when << ": best of particle " << i << " has fitness " << double(b.fitness()) << ", expected " << hb[h]); CHECK(fitOf.count(b[0]) && fitOf[b[0]] == hb[h] && hood[h].count((unsigned)b[1]), nm[kind] << " topology " << when << ": the best of particle " << i << " is not a position seen in its neighbourhood"); }
        CHECK(double(t.globalBest().fitness()) == best, nm[kind] << " topology " << when << ": global best " << double(t.globalBest().fitness()) << ", expected " << best); };
    look("after the set up"); unsigned steps = g.size(0, 12);
    for (unsigned k = 0; k < steps; ++k) { unsigned i = g.draw(n - 1); pop[i][0] = ++tagCount; double f = fit(); pop[i].fitness(f); fitOf[tagCount] = f; if (better(f, pbest[i].first)) { pbest[i] = {f, (double)tagCount}; } for (size_t h = 0; h < hood.size(); ++h) if (hood[h].count(i) && better(f, hb[h])) { hb[h] = f; changed = true; }
        if (g.chance(1, 8)) t.setup(pop); t.updateNeighborhood(pop[i], i); CHECK(double(pop[i].best()) == pbest[i].first && pop[i].bestPositions[0] == pbest[i].second && pop[i].bestPositions[1] == i, "best of particle " << i << " is " << double(pop[i].best()) << " at " << pop[i].bestPositions[0] << ", expected " << pbest[i].first << " at " << pbest[i].second); CHECK(double(pop[i].fitness()) == f && pop[i][0] == tagCount, "the update altered the particle"); look("after a move"); }
    if (g.boolean()) { eoPop<T> before = pop; t.updateNeighborhood(pop); look("after an update of the swarm"); }
    g.nontrivial(changed);
}
}
PBT(topologies, 15000, 150000) { if (g.boolean()) topology<P>(g); else topology<PM>(g); }
namespace {
// stand-ins writing down what the algorithm does
struct Log { std::vector<std::string> v; void add(const char* c, unsigned i) { v.push_back(c + pbt::str(i)); } };
template <class T> struct LV : eoVelocity<T> { Log& l; Fixed<T> t; LV(Log& _l) : l(_l) {} void operator()(T& p, unsigned i) { CHECK(unsigned(p[0]) == i, "velocity of particle " << unsigned(p[0]) << " asked as " << i); l.add("v", i); } void updateNeighborhood(T& p, unsigned i) { CHECK(!p.invalid(), "update of a particle that is not evaluated"); CHECK(unsigned(p[0]) == i, "update of another particle"); l.add("u", i); } using eoVelocity<T>::updateNeighborhood; eoTopology<T>& getTopology() { return t; } };
struct LF : eoFlight<P> { Log& l; LF(Log& _l) : l(_l) {} void operator()(P& p) { l.add("f", unsigned(p[0])); p.invalidate(); } };
struct LE : eoEvalFunc<P> { Log& l; LE(Log& _l) : l(_l) {} void operator()(P& p) { l.add("e", unsigned(p[0])); p.fitness(1.0); } };
struct LPE : eoPopEvalFunc<P> { LE& e; LPE(LE& _e) : e(_e) {} void operator()(eoPop<P>& a, eoPop<P>& b) { CHECK(a.empty(), "population evaluation got parents"); for (auto& p : b) e(p); } };
struct LI : eoInitializerBase<P> { Log& l; LI(Log& _l) : l(_l) {} void operator()() { l.add("i", 0); } };
struct LC : eoContinue<P> { Log& l; unsigned left; LC(Log& _l, unsigned n) : l(_l), left(n) {} bool operator()(const eoPop<P>&) { l.add("c", 0); return --left > 0; } std::string className() const { return "LC"; } };
}
PBT(order_of_steps, 3000, 30000) {
    bool sync = g.boolean(), init = g.boolean(), fly = true, popev = sync && g.boolean(); if (!popev) fly = g.boolean(); unsigned n = g.size(1, 4), gens = g.range(1, 4); Log l; LV<P> v(l); LF f(l); LE e(l); LPE pe(e); LI i(l); LC c(l, gens); eoPop<P> p; for (unsigned k = 0; k < n; ++k) { P x(1); x[0] = k; x.fitness(0.0); p.push_back(x); }
    std::unique_ptr<eoPSO<P>> a; if (!sync) a.reset(init ? (fly ? new eoEasyPSO<P>(i, c, e, v, f) : new eoEasyPSO<P>(i, c, e, v)) : fly ? new eoEasyPSO<P>(c, e, v, f) : new eoEasyPSO<P>(c, e, v)); else if (popev) a.reset(init ? new eoSyncEasyPSO<P>(i, c, pe, v, f) : new eoSyncEasyPSO<P>(c, pe, v, f)); else a.reset(init ? (fly ? new eoSyncEasyPSO<P>(i, c, e, v, f) : new eoSyncEasyPSO<P>(i, c, e, v)) : fly ? new eoSyncEasyPSO<P>(c, e, v, f) : new eoSyncEasyPSO<P>(c, e, v));
    (*a)(p); Log w; if (init) w.add("i", 0); std::string steps = "vfeu"; for (unsigned t = 0; t < gens; ++t) { if (sync) { for (char ch : steps) if (ch != 'f' || fly) for (unsigned k = 0; k < n; ++k) w.add(std::string(1, ch).c_str(), k); } else for (unsigned k = 0; k < n; ++k) for (char ch : steps) if (ch != 'f' || fly) w.add(std::string(1, ch).c_str(), k); w.add("c", 0); }
    CHECK(l.v == w.v, (sync ? "eoSyncEasyPSO" : "eoEasyPSO") << " did " << pbt::strv(l.v) << ", expected " << pbt::strv(w.v)); CHECK(p.size() == n, "swarm size changed"); g.nontrivial(n > 1); g.note(sync ? "synchronous" : "asynchronous").note(" particles ").note(n).note(" generations ").note(gens);
}
namespace {
double sphere(const std::vector<double>& x) { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += (x[i] - 0.5 * i) * (x[i] - 0.5 * i); return s; }
template <class T> struct SE : eoEvalFunc<T> { unsigned n = 0; std::map<const T*, double> best; double sign; SE(double s) : sign(s) {} void operator()(T& p) { ++n; p.fitness(sign * sphere(p)); } };
template <class T> struct SPE : eoPopEvalFunc<T> { SE<T>& e; SPE(SE<T>& _e) : e(_e) {} void operator()(eoPop<T>&, eoPop<T>& b) { for (auto& p : b) e(p); } };
template <class T> struct SC : eoContinue<T> { unsigned left, calls = 0; std::vector<double> best; double sign; double pl, ph, vl, vh; unsigned dim; std::function<void()> more; std::string className() const { return "SC"; }
    bool operator()(const eoPop<T>& pop) { ++calls; for (size_t i = 0; i < pop.size(); ++i) { const T& p = pop[i]; CHECK(p.size() == dim && p.velocities.size() == dim && p.bestPositions.size() == dim, "sizes of a particle"); double f = sign * sphere(p); CHECK(!p.invalid() && pbt::near(double(p.fitness()), f), "fitness of particle " << i << " differs from its evaluation"); for (unsigned j = 0; j < dim; ++j) { CHECK(p[j] >= pl - 1e-12 && p[j] <= ph + 1e-12, "position " << p[j] << " outside of the bounds"); CHECK(p.velocities[j] >= vl - 1e-12 && p.velocities[j] <= vh + 1e-12, "velocity " << p.velocities[j] << " outside of the bounds"); } bool up = std::is_same<T, PM>::value ? f < best[i] : f > best[i]; if (up) best[i] = f; CHECK(pbt::near(double(p.best()), best[i]), "best of particle " << i << " is " << double(p.best()) << ", the best seen is " << best[i]); CHECK(pbt::near(sign * sphere(p.bestPositions), best[i]), "best positions of particle " << i << " do not give its best fitness"); } more(); return --left > 0; } };
template <class T> void swarm(pbt::Gen& g) {
    const bool mini = std::is_same<T, PM>::value; double sign = mini ? 1 : -1; unsigned n = g.range(3, 7), dim = g.size(1, 4), gens = g.range(1, 6), kind = g.draw(2), s = g.range(1, (int)n - 1); eoRingTopology<T> ring(s); eoLinearTopology<T> lin(s); eoStarTopology<T> star; eoTopology<T>& t = kind == 0 ? (eoTopology<T>&)ring : kind == 1 ? (eoTopology<T>&)lin : star;
    SE<T> ev(sign); SPE<T> pev(ev); eoUniformGenerator<double> ug(-2, 2), vg(-0.5, 0.5); eoInitFixedLength<T> init(dim, ug); eoVelocityInitFixedLength<T> vi(dim, vg); eoFirstIsBestInit<T> bi; eoPop<T> pop(n, init); bool para = g.boolean(); std::unique_ptr<eoInitializer<T>> in(para ? new eoInitializer<T>(pev, vi, bi, t, pop) : new eoInitializer<T>(ev, vi, bi, t, pop)); bool inside = g.boolean();
    std::vector<std::vector<double>> start; for (auto& p : pop) start.push_back(p); SC<T> c; c.left = gens; c.sign = sign; c.dim = dim; c.pl = -3; c.ph = 2.5; c.vl = -0.75; c.vh = 0.5; for (auto& p : pop) c.best.push_back(sign * sphere(p)); double last = c.best[0]; for (double b : c.best) if (mini ? b < last : b > last) last = b; c.more = [&] { double all = c.best[0]; for (double b : c.best) if (mini ? b < all : b > all) all = b; CHECK(pbt::near(double(t.globalBest().fitness()), all), "global best " << double(t.globalBest().fitness()) << ", the best seen is " << all); CHECK(!(mini ? all > last : all < last), "the global best got worse"); last = all; };
    if (!inside) { (*in)(); CHECK(ev.n == n, "initialisation made " << ev.n << " evaluations for " << n << " particles"); for (unsigned i = 0; i < n; ++i) { CHECK(std::vector<double>(pop[i]) == start[i], "initialisation moved particle " << i); CHECK(pop[i].bestPositions == start[i] && double(pop[i].best()) == double(pop[i].fitness()), "best after initialisation"); for (double v : pop[i].velocities) CHECK(v >= -0.5 && v < 0.5, "initial velocity " << v); } }
    eoRealVectorBounds vb(dim, c.vl, c.vh), pb(dim, c.pl, c.ph); double w = 0.7, c1 = 1.5, c2 = 1.25, c3 = 0.5, co = 0.729; Up up; up.w = {0.9, 0.4, -0.2}; unsigned k = g.draw(6); std::unique_ptr<eoVelocity<T>> v; switch (k) { case 0: v.reset(new eoStandardVelocity<T>(t, w, c1, c2, vb)); break; case 1: v.reset(new eoExtendedVelocity<T>(t, w, c1, c2, c3, vb)); break; case 2: v.reset(new eoIntegerVelocity<T>(t, w, c1, c2, vb)); break; case 3: v.reset(new eoFixedInertiaWeightedVelocity<T>(t, w, c1, c2, vb)); break; case 4: v.reset(new eoVariableInertiaWeightedVelocity<T>(t, up, c1, c2, vb)); break; case 5: v.reset(new eoConstrictedVelocity<T>(t, co, c1, c2, vb)); break; default: v.reset(new eoConstrictedVariableWeightVelocity<T>(t, co, up, c1, c2, vb)); }
    eoStandardFlight<T> fl(pb); bool sync = g.boolean(); std::unique_ptr<eoPSO<T>> a; if (sync) { if (inside) a.reset(para ? new eoSyncEasyPSO<T>(*in, c, pev, *v, fl) : new eoSyncEasyPSO<T>(*in, c, ev, *v, fl)); else a.reset(para ? new eoSyncEasyPSO<T>(c, pev, *v, fl) : new eoSyncEasyPSO<T>(c, ev, *v, fl)); } else a.reset(inside ? new eoEasyPSO<T>(*in, c, ev, *v, fl) : new eoEasyPSO<T>(c, ev, *v, fl));
    (*a)(pop); CHECK(c.calls == gens && pop.size() == n, "stopped after " << c.calls << " generations of " << gens); CHECK(ev.n == n * (gens + 1), ev.n << " evaluations for " << n << " particles and " << gens << " generations"); g.nontrivial(true); g.label("velocity", vn[k]); g.note(vn[k]).note(sync ? " synchronous" : " asynchronous").note(" particles ").note(n).note(" generations ").note(gens);
}
}
PBT(swarms, 4000, 40000) { if (g.boolean()) swarm<P>(g); else swarm<PM>(g); }
PBT(weights_and_bounds, 2000, 20000) {
    unsigned stop = g.range(1, 20); double a = g.grid(8, 0.25), b = g.grid(8, 0.25); eoValueParam<unsigned> cnt(0, "c"); eoLinearDecreasingWeightUp<double, unsigned> up(stop, a, b, cnt); double w = 99; for (unsigned t = 0; t <= stop; ++t) { cnt.value() = t; up(w); CHECK_NEAR(w, a + (b - a) * t / stop, "weight at " << t << " of " << stop); }
    double lo = g.grid(8, 0.25), hi = lo + std::fabs(g.grid(8, 0.25)); eoRandomRealWeightUp ru(lo, hi); for (int i = 0; i < 20; ++i) { ru(w); CHECK(w >= lo && (w < hi || lo == hi), "random weight " << w << " outside of [" << lo << "," << hi << ")"); } bool thrown = false; try { eoRandomRealWeightUp bad(hi + 1, lo); } catch (std::exception&) { thrown = true; } CHECK(thrown, "reversed interval accepted");
    double mean = g.grid(8, 0.5), sd = 0.25 + std::fabs(g.grid(4, 0.25)), s = 0, s2 = 0; eoGaussRealWeightUp gu(mean, sd); const int N = 400; for (int i = 0; i < N; ++i) { gu(w); s += w; s2 += (w - mean) * (w - mean); } CHECK(std::fabs(s / N - mean) < 7 * sd / 20, "mean of normal weights"); CHECK(s2 / N > 0.4 * sd * sd && s2 / N < 1.8 * sd * sd, "spread of normal weights");
    double alpha = g.oneof({1.0, 2.0, 0.5}), mx = 0.5 + std::fabs(g.grid(8, 0.5)), mn = g.oneof({0.0, -1.0, 0.25}); eoRealVectorBounds rb(2, mn, mx); eoExpDecayingBoundModifier em(stop, alpha, cnt); double cur = mx; for (unsigned t = 0; t <= stop; ++t) { cnt.value() = t; em(rb, 1); cur = std::max(mn, (1 - std::pow(double(t) / stop, alpha)) * cur); CHECK_NEAR(rb.maximum(1), cur, "upper bound after " << t); CHECK(rb.minimum(1) == mn && rb.minimum(0) == mn && rb.maximum(0) == mx, "another bound changed"); }
    // fitness and best fitness of a particle
    P p(2); CHECK(p.invalid() && p.invalidBest(), "a new particle has a fitness"); auto refused = [&](std::function<void()> f, const char* what) { bool th = false; try { f(); } catch (eoInvalidFitnessError&) { th = true; } CHECK(th, what << " accepted"); }; refused([&] { p.fitness(); }, "reading an unset fitness"); refused([&] { p.best(); }, "reading an unset best fitness"); p.fitness(a); CHECK(!p.invalid() && p.invalidBest() && double(p.fitness()) == a, "fitness set"); refused([&] { p.best(); }, "reading an unset best fitness"); p.best(b); CHECK(!p.invalidBest() && double(p.best()) == b && double(p.fitness()) == a, "best fitness set"); p.invalidate(); CHECK(p.invalid() && !p.invalidBest() && double(p.best()) == b, "invalidate"); refused([&] { p.fitness(); }, "reading an unset fitness"); p.fitness(a); p.invalidateBest(); CHECK(!p.invalid() && p.invalidBest(), "invalidateBest");
    unsigned d0 = g.size(0, 4), d1 = g.size(0, 4); P z(d0); eoUniformGenerator<double> vg(lo, hi + 1); eoVelocityInitFixedLength<P> vi(d1, vg); vi(z); CHECK(z.size() == d1 && z.velocities.size() == d1 && z.bestPositions.size() == d1, "velocity initialiser of length " << d1 << " leaves " << z.velocities.size()); for (double x : z.velocities) CHECK(x >= lo && x < hi + 1, "initial velocity " << x);
    P q(2); p.best(a); q.best(b); q.fitness(0.0); CHECK((p < q) == (a < b) && (q < p) == (b < a), "particles are compared by their best"); std::vector<double> pos(2, 1.5); p.position(pos); CHECK(std::vector<double>(p) == pos && p.invalid(), "position"); p.resize(3); CHECK(p.size() == 3 && p.velocities.size() == 3 && p.bestPositions.size() == 3, "resize"); g.nontrivial(a != b); g.note("stop ").note(stop);
}

// the same with larger sizes
PBT_LARGE(velocities, 60, 600, 10)
PBT_LARGE(coefficients, 10, 100, 10)
PBT_LARGE(flights, 60, 600, 10)
PBT_LARGE(binary_flights, 10, 100, 10)
PBT_LARGE(topologies, 60, 600, 10)
PBT_LARGE(order_of_steps, 60, 600, 10)
PBT_LARGE(swarms, 60, 600, 10)
PBT_LARGE(weights_and_bounds, 50, 500, 10)
