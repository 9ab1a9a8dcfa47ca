// E17, second part: a run is a function of the seed and the settings.
#include "moeo_support.hpp"
#include <es.h>
#include <ga.h>
#include <eoTwoOptMutation.h>
#include <eoPartiallyMappedXover.h>
#include <eoOrderXover.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <mo>
#include <problems/bitString/moBitNeighbor.h>
#include <time.h>
using namespace sup;
// the clock never gives the same value twice, so that no run can be a function of it
static time_t tick = 1000000;
extern "C" time_t time(time_t* t) { tick += 7; if (t) *t = tick; return tick; }
namespace {
typedef eoBit<double> Bit;
typedef std::ostringstream Out;
template <class P> void dump(Out& o, const P& p) { o.precision(17); for (auto& x : p) { for (auto v : x) o << v << ' '; o << '|'; if (x.invalid()) o << "invalid"; else o << x.fitness(); o << '\n'; } }
struct Cfg { unsigned seed, n, len, gens; int a, b, c, d; std::vector<double> w; };
Cfg cfg(pbt::Gen& g) { Cfg c; c.seed = g.draw(1000000); c.n = g.range(4, 10); c.len = g.range(3, 8); c.gens = g.range(1, 5); c.a = g.draw(999); c.b = g.draw(999); c.c = g.draw(999); c.d = g.draw(999); for (unsigned i = 0; i < 12; ++i) c.w.push_back(g.range(-3, 3)); return c; }
// runs several times from the same seed, after unrelated uses of memory and of other sources of randomness
template <class F> void repeat(pbt::Gen& g, const Cfg& c, const std::string& what, F run) {
    auto once = [&]() { Out o; o.precision(17); eo::rng.reseed(c.seed); eo::rng.clearCache(); run(c, o); o << "next " << eo::rng.rand(); return o.str(); };
    tick = 1000000; std::srand(c.seed); std::string first = once();
    for (unsigned rep = 0; rep < 3; ++rep) {
        std::vector<std::unique_ptr<char[]>> junk; unsigned k = 1 + (c.seed + rep) % 40; for (unsigned i = 0; i < k; ++i) { junk.emplace_back(new char[16u << (i % 7)]); std::rand(); } for (unsigned i = 0; i < k; i += 2) junk[i].reset(); eo::rng.normal(); for (unsigned i = 0; i < k; ++i) eo::rng.rand();
        std::string second = once(); eo::rng.clearCache();
        CHECK(first == second, what << " from seed " << c.seed << ": two runs differ\n first run:\n" << first.substr(0, 600) << "\n other run:\n" << second.substr(0, 600));
    }
    g.nontrivial(first.size() > 40); g.label("family", what); g.note(what).note(" seed ").note(c.seed);
}
double weigh(const Cfg& c, const Bit& x) { double s = 0; for (size_t i = 0; i < x.size(); ++i) if (x[i]) s += c.w[i % 12]; return s; }
// with a log, everything evaluated is part of the outcome
struct BEval : eoEvalFunc<Bit> { const Cfg& c; Out* log; BEval(const Cfg& _c, Out* l = 0) : c(_c), log(l) {} void operator()(Bit& x) { if (x.invalid()) x.fitness(weigh(c, x)); if (log) { for (bool b : x) *log << b; *log << ' '; } } };
template <class I> struct Sphere : eoEvalFunc<I> { void operator()(I& x) { if (!x.invalid()) return; double s = 0; for (size_t i = 0; i < x.size(); ++i) s -= (x[i] - 0.1 * i) * (x[i] - 0.1 * i); x.fitness(s); } };
template <class I> std::unique_ptr<eoSelectOne<I>> selector(const Cfg& c, eoPop<I>& pop, std::unique_ptr<eoPerf2Worth<I>>& w) {
    switch (c.a % 9) { case 0: return std::unique_ptr<eoSelectOne<I>>(new eoDetTournamentSelect<I>(2)); case 1: return std::unique_ptr<eoSelectOne<I>>(new eoStochTournamentSelect<I>(0.7)); case 2: return std::unique_ptr<eoSelectOne<I>>(new eoRandomSelect<I>()); case 3: return std::unique_ptr<eoSelectOne<I>>(new eoSequentialSelect<I>(false)); case 4: return std::unique_ptr<eoSelectOne<I>>(new eoSequentialSelect<I>(true)); case 5: return std::unique_ptr<eoSelectOne<I>>(new eoRankingSelect<I>(1.5, 1)); case 6: w.reset(new eoRanking<I>(1.8, 1)); return std::unique_ptr<eoSelectOne<I>>(new eoRouletteWorthSelect<I>(*w)); case 7: return std::unique_ptr<eoSelectOne<I>>(new eoBestSelect<I>()); default: return std::unique_ptr<eoSelectOne<I>>(new eoEliteSequentialSelect<I>()); }
}
template <class I> void easyEA(const Cfg& c, Out& o, eoInit<I>& init, eoEvalFunc<I>& ev, eoGenOp<I>& op) {
    eoPop<I> p(c.n, init); apply<I>(ev, p); std::unique_ptr<eoPerf2Worth<I>> w; auto s = selector<I>(c, p, w); eoGeneralBreeder<I> br(*s, op, 1.0); eoGenContinue<I> stop(c.gens);
    eoPlusReplacement<I> plus; eoGenerationalReplacement<I> gen; eoEPReplacement<I> ep(3); eoSSGADetTournamentReplacement<I> dt(3); eoSSGAStochTournamentReplacement<I> st(0.8); eoCommaReplacement<I> comma; eoSSGAWorseReplacement<I> wr; eoReplacement<I>* rs[] = {&plus, &gen, &ep, &dt, &st, &comma, &wr};
    int k = c.b % 7; bool steady = k == 3 || k == 4 || k == 6; eoGeneralBreeder<I> few(*s, op, 0.5); eoEasyEA<I> ea(stop, ev, steady ? few : br, *rs[k]); ea(p); dump(o, p);
}
}
PBT(evolution_of_bits, 1500, 15000) {
    Cfg c = cfg(g);
    repeat(g, c, "eoEasyEA on bit strings", [](const Cfg& c, Out& o) {
        eoUniformGenerator<bool> ug; eoInitFixedLength<Bit> init(c.len, ug); BEval ev(c); eo1PtBitXover<Bit> x1; eoUBitXover<Bit> xu(0.4); eoNPtsBitXover<Bit> xn(2); eoBitGxOver<Bit> xg(2, 2); eoQuadOp<Bit>* xs[] = {&x1, &xu, &xn, &xg}; eoBitMutation<Bit> m0(0.2); eoDetBitFlip<Bit> m1(2); eoOneBitFlip<Bit> m2; eoDetSingleBitFlip<Bit> m3(2); eoMonOp<Bit>* ms[] = {&m0, &m1, &m2, &m3}; eoSGAGenOp<Bit> op(*xs[c.c % 4], 0.6, *ms[c.d % 4], 0.7); easyEA<Bit>(c, o, init, ev, op);
        eoPop<Bit> p(c.n, init); apply<Bit>(ev, p); eoDetTournamentSelect<Bit> t(2); eoGenContinue<Bit> stop(c.gens); eoSGA<Bit> sga(t, *xs[c.c % 4], 0.5, *ms[c.d % 4], 0.5, ev, stop); sga(p); dump(o, p); p.shuffle(); dump(o, p); std::vector<const Bit*> v; p.shuffle(v); for (auto q : v) o << (q - &p[0]) << ' '; });
}
PBT(evolution_of_reals, 1500, 15000) {
    Cfg c = cfg(g); int kind = g.draw(2);
    if (kind == 0) repeat(g, c, "eoEasyEA on real vectors", [](const Cfg& c, Out& o) {
        typedef eoReal<double> R; eoRealVectorBounds b(c.len, -2, 2); eoRealInitBounded<R> init(b); Sphere<R> ev; eoSegmentCrossover<R> x0(b, 0.5); eoHypercubeCrossover<R> x1(b, 0.5); eoRealUXover<R> x2(0.5); eoQuadOp<R>* xs[] = {&x0, &x1, &x2}; eoUniformMutation<R> m0(b, 0.3, 0.5); eoNormalVecMutation<R> m1(b, 0.3, 0.5); eoDetUniformMutation<R> m2(b, 0.3, 2); eoMonOp<R>* ms[] = {&m0, &m1, &m2}; eoSGAGenOp<R> op(*xs[c.c % 3], 0.6, *ms[c.d % 3], 0.7); easyEA<R>(c, o, init, ev, op); });
    else if (kind == 1) repeat(g, c, "evolution strategy with standard deviations", [](const Cfg& c, Out& o) {
        typedef eoEsStdev<double> R; eoRealVectorBounds b(c.len, -2, 2); eoEsChromInit<R> init(b, 0.3); Sphere<R> ev; char* av[] = {(char*)"x"}; eoParser ps(1, av); eoEsMutationInit mi(ps); eoEsMutate<R> m(mi, b); eoDoubleExchange e; eoDoubleIntermediate im; eoEsStandardXover<R> x(e, im); eoBinGenOp<R> xo(x); eoMonGenOp<R> mo(m); eoSequentialOp<R> op; op.add(xo, 0.7); op.add(mo, 1.0); easyEA<R>(c, o, init, ev, op); });
    else repeat(g, c, "evolution strategy with correlations", [](const Cfg& c, Out& o) {
        typedef eoEsFull<double> R; eoRealVectorBounds b(c.len, -2, 2); eoEsChromInit<R> init(b, 0.3); Sphere<R> ev; char* av[] = {(char*)"x"}; eoParser ps(1, av); eoEsMutationInit mi(ps); eoEsMutate<R> m(mi, b); eoMonGenOp<R> op(m); easyEA<R>(c, o, init, ev, op); });
}
PBT(evolution_of_orders, 1000, 10000) {
    Cfg c = cfg(g);
    repeat(g, c, "eoEasyEA on permutations", [](const Cfg& c, Out& o) {
        typedef eoInt<double> P; struct Ev : eoEvalFunc<P> { const Cfg& c; Ev(const Cfg& _c) : c(_c) {} void operator()(P& x) { if (!x.invalid()) return; double s = 0; for (size_t i = 0; i < x.size(); ++i) s += c.w[i % 12] * x[i]; x.fitness(s); } } ev(c);
        eoInitPermutation<P> init(c.len); eoOrderXover<P> x0; eoPartiallyMappedXover<P> x1; eoQuadOp<P>* xs[] = {&x0, &x1}; eoSwapMutation<P> m0; eoShiftMutation<P> m1; eoTwoOptMutation<P> m2; eoMonOp<P>* ms[] = {&m0, &m1, &m2}; eoSGAGenOp<P> op(*xs[c.c % 2], 0.6, *ms[c.d % 3], 0.7); easyEA<P>(c, o, init, ev, op); });
}
PBT(swarms, 800, 8000) {
    Cfg c = cfg(g);
    repeat(g, c, "particle swarm", [](const Cfg& c, Out& o) {
        typedef eoRealParticle<double> P; eoUniformGenerator<double> ug(-2, 2), vg(-0.5, 0.5); eoInitFixedLength<P> init(c.len, ug); eoPop<P> p(c.n, init); Sphere<P> ev; eoVelocityInitFixedLength<P> vi(c.len, vg); eoFirstIsBestInit<P> bi; eoLinearTopology<P> lin(2 + c.a % 2); eoRingTopology<P> ring(2); eoTopology<P>& top = c.b % 2 ? (eoTopology<P>&)lin : ring; eoInitializer<P> ini(ev, vi, bi, top, p); ini(); double om = 0.7, c1 = 1.2, c2 = 1.1; eoRealVectorBounds b(c.len, -1, 1); eoStandardVelocity<P> v0(top, om, c1, c2, b); eoExtendedVelocity<P> v1(top, om, c1, c2, c2, b); eoVelocity<P>& v = c.c % 2 ? (eoVelocity<P>&)v0 : v1; eoStandardFlight<P> fl; eoGenContinue<P> stop(c.gens); if (c.d % 2) { eoEasyPSO<P> a(stop, ev, v, fl); a(p); } else { eoSyncEasyPSO<P> a(stop, ev, v, fl); a(p); } dump(o, p); });
}
PBT(local_searches, 2500, 25000) {
    Cfg c = cfg(g); static const char* nm[] = {"random best hill climbing", "first improvement over a random order", "neutral hill climbing", "simulated annealing", "tabu search", "random walk", "random neutral walk", "random search", "Metropolis-Hastings", "iterated local search", "variable neighbourhood search", "tabu search with random durations"}; unsigned k = g.draw(11);
    repeat(g, c, nm[k], [k](const Cfg& c, Out& o) {
        typedef moBitNeighbor<double> N; BEval ev(c, &o); moFullEvalByCopy<N> ne(ev); moOrderNeighborhood<N> ord(c.len); moRndWithReplNeighborhood<N> rep(c.len); moRndWithoutReplNeighborhood<N> wo(c.len); moNeighborhood<N>& rnd = c.a % 2 ? (moNeighborhood<N>&)rep : wo; eoUniformGenerator<bool> ug; eoInitFixedLength<Bit> init(c.len, ug); Bit x; init(x); ev(x); moIterContinuator<N> it(c.gens + 3, false), outer(c.gens + 1, false); moSimpleCoolingSchedule<Bit> cool(3, 0.5, 3, 0.2); moNeighborVectorTabuList<N> tl(3, 0); moRndIndexedVectorTabuList<N> rtl(c.len, 2, 3); moBestImprAspiration<N> asp; moRandomBestHC<N> hc(ord, ev, ne, it); moFirstImprHC<N> fi(wo, ev, ne, it); eoOneBitFlip<Bit> flip; eoDetBitFlip<Bit> flip2(2); moAlwaysAcceptCrit<N> acc; moRndVectorVNSelection<Bit> sel(hc, flip); sel.add(fi, flip2); sel.add(hc, flip2);
        switch (k) { case 0: { hc(x); break; } case 1: { fi(x); break; } case 2: { moNeutralHC<N> a(ord, ev, ne, c.gens + 3, it); a(x); break; } case 3: { moSA<N> a(rnd, ev, ne, cool, it); a(x); break; } case 4: { moTS<N> a(ord, ev, ne, it, tl, asp); a(x); break; } case 5: { moRandomWalk<N> a(rnd, ev, ne, c.gens + 2); a(x); break; } case 6: { moRandomNeutralWalk<N> a(wo, ev, ne, c.gens + 2, it); a(x); break; } case 7: { moRandomSearch<N> a(init, ev, c.gens + 3); a(x); break; } case 8: { moMetropolisHasting<N> a(rep, ev, ne, c.gens + 3, it); a(x); break; } case 9: { moILS<N> a(hc, ev, flip2, c.gens); a(x); break; } case 10: { moVNS<N> a(sel, acc, ev, outer); a(x); break; } default: { moTS<N> a(ord, ev, ne, it, rtl, asp); a(x); } }
        std::vector<Bit> all(1, x); dump(o, all); });
}
namespace {
struct MI : public MOEO<OV, double, double> { unsigned geno = 0; virtual std::string className() const { return "MI"; } };
struct MNb : moNeighbor<MI, OV> { unsigned key = 0; void move(MI& x) { x.geno = key; } };
const std::vector<OV>* T; unsigned B;
struct MHood : moNeighborhood<MNb> { unsigned pos = 0; bool hasNeighbor(MI&) { return true; } void init(MI& x, MNb& n) { pos = 0; n.key = x.geno ^ 1u; } void next(MI& x, MNb& n) { n.key = x.geno ^ (1u << ++pos); } bool cont(MI&) { return pos + 1 < B; } };
struct MNEval : moEval<MNb> { void operator()(MI&, MNb& n) { n.fitness((*T)[n.key]); } };
struct MEval : eoEvalFunc<MI> { void operator()(MI& x) { if (x.invalid()) x.objectiveVector((*T)[x.geno]); } };
struct MMut : eoMonOp<MI> { bool operator()(MI& x) { x.geno ^= 1u << eo::rng.random(B); return true; } };
struct MCross : eoQuadOp<MI> { bool operator()(MI& a, MI& b) { unsigned d = (a.geno ^ b.geno) & eo::rng.random(1u << B); a.geno ^= d; b.geno ^= d; return true; } };
void mdump(Out& o, const std::vector<MI>& p) { for (auto& x : p) { o << x.geno << ':'; for (double v : raw(x.objectiveVector())) o << v << ','; o << ' '; } o << '\n'; }
}
PBT(multiobjective_runs, 2500, 25000) {
    Cfg c = cfg(g); setupObjectives(g, 1, 3); B = g.range(1, 4); std::vector<OV> table; for (unsigned i = 0; i < 1u << B; ++i) table.push_back(genOV(g, 5)); T = &table;
    static const char* nm[] = {"NSGA", "NSGA-II", "MOGA", "IBEA", "SPEA2", "SEEA", "PLS1", "PLS2", "PLS from a number of unvisited solutions"}; unsigned k = g.draw(8);
    repeat(g, c, nm[k], [k](const Cfg& c, Out& o) {
        eoPop<MI> p; for (unsigned i = 0; i < c.n; ++i) { MI x; x.geno = eo::rng.random(1u << B); p.push_back(x); } MEval ev; MMut mu; MCross cr; eoGenContinue<MI> stop(c.gens); eoSGAGenOp<MI> op(cr, 0.7, mu, 0.6); moeoAdditiveEpsilonBinaryMetric<OV> eps; moeoUnboundedArchive<MI> ar; std::unique_ptr<moeoEA<MI>> e; MHood h; MNEval ne; moeoNumberUnvisitedSelect<MI> sn(2); moeoFirstImprovingNeighborhoodExplorer<MNb> fx(h, ne);
        switch (k) { case 0: e.reset(new moeoNSGA<MI>(stop, ev, op, 0.5)); break; case 1: e.reset(new moeoNSGAII<MI>(stop, ev, op)); break; case 2: e.reset(new moeoMOGA<MI>(stop, ev, op, 0.5)); break; case 3: e.reset(new moeoIBEA<MI>(stop, ev, op, eps)); break; case 4: e.reset(new moeoSPEA2<MI>(stop, ev, op, ar)); break; case 5: e.reset(new moeoSEEA<MI>(stop, ev, op, ar)); break; default: break; }
        if (e) (*e)(p); else if (k == 6) { moeoPLS1<MNb> a(stop, ev, ar, h, ne); a(p); } else if (k == 7) { moeoPLS2<MNb> a(stop, ev, ar, h, ne); a(p); } else { moeoUnifiedDominanceBasedLS<MNb> a(stop, ev, ar, fx, sn); a(p); }
        mdump(o, p); mdump(o, ar); });
}
