// S01: the multithreaded master-worker model.
#include "eo_support.hpp"
#include <ga.h>
#include <smp>
#include <mutex>
#include <set>
#include <thread>
#include <chrono>
#include <memory>
#include <map>
using namespace paradiseo::smp;
namespace {
struct Ind : public EO<double> { int id, touched; Ind(int i = -1) : id(i), touched(0) {} bool operator==(const Ind& o) const { return id == o.id && touched == o.touched; } };
typedef std::chrono::steady_clock Clock;
void spin(unsigned us) { if (!us) return; if (us > 400) { std::this_thread::sleep_for(std::chrono::microseconds(us)); return; } Clock::time_point end = Clock::now() + std::chrono::microseconds(us); while (Clock::now() < end) std::this_thread::yield(); }
// what happens to each individual, and how long it takes: nothing, a delay of its own, or waiting (at most some milliseconds) until the others are through
struct Plan { int mode; std::vector<unsigned> delay; std::vector<bool> last; Plan() : mode(0) {} };
Plan plan(pbt::Gen& g, unsigned n) { Plan p; p.mode = g.draw(3); for (unsigned i = 0; i < n; ++i) { p.delay.push_back(p.mode == 1 ? (g.chance(1, 8) ? 800 : g.draw(60)) : p.mode == 2 ? g.draw(3) : 0); p.last.push_back(p.mode == 3 && g.chance(1, 4)); } g.label("timing", p.mode == 0 ? "plain" : p.mode == 1 ? "uneven" : p.mode == 2 ? "yields" : "some wait for the others"); return p; }
struct Touch {
    Plan p; std::vector<int> calls, busy; std::vector<std::thread::id> by; std::mutex m; unsigned done, must, overlapped, strangers, active; const Ind* base; unsigned n;
    Touch(const Plan& pl, const eoPop<Ind>& pop) : p(pl), calls(pop.size()), busy(pop.size()), by(pop.size()), done(0), must(0), overlapped(0), strangers(0), active(0), base(pop.empty() ? 0 : &pop[0]), n(pop.size()) { for (bool b : p.last) must += !b; }
    void operator()(Ind& x) {
        std::ptrdiff_t at = &x - base; { std::lock_guard<std::mutex> l(m); if (at < 0 || at >= (std::ptrdiff_t)n || x.id != (int)at) { ++strangers; return; } ++active; overlapped += busy[at]; busy[at] = 1; ++calls[at]; by[at] = std::this_thread::get_id(); }
        if (p.mode == 2) for (unsigned k = 0; k < p.delay[at]; ++k) std::this_thread::yield(); else spin(p.delay[at]);
        if (p.last[at]) { Clock::time_point end = Clock::now() + std::chrono::milliseconds(2); while (Clock::now() < end) { { std::lock_guard<std::mutex> l(m); if (done >= must) break; } std::this_thread::yield(); } }
        ++x.touched; x.fitness(2.0 * x.id + 1); std::lock_guard<std::mutex> l(m); busy[at] = 0; --active; done += !p.last[at];
    }
};
struct Call : public eoEvalFunc<Ind> { Touch* t; void operator()(Ind& x) { (*t)(x); } };
struct Never : public eoContinue<Ind> { bool operator()(const eoPop<Ind>&) { return false; } std::string className() const { return "Never"; } };
struct NoBreed : public eoBreed<Ind> { void operator()(const eoPop<Ind>&, eoPop<Ind>&) {} };
struct NoRep : public eoReplacement<Ind> { void operator()(eoPop<Ind>&, eoPop<Ind>&) {} };
template <class Policy> void once(pbt::Gen& g, bool linear) {
    unsigned w = g.oneof({1, 2, 3, 4, 8, 13}), rounds = g.range(1, 3); int how = g.draw(2); Call f; Never c; NoBreed b; NoRep r; Scheduler<Ind, Policy> s(w); MWModel<eoEasyEA, Ind, Policy> model(w, c, f, b, r); bool big = false; for (unsigned k = 0; k < rounds; ++k) { unsigned n = g.chance(1, 6) ? g.range(60, 200) : g.size(0, 30); if (w < 3 && g.chance(1, 5)) n = g.range(200, 700); if (g.chance(1, 4)) n = w + g.range(-1, 1); eoPop<Ind> pop; for (unsigned i = 0; i < n; ++i) { pop.push_back(Ind(i)); if (g.chance(1, 4)) pop.back().fitness(-7); } Touch t(plan(g, n), pop); f.t = &t; if (how == 0) s(f, pop); else if (how == 1) model.apply(f, pop); else model.evaluate(pop);
        { std::lock_guard<std::mutex> l(t.m); CHECK(t.active == 0, "returned while " << t.active << " individuals were being processed"); CHECK(t.strangers == 0, "called on something that is not in the population"); CHECK(t.overlapped == 0, "one individual processed by two workers at once"); CHECK(pop.size() == n, "population of " << pop.size() << " instead of " << n); for (unsigned i = 0; i < n; ++i) { CHECK(t.calls[i] == 1, "individual " << i << " of " << n << " processed " << t.calls[i] << " times by " << w << " workers (use " << k << ")"); CHECK(pop[i].id == (int)i && pop[i].touched == 1 && !pop[i].invalid() && pop[i].fitness() == 2.0 * i + 1, "individual " << i << " not as the function left it"); } std::map<std::thread::id, unsigned> load; for (unsigned i = 0; i < n; ++i) ++load[t.by[i]]; CHECK(load.size() <= w, load.size() << " threads used for " << w << " workers"); if (linear && n) { unsigned lo = n, hi = 0; for (auto& l : load) { lo = std::min(lo, l.second); hi = std::max(hi, l.second); } if (load.size() < w) lo = 0; CHECK(hi - lo <= 1, "loads between " << lo << " and " << hi << " for " << n << " individuals and " << w << " workers"); } } if (n > w) big = true; g.label("population", n == 0 ? "empty" : n < w ? "fewer than workers" : n == w ? "one each" : "more than workers"); }
    g.nontrivial(big && w > 1); g.label("policy", linear ? "linear" : "progressive"); g.note(w).note(" workers, ").note(rounds).note(" uses");
}
// ---- algorithms
typedef eoBit<double> B;
struct Ones : public eoEvalFunc<B> { std::atomic<unsigned> n; unsigned us; Ones(unsigned u) : n(0), us(u) {} void operator()(B& b) { ++n; double s = 0; for (unsigned i = 0; i < b.size(); ++i) s += b[i] * (1 + i % 3); spin(us ? (unsigned)s * us % 40 : 0); b.fitness(s); } };
struct Cnt : public eoContinue<B> { unsigned calls, gens; std::vector<std::vector<double>> seen; Cnt(unsigned g) : calls(0), gens(g) {} bool operator()(const eoPop<B>& p) { seen.push_back({}); for (auto& x : p) seen.back().push_back(x.invalid() ? -1 : x.fitness()); return ++calls < gens; } std::string className() const { return "Cnt"; } };
struct Lose : public eoReplacement<B> { int by; Lose(int b) : by(b) {} void operator()(eoPop<B>& a, eoPop<B>& b) { if (by < 0) a.pop_back(); else if (by > 0) a.push_back(a[0]); } };
struct More : public eoBreed<B> { unsigned k; More(unsigned n) : k(n) {} void operator()(const eoPop<B>& p, eoPop<B>& off) { for (unsigned i = 0; i < k; ++i) { off.push_back(p[i % p.size()]); off.back()[0] = !off.back()[0]; off.back().invalidate(); } } }; // adds to what is there
template <class Policy> void ea(pbt::Gen& g) {
    unsigned n = g.size(1, 12), len = g.size(1, 8), w = g.range(1, 6), gens = g.range(1, 4), us = g.draw(1) * 3, seed = g.range(1, 99999); int by = g.chance(1, 6) ? g.oneof({-1, 1}) : 0; int style = g.draw(2); double rate = g.oneof({1.0, 0.5, 2.0}); eoPop<B> start; Ones ev(0), ev2(us); for (unsigned i = 0; i < n; ++i) { B b(len, false); for (unsigned j = 0; j < len; ++j) b[j] = g.boolean(); if (g.boolean()) ev(b); start.push_back(b); } ev.n = 0; Cnt c(gens), c2(gens); eoDetTournamentSelect<B> one(2); eoSelectPerc<B> sel(one, rate); eo1PtBitXover<B> x; eoBitMutation<B> m(0.3); eoSGATransform<B> tr(x, 0.8, m, 0.7); eoPlusReplacement<B> plus; eoCommaReplacement<B> comma; Lose lose(by); eoReplacement<B>& rep = by ? (eoReplacement<B>&)lose : style == 0 && rate >= 1 ? (eoReplacement<B>&)comma : plus; eoSelectTransform<B> st(sel, tr); More more(g.range(1, 3)); eoBreed<B>& breed = style && g.boolean() ? (eoBreed<B>&)more : st; eoPlus<B> merge; eoLinearTruncate<B> reduce; std::unique_ptr<eoAlgo<B>> a, b; if (style == 0) { a.reset(new eoEasyEA<B>(c, ev, sel, tr, rep)); b.reset(new MWModel<eoEasyEA, B, Policy>(w, c2, ev2, sel, tr, rep)); } else if (style == 1 || by) { a.reset(new eoEasyEA<B>(c, ev, breed, rep)); b.reset(new MWModel<eoEasyEA, B, Policy>(w, c2, ev2, breed, rep)); } else { a.reset(new eoEasyEA<B>(c, ev, breed, merge, reduce)); b.reset(new MWModel<eoEasyEA, B, Policy>(w, c2, ev2, breed, merge, reduce)); }
    unsigned runs = by ? 1 : g.range(1, 2); for (unsigned r = 0; r < runs; ++r) { if (r) { c.calls = c2.calls = 0; } eoPop<B> p(start), q(start); bool t1 = false, t2 = false; eo::rng.reseed(seed + r); eo::rng.clearCache(); try { (*a)(p); } catch (eoException&) { t1 = true; } uint32_t next = eo::rng.rand(); eo::rng.reseed(seed + r); eo::rng.clearCache(); try { (*b)(q); } catch (eoException&) { t2 = true; } uint32_t next2 = eo::rng.rand(); CHECK(t1 == t2 && t1 == (by != 0), "a replacement that changes the population size: refused " << t2); CHECK(c2.calls == c.calls && c2.seen == c.seen, "continuator called " << c2.calls << " times instead of " << c.calls << ", or with another population"); CHECK(ev2.n == ev.n, ev2.n << " evaluations instead of " << ev.n); CHECK(p.size() == q.size(), "population of " << q.size() << " instead of " << p.size()); for (unsigned i = 0; i < p.size(); ++i) { CHECK((const std::vector<bool>&)p[i] == (const std::vector<bool>&)q[i] && p[i].invalid() == q[i].invalid(), "individual " << i << " differs from the sequential run"); if (!p[i].invalid()) CHECK(p[i].fitness() == q[i].fitness(), "fitness of individual " << i << " differs from the sequential run"); } CHECK(next == next2, "random numbers drawn differ from the sequential run"); }
    g.nontrivial(n > 1 && w > 1); g.note(n).note(" individuals, ").note(w).note(" workers, ").note(gens).note(" generations");
}
typedef eoRealParticle<double> P;
struct Sphere : public eoEvalFunc<P> { std::atomic<unsigned> n; unsigned us; Sphere(unsigned u) : n(0), us(u) {} void operator()(P& p) { ++n; double s = 0; for (unsigned i = 0; i < p.size(); ++i) s -= (p[i] - i) * (p[i] - i); spin(us ? (unsigned)(-s * 7) % (us * 20) : 0); p.fitness(s); } };
struct PCnt : public eoContinue<P> { unsigned calls, gens; PCnt(unsigned g) : calls(0), gens(g) {} bool operator()(const eoPop<P>&) { return ++calls < gens; } std::string className() const { return "PCnt"; } };
const double inertia = 0.7, own = 1.2, social = 1.1;
struct Swarm { eoUniformGenerator<double> vg; eoVelocityInitFixedLength<P> vi; eoFirstIsBestInit<P> bi; eoRingTopology<P> top; eoPop<P> pop; Sphere ev; PCnt cont; eoInitializer<P> init; eoRealVectorBounds bounds; eoStandardVelocity<P> vel; eoStandardFlight<P> fly; Swarm(const eoPop<P>& p, unsigned len, unsigned us, unsigned gens) : vg(-0.5, 0.5), vi(len, vg), top(2), pop(p), ev(us), cont(gens), init(ev, vi, bi, top, pop), bounds(len, -1, 1), vel(top, inertia, own, social, bounds) {} };
template <class Policy> void pso(pbt::Gen& g) {
    unsigned n = g.range(2, 8), len = g.size(1, 4), w = g.range(1, 6), gens = g.range(1, 4), us = g.draw(1), seed = g.range(1, 99999); bool sync = g.boolean(); eoPop<P> start; for (unsigned i = 0; i < n; ++i) { P p(len); for (unsigned j = 0; j < len; ++j) p[j] = g.grid(8, 0.25); start.push_back(p); } Swarm a(start, len, 0, gens), b(start, len, us, gens); eo::rng.reseed(seed); eo::rng.clearCache(); if (sync) { eoSyncEasyPSO<P> s(a.init, a.cont, a.ev, a.vel, a.fly); s(a.pop); } else { a.init(); do { for (unsigned i = 0; i < n; ++i) { a.vel(a.pop[i], i); a.fly(a.pop[i]); } for (unsigned i = 0; i < n; ++i) a.ev(a.pop[i]); for (unsigned i = 0; i < n; ++i) a.vel.updateNeighborhood(a.pop[i], i); } while (a.cont(a.pop)); } eo::rng.reseed(seed); eo::rng.clearCache(); if (sync) { MWModel<eoSyncEasyPSO, P, Policy> s(w, b.init, b.cont, b.ev, b.vel, b.fly); s(b.pop); } else { MWModel<eoEasyPSO, P, Policy> s(w, b.init, b.cont, b.ev, b.vel, b.fly); s(b.pop); } CHECK(b.cont.calls == gens, b.cont.calls << " generations instead of " << gens); CHECK(b.ev.n == n * (gens + 1), b.ev.n << " evaluations instead of " << n * (gens + 1)); CHECK(b.pop.size() == n, "swarm of " << b.pop.size()); for (unsigned i = 0; i < n; ++i) { const P &x = a.pop[i], &y = b.pop[i]; CHECK((const std::vector<double>&)x == (const std::vector<double>&)y && x.velocities == y.velocities && x.bestPositions == y.bestPositions && x.best() == y.best() && x.fitness() == y.fitness(), "particle " << i << " differs from the sequential run"); for (unsigned k = 0; k < n; ++k) CHECK(a.top.best(i).fitness() == b.top.best(i).fitness(), "best of the neighbourhood"); } CHECK(a.top.globalBest().fitness() == b.top.globalBest().fitness(), "global best");
    g.nontrivial(w > 1); g.label("swarm", sync ? "synchronous" : "asynchronous"); g.note(n).note(" particles, ").note(w).note(" workers, ").note(gens).note(" generations");
}
template <class EOT> struct Other : public eoAlgo<EOT> { eoEvalFunc<EOT>& eval; Other(eoEvalFunc<EOT>& e) : eval(e) {} void operator()(eoPop<EOT>&) {} };
}
PBT(linear_workers, 500, 5000) { once<LinearPolicy>(g, true); }
PBT(progressive_workers, 500, 5000) { once<ProgressivePolicy>(g, false); }
PBT(evolutionary_algorithm, 400, 4000) { if (g.boolean()) ea<LinearPolicy>(g); else ea<ProgressivePolicy>(g); }
PBT(particle_swarms, 300, 3000) { if (g.boolean()) pso<LinearPolicy>(g); else pso<ProgressivePolicy>(g); }
PBT(default_workers, 30, 200) {
    unsigned n = g.size(0, 30); eoPop<Ind> pop; for (unsigned i = 0; i < n; ++i) pop.push_back(Ind(i)); Touch t(plan(g, n), pop); Call f; f.t = &t; Never c; NoBreed b; NoRep r; MWModel<eoEasyEA, Ind> model(c, f, b, r); model.evaluate(pop); for (unsigned i = 0; i < n; ++i) CHECK(t.calls[i] == 1, "individual " << i << " processed " << t.calls[i] << " times"); MWModel<Other, Ind> other(2, f); bool refused = false; try { other(pop); } catch (eoException&) { refused = true; } CHECK(refused, "an algorithm without parallel form is accepted"); g.nontrivial(n > 0); g.note(n);
}

// the same with larger sizes
PBT_LARGE(linear_workers, 12, 125, 10)
PBT_LARGE(progressive_workers, 12, 125, 10)
PBT_LARGE(evolutionary_algorithm, 10, 100, 10)
PBT_LARGE(particle_swarms, 10, 100, 10)
PBT_LARGE(default_workers, 10, 100, 10)
