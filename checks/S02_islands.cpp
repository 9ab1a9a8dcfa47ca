// S02: island topologies and migration.
#include "eo_support.hpp"
#include <ga.h>
#include <smp>
#include <topology/customStochasticTopology.h>
#include <atomic>
#include <chrono>
#include <filesystem>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using namespace paradiseo::smp;
namespace {
struct Scratch { std::filesystem::path p; Scratch() { char t[] = "/tmp/verif-S02-XXXXXX"; p = mkdtemp(t); } ~Scratch() { std::error_code e; std::filesystem::remove_all(p, e); } std::string put(const std::string& s) { static int k = 0; std::string f = (p / ("t" + std::to_string(++k))).string(); std::ofstream(f.c_str()) << s; return f; } };
typedef std::vector<unsigned> Ids;
typedef std::vector<std::vector<bool>> Links;
// ---- the neighbours each topology is defined by
enum Kind { COMPLETE, RING, STAR, MESH, CUBE, CUSTOM };
Links links(Kind k, unsigned n, unsigned centre, double ratio) {
    Links m(n, std::vector<bool>(n, false)); unsigned width = n; if (k == MESH) { double best = 1e300; for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0) { double d = std::fabs(double(h) * h / n - ratio); if (d < best - 1e-12) { best = d; width = n / h; } } }
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j) { if (k == COMPLETE) m[i][j] = true; else if (k == RING) m[i][j] = j == (i + 1) % n; else if (k == STAR) m[i][j] = j == centre; else if (k == MESH) { int di = i / width, dj = j / width, ci = i % width, cj = j % width; m[i][j] = std::abs(di - dj) + std::abs(ci - cj) == 1; } else if (k == CUBE) { unsigned x = i ^ j; m[i][j] = (x & (x - 1)) == 0; } }
    return m;
}
Ids ids(const Links& m, unsigned i) { Ids r; for (unsigned j = 0; j < m.size(); ++j) if (m[i][j]) r.push_back(j); return r; }
void same(const AbstractTopology& t, const Links& m, const std::string& what) { for (unsigned i = 0; i < m.size(); ++i) { Ids a = t.getIdNeighbors(i), b = ids(m, i); std::sort(a.begin(), a.end()); CHECK(a == b, what << " of " << m.size() << ": neighbours of " << i << " are " << pbt::strv(a) << " instead of " << pbt::strv(b)); } }
void isolate(pbt::Gen& g, AbstractTopology& t, Links m, const std::string& what) { for (int k = g.draw(3); k > 0 && !m.empty(); --k) { unsigned i = g.draw(m.size() - 1); t.isolateNode(i); for (unsigned j = 0; j < m.size(); ++j) m[i][j] = m[j][i] = false; same(t, m, what + " with isolated nodes"); } }
template <class T> void builder(pbt::Gen& g, Kind k, const std::string& what) {
    Topology<T> t; unsigned most = 0; for (int round = g.range(1, 3); round > 0; --round) { unsigned n = k == CUBE ? 1u << g.draw(5) : g.chance(1, 4) ? g.range(1, 3) : g.range(1, 30), centre = 0; double ratio = 1; if constexpr (std::is_same<T, Star>::value) { centre = g.draw(n - 1); t.getBuilder().setCenter(centre); } if constexpr (std::is_same<T, Mesh>::value) { ratio = g.chance(1, 3) ? 1 : g.draw(20) / 20.0; t.getBuilder().setRatio(ratio); if (g.boolean()) { unsigned h = 1; for (unsigned q = 1; q * q <= n; ++q) if (n % q == 0 && g.boolean()) h = q; ratio = double(h) * h / n; t.getBuilder().setRatio(ratio); } double d1 = 1e300, d2 = 1e300; for (unsigned h = 1; h * h <= n; ++h) if (n % h == 0) { double d = std::fabs(double(h) * h / n - ratio); if (d < d1) { d2 = d1; d1 = d; } else d2 = std::min(d2, d); } if (d2 - d1 < 1e-9) g.discard(); } Links m = links(k, n, centre, ratio); t.construct(n); same(t, m, what); isolate(g, t, m, what); most = std::max(most, n); } g.nontrivial(most > 2); g.label("topology", what); g.note(what).note(" of ").note(most);
}
void files(pbt::Gen& g) {
    Scratch dir; unsigned n = g.range(1, 6); bool stoch = g.boolean(); Links m(n, std::vector<bool>(n)); std::vector<std::vector<double>> p(n, std::vector<double>(n)); std::ostringstream o; auto blank = [&]() { if (g.chance(1, 6)) o << (g.boolean() ? "\n" : "  \n"); }; for (unsigned i = 0; i < n; ++i) { if (i) blank(); for (unsigned j = 0; j < n; ++j) { m[i][j] = g.boolean(); p[i][j] = stoch ? g.oneof({0.0, 1.0, 0.25, 0.5, -1.5, 3.0}) : m[i][j]; if (g.chance(1, 8)) o << " "; o << p[i][j] << (j + 1 < n || g.boolean() ? " " : ""); } o << "\n"; } blank(); int wrong = g.chance(1, 4) ? 1 + g.draw(2) : 0; std::string text = o.str(); if (wrong == 1) { text += "1"; for (unsigned j = 1; j < n; ++j) text += " 0"; text += "\n"; } else if (wrong == 2) text += "1 0 1 0 1 0 1 0 1\n"; std::string f = wrong == 3 ? (dir.p / "nothing").string() : dir.put(text); std::shared_ptr<AbstractTopology> t; bool refused = false; try { if (stoch) t.reset(new CustomStochasticTopology(f)); else t.reset(new CustomBooleanTopology(f)); } catch (std::exception&) { refused = true; } if (wrong) { CHECK(refused, "topology that is not square (or missing) accepted: " << text); g.nontrivial(true); g.note("refused"); return; } CHECK(!refused, "topology refused: " << text);
    for (int round = 0; round < 2; ++round) { t->construct(n); if (!stoch) { same(*t, m, "custom topology"); isolate(g, *t, m, "custom topology"); } else { const unsigned N = 400; std::vector<std::vector<unsigned>> c(n, std::vector<unsigned>(n)); for (unsigned k = 0; k < N; ++k) for (unsigned i = 0; i < n; ++i) { Ids a = t->getIdNeighbors(i); CHECK(std::set<unsigned>(a.begin(), a.end()).size() == a.size(), "neighbour given twice"); for (unsigned j : a) { CHECK(j < n, "neighbour " << j << " of " << n); ++c[i][j]; } } for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { double q = std::min(1.0, std::max(0.0, p[i][j])), e = N * q; CHECK(std::fabs(c[i][j] - e) <= (q > 0 && q < 1 ? 8 * std::sqrt(e * (1 - q)) + 6 : 0), "link of probability " << q << " used " << c[i][j] << " times of " << N); } unsigned x = g.draw(n - 1); t->isolateNode(x); for (unsigned k = 0; k < 30; ++k) { CHECK(t->getIdNeighbors(x).empty(), "isolated node has neighbours"); for (unsigned i = 0; i < n; ++i) for (unsigned j : t->getIdNeighbors(i)) CHECK(j != x, "isolated node is a neighbour"); } } } g.nontrivial(n > 1); g.label("topology", stoch ? "stochastic file" : "boolean file"); g.note(n);
}
// ---- migration
typedef std::chrono::steady_clock Clock;
void spin(unsigned us) { if (!us) return; if (us > 300) { std::this_thread::sleep_for(std::chrono::microseconds(us)); return; } Clock::time_point end = Clock::now() + std::chrono::microseconds(us); while (Clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(20)); }
std::atomic<unsigned> lag(0), copies(0); // copying takes time, so that what must not happen meanwhile has time to happen
struct Mig : public EO<double> { int from, serial; Mig(int f = -1, int s = -1) : from(f), serial(s) {} Mig(const Mig& o) : EO<double>(o), from(o.from), serial(o.serial) { unsigned us = lag; if (us) spin(us * (++copies % 3)); } Mig& operator=(const Mig&) = default; bool operator==(const Mig& o) const { return from == o.from && serial == o.serial; } };
struct Loc : public EO<double> { long code; Loc(long c = -1) : code(c) {} }; // the same information in another form
int from(const Mig& m) { return m.from; } int serial(const Mig& m) { return m.serial; }
int from(const Loc& m) { return m.code / 10000 - 1; } int serial(const Loc& m) { return m.code % 10000; }
void make(Mig& m, int f, int s) { m = Mig(f, s); } void make(Loc& m, int f, int s) { m = Loc((f + 1) * 10000L + s); }
typedef std::vector<std::pair<int, int>> Group; // who and which, of one group of migrants
struct Hub { // what happened, and where everybody is
    std::mutex m; unsigned n; std::vector<std::vector<Group>> sent, got; std::vector<unsigned> evals, finished; unsigned phase, phases, received, expected; bool late, wrongFitness, foreign; std::vector<Links> links; std::function<void(unsigned)> change; std::vector<int> isolated; std::set<unsigned> routed; Clock::time_point limit;
    Hub(unsigned k) : n(k), sent(k), got(k), evals(k), finished(k), phase(0), phases(1), received(0), expected(0), late(false), wrongFitness(false), foreign(false), isolated(k), limit(Clock::now() + std::chrono::seconds(8)) {}
    bool waiting() { if (Clock::now() > limit) { std::lock_guard<std::mutex> l(m); late = true; return false; } return true; }
};
struct Ctl { Hub* hub; unsigned id; std::vector<std::vector<unsigned>> delay; std::vector<std::vector<int>> groups, more; unsigned step, calls; bool keep; Ctl() : hub(0), id(0), step(0), calls(0), keep(true) {} bool due; bool also = false; };
double grade(unsigned island, int f, int s) { return 100.0 * island + 7 * f + s; }
template <class E> struct Eva : public eoEvalFunc<E> { Ctl& c; Eva(Ctl& k) : c(k) {} void operator()(E& e) { if (!e.invalid()) return; { std::lock_guard<std::mutex> l(c.hub->m); ++c.hub->evals[c.id]; } e.fitness(grade(c.id, from(e), serial(e))); } };
template <class E> struct Cri : public eoContinue<E> { Ctl& c; bool two; Cri(Ctl& k, bool t = false) : c(k), two(t) {} bool operator()(const eoPop<E>&) { return !(two ? c.also : c.due); } std::string className() const { return "Cri"; } };
template <class E> struct Con : public eoContinue<E> { Ctl& c; Con(Ctl& k) : c(k) {} bool operator()(const eoPop<E>&) { ++c.calls; return true; } std::string className() const { return "Con"; } };
template <class E> struct Sel : public eoSelect<E> { Ctl& c; bool two; Sel(Ctl& k, bool t = false) : c(k), two(t) {} void operator()(const eoPop<E>& p, eoPop<E>& out) { Group gr; out.clear(); unsigned k = (two ? c.more : c.groups)[c.hub->phase][c.step]; for (unsigned i = 0; i < k; ++i) { E e; make(e, c.id, 100 * (c.hub->phase + 1) + 10 * c.step + 5 * two + i); e.fitness(-12345); out.push_back(e); gr.push_back({(int)c.id, serial(e)}); } std::lock_guard<std::mutex> l(c.hub->m); c.hub->sent[c.id].push_back(gr); c.hub->expected += ids(c.hub->links[c.hub->phase], c.id).size(); } };
template <class E> struct Int : public eoReplacement<E> { Ctl& c; Int(Ctl& k) : c(k) {} void operator()(eoPop<E>& p, eoPop<E>& off) { Group gr; std::lock_guard<std::mutex> l(c.hub->m); for (auto& e : off) { gr.push_back({from(e), serial(e)}); if (e.invalid() || e.fitness() != grade(c.id, from(e), serial(e))) c.hub->wrongFitness = true; } if (!c.keep) { unsigned n = p.size(); for (auto& e : off) p.push_back(e); std::stable_sort(p.begin(), p.end(), [](const E& a, const E& b) { return a.fitness() > b.fitness(); }); p.resize(n); } c.hub->got[c.id].push_back(gr); ++c.hub->received; } };
// an algorithm that sends as planned, then stays until everything sent has arrived
template <class E> struct Stepper : public eoAlgo<E> {
    eoContinue<E>& cont; Ctl& c; Stepper(eoContinue<E>& k, eoEvalFunc<E>&, Ctl& ctl) : cont(k), c(ctl) {}
    void operator()(eoPop<E>& pop) {
        Hub& h = *c.hub; for (unsigned ph = 0; ph < h.phases; ++ph) { for (c.step = 0; c.step < c.groups[ph].size(); ++c.step) { spin(c.delay[ph][c.step]); c.due = c.groups[ph][c.step] >= 0; c.also = c.more[ph][c.step] >= 0; cont(pop); } c.due = c.also = false; bool leader = false; { std::lock_guard<std::mutex> l(h.m); leader = ++h.finished[ph] == 1; } (void)leader;
            while (h.waiting()) { cont(pop); { std::lock_guard<std::mutex> l(h.m); if (h.phase > ph) break; if (h.finished[ph] == h.n && h.received >= h.expected) { if (c.id == 0) { if (h.change && ph + 1 < h.phases) h.change(ph + 1); ++h.phase; break; } } } std::this_thread::sleep_for(std::chrono::microseconds(20)); }
            { std::lock_guard<std::mutex> l(h.m); if (h.late) return; } }
    }
};
template <class E> struct Seat { Ctl c; eoPop<E> pop; Eva<E> eval; Cri<E> cri, cri2; Con<E> con; Sel<E> sel, sel2; Int<E> integ; MigPolicy<E> mig; std::shared_ptr<AIsland<Mig>> island; Seat() : eval(c), cri(c), cri2(c, true), con(c), sel(c), sel2(c, true), integ(c) { mig.push_back(PolicyElement<E>(sel, cri)); mig.push_back(PolicyElement<E>(sel2, cri2)); } };
struct Place { std::unique_ptr<Seat<Mig>> a; std::unique_ptr<Seat<Loc>> b; Ctl& ctl() { return a ? a->c : b->c; } AIsland<Mig>& island() { return a ? *a->island : *b->island; } };
std::multiset<Group> bag(const std::vector<Group>& v) { return std::multiset<Group>(v.begin(), v.end()); }
std::string show(const std::multiset<Group>& b) { std::ostringstream o; for (auto& gr : b) { o << "("; for (auto& x : gr) o << x.first << ":" << x.second << " "; o << ")"; } return o.str(); }
struct Choice { std::shared_ptr<AbstractTopology> t; Links m; std::string name; };
Choice choose(pbt::Gen& g, unsigned n, Scratch& dir) { Choice c; int k = g.draw(5); if (k == CUBE && (n & (n - 1))) k = COMPLETE; unsigned centre = 0; double ratio = 1; switch (k) { case COMPLETE: c.t.reset(new Topology<Complete>); c.name = "complete"; break; case RING: c.t.reset(new Topology<Ring>); c.name = "ring"; break; case STAR: { Topology<Star>* s = new Topology<Star>; centre = g.draw(n - 1); s->getBuilder().setCenter(centre); c.t.reset(s); c.name = "star"; break; } case MESH: c.t.reset(new Topology<Mesh>); c.name = "mesh"; break; case CUBE: c.t.reset(new Topology<Hypercubic>); c.name = "hypercube"; break; default: { std::ostringstream o; c.m.assign(n, std::vector<bool>(n)); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) { c.m[i][j] = g.boolean(); o << c.m[i][j] << " "; } o << "\n"; } c.t.reset(new CustomBooleanTopology(dir.put(o.str()))); c.name = "custom"; } } if (k != CUSTOM) c.m = links((Kind)k, n, centre, ratio); return c; }
void migration(pbt::Gen& g) {
    Scratch dir; unsigned n = g.range(1, 5), runs = g.range(1, 2); std::vector<Place> places(n); bool uneven = g.boolean(), dense = false; Choice first = choose(g, n, dir); std::vector<Choice> kept; IslandModel<Mig> model(*first.t); AbstractTopology* current = first.t.get(); Links now = first.m; std::vector<bool> keep; for (unsigned i = 0; i < n; ++i) { Place& p = places[i]; unsigned k = g.range(1, 3); keep.push_back(g.boolean()); if (g.chance(3, 4)) { p.a.reset(new Seat<Mig>); for (unsigned j = 0; j < k; ++j) { Mig e(i, j); e.fitness(grade(i, i, j)); p.a->pop.push_back(e); } p.a->island.reset(new Island<Stepper, Mig>(p.a->pop, p.a->integ, p.a->mig, p.a->con, p.a->eval, p.a->c)); } else { p.b.reset(new Seat<Loc>); for (unsigned j = 0; j < k; ++j) { Loc e; make(e, i, j); e.fitness(grade(i, i, j)); p.b->pop.push_back(e); } p.b->island.reset(new Island<Stepper, Loc, Mig>([](Mig& m) { Loc l; make(l, m.from, m.serial); return l; }, [](Loc& l) { Mig m(from(l), serial(l)); m.fitness(-99); return m; }, p.b->pop, p.b->integ, p.b->mig, p.b->con, p.b->eval, p.b->c)); } p.ctl().id = i; p.ctl().keep = keep[i]; model.add(p.island()); }
    lag = g.boolean() ? g.range(5, 60) : 0; struct Off { ~Off() { lag = 0; } } off; for (unsigned run = 0; run < runs; ++run) { Hub hub(n); hub.phases = g.range(1, 2); hub.finished.assign(hub.phases, 0); if (run && g.boolean()) { kept.push_back(choose(g, n, dir)); model.setTopology(*kept.back().t); now = kept.back().m; g.label("change", "between runs"); } hub.links.push_back(now); std::vector<AbstractTopology*> next(1, (AbstractTopology*)0); for (unsigned ph = 1; ph < hub.phases; ++ph) { if (g.boolean()) { kept.push_back(choose(g, n, dir)); next.push_back(kept.back().t.get()); now = kept.back().m; g.label("change", "during a run"); } else next.push_back(0); hub.links.push_back(now); } hub.change = [&](unsigned ph) { if (next[ph]) { model.setTopology(*next[ph]); } };
        std::vector<unsigned> steps(n); for (unsigned i = 0; i < n; ++i) { Ctl& c = places[i].ctl(); c.hub = &hub; c.calls = 0; c.due = false; c.groups.clear(); c.more.clear(); c.delay.clear(); for (unsigned ph = 0; ph < hub.phases; ++ph) { c.groups.push_back({}); c.more.push_back({}); c.delay.push_back({}); for (int s = g.draw(4); s > 0; --s) { bool nobody = ph + 1 < hub.phases && ids(hub.links[ph], i).empty(); c.groups.back().push_back(g.chance(1, 3) || nobody ? -1 : (int)g.draw(3)); c.more.back().push_back(g.chance(1, 2) || nobody ? -1 : (int)g.draw(3)); // a group for nobody could wait until the topology changes
                 c.delay.back().push_back(uneven ? (g.chance(1, 5) ? 500 : g.draw(80)) : 0); ++steps[i]; } } }
        std::vector<eoPop<Mig>> beforeA(n); for (unsigned i = 0; i < n; ++i) if (places[i].a) beforeA[i] = places[i].a->pop; CHECK(!model.isRunning(), "running before the run"); model(); CHECK(!model.isRunning(), "running after the run"); std::lock_guard<std::mutex> l(hub.m); CHECK(!hub.foreign && !hub.wrongFitness, "a migrant was integrated without the fitness the island gives it");
        for (unsigned j = 0; j < n; ++j) { std::multiset<Group> want; unsigned people = 0; for (unsigned i = 0; i < n; ++i) { unsigned at = 0; for (unsigned ph = 0; ph < hub.phases; ++ph) for (unsigned s = 0; s < places[i].ctl().groups[ph].size(); ++s) for (int two = 0; two < 2; ++two) if ((two ? places[i].ctl().more : places[i].ctl().groups)[ph][s] >= 0) { CHECK(at < hub.sent[i].size(), "island " << i << " did not select its emigrants when its criterion asked for it"); if (hub.links[ph][i][j]) { want.insert(hub.sent[i][at]); people += hub.sent[i][at].size(); } ++at; } CHECK(at == hub.sent[i].size(), "island " << i << " sent " << hub.sent[i].size() << " groups instead of " << at); if (ids(hub.links[0], i).size() > 1 && at) dense = true; } CHECK(bag(hub.got[j]) == want, "island " << j << " of " << n << " received " << show(bag(hub.got[j])) << " instead of " << show(want) << " (run " << run << ", first topology " << first.name << ")"); CHECK(hub.evals[j] == people, "island " << j << " evaluated " << hub.evals[j] << " migrants instead of " << people); unsigned size = places[j].a ? places[j].a->pop.size() : places[j].b->pop.size(); CHECK(places[j].ctl().calls >= steps[j], "continuator called " << places[j].ctl().calls << " times for " << steps[j] << " steps"); CHECK(places[j].island().isStopped(), "island not stopped after the run"); if (places[j].a && (keep[j] || hub.got[j].empty())) { CHECK(size == beforeA[j].size() && std::equal(beforeA[j].begin(), beforeA[j].end(), places[j].a->pop.begin()), "population of island " << j << " changed"); } } CHECK(!hub.late, "migrants still missing after 8 s"); }
    g.nontrivial(dense); g.label("topology", first.name); g.note(n).note(" islands, ").note(first.name).note(", ").note(runs).note(" runs");
}
// stopped islands leave the topology: the others wait for it, then send
struct Recorder : public AbstractTopology { Hub* hub; Links m; unsigned built; Recorder() : hub(0), built(0) {} Ids getIdNeighbors(unsigned i) const { std::lock_guard<std::mutex> l(hub->m); hub->routed.insert(i); return ids(m, i); } void construct(unsigned n) { ++built; std::lock_guard<std::mutex> l(hub->m); m = links(COMPLETE, n, 0, 1); } void isolateNode(unsigned i) { std::lock_guard<std::mutex> l(hub->m); ++hub->isolated[i]; for (unsigned j = 0; j < m.size(); ++j) m[i][j] = m[j][i] = false; } };
template <class E> struct Leaver : public eoAlgo<E> { eoContinue<E>& cont; Ctl& c; Leaver(eoContinue<E>& k, eoEvalFunc<E>&, Ctl& ctl) : cont(k), c(ctl) {}
    void operator()(eoPop<E>& pop) { Hub& h = *c.hub; c.step = 0; spin(c.delay[0][0]); if (c.groups[0].empty()) { cont(pop); return; } while (h.waiting()) { cont(pop); std::lock_guard<std::mutex> l(h.m); bool all = true; for (unsigned i = 0; i < h.n; ++i) if (h.links[0][i].empty() && !h.isolated[i]) all = false; if (all) break; } { bool first; { std::lock_guard<std::mutex> l(h.m); first = h.change && ++h.phase == 1; } if (first) { h.change(0); std::lock_guard<std::mutex> l(h.m); h.phase = 1000; } while (h.change && h.waiting()) { { std::lock_guard<std::mutex> l(h.m); if (h.phase >= 1000) break; } std::this_thread::yield(); } } c.due = true; cont(pop); c.due = false; { std::lock_guard<std::mutex> l(h.m); ++h.finished[0]; } while (h.waiting()) { cont(pop); { std::lock_guard<std::mutex> l(h.m); if (h.finished[0] == h.expected && h.received >= h.expected * (h.expected - 1)) break; } std::this_thread::sleep_for(std::chrono::microseconds(20)); } } };
struct LSel : public eoSelect<Mig> { Ctl& c; LSel(Ctl& k) : c(k) {} void operator()(const eoPop<Mig>& p, eoPop<Mig>& out) { out.clear(); for (int i = 0; i < c.groups[0][0]; ++i) out.push_back(Mig(c.id, i)); } };
void leaving(pbt::Gen& g) {
    unsigned n = g.range(2, 5), stay = 0; Hub hub(n); hub.links.assign(1, Links(n)); std::vector<bool> leaves; for (unsigned i = 0; i < n; ++i) { leaves.push_back(g.boolean()); if (!leaves[i]) { hub.links[0][i].push_back(true); ++stay; } } hub.expected = stay; Recorder topo; topo.hub = &hub; IslandModel<Mig> model(topo); struct Spot { Ctl c; eoPop<Mig> pop; Eva<Mig> eval; Cri<Mig> cri; Con<Mig> con; LSel sel; Int<Mig> integ; MigPolicy<Mig> mig; std::unique_ptr<Island<Leaver, Mig>> island; Spot() : eval(c), cri(c), con(c), sel(c), integ(c) { mig.push_back(PolicyElement<Mig>(sel, cri)); } }; std::vector<std::unique_ptr<Spot>> s; for (unsigned i = 0; i < n; ++i) { s.emplace_back(new Spot); Spot& x = *s[i]; x.c.hub = &hub; x.c.id = i; x.c.due = false; x.c.delay.assign(1, std::vector<unsigned>(1, g.chance(1, 3) ? 400 : g.draw(50))); x.c.groups.assign(1, {}); if (!leaves[i]) x.c.groups[0].push_back(g.range(1, 3)); Mig e(i, 0); e.fitness(0); x.pop.push_back(e); x.island.reset(new Island<Leaver, Mig>(x.pop, x.integ, x.mig, x.con, x.eval, x.c)); model.add(*x.island); CHECK(&x.island->getPop() == &x.pop, "getPop"); }
    Recorder other; Hub second(n); other.hub = &second; bool change = g.boolean() && stay; if (change) hub.change = [&](unsigned) { model.setTopology(other); }; model(); if (change) { CHECK(other.built >= 1, "new topology constructed " << other.built << " times"); for (unsigned i = 0; i < n; ++i) CHECK(second.isolated[i] >= 1 && (hub.isolated[i] > 0) == leaves[i], "island " << i << " isolated " << hub.isolated[i] << " times from the topology, and " << second.isolated[i] << " times from the one set after it stopped"); } CHECK(!hub.late, "an island that stopped was not isolated, or migrants are missing, after 8 s"); CHECK(topo.built >= 1, "topology constructed " << topo.built << " times"); for (unsigned i = 0; i < n; ++i) { CHECK(change || hub.isolated[i] >= 1, "island " << i << " isolated " << hub.isolated[i] << " times"); std::multiset<Group> want; if (!leaves[i]) for (unsigned j = 0; j < n; ++j) if (j != i && !leaves[j]) { Group gr; for (int k = 0; k < s[j]->c.groups[0][0]; ++k) gr.push_back({(int)j, k}); want.insert(gr); } CHECK(bag(hub.got[i]) == want, "island " << i << (leaves[i] ? " (stopped before)" : "") << " received " << show(bag(hub.got[i])) << " instead of " << show(want)); } g.nontrivial(stay > 0 && stay < n); g.note(stay).note(" of ").note(n).note(" stay");
}
// what is on its way when the islands stop is integrated before the model returns
template <class E> struct Thrower : public eoAlgo<E> { eoContinue<E>& cont; Ctl& c; Thrower(eoContinue<E>& k, eoEvalFunc<E>&, Ctl& ctl) : cont(k), c(ctl) {} void operator()(eoPop<E>& pop) { Hub& h = *c.hub; spin(c.delay[0][0]); c.due = true; if (c.groups[0][0] > 0) cont(pop); c.due = false; while (h.waiting()) { { std::lock_guard<std::mutex> l(h.m); if (h.routed.size() >= h.expected) break; } std::this_thread::sleep_for(std::chrono::microseconds(20)); } } };
void lastGroups(pbt::Gen& g) {
    unsigned n = g.range(2, 5); Recorder topo; IslandModel<Mig> model(topo); struct Spot { Ctl c; eoPop<Mig> pop; Eva<Mig> eval; Cri<Mig> cri; Con<Mig> con; LSel sel; Int<Mig> integ; MigPolicy<Mig> mig; std::unique_ptr<Island<Thrower, Mig>> island; Spot() : eval(c), cri(c), con(c), sel(c), integ(c) { mig.push_back(PolicyElement<Mig>(sel, cri)); } }; std::vector<std::unique_ptr<Spot>> s; for (unsigned i = 0; i < n; ++i) { s.emplace_back(new Spot); Spot& x = *s[i]; x.c.id = i; x.c.due = false; Mig e(i, 0); e.fitness(0); x.pop.push_back(e); x.island.reset(new Island<Thrower, Mig>(x.pop, x.integ, x.mig, x.con, x.eval, x.c)); model.add(*x.island); }
    lag = g.boolean() ? g.range(5, 60) : 0; struct Off { ~Off() { lag = 0; } } off; bool some = false; for (int run = g.range(1, 2); run > 0; --run) { Hub hub(n); topo.hub = &hub; for (auto& x : s) { x->c.hub = &hub; x->c.delay.assign(1, std::vector<unsigned>(1, g.chance(1, 3) ? 400 : g.draw(50))); x->c.groups.assign(1, std::vector<int>(1, g.chance(1, 3) ? 0 : g.range(1, 3))); hub.expected += x->c.groups[0][0] > 0; } model(); CHECK(!hub.late, "groups sent were not routed after 8 s"); for (unsigned i = 0; i < n; ++i) { std::multiset<Group> want; unsigned people = 0; for (unsigned j = 0; j < n; ++j) if (j != i && s[j]->c.groups[0][0] > 0) { Group gr; for (int k = 0; k < s[j]->c.groups[0][0]; ++k) { gr.push_back({(int)j, k}); ++people; } want.insert(gr); } CHECK(bag(hub.got[i]) == want, "when the model returned, island " << i << " had received " << show(bag(hub.got[i])) << " instead of " << show(want)); CHECK(hub.evals[i] == people, hub.evals[i] << " evaluations of " << people << " migrants"); CHECK(hub.isolated[i] >= 1, "island isolated " << hub.isolated[i] << " times"); } CHECK(!hub.wrongFitness, "fitness of a migrant"); some = some || hub.expected > 0; } g.nontrivial(some); g.note(n).note(" islands");
}
// ---- whole evolutionary islands, with operators that share nothing
typedef eoBit<double> B;
double ones(const B& b) { double s = 0; for (unsigned i = 0; i < b.size(); ++i) s += b[i] * (i + 1); return s; }
struct OEval : public eoEvalFunc<B> { void operator()(B& b) { b.fitness(ones(b)); } };
struct Flip : public eoBreed<B> { std::atomic<unsigned> calls; unsigned us; Flip(unsigned u) : calls(0), us(u) {} void operator()(const eoPop<B>& p, eoPop<B>& off) { unsigned k = calls++; spin(us); off.clear(); for (unsigned i = 0; i < p.size(); ++i) { B b(p[i]); if (b.size()) { unsigned at = (k + i) % b.size(); b[at] = !b[at]; } b.invalidate(); off.push_back(b); } } };
struct Gens : public eoContinue<B> { std::atomic<unsigned> calls; unsigned most; std::atomic<unsigned> bad; unsigned size; Gens(unsigned m, unsigned s) : calls(0), most(m), bad(0), size(s) {} bool operator()(const eoPop<B>& p) { if (p.size() != size) ++bad; for (auto& b : p) if (b.invalid() || b.fitness() != ones(b)) ++bad; return ++calls < most; } std::string className() const { return "Gens"; } };
struct Every : public eoContinue<B> { std::atomic<unsigned> k; unsigned period; Every(unsigned p) : k(0), period(p) {} bool operator()(const eoPop<B>&) { return ++k % period != 0; } std::string className() const { return "Every"; } };
struct Best : public eoSelect<B> { unsigned k; Best(unsigned n) : k(n) {} void operator()(const eoPop<B>& p, eoPop<B>& out) { out.clear(); std::vector<const B*> v; p.sort(v); for (unsigned i = 0; i < k && i < v.size(); ++i) out.push_back(*v[i]); } };
void evolution(pbt::Gen& g) {
    Scratch dir; unsigned n = g.range(1, 5), size = g.range(1, 6), len = g.range(1, 6); Choice t = choose(g, n, dir); OEval ev; bool wrapper = g.chance(1, 3), alone = !wrapper && g.chance(1, 6); eoPlusReplacement<B> plus; if (wrapper) { Gens cont(g.range<unsigned>(n, 6 * n), size); Flip breed(g.draw(40)); Every every(g.range(1, 4)); Best best(g.draw(3)); MigPolicy<B> mig; mig.push_back(PolicyElement<B>(best, every)); if (g.boolean()) mig.push_back(PolicyElement<B>(best, every)); eoBooleanGenerator gen; eoInitFixedLength<B> init(len, gen); std::vector<eoPop<B>> pops = IslandModelWrapper<eoEasyEA, B>(n, *t.t, size, init, plus, mig, cont, ev, breed, plus); CHECK(pops.size() == n, pops.size() << " populations instead of " << n); for (auto& p : pops) { CHECK(p.size() == size, "population of " << p.size() << " instead of " << size); for (auto& b : p) CHECK(b.size() == len && !b.invalid() && b.fitness() == ones(b), "individual whose fitness is not its value"); } CHECK(cont.bad == 0, "a population was not as it should be during the run"); g.nontrivial(n > 1); g.note("wrapper of ").note(n); return; }
    IslandModel<B> model(*t.t); struct Site { eoPop<B> pop; Gens cont; Flip breed; Every every; Best best; MigPolicy<B> mig; std::unique_ptr<Island<eoEasyEA, B>> island; Site(unsigned gens, unsigned size, unsigned us, unsigned per, unsigned k) : cont(gens, size), breed(us), every(per), best(k) { mig.push_back(PolicyElement<B>(best, every)); } }; std::vector<std::unique_ptr<Site>> s; std::vector<double> was; std::vector<unsigned> gens; for (unsigned i = 0; i < n; ++i) { unsigned sz = g.range(1, 6); gens.push_back(g.range(1, 12)); s.emplace_back(new Site(gens[i], sz, g.draw(60), g.range(1, 4), g.draw(3))); double top = -1; for (unsigned j = 0; j < sz; ++j) { B b(len, false); for (unsigned k = 0; k < len; ++k) b[k] = g.chance(1, 3); if (g.boolean()) ev(b); s[i]->pop.push_back(b); top = std::max(top, ones(b)); } was.push_back(top); s[i]->island.reset(new Island<eoEasyEA, B>(s[i]->pop, plus, s[i]->mig, s[i]->cont, ev, s[i]->breed, plus)); if (!alone) model.add(*s[i]->island); } if (alone) for (auto& x : s) (*x->island)(); else model(); for (unsigned i = 0; i < n; ++i) { Site& x = *s[i]; CHECK(x.cont.calls == gens[i] && x.breed.calls == gens[i], "island " << i << " ran " << x.cont.calls << " generations instead of " << gens[i]); CHECK(x.cont.bad == 0, "population of island " << i << " not as it should be during the run"); CHECK(x.pop.size() == x.cont.size, "population of " << x.pop.size() << " instead of " << x.cont.size); double top = -1; for (auto& b : x.pop) { CHECK(b.size() == len && !b.invalid() && b.fitness() == ones(b), "individual whose fitness is not its value"); top = std::max(top, ones(b)); } CHECK(top >= was[i], "elitist island lost its best"); } g.nontrivial(n > 1); g.label("islands", alone ? "without model" : "model"); g.note(n).note(" islands, ").note(t.name);
}
}
PBT(builders, 3000, 30000) { switch (g.draw(4)) { case 0: builder<Complete>(g, COMPLETE, "complete"); break; case 1: builder<Ring>(g, RING, "ring"); break; case 2: builder<Star>(g, STAR, "star"); break; case 3: builder<Mesh>(g, MESH, "mesh"); break; default: builder<Hypercubic>(g, CUBE, "hypercube"); } }
PBT(topology_files, 400, 4000) { files(g); }
PBT(migrants, 300, 3000) { migration(g); }
PBT(stopped_islands, 120, 1200) { leaving(g); }
PBT(last_groups, 200, 2000) { lastGroups(g); }
PBT(evolving_islands, 250, 2500) { evolution(g); }
PBT(association, 300, 3000) { Bimap<unsigned, int> b; std::map<unsigned, int> m; CHECK(b.empty() && b.size() == 0, "new map not empty"); for (int k = g.draw(6); k > 0; --k) { unsigned a = m.size(); int v = 100 + 3 * m.size(); b.add(a, v); m[a] = v; } CHECK(b.size() == m.size() && b.empty() == m.empty(), "size"); for (auto& x : m) CHECK(b.getRight()[x.first] == x.second && b.getLeft()[x.second] == x.first, "association"); unsigned calls = 0; Notifier nt([&]() { ++calls; }); nt(); nt(); CHECK(calls == 2, "Notifier"); g.nontrivial(m.size() > 1); g.note(m.size()); }
// the rest of what SharedFitContinue promises is a known finding
PBT(shared_target, 300, 3000) { double target = g.range(-5, 5); SharedFitContinue<Mig> c(target); bool reached = false; for (unsigned k = 0, n = g.range(1, 6); k < n; ++k) { eoPop<Mig> p; bool has = false; for (int i = g.range(1, 4); i > 0; --i) { Mig e(0, i); e.fitness(g.range(-8, 8)); has = has || e.fitness() >= target; p.push_back(e); } bool go = c(p); if (has) { CHECK(!go, "goes on although the population has reached " << target); reached = true; } else if (k == 0) CHECK(go, "stops before " << target << " was reached"); } g.nontrivial(reached); g.note(target); }
