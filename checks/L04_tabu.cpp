// L04: tabu search and its memories.
#include "mo_support.hpp"
#include <deque>
using namespace sup;
using namespace ls;
namespace {
// reference memory: what was added last, each with the time it stays forbidden; a size bounds the first two kinds, indices the third
struct Memory { int kind; unsigned size, tenure; std::deque<std::pair<std::string, unsigned>> l; bool forever() const { return kind < 2 && tenure == 0; } void add(const std::string& k, unsigned index, unsigned howlong) { if (kind == 2) { if (index >= size) return; for (auto& e : l) if (e.first == k) { e.second = howlong; return; } l.push_back({k, howlong}); return; } l.push_back({k, howlong}); while (l.size() > size) l.pop_front(); } void update() { for (auto& e : l) if (e.second) --e.second; } bool check(const std::string& k) const { for (auto& e : l) if (e.first == k && (forever() || e.second)) return true; return false; } };
const char* KIND[] = {"moNeighborVectorTabuList", "moSolVectorTabuList", "moIndexedVectorTabuList"};
template <class D> struct Lists { typedef typename D::Nb N; std::shared_ptr<moTabuList<N>> p; Memory m; Lists(pbt::Gen& g, unsigned neighbours) { m.kind = g.draw(2); m.size = g.chance(1, 10) ? 0 : g.range<unsigned>(1, neighbours + 2); m.tenure = g.chance(1, 4) ? 0 : g.range(1, 6); if (m.kind == 0) p = std::make_shared<moNeighborVectorTabuList<N>>(m.size, m.tenure); else if (m.kind == 1) p = std::make_shared<moSolVectorTabuList<N>>(m.size, m.tenure); else p = std::make_shared<moIndexedVectorTabuList<N>>(m.size, m.tenure); } std::string key(const typename D::Sol& after, unsigned index) const { return m.kind == 1 ? ls::text(after) : std::to_string(index); } };
template <class D> void memory(pbt::Gen& g) {
    typedef typename D::Sol S; typedef typename D::Nb N; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 4), all = D::neighbours(n); Lists<D> L(g, all); S s = D::make(g, n); L.p->init(s); unsigned ops = g.size(1, 25); std::string w = KIND[L.m.kind]; unsigned hits = 0;
    for (unsigned o = 0; o < ops; ++o) { N v; unsigned k = g.draw(all - 1); v.index(s, k); S moved(s); v.move(moved); switch (g.draw(7)) { case 0: case 1: case 2: { bool stay = g.boolean(); if (!stay) s = moved; L.p->add(s, v); L.m.add(L.key(s, k), k, L.m.tenure); if (g.boolean()) { L.p->update(s, v); L.m.update(); } break; } case 3: L.p->update(s, v); L.m.update(); break; case 4: s = D::make(g, n); break; case 5: if (g.chance(1, 4)) { if (g.boolean()) L.p->init(s); else L.p->clearMemory(); L.m.l.clear(); } break; default: break; }
        for (unsigned i = 0; i < all; ++i) { N u; u.index(s, i); S t(s); u.move(t); S before(s); bool is = L.p->check(s, u), should = L.m.check(L.key(t, i)); hits += should; CHECK(is == should, w << " of size " << L.m.size << " and tenure " << L.m.tenure << ": move " << i << " of " << ls::text(s) << " is " << (is ? "tabu" : "allowed")); CHECK(same(s, before), w << ": check changed the solution"); } }
    g.nontrivial(hits > 0); g.label("kind", w); g.label("tenure", L.m.tenure == 0 ? "none" : "some"); g.note(w).note(" size ").note(L.m.size).note(" tenure ").note(L.m.tenure).note(" operations ").note(ops);
}
// evaluation that trusts a fitness that is there
template <class D> struct Trusting : public eoEvalFunc<typename D::Sol> { const Land& l; Trusting(const Land& _l) : l(_l) {} void operator()(typename D::Sol& s) { if (s.invalid()) s.fitness(typename D::Fit(l(s))); } };
template <class D> struct Jump : public eoMonOp<typename D::Sol> { std::vector<unsigned> when; unsigned calls = 0; std::vector<typename D::Sol> seen; bool operator()(typename D::Sol& s) { bool go = std::count(when.begin(), when.end(), calls++) > 0; if (go) { typename D::Nb v; v.index(s, 0); typename D::Fit f = s.fitness(); v.move(s); s.fitness(f); } seen.push_back(s); return go; } };
template <class D> struct Around : public moIntensification<typename D::Nb>, public moDummyMemory<typename D::Nb> { const Land& l; unsigned every; std::vector<typename D::Sol> before; unsigned inits = 0, adds = 0, updates = 0; Around(const Land& _l, unsigned e) : l(_l), every(e) {} void init(typename D::Sol&) { ++inits; before.clear(); } void add(typename D::Sol&, typename D::Nb&) { ++adds; } void update(typename D::Sol&, typename D::Nb&) { ++updates; } bool operator()(typename D::Sol& s) { before.push_back(s); if (!every || before.size() % every) return false; typename D::Nb v; v.index(s, 0); v.move(s); s.fitness(typename D::Fit(l(s))); return true; } };
template <class D> struct Never : public moAspiration<typename D::Nb> { void init(typename D::Sol&) {} void update(typename D::Sol&, typename D::Nb&) {} bool operator()(typename D::Sol&, typename D::Nb&) { return false; } };
template <class D> void search(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 6), all = D::neighbours(n), size = g.chance(1, 15) ? 0 : all; Land land = genLand(g); Full<D> full(land); Trusting<D> trusting(land); Incr<D> incr(land); moOrderNeighborhood<N> order(size); moRndWithoutReplNeighborhood<N> random(size); bool ordered = g.boolean(); moNeighborhood<N>& nh = ordered ? (moNeighborhood<N>&)order : (moNeighborhood<N>&)random; Lists<D> L(g, all); Recorder<N> rec; rec.most = g.range(1, 14); moBestImprAspiration<N> best; Never<D> never; bool aspire = g.boolean(); moNeighborComparator<N> cn; moSolNeighborComparator<N> csn; Jump<D> jump; unsigned jumps = g.draw(2); for (unsigned i = 0; i < jumps; ++i) jump.when.push_back(g.draw(10)); moMonOpDiversification<N> div(jump, trusting); moDummyDiversification<N> noDiv; Around<D> inten(land, g.chance(1, 3) ? g.range(1, 4) : 0); bool diversify = g.boolean(); int form = g.draw(3); std::unique_ptr<moTS<N>> ts;
    if (form == 0) { L.m.kind = 0; L.m.tenure = 0; ts.reset(new moTS<N>(nh, full, incr, 100, L.m.size)); ts->setContinuator(rec); aspire = true; diversify = false; }
    else if (form == 1) { ts.reset(new moTS<N>(nh, full, incr, 100, *L.p)); ts->setContinuator(rec); aspire = true; diversify = false; }
    else if (form == 2) { ts.reset(new moTS<N>(nh, full, incr, rec, *L.p, aspire ? (moAspiration<N>&)best : never)); diversify = false; }
    else ts.reset(new moTS<N>(nh, full, incr, cn, csn, rec, *L.p, inten, diversify ? (moDiversification<N>&)div : noDiv, aspire ? (moAspiration<N>&)best : never));
    unsigned runs = g.range(1, 2), worse = 0, aspired = 0, stuck = 0; const std::string w = std::string("moTS with ") + KIND[L.m.kind] + " of size " + std::to_string(L.m.size) + ", tenure " + std::to_string(L.m.tenure);
    for (unsigned r = 0; r < runs; ++r) {
        S s = D::make(g, n); if (g.boolean()) s.fitness(F(land(s))); S start(s); start.fitness(F(land(s))); inten.adds = inten.updates = inten.inits = 0; jump.calls = 0; jump.seen.clear(); (*ts)(s); L.m.l.clear(); S now(start), bestSeen(start), bestAsp(start); unsigned moves = 0; CHECK(rec.path.size() == rec.most, w << ": stopped after " << rec.path.size() << " steps instead of " << rec.most);
        for (unsigned i = 0; i < rec.path.size(); ++i) {
            const S& t = rec.path[i]; CHECK(evaluated<D>(land, t), w << ": fitness of " << ls::text(t) << " is " << t << " instead of " << land(t)); if (form == 3) { CHECK(inten.before.size() > i && same(inten.before[i], now), w << ": intensification not called on the current solution"); if (inten.every && (i + 1) % inten.every == 0) { N v; v.index(now, 0); v.move(now); now.fitness(F(land(now))); } if (diversify) { CHECK(jump.seen.size() > i, w << ": diversification not called"); now = jump.seen[i]; now.fitness(F(land(now))); } }
            auto v = around<D>(land, now, size); double top = -1e300; std::vector<bool> ok(size); int chosen = -1, first = -1; for (unsigned k = 0; k < size; ++k) { bool tabu = L.m.check(L.key(v[k], k)); bool asp = aspire && better<D>(v[k], bestAsp); ok[k] = !tabu || asp; aspired += tabu && asp; if (ok[k] && score<F>(v[k].fitness()) > top) { top = score<F>(v[k].fitness()); first = k; } if (same(v[k], t)) chosen = k; } bool moved = !same(now, t);
            CHECK(moved == (first >= 0), w << (moved ? ": moved though every move is tabu" : ": did not move") << " from " << ls::text(now)); if (moved) { CHECK(chosen >= 0 && ok[chosen], w << ": made a tabu move from " << ls::text(now) << " to " << ls::text(t) << " at step " << i); CHECK(score<F>(t.fitness()) == top, w << ": moved to " << t.fitness() << " instead of the best allowed " << top); if (ordered) CHECK(chosen == first, w << ": not the first of the best allowed moves"); worse += better<D>(now, t); ++moves; L.m.add(L.key(t, chosen), chosen, L.m.tenure); if (better<D>(t, bestSeen)) bestSeen = t; } else stuck++; L.m.update(); now = t; if (better<D>(now, bestAsp)) bestAsp = now;
        }
        CHECK(evaluated<D>(land, s), w << ": fitness of the returned solution"); CHECK(same(s, bestSeen), w << ": returned " << s << " instead of the best solution met, " << bestSeen); CHECK(same(rec.end, s), w << ": the continuator ended with another solution"); CHECK(same(ts->getExplorer().getBest(), bestSeen), w << ": getBest"); if (form == 3) CHECK(inten.inits == 1 && inten.adds == moves && inten.updates == rec.most, w << ": memories were told " << inten.adds << " moves of " << moves << " and " << inten.updates << " steps of " << rec.most);
        if (aspire && form >= 2) CHECK(same(best.getBest(), bestAsp), w << ": best solution of the aspiration is " << best.getBest() << " instead of " << bestAsp);
    }
    g.nontrivial(worse > 0); g.label("aspiration used", aspired > 0); g.label("stuck", stuck > 0); g.label("list", KIND[L.m.kind]); g.note(w).note(" size ").note(n).note(" ").note(ls::str(land)).note(" steps ").note(rec.most);
}
}
PBT(memories_bits, 6000, 60000) { memory<Bits<double>>(g); }
PBT(memories_perms, 3000, 30000) { memory<Perm<eoMinimizingFitness>>(g); }
PBT(search_bits_max, 6000, 60000) { search<Bits<double>>(g); }
PBT(search_bits_min, 6000, 60000) { search<Bits<eoMinimizingFitness>>(g); }
PBT(search_perms, 5000, 50000) { search<Perm<eoMinimizingFitness>>(g); }
PBT(random_tenures, 600, 6000) {
    typedef Bits<double> D; typedef D::Nb N; unsigned n = g.range(1, 5), lo = g.range(1, 4), spread = g.range(1, 4); D::Sol s = D::make(g, n); moRndIndexedVectorTabuList<N> rnd(n, lo, spread); moIndexedVectorTabuList<N> robust(n, lo, lo + spread); moTabuList<N>* l[] = {&rnd, &robust}; int which = g.draw(1); moTabuList<N>& t = *l[which]; std::vector<unsigned> seen(spread, 0); const unsigned M = 600;
    for (unsigned i = 0; i < M; ++i) { t.init(s); unsigned k = i % n; N v; v.index(s, k); t.add(s, v); unsigned stays = 0; while (t.check(s, v) && stays < 50) { for (unsigned j = 0; j < n; ++j) if (j != k) { N u; u.index(s, j); CHECK(!t.check(s, u), "a move that was not added is tabu"); } t.update(s, v); ++stays; } CHECK(stays >= lo && stays < lo + spread, (which ? "robust" : "random") << " tabu list: tenure " << stays << " outside [" << lo << "," << lo + spread << ")"); seen[stays - lo]++; }
    checkFreq(std::vector<double>(spread, 1.0 / spread), seen, "tenure"); N far; far.index(n + 3); t.add(s, far); CHECK(!t.check(s, far), "a move beyond the list is tabu"); g.nontrivial(spread > 1); g.note("tenure ").note(lo).note(" + ").note(spread);
}
PBT(counting, 600, 6000) {
    typedef Bits<double> D; typedef D::Nb N; D::Sol s = D::make(g, 3); N v; moCountMoveMemory<N> c; c.init(s); unsigned a = 0, b = 0, k = 0, ops = g.size(1, 20); for (unsigned i = 0; i < ops; ++i) { switch (g.draw(4)) { case 0: case 1: c.add(s, v); ++a; k = 0; break; case 2: c.update(s, v); ++b; ++k; break; case 3: if (g.boolean()) { c.initCounter(); k = 0; } break; default: if (g.chance(1, 4)) { if (g.boolean()) c.init(s); else c.clearMemory(); a = b = k = 0; } } CHECK(c.getNbMove() == a && c.getNbNoMove() == b && c.getCounter() == k, "moCountMoveMemory: " << c.getNbMove() << " " << c.getNbNoMove() << " " << c.getCounter() << " instead of " << a << " " << b << " " << k); } g.nontrivial(ops > 3); g.note(ops).note(" operations");
}

// the same with larger sizes
PBT_LARGE(memories_bits, 60, 600, 10)
PBT_LARGE(memories_perms, 60, 600, 10)
PBT_LARGE(search_bits_max, 60, 600, 10)
PBT_LARGE(search_bits_min, 60, 600, 10)
PBT_LARGE(search_perms, 60, 600, 10)
PBT_LARGE(random_tenures, 15, 150, 10)
PBT_LARGE(counting, 15, 150, 10)
