// L03: hill climbers, neutral and random walks, random search, the local-search loop.
#include "mo_support.hpp"
using namespace sup;
using namespace ls;
namespace {
enum { SIMPLE, FIRST, RBEST, NEUTRAL, NWALK, RWALK };
const char* NAME[] = {"moSimpleHC", "moFirstImprHC", "moRandomBestHC", "moNeutralHC", "moRandomNeutralWalk", "moRandomWalk"};
template <class D> void climb(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F;
    unsigned n = D::perm ? g.range(2, 5) : g.range(1, 7), all = D::neighbours(n), size = g.chance(1, 12) ? 0 : g.chance(1, 6) ? g.range<unsigned>(1, all) : all; int algo = g.draw(5); Land land = genLand(g); Full<D> full(land), inner(land); Incr<D> incr(land); moFullEvalByCopy<N> byCopy(inner); moEval<N>& eval = g.boolean() ? (moEval<N>&)incr : (moEval<N>&)byCopy;
    bool ordered = algo < NWALK && g.boolean(); moOrderNeighborhood<N> order(size); moRndWithoutReplNeighborhood<N> random(size); moNeighborhood<N>& nh = ordered ? (moNeighborhood<N>&)order : (moNeighborhood<N>&)random; unsigned nbStep = g.chance(1, 8) ? 0 : g.range(1, 8); Recorder<N> rec; bool own = g.boolean() || algo == RWALK; rec.most = algo == RWALK ? std::max(1u, nbStep) : g.boolean() ? g.range(1, 5) : 1000; bool forever = algo == FIRST && g.chance(1, 4); if (forever) rec.most = g.range(1, 12); bool equal = algo == FIRST && !forever && g.chance(1, 6); if (equal) rec.most = g.range(1, 12);
    moNeighborComparator<N> cn; moSolNeighborComparator<N> strict; moEqualSolNeighborComparator<N> orEqual; moSolNeighborComparator<N>& csn = equal ? (moSolNeighborComparator<N>&)orEqual : strict; std::unique_ptr<moLocalSearch<N>> ls;
    bool long_ = g.boolean() || equal;
    switch (algo) {
    case SIMPLE: ls.reset(long_ ? new moSimpleHC<N>(nh, full, eval, rec, cn, csn) : own ? new moSimpleHC<N>(nh, full, eval, rec) : new moSimpleHC<N>(nh, full, eval)); break;
    case FIRST: { auto* p = long_ ? new moFirstImprHC<N>(nh, full, eval, rec, cn, csn) : own ? new moFirstImprHC<N>(nh, full, eval, rec) : new moFirstImprHC<N>(nh, full, eval); if (forever) p->alwaysContinue(); ls.reset(p); break; }
    case RBEST: ls.reset(long_ ? new moRandomBestHC<N>(nh, full, eval, rec, cn, csn) : own ? new moRandomBestHC<N>(nh, full, eval, rec) : new moRandomBestHC<N>(nh, full, eval)); break;
    case NEUTRAL: ls.reset(long_ ? new moNeutralHC<N>(nh, full, eval, nbStep, rec, cn, csn) : own ? new moNeutralHC<N>(nh, full, eval, nbStep, rec) : new moNeutralHC<N>(nh, full, eval, nbStep)); break;
    case NWALK: ls.reset(long_ ? new moRandomNeutralWalk<N>(nh, full, eval, nbStep, rec, csn) : own ? new moRandomNeutralWalk<N>(nh, full, eval, nbStep, rec) : new moRandomNeutralWalk<N>(nh, full, eval, nbStep)); break;
    default: ls.reset(g.boolean() ? new moRandomWalk<N>(nh, full, eval, nbStep) : new moRandomWalk<N>(nh, full, eval, rec)); break;
    }
    if (algo == RWALK && ls->getContinuator() != &rec) { S s = D::make(g, n); s.fitness(F(land(s))); unsigned was = incr.calls + inner.calls; (*ls)(s); unsigned steps = incr.calls + inner.calls - was; CHECK(evaluated<D>(land, s), "moRandomWalk: wrong fitness"); CHECK(steps == (size ? std::max(1u, nbStep) : 0), "moRandomWalk made " << steps << " steps instead of " << nbStep); ls->setContinuator(rec); }
    if (ls->getContinuator() != &rec) ls->setContinuator(rec); CHECK(ls->getContinuator() == &rec, "setContinuator");
    unsigned runs = g.range(1, 3); const std::string w = NAME[algo];
    for (unsigned r = 0; r < runs; ++r) {
        S s = D::make(g, n), start(s); bool known = g.boolean(); if (known) s.fitness(F(land(s))); start.fitness(F(land(s))); unsigned calls = full.calls, inits = rec.inits, lasts = rec.lasts; (*ls)(s);
        CHECK(full.calls - calls == (known ? 0u : 1u), w << ": the start solution was evaluated " << full.calls - calls << " times"); CHECK(rec.inits == inits + 1 && rec.lasts == lasts + 1, w << ": continuator initialised " << rec.inits - inits << " times, finished " << rec.lasts - lasts << " times"); CHECK(same(rec.start, start) && evaluated<D>(land, rec.start), w << ": continuator initialised with another solution"); CHECK(same(rec.end, s) && !rec.path.empty() && same(rec.path.back(), s), w << ": the returned solution is not the last one");
        S now(start); unsigned steps = rec.path.size();
        for (unsigned i = 0; i < steps; ++i) {
            const S& t = rec.path[i]; CHECK(evaluated<D>(land, t), w << ": fitness of " << text(t) << " is " << t << " instead of " << land(t)); double f = score<F>(now.fitness()), to = score<F>(t.fitness()), best = bestAround<D>(land, now, size); bool moved = !same(now, t), improving = size && best > f, neutral = false; for (auto& u : around<D>(land, now, size)) neutral = neutral || score<F>(u.fitness()) == f; CHECK(!moved || neighbourOf<D>(land, now, t, size), w << ": moved from " << text(now) << " to " << text(t) << ", not a neighbour"); bool last = i + 1 == steps, mustMove;
            if (algo == SIMPLE || algo == RBEST) { mustMove = improving; CHECK(!moved || to == best, w << ": moved to " << to << " while the best neighbour has " << best); CHECK(moved == improving, w << (moved ? ": moved without improving" : ": stayed in spite of a better neighbour")); }
            else if (algo == FIRST) { mustMove = equal ? improving || neutral : improving; CHECK(moved == mustMove, w << (moved ? ": moved without improving" : ": stayed in spite of a better neighbour")); CHECK(!moved || (equal ? to >= f : to > f), w << ": moved from " << f << " to " << to); if (moved && ordered) for (auto& u : around<D>(land, now, size)) { double v = score<F>(u.fitness()); if (equal ? v >= f : v > f) { CHECK(same(u, t), w << ": moved to " << text(t) << " though " << text(u) << " comes first"); break; } } }
            else if (algo == NEUTRAL) { mustMove = size && best >= f; CHECK(moved == mustMove, w << (moved ? ": moved to a worse neighbour" : ": stayed in spite of a neighbour as good")); CHECK(!moved || to == best, w << ": moved to " << to << " while the best neighbour has " << best); }
            else if (algo == NWALK) { mustMove = neutral; CHECK(moved == neutral, w << (moved ? ": left the plateau" : ": stayed in spite of a neutral neighbour")); CHECK(to == f, w << ": fitness changed from " << f << " to " << to); }
            else { mustMove = size > 0; CHECK(moved == mustMove, w << ": stayed"); }
            if (!last) CHECK(mustMove || forever, w << ": went on after a step without a move"); now = t;
            if (last) { bool counted = (algo == NEUTRAL || algo == NWALK) && steps >= std::max(1u, nbStep); bool stops = rec.hit || counted || (!mustMove && !forever); CHECK(stops, w << ": stopped after " << steps << " steps for no reason"); if (algo == NEUTRAL || algo == NWALK) CHECK(steps <= std::max(1u, nbStep), w << ": " << steps << " steps instead of " << nbStep); if (!rec.hit && !counted && algo < NEUTRAL) CHECK(!(size && bestAround<D>(land, s, size) > score<F>(s.fitness())), w << ": stopped by itself at a solution that is not a local optimum"); }
        }
        if (algo < NWALK) CHECK(!better<D>(start, s), w << ": returned a solution worse than the start"); g.label("steps", steps > 3 ? "4+" : std::to_string(steps)); g.nontrivial(steps > 1);
    }
    g.label("algorithm", NAME[algo]); g.label("kind", D::perm ? "permutation" : "bits"); g.note(NAME[algo]).note(" size ").note(n).note(" neighbours ").note(size).note(" ").note(ls::str(land));
}
}
PBT(climb_bits_max, 12000, 100000) { climb<Bits<double>>(g); }
PBT(climb_bits_min, 12000, 100000) { climb<Bits<eoMinimizingFitness>>(g); }
PBT(climb_perms_max, 8000, 60000) { climb<Perm<double>>(g); }
PBT(climb_perms_min, 8000, 60000) { climb<Perm<eoMinimizingFitness>>(g); }
namespace {
template <class D> void chosen(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = g.range(2, 5); Land land = genLand(g); land.levels = g.range(1, 3); Full<D> full(land); Incr<D> incr(land); int algo = g.oneof({(int)FIRST, (int)RBEST, (int)NEUTRAL, (int)NWALK, (int)RWALK}); moRndWithoutReplNeighborhood<N> random(n); moOrderNeighborhood<N> order(n); moNeighborhood<N>& nh = algo == RBEST && g.boolean() ? (moNeighborhood<N>&)order : (moNeighborhood<N>&)random; Recorder<N> rec; rec.most = 1; std::unique_ptr<moLocalSearch<N>> ls;
    if (algo == FIRST) ls.reset(new moFirstImprHC<N>(nh, full, incr, rec)); else if (algo == RBEST) ls.reset(new moRandomBestHC<N>(nh, full, incr, rec)); else if (algo == NEUTRAL) ls.reset(new moNeutralHC<N>(nh, full, incr, 3, rec)); else if (algo == NWALK) ls.reset(new moRandomNeutralWalk<N>(nh, full, incr, 3, rec)); else ls.reset(new moRandomWalk<N>(nh, full, incr, rec));
    S s = D::make(g, n); s.fitness(F(land(s))); double f = score<F>(s.fitness()), best = bestAround<D>(land, s, n); auto v = around<D>(land, s, n); std::vector<double> p(n, 0); unsigned k = 0; for (unsigned i = 0; i < n; ++i) { double x = score<F>(v[i].fitness()); bool ok = algo == FIRST ? x > f : algo == RBEST ? x == best && x > f : algo == NEUTRAL ? x == best && x >= f : algo == NWALK ? x == f : true; p[i] = ok; k += ok; } if (k < 2) { g.discard(); return; } for (auto& x : p) x /= k; std::vector<unsigned> c(n, 0); const unsigned M = 2500; for (unsigned i = 0; i < M; ++i) { S t(s); (*ls)(t); for (unsigned j = 0; j < n; ++j) c[j] += same(t, v[j]); } checkFreq(p, c, std::string(NAME[algo]) + ": neighbour chosen"); g.nontrivial(true); g.label("algorithm", NAME[algo]); g.note(NAME[algo]).note(" ").note(k).note(" candidates");
}
}
PBT(chosen_evenly, 200, 1500) { if (g.boolean()) chosen<Bits<double>>(g); else chosen<Bits<eoMinimizingFitness>>(g); }
PBT(random_search, 1500, 15000) {
    Silence quiet; typedef Bits<double> D; typedef D::Sol S; typedef D::Nb N; unsigned n = g.range(1, 6); Land land = genLand(g); Full<D> full(land); eoUniformGenerator<bool> gen; eoInitFixedLength<S> init(n, gen); unsigned most = g.range(2, 9); Recorder<N> rec; rec.most = g.boolean() ? g.range(1, 9) : 1000; moRandomSearch<N> a(init, full, most, rec), b(init, full, most); S s = D::make(g, n); (*(moLocalSearch<N>*)&b)(s); CHECK(full.calls == most && evaluated<D>(land, s), "random search looked at " << full.calls << " solutions instead of " << most); for (int r = 0; r < 2; ++r) { S t = D::make(g, n); a(t); CHECK(rec.path.size() == std::min(rec.most, most - 1), "random search: " << rec.path.size() << " steps instead of " << most - 1); for (auto& x : rec.path) CHECK(evaluated<D>(land, x) && x.size() == n, "random search: wrong fitness"); CHECK(same(t, rec.path.back()), "returned solution"); } Full<D> other(land); moDummyLS<N> dummy(other); S u = D::make(g, n), was(u); bool known = g.boolean(); if (known) u.fitness(land(u)); dummy(u); CHECK(same(u, was) && evaluated<D>(land, u) && other.calls == !known, "moDummyLS changed or did not evaluate the solution"); g.nontrivial(most > 2); g.note("at most ").note(most);
}
namespace {
template <class D> void compare(pbt::Gen& g) {
    typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; double x = g.grid(3, 0.5), y = g.grid(3, 0.5); S a, b; a.fitness(F(x)); b.fitness(F(y)); N p, q; p.fitness(F(x)); q.fitness(F(y)); bool worse = score<F>(x) < score<F>(y), eq = x == y; moSolComparator<S> s; moEqualSolComparator<S> es; moNeighborComparator<N> nb; moEqualNeighborComparator<N> en; moSolNeighborComparator<N> sn; moEqualSolNeighborComparator<N> esn; CHECK(s(a, b) == worse && nb(p, q) == worse && sn(a, q) == worse, "comparison of " << x << " with " << y); CHECK(es(a, b) == (worse || eq) && en(p, q) == (worse || eq) && esn(a, q) == (worse || eq), "comparison with equality of " << x << " with " << y); CHECK(s.equals(a, b) == eq && nb.equals(p, q) == eq && sn.equals(a, q) == eq && es.equals(a, b) == eq && en.equals(p, q) == eq && esn.equals(a, q) == eq, "equality of " << x << " and " << y); g.nontrivial(true);
}
}
PBT(comparators, 600, 6000) { if (g.boolean()) compare<Bits<double>>(g); else compare<Perm<eoMinimizingFitness>>(g); }
