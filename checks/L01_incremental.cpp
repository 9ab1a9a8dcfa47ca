// L01: the fitness of a neighbour, computed incrementally or by a full evaluation, is that of the moved solution.
#include "eo_support.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <mo.h>
using namespace std;
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/nkpLandscapesEval.h>
#include <eval/nkqLandscapesEval.h>
#include <eval/maxSATeval.h>
#include <eval/ubqpEval.h>
#include <eval/qapEval.h>
#include <eval/queenEval.h>
#include <eval/longKPathEval.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
#include <problems/partition/moBinaryPartition.h>
#include <problems/partition/moBinaryPartitionSwapNeighbor.h>
#include <problems/eval/moOneMaxIncrEval.h>
#include <problems/eval/moOneMaxBitsIncrEval.h>
#include <problems/eval/moRoyalRoadIncrEval.h>
#include <problems/eval/moNKlandscapesIncrEval.h>
#include <problems/eval/moNKlandscapesBitsIncrEval.h>
#include <problems/eval/moMaxSATincrEval.h>
#include <problems/eval/moUBQPSimpleIncrEval.h>
#include <problems/eval/moUBQPBitsIncrEval.h>
#include <problems/eval/moUBQPdoubleIncrEvaluation.h>
#include <problems/eval/moQAPIncrEval.h>
namespace {
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/vp_l01_XXXXXX"; dir = mkdtemp(t); } ~Scratch() { ::unlink((dir + "/instance").c_str()); ::rmdir(dir.c_str()); } std::string put(const std::string& text) { std::string f = dir + "/instance"; std::ofstream o(f); o << text; return f; } };
template <class B> void genBits(pbt::Gen& g, B& s, unsigned n) { s.resize(n); int k = g.draw(5); for (unsigned i = 0; i < n; ++i) s[i] = k == 0 ? false : k == 1 ? true : k == 2 ? g.chance(4, 5) : g.boolean(); }
template <class S> std::string text(const S& s) { std::ostringstream o; for (unsigned i = 0; i < s.size(); ++i) o << (i ? " " : "") << s[i]; return o.str(); }
template <class F> std::string text(const moBinaryPartition<F>& s) { return s.str(); }
template <class S> bool sameGenes(const S& a, const S& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class F> bool sameGenes(const moBinaryPartition<F>& a, const moBinaryPartition<F>& b) { return a.selected == b.selected && a.rejected == b.rejected; }
// follows a sequence of moves: each candidate is evaluated, sometimes twice, sometimes applied
template <class S, class N> void follow(pbt::Gen& g, S& s, eoEvalFunc<S>& full, moEval<N>& eval, unsigned steps, std::function<void(S&, N&)> pick, const std::string& what) {
    s.invalidate(); full(s); N n; unsigned applied = 0;
    for (unsigned k = 0; k < steps; ++k) {
        if (g.chance(1, 4)) n = N(); pick(s, n); if (g.chance(1, 3)) n.fitness(typename S::Fitness(-17.0)); S before(s); double was = s.fitness(); eval(s, n);
        CHECK(sameGenes(s, before), what << ": evaluating a neighbour changed the solution from " << text(before) << " to " << text(s)); CHECK(!s.invalid() && double(s.fitness()) == was, what << ": evaluating a neighbour changed the fitness of the solution"); CHECK(!n.invalid(), what << ": no fitness given to the neighbour");
        S moved(s); n.move(moved); moved.invalidate(); full(moved); double e = moved.fitness(), r = n.fitness(); CHECK(std::fabs(e - r) <= 1e-9 * (1 + std::fabs(e)), what << ": neighbour of " << text(before) << " (fitness " << was << ") evaluated " << r << " instead of " << e << " for " << text(moved));
        if (g.boolean()) { n.move(s); s.fitness(n.fitness()); ++applied; CHECK(sameGenes(s, moved), what << ": the move is not the same twice"); }
    }
    S last(s); last.invalidate(); full(last); CHECK(std::fabs(double(last.fitness()) - double(s.fitness())) <= 1e-9 * (1 + std::fabs(double(s.fitness()))), what << ": after " << applied << " moves the fitness is " << s.fitness() << " instead of " << last.fitness()); g.nontrivial(applied > 0); g.label("problem", what); g.note(what).note(" ").note(text(s)).note(" after ").note(applied).note(" of ").note(steps).note(" moves");
}
// the ways to evaluate a neighbour with a full evaluation
template <class S, class N> void generic(pbt::Gen& g, S& s, eoEvalFunc<S>& full, unsigned steps, std::function<void(S&, N&)> pick, const std::string& what) {
    moFullEvalByCopy<N> copy(full); moFullEvalByModif<N> modif(full); bool by = g.boolean(); moEval<N>& e = by ? (moEval<N>&)copy : (moEval<N>&)modif; moEvalCounter<N> counter(e); follow<S, N>(g, s, full, counter, steps, pick, what + (by ? " by copy" : " by modification")); CHECK(counter.value() == steps, what << ": " << counter.value() << " evaluations counted instead of " << steps);
}
template <class F> void flips(pbt::Gen& g, eoEvalFunc<eoBit<F>>& full, moEval<moBitNeighbor<F>>& eval, unsigned n, const std::string& what) { eoBit<F> s; genBits(g, s, n); unsigned steps = g.size(1, 8); std::function<void(eoBit<F>&, moBitNeighbor<F>&)> pick = [&](eoBit<F>& x, moBitNeighbor<F>& v) { unsigned i = g.draw(n - 1); if (g.boolean()) v.index(i); else v.index(x, i); }; if (g.chance(1, 5)) generic<eoBit<F>, moBitNeighbor<F>>(g, s, full, steps, pick, what); else follow<eoBit<F>, moBitNeighbor<F>>(g, s, full, eval, steps, pick, what); }
template <class S> void pickBits(pbt::Gen& g, S& x, moBitsNeighbor<S>& v) { std::vector<unsigned> all(x.size()); for (unsigned i = 0; i < all.size(); ++i) all[i] = i; unsigned k = g.range<unsigned>(1, std::min<unsigned>(4, x.size())); for (unsigned i = 0; i < k; ++i) std::swap(all[i], all[i + g.draw(all.size() - i - 1)]); if (v.bits.size() < k || g.boolean()) v.bits.resize(k); v.nBits = k; for (unsigned i = 0; i < k; ++i) v.bits[i] = all[i]; }
template <class F> void manyFlips(pbt::Gen& g, eoEvalFunc<eoBit<F>>& full, moEval<moBitsNeighbor<eoBit<F>>>& eval, unsigned n, const std::string& what) { typedef eoBit<F> S; S s; genBits(g, s, n); unsigned steps = g.size(1, 8); std::function<void(S&, moBitsNeighbor<S>&)> pick = [&](S& x, moBitsNeighbor<S>& v) { pickBits(g, x, v); }; if (g.chance(1, 5)) generic<S, moBitsNeighbor<S>>(g, s, full, steps, pick, what); else follow<S, moBitsNeighbor<S>>(g, s, full, eval, steps, pick, what); }
std::string ubqpText(pbt::Gen& g, unsigned n, unsigned format) { std::ostringstream o; o << "1\n" << n; if (format == 0) { std::ostringstream l; unsigned c = 0; for (unsigned i = 1; i <= n; ++i) for (unsigned j = i; j <= n; ++j) if (g.chance(2, 3)) { l << i << ' ' << j << ' ' << g.range(-9, 9) << '\n'; ++c; } o << ' ' << c << '\n' << l.str(); } else { o << '\n'; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) o << g.range(-9, 9) << ' '; o << '\n'; } } return o.str(); }
std::string satText(pbt::Gen& g, unsigned n, unsigned m) { std::ostringstream o; if (g.boolean()) o << "c an instance\n"; o << "p cnf " << n << ' ' << m << '\n'; for (unsigned i = 0; i < m; ++i) { unsigned k = g.size(0, 4); for (unsigned j = 0; j < k; ++j) o << (g.boolean() ? 1 : -1) * g.range<int>(1, n) << ' '; o << "0\n"; } return o.str(); }
template <class F> void bitProblems(pbt::Gen& g) {
    typedef eoBit<F> S; typedef moBitNeighbor<F> N; typedef moBitsNeighbor<S> NN; unsigned n = g.range(1, 9); Scratch scratch;
    switch (g.draw(7)) {
        case 0: { oneMaxEval<S> f; moOneMaxIncrEval<N> i; flips<F>(g, f, i, n, "one-max"); break; }
        case 1: { oneMaxEval<S> f; moOneMaxBitsIncrEval<NN> i; manyFlips<F>(g, f, i, n, "one-max, several bits"); break; }
        case 2: { RoyalRoadEval<S> f(g.range(1, 4)); moRoyalRoadIncrEval<N> i(f); flips<F>(g, f, i, n, "royal road"); break; }
        case 3: { unsigned k = g.draw(std::min(n - 1, 3u)); bool cons = g.boolean(); std::unique_ptr<nkLandscapesEval<S>> f; int kind = g.draw(2); if (kind == 0) f.reset(new nkLandscapesEval<S>(n, k, cons)); else if (kind == 1) f.reset(new nkpLandscapesEval<S>(n, k, 0.5, cons)); else f.reset(new nkqLandscapesEval<S>(n, k, g.range(2, 4), cons)); if (g.boolean()) { moNKlandscapesIncrEval<N> i(*f); flips<F>(g, *f, i, n, "NK landscape"); } else { moNKlandscapesBitsIncrEval<NN> i(*f); manyFlips<F>(g, *f, i, n, "NK landscape, several bits"); } break; }
        case 4: { unsigned m = g.range(1, 12); std::unique_ptr<MaxSATeval<S>> f; if (g.boolean()) f.reset(new MaxSATeval<S>(n, m, g.range<unsigned>(1, std::min(n, 3u)))); else { std::string file = scratch.put(satText(g, n, m)); f.reset(new MaxSATeval<S>(file)); } moMaxSATincrEval<N> i(*f); flips<F>(g, *f, i, n, "MAX-SAT"); break; }
        case 5: { unsigned format = g.draw(1); std::string file = scratch.put(ubqpText(g, n, format)); UbqpEval<S> f(file, format); moUBQPSimpleIncrEval<N> i(f); flips<F>(g, f, i, n, "UBQP"); break; }
        case 6: { unsigned format = g.draw(1); std::string file = scratch.put(ubqpText(g, n, format)); UbqpEval<S> f(file, format); moUBQPBitsIncrEval<NN> i(f); manyFlips<F>(g, f, i, n, "UBQP, several bits"); break; }
        default: { unsigned k = 2; n = 1 + 2 * g.range(0, 4); LongKPathEval<S> f(k); S s; genBits(g, s, n); generic<S, N>(g, s, f, g.size(1, 8), [&](S& x, N& v) { v.index(x, g.draw(n - 1)); }, "long k-path"); }
    }
}
// an explorer that only tells which move was applied
template <class N> struct Told : moNeighborhoodExplorer<N> { typedef typename N::EOT EOT; using moNeighborhoodExplorer<N>::selectedNeighbor; void initParam(EOT&) {} void updateParam(EOT&) {} bool isContinue(EOT&) { return true; } bool accept(EOT&) { return true; } void terminate(EOT&) {} void operator()(EOT&) {} N& chosen() { return selectedNeighbor; } };
template <class F> void doubleIncr(pbt::Gen& g) {
    typedef eoBit<F> S; typedef moBitNeighbor<F> N; Scratch scratch; unsigned n = g.range(1, 9), format = g.draw(1); std::string file = scratch.put(ubqpText(g, n, format)); UbqpEval<S> full(file, format); moUBQPSimpleIncrEval<N> simple(full); moUBQPdoubleIncrEvaluation<N> all(n, simple); moDoubleIncrNeighborhoodEval<N> eval(all); Told<N> ex; all.neighborhoodExplorer(ex); moOrderNeighborhood<N> order(n); moEvaluatedNeighborhood<N> nh(order, all); S s; genBits(g, s, n); full(s); ex.moveApplied(false); unsigned steps = g.size(1, 8), moves = 0;
    for (unsigned k = 0; k < steps; ++k) {
        if (k && g.chance(1, 6)) { genBits(g, s, n); s.invalidate(); full(s); all.init(); ex.moveApplied(g.boolean()); } N v; nh.init(s, v); unsigned seen = 0; S before(s);
        for (;; nh.next(s, v)) { CHECK(v.index() == seen, "neighbour " << v.index() << " instead of " << seen); ++seen; eval(s, v); S m(s); v.move(m); m.invalidate(); full(m); CHECK_NEAR(double(v.fitness()), double(m.fitness()), "UBQP with stored differences: neighbour " << v.index() << " of " << text(s) << " at step " << k); if (!nh.cont(s)) break; }
        CHECK(seen == n, seen << " neighbours of " << n); CHECK(sameGenes(s, before) && s.fitness() == before.fitness(), "evaluating the neighbourhood changed the solution"); if (g.chance(3, 4)) { N& c = ex.chosen(); c.index(g.draw(n - 1)); eval(s, c); c.move(s); s.fitness(c.fitness()); ex.moveApplied(true); ++moves; } else ex.moveApplied(false);
    }
    g.nontrivial(moves > 1); g.note("n ").note(n).note(" moves ").note(moves).note(" -> ").note(text(s));
}
template <class F> void permProblems(pbt::Gen& g) {
    typedef eoInt<F> S; unsigned n = g.range(2, 7); S s; s.resize(n); for (unsigned i = 0; i < n; ++i) s[i] = i; for (unsigned i = n; i > 1; --i) std::swap(s[i - 1], s[g.draw(i - 1)]); Scratch scratch; std::ostringstream o; o << n << '\n'; bool sym = g.boolean(); std::vector<std::vector<int>> m; for (int t = 0; t < 2; ++t) { m.assign(n, std::vector<int>(n)); for (auto& r : m) for (auto& x : r) x = g.range(-5, 9); if (sym) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) m[i][j] = m[j][i]; for (auto& r : m) { for (auto x : r) o << x << ' '; o << '\n'; } } QAPeval<S> qap(scratch.put(o.str())); queenEval<S> queen; bool q = g.boolean(); eoEvalFunc<S>& full = q ? (eoEvalFunc<S>&)queen : (eoEvalFunc<S>&)qap; const char* name = q ? "queens" : "quadratic assignment"; unsigned steps = g.size(1, 8);
    typedef moIndexedSwapNeighbor<S> NI; typedef moShiftNeighbor<S> NS; typedef moSwapNeighbor<S> NW; typedef moTwoOptExNeighbor<S> NT;
    std::function<void(S&, NI&)> pi = [&](S& x, NI& v) { if (g.boolean()) v.index(x, g.draw(n * (n - 1) / 2 - 1)); else { unsigned a = g.draw(n - 2), b = g.range<unsigned>(a + 1, n - 1); v.set(x, a, b); } };
    switch (g.draw(4)) {
        case 0: { moQAPIncrEval<NI> i(qap); follow<S, NI>(g, s, qap, i, steps, pi, "quadratic assignment"); break; }
        case 1: generic<S, NI>(g, s, full, steps, pi, std::string(name) + ", indexed swap"); break;
        case 2: generic<S, NS>(g, s, full, steps, [&](S& x, NS& v) { v.index(x, g.draw(n * (n - 1) - 1)); }, std::string(name) + ", shift"); break;
        case 3: generic<S, NW>(g, s, full, steps, [&](S&, NW& v) { unsigned a = g.draw(n - 1), b = (a + 1 + g.draw(n - 2)) % n; v.setIndices(a, b); }, std::string(name) + ", swap"); break;
        default: generic<S, NT>(g, s, full, steps, [&](S&, NT& v) { unsigned a = g.draw(n - 2), b = g.range<unsigned>(a + 1, n - 1); v.setIndices(a, b); }, std::string(name) + ", two-opt");
    }
}
template <class F> struct PartEval : eoEvalFunc<moBinaryPartition<F>> { void operator()(moBinaryPartition<F>& s) { double f = 0; for (auto a : s.selected) f += double(a * a + 1); for (auto a : s.rejected) f -= 0.5 * double(a); s.fitness(f); } };
template <class F> void partitions(pbt::Gen& g) { typedef moBinaryPartition<F> S; typedef moBinaryPartitionSwapNeighbor<S> N; unsigned n = g.range(2, 7); S s(n); unsigned k = g.range<unsigned>(1, n - 1); for (unsigned i = 0; i < k; ++i) s.select((i * 3 + 1) % n == 0 || s.selected.count((i * 3 + 1) % n) ? *s.rejected.begin() : (i * 3 + 1) % n); PartEval<F> f; generic<S, N>(g, s, f, g.size(1, 8), [&](S& x, N& v) { auto a = x.rejected.begin(); std::advance(a, g.draw(x.rejected.size() - 1)); auto b = x.selected.begin(); std::advance(b, g.draw(x.selected.size() - 1)); v.set(*a, *b); v.size(x.selected.size()); }, "partition"); }
}
PBT(bit_strings_maximised, 16000, 160000) { bitProblems<double>(g); }
PBT(bit_strings_minimised, 8000, 80000) { bitProblems<eoMinimizingFitness>(g); }
PBT(stored_differences, 6000, 60000) { if (g.boolean()) doubleIncr<double>(g); else doubleIncr<int>(g); }
PBT(permutations, 10000, 100000) { if (g.boolean()) permProblems<double>(g); else permProblems<eoMinimizingFitness>(g); }
PBT(partitions_of_atoms, 3000, 30000) { if (g.boolean()) partitions<double>(g); else partitions<eoMinimizingFitness>(g); }
namespace {
// a neighbour whose moves do not touch the fitness, and an evaluation that trusts a fitness that is there
struct Plain : public moBitNeighbor<double> { void move(eoBit<double>& s) { s[this->index()] = !s[this->index()]; } void moveBack(eoBit<double>& s) { move(s); } };
struct Trusting : public eoEvalFunc<eoBit<double>> { void operator()(eoBit<double>& s) { if (!s.invalid()) return; double f = 0; for (unsigned i = 0; i < s.size(); ++i) f += s[i] * (i + 1.0); s.fitness(f); } };
}
PBT(trusting_evaluation, 1500, 15000) {
    unsigned n = g.range(1, 8); eoBit<double> s; for (unsigned i = 0; i < n; ++i) s.push_back(g.boolean()); Trusting full; full(s); moFullEvalByCopy<Plain> copy(full); moFullEvalByModif<Plain> modif(full); unsigned steps = g.range(1, 6); for (unsigned t = 0; t < steps; ++t) { unsigned k = g.draw(n - 1); Plain v; v.index(k); eoBit<double> e(s); e[k] = !e[k]; e.invalidate(); full(e); double was = s.fitness(); if (g.boolean()) copy(s, v); else modif(s, v); CHECK(v.fitness() == e.fitness(), "neighbour evaluated " << v.fitness() << " instead of " << e.fitness()); CHECK(!s.invalid() && s.fitness() == was, "evaluating a neighbour changed the fitness of the solution"); if (g.boolean()) s = e; } g.nontrivial(steps > 1); g.note(n).note(" bits, ").note(steps).note(" steps");
}
