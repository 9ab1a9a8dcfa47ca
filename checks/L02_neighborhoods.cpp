// L02: neighbourhoods and moves.
#include "ind_support.hpp"
#include <mo.h>
#include <problems/bitString/moBitNeighbor.h>
#include <problems/bitString/moBitsNeighbor.h>
#include <problems/bitString/moBitsNeighborhood.h>
#include <problems/bitString/moBitsWithReplNeighborhood.h>
#include <problems/bitString/moBitsWithoutReplNeighborhood.h>
#include <problems/bitString/moBitFlipNeighborhood.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moSwapNeighborhood.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
#include <problems/permutation/moTwoOptExNeighborhood.h>
#include <problems/partition/moBinaryPartition.h>
#include <problems/partition/moBinaryPartitionSwapNeighbor.h>
#include <problems/partition/moBinaryPartitionSwapNeighborhood.h>
using namespace sup;
namespace {
typedef eoBit<double> B; typedef eoInt<eoMinimizingFitness> I; typedef moBitNeighbor<double> BN; typedef moBitsNeighbor<B> BsN; typedef moBinaryPartition<double> Pa; typedef moBinaryPartitionSwapNeighbor<Pa> PaN;
B genB(pbt::Gen& g, unsigned n) { B s; s.resize(n); for (unsigned i = 0; i < n; ++i) s[i] = g.boolean(); return s; }
I genI(pbt::Gen& g, unsigned n) { I s; s.resize(n); for (unsigned i = 0; i < n; ++i) s[i] = i * 2; for (unsigned i = n; i > 1; --i) std::swap(s[i - 1], s[g.draw(i - 1)]); return s; }
template <class S> std::string text(const S& s) { std::ostringstream o; for (unsigned i = 0; i < s.size(); ++i) o << (i ? " " : "") << s[i]; return o.str(); }
template <class S> bool sameGenes(const S& a, const S& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
// a move does what its type says, can be undone, and leaves no old fitness; also from a copy of the neighbour
template <class S, class N, class T> void moves(pbt::Gen& g, const S& s0, N& n, const std::vector<T>& expect, const char* what) {
    S s(s0); s.fitness(typename S::Fitness(5.0)); N other; bool viaCopy = g.boolean(); if (viaCopy) { if (g.boolean()) n.fitness(typename S::Fitness(3.0)); else n.invalidate(); if (g.boolean()) other = n; else { N c(n); other = c; } CHECK(other.invalid() == n.invalid() && (n.invalid() || other.fitness() == n.fitness()), what << ": fitness of a copied neighbour"); } N& u = viaCopy ? other : n;
    u.move(s); CHECK(s.size() == expect.size() && std::equal(expect.begin(), expect.end(), s.begin()), what << ": moved from " << text(s0) << " to " << text(s) << " instead of " << pbt::strv(expect)); CHECK(s.invalid(), what << ": the moved solution kept its fitness"); s.fitness(typename S::Fitness(7.0)); u.moveBack(s); CHECK(sameGenes(s, s0), what << ": undone to " << text(s) << " instead of " << text(s0)); CHECK(s.invalid(), what << ": the solution moved back kept its fitness");
}
// all the neighbours, as long as the neighbourhood goes on
template <class S, class N> std::vector<N> visit(moNeighborhood<N>& nh, S& s, N& n, unsigned atMost, const char* what) { std::vector<N> v; nh.init(s, n); v.push_back(n); while (nh.cont(s)) { CHECK(v.size() <= atMost, what << ": more than " << atMost << " neighbours"); nh.next(s, n); v.push_back(n); } return v; }
}
PBT(indexed, 9000, 90000) {
    unsigned n = g.range(1, 9), kind = g.draw(2); B s = genB(g, n); moOrderNeighborhood<BN> order(n), late; moRndWithoutReplNeighborhood<BN> without(n); unsigned most = g.size(0, 12); moRndWithReplNeighborhood<BN> with(n, most); BN v; unsigned passes = g.range(1, 3), size = n; if (g.chance(1, 4)) { CHECK(!late.hasNeighbor(s), "an empty neighbourhood has a neighbour"); late.setNeighborhoodSize(n); } moOrderNeighborhood<BN>& ord = late.getNeighborhoodSize() ? late : order; CHECK(ord.getNeighborhoodSize() == n && !ord.isRandom() && without.isRandom() && with.isRandom(), "neighbourhood size or randomness"); { moOrderNeighborhood<BN> no(0); moRndWithoutReplNeighborhood<BN> nw(0); moRndWithReplNeighborhood<BN> nr(0); CHECK(!no.hasNeighbor(s) && !nw.hasNeighbor(s) && !nr.hasNeighbor(s), "neighbourhood of size zero with a neighbour"); }
    for (unsigned p = 0; p < passes; ++p) {
        B before = s; if (p && g.chance(1, 3)) { n = g.range(1, 9); s = genB(g, n); before = s; ord.setNeighborhoodSize(n); without.setNeighborhoodSize(n); with.setNeighborhoodSize(n); } if (p && g.chance(1, 3)) { unsigned part = g.draw(n - 1); BN x; without.init(s, x); ord.init(s, x); for (unsigned i = 0; i < part; ++i) { without.next(s, x); ord.next(s, x); } }
        std::vector<unsigned> keys;
        if (kind == 0) { CHECK(ord.hasNeighbor(s), "no neighbour"); unsigned k = 0; ord.init(s, v); for (;; ord.next(s, v)) { CHECK(v.index() == k && ord.position() == k, "ordered neighbourhood at " << v.index() << " position " << ord.position() << " instead of " << k); ++k; if (!ord.cont(s)) break; CHECK(k < n, "ordered neighbourhood goes on beyond " << n); } CHECK(k == n, "ordered neighbourhood stopped after " << k << " of " << n); if (n > 1) { unsigned at = g.draw(n - 2); ord.setPosition(at); CHECK(ord.cont(s), "stops at " << at); ord.next(s, v); CHECK(v.index() == at + 1, "after position " << at << " comes " << v.index()); } }
        else if (kind == 1) { CHECK(without.hasNeighbor(s), "no neighbour"); for (without.init(s, v);; without.next(s, v)) { CHECK(without.position() == v.index(), "position " << without.position() << " for neighbour " << v.index()); keys.push_back(v.index()); if (!without.cont(s)) break; CHECK(keys.size() < n, "without replacement: more than " << n << " neighbours"); } std::sort(keys.begin(), keys.end()); std::vector<unsigned> e; for (unsigned i = 0; i < n; ++i) e.push_back(i); CHECK(keys == e, "without replacement: visited " << pbt::strv(keys) << " of " << n); }
        else { CHECK(with.hasNeighbor(s), "no neighbour"); unsigned stop = most ? most : 30, k = 0; for (with.init(s, v);; with.next(s, v)) { CHECK(v.index() < n, "with replacement: neighbour " << v.index() << " of " << n); ++k; bool c = with.cont(s); if (most) CHECK(c == (k < most), "with replacement: " << (c ? "goes on" : "stops") << " after " << k << " of " << most); else CHECK(c, "unbounded sampling stopped"); if (k >= stop) break; } }
        CHECK(sameGenes(s, before), "enumerating changed the solution");
    }
    g.nontrivial(n > 1); g.label("kind", kind == 0 ? "order" : kind == 1 ? "without replacement" : "with replacement"); g.note(kind == 0 ? "order " : kind == 1 ? "without replacement " : "with replacement ").note(n).note(" passes ").note(passes); (void)size;
}
PBT(bit_moves, 6000, 60000) {
    unsigned n = g.range(1, 9); B s = genB(g, n); BN v; unsigned k = g.draw(n - 1); if (g.boolean()) v.index(k); else v.index(s, k); std::vector<bool> e(s.begin(), s.end()); e[k] = !e[k]; moves<B, BN>(g, s, v, e, "moBitNeighbor"); BN w; w.index(g.draw(n - 1)); CHECK(v.equals(w) == (v.index() == w.index()), "equality of bit neighbours"); double f = g.grid(20, 0.25); v.fitness(f); std::stringstream o; v.printOn(o); w.readFrom(o); CHECK(w.index() == k && w.fitness() == f, "moBitNeighbor read back as " << w.index() << " " << w.fitness());
    BsN b; unsigned m = g.draw(n); std::vector<unsigned> all(n); for (unsigned i = 0; i < n; ++i) all[i] = i; for (unsigned i = 0; i < m; ++i) std::swap(all[i], all[i + g.draw(n - 1 - i)]); b.bits.assign(all.begin(), all.begin() + m); if (g.boolean()) b.bits.resize(m + g.draw(2), 0); b.nBits = m; e.assign(s.begin(), s.end()); for (unsigned i = 0; i < m; ++i) e[all[i]] = !e[all[i]]; moves<B, BsN>(g, s, b, e, "moBitsNeighbor"); BsN c(b); CHECK(c.equals(b) && b.equals(c), "a copy of a neighbour is another neighbour"); if (m) { c.bits[g.draw(m - 1)] += n; CHECK(!c.equals(b), "neighbours with another bit are equal"); } BsN d(b); d.nBits = m + 1; d.bits.resize(m + 1); CHECK(!d.equals(b), "neighbours of other lengths are equal"); g.nontrivial(n > 1); g.note("n ").note(n).note(" flipped ").note(m);
}
PBT(several_bits, 5000, 50000) {
    Silence quiet; unsigned n = g.chance(1, 40) ? 13 : g.range(1, 7), nb = n == 13 ? g.oneof({11, 12, 13, 2}) : g.range<unsigned>(1, n); bool exact = g.boolean(); std::set<std::set<unsigned>> all; for (unsigned m = 1; m < (1u << n); ++m) { std::set<unsigned> t; for (unsigned i = 0; i < n; ++i) if (m >> i & 1) t.insert(i); if (exact ? t.size() == nb : t.size() <= nb) all.insert(t); } unsigned size = all.size(), sample = g.chance(1, 3) ? 0 : g.range<unsigned>(1, size + 3), want = sample == 0 || sample > size ? size : sample; B s = genB(g, n), before = s; moBitsWithoutReplNeighborhood<BsN> without(n, nb, sample, exact); moBitsWithReplNeighborhood<BsN> with(n, nb, sample, exact); BsN v; unsigned passes = n == 13 ? 1 : g.range(1, 3);
    for (unsigned p = 0; p < passes; ++p) {
        CHECK(without.hasNeighbor(s) && with.hasNeighbor(s), "no neighbour"); CHECK(without.numberOfNeighbors(nb) == [&] { unsigned c = 0; for (auto& t : all) c += t.size() == nb; return c; }(), "number of neighbours at distance " << nb << " in length " << n << " is " << without.numberOfNeighbors(nb)); auto check = [&](const std::vector<BsN>& l, bool once, const char* what) { CHECK(l.size() == want, what << ": " << l.size() << " neighbours instead of " << want << " (length " << n << ", " << (exact ? "exactly " : "up to ") << nb << " bits, sample " << sample << ")"); std::set<std::set<unsigned>> seen; for (auto& x : l) { CHECK(x.nBits <= x.bits.size(), what << ": fewer bits than announced"); std::set<unsigned> t(x.bits.begin(), x.bits.begin() + x.nBits); CHECK(t.size() == x.nBits && all.count(t), what << ": invalid neighbour of " << x.nBits << " bits in length " << n); CHECK(seen.insert(t).second || !once, what << ": same neighbour twice"); } };
        check(visit<B, BsN>(without, s, v, want, "moBitsWithoutReplNeighborhood"), true, "moBitsWithoutReplNeighborhood"); if (g.boolean()) v = BsN(); check(visit<B, BsN>(with, s, v, want, "moBitsWithReplNeighborhood"), false, "moBitsWithReplNeighborhood"); CHECK(sameGenes(s, before), "enumerating changed the solution");
    }
    double rate = g.oneof({0.0, 0.1, 0.5, 1.0}); unsigned many = g.range(1, 8); moBitFlipNeighborhood<BsN> flip(rate, n, many); CHECK(flip.hasNeighbor(s) && flip.isRandom(), "no neighbour"); auto l = visit<B, BsN>(flip, s, v, many, "moBitFlipNeighborhood"); CHECK(l.size() == many, "moBitFlipNeighborhood: " << l.size() << " neighbours instead of " << many); for (auto& x : l) { std::set<unsigned> t(x.bits.begin(), x.bits.begin() + x.nBits); CHECK(t.size() == x.nBits && (t.empty() || *t.rbegin() < n), "moBitFlipNeighborhood: invalid neighbour"); if (rate == 0) CHECK(t.empty(), "bits flipped at rate 0"); if (rate == 1) CHECK(t.size() == n, "bits kept at rate 1"); } B none; CHECK(!flip.hasNeighbor(none), "an empty string has a neighbour"); g.nontrivial(n > 1); g.label("exact", exact); g.note("length ").note(n).note(" bits ").note(nb).note(exact ? " exactly" : "").note(" sample ").note(sample);
}
PBT(evenly, 80, 800) {
    Silence quiet; unsigned n = g.range(2, 4), nb = g.range<unsigned>(1, n); bool exact = g.boolean(); B s = genB(g, n); const unsigned M = 3000; std::map<std::set<unsigned>, unsigned> cell; for (unsigned m = 1; m < (1u << n); ++m) { std::set<unsigned> t; for (unsigned i = 0; i < n; ++i) if (m >> i & 1) t.insert(i); if (exact ? t.size() == nb : t.size() <= nb) cell.insert({t, cell.size()}); } std::vector<double> u(cell.size(), 1.0 / cell.size()); std::vector<unsigned> a(cell.size(), 0), b(cell.size(), 0), k1(n, 0), k2(n, 0), k3(n, 0), f(n, 0), two(n * n, 0), twob(cell.size() * cell.size(), 0); unsigned lastKey = 0, lastCell = 0; moBitsWithoutReplNeighborhood<BsN> without(n, nb, 0, exact); moBitsWithReplNeighborhood<BsN> with(n, nb, 0, exact); BsN v; moRndWithoutReplNeighborhood<BN> wo(n); moRndWithReplNeighborhood<BN> wi(n); BN x; double rate = g.oneof({0.2, 0.5, 0.7}); moBitFlipNeighborhood<BsN> flip(rate, n, 2);
    for (unsigned i = 0; i < M; ++i) { without.init(s, v); unsigned cl = cell.at(std::set<unsigned>(v.bits.begin(), v.bits.begin() + v.nBits)); a[cl]++; if (i) twob[lastCell * cell.size() + cl]++; lastCell = cl; with.init(s, v); if (i & 1) with.next(s, v); b[cell.at(std::set<unsigned>(v.bits.begin(), v.bits.begin() + v.nBits))]++; wo.init(s, x); k1[x.index()]++; if (i) two[lastKey * n + x.index()]++; lastKey = x.index(); wo.next(s, x); k2[x.index()]++; wi.init(s, x); if (i & 1) wi.next(s, x); k3[x.index()]++; flip.init(s, v); if (i & 1) flip.next(s, v); for (unsigned j = 0; j < v.nBits; ++j) f[v.bits[j]]++; }
    checkFreq(u, a, "first neighbour of moBitsWithoutReplNeighborhood"); checkFreq(u, b, "neighbours of moBitsWithReplNeighborhood"); std::vector<double> w(n, 1.0 / n); checkFreq(w, k1, "first neighbour without replacement"); checkFreq(std::vector<double>(n * n, 1.0 / n / n), two, "first neighbours of two passes without replacement"); checkFreq(std::vector<double>(twob.size(), 1.0 / twob.size()), twob, "first neighbours of two passes of moBitsWithoutReplNeighborhood"); checkFreq(w, k2, "second neighbour without replacement"); checkFreq(w, k3, "neighbour with replacement"); for (unsigned j = 0; j < n; ++j) { std::vector<double> q = {rate, 1 - rate}; std::vector<unsigned> c = {f[j], M - f[j]}; checkFreq(q, c, "bit flipped"); } g.nontrivial(true); g.note(n).note(" bits, distance ").note(nb);
}
PBT(permutations, 9000, 90000) {
    unsigned n = g.range(2, 8); I s = genI(g, n); const std::vector<int> base(s.begin(), s.end()); int kind = g.draw(4);
    auto swapped = [&](unsigned a, unsigned b) { auto e = base; std::swap(e[a], e[b]); return e; };
    if (kind == 0) { typedef moIndexedSwapNeighbor<I> N; N v; unsigned size = n * (n - 1) / 2; std::set<std::pair<unsigned, unsigned>> pairs; for (unsigned k = 0; k < size; ++k) { v.index(s, k); CHECK(v.index() == k && v.first() < v.second() && v.second() < n, "moIndexedSwapNeighbor " << k << " of " << n << " swaps " << v.first() << " and " << v.second()); CHECK(pairs.insert({v.first(), v.second()}).second, "moIndexedSwapNeighbor: two indices for the swap of " << v.first() << " and " << v.second()); N w; w.set(s, v.first(), v.second()); CHECK(w.index() == k, "swap " << v.first() << "," << v.second() << " of " << n << " has index " << w.index() << " instead of " << k); } unsigned a = g.draw(n - 2), b = g.range<unsigned>(a + 1, n - 1); if (g.boolean()) v.set(s, a, b); else v.index(s, g.draw(size - 1)); moves<I, N>(g, s, v, swapped(v.first(), v.second()), "moIndexedSwapNeighbor"); }
    else if (kind == 1) { typedef moShiftNeighbor<I> N; N v; std::set<std::pair<unsigned, unsigned>> pairs; unsigned size = n * (n - 1); for (unsigned k = 0; k < size; ++k) { v.index(s, k); unsigned a = v.first(), b = v.second(); CHECK(v.index() == k && a < n && b <= n && b != a && b != a + 1, "moShiftNeighbor " << k << " of " << n << " shifts " << a << " to " << b); CHECK(pairs.insert({a, b}).second, "moShiftNeighbor: two indices for the same shift"); N w; w.set(s, a, b); CHECK(w.index() == k && w.first() == a && w.second() == b, "shift " << a << "," << b << " of " << n << " has index " << w.index() << " instead of " << k); } v.index(s, g.draw(size - 1)); auto e = base; int x = e[v.first()]; e.erase(e.begin() + v.first()); e.insert(e.begin() + (v.second() > v.first() ? v.second() - 1 : v.second()), x); moves<I, N>(g, s, v, e, "moShiftNeighbor"); }
    else if (kind == 2) { typedef moSwapNeighbor<I> N; N v; unsigned a = g.draw(n - 1), b = (a + 1 + g.draw(n - 2)) % n; v.setIndices(a, b); moves<I, N>(g, s, v, swapped(a, b), "moSwapNeighbor"); N w; unsigned c = g.draw(n - 1), d = g.draw(n - 1); w.setIndices(c, d); CHECK(v.equals(w) == ((a == c && b == d) || (a == d && b == c)), "equality of swaps"); unsigned x, y; v.getIndices(x, y); CHECK(x == a && y == b, "indices of a swap"); }
    else if (kind == 3) { typedef moTwoOptExNeighbor<I> N; N v; unsigned a = g.draw(n - 2), b = g.range<unsigned>(a + 1, n - 1); v.setIndices(a, b); auto e = base; std::reverse(e.begin() + a, e.begin() + b + 1); moves<I, N>(g, s, v, e, "moTwoOptExNeighbor"); N w; unsigned c = g.draw(n - 1), d = g.draw(n - 1); w.setIndices(c, d); CHECK(v.equals(w) == ((a == c && b == d) || (a == d && b == c)), "equality of two-opt moves"); }
    else { moSwapNeighborhood<I> sw; moTwoOptExNeighborhood<I> to; moSwapNeighbor<I> v; moTwoOptExNeighbor<I> w; I one; one.resize(1); I none; CHECK(!sw.hasNeighbor(one) && !to.hasNeighbor(one) && !sw.hasNeighbor(none) && !to.hasNeighbor(none) && sw.hasNeighbor(s) && to.hasNeighbor(s) && !sw.isRandom(), "hasNeighbor of permutations"); unsigned size = n * (n - 1) / 2; for (int pass = 0; pass < 2; ++pass) { auto l = visit<I, moSwapNeighbor<I>>(sw, s, v, size, "moSwapNeighborhood"); auto m = visit<I, moTwoOptExNeighbor<I>>(to, s, w, size, "moTwoOptExNeighborhood"); std::set<std::pair<unsigned, unsigned>> p, q; for (auto& x : l) { unsigned a, b; x.getIndices(a, b); CHECK(a < b && b < n, "swap of " << a << " and " << b << " in " << n); p.insert({a, b}); } for (auto& x : m) { unsigned a, b; x.getIndices(a, b); CHECK(a < b && b < n, "two-opt of " << a << " and " << b << " in " << n); q.insert({a, b}); } CHECK(l.size() == size && p.size() == size, "moSwapNeighborhood visits " << l.size() << " neighbours, " << p.size() << " different, of " << size); CHECK(m.size() == size && q.size() == size, "moTwoOptExNeighborhood visits " << m.size() << " neighbours, " << q.size() << " different, of " << size); } }
    CHECK(base == std::vector<int>(s.begin(), s.end()), "enumerating changed the solution"); g.nontrivial(n > 2); g.label("kind", kind); g.note("kind ").note(kind).note(" size ").note(n);
}
PBT(partitions, 4000, 40000) {
    unsigned n = g.range(0, 7); Pa s(n); CHECK(s.selected.empty() && s.rejected.size() == n, "a new partition selects something"); for (unsigned i = 0; i < n; ++i) if (g.boolean()) s.select(i); if (!s.selected.empty() && g.boolean()) s.reject(*s.selected.begin()); moBinaryPartitionSwapNeighborhood<Pa> nh; bool has = !s.selected.empty() && !s.rejected.empty(); CHECK(nh.hasNeighbor(s) == has, "partition of " << s.selected.size() << " selected and " << s.rejected.size() << " rejected: hasNeighbor is " << !has); Pa start(s);
    if (has) { PaN v; unsigned size = s.selected.size() * s.rejected.size(); for (int pass = 0; pass < 2; ++pass) { auto l = visit<Pa, PaN>(nh, s, v, size, "moBinaryPartitionSwapNeighborhood"); std::set<std::pair<size_t, size_t>> seen; for (auto& x : l) { auto p = x.get(); CHECK(x.invalid(), "a new neighbour has a fitness"); CHECK(s.rejected.count(p.first) && s.selected.count(p.second), "swap of atoms that are not where they should be"); seen.insert(p); CHECK(x.size() == s.selected.size(), "size of a neighbour"); } CHECK(l.size() == size && seen.size() == size, "moBinaryPartitionSwapNeighborhood visits " << l.size() << " neighbours, " << seen.size() << " different, of " << size); PaN& x = l[g.draw(l.size() - 1)]; PaN y; bool known = g.boolean(); if (known) x.fitness(2.5); y = x; PaN z(y); CHECK(z.invalid() == !known && (!known || z.fitness() == 2.5) && z.equals(x), "copy of a neighbour"); auto p = z.get(); Pa t(s); t.fitness(1.0); z.move(t); auto sel = s.selected; sel.erase(p.second); sel.insert(p.first); auto rej = s.rejected; rej.erase(p.first); rej.insert(p.second); CHECK(t.selected == sel && t.rejected == rej, "swap of a partition gave " << t); CHECK(t.invalid(), "moved partition kept its fitness"); t.fitness(1.0); z.moveBack(t); CHECK(t == s && t.invalid(), "undone to " << t << " instead of " << s); } }
    CHECK(s == start, "enumerating changed the partition"); bool known = g.boolean(); if (known) s.fitness(g.grid(20, 0.25)); std::ostringstream o; o << s << " 77"; std::istringstream i(o.str()); Pa r(g.range(0, 5)); if (!r.rejected.empty() && g.boolean()) r.select(0); i >> r; int z = 0; i >> z; CHECK(r == s && r.invalid() == !known && (!known || r.fitness() == s.fitness()) && z == 77, "partition " << o.str() << " read back as " << r); g.nontrivial(has); g.note(n).note(" atoms, ").note(s.selected.size()).note(" selected");
}

// the same with larger sizes
PBT_LARGE(indexed, 60, 600, 10)
PBT_LARGE(bit_moves, 60, 600, 10)
PBT_LARGE(several_bits, 60, 600, 10)
PBT_LARGE(evenly, 10, 100, 10)
PBT_LARGE(permutations, 60, 600, 10)
PBT_LARGE(partitions, 60, 600, 10)
