// E03: permutation operators map permutations to permutations.
#include "eo_support.hpp"
#include <eoInt.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <mo>
#include <problems/permutation/moShiftNeighbor.h>
#include <problems/permutation/moSwapNeighbor.h>
#include <problems/permutation/moIndexedSwapNeighbor.h>
#include <problems/permutation/moTwoOptExNeighbor.h>
#include <memory>
using namespace sup;
typedef eoInt<double> Perm;
std::string show(const Perm& p) { std::ostringstream o; for (int x : p) o << x << " "; return o.str(); }

Perm genPerm(pbt::Gen& g, size_t n, int from = 0) {
    Perm p; for (size_t i = 0; i < n; ++i) p.push_back(from + (int)i);
    switch (g.draw(3)) {
        case 0: break;
        case 1: std::reverse(p.begin(), p.end()); break;
        default: for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[g.range<size_t>(0, i - 1)]);
    }
    p.fitness(1); return p;
}
void isPerm(const Perm& p, size_t n, int from, const char* what) {
    CHECK(p.size() == n, what << ": size " << p.size() << " instead of " << n);
    std::vector<int> s(p.begin(), p.end()); std::sort(s.begin(), s.end());
    for (size_t i = 0; i < n; ++i) CHECK(s[i] == from + (int)i, what << " is not a permutation: " << show(p));
}
size_t genSize(pbt::Gen& g) { return g.chance(1, 10) ? g.range<size_t>(2, 60) : g.range<size_t>(2, 9); }
std::vector<size_t> moved(const Perm& a, const Perm& b) { std::vector<size_t> d; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) d.push_back(i); return d; }

void judge(const Perm& a, const Perm& b, int kind, unsigned k) {
    auto d = moved(a, b);
    if (kind == 0) {
        CHECK(d.size() <= 2 * k, k << " swaps moved " << d.size() << " elements: " << show(a) << "-> " << show(b));
        if (k == 1) CHECK(d.size() == 2 && a[d[0]] == b[d[1]] && a[d[1]] == b[d[0]], "a single swap turned " << show(a) << "into " << show(b));
        // parity of the permutation
        std::vector<size_t> pos(a.size()); std::map<int, size_t> w; for (size_t i = 0; i < a.size(); ++i) w[a[i]] = i;
        for (size_t i = 0; i < b.size(); ++i) pos[i] = w[b[i]];
        std::vector<bool> seen(pos.size()); size_t cycles = 0;
        for (size_t i = 0; i < pos.size(); ++i) if (!seen[i]) { ++cycles; for (size_t j = i; !seen[j]; j = pos[j]) seen[j] = true; }
        CHECK((pos.size() - cycles) % 2 == k % 2 && pos.size() - cycles <= k, k << " swaps cannot turn " << show(a) << "into " << show(b));
    } else if (kind == 1) {
        CHECK(d.size() >= 2, "shift changed nothing");
        size_t i = d.front(), j = d.back();
        bool right = b[i] == a[j]; for (size_t x = i + 1; x <= j; ++x) right = right && b[x] == a[x - 1];
        CHECK(right, "shift turned " << show(a) << "into " << show(b) << ": not an element moved to the front of a segment");
    } else if (kind == 2) {
        CHECK(d.size() >= 2, "2-opt changed nothing");
        size_t i = d.front(), j = d.back();
        for (size_t x = i; x <= j; ++x) CHECK(b[x] == a[i + j - x], "2-opt turned " << show(a) << "into " << show(b));
    }
}
PBT(mutations, 6000, 60000) {
    size_t n = genSize(g); int from = g.oneof({0, 0, 1, 7});
    Perm p = genPerm(g, n, from);
    unsigned k = g.range<unsigned>(1, 5); int kind = g.range(0, 2), reps = g.range(1, 4);
    g.note(kind); g.note(k); g.note(show(p)); g.label("operator", kind); g.nontrivial(n > 2);
    std::unique_ptr<eoMonOp<Perm>> op;
    if (kind == 0) op.reset(new eoSwapMutation<Perm>(k)); else if (kind == 1) op.reset(new eoShiftMutation<Perm>); else op.reset(new eoTwoOptMutation<Perm>);
    for (int r = 0; r < reps; ++r) {
        Perm a = p; bool changed = (*op)(p);
        isPerm(p, n, from, "mutant"); judge(a, p, kind, k);
        CHECK(changed || a == p, "the operator reports no change but changed the permutation");
    }
}
PBT(swap_zero, 5, 20) { bool t = false; try { eoSwapMutation<Perm> s(0); } catch (std::exception&) { t = true; } CHECK(t, "a swap mutation of zero swaps is accepted"); g.nontrivial(true); }

// every pair of positions is equally likely
PBT(mutation_frequencies, 30, 300) {
    size_t n = g.range<size_t>(2, 5); int kind = g.range(0, 2); const unsigned N = 4000; g.nontrivial(true); g.note(kind); g.note(n);
    std::unique_ptr<eoMonOp<Perm>> op;
    if (kind == 0) op.reset(new eoSwapMutation<Perm>); else if (kind == 1) op.reset(new eoShiftMutation<Perm>); else op.reset(new eoTwoOptMutation<Perm>);
    std::map<std::pair<size_t, size_t>, unsigned> c;
    Perm a; for (size_t i = 0; i < n; ++i) a.push_back(i);
    for (unsigned t = 0; t < N; ++t) { Perm p = a; (*op)(p); auto d = moved(a, p); CHECK(d.size() >= 2, "nothing changed"); c[{d.front(), d.back()}]++; }
    std::vector<double> pr; std::vector<unsigned> cc;
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { pr.push_back(2.0 / (n * (n - 1))); cc.push_back(c[{i, j}]); }
    checkFreq(pr, cc, "segments chosen");
}
std::vector<Perm> oxChildren(const Perm& p1, const Perm& p2, size_t c1, size_t c2, int dir) {
    auto one = [&](const Perm& a, const Perm& b) {
        Perm r; std::set<int> used; size_t n = a.size();
        for (size_t i = c1; i < c2; ++i) { r.push_back(a[i]); used.insert(a[i]); }
        size_t from = std::find(b.begin(), b.end(), a[c2 - 1]) - b.begin();
        for (size_t i = 0; i < n; ++i) { size_t j = (from + (dir > 0 ? i : n - i)) % n; if (used.insert(b[j]).second) r.push_back(b[j]); }
        return r;
    };
    return {one(p1, p2), one(p2, p1)};
}
template <class A, class B> bool same(const A& a, const B& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
PBT(order_crossover, 3000, 30000) {
    size_t n = g.chance(1, 15) ? 1 : g.range<size_t>(1, 9); int from = g.oneof({0, 0, 1, 13});
    Perm a = genPerm(g, n, from), b = g.chance(1, 5) ? a : genPerm(g, n, from), x = a, y = b;
    g.note(show(a)); g.note("|"); g.note(show(b)); g.nontrivial(n > 2 && !same(a, b));
    eoOrderXover<Perm> op; bool changed = op(x, y);
    isPerm(x, n, from, "child"); isPerm(y, n, from, "child");
    CHECK(changed || (same(a, x) && same(b, y)), "order crossover reports no change but changed its parents");
    bool ok = false;
    for (size_t i = 0; i < n && !ok; ++i) for (size_t j = i + 1; j <= n && !ok; ++j) for (int d = -1; d <= 1 && !ok; d += 2) { auto e = oxChildren(a, b, i, j, d); ok = same(e[0], x) && same(e[1], y); }
    CHECK(ok, "children " << show(x) << "| " << show(y) << "of " << show(a) << "| " << show(b) << "keep no segment of one parent followed by the cyclic order of the other");
}
PBT(order_crossover_large, 300, 3000) {
    size_t n = g.range<size_t>(10, 200); int from = g.oneof({0, 1, 1000});
    Perm a = genPerm(g, n, from), b = genPerm(g, n, from); g.nontrivial(true);
    eoOrderXover<Perm> op; for (int r = 0; r < 4; ++r) { op(a, b); isPerm(a, n, from, "child"); isPerm(b, n, from, "child"); }
}
PBT(order_crossover_cuts, 15, 150) {
    // identity parents in opposite direction: segments of every length must occur
    size_t n = g.range<size_t>(3, 6); const unsigned N = 3000; g.nontrivial(true);
    Perm a, b; for (size_t i = 0; i < n; ++i) { a.push_back(i); b.push_back(i); }
    // equal parents, forward direction: child is the rotation starting at cut1; frequency of the first element follows cut1
    eoOrderXover<Perm> op; std::vector<unsigned> c(n, 0); std::vector<double> p(n, 0);
    for (size_t c2 = 1; c2 <= n; ++c2) for (size_t c1 = 0; c1 < c2; ++c1) p[c1] += 1.0 / n / c2;
    for (unsigned t = 0; t < N; ++t) { Perm x = a, y = b; op(x, y); c[x[0]]++; }
    checkFreq(p, c, "first cut of the order crossover");
}
Perm pmx(const Perm& keep, const Perm& give, size_t i1, size_t i2) {
    Perm r = keep; std::map<int, int> m; // value given -> value displaced
    for (size_t i = i1; i <= i2; ++i) { r[i] = give[i]; m[give[i]] = keep[i]; }
    for (size_t i = 0; i < keep.size(); ++i) if (i < i1 || i > i2) { int v = keep[i]; while (m.count(v)) v = m[v]; r[i] = v; }
    return r;
}
PBT(partially_mapped, 3000, 30000) {
    size_t n = g.chance(1, 15) ? 1 : g.range<size_t>(1, 9);
    Perm a = genPerm(g, n), b = g.chance(1, 5) ? a : genPerm(g, n), x = a, y = b;
    g.note(show(a)); g.note("|"); g.note(show(b)); g.nontrivial(n > 2 && !same(a, b));
    eoPartiallyMappedXover<Perm> op; bool changed = op(x, y);
    isPerm(x, n, 0, "child"); isPerm(y, n, 0, "child");
    CHECK(changed || (same(a, x) && same(b, y)), "partially mapped crossover reports no change but changed its parents");
    bool ok = n < 2 && !changed;
    for (size_t i = 0; i < n && !ok; ++i) for (size_t j = i + 1; j < n && !ok; ++j) ok = same(pmx(a, b, i, j), x) && same(pmx(b, a, i, j), y);
    CHECK(ok, "children " << show(x) << "| " << show(y) << "of " << show(a) << "| " << show(b) << "are not a partially mapped exchange of one segment");
}
PBT(partially_mapped_large, 300, 3000) {
    size_t n = g.range<size_t>(10, 200); Perm a = genPerm(g, n), b = genPerm(g, n); g.nontrivial(true);
    eoPartiallyMappedXover<Perm> op; for (int r = 0; r < 4; ++r) { op(a, b); isPerm(a, n, 0, "child"); isPerm(b, n, 0, "child"); }
}
PBT(initialiser, 400, 4000) {
    size_t n = g.range<size_t>(0, 40); unsigned from = g.range<unsigned>(0, 5);
    eoInitPermutation<Perm> init(n, from); Perm p; if (g.boolean()) { p.resize(g.range<size_t>(0, 50)); p.fitness(1); }
    init(p); isPerm(p, n, from, "initialised individual"); CHECK(p.invalid(), "an initialised permutation still has a fitness"); g.nontrivial(n > 1);
}
PBT(initialiser_uniform, 15, 150) {
    size_t n = g.range<size_t>(2, 4); const unsigned N = 4800; g.nontrivial(true);
    eoInitPermutation<Perm> init(n); std::map<std::vector<int>, unsigned> c; Perm p;
    for (unsigned t = 0; t < N; ++t) { init(p); c[std::vector<int>(p.begin(), p.end())]++; }
    std::vector<int> q; for (size_t i = 0; i < n; ++i) q.push_back(i);
    std::vector<double> pr; std::vector<unsigned> cc; do { cc.push_back(c[q]); } while (std::next_permutation(q.begin(), q.end()));
    pr.assign(cc.size(), 1.0 / cc.size()); checkFreq(pr, cc, "initial permutations");
}
// local search moves, applied and taken back
template <class N> void moves(pbt::Gen& g, Perm& s, N& nb, const char* what, size_t n) {
    Perm a = s; nb.move(s); isPerm(s, n, 0, what);
    if (g.boolean()) { nb.moveBack(s); CHECK(same(a, s), what << " taken back gives " << show(s) << "instead of " << show(a)); }
}
PBT(local_moves, 4000, 40000) {
    size_t n = genSize(g); Perm s = genPerm(g, n); int steps = g.range(1, 6); g.nontrivial(n > 2);
    for (int r = 0; r < steps; ++r) {
        size_t i = g.range<size_t>(0, n - 1), j = g.range<size_t>(0, n - 2); if (j >= i) ++j;
        int kind = g.range(0, 3); g.note(kind); g.note(i); g.note(j); g.label("move", kind);
        if (kind == 0) { moSwapNeighbor<Perm> m; m.setIndices(i, j); Perm a = s; moves(g, s, m, "swap move", n); if (!same(a, s)) judge(a, s, 0, 1); }
        else if (kind == 1) { moIndexedSwapNeighbor<Perm> m; m.set(s, std::min(i, j), std::max(i, j)); Perm a = s; moves(g, s, m, "indexed swap move", n); if (!same(a, s)) judge(a, s, 0, 1); }
        else if (kind == 2) { moShiftNeighbor<Perm> m; m.index(s, g.range<unsigned>(0, (n - 1) * (n - 1) - 1)); moves(g, s, m, "shift move", n); }
        else { moTwoOptExNeighbor<Perm> m; m.setIndices(std::min(i, j), std::max(i, j)); Perm a = s; moves(g, s, m, "2-opt move", n); if (!same(a, s)) judge(a, s, 2, 1); }
    }
}
