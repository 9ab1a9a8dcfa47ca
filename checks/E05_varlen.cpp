// E05: variable-length operators respect size limits and conserve genes.
#include "eo_support.hpp"
#include <eoInt.h>
#include <eoVariableLengthMutation.h>
#include <eoVariableLengthCrossover.h>
#include <eoFlOrMonOp.h>
#include <memory>
using namespace sup;
typedef eoVector<double, int> V; // genes carry unique labels so every gene can be followed
std::vector<int> vec(const V& v) { return std::vector<int>(v.begin(), v.end()); }
std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
V genV(size_t n, int first) { V v; for (size_t i = 0; i < n; ++i) v.push_back(first + (int)i); v.fitness(3); return v; }
struct NewGene : public eoInit<int> { int next = 100000, calls = 0; void operator()(int& x) { x = next++; ++calls; } };
struct Last : public eoGeneDelChooser<V> { unsigned at = 0; unsigned operator()(V& v) { return at % v.size(); } std::string className() const { return "Last"; } };

PBT(insertion, 3000, 30000) {
    size_t n = g.range<size_t>(0, 8); unsigned nMax = g.chance(1, 4) ? n : g.range<unsigned>(0, 10); int reps = g.range(1, 8);
    V v = genV(n, 0); NewGene init; eoVlAddMutation<V> op(nMax, init); g.note(n); g.note(nMax); g.nontrivial(nMax > n);
    for (int r = 0; r < reps; ++r) {
        auto before = vec(v); int calls = init.calls; bool changed = op(v); auto after = vec(v);
        if (before.size() >= nMax) { CHECK(after == before && !changed, "insertion at the maximal size " << nMax << " gives size " << after.size() << " and reports " << changed); continue; }
        CHECK(changed, "insertion below the maximum reports no change");
        CHECK(after.size() == before.size() + 1, "insertion took the size from " << before.size() << " to " << after.size());
        auto it = std::find(after.begin(), after.end(), init.next - 1); CHECK(it != after.end(), "the inserted gene is not the initialised one");
        after.erase(it); CHECK(after == before, "insertion disturbed the other genes");
    }
}
PBT(deletion, 3000, 30000) {
    size_t n = g.range<size_t>(0, 9); unsigned nMin = g.chance(1, 4) ? n : g.range<unsigned>(0, 9); int reps = g.range(1, 8); bool own = g.boolean();
    V v = genV(n, 0); Last ch; ch.at = g.range<unsigned>(0, 9); std::unique_ptr<eoVlDelMutation<V>> op(own ? new eoVlDelMutation<V>(nMin, ch) : new eoVlDelMutation<V>(nMin)); g.note(n); g.note(nMin); g.nontrivial(n > nMin);
    for (int r = 0; r < reps; ++r) {
        auto before = vec(v); bool changed = (*op)(v); auto after = vec(v);
        if (before.size() <= nMin) { CHECK(after == before && !changed, "deletion at the minimal size " << nMin << " gives size " << after.size() << " and reports " << changed); continue; }
        CHECK(changed, "deletion above the minimum reports no change");
        CHECK(after.size() + 1 == before.size(), "deletion took the size from " << before.size() << " to " << after.size());
        bool ok = false; size_t where = 0; for (size_t i = 0; i < before.size() && !ok; ++i) { auto e = before; e.erase(e.begin() + i); if (e == after) { ok = true; where = i; } }
        CHECK(ok, "deletion disturbed the other genes");
        if (own) CHECK(where == ch.at % before.size(), "the gene deleted is not the one chosen");
    }
}
PBT(positions, 30, 300) {
    size_t n = g.range<size_t>(1, 6); const unsigned N = 4000; bool add = g.boolean(); NewGene init; eoVlAddMutation<V> ad(100, init); eoVlDelMutation<V> del(0); g.nontrivial(n > 1); g.note(n); g.note(add);
    size_t cells = add ? n + 1 : n; std::vector<double> p(cells, 1.0 / cells); std::vector<unsigned> c(cells, 0);
    for (unsigned t = 0; t < N; ++t) { V v = genV(n, 0); if (add) { ad(v); size_t i = 0; while (v[i] < 100000) ++i; c[i]++; } else { del(v); size_t i = 0; while (i < v.size() && v[i] == (int)i) ++i; c[i]++; } }
    checkFreq(p, c, add ? "insertion point" : "deleted position");
}
double binom(unsigned n, unsigned k, double p) { if (p <= 0) return k == 0; if (p >= 1) return k == n; return std::exp(std::lgamma(n + 1.0) - std::lgamma(k + 1.0) - std::lgamma(n - k + 1.0) + k * std::log(p) + (n - k) * std::log1p(-p)); }
// +1: has to succeed (chance of 10000 failures negligible), -1: cannot, 0: unclear
int expectation(double perTrial) { if (perTrial <= 0) return -1; return std::pow(1 - perTrial, 9999) < 1e-15 ? 1 : 0; }
void genLimits(pbt::Gen& g, size_t n1, size_t n2, unsigned& lo, unsigned& hi) {
    unsigned a = std::min(n1, n2), b = std::max(n1, n2);
    lo = g.oneof({0u, 0u, a, a > 0 ? a - 1 : 0u, 1u}); hi = g.oneof({b, b + 1, 2 * b + 2, 100u, (unsigned)(n1 + n2 + 1) / 2, (unsigned)(n1 + n2 + 1) / 2 + 1});
    if (g.chance(1, 6)) lo = (n1 + n2) / 2;
    if (g.chance(1, 30)) { lo = n1 + n2; hi = n1 + n2 - (n1 + n2 > 0 && g.boolean()); } // cannot be met by both
}
PBT(uniform_exchange, 1500, 15000) {
    size_t n1 = g.range<size_t>(0, 7), n2 = g.range<size_t>(0, 7); unsigned lo, hi; genLimits(g, n1, n2, lo, hi);
    double rate = g.oneof({0.5, 0.5, 0.2, 0.9}); V a = genV(n1, 0), b = genV(n2, 100), x = a, y = b; g.note(n1); g.note(n2); g.note(lo); g.note(hi); g.note(rate); g.nontrivial(n1 + n2 > 2);
    double p = 0; for (unsigned k = 0; k <= n1 + n2; ++k) if (k >= lo && k <= hi && n1 + n2 - k >= lo && n1 + n2 - k <= hi) p += binom(n1 + n2, k, rate);
    eoVlUniformQuadOp<V> op(lo, hi, rate); bool changed = op(x, y); int e = expectation(p); g.label("limits", e);
    if (!changed) CHECK(vec(x) == vec(a) && vec(y) == vec(b), "an exchange that reports no change altered its parents");
    if (e < 0) CHECK(!changed, "an exchange that cannot meet the limits " << lo << ".." << hi << " produced sizes " << x.size() << " and " << y.size());
    if (e > 0) CHECK(changed, "the exchange gave up although limits " << lo << ".." << hi << " are easily met by sizes " << n1 << " and " << n2);
    if (changed) CHECK(x.size() >= lo && x.size() <= hi && y.size() >= lo && y.size() <= hi, "children of sizes " << x.size() << " and " << y.size() << " outside " << lo << ".." << hi);
    auto all = vec(x), q = vec(y), in = vec(a), in2 = vec(b); all.insert(all.end(), q.begin(), q.end()); in.insert(in.end(), in2.begin(), in2.end());
    CHECK(sorted(all) == sorted(in), "the children's genes are not those of the parents");
}
PBT(uniform_exchange_binary, 1500, 15000) {
    size_t n1 = g.range<size_t>(0, 7), n2 = g.range<size_t>(0, 7); unsigned lo, hi; genLimits(g, n1, n2, lo, hi);
    double rate = g.oneof({0.5, 0.5, 0.2, 0.9, 0.0, 1.0}); bool same = g.chance(1, 8); V a = genV(n1, 0), b = same ? a : genV(n2, 100), x = a; const V bb = b; if (same) n2 = n1; g.note(n1); g.note(n2); g.note(lo); g.note(hi); g.note(rate); g.nontrivial(n1 + n2 > 2);
    double p = 0; for (unsigned k = 0; k <= n1; ++k) for (unsigned l = 0; l <= n2; ++l) if (k + l >= lo && k + l <= hi) p += binom(n1, k, rate) * binom(n2, l, 1 - rate);
    eoVlUniformBinOp<V> op(lo, hi, rate); bool changed = op(x, b); int e = expectation(p);
    CHECK(vec(b) == vec(bb), "the second parent was altered");
    if (!changed) CHECK(vec(x) == vec(a), "a crossover that reports no change altered its first parent");
    if (e < 0) CHECK(!changed && vec(x) == vec(a), "a crossover that cannot meet the limits produced size " << x.size());
    if (e > 0 && changed) CHECK(x.size() >= lo && x.size() <= hi, "child of size " << x.size() << " outside " << lo << ".." << hi);
    if (e > 0 && !(n1 >= lo && n1 <= hi)) CHECK(changed, "the crossover gave up although the limits are easily met");
    auto in = vec(a), in2 = vec(b); in.insert(in.end(), in2.begin(), in2.end()); in = sorted(in); auto out = sorted(vec(x));
    CHECK(std::includes(in.begin(), in.end(), out.begin(), out.end()), "the child holds a gene more often than its parents");
    if (rate == 1 && e > 0) CHECK(vec(x) == vec(a), "rate one must keep the first parent");
    if (rate == 0 && e > 0) CHECK(vec(x) == vec(b), "rate zero must give the second parent");
}
PBT(exchange_frequencies, 30, 300) {
    size_t n1 = g.range<size_t>(1, 4), n2 = g.range<size_t>(1, 4); double rate = g.oneof({0.5, 0.2, 0.9}); const unsigned N = 3000; int kind = g.range(0, 2); g.note(kind); g.nontrivial(true);
    eoVlUniformQuadOp<V> q(0, 100, rate); eoVlUniformBinOp<V> b(0, 100, rate); eoUniformAtomExchange<int> ex(rate); eoVlAtomExchangeQuadOp<V> at(0, 100, ex);
    std::vector<unsigned> c(n1 + n2, 0);
    for (unsigned t = 0; t < N; ++t) { V x = genV(n1, 0), y = genV(n2, 100); if (kind == 0) q(x, y); else if (kind == 1) b(x, y); else at(x, y); for (int v : x) c[v < 100 ? v : n1 + v - 100]++; }
    for (size_t i = 0; i < n1 + n2; ++i) { double p = i < n1 || kind == 0 ? rate : 1 - rate; CHECK(std::fabs(c[i] - N * p) <= 7 * std::sqrt(N * p * (1 - p)) + 6, "gene " << i << " reached the first child " << c[i] << " times of " << N << ", expected " << N * p); }
}
// an exchange that decides gene by gene from a fixed mask, changing with each trial
struct MaskExchange : public eoAtomExchange<int> {
    std::vector<std::vector<bool>> masks; size_t trial = 0;
    void randomize(unsigned, unsigned) { ++trial; }
    bool operator()(unsigned i, int&) { return masks[std::min(trial, masks.size()) - 1][i]; }
    std::string className() const { return "MaskExchange"; }
};
PBT(atom_exchange, 1500, 15000) {
    size_t n1 = g.range<size_t>(0, 6), n2 = g.range<size_t>(0, 6); unsigned lo, hi; genLimits(g, n1, n2, lo, hi);
    MaskExchange ex; size_t m = g.range<size_t>(1, 5); for (size_t i = 0; i < m; ++i) ex.masks.push_back(g.mask(std::max(n1, n2) + 1));
    if (g.chance(19, 20)) ex.masks.push_back(std::vector<bool>(8, true)); // keeping everything: feasible whenever the parents are
    V a = genV(n1, 0), b = genV(n2, 100), x = a, y = b; g.note(n1); g.note(n2); g.note(lo); g.note(hi); g.nontrivial(n1 + n2 > 2);
    eoVlAtomExchangeQuadOp<V> op(lo, hi, ex); bool changed = op(x, y);
    std::vector<int> e1, e2; bool found = false;
    for (auto& k : ex.masks) { e1.clear(); e2.clear();
        for (size_t i = 0; i < n1; ++i) (k[i] ? e1 : e2).push_back(a[i]);
        for (size_t i = 0; i < n2; ++i) (k[i] ? e2 : e1).push_back(b[i]);
        if (e1.size() >= lo && e1.size() <= hi && e2.size() >= lo && e2.size() <= hi) { found = true; break; } }
    if (!found) { CHECK(!changed && vec(x) == vec(a) && vec(y) == vec(b), "no trial meets the limits " << lo << ".." << hi << " but the parents changed"); g.label("limits", "infeasible"); return; }
    CHECK(changed, "a feasible exchange was not made");
    CHECK(sorted(vec(x)) == sorted(e1) && sorted(vec(y)) == sorted(e2), "children " << pbt::strv(vec(x)) << " " << pbt::strv(vec(y)) << " instead of " << pbt::strv(e1) << " " << pbt::strv(e2));
}
PBT(uniform_atom_exchange, 800, 8000) {
    size_t n1 = g.range<size_t>(0, 6), n2 = g.range<size_t>(0, 6); unsigned lo, hi; genLimits(g, n1, n2, lo, hi); double rate = g.oneof({0.5, 0.1, 0.9, 0.0, 1.0}); g.nontrivial(n1 + n2 > 2);
    V a = genV(n1, 0), b = genV(n2, 100), x = a, y = b; eoUniformAtomExchange<int> ex(rate); eoVlAtomExchangeQuadOp<V> op(lo, hi, ex);
    bool changed = op(x, y); g.note(n1); g.note(n2); g.note(lo); g.note(hi); g.note(rate);
    if (!changed) CHECK(vec(x) == vec(a) && vec(y) == vec(b), "an exchange that reports no change altered its parents");
    else CHECK(x.size() >= lo && x.size() <= hi && y.size() >= lo && y.size() <= hi, "children of sizes " << x.size() << " and " << y.size() << " outside " << lo << ".." << hi);
    auto all = vec(x), q = vec(y), in = vec(a), in2 = vec(b); all.insert(all.end(), q.begin(), q.end()); in.insert(in.end(), in2.begin(), in2.end());
    CHECK(sorted(all) == sorted(in), "the children's genes are not those of the parents");
    bool parentsFit = n1 >= lo && n1 <= hi && n2 >= lo && n2 <= hi;
    if (parentsFit) CHECK(changed, "the exchange gave up although keeping the parents is feasible (rate " << rate << ")");
}
// gene-wise operators
struct Bump : public eoMonOp<int> { int calls = 0; int mod = 1; bool operator()(int& x) { ++calls; if (x % mod == 0) { x += 1000; return true; } return false; } };
struct SwapGene : public eoQuadOp<int> { int mod = 1; bool operator()(int& a, int& b) { if (a % mod) return false; std::swap(a, b); return true; } };
PBT(gene_wise, 2000, 20000) {
    size_t n = g.range<size_t>(1, 9); V v = genV(n, 0), before = v; Bump m; m.mod = g.range(1, 3); int kind = g.range(0, 2); double rate = g.oneof({0.0, 1.0, 0.5}); unsigned k = g.range<unsigned>(0, 4); g.note(kind); g.note(n); g.note(rate); g.note(k); g.nontrivial(n > 1);
    if (kind == 0) {
        eoFlOrAllMutation<V> op(m, rate); bool changed = op(v); CHECK(v.size() == n, "gene-wise mutation changed the size");
        int diff = 0; for (size_t i = 0; i < n; ++i) { diff += v[i] != before[i]; CHECK(v[i] == before[i] || (v[i] == before[i] + 1000), "a gene was mutated more than once"); }
        CHECK(changed == (diff > 0), "reports " << changed << " with " << diff << " genes changed");
        if (rate == 0) CHECK(diff == 0 && m.calls == 0, "rate zero mutated genes"); if (rate == 1) CHECK(m.calls == (int)n, "rate one must submit every gene to mutation");
    } else if (kind == 1) {
        eoFlOrKMutation<V> op(m, k); bool changed = op(v); CHECK(v.size() == n, "gene-wise mutation changed the size"); CHECK(m.calls == (int)k, k << " gene mutations asked, " << m.calls << " made");
        int diff = 0; for (size_t i = 0; i < n; ++i) diff += v[i] != before[i]; CHECK(changed == (diff > 0), "reports " << changed << " with " << diff << " genes changed"); CHECK(diff <= (int)k, "too many genes changed");
    } else {
        size_t n2 = g.range<size_t>(0, 9); V w = genV(n2, 100), wb = w; SwapGene s; s.mod = m.mod; eoInnerExchangeQuadOp<V> op(s, rate); bool changed = op(v, w);
        CHECK(v.size() == n && w.size() == n2, "inner exchange changed the sizes"); int diff = 0;
        for (size_t i = 0; i < std::max(n, n2); ++i) { if (i >= std::min(n, n2)) { CHECK((i >= n || v[i] == before[i]) && (i >= n2 || w[i] == wb[i]), "genes without partner changed"); continue; }
            bool kept = v[i] == before[i] && w[i] == wb[i], sw = v[i] == wb[i] && w[i] == before[i]; CHECK(kept || sw, "inner exchange lost genes at position " << i); diff += sw; if (rate == 1) CHECK(sw == (before[i] % s.mod == 0), "rate one must submit every pair of genes"); }
        CHECK(changed == (diff > 0), "reports " << changed << " with " << diff << " pairs exchanged"); if (rate == 0) CHECK(diff == 0, "rate zero exchanged genes");
    }
}
PBT(initialiser, 400, 4000) {
    unsigned lo = g.range<unsigned>(0, 6), hi = g.range<unsigned>(0, 9); NewGene init; g.note(lo); g.note(hi);
    bool thrown = false; try { eoInitVariableLength<V> op(lo, hi, init); } catch (std::exception&) { thrown = true; }
    CHECK(thrown == (lo >= hi), "size range " << lo << ".." << hi << (thrown ? " refused" : " accepted")); if (thrown) return;
    eoInitVariableLength<V> op(lo, hi, init); g.nontrivial(hi > lo + 1); std::vector<unsigned> c(hi - lo, 0); std::vector<double> p(hi - lo, 1.0 / (hi - lo));
    V v = genV(g.range<size_t>(0, 9), 0);
    for (int t = 0; t < 1500; ++t) { int first = init.next; op(v); CHECK(v.invalid(), "an initialised individual has a fitness"); CHECK(v.size() >= lo && v.size() < hi, "size " << v.size() << " outside [" << lo << "," << hi << ")"); for (size_t i = 0; i < v.size(); ++i) CHECK(v[i] == first + (int)i, "gene " << i << " was not initialised"); c[v.size() - lo]++; v.fitness(1); }
    checkFreq(p, c, "initial sizes");
}
