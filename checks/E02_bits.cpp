// E02: bit-string operators change exactly what they promise.
#include "eo_support.hpp"
#include <ga/eoBit.h>
#include <ga/eoBitOp.h>
#include <ga/eoStandardBitMutation.h>
#include <memory>
using namespace sup;
typedef eoBit<double> B;
typedef eoBit<double, int> BI;

template <class C> C randomBits(pbt::Gen& g, size_t n) {
    C c; c.resize(n);
    switch (g.draw(4)) {
        case 0: for (size_t i = 0; i < n; ++i) c[i] = 0; break;
        case 1: for (size_t i = 0; i < n; ++i) c[i] = 1; break;
        default: for (size_t i = 0; i < n; ++i) c[i] = g.boolean() ? 1 : 0;
    }
    c.fitness(1);
    return c;
}
template <class C> std::string show(const C& c) { std::string s; for (size_t i = 0; i < c.size(); ++i) s += c[i] ? '1' : '0'; return s; }
template <class C> std::vector<size_t> diff(const C& a, const C& b) {
    CHECK(a.size() == b.size(), "the length went from " << a.size() << " to " << b.size());
    std::vector<size_t> d; for (size_t i = 0; i < a.size(); ++i) if ((bool)a[i] != (bool)b[i]) d.push_back(i);
    return d;
}
template <class C> void binary(const C& c) { for (size_t i = 0; i < c.size(); ++i) CHECK(c[i] == 0 || c[i] == 1, "locus " << i << " is neither 0 nor 1"); }
double binom(unsigned n, unsigned k, double p) {
    if (p <= 0) return k == 0; if (p >= 1) return k == n;
    return std::exp(std::lgamma(n + 1.0) - std::lgamma(k + 1.0) - std::lgamma(n - k + 1.0) + k * std::log(p) + (n - k) * std::log1p(-p));
}
size_t genSize(pbt::Gen& g, size_t lo = 1) { return g.chance(1, 8) ? g.range<size_t>(lo, 300) : g.range<size_t>(lo, 12); }

// ---- what one application may do
template <class C> void mutateOnce(pbt::Gen& g) {
    size_t n = genSize(g);
    C start = randomBits<C>(g, n), c = start;
    unsigned kind = g.draw(13);
    unsigned k = g.boolean() ? (unsigned)g.range<size_t>(0, n) : (unsigned)g.range<size_t>(0, std::min<size_t>(n, 3));
    double rate = g.oneof({0.0, 1.0, 0.1, 0.5, 0.9});
    int reps = g.range(1, 3);
    g.note(kind); g.note(n); g.note(show(start)); g.note(k); g.note(rate);
    g.label("operator", std::to_string(kind));
    g.nontrivial(n > 1);
    std::unique_ptr<eoMonOp<C>> op;
    int lo = 0, hi = (int)n; int parity = -1;
    switch (kind) {
        case 0: op.reset(new eoOneBitFlip<C>); lo = hi = 1; break;
        case 1: op.reset(new eoDetBitFlip<C>(k)); hi = std::min<int>(k, n); parity = k % 2; break;
        case 2: op.reset(new eoDetSingleBitFlip<C>(k)); lo = hi = k; break;
        case 3: op.reset(new eoBitMutation<C>(rate)); if (rate == 0) hi = 0; if (rate == 1) lo = n; break;
        case 4: rate = g.oneof({0.0, (double)n, 1.0}); op.reset(new eoBitMutation<C>(rate, true)); if (rate == 0) hi = 0; if (rate == (double)n) lo = n; break;
        case 5: op.reset(new eoBitInversion<C>); break;
        case 6: op.reset(new eoBitNext<C>); break;
        case 7: op.reset(new eoBitPrev<C>); break;
        case 8: op.reset(new eoStandardBitMutation<C>(rate)); if (rate == 1) lo = n; break;
        case 9: op.reset(new eoConditionalBitMutation<C>(rate)); lo = 1; if (rate == 1) lo = n; break;
        case 10: op.reset(new eoShiftedBitMutation<C>(rate)); lo = 1; if (rate == 1) lo = n; break;
        case 11: op.reset(new eoUniformBitMutation<C>); hi = (int)n - 1; break;
        case 12: if (n < 2) g.discard(); op.reset(new eoFastBitMutation<C>(g.oneof({1.5, 2.0, 3.0}))); break;
        case 13: { // one bucket [a,b)
            int a = g.range<int>(0, (int)n - 1), b = g.range<int>(a, (int)n);
            op.reset(new eoBucketBitMutation<C>(std::vector<std::vector<int>>{{a, b}}, std::vector<double>{1.0}));
            lo = a; hi = b > a ? b - 1 : b; break; }
    }
    for (int r = 0; r < reps; ++r) {
        C before = c;
        bool changed = (*op)(c);
        binary(c);
        auto d = diff(before, c);
        if (kind == 5) {
            // some contiguous segment reversed
            bool found = false;
            for (size_t i = 0; i <= n && !found; ++i) for (size_t j = i + 1; j <= n && !found; ++j) {
                bool ok = (d.empty() || (d.front() >= i && d.back() < j));
                for (size_t x = i; ok && x < j; ++x) ok = (bool)c[x] == (bool)before[i + j - 1 - x];
                found = ok;
                if (n > 40 && j > n) break;
            }
            if (n <= 40) CHECK(found, "inversion turned " << show(before) << " into " << show(c) << ", which reverses no segment");
            else {
                size_t ones = 0, onesB = 0; for (size_t i = 0; i < n; ++i) { ones += c[i] ? 1 : 0; onesB += before[i] ? 1 : 0; }
                CHECK(ones == onesB, "inversion changed the number of ones");
            }
        } else if (kind == 6 || kind == 7) {
            C e = before;
            for (int i = (int)n - 1; i >= 0; --i) { bool was = e[i]; e[i] = was ? 0 : 1; if (kind == 6 ? !was : was) break; }
            CHECK(diff(e, c).empty(), (kind == 6 ? "successor" : "predecessor") << " of " << show(before) << " is " << show(e) << " but the operator gave " << show(c));
        } else {
            CHECK((int)d.size() >= lo && (int)d.size() <= hi, "flipped " << d.size() << " of " << n << " bits, allowed " << lo << " to " << hi);
            if (parity >= 0) CHECK((int)d.size() % 2 == parity, "flipping " << k << " bits one by one changed " << d.size() << " of them");
        }
        CHECK(changed || d.empty(), "the operator reports no change although " << d.size() << " bits differ");
        if (kind != 1 && kind < 5 || kind >= 8) CHECK(changed == !d.empty(), "the operator reports " << changed << " but " << d.size() << " bits were flipped");
    }
}
PBT(mutation_once, 8000, 30000) { mutateOnce<B>(g); }
PBT(mutation_once_int, 800, 10000) { mutateOnce<BI>(g); }

// ---- how the number of flipped bits is distributed, and that no locus is favoured
PBT(mutation_distribution, 200, 600) {
    size_t n = g.range<size_t>(2, 9);
    unsigned kind = g.draw(8);
    double rate = g.oneof({0.0, 0.2, 0.5, 0.8, 1.0});
    const unsigned N = 4000;
    std::vector<double> p(n + 1, 0.0);
    std::unique_ptr<eoMonOp<B>> op;
    std::string name;
    double r = rate == 0 ? 1.0 / n : rate;
    bool perLocus = true;
    switch (kind) {
        case 0: op.reset(new eoBitMutation<B>(rate)); for (unsigned k = 0; k <= n; ++k) p[k] = binom(n, k, rate); break;
        case 1: op.reset(new eoBitMutation<B>(n * r, true)); for (unsigned k = 0; k <= n; ++k) p[k] = binom(n, k, r); break;
        case 2: op.reset(new eoStandardBitMutation<B>(rate)); for (unsigned k = 0; k <= n; ++k) p[k] = binom(n, k, r); break;
        case 3: op.reset(new eoConditionalBitMutation<B>(rate)); for (unsigned k = 1; k <= n; ++k) p[k] = binom(n, k, r) / (1 - binom(n, 0, r)); break;
        case 4: op.reset(new eoShiftedBitMutation<B>(rate)); for (unsigned k = 1; k <= n; ++k) p[k] = binom(n, k, r); p[1] += binom(n, 0, r); break;
        case 5: op.reset(new eoUniformBitMutation<B>); for (unsigned k = 0; k < n; ++k) p[k] = 1.0 / n; break;
        case 6: {
            double beta = g.oneof({1.2, 1.5, 2.5}), z = 0; op.reset(new eoFastBitMutation<B>(beta));
            for (unsigned i = 1; i <= n / 2; ++i) z += std::pow(i, -beta);
            for (unsigned i = 1; i <= n / 2; ++i) for (unsigned k = 0; k <= n; ++k) p[k] += std::pow(i, -beta) / z * binom(n, k, double(i) / n);
            break; }
        case 7: {
            std::vector<std::vector<int>> bk; std::vector<double> w; double z = 0; int m = g.range(1, 4);
            for (int i = 0; i < m; ++i) { int a = g.range<int>(0, n), b = g.range<int>(a, n); bk.push_back({a, b}); w.push_back(g.oneof({0.0, 1.0, 0.5, 2.0})); z += w.back(); }
            if (z == 0) { w[0] = 1; z = 1; }
            for (int i = 0; i < m; ++i) { int a = bk[i][0], b = bk[i][1]; if (b > a) for (int k = a; k < b; ++k) p[k] += w[i] / z / (b - a); else p[b] += w[i] / z; }
            op.reset(new eoBucketBitMutation<B>(bk, w)); break; }
        case 8: { unsigned k = g.range<size_t>(0, n); op.reset(new eoDetSingleBitFlip<B>(k)); p[k] = 1; break; }
    }
    g.note(kind); g.note(n); g.note(rate);
    g.label("operator", std::to_string(kind));
    g.nontrivial(true);
    if (g.boolean() && kind != 1 && kind != 7 && kind != 8) { B first(17, false); (*op)(first); } // a use on another length must not leave a trace
    std::vector<unsigned> counts(n + 1, 0); std::vector<unsigned> locus(n, 0);
    double total = 0;
    B c = randomBits<B>(g, n);
    for (unsigned t = 0; t < N; ++t) {
        B before = c; (*op)(c);
        auto d = diff(before, c);
        counts[d.size()]++; for (size_t i : d) locus[i]++;
    }
    checkFreq(p, counts, "number of flipped bits");
    double mean = 0; for (unsigned k = 0; k <= n; ++k) mean += k * p[k];
    double pl = mean / n;
    for (size_t i = 0; i < n; ++i) CHECK(std::fabs(locus[i] - N * pl) <= 7 * std::sqrt(N * pl * (1 - pl)) + 6, "locus " << i << " flipped " << locus[i] << " times of " << N << ", expected about " << N * pl);
}
PBT(single_flip_locus, 20, 200) {
    size_t n = g.range<size_t>(1, 8); const unsigned N = 4000;
    std::vector<double> p(n, 1.0 / n); std::vector<unsigned> c1(n), c2(n);
    B c = randomBits<B>(g, n); eoOneBitFlip<B> one; eoDetBitFlip<B> det(1);
    for (unsigned t = 0; t < N; ++t) { B b = c; one(c); auto d = diff(b, c); CHECK(d.size() == 1, "one-bit flip changed " << d.size() << " bits"); c1[d[0]]++; b = c; det(c); d = diff(b, c); CHECK(d.size() == 1, "flip of one bit changed " << d.size()); c2[d[0]]++; }
    g.nontrivial(n > 1);
    checkFreq(p, c1, "one-bit flip position"); checkFreq(p, c2, "deterministic flip position");
}
PBT(inversion_segments, 20, 200) {
    // distinct-position probe: only one 1, so the end positions tell the segment
    size_t n = g.range<size_t>(2, 7); const unsigned N = 4000; size_t at = g.range<size_t>(0, n - 1);
    std::vector<double> p(n, 0.0); std::vector<unsigned> c(n, 0);
    for (size_t i = 0; i <= n; ++i) for (size_t j = i + 1; j <= n; ++j) p[(at >= i && at < j) ? i + j - 1 - at : at] += 2.0 / (n * (n + 1));
    eoBitInversion<B> inv; g.nontrivial(true);
    for (unsigned t = 0; t < N; ++t) { B b(n, false); b[at] = true; inv(b); size_t w = n, ones = 0; for (size_t i = 0; i < n; ++i) if (b[i]) { w = i; ++ones; } CHECK(ones == 1, "inversion changed the number of ones"); c[w]++; }
    checkFreq(p, c, "where inversion moves a bit");
}

// ---- crossovers
struct Cross { size_t n1, n2, m; std::vector<char> swapped, differ; };
template <class C> void crossOnce(pbt::Gen& g) {
    unsigned kind = g.draw(3);
    size_t n1 = genSize(g), n2 = (kind != 1 && g.chance(1, 3)) ? genSize(g) : n1, m = std::min(n1, n2);
    C a = randomBits<C>(g, n1), b;
    switch (g.draw(3)) {
        case 0: b = randomBits<C>(g, n2); break;
        default: { b.resize(n2); for (size_t i = 0; i < n2; ++i) b[i] = i < n1 ? (a[i] ? 0 : 1) : (g.boolean() ? 1 : 0); b.fitness(2); break; } // complementary: every exchange is visible
        case 3: { b.resize(n2); for (size_t i = 0; i < n2; ++i) b[i] = i < n1 ? (a[i] ? 1 : 0) : 0; b.fitness(2); break; }
    }
    unsigned np = g.range<unsigned>(1, 6), gs = g.range<unsigned>(1, 5);
    double pref = g.oneof({0.5, 0.1, 0.9, 0.001});
    std::unique_ptr<eoQuadOp<C>> op;
    switch (kind) {
        case 0: op.reset(new eo1PtBitXover<C>); break;
        case 1: op.reset(new eoUBitXover<C>(pref)); break;
        case 2: op.reset(new eoNPtsBitXover<C>(np)); break;
        case 3: op.reset(new eoBitGxOver<C>(gs, np)); break;
    }
    g.note(kind); g.note(show(a)); g.note(show(b)); g.note(np); g.note(gs);
    g.label("operator", std::to_string(kind)); g.label("lengths", n1 == n2 ? "equal" : "different");
    g.nontrivial(m > 1);
    C x = a, y = b;
    bool changed = (*op)(x, y);
    binary(x); binary(y);
    CHECK(x.size() == n1 && y.size() == n2, "lengths " << n1 << "," << n2 << " became " << x.size() << "," << y.size());
    bool moved = false, complementary = true;
    std::vector<int> sw(m, -1); // 1 swapped, 0 kept, -1 cannot tell
    for (size_t i = 0; i < std::max(n1, n2); ++i) {
        if (i >= m) {
            if (i < n1) CHECK((bool)x[i] == (bool)a[i], "locus " << i << " exists in the first parent only but changed");
            if (i < n2) CHECK((bool)y[i] == (bool)b[i], "locus " << i << " exists in the second parent only but changed");
            continue;
        }
        bool kept = (bool)x[i] == (bool)a[i] && (bool)y[i] == (bool)b[i], swapped = (bool)x[i] == (bool)b[i] && (bool)y[i] == (bool)a[i];
        CHECK(kept || swapped, "at locus " << i << " parents hold " << a[i] << "," << b[i] << " and children " << x[i] << "," << y[i]);
        if (kept && swapped) { complementary = false; continue; }
        sw[i] = swapped; moved |= swapped;
    }
    CHECK(changed || !moved, "the crossover reports no change but children differ from their parents");
    if (kind < 2) CHECK(changed == moved, "the crossover reports " << changed << " while " << (moved ? "children changed" : "nothing changed"));
    // switches between kept and swapped loci
    std::vector<int> known; for (int s : sw) if (s >= 0) known.push_back(s);
    unsigned switches = 0; for (size_t i = 1; i < known.size(); ++i) switches += known[i] != known[i - 1];
    if (kind == 0) {
        CHECK(switches <= 1, "one-point crossover has " << switches << " cut points");
        CHECK(sw[m - 1] != 1, "one-point crossover exchanged the whole common part");
        for (size_t i = 1; i < known.size(); ++i) CHECK(known[i] <= known[i - 1], "one-point crossover exchanges a part that is not a prefix");
    }
    if (kind == 2) {
        unsigned pts = m < 2 ? 0 : std::min<unsigned>(m - 1, np);
        if (m > 0) CHECK(sw[0] != 1, "n-point crossover exchanged the first locus");
        CHECK(switches <= pts, np << "-point crossover has " << switches << " cut points on length " << m);
        if (complementary && m > 1) CHECK(switches + 1 >= pts, np << "-point crossover has only " << switches << " cut points on length " << m);
    }
    if (kind == 3) {
        unsigned genes = m / gs, e = std::min(genes, np), got = 0;
        for (unsigned q = 0; q < genes; ++q) {
            int v = -1; for (unsigned i = q * gs; i < (q + 1) * gs; ++i) if (sw[i] >= 0) { CHECK(v < 0 || v == sw[i], "gene " << q << " was exchanged in part"); v = sw[i]; }
            got += v == 1;
        }
        for (size_t i = genes * gs; i < m; ++i) CHECK(sw[i] != 1, "locus " << i << " beyond the last whole gene was exchanged");
        CHECK(got <= e, got << " genes exchanged, " << e << " asked");
        if (complementary) CHECK(got == e, got << " genes exchanged, " << e << " asked");
    }
}
PBT(crossover_once, 8000, 30000) { crossOnce<B>(g); }
PBT(crossover_once_int, 800, 10000) { crossOnce<BI>(g); }

PBT(crossover_distribution, 150, 400) {
    size_t n = g.range<size_t>(2, 8); const unsigned N = 4000;
    unsigned kind = g.draw(3), np = g.range<unsigned>(1, 4), gs = g.range<unsigned>(1, 3);
    double pref = g.oneof({0.5, 0.1, 0.9});
    std::unique_ptr<eoQuadOp<B>> op;
    std::vector<double> cut(n, 0.0);    // probability that loci i-1 and i are treated differently
    std::vector<double> sw(n, 0.0);     // probability that locus i is exchanged
    unsigned e = 0;
    switch (kind) {
        case 0: op.reset(new eo1PtBitXover<B>); for (size_t i = 1; i < n; ++i) cut[i] = 1.0 / n; for (size_t i = 0; i < n; ++i) sw[i] = double(n - 1 - i) / n; break;
        case 1: op.reset(new eoUBitXover<B>(pref)); for (size_t i = 0; i < n; ++i) { cut[i] = i ? 2 * pref * (1 - pref) : 0; sw[i] = pref; } break;
        case 2: op.reset(new eoNPtsBitXover<B>(np)); e = std::min<unsigned>(n - 1, np); for (size_t i = 1; i < n; ++i) cut[i] = double(e) / n; break;
        case 3: { if (gs > n) g.discard(); op.reset(new eoBitGxOver<B>(gs, np)); unsigned genes = n / gs; e = std::min(genes, np); for (size_t i = 0; i < genes * gs; ++i) sw[i] = double(e) / genes; break; }
    }
    g.note(kind); g.note(n); g.note(np); g.note(gs); g.nontrivial(true); g.label("operator", std::to_string(kind));
    std::vector<unsigned> cc(n, 0), cs(n, 0);
    B a = randomBits<B>(g, n), b = a; for (size_t i = 0; i < n; ++i) b[i] = !a[i];
    for (unsigned t = 0; t < N; ++t) {
        B x = a, y = b; (*op)(x, y);
        for (size_t i = 0; i < n; ++i) { bool s = x[i] != a[i]; cs[i] += s; if (i) cc[i] += s != (x[i - 1] != a[i - 1]); }
    }
    auto within = [&](double p, unsigned c, const char* what, size_t i) {
        double m = N * p; CHECK(std::fabs(c - m) <= 7 * std::sqrt(std::max(0.0, m * (1 - p))) + (p <= 0 || p >= 1 ? 0.5 : 6), what << " " << i << ": " << c << " times of " << N << ", expected about " << m);
    };
    for (size_t i = 0; i < n; ++i) { if (kind != 3) within(cut[i], cc[i], "cut before locus", i); if (kind != 2) within(sw[i], cs[i], "exchange of locus", i); }
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
PBT(crossover_errors, 60, 600) {
    size_t n1 = g.range<size_t>(1, 6), n2 = g.range<size_t>(1, 6);
    B a = randomBits<B>(g, n1), b = randomBits<B>(g, n2), x = a, y = b;
    eoUBitXover<B> u; g.nontrivial(n1 != n2);
    if (n1 != n2) {
        CHECK(throws([&] { u(x, y); }), "uniform crossover of lengths " << n1 << " and " << n2 << " is not refused");
        CHECK(show(x) == show(a) && show(y) == show(b), "a refused crossover changed the parents");
    }
    double bad = g.oneof({0.0, 1.0, -0.5, 2.0});
    CHECK(throws([&] { eoUBitXover<B> w(bad); }), "uniform crossover accepts preference " << bad);
    CHECK(throws([&] { eoNPtsBitXover<B> w(0); }), "n-point crossover accepts zero points");
    CHECK(throws([&] { eoBitGxOver<B> w(0, 1); }), "gene crossover accepts genes of size zero");
    CHECK(throws([&] { eoBitGxOver<B> w(1, 0); }), "gene crossover accepts zero points");
}
