// The random generator: ranges, distributions, sequences.
#include "ind_support.hpp"
#include <utils/eoRndGenerators.h>
#include <utils/rnd_generators.h>
#include <eoInt.h>
using namespace sup;

// MT19937 with the multiplicative seeding of the generator, written from the published recurrence
struct Twister {
    uint32_t x[624]; int i = 624;
    explicit Twister(uint32_t seed) { x[0] = seed | 1u; for (int k = 1; k < 624; ++k) x[k] = 69069u * x[k - 1]; }
    uint32_t operator()() {
        if (i == 624) { for (int k = 0; k < 624; ++k) { uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu); x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908B0DFu : 0); } i = 0; }
        uint32_t y = x[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9D2C5680u; y ^= (y << 15) & 0xEFC60000u; return y ^ (y >> 18);
    }
};
PBT(sequence, 600, 5000) {
    uint32_t seed = g.oneof<uint32_t>({0, 1, 2, 42, 0x7fffffffu, 0xffffffffu, (uint32_t)g.draw(0xffffffffu)}); eoRng r(seed), q(seed + 1); bool again = g.boolean(); if (again) { for (unsigned k = g.range(0, 1500); k--;) q.rand(); q.reseed(seed); }
    Twister t(2 * seed); unsigned n = g.range(1, 2000); for (unsigned k = 0; k < n; ++k) { uint32_t v = t(), w = r.rand(); CHECK(v == w, "number " << k << " after seed " << seed << " is " << w << " instead of " << v); if (again) CHECK(q.rand() == v, "number " << k << " after reseeding with " << seed); }
    // derived draws use one number each
    double u = r.uniform(); CHECK(u == t() / 4294967296.0, "uniform"); double a = g.real(-5, 5), b = a + g.real(0.001, 5); CHECK_NEAR(r.uniform(a, b), a + (b - a) * (t() / 4294967296.0), "uniform in an interval"); uint32_t m = g.range(1, 1000); CHECK(r.random(m) == (uint32_t)(t() / 4294967296.0 * m), "random below " << m); double p = g.real(0, 1); CHECK(r.flip(p) == (t() / 4294967296.0 < p), "flip");
    // reseeding replays, the pending normal deviate being discarded on request
    std::vector<double> x, y; for (auto* v : {&x, &y}) { r.reseed(seed); r.clearCache(); for (int k = 0; k < 5; ++k) { v->push_back(r.normal()); v->push_back(r.uniform()); v->push_back(r.normal(2.0)); } } CHECK(x == y, "reseeding does not replay"); g.nontrivial(n > 624);
}
PBT(ranges, 3000, 30000) {
    eoRng r(g.draw(100000)); uint32_t m = g.oneof<uint32_t>({1, 2, 3, 10, 1u << 31, 0xffffffffu, (uint32_t)(1 + g.draw(0xfffffffeu))}); double lo = g.grid(100, 0.5), w = std::fabs(g.grid(100, 0.5)) + 0.25, sd = std::fabs(g.grid(10, 0.5)), mean = 0.5 + std::fabs(g.grid(10, 0.5)), gam = g.oneof({0.5, 1.5, 2.0, 3.0}); unsigned nb = g.range(0, 8);
    for (int k = 0; k < 40; ++k) { CHECK(r.random(m) < m, "random not below " << m); double u = r.uniform(); CHECK(u >= 0 && u < 1, "uniform " << u); u = r.uniform(w); CHECK(u >= 0 && u < w, "uniform(" << w << ") " << u); u = r.uniform(lo, lo + w); CHECK(u >= lo && u < lo + w, "uniform(" << lo << "," << lo + w << ") " << u); CHECK(!r.flip(0.0) && r.flip(1.0), "certain flips"); CHECK(r.binomial(nb, 0.0) == 0 && r.binomial(nb, 1.0) == nb && r.binomial(nb, 0.4) <= nb, "binomial"); CHECK(std::isfinite(r.normal(lo, sd)), "normal"); CHECK(sd > 0 || r.normal(lo, 0) == lo, "normal without deviation"); CHECK(r.negexp(mean) >= 0, "negative exponential"); double pl = r.powerlaw(w, w + 3, gam); CHECK(pl >= w * (1 - 1e-9) && pl <= (w + 3) * (1 + 1e-9), "power law in [" << w << "," << w + 3 << "] gives " << pl); }
    std::vector<double> ws; size_t n = g.size(1, 6); for (size_t k = 0; k < n; ++k) ws.push_back(g.boolean() ? 0 : std::fabs(g.grid(8, 0.5))); ws[g.draw(n - 1)] += 1; double tot = std::accumulate(ws.begin(), ws.end(), 0.0); std::vector<int> wi; for (double x : ws) wi.push_back(int(x * 2)); for (int k = 0; k < 20; ++k) { int i = g.boolean() ? r.roulette_wheel(ws) : r.roulette_wheel(ws, tot); CHECK(i >= 0 && i < (int)n && ws[i] > 0, "roulette wheel gave " << i << " of " << pbt::strv(ws)); i = r.roulette_wheel(wi); CHECK(i >= 0 && i < (int)n && wi[i] > 0, "integer roulette wheel gave " << i); const std::vector<double>& cws = ws; const double& c = r.choice(cws); CHECK(&c >= &ws[0] && &c <= &ws[n - 1], "choice outside"); double& d = r.choice(ws); CHECK(&d >= &ws[0] && &d <= &ws[n - 1], "choice outside"); }
    // generators draw from the generator they were given
    eoRng a(7), b(7); uint32_t seed = g.draw(9999); a.reseed(seed); b.reseed(seed); eo::rng.rand();
    eoUniformGenerator<double> ug(lo, lo + w, a); eoUniformGenerator<int> ui(-3, 4, a); eoUniformGenerator<double> u1(w, a); eoBooleanGenerator<bool> bg(0.3f, a); eoNormalGenerator<double> ng(sd, a); eoNegExpGenerator<double> eg(mean, a); eoUniformGenerator<bool> ub(true, a); uniform_generator<double> lu(lo, lo + w, a); boolean_generator lb(0.3f, a); random_generator<uint32_t> lr(m, a); random_generator<int> lri(-3, 4, a); normal_generator<double> ln(sd, a); negexp_generator<double> le(mean, a); UF_random_generator<uint32_t> uf(m, a);
    for (int k = 0; k < 10; ++k) { CHECK_NEAR(ug(), b.uniform(lo, lo + w), "eoUniformGenerator"); int v = ui(); CHECK(v == -3 + (int)b.uniform(7), "eoUniformGenerator of integers " << v); CHECK(v >= -3 && v < 4, "range"); CHECK_NEAR(u1(), b.uniform(w), "eoUniformGenerator from 0"); CHECK(bg() == b.flip(0.3f), "eoBooleanGenerator"); CHECK_NEAR(ng(), b.normal(sd), "eoNormalGenerator"); CHECK_NEAR(eg(), b.negexp(mean), "eoNegExpGenerator"); CHECK(ub() == b.flip(0.5), "boolean uniform generator"); CHECK_NEAR(lu(), b.uniform(lo, lo + w), "uniform_generator"); CHECK(lb() == b.flip(0.3f), "boolean_generator"); CHECK(lr() == b.random(m), "random_generator"); v = lri(); CHECK(v == -3 + (int)b.random(7), "random_generator of integers"); CHECK_NEAR(ln(), b.normal(sd), "normal_generator"); CHECK_NEAR(le(), b.negexp(mean), "negexp_generator"); CHECK(uf() == b.random(m), "UF_random_generator"); CHECK(uf(5) == b.random(5), "UF_random_generator with a bound"); }
    for (int k = 0; k < 10; ++k) { int x = eo::random(-4, 5); CHECK(x >= -4 && x < 5, "eo::random(-4,5) gave " << x); unsigned y = eo::random(7u); CHECK(y < 7, "eo::random(7)"); double z = eo::random(1.5, 2.5); CHECK(z >= 1.5 && z < 2.5, "eo::random(1.5,2.5)"); }
    g.nontrivial(true);
}
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
template <class D> static void bins(D draw, const std::vector<double>& edges, const std::vector<double>& cdf, const std::string& what) { // cdf at the edges; bins below, between and above
    std::vector<double> p; p.push_back(cdf[0]); for (size_t k = 1; k < cdf.size(); ++k) p.push_back(cdf[k] - cdf[k - 1]); p.push_back(1 - cdf.back()); std::vector<unsigned> c(p.size(), 0); for (int k = 0; k < 4000; ++k) { double v = draw(); ++c[std::upper_bound(edges.begin(), edges.end(), v) - edges.begin()]; } checkFreq(p, c, what);
}
PBT(distributions, 60, 600) {
    eoRng r(g.draw(1000000)); std::vector<double> e;
    switch (g.range(0, 7)) {
    case 0: { double lo = g.grid(5), w = 1 + std::fabs(g.grid(5)); bins([&] { return r.uniform(lo, lo + w); }, {lo + w * 0.1, lo + w * 0.5, lo + w * 0.8}, {0.1, 0.5, 0.8}, "uniform"); break; }
    case 1: { double m = g.grid(5), s = 0.5 + std::fabs(g.grid(3)); bins([&] { return r.normal(m, s); }, {m - 1.5 * s, m - 0.5 * s, m, m + 0.7 * s, m + 2 * s}, {phi(-1.5), phi(-0.5), 0.5, phi(0.7), phi(2)}, "normal"); bins([&] { return r.normal(); }, {-1, 0, 1}, {phi(-1), 0.5, phi(1)}, "standard normal"); break; }
    case 2: { double m = 0.5 + std::fabs(g.grid(5)); bins([&] { return r.negexp(m); }, {0.1 * m, m, 2 * m}, {1 - std::exp(-0.1), 1 - std::exp(-1.0), 1 - std::exp(-2.0)}, "negative exponential"); break; }
    case 3: { double a = 0.5 + std::fabs(g.grid(3)), b = a + 1 + std::fabs(g.grid(9)), ga = g.oneof({0.5, 1.5, 2.0, 3.0}); auto F = [&](double x) { return (std::pow(x, 1 - ga) - std::pow(a, 1 - ga)) / (std::pow(b, 1 - ga) - std::pow(a, 1 - ga)); }; std::vector<double> ed{a + (b - a) * 0.1, a + (b - a) * 0.4, a + (b - a) * 0.7}, c; for (double x : ed) c.push_back(F(x)); bins([&] { return r.powerlaw(a, b, ga); }, ed, c, "power law"); break; }
    case 4: { unsigned n = g.range(1, 6); double p = g.oneof({0.2, 0.5, 0.7}); std::vector<double> pr; for (unsigned k = 0; k <= n; ++k) { double c = 1; for (unsigned i = 0; i < k; ++i) c = c * (n - i) / (i + 1); pr.push_back(c * std::pow(p, k) * std::pow(1 - p, n - k)); } std::vector<unsigned> c(n + 1, 0); for (int k = 0; k < 4000; ++k) ++c[r.binomial(n, p)]; checkFreq(pr, c, "binomial"); break; }
    case 5: { std::vector<double> w; double t = 0; for (size_t n = g.size(1, 6); n--;) { w.push_back(g.boolean() ? 0 : std::fabs(g.grid(8))); t += w.back(); } w[0] += 1; t += 1; std::vector<double> p; for (double x : w) p.push_back(x / t); std::vector<unsigned> c(w.size(), 0); for (int k = 0; k < 4000; ++k) ++c[r.roulette_wheel(w)]; checkFreq(p, c, "roulette wheel"); break; }
    case 6: { size_t n = g.size(1, 7); std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); std::vector<unsigned> c(n, 0), d(n, 0); for (int k = 0; k < 4000; ++k) { ++c[r.choice(v)]; ++d[r.random(n)]; } checkFreq(std::vector<double>(n, 1.0 / n), c, "choice"); checkFreq(std::vector<double>(n, 1.0 / n), d, "random"); break; }
    default: { double p = g.oneof({0.0, 0.1, 0.5, 0.9, 1.0}); std::vector<unsigned> c(2, 0); for (int k = 0; k < 4000; ++k) ++c[r.flip(p)]; checkFreq({1 - p, p}, c, "flip"); }
    }
    g.nontrivial(true);
}
// shuffles are uniform permutations driven by the generator
PBT(shuffles, 60, 600) {
    Silence quiet; eo::rng.reseed(g.draw(1000000)); std::map<std::vector<int>, size_t> c; unsigned n = g.range(1, 4), fact = n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 6 : 24; eoPop<Max> pop; for (unsigned k = 0; k < n; ++k) { Max x; x.id = k; x.fitness(1); pop.push_back(x); } eoInitPermutation<eoInt<double>> ip(n, g.range(0, 3)); int kind = g.range(0, 2); int base = -1;
    for (int k = 0; k < 3000; ++k) { std::vector<int> v; if (kind == 0) { eoPop<Max> p = pop; p.shuffle(); v = ids(p); } else if (kind == 1) { std::vector<const Max*> r; pop.shuffle(r); CHECK(r.size() == n, "shuffled view of " << r.size()); for (auto* x : r) v.push_back(x->id); } else { eoInt<double> x; ip(x); for (int a : x) v.push_back(a); int mn = *std::min_element(v.begin(), v.end()); if (base < 0) base = mn; CHECK(mn == base, "smallest value"); for (auto& a : v) a -= mn; } std::vector<int> s = v; std::sort(s.begin(), s.end()); for (unsigned i = 0; i < n; ++i) CHECK(s.size() == n && s[i] == (int)i, "not a permutation: " << pbt::strv(v)); ++c[v]; }
    std::vector<unsigned> cs; for (auto& e : c) cs.push_back(e.second); CHECK(cs.size() == fact, cs.size() << " orders seen of " << fact); checkFreq(std::vector<double>(fact, 1.0 / fact), cs, "shuffle"); g.nontrivial(n > 2);
}
// the outermost numbers of the generator, put in its saved state
PBT(extremes, 2000, 20000) {
    eoRng r(g.draw(1000)); r.rand(); std::ostringstream o; o << r; std::istringstream is(o.str()); std::vector<std::string> w; std::string tok; while (is >> tok) w.push_back(tok); CHECK(w.size() == 628, "saved generator has " << w.size() << " items"); int pos = std::atoi(w[624].c_str()); CHECK(pos >= 0 && pos + 40 < 624, "saved position " << pos);
    uint32_t out = g.boolean() ? 0u : 0xffffffffu, y = out; y ^= y >> 18; y ^= (y << 15) & 0xEFC60000u; uint32_t t = y; for (int k = 0; k < 5; ++k) t = y ^ ((t << 7) & 0x9D2C5680u); y = t; t = y; for (int k = 0; k < 3; ++k) t = y ^ (t >> 11); y = t; // state giving that number
    for (int k = 0; k < 30; ++k) w[pos + k] = pbt::str((unsigned long)y); std::ostringstream n; for (auto& s : w) n << s << ' '; std::istringstream back(n.str()); back >> r; CHECK(r.rand() == out, "the saved state does not give the number expected");
    double a = g.grid(100, 0.5), len = 0.25 + std::fabs(g.grid(100, 0.5)); uint32_t m = g.range(1, 100000); double u = r.uniform(); CHECK(u >= 0 && u < 1, "uniform gave " << u); u = r.uniform(a, a + len); CHECK(u >= a && u < a + len, "uniform gave " << u); CHECK(r.random(m) == (out ? m - 1 : 0), "random(" << m << ")"); CHECK(!r.flip(0.0) && r.flip(1.0), "certain flips"); CHECK(r.binomial(3, 0.0) == 0 && r.binomial(3, 1.0) == 3, "certain binomials");
    std::vector<double> ws; size_t sz = g.size(1, 6); for (size_t k = 0; k < sz; ++k) ws.push_back(g.boolean() ? 0 : g.range(1, 8) * 0.5); ws[g.draw(sz - 1)] += 1; int first = 0, last = sz - 1; while (ws[first] == 0) ++first; while (ws[last] == 0) --last; int k = r.roulette_wheel(ws); CHECK(k == (out ? last : first), "weighted draw gave " << k << ", expected " << (out ? last : first) << " of " << pbt::strv(ws)); CHECK(&r.choice(ws) == &ws[out ? sz - 1 : 0], "choice"); g.nontrivial(sz > 1 && (first > 0 || last + 1 < (int)sz)); g.note(out ? "largest" : "smallest").note(" weights ").note(pbt::strv(ws));
}
PBT(restored, 2000, 20000) {
    eoRng r(g.draw(1000)), q(g.draw(1000)); unsigned k = g.size(0, 700); for (unsigned i = 0; i < k; ++i) r.rand(); unsigned m = g.size(0, 4); for (unsigned i = 0; i < m; ++i) r.normal(); k = g.size(0, 30); for (unsigned i = 0; i < k; ++i) q.rand(); if (g.boolean()) q.normal();
    std::ostringstream o; o << r; auto draws = [](eoRng& e) { std::vector<double> v; for (int i = 0; i < 8; ++i) { v.push_back(e.normal()); v.push_back(e.rand()); v.push_back(e.uniform(3.0)); v.push_back(e.random(17)); v.push_back(e.normal(1.0, 2.0)); } for (int i = 0; i < 700; ++i) v.push_back(e.rand()); return v; };
    auto first = draws(r); std::istringstream a(o.str()), b(o.str()); a >> q; CHECK(draws(q) == first, "a generator restored from a saved one draws other numbers"); b >> r; CHECK(draws(r) == first, "a generator taken back to its saved state draws other numbers"); g.nontrivial(m > 0); g.note("after ").note(k).note(" numbers and ").note(m).note(" normals");
}
