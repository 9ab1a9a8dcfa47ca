// E04: real-valued and ES operators respect bounds and parental intervals.
#include "eo_support.hpp"
#include <es.h>
#include <es/eoReal.h>
#include <es/eoRealOp.h>
#include <es/eoNormalMutation.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsChromInit.h>
#include <es/eoEsMutate.h>
#include <es/eoEsStandardXover.h>
#include <es/eoEsGlobalXover.h>
#include <memory>
using namespace sup;
typedef eoReal<double> R;
const double TOL = 1e-9;
struct Silence { std::streambuf* old; std::ostringstream sink; Silence() : old(std::cout.rdbuf(sink.rdbuf())) {} ~Silence() { std::cout.rdbuf(old); } };

struct Bd { int kind; double lo, hi; // 0 none, 1 interval, 2 below bounded, 3 above bounded
    bool in(double x, double tol = 0) const { return !std::isnan(x) && (kind == 0 || kind == 3 || x >= lo - tol) && (kind == 0 || kind == 2 || x <= hi + tol); }
    eoRealBounds* make() const { switch (kind) { case 0: return new eoRealNoBounds; case 1: return new eoRealInterval(lo, hi); case 2: return new eoRealBelowBound(lo); default: return new eoRealAboveBound(hi); } }
    bool hasMin() const { return kind == 1 || kind == 2; } bool hasMax() const { return kind == 1 || kind == 3; }
};
Bd genBd(pbt::Gen& g, bool finite = false, bool degenerate = false, bool huge = false) {
    Bd b; b.kind = finite ? 1 : g.oneof({1, 1, 0, 2, 3}); b.lo = g.grid(8, 0.5); b.hi = b.lo + g.oneof({1.0, 0.5, 2.0, 4.0, 16.0, 0.125}); if (degenerate && g.chance(1, 8)) b.hi = b.lo; if (huge && g.chance(1, 12)) { b.lo *= 1e9; b.hi = b.lo + 4e9; } return b;
}
double inside(pbt::Gen& g, const Bd& b) {
    double lo = b.hasMin() ? b.lo : b.hasMax() ? b.hi - 8 : -4, hi = b.hasMax() ? b.hi : lo + 8;
    switch (g.draw(4)) { case 0: return b.hasMin() ? b.lo : lo + 1; case 1: return b.hasMax() ? b.hi : hi - 1; case 2: return lo + (hi - lo) / 2; default: return std::min(hi, g.real(lo, hi)); }
}
struct Space { std::vector<Bd> b; std::vector<std::unique_ptr<eoRealBounds>> own; eoRealVectorBounds v;
    Space(pbt::Gen& g, size_t n, bool finite = false, bool degenerate = false) { for (size_t i = 0; i < n; ++i) { b.push_back(genBd(g, finite, degenerate)); own.emplace_back(b.back().make()); v.push_back(own.back().get()); } }
    template <class E> void check(const E& e, const char* what, double tol = 0) const { CHECK(e.size() == b.size(), what << ": length " << e.size() << " instead of " << b.size()); for (size_t i = 0; i < b.size(); ++i) CHECK(b[i].in(e[i], tol), what << ": variable " << i << " = " << pbt::str(e[i]) << " outside bounds kind " << b[i].kind << " [" << pbt::str(b[i].lo) << "," << pbt::str(b[i].hi) << "]"); }
    template <class E> E point(pbt::Gen& g) const { E e; e.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) e[i] = inside(g, b[i]); e.fitness(1); return e; }
    double span(size_t i) const { return std::max({1.0, std::fabs(b[i].lo), std::fabs(b[i].hi)}); }
};
std::string show(const std::vector<double>& v) { return pbt::strv(v); }

// ---- scalar bounds
double reflect(double x, double lo, double hi) { double w = 2 * (hi - lo), t = std::fmod(x - lo, w); if (t < 0) t += w; return t <= hi - lo ? lo + t : hi - (t - (hi - lo)); }
PBT(real_bounds, 6000, 60000) {
    Bd b = genBd(g, false, true, true); std::unique_ptr<eoRealBounds> p(b.make());
    int via = g.range(0, 3); std::unique_ptr<eoRealBounds> keep;
    if (via == 1) { keep.swap(p); p.reset(keep->dup()); keep.reset(); }
    if (via == 2 && !(b.kind == 1 && b.hi == b.lo)) { std::ostringstream o; o.precision(17); o << "[" << (b.hasMin() ? pbt::str(b.lo) : g.oneof({std::string("-inf"), std::string("-infinity")})) << "," << (b.hasMax() ? pbt::str(b.hi) : g.oneof({std::string("+inf"), std::string("+infinity")})) << "]"; eoGeneralRealBounds* q = new eoGeneralRealBounds(o.str()); if (g.boolean()) { eoGeneralRealBounds c(*q), d; d = c; *q = d; } p.reset(q); }
    CHECK(p->isBounded() == (b.kind == 1) && p->hasNoBoundAtAll() == (b.kind == 0) && p->isMinBounded() == b.hasMin() && p->isMaxBounded() == b.hasMax(), "bound queries wrong for kind " << b.kind);
    if (b.hasMin()) CHECK(p->minimum() == b.lo, "minimum"); if (b.hasMax()) CHECK(p->maximum() == b.hi, "maximum"); if (b.kind == 1) CHECK(p->range() == b.hi - b.lo, "range");
    double x; switch (g.draw(4)) { case 0: x = inside(g, b); break; case 1: x = b.lo + (b.hi > b.lo ? b.hi - b.lo : 1) * g.grid(40, 0.25); break; case 2: x = g.grid(100, 1); break; case 3: x = g.oneof({1e10, -1e10, 1e300, -1e300, 1.5e9, -1.5e9}); break; default: x = g.real(-1000, 1000); }
    bool in = b.in(x); g.note(b.kind); g.note(pbt::str(b.lo)); g.note(pbt::str(b.hi)); g.note(pbt::str(x)); g.nontrivial(!in);
    CHECK(p->isInBounds(x) == in, "isInBounds(" << pbt::str(x) << ")");
    double y = x; p->foldsInBounds(y);
    if (in) CHECK(y == x, "folding moved the inside value " << pbt::str(x) << " to " << pbt::str(y));
    CHECK(p->isInBounds(y) && b.in(y), "folding " << pbt::str(x) << " gives " << pbt::str(y) << ", out of bounds");
    if (!in && std::fabs(x) < 1e6 && std::fabs(b.lo) < 1e6) {
        if (b.kind == 1 && b.hi > b.lo) CHECK(std::fabs(y - reflect(x, b.lo, b.hi)) < 1e-6, "folding " << pbt::str(x) << " into [" << b.lo << "," << b.hi << "] gives " << pbt::str(y) << " instead of the reflection " << pbt::str(reflect(x, b.lo, b.hi)));
        if (b.kind == 2) CHECK_NEAR(y, 2 * b.lo - x, "reflection at the lower bound"); if (b.kind == 3) CHECK_NEAR(y, 2 * b.hi - x, "reflection at the upper bound");
    }
    double t = x; p->truncate(t); double e = in ? x : (b.hasMin() && x < b.lo) ? b.lo : b.hi; CHECK(t == e, "truncating " << pbt::str(x) << " gives " << pbt::str(t) << " instead of " << pbt::str(e));
    if (b.kind == 1) { double u = p->uniform(); CHECK(b.in(u), "uniform value " << pbt::str(u) << " out of bounds"); eoRng r1(7), r2(7); CHECK(p->uniform(r1) == p->uniform(r2), "uniform(rng) does not draw from the given generator"); }
    else { bool th = false; try { p->uniform(); } catch (std::exception&) { th = true; } CHECK(th, "drawing uniformly in unbounded bounds is accepted"); }
}
PBT(int_bounds, 4000, 40000) {
    int kind = g.oneof({1, 1, 0, 2, 3}); long lo = g.range<long>(-10, 10), hi = lo + g.range<long>(1, 12); std::unique_ptr<eoIntBounds> p;
    if (g.chance(1, 3)) { std::ostringstream o; o << "[" << (kind == 1 || kind == 2 ? std::to_string(lo) : "-inf") << "," << (kind == 1 || kind == 3 ? std::to_string(hi) : "+inf") << "]"; p.reset(new eoGeneralIntBounds(o.str())); }
    else switch (kind) { case 0: p.reset(new eoIntNoBounds); break; case 1: p.reset(new eoIntInterval(lo, hi)); break; case 2: p.reset(new eoIntBelowBound(lo)); break; default: p.reset(new eoIntAboveBound(hi)); }
    auto in = [&](double x) { return (kind == 0 || kind == 3 || x >= lo) && (kind == 0 || kind == 2 || x <= hi); };
    long x = g.chance(1, 10) ? g.oneof({2000000000L, -2000000000L}) : g.range<long>(-200, 200); double xd = g.real(-100, 100); g.note(kind); g.note(lo); g.note(hi); g.note(x); g.note(xd); g.nontrivial(!in(x));
    CHECK(p->isMinBounded() == (kind == 1 || kind == 2) && p->isMaxBounded() == (kind == 1 || kind == 3) && p->isBounded() == (kind == 1) && p->hasNoBoundAtAll() == (kind == 0), "bound queries");
    CHECK(p->isInBounds(x) == in(x) && p->isInBounds(xd) == in(xd), "isInBounds");
    long y = x; p->foldsInBounds(y); if (in(x)) CHECK(y == x, "folding moved the inside value " << x << " to " << y); CHECK(in(y), "folding " << x << " gives " << y);
    if (kind == 1 && !in(x) && std::labs(x) < 1000) CHECK(y == std::lround(reflect(x, lo, hi)), "folding " << x << " into [" << lo << "," << hi << "] gives " << y);
    double yd = xd; p->foldsInBounds(yd); if (in(xd)) CHECK(yd == xd, "folding moved an inside value"); CHECK(in(yd), "folding " << pbt::str(xd) << " gives " << pbt::str(yd)); if (kind == 1) CHECK(std::fabs(yd - reflect(xd, lo, hi)) < 1e-6, "folding " << pbt::str(xd));
    long t = x; p->truncate(t); CHECK(t == (in(x) ? x : ((kind == 1 || kind == 2) && x < lo) ? lo : hi), "truncating " << x << " gives " << t);
    double td = xd; p->truncate(td); CHECK(td == (in(xd) ? xd : ((kind == 1 || kind == 2) && xd < lo) ? (double)lo : (double)hi), "truncating " << xd << " gives " << td);
    if (kind == 1) { double u = p->uniform(); long r = p->random(); CHECK(in(u) && in(r), "random value out of bounds"); CHECK(p->range() == hi - lo && p->minimum() == lo && p->maximum() == hi, "limits"); eoRng r1(9), r2(9); CHECK(p->uniform(r1) == p->uniform(r2) && p->random(r1) == p->random(r2), "the given generator is not used"); }
}
PBT(vector_bounds, 2000, 20000) {
    size_t n = g.range<size_t>(1, 5); Space s(g, n, false, true); g.nontrivial(n > 1);
    std::vector<double> x(n), y, t; for (size_t i = 0; i < n; ++i) x[i] = g.boolean() ? inside(g, s.b[i]) : s.b[i].lo + g.grid(40, 0.5);
    bool in = true; for (size_t i = 0; i < n; ++i) { in = in && s.b[i].in(x[i]); CHECK(s.v.isInBounds(i, x[i]) == s.b[i].in(x[i]), "isInBounds(" << i << ")"); }
    CHECK(s.v.isInBounds(x) == in, "isInBounds of a vector"); y = t = x; s.v.foldsInBounds(y); s.v.truncate(t); s.check(y, "folded vector"); s.check(t, "truncated vector");
    for (size_t i = 0; i < n; ++i) { double a = x[i], b = x[i]; s.v[i]->truncate(b); if (s.b[i].in(x[i])) CHECK(y[i] == x[i] && t[i] == x[i], "an inside variable was moved"); CHECK(t[i] == b, "truncation of variable " << i); (void)a; }
    bool all = true, none = true; for (auto& b : s.b) { all = all && b.kind == 1; none = none && b.kind == 0; } CHECK(s.v.isBounded() == all && s.v.hasNoBoundAtAll() == none, "bounded queries of the vector");
    if (all) { std::vector<double> u; s.v.uniform(u); s.check(u, "uniform vector"); eoRng r1(5), r2(5); std::vector<double> u1, u2; s.v.uniform(u1, r1); s.v.uniform(u2, r2); CHECK(u1 == u2, "uniform(rng) does not draw from the given generator"); double m = 0; for (auto& b : s.b) m += (b.hi - b.lo) / n; CHECK(pbt::near(s.v.averageRange(), m), "average range"); }
}
PBT(vector_bounds_copy, 600, 6000) {
    // bounds made from text, copied, then the source read again: the copy must not follow
    std::ostringstream o; int groups = g.range(1, 3); std::vector<std::pair<double, double>> e;
    for (int i = 0; i < groups; ++i) { int c = g.range(1, 3); double lo = g.grid(4), hi = lo + g.range(1, 4); if (i) o << ";"; if (c > 1) o << c; o << "[" << lo << "," << hi << "]"; for (int k = 0; k < c; ++k) e.push_back({lo, hi}); }
    eoRealVectorBounds a(o.str()); CHECK(a.size() == e.size(), "text " << o.str() << " gives " << a.size() << " variables"); eoRealVectorBounds b(a); g.note(o.str()); g.nontrivial(true);
    std::ostringstream pr; a.printOn(pr); eoRealVectorBounds c(pr.str()); a.readFrom(std::string("[100,101]"));
    for (size_t i = 0; i < e.size(); ++i) { CHECK(b.minimum(i) == e[i].first && b.maximum(i) == e[i].second, "copied bounds " << i << " are [" << b.minimum(i) << "," << b.maximum(i) << "]"); CHECK(c.minimum(i) == e[i].first && c.maximum(i) == e[i].second, "printed and read bounds differ at " << i); CHECK(a.minimum(i) == 100, "bounds read again keep old values"); }
    unsigned dim = g.range<unsigned>(0, 12); size_t before = b.size(); b.adjust_size(dim); CHECK(b.size() == std::max<size_t>(before, dim), "adjusted to " << dim << " from " << before << " gives " << b.size()); for (size_t i = before; i < b.size(); ++i) CHECK(b.minimum(i) == e.back().first && b.maximum(i) == e.back().second, "added bounds repeat the last one");
}
PBT(bad_bounds_text, 200, 1000) {
    std::string t = g.oneof({std::string("[1,0]"), std::string("nonsense"), std::string("[3"), std::string("[1;"), std::string("[2]")}); eoGeneralRealBounds r("[0,1]"); eoGeneralIntBounds z("[0,1]"); bool th = false; g.nontrivial(true); g.note(t);
    std::istringstream is(t); try { r.readFrom(is); } catch (std::exception&) { th = true; } CHECK(th, "text " << t << " accepted as real bounds"); CHECK(r.minimum() == 0 && r.maximum() == 1, "a refused text changed the bounds");
    th = false; std::istringstream is2(t); try { z.readFrom(is2); } catch (std::exception&) { th = true; } CHECK(th, "text " << t << " accepted as integer bounds"); CHECK(z.minimum() == 0 && z.maximum() == 1, "a refused text changed the bounds");
}
PBT(initialisers, 1000, 10000) {
    size_t n = g.range<size_t>(1, 6); Space s(g, n, true, true); g.nontrivial(true); Silence q;
    eoRealInitBounded<R> init(s.v); R r; if (g.boolean()) { r.resize(g.range<size_t>(0, 9)); r.fitness(1); } init(r); s.check(r, "initial vector"); CHECK(r.invalid(), "initialised individual has a fitness");
    bool scale = g.boolean(); double sigma = g.oneof({0.3, 1.0, 0.01}), mean = 0; for (auto& b : s.b) mean += (b.hi - b.lo) / n; bool positive = true; for (auto& b : s.b) positive = positive && b.hi > b.lo;
    std::vector<double> vs; for (size_t i = 0; i < n; ++i) vs.push_back(scale ? sigma * (s.b[i].hi - s.b[i].lo) : sigma);
    { eoEsChromInit<eoEsSimple<double>> i1(s.v, sigma, scale); eoEsSimple<double> e; i1(e); s.check(e, "initial simple ES"); CHECK(pbt::near(e.stdev, scale ? sigma * mean : sigma), "initial step size " << e.stdev); CHECK(!positive || e.stdev > 0, "initial step size not positive"); CHECK(e.invalid(), "fitness"); }
    { eoEsChromInit<eoEsStdev<double>> i1(s.v, sigma, scale); eoEsStdev<double> e; i1(e); s.check(e, "initial stdev ES"); CHECK(e.stdevs.size() == n, "number of step sizes"); for (size_t i = 0; i < n; ++i) CHECK(pbt::near(e.stdevs[i], vs[i]), "step size " << i << " is " << e.stdevs[i] << " instead of " << vs[i]); }
    { std::vector<double> own; for (size_t i = 0; i < n; ++i) own.push_back(g.oneof({0.1, 0.7, 2.0})); eoEsChromInit<eoEsFull<double>> i1(s.v, own); eoEsFull<double> e; i1(e); s.check(e, "initial full ES"); CHECK(e.stdevs == own, "step sizes not those given"); CHECK(e.correlations.size() == n * (n - 1) / 2, "number of angles"); for (double a : e.correlations) CHECK(std::fabs(a) <= M_PI + TOL, "initial angle " << a); }
}
// ---- mutations of plain vectors
PBT(mutations, 5000, 50000) {
    size_t n = g.range<size_t>(1, 6); int kind = g.range(0, 4); bool vec = g.boolean(); Space s(g, n); R r = s.point<R>(g), before; double eps = g.oneof({0.1, 0.5, 1.0, 3.0}), p = g.oneof({1.0, 0.5, 0.0}); unsigned no = g.range<unsigned>(1, 4); int reps = g.range(1, 4); double sigma = eps;
    std::vector<double> epsV, pV; for (size_t i = 0; i < n; ++i) { epsV.push_back(g.oneof({0.1, 1.0, 2.5})); pV.push_back(g.oneof({1.0, 0.0, 0.5})); }
    std::unique_ptr<eoMonOp<R>> op; std::vector<double> step(n, eps); std::vector<double> prob(n, p);
    for (size_t i = 0; i < n; ++i) if (s.b[i].kind == 1) step[i] = eps * (s.b[i].hi - s.b[i].lo);
    switch (kind) {
        case 0: op.reset(new eoUniformMutation<R>(s.v, eps, p)); break;
        case 1: op.reset(new eoUniformMutation<R>(s.v, epsV, pV)); step = epsV; prob = pV; break;
        case 2: if (vec) { op.reset(new eoDetUniformMutation<R>(s.v, epsV, no)); for (size_t i = 0; i < n; ++i) step[i] = s.b[i].kind == 1 ? epsV[i] * (s.b[i].hi - s.b[i].lo) : epsV[i]; } else op.reset(new eoDetUniformMutation<R>(s.v, eps, no)); break;
        case 3: op.reset(new eoNormalVecMutation<R>(s.v, eps, p)); break;
        case 4: op.reset(new eoNormalMutation<R>(s.v, sigma, p)); break;
    }
    g.note(kind); g.note(eps); g.note(p); g.note(no); g.note(show(r)); g.label("operator", kind); g.nontrivial(n > 1);
    for (int k = 0; k < reps; ++k) {
        before = r; bool changed = (*op)(r); s.check(r, "mutant"); size_t moved = 0;
        for (size_t i = 0; i < n; ++i) { bool m = r[i] != before[i]; moved += m;
            if (kind <= 2) CHECK(std::fabs(r[i] - before[i]) <= (kind == 2 ? no : 1) * step[i] + TOL * s.span(i), "variable " << i << " moved by " << pbt::str(r[i] - before[i]) << ", more than " << pbt::str(step[i]));
            if (kind != 2 && prob[i] == 0) CHECK(!m, "variable " << i << " of change probability zero moved"); }
        if (kind == 2) CHECK(moved <= no, moved << " variables moved, " << no << " asked");
        CHECK(changed || moved == 0, "mutation reports no change but changed " << moved << " variables");
    }
}
PBT(mutations_unbounded, 2500, 25000) {
    size_t n = g.range<size_t>(1, 6); int kind = g.range(0, 3); double eps = g.oneof({0.1, 0.5, 1.0, 3.0}), p = g.oneof({1.0, 0.5, 0.0}), sigma = eps; unsigned no = g.range<unsigned>(1, 4); R r; for (size_t i = 0; i < n; ++i) r.push_back(g.grid(50, 2)); R before = r;
    std::unique_ptr<eoMonOp<R>> op; switch (kind) { case 0: op.reset(new eoUniformMutation<R>(eps, p)); break; case 1: op.reset(new eoDetUniformMutation<R>(eps, no)); break; case 2: op.reset(new eoNormalVecMutation<R>(eps, p)); break; default: op.reset(new eoNormalMutation<R>(sigma, p)); }
    bool changed = (*op)(r); CHECK(r.size() == n, "length changed"); size_t moved = 0; g.note(kind); g.note(eps); g.note(show(before)); g.label("operator", kind); g.nontrivial(n > 1);
    for (size_t i = 0; i < n; ++i) { moved += r[i] != before[i]; double d = std::fabs(r[i] - before[i]), lim = kind == 0 ? eps : kind == 1 ? no * eps : 8 * eps; CHECK(d <= lim + 1e-9, "variable " << i << " moved by " << d << " with step " << eps); }
    if (kind == 1) CHECK(moved <= no && moved > 0, moved << " variables moved, " << no << " asked"); else if (p == 0) CHECK(moved == 0, "probability zero moved variables"); else if (p == 1) CHECK(moved == n, "probability one left variables unmoved"); CHECK(changed || moved == 0, "reports no change");
}
PBT(mutation_moments, 40, 400) {
    // relative step of the mutation: standard deviation, mean and change frequency
    int kind = g.range(0, 5); double eps = g.oneof({0.02, 0.05}), p = g.oneof({1.0, 0.3}); size_t n = g.range<size_t>(1, 3); const unsigned N = 4000; double sigma = eps; Bd b{1, -g.oneof({1.0, 8.0}), 0}; b.hi = -b.lo; eoRealInterval iv(b.lo, b.hi); eoRealVectorBounds v(n, iv); double R0 = b.hi - b.lo, sd = 0; g.note(kind); g.note(eps); g.note(p); g.note(n); g.nontrivial(true); g.label("operator", kind);
    std::unique_ptr<eoMonOp<R>> op;
    switch (kind) { case 0: op.reset(new eoUniformMutation<R>(v, eps, p)); sd = eps * R0 / std::sqrt(3.0); break; case 1: op.reset(new eoDetUniformMutation<R>(v, eps, 1)); sd = eps * R0 / std::sqrt(3.0); p = 1.0 / n; break; case 2: op.reset(new eoNormalVecMutation<R>(v, eps, p)); sd = eps * R0; break; case 3: op.reset(new eoNormalMutation<R>(v, sigma, p)); sd = eps; break; case 4: op.reset(new eoUniformMutation<R>(eps, p)); sd = eps / std::sqrt(3.0); break; default: op.reset(new eoNormalVecMutation<R>(eps, p)); sd = eps; }
    std::vector<double> s1(n, 0), s2(n, 0); std::vector<unsigned> c(n, 0); for (unsigned t = 0; t < N; ++t) { R r; r.resize(n, 0.0); (*op)(r); for (size_t i = 0; i < n; ++i) if (r[i] != 0) { c[i]++; s1[i] += r[i] / sd; s2[i] += r[i] * r[i] / sd / sd; } }
    for (size_t i = 0; i < n; ++i) { if (p == 1) CHECK(c[i] == N, "change probability one"); else CHECK(std::fabs(c[i] - N * p) < 7 * std::sqrt(N * p * (1 - p)) + 6, "variable " << i << " changed " << c[i] << " times of " << N << " with probability " << p); double m = s1[i] / c[i], va = s2[i] / c[i]; CHECK(std::fabs(m) < 7 / std::sqrt((double)c[i]), "mean step " << m << " standard deviations"); CHECK(std::fabs(va - 1) < 7 * std::sqrt(2.0 / c[i]) + 0.02, "step variance is " << va << " times the configured one"); }
}
struct Sphere : public eoEvalFunc<R> { unsigned calls = 0; double sign = 1; void operator()(R& r) { if (!r.invalid()) return; ++calls; double s = 0; for (double x : r) s += x * x; r.fitness(sign * s); } };
PBT(one_fifth, 600, 6000) {
    Sphere ev; double sigma0 = g.oneof({0.5, 1.0, 2.0}), sigma = sigma0, factor = g.oneof({0.83, 0.5}), thr = g.oneof({0.2, 0.5}); unsigned window = g.range<unsigned>(1, 4); eoOneFifthMutation<R> op(ev, sigma, window, factor, thr); int gens = g.range(1, 8); std::vector<unsigned> mut(window, 0), suc(window, 0); unsigned at = 0; g.nontrivial(gens > 1);
    for (int k = 0; k < gens; ++k) { int apps = g.range(1, 5); ev.sign = g.boolean() ? 1 : -1;
        for (int a = 0; a < apps; ++a) { R r; r.push_back(g.oneof({0.0, 1.0, 4.0})); r.push_back(0.0); Sphere ref; ref.sign = ev.sign; if (g.boolean()) ref(r); R b = r; ref(b); op(r); CHECK(!r.invalid(), "the individual comes back without fitness"); R c = r; c.invalidate(); ref(c); CHECK(r.fitness() == c.fitness(), "stale fitness after one-fifth mutation"); mut[at]++; if (r.fitness() > b.fitness()) suc[at]++; }
        op.update(); unsigned m = 0, s = 0; for (unsigned i = 0; i < window; ++i) { m += mut[i]; s += suc[i]; } if (double(s) / m > thr) sigma0 /= factor; else sigma0 *= factor; at = (at + 1) % window; mut[at] = suc[at] = 0;
        CHECK(pbt::near(sigma, sigma0), "step size " << sigma << " after update " << k << ", expected " << sigma0); CHECK(sigma > 0, "step size not positive"); }
    bool th = false; try { eoOneFifthMutation<R> bad(ev, sigma, 3, 1.0); } catch (std::exception&) { th = true; } CHECK(th, "update factor one accepted");
}
// ---- crossovers of plain vectors
PBT(crossovers, 6000, 60000) {
    size_t n = g.range<size_t>(1, 6); int kind = g.range(0, 3); bool bounded = g.boolean(); Space s(g, n, false, true); R a = s.point<R>(g), b = g.chance(1, 8) ? a : s.point<R>(g); if (g.chance(1, 4)) for (size_t i = 0; i < n; ++i) if (g.boolean()) b[i] = a[i]; R x = a, y = b; double alpha = g.oneof({0.0, 0.0, 0.25, 0.5, 2.0}), eta = g.oneof({1.0, 2.0, 15.0}); float pref = g.oneof({0.5f, 0.1f, 0.9f});
    std::unique_ptr<eoQuadOp<R>> op;
    switch (kind) { case 0: op.reset(bounded ? new eoSegmentCrossover<R>(s.v, alpha) : new eoSegmentCrossover<R>(alpha)); break; case 1: op.reset(bounded ? new eoHypercubeCrossover<R>(s.v, alpha) : new eoHypercubeCrossover<R>(alpha)); break; case 2: op.reset(new eoRealUXover<R>(pref)); break; case 3: op.reset(bounded ? new eoSBXCrossover<R>(s.v, eta) : new eoSBXCrossover<R>(eta)); }
    g.note(kind); g.note(bounded); g.note(alpha); g.note(show(a)); g.note(show(b)); g.label("operator", kind); g.nontrivial(!(a == b));
    bool changed = (*op)(x, y); CHECK(x.size() == n && y.size() == n, "length changed"); bool differs = false; double fact = NAN;
    for (size_t i = 0; i < n; ++i) {
        differs = differs || x[i] != a[i] || y[i] != b[i]; double sp = s.span(i), lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]), len = hi - lo, tol = TOL * std::max({sp, std::fabs(lo), std::fabs(hi)}) * (1 + alpha);
        if (bounded || alpha == 0 && kind < 2 || kind == 2) CHECK(s.b[i].in(x[i], tol) && s.b[i].in(y[i], tol), "variable " << i << ": " << pbt::str(x[i]) << " / " << pbt::str(y[i]) << " outside its bounds");
        if (kind <= 1) CHECK(std::min(x[i], y[i]) >= lo - alpha * len - tol && std::max(x[i], y[i]) <= hi + alpha * len + tol, "variable " << i << ": children " << pbt::str(x[i]) << ", " << pbt::str(y[i]) << " leave the interval [" << pbt::str(lo) << "," << pbt::str(hi) << "] widened by " << alpha);
        if (kind == 0 || (kind == 1 && alpha == 0) || (kind == 3 && !bounded)) CHECK(std::fabs(x[i] + y[i] - a[i] - b[i]) <= 4 * tol, "variable " << i << ": the children sum to " << pbt::str(x[i] + y[i]) << ", the parents to " << pbt::str(a[i] + b[i]));
        if (kind == 0 && len > 1e-3 * sp) { double f = (x[i] - b[i]) / (a[i] - b[i]); if (std::isnan(fact)) fact = f; else CHECK(std::fabs(f - fact) < 1e-4, "segment crossover uses different weights " << fact << " and " << f); }
        if (kind == 2) CHECK((x[i] == a[i] && y[i] == b[i]) || (x[i] == b[i] && y[i] == a[i]), "uniform crossover lost a parental value at " << i);
        if (len == 0) CHECK(std::fabs(x[i] - a[i]) <= tol && std::fabs(y[i] - a[i]) <= tol, "equal parental values gave " << pbt::str(x[i]));
    }
    CHECK(changed || !differs, "the crossover reports no change but changed its parents");
}
PBT(crossover_distribution, 40, 400) {
    int kind = g.range(0, 3); const unsigned N = 3000; double alpha = g.oneof({0.0, 0.5}), eta = g.oneof({1.0, 3.0}); float pref = g.oneof({0.5f, 0.2f, 0.9f}); eoSegmentCrossover<R> sg(alpha); eoHypercubeCrossover<R> hc(alpha); eoRealUXover<R> ux(pref); eoSBXCrossover<R> sbx(eta); g.note(kind); g.note(alpha); g.note(eta); g.nontrivial(true);
    std::vector<unsigned> c(8, 0); std::vector<unsigned> t2(2, 0);
    for (unsigned t = 0; t < N; ++t) { R a, b; a.push_back(0.0); b.push_back(1.0); if (kind == 0) sg(a, b); else if (kind == 1) hc(a, b); else if (kind == 2) ux(a, b); else sbx(a, b);
        if (kind <= 1) { double u = (a[0] + alpha) / (1 + 2 * alpha); int k = std::min(7, std::max(0, (int)(u * 8))); c[k]++; } else if (kind == 2) t2[a[0] == 1.0]++; else { double beta = std::fabs(b[0] - a[0]); c[beta <= 0.5 ? 0 : beta <= 1 ? 1 : beta <= 2 ? 2 : 3]++; } }
    if (kind <= 1) checkFreq(std::vector<double>(8, 0.125), c, "position of the first child between the parents"); else if (kind == 2) checkFreq({1 - (double)pref, (double)pref}, t2, "exchange of values");
    else { double h = 0.5 * std::pow(0.5, eta + 1); checkFreq({h, 0.5 - h, 0.5 - h, h}, std::vector<unsigned>(c.begin(), c.begin() + 4), "spread of the simulated binary crossover"); }
}
PBT(crossover_errors, 50, 200) {
    size_t n1 = g.range<size_t>(1, 4), n2 = g.range<size_t>(1, 4); R a, b; a.resize(n1, 1.0); b.resize(n2, 2.0); eoRealUXover<R> u; bool th = false; g.nontrivial(n1 != n2); if (n1 != n2) { try { u(a, b); } catch (std::exception&) { th = true; } CHECK(th, "uniform crossover of lengths " << n1 << "," << n2 << " accepted"); }
    th = false; try { eoRealUXover<R> w(g.oneof({0.0f, 1.0f, -1.0f, 2.0f})); } catch (std::exception&) { th = true; } CHECK(th, "invalid preference accepted"); th = false; try { eoHypercubeCrossover<R> h(-0.5); } catch (std::exception&) { th = true; } CHECK(th, "negative exploration coefficient accepted");
}
PBT(atom_crossovers, 500, 5000) {
    double a = g.grid(8), b = g.grid(8), x = a; eoDoubleExchange ex; eoDoubleIntermediate in; g.nontrivial(a != b); bool ch = ex(x, b); CHECK(x == a || x == b, "exchange gave " << x); CHECK(ch == (x != a), "exchange reports " << ch); x = a; in(x, b); CHECK(x >= std::min(a, b) - TOL && x <= std::max(a, b) + TOL, "intermediate value " << x << " outside [" << a << "," << b << "]");
}
// ---- evolution strategies
template <class E> struct Traits;
template <> struct Traits<eoEsSimple<double>> { static void fill(pbt::Gen& g, eoEsSimple<double>& e, double s) { e.stdev = s; } static void check(const eoEsSimple<double>& e) { CHECK(e.stdev >= 1e-40 && std::isfinite(e.stdev), "step size " << e.stdev); } static std::vector<double> adapt(const eoEsSimple<double>& e) { return {e.stdev}; } };
template <> struct Traits<eoEsStdev<double>> { static void fill(pbt::Gen& g, eoEsStdev<double>& e, double s) { e.stdevs.assign(e.size(), s); for (auto& x : e.stdevs) if (g.chance(1, 4)) x = g.oneof({1e-39, 0.5, 20.0}); } static void check(const eoEsStdev<double>& e) { CHECK(e.stdevs.size() == e.size(), "number of step sizes"); for (double x : e.stdevs) CHECK(x >= 1e-40 && std::isfinite(x), "step size " << x); } static std::vector<double> adapt(const eoEsStdev<double>& e) { return e.stdevs; } };
template <> struct Traits<eoEsFull<double>> { static void fill(pbt::Gen& g, eoEsFull<double>& e, double s) { e.stdevs.assign(e.size(), s); e.correlations.resize(e.size() * (e.size() - 1) / 2); for (auto& x : e.correlations) x = g.oneof({0.0, M_PI, -M_PI, 3.1, -3.1, 1.0, -0.5}); } static void check(const eoEsFull<double>& e) { CHECK(e.stdevs.size() == e.size() && e.correlations.size() == e.size() * (e.size() - 1) / 2, "number of strategy parameters"); for (double x : e.stdevs) CHECK(x >= 1e-40 && std::isfinite(x), "step size " << x); for (double x : e.correlations) CHECK(std::fabs(x) <= M_PI + TOL, "angle " << x); } static std::vector<double> adapt(const eoEsFull<double>& e) { auto v = e.stdevs; v.insert(v.end(), e.correlations.begin(), e.correlations.end()); return v; } };
struct Taus { eoParser p; eoEsMutationInit init; Taus(double l, double gl, double b) : p(0, nullptr), init(p) { init.TauLcl(); init.TauGlb(); init.TauBeta(); p.getParamWithLongName("TauLoc")->setValue(pbt::str(l)); p.getParamWithLongName("TauGlob")->setValue(pbt::str(gl)); p.getParamWithLongName("Beta")->setValue(pbt::str(b)); } };
template <class E> void esCase(pbt::Gen& g) {
    size_t n = g.range<size_t>(1, 5); Space s(g, n, false, true); Silence q; static char name[] = "x"; static char* argv[] = {name, nullptr};
    eoParser parser(1, argv); eoEsMutationInit init(parser); init.TauLcl(); init.TauGlb(); init.TauBeta(); parser.getParamWithLongName("TauLoc")->setValue(g.oneof({std::string("1"), std::string("10"), std::string("0"), std::string("100")})); parser.getParamWithLongName("TauGlob")->setValue(g.oneof({std::string("1"), std::string("10"), std::string("0")})); parser.getParamWithLongName("Beta")->setValue(g.oneof({std::string("0.0873"), std::string("5"), std::string("0")}));
    eoEsMutate<E> mut(init, s.v); E e = s.point<E>(g); Traits<E>::fill(g, e, g.oneof({0.3, 1e-39, 5.0, 1e3})); int reps = g.range(1, 5); g.nontrivial(n > 1);
    for (int k = 0; k < reps; ++k) { bool ch = mut(e); s.check(e, "ES mutant"); bool huge = false; for (double x : Traits<E>::adapt(e)) huge = huge || x > 1e100; if (huge) return; Traits<E>::check(e); CHECK(ch, "ES mutation reports no change"); }
    // crossovers
    E o = s.point<E>(g); Traits<E>::fill(g, o, 2.0); E c = e; eoDoubleExchange ex; eoDoubleIntermediate in; bool exObj = g.boolean(), exMut = g.boolean(); eoBinOp<double>&bo = exObj ? (eoBinOp<double>&)ex : in, &bm = exMut ? (eoBinOp<double>&)ex : in; eoEsStandardXover<E> xo(bo, bm); const E oc = o; bool ch = xo(c, oc);
    auto between = [&](double v, double a, double b, bool exact, const char* what) { if (exact) CHECK(v == a || v == b, what << " " << pbt::str(v) << " is neither " << pbt::str(a) << " nor " << pbt::str(b)); else CHECK(v >= std::min(a, b) - TOL * (1 + std::fabs(a)) && v <= std::max(a, b) + TOL * (1 + std::fabs(b)), what << " " << pbt::str(v) << " outside [" << pbt::str(a) << "," << pbt::str(b) << "]"); };
    s.check(c, "ES child", TOL * 100); for (size_t i = 0; i < n; ++i) between(c[i], e[i], o[i], exObj, "variable"); auto ac = Traits<E>::adapt(c), ae = Traits<E>::adapt(e), ao = Traits<E>::adapt(o); CHECK(ac.size() == ae.size(), "number of strategy parameters"); for (size_t i = 0; i < ac.size(); ++i) between(ac[i], ae[i], ao[i], exMut, "strategy parameter");
    bool differs = ac != ae; for (size_t i = 0; i < n; ++i) differs = differs || c[i] != e[i]; CHECK(ch || !differs, "ES crossover reports no change");
    // global crossover over a population
    eoPop<E> pop; size_t m = g.range<size_t>(1, 4); for (size_t i = 0; i < m; ++i) { E p = s.point<E>(g); Traits<E>::fill(g, p, 0.5 + i); pop.push_back(p); } eoPop<E> off; eoSequentialSelect<E> sel(false); eoSelectivePopulator<E> plop(pop, off, sel); eoEsGlobalXover<E> gx(bo, bm); gx(plop); CHECK(off.size() == 1, "global crossover gave " << off.size() << " children"); const E& k = off[0]; CHECK(k.invalid(), "a recombined individual keeps a fitness"); CHECK(k.size() == n, "length");
    for (size_t i = 0; i < n; ++i) { double lo = INFINITY, hi = -INFINITY; bool eq = false; for (auto& p : pop) { lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); eq = eq || p[i] == k[i]; } CHECK(exObj ? eq : (k[i] >= lo - TOL * s.span(i) && k[i] <= hi + TOL * s.span(i)), "global crossover variable " << k[i] << " not taken from the population"); }
    auto ak = Traits<E>::adapt(k); for (size_t i = 0; i < ak.size(); ++i) { double lo = INFINITY, hi = -INFINITY; bool eq = false; for (auto& p : pop) { auto ap = Traits<E>::adapt(p); lo = std::min(lo, ap[i]); hi = std::max(hi, ap[i]); eq = eq || ap[i] == ak[i]; } CHECK(exMut ? eq : (ak[i] >= lo - TOL && ak[i] <= hi + TOL), "global crossover strategy parameter " << ak[i] << " not taken from the population"); }
}
PBT(es_simple, 700, 7000) { esCase<eoEsSimple<double>>(g); }
PBT(es_stdev, 700, 7000) { esCase<eoEsStdev<double>>(g); }
PBT(es_full, 700, 7000) { esCase<eoEsFull<double>>(g); }
// step distribution of an ES mutation whose strategy parameters do not move
template <class E> void esMoments(pbt::Gen& g, int kind) {
    size_t n = g.range<size_t>(2, 3); const unsigned N = 6000; Silence q; static char name[] = "x"; static char* argv[] = {name, nullptr}; eoParser parser(1, argv); eoEsMutationInit init(parser); init.TauLcl(); init.TauGlb(); init.TauBeta(); for (const char* w : {"TauLoc", "TauGlob", "Beta"}) parser.getParamWithLongName(w)->setValue("0");
    eoRealNoBounds nb; eoRealVectorBounds v(n, nb); eoEsMutate<E> mut(init, v); E e; e.resize(n, 0.0); Traits<E>::fill(g, e, 1.0); std::vector<double> sd(n, 1.0), ang; 
    if constexpr (std::is_same<E, eoEsSimple<double>>::value) { e.stdev = g.oneof({0.5, 2.0}); sd.assign(n, e.stdev); } else { for (size_t i = 0; i < n; ++i) sd[i] = e.stdevs[i] = g.oneof({0.5, 1.0, 3.0}); }
    if constexpr (std::is_same<E, eoEsFull<double>>::value) { for (auto& a : e.correlations) a = g.oneof({0.5, -1.0, 0.0, 1.5}); ang = e.correlations; }
    std::vector<std::vector<double>> A(n, std::vector<double>(n, 0)); for (size_t i = 0; i < n; ++i) A[i][i] = sd[i];
    if (!ang.empty()) { size_t nq = ang.size() - 1; for (size_t k = 1; k < n; ++k) { size_t n1 = n - k - 1, n2 = n - 1; for (size_t i = 0; i < k; ++i) { double S = std::sin(ang[nq]), C = std::cos(ang[nq]); for (size_t c = 0; c < n; ++c) { double d1 = A[n1][c], d2 = A[n2][c]; A[n2][c] = d1 * S + d2 * C; A[n1][c] = d1 * C - d2 * S; } --n2; --nq; } } }
    std::vector<std::vector<double>> cov(n, std::vector<double>(n, 0)); std::vector<double> mean(n, 0); for (unsigned t = 0; t < N; ++t) { E x = e; mut(x); CHECK(Traits<E>::adapt(x) == Traits<E>::adapt(e), "strategy parameters moved with zero learning rates"); for (size_t i = 0; i < n; ++i) { mean[i] += x[i] / N; for (size_t j = 0; j < n; ++j) cov[i][j] += x[i] * x[j] / N; } }
    g.nontrivial(true);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double e2 = 0, vi = 0, vj = 0; for (size_t c = 0; c < n; ++c) { e2 += A[i][c] * A[j][c]; vi += A[i][c] * A[i][c]; vj += A[j][c] * A[j][c]; } double sdv = std::sqrt(2 * vi * vj / N); CHECK(std::fabs(cov[i][j] - e2) < 7 * sdv, "covariance of variables " << i << "," << j << " is " << cov[i][j] << ", expected " << e2); if (i == j) CHECK(std::fabs(mean[i]) < 7 * std::sqrt(vi / N), "mean step of variable " << i); }
}
PBT(es_moments, 20, 150) { switch (g.draw(2)) { case 0: esMoments<eoEsSimple<double>>(g, 0); break; case 1: esMoments<eoEsStdev<double>>(g, 1); break; default: esMoments<eoEsFull<double>>(g, 2); } }
template <class E> struct FirstSelect : public eoSelectOne<E> { const E& operator()(const eoPop<E>& p) { return p[0]; } };
PBT(global_crossover_sources, 12, 100) {
    // every variable and step size of the child comes from any individual with equal probability
    typedef eoEsStdev<double> E; size_t m = g.range<size_t>(2, 4), n = g.range<size_t>(1, 3); eoPop<E> pop; for (size_t i = 0; i < m; ++i) { E e; e.resize(n, (double)i); e.stdevs.assign(n, 10.0 + i); pop.push_back(e); } eoDoubleExchange ex; eoEsGlobalXover<E> gx(ex, ex); std::vector<std::vector<unsigned>> c(2 * n, std::vector<unsigned>(m, 0)); g.nontrivial(true);
    for (int t = 0; t < 3000; ++t) { eoPop<E> off; FirstSelect<E> sel; eoSelectivePopulator<E> plop(pop, off, sel); gx(plop); for (size_t i = 0; i < n; ++i) { c[i][(size_t)off[0][i]]++; c[n + i][(size_t)off[0].stdevs[i] - 10]++; } }
    for (auto& k : c) checkFreq(std::vector<double>(m, 1.0 / m), k, "origin of the values of a global crossover");
}
PBT(standard_crossover_exchange, 12, 100) {
    typedef eoEsFull<double> E; size_t n = g.range<size_t>(1, 4), q = n * (n - 1) / 2; E a, b; a.resize(n, 0.0); b.resize(n, 1.0); a.stdevs.assign(n, 0.0); b.stdevs.assign(n, 1.0); a.correlations.assign(q, 0.0); b.correlations.assign(q, 1.0); eoDoubleExchange ex; eoEsStandardXover<E> xo(ex, ex); std::vector<std::vector<unsigned>> c(2 * n + q, std::vector<unsigned>(2, 0)); g.nontrivial(true); const int N = 3000;
    for (int t = 0; t < N; ++t) { E x = a; xo(x, b); size_t k = 0; for (double v : x) c[k++][v == 1.0]++; for (double v : x.stdevs) c[k++][v == 1.0]++; for (double v : x.correlations) c[k++][v == 1.0]++; }
    for (auto& k : c) checkFreq({0.5, 0.5}, k, "exchange of a value in the standard ES crossover");
}

// learning rates: spread of the logarithm of the step sizes, common and per variable, and of the angles
template <class E> void esRates(pbt::Gen& g) {
    size_t n = g.oneof({1, 2, 4, 9}); const unsigned N = 4000; Silence q; static char name[] = "x"; static char* argv[] = {name, nullptr}; double tl = g.oneof({0.5, 1.0, 0.0}), tg = g.oneof({0.5, 1.5, 0.0}), be = g.oneof({0.02, 0.1, 0.0}); eoParser parser(1, argv); eoEsMutationInit init(parser); init.TauLcl(); init.TauGlb(); init.TauBeta(); parser.getParamWithLongName("TauLoc")->setValue(pbt::str(tl)); parser.getParamWithLongName("TauGlob")->setValue(pbt::str(tg)); parser.getParamWithLongName("Beta")->setValue(pbt::str(be));
    eoRealNoBounds nb; eoRealVectorBounds v(n, nb); eoEsMutate<E> mut(init, v); E e; e.resize(n, 0.0); Traits<E>::fill(g, e, 1.0); constexpr bool simple = std::is_same<E, eoEsSimple<double>>::value; size_t k = simple ? 1 : n;
    double own = simple ? tl / std::sqrt(2.0 * n) : tl / std::sqrt(2 * std::sqrt((double)n)), all = simple ? 0 : tg / std::sqrt(2.0 * n); g.note(n); g.note(tl); g.note(tg); g.note(be); g.nontrivial(tl > 0 || tg > 0);
    if constexpr (!simple) for (auto& d : e.stdevs) d = g.oneof({0.5, 1.0, 20.0}); if constexpr (std::is_same<E, eoEsFull<double>>::value) for (auto& a : e.correlations) a = 0.5; std::vector<double> from = Traits<E>::adapt(e), m(k, 0), a2; std::vector<std::vector<double>> c(k, std::vector<double>(k, 0)); a2.assign(from.size() - k, 0);
    for (unsigned t = 0; t < N; ++t) { E x = e; mut(x); auto to = Traits<E>::adapt(x); for (size_t i = 0; i < k; ++i) { double li = std::log(to[i] / from[i]); m[i] += li / N; for (size_t j = 0; j < k; ++j) c[i][j] += li * std::log(to[j] / from[j]) / N; } for (size_t i = 0; i < a2.size(); ++i) a2[i] += (to[k + i] - from[k + i]) * (to[k + i] - from[k + i]) / N; }
    double va = own * own + all * all; for (size_t i = 0; i < k; ++i) { CHECK(std::fabs(m[i]) <= 7 * std::sqrt(va / N) + 1e-9, "mean logarithmic change " << m[i] << " of step size " << i); for (size_t j = 0; j < k; ++j) { double w = i == j ? va : all * all; CHECK(std::fabs(c[i][j] - w) <= 7 * va * std::sqrt(2.0 / N) + 1e-9, "covariance of the logarithmic changes of step sizes " << i << "," << j << " is " << c[i][j] << " instead of " << w << " in dimension " << n); } }
    for (double x : a2) CHECK(std::fabs(x - be * be) <= 7 * be * be * std::sqrt(2.0 / N) + 1e-12, "variance of the change of an angle is " << x << " instead of " << be * be);
}
PBT(es_learning_rates, 24, 200) { switch (g.draw(2)) { case 0: esRates<eoEsSimple<double>>(g); break; case 1: esRates<eoEsStdev<double>>(g); break; default: esRates<eoEsFull<double>>(g); } }
PBT(uniform_box, 200, 2000) {
    unsigned n = g.range(0u, 5u); double lo = g.grid(8, 0.5), hi = lo + 0.5 * (1 + g.draw(9)); eoRealVectorBounds v(n, lo, hi); CHECK(v.size() == n, v.size() << " variables instead of " << n); for (unsigned i = 0; i < n; ++i) CHECK(v.minimum(i) == lo && v.maximum(i) == hi, "bounds of variable " << i); if (n) { eoRealVectorBounds w(v); std::vector<double> x; w.uniform(x); CHECK(x.size() == n && v.isInBounds(x), "drawn vector"); }
    std::vector<double> a, b; for (unsigned i = 0; i < n; ++i) { a.push_back(g.grid(8, 0.5)); b.push_back(a[i] + 0.5 * (1 + g.draw(9))); } eoRealVectorBounds u(a, b); CHECK(u.size() == n, u.size() << " variables instead of " << n); for (unsigned i = 0; i < n; ++i) CHECK(u.minimum(i) == a[i] && u.maximum(i) == b[i], "bounds of variable " << i << " made from two vectors");
    bool th = false; try { eoRealVectorBounds z(2, lo, lo); } catch (std::exception&) { th = true; } CHECK(th, "a void range was accepted"); g.nontrivial(n > 1);
}
