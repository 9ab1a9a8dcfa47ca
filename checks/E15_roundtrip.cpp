// Printing an object and reading it back.
#include "ind_support.hpp"
#include <ga/eoBit.h>
#include <eoInt.h>
#include <es/eoReal.h>
#include <es/eoEsSimple.h>
#include <es/eoEsStdev.h>
#include <es/eoEsFull.h>
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <utils/eoHowMany.h>
#include <utils/eoRealVectorBounds.h>
#include <utils/eoIntBounds.h>
#include <utils/eoParam.h>
#include <moeo>
using namespace sup;
// numbers that six digits, or a stream with seventeen, render exactly
struct Num { pbt::Gen& g; bool exact; double operator()() { double v = exact ? g.real(-1000, 1000) : g.grid(400, 0.25) - 50; if (exact && g.chance(1, 6)) v = g.oneof({1e-300, -1e-7, 1e17, 123456789.123, 0.1}); return g.chance(1, 8) ? 0 : v; } };
template <class I> static bool genotype(const I& a, const I& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class F> static bool genotype(const eoEsSimple<F>& a, const eoEsSimple<F>& b) { return a.stdev == b.stdev && a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class F> static bool genotype(const eoEsStdev<F>& a, const eoEsStdev<F>& b) { return a.stdevs == b.stdevs && a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class F> static bool genotype(const eoEsFull<F>& a, const eoEsFull<F>& b) { return a.stdevs == b.stdevs && a.correlations == b.correlations && a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class F> static void fill(Num& n, eoBit<F>& x) { x.resize(n.g.size(0, 9)); for (size_t k = 0; k < x.size(); ++k) x[k] = n.g.boolean(); }
template <class F> static void fill(Num& n, eoInt<F>& x) { x.resize(n.g.size(0, 6)); for (auto& v : x) v = n.g.range(-100000, 100000); }
template <class F> static void fillReal(Num& n, eoVector<F, double>& x) { x.resize(n.g.size(0, 5)); for (auto& v : x) v = n(); }
template <class F> static void fill(Num& n, eoReal<F>& x) { fillReal(n, x); }
template <class F> static void fill(Num& n, eoEsSimple<F>& x) { fillReal(n, x); x.stdev = n(); }
template <class F> static void fill(Num& n, eoEsStdev<F>& x) { fillReal(n, x); x.stdevs.resize(x.size()); for (auto& v : x.stdevs) v = n(); }
template <class F> static void fill(Num& n, eoEsFull<F>& x) { fillReal(n, x); x.stdevs.resize(x.size()); for (auto& v : x.stdevs) v = n(); x.correlations.resize(x.size() * (x.size() - (x.size() ? 1 : 0)) / 2); for (auto& v : x.correlations) v = n(); }
template <class F> static void fill(Num& n, eoVector<F, unsigned>& x) { x.resize(n.g.size(0, 6)); for (size_t k = 0; k < x.size(); ++k) x[k] = k; for (size_t k = x.size(); k > 1; --k) std::swap(x[k - 1], x[n.g.draw(k - 1)]); }
// fitness kinds
static void setFit(Num& n, double& f) { f = n(); }
template <class C> static void setFit(Num& n, eoScalarFitness<double, C>& f) { f = n(); }
template <class C> static void setFit(Num& n, eoDualFitness<double, C>& f) { f = eoDualFitness<double, C>(n(), n.g.boolean()); }
template <class C> static void setFit(Num& n, eoScalarFitnessAssembled<double, C, eoScalarFitnessAssembledTraits>& f) { f = eoScalarFitnessAssembled<double, C, eoScalarFitnessAssembledTraits>(); for (auto& v : f) v = n(); f.feasible = n.g.boolean(); f.failed = n.g.boolean(); }
static bool eqFit(double a, double b) { return a == b; }
template <class C> static bool eqFit(const eoScalarFitness<double, C>& a, const eoScalarFitness<double, C>& b) { return (double)a == (double)b; }
template <class C> static bool eqFit(const eoDualFitness<double, C>& a, const eoDualFitness<double, C>& b) { return a.value() == b.value() && a.is_feasible() == b.is_feasible(); }
template <class C> static bool eqFit(const eoScalarFitnessAssembled<double, C, eoScalarFitnessAssembledTraits>& a, const eoScalarFitnessAssembled<double, C, eoScalarFitnessAssembledTraits>& b) { return (const std::vector<double>&)a == (const std::vector<double>&)b && a.feasible == b.feasible && a.failed == b.failed; }

template <class I> static void make(Num& n, I& x) { fill(n, x); x.invalidate(); if (n.g.chance(3, 4)) { typename I::Fitness f = typename I::Fitness(); setFit(n, f); x.fitness(f); } }
template <class I> static bool equalInd(const I& a, const I& b) { return genotype(a, b) && a.invalid() == b.invalid() && (a.invalid() || eqFit(a.fitness(), b.fitness())); }
template <class I> static std::string show(const I& x, bool exact) { std::ostringstream o; if (exact) o.precision(17); o << x; return o.str(); }
template <class I> static void individual(pbt::Gen& g) {
    Num n{g, g.boolean()}; I a, b; make(n, a); if (g.boolean()) make(n, b); // read over a fresh or a used object
    std::string t = show(a, n.exact); std::istringstream in(t); in >> b; CHECK(!in.fail(), "reading '" << t << "' failed"); CHECK(equalInd(a, b), "'" << t << "' was read as '" << show(b, n.exact) << "'"); CHECK(show(b, n.exact) == t, "printed again: '" << show(b, n.exact) << "' instead of '" << t << "'");
    std::string rest; in >> rest; CHECK(rest.empty(), "left over: " << rest);
    // a population, printed as it is, over one of another size
    eoPop<I> p, q; for (size_t k = g.size(0, 4); k--;) { I x; make(n, x); p.push_back(x); } for (size_t k = g.size(0, 3); k--;) { I x; make(n, x); q.push_back(x); } t = show(p, n.exact); std::istringstream ip(t); ip >> q; CHECK(p.size() == q.size(), "population of " << q.size() << " read from '" << t << "'"); for (size_t k = 0; k < p.size(); ++k) CHECK(equalInd(p[k], q[k]), "member " << k << " of '" << t << "' was read as '" << show(q[k], n.exact) << "'");
    std::istringstream two(show(a, n.exact) + "\n" + show(p, n.exact)); I c; eoPop<I> r; two >> c >> r; CHECK(equalInd(a, c) && r.size() == p.size(), "two objects in one stream"); for (size_t k = 0; k < p.size(); ++k) CHECK(equalInd(p[k], r[k]), "second object of the stream");
    // construction from a stream
    { std::istringstream is(show(p, n.exact)); eoPop<I> s; s.readFrom(is); CHECK(s.size() == p.size(), "readFrom"); }
    g.nontrivial(a.size() > 1 || p.size() > 1);
}
template <class F> static void anyRep(pbt::Gen& g) { switch (g.range(0, 6)) { case 0: return individual<eoBit<F>>(g); case 1: return individual<eoInt<F>>(g); case 2: return individual<eoReal<F>>(g); case 3: return individual<eoEsSimple<F>>(g); case 4: return individual<eoEsStdev<F>>(g); case 5: return individual<eoEsFull<F>>(g); default: return individual<eoVector<F, unsigned>>(g); } }
PBT(individuals, 8000, 25000) { Silence quiet; if (g.boolean()) anyRep<double>(g); else anyRep<eoMinimizingFitness>(g); }
PBT(compound_fitness, 4000, 12000) {
    Silence quiet; eoScalarFitnessAssembledTraits::resize(g.range(1, 3), "term");
    switch (g.range(0, 3)) { case 0: return anyRep<eoMaximizingDualFitness>(g); case 1: return anyRep<eoMinimizingDualFitness>(g); case 2: return anyRep<eoAssembledMaximizingFitness>(g); default: return anyRep<eoAssembledMinimizingFitness>(g); }
}

PBT(sorted_print, 300, 3000) {
    Silence quiet; eoPop<eoReal<double>> p, q; for (size_t k = g.size(0, 6); k--;) { eoReal<double> x(1); x[0] = g.range(0, 9); x.fitness(g.range(0, 5)); p.push_back(x); } std::stringstream s; p.sortedPrintOn(s); s >> q; CHECK(q.size() == p.size(), "size"); std::multiset<std::pair<double, double>> a, b; for (auto& x : p) a.insert({x[0], (double)x.fitness()}); for (auto& x : q) b.insert({x[0], (double)x.fitness()}); CHECK(a == b, "members"); for (size_t k = 1; k < q.size(); ++k) CHECK((double)q[k - 1].fitness() >= (double)q[k].fitness(), "not printed best first"); g.nontrivial(p.size() > 2);
}

typedef moeoRealObjectiveVector<moeoObjectiveVectorTraits> OV;
typedef moeoRealVector<OV> MR; typedef moeoBitVector<OV> MB; typedef moeoIntVector<OV> MI;
static void mfill(Num& n, MR& x) { x.resize(n.g.size(0, 5)); for (auto& v : x) v = n(); }
static void mfill(Num& n, MI& x) { x.resize(n.g.size(0, 5)); for (auto& v : x) v = n.g.range(-99, 99); }
static void mfill(Num& n, MB& x) { x.resize(n.g.size(0, 7)); for (size_t k = 0; k < x.size(); ++k) x[k] = n.g.boolean(); }
template <class I> static void mo(pbt::Gen& g) {
    Num n{g, g.boolean()}; unsigned m = g.range(1, 4); std::vector<bool> mins(m, true); OV::setup(m, mins); auto mk = [&](I& x) { mfill(n, x); x.invalidate(); if (g.chance(3, 4)) { OV o; for (unsigned k = 0; k < m; ++k) o[k] = n(); x.objectiveVector(o); } }; auto eq = [&](const I& a, const I& b) { if (!genotype(a, b) || a.invalidObjectiveVector() != b.invalidObjectiveVector()) return false; if (!a.invalidObjectiveVector()) for (unsigned k = 0; k < m; ++k) if (a.objectiveVector()[k] != b.objectiveVector()[k]) return false; return true; };
    I a, b; mk(a); if (g.boolean()) mk(b); std::string t = show(a, n.exact); std::istringstream in(t); in >> b; CHECK(eq(a, b), "'" << t << "' was read as '" << show(b, n.exact) << "'");
    eoPop<I> p, q; for (size_t k = g.size(0, 4); k--;) { I x; mk(x); p.push_back(x); } for (size_t k = g.size(0, 2); k--;) { I x; mk(x); q.push_back(x); } std::istringstream ip(show(p, n.exact)); ip >> q; CHECK(p.size() == q.size(), "population size"); for (size_t k = 0; k < p.size(); ++k) CHECK(eq(p[k], q[k]), "member " << k << " of '" << show(p, n.exact) << "' was read as '" << show(q[k], n.exact) << "'"); g.nontrivial(p.size() > 1);
}
PBT(objective_vectors, 4000, 12000) { Silence quiet; switch (g.range(0, 2)) { case 0: return mo<MR>(g); case 1: return mo<MB>(g); default: return mo<MI>(g); } }

PBT(how_many, 800, 6000) {
    Silence quiet;
    // the same number of individuals for every population size
    std::unique_ptr<eoHowMany> a; bool rate = g.boolean(); double r = std::fabs(g.grid(60, 0.125)) / 8; int c = g.range(-20, 30); if (!rate && c == 0) c = 1; if (rate) a.reset(new eoHowMany(r)); else a.reset(new eoHowMany(c)); if (rate && g.boolean()) a.reset(new eoHowMany(r * 4, true));
    std::ostringstream o; o.precision(17); o << *a; eoHowMany b(0.33); std::istringstream in(o.str()); in >> b; for (unsigned n = 0; n < 60; ++n) { unsigned x = 0, y = 0; bool tx = false, ty = false; try { x = (*a)(n); } catch (std::exception&) { tx = true; } try { y = b(n); } catch (std::exception&) { ty = true; } CHECK(tx == ty && x == y, "'" << o.str() << "' of " << n << " is " << y << " after reading, was " << x); }
    std::string text = rate ? pbt::str(r * 100) + "%" : std::to_string(c); eoHowMany d(0.9); d.readFrom(text); for (unsigned n = 30; n < 50; ++n) CHECK(d(n) == (rate ? (unsigned)std::ceil(r * n) : c < 0 ? n + c : (unsigned)c), "'" << text << "' of " << n << " is " << d(n)); g.nontrivial(true);
}

template <class B, class V> static void checkBound(const B& a, const B& b, const std::string& t) { CHECK(a.isMinBounded() == b.isMinBounded() && a.isMaxBounded() == b.isMaxBounded(), "'" << t << "' has other bounded sides"); if (a.isMinBounded()) CHECK(a.minimum() == b.minimum(), "'" << t << "' has minimum " << b.minimum()); if (a.isMaxBounded()) CHECK(a.maximum() == b.maximum(), "'" << t << "' has maximum " << b.maximum()); }
static std::string boundText(pbt::Gen& g, bool ints, bool* lo, bool* hi, double* mn, double* mx) { *lo = g.chance(3, 4); *hi = g.chance(3, 4); *mn = ints ? g.range(-50, 50) : g.grid(80, 0.25) - 10; *mx = *mn + (ints ? g.range(1, 50) : std::fabs(g.grid(40, 0.25)) + 0.5); std::ostringstream o; o << (g.boolean() ? "[" : "("); if (*lo) o << *mn; else o << "-inf"; o << (g.boolean() ? "," : ";"); if (*hi) o << *mx; else o << "+inf"; std::string s = o.str(); return s + (s[0] == '[' ? "]" : ")"); }
PBT(bounds, 1000, 8000) {
    Silence quiet; bool lo, hi; double mn, mx; std::string t = boundText(g, false, &lo, &hi, &mn, &mx); eoGeneralRealBounds a(t), b; CHECK(a.isMinBounded() == lo && a.isMaxBounded() == hi && (!lo || a.minimum() == mn) && (!hi || a.maximum() == mx), "'" << t << "' gives other bounds"); std::stringstream s; s << a; s >> b; checkBound<eoRealBounds, double>(a, b, t); eoGeneralRealBounds c(a); checkBound<eoRealBounds, double>(a, c, "copy of " + t); eoGeneralRealBounds d("[0,1]"); d = a; checkBound<eoRealBounds, double>(a, d, "assigned " + t);
    t = boundText(g, true, &lo, &hi, &mn, &mx); eoGeneralIntBounds i(t), j; CHECK(i.isMinBounded() == lo && i.isMaxBounded() == hi && (!lo || i.minimum() == mn) && (!hi || i.maximum() == mx), "'" << t << "' gives other integer bounds"); std::stringstream u; u << i; u >> j; checkBound<eoIntBounds, long>(i, j, t);
    // vectors: runs of equal bounds
    std::string v; struct E { bool lo, hi; double mn, mx; }; std::vector<E> want; for (size_t k = g.size(1, 4), f = 0; f < k; ++f) { E e; std::string one = boundText(g, false, &e.lo, &e.hi, &e.mn, &e.mx); unsigned c = g.range(1, 3); v += (f ? ";" : "") + (c > 1 || g.boolean() ? std::to_string(c) : std::string()) + one; want.insert(want.end(), c, e); }
    eoRealVectorBounds x(v), y; auto look = [&](eoRealVectorBounds& z, const std::string& how) { CHECK(z.size() == want.size(), "'" << v << "' " << how << ": " << z.size() << " bounds"); for (size_t k = 0; k < want.size(); ++k) { CHECK(z.isMinBounded(k) == want[k].lo && z.isMaxBounded(k) == want[k].hi, "'" << v << "' " << how << ": sides of bound " << k); if (want[k].lo) CHECK(z.minimum(k) == want[k].mn, "'" << v << "' " << how << ": minimum " << k); if (want[k].hi) CHECK(z.maximum(k) == want[k].mx, "'" << v << "' " << how << ": maximum " << k); } }; look(x, "read"); std::stringstream w; w << x; w >> y; look(y, "printed and read"); eoRealVectorBounds z(x); look(z, "copied");
    unsigned more = want.size() + g.range(0, 3); want.resize(more, want.back()); x.adjust_size(more); look(x, "extended"); std::stringstream e; e << x; eoRealVectorBounds q; e >> q; look(q, "extended, printed and read"); g.nontrivial(want.size() > 1);
}

template <class T> static void param(T v, T other) { eoValueParam<T> a(v, "a"), b(other, "b"); a.setPrecision(17); b.setValue(a.getValue()); CHECK(b.value() == v, "parameter '" << a.getValue() << "' reads back as '" << b.getValue() << "'"); CHECK(a.defValue() == eoValueParam<T>(v, "c").defValue(), "default text"); }
PBT(parameters, 1000, 8000) {
    param<int>(g.range(-1000000, 1000000), 5); param<unsigned>(g.range(0, 1000000), 5); param<bool>(g.boolean(), g.boolean()); param<double>(g.boolean() ? g.real(-10, 10) : g.grid(40, 0.5), 0.5); param<std::string>("w" + std::to_string(g.range(0, 99)), "x"); param<char>('a' + g.range(0, 25), 'z'); param<long>(g.range(-1000000, 1000000), 3); param<float>(g.grid(40, 0.5), 1);
    param<std::pair<double, double>>({g.grid(50, 0.25), -g.grid(50, 0.25)}, {1, 2});
    std::vector<double> v, o; for (size_t k = g.size(0, 5); k--;) v.push_back(g.grid(400, 0.25) - 50); for (size_t k = g.size(0, 3); k--;) o.push_back(7); param<std::vector<double>>(v, o);
    { std::string t = std::to_string(v.size()); for (double x : v) t += (g.boolean() ? "," : g.boolean() ? " ; " : " ") + pbt::str(x); eoValueParam<std::vector<double>> p(o, "p"); p.setValue(t); CHECK(p.value() == v, "'" << t << "' read as '" << p.getValue() << "'"); }
    std::vector<std::vector<double>> vv, oo; for (size_t k = g.size(0, 3); k--;) { std::vector<double> r; for (size_t m = g.size(0, 3); m--;) r.push_back(g.grid(40, 0.25)); vv.push_back(r); } oo = {{1}, {2, 3}}; { eoValueParam<std::vector<std::vector<double>>> a(vv, "a"), b(oo, "b"); b.setValue(a.getValue()); CHECK(b.value() == vv, "nested vectors"); }
    { std::vector<eoMinimizingFitness> f(v.begin(), v.end()); eoValueParam<std::vector<eoMinimizingFitness>> a(f, "a"), b(std::vector<eoMinimizingFitness>(), "b"); b.setValue(a.getValue()); CHECK(b.value().size() == f.size(), "fitness vector"); for (size_t k = 0; k < f.size(); ++k) CHECK((double)b.value()[k] == v[k], "fitness vector"); }
    g.nontrivial(v.size() > 1);
}

// the same with larger sizes
PBT_LARGE(individuals, 60, 600, 10)
PBT_LARGE(compound_fitness, 60, 600, 10)
PBT_LARGE(sorted_print, 10, 100, 10)
PBT_LARGE(objective_vectors, 60, 600, 10)
PBT_LARGE(how_many, 20, 200, 10)
PBT_LARGE(bounds, 25, 250, 10)
PBT_LARGE(parameters, 25, 250, 10)
