// E18: fitness order, views of a population, dual and assembled fitness.
#include "eo_support.hpp"
#include <eoDualFitness.h>
#include <eoScalarFitnessAssembled.h>
#include <utils/eoFeasibleRatioStat.h>
using namespace sup;
namespace {
// what a fitness is, told independently of the library: a value, a feasibility, a direction
struct Ref { double v; bool feas; };
template <class F> struct Kind { static const bool mini = false, dual = false, whole = false; static F make(const Ref& r) { return F(r.v); } static double val(const F& f) { return f; } };
template <class T> struct Kind<eoScalarFitness<T, std::greater<T>>> { typedef eoScalarFitness<T, std::greater<T>> F; static const bool mini = true, dual = false; static F make(const Ref& r) { return F(T(r.v)); } static double val(const F& f) { return T(f); } };
template <class T> struct Kind<eoScalarFitness<T, std::less<T>>> { typedef eoScalarFitness<T, std::less<T>> F; static const bool mini = false, dual = false; static F make(const Ref& r) { return F(T(r.v)); } static double val(const F& f) { return T(f); } };
template <> struct Kind<eoMaximizingDualFitness> { typedef eoMaximizingDualFitness F; static const bool mini = false, dual = true; static F make(const Ref& r) { return F(r.v, r.feas); } static double val(const F& f) { return f.value(); } };
template <> struct Kind<eoMinimizingDualFitness> { typedef eoMinimizingDualFitness F; static const bool mini = true, dual = true; static F make(const Ref& r) { return F(std::make_pair(r.v, r.feas)); } static double val(const F& f) { return f.value(); } };
template <> struct Kind<eoAssembledMaximizingFitness> { typedef eoAssembledMaximizingFitness F; static const bool mini = false, dual = false; static F make(const Ref& r) { F f(2, 7.0 - r.v); f = r.v; return f; } static double val(const F& f) { return double(f); } };
template <> struct Kind<eoAssembledMinimizingFitness> { typedef eoAssembledMinimizingFitness F; static const bool mini = true, dual = false; static F make(const Ref& r) { F f(r.v); f.push_back(7.0 - r.v); return f; } static double val(const F& f) { return double(f); } };
template <class F> bool worse(const Ref& a, const Ref& b) { if (Kind<F>::dual && a.feas != b.feas) return b.feas; return Kind<F>::mini ? a.v > b.v : a.v < b.v; }
template <class F> struct Ind : EO<F> { typedef F Fitness; int id = -1; Ref r{0, true}; std::string className() const { return "Ind"; } void printOn(std::ostream& o) const { o << id; } };
Ref genRef(pbt::Gen& g, int span) { Ref r; r.v = span ? g.range(-span, span) : g.grid(8, 0.375); r.feas = g.boolean(); return r; }
template <class F> void comparison(pbt::Gen& g, const char* name) {
    g.note(name); g.label("fitness", name); bool integral = std::is_same<F, eoMinimizingFitnessT<int>>::value; int span = integral ? 4 : g.oneof({2, 0, 1000000}); Ref a = genRef(g, span), b = g.chance(1, 3) ? a : genRef(g, span); if (g.chance(1, 6)) b.feas = !b.feas; F x = Kind<F>::make(a), y = Kind<F>::make(b); g.note(' ').note(a.v).note(a.feas ? "f" : "i").note(" against ").note(b.v).note(b.feas ? "f" : "i");
    bool lt = worse<F>(a, b), gt = worse<F>(b, a);
    CHECK((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "order of " << name << ": " << (x < y) << (x > y) << (x <= y) << (x >= y) << " expected " << lt << gt << !gt << !lt);
    CHECK((y < x) == gt && (y > x) == lt, "order of " << name << " the other way round"); CHECK(!(x < x) && !(x > x) && x <= x && x >= x, name << " not equal to itself"); CHECK(Kind<F>::val(x) == a.v && Kind<F>::val(y) == b.v, name << ": value changed");
    F z = x; CHECK(!(z < x) && !(x < z) && Kind<F>::val(z) == a.v, name << ": a copy differs"); z = y; CHECK((z < x) == gt && (x < z) == lt && Kind<F>::val(z) == b.v, name << ": an assigned fitness differs");
    // individuals
    Ind<F> p, q; CHECK(p.invalid(), "a new individual is not invalid"); auto refused = [&](std::function<void()> f, const char* what) { bool thrown = false; try { f(); } catch (eoInvalidFitnessError&) { thrown = true; } CHECK(thrown, what << " of an unset " << name << " accepted"); };
    refused([&] { p.fitness(); }, "reading"); refused([&] { p.fitnessReference(); }, "reference"); q.fitness(y); refused([&] { (void)(p < q); }, "comparison"); refused([&] { (void)(q < p); }, "comparison"); refused([&] { (void)(p > q); }, "comparison"); refused([&] { (void)(q > p); }, "comparison");
    p.fitness(x); CHECK(!p.invalid() && Kind<F>::val(p.fitness()) == a.v && Kind<F>::val(p.fitnessReference()) == a.v, name << ": the individual does not carry its fitness"); CHECK((p < q) == lt && (p > q) == gt, "individuals compared against the order of " << name);
    Ind<F> c = p; CHECK(!c.invalid() && !(c < p) && !(p < c), "a copied individual differs"); c.invalidate(); CHECK(c.invalid() && !p.invalid(), "invalidate"); refused([&] { c.fitness(); }, "reading"); c.fitness(y); CHECK((c < p) == gt && (c > p) == lt, "individual evaluated again"); p.fitnessReference() = y; CHECK(Kind<F>::val(p.fitness()) == b.v, "fitness changed through its reference");
    g.nontrivial(lt || gt || a.feas != b.feas);
}
template <class F> void views(pbt::Gen& g, const char* name) {
    typedef Ind<F> I; g.note(name); g.label("fitness", name); unsigned n = g.size(0, 9); int span = g.oneof({2, 0, 1}); if (std::is_same<F, eoMinimizingFitnessT<int>>::value && !span) span = 3; eoPop<I> pop; for (unsigned i = 0; i < n; ++i) { I x; x.id = i; x.r = g.chance(1, 4) && i ? pop[g.draw(i - 1)].r : genRef(g, span); x.fitness(Kind<F>::make(x.r)); pop.push_back(x); g.note(' ').note(x.r.v).note(x.r.feas ? "f" : "i"); }
    const eoPop<I> orig = pop; const eoPop<I>& cp = pop;
    auto unaltered = [&](const I& x) { CHECK(x.id >= 0 && x.id < (int)n, "unknown individual"); CHECK(!x.invalid() && x.r.v == orig[x.id].r.v && Kind<F>::val(x.fitness()) == orig[x.id].r.v && x.r.feas == orig[x.id].r.feas, name << ": individual altered"); };
    auto whole = [&](const eoPop<I>& p, const char* what) { CHECK(p.size() == n, what << ": " << p.size() << " individuals instead of " << n); std::set<int> s; for (auto& x : p) { unaltered(x); s.insert(x.id); } CHECK(s.size() == n, what << ": an individual was lost or duplicated"); };
    auto same = [&](const char* what) { for (unsigned i = 0; i < n; ++i) CHECK(pop[i].id == orig[i].id, what << " reordered the population"); whole(pop, what); };
    auto sorted = [&](const std::vector<const I*>& v, const char* what) { for (size_t i = 1; i < v.size(); ++i) CHECK(!worse<F>(v[i - 1]->r, v[i]->r), what << " of " << name << ": position " << i << " is better than the one before"); };
    auto ptrs = [&](const std::vector<const I*>& v, const char* what) { CHECK(v.size() == n, what << ": " << v.size() << " pointers for " << n << " individuals"); std::set<const I*> s(v.begin(), v.end()); CHECK(s.size() == n, what << ": a pointer is repeated"); for (auto q : v) CHECK(q >= &pop[0] && q <= &pop[n - 1], what << ": pointer outside of the population"); };
    if (n == 0) { bool thrown = false; try { pop.best_element(); } catch (std::exception&) { thrown = true; } CHECK(thrown, "best of an empty population given"); }
    else {
        auto best = [&](const I& x) { for (auto& y : orig) if (worse<F>(x.r, y.r)) return false; return true; }; auto worst = [&](const I& x) { for (auto& y : orig) if (worse<F>(y.r, x.r)) return false; return true; };
        CHECK(best(cp.best_element()), "best_element of " << name << " is not the best"); CHECK(best(*pop.it_best_element()), "it_best_element of " << name << " is not the best"); CHECK(worst(cp.worse_element()), "worse_element of " << name << " is not the worst"); CHECK(worst(*pop.it_worse_element()), "it_worse_element of " << name << " is not the worst"); same("best or worst element");
    }
    std::vector<const I*> v; if (g.boolean()) v.resize(g.size(0, 12)); cp.sort(v); if (n) ptrs(v, "sorted view"); CHECK(v.size() == n, "sorted view of " << v.size()); sorted(v, "sorted view"); same("sorted view"); std::vector<Ref> rank; for (auto q : v) rank.push_back(q->r);
    auto tie = [&](const Ref& a, const Ref& b) { return !worse<F>(a, b) && !worse<F>(b, a); };
    if (n) { v.clear(); cp.shuffle(v); ptrs(v, "shuffled view"); same("shuffled view");
        unsigned k = g.draw(n - 1); CHECK(Kind<F>::val(cp.nth_element_fitness(k)) == rank[k].v, name << ": fitness of the element of rank " << k << " is " << Kind<F>::val(cp.nth_element_fitness(k)) << ", expected " << rank[k].v); v.clear(); cp.nth_element(k, v); ptrs(v, "view around a rank"); CHECK(tie(v[k]->r, rank[k]), name << ": view around rank " << k); for (unsigned i = 0; i < n; ++i) CHECK(i <= k ? !worse<F>(v[i]->r, v[k]->r) : !worse<F>(v[k]->r, v[i]->r), name << ": position " << i << " on the wrong side of rank " << k); same("view around a rank");
        eoPop<I> m = pop; auto it = m.nth_element(k); whole(m, "nth_element"); CHECK(it - m.begin() == (long)k && tie(it->r, rank[k]), name << ": nth_element " << k << " has value " << it->r.v << ", expected " << rank[k].v); for (unsigned i = 0; i < n; ++i) CHECK(i <= k ? !worse<F>(m[i].r, it->r) : !worse<F>(it->r, m[i].r), name << ": nth_element left position " << i << " on the wrong side");
        std::ostringstream o; cp.sortedPrintOn(o); std::istringstream is(o.str()); unsigned sz; is >> sz; CHECK(sz == n, "sorted print announces " << sz); for (unsigned i = 0; i < n; ++i) { int id = -1; is >> id; CHECK(id >= 0 && id < (int)n && tie(orig[id].r, rank[i]), "sorted print: position " << i << " is " << id); } same("sorted print"); }
    eoPop<I> s = pop; s.sort(); whole(s, "sort"); for (unsigned i = 0; i < n; ++i) CHECK(tie(s[i].r, rank[i]), name << ": sort puts " << s[i].r.v << " at rank " << i << ", expected " << rank[i].v);
    eoPop<I> sh = pop; sh.shuffle(); whole(sh, "shuffle"); eoPop<I> a = sh, b; b.push_back(n ? pop[0] : I()); b.push_back(n ? pop[0] : I()); int before = b[0].id; a.swap(b); CHECK(a.size() == 2 && a[0].id == before, "swap"); whole(b, "swap");
    struct Fill : eoInit<I> { int next = 100; void operator()(I& x) { x.id = next++; x.invalidate(); } } fill; unsigned more = g.size(0, 4); eoPop<I> ap = pop; ap.append(n + more, fill); CHECK(ap.size() == n + more, "append gives " << ap.size()); for (unsigned i = 0; i < n + more; ++i) CHECK(ap[i].id == (i < n ? orig[i].id : 100 + int(i - n)), "append: individual " << i << " is " << ap[i].id); if (n) { bool thrown = false; try { ap.append(n - 1, fill); } catch (std::exception&) { thrown = true; } CHECK(thrown && ap.size() == n + more, "append to a smaller size accepted"); }
    eoPop<I> made(more, fill); CHECK(made.size() == more, "population of " << made.size() << " built for " << more); for (unsigned i = 0; i < more; ++i) CHECK(made[i].id == 100 + int(more + i), "initialiser skipped or repeated");
    eoPop<I> inv = pop; static_cast<eoPop<I>&>(inv).invalidate(); for (auto& x : inv) CHECK(x.invalid(), "an individual stays valid after invalidating the population"); if (n > 1) { eoPop<I> one = pop; one[g.draw(n - 1)].invalidate(); int what = g.draw(4); bool thrown = false; try { std::vector<const I*> w; if (what == 0) one.best_element(); else if (what == 1) one.worse_element(); else if (what == 2) one.sort(); else if (what == 3) one.sort(w); else one.nth_element_fitness(0); } catch (eoInvalidFitnessError&) { thrown = true; } CHECK(thrown, "view " << what << " of a population with an unset fitness given"); }
    bool anyDiff = false; for (unsigned i = 1; i < n; ++i) anyDiff |= !tie(orig[i].r, orig[0].r); g.nontrivial(n > 1 && anyDiff);
}
#define KINDS(f) switch (g.draw(8)) { case 0: f<double>(g, "double"); break; case 1: f<eoMaximizingFitness>(g, "maximising fitness"); break; case 2: f<eoMinimizingFitness>(g, "minimising fitness"); break; case 3: f<eoMinimizingFitnessT<int>>(g, "integer minimising fitness"); break; case 4: f<eoMaximizingFitnessT<float>>(g, "single precision maximising fitness"); break; case 5: f<eoMaximizingDualFitness>(g, "maximising dual fitness"); break; case 6: f<eoMinimizingDualFitness>(g, "minimising dual fitness"); break; case 7: f<eoAssembledMaximizingFitness>(g, "assembled maximising fitness"); break; default: f<eoAssembledMinimizingFitness>(g, "assembled minimising fitness"); }
}
PBT(compare, 20000, 200000) { KINDS(comparison) }
PBT(population_views, 12000, 120000) { KINDS(views) }
namespace {
template <class F> void duals(pbt::Gen& g) {
    typedef Ind<F> I; Ref a = genRef(g, 3), b = g.chance(1, 3) ? a : genRef(g, 3); if (b.v == 0) b.v = 2; double k = g.oneof({2.0, 1.0, -3.0, 0.5}); F x(a.v, a.feas), y(b.v, b.feas);
    CHECK((x == y) == (a.v == b.v && a.feas == b.feas) && (x != y) == !(x == y), "equality of dual fitnesses"); CHECK(x.is_feasible() == a.feas && double(x) == a.v, "dual fitness read back");
    auto is = [&](const F& f, double v, bool feas, const char* what) { CHECK(pbt::near(f.value(), v) && f.is_feasible() == feas, what << ": " << f.value() << " feasible " << f.is_feasible() << ", expected " << v << " feasible " << feas); };
    is(x + k, a.v + k, a.feas, "sum with a number"); is(x - k, a.v - k, a.feas, "difference with a number"); is(x / k, a.v / k, a.feas, "quotient by a number"); is(x, a.v, a.feas, "operand after arithmetic with a number");
    is(x + y, a.v + b.v, a.feas && b.feas, "sum"); is(x - y, a.v - b.v, a.feas && b.feas, "difference"); is(x / y, a.v / b.v, a.feas && b.feas, "quotient"); is(x, a.v, a.feas, "left operand"); is(y, b.v, b.feas, "right operand");
    F z = x; z += k; is(z, a.v + k, a.feas, "+= number"); z = x; z -= k; is(z, a.v - k, a.feas, "-= number"); z = x; z /= k; is(z, a.v / k, a.feas, "/= number"); z = x; z += y; is(z, a.v + b.v, a.feas && b.feas, "+="); z = x; z -= y; is(z, a.v - b.v, a.feas && b.feas, "-="); z = x; z /= y; is(z, a.v / b.v, a.feas && b.feas, "/="); z = F(5.0); z.is_feasible(b.feas); is(z, 5, b.feas, "feasibility set afterwards");
    // splitting a population by feasibility, repeatedly with the same object
    eoDualPopSplit<I> split; eoFeasibleRatioStat<I> ratio; struct Cnt : eoStat<I, unsigned> { Cnt(std::string n) : eoStat<I, unsigned>(0, n) {} void operator()(const eoPop<I>& p) { this->value() = p.size(); } } cf("f"), cu("u"); std::string sep = g.boolean() ? " " : "/"; eoDualStatSwitch<Cnt> sw(cf, cu, sep); CHECK(sw.longName() == "f" + sep + "u", "name of the switched statistic: " << sw.longName());
    unsigned rounds = g.range(1, 3); bool mixed = false; for (unsigned t = 0; t < rounds; ++t) {
        eoPop<I> p; unsigned n = g.size(0, 6); int bias = g.draw(3); for (unsigned i = 0; i < n; ++i) { I q; q.id = i; q.r = genRef(g, 2); if (bias == 1) q.r.feas = true; if (bias == 2) q.r.feas = false; q.fitness(Kind<F>::make(q.r)); p.push_back(q); }
        std::vector<int> f, u; for (auto& q : p) (q.r.feas ? f : u).push_back(q.id); split(p); std::vector<int> gf, gu, gm; for (auto& q : split.feasible()) { gf.push_back(q.id); CHECK(eoIsFeasible(q), "eoIsFeasible of a feasible individual"); } for (auto& q : split.unfeasible()) { gu.push_back(q.id); CHECK(!eoIsFeasible(q), "eoIsFeasible of an infeasible individual"); } CHECK(gf == f && gu == u, "split: " << pbt::strv(gf) << " and " << pbt::strv(gu) << ", expected " << pbt::strv(f) << " and " << pbt::strv(u));
        for (auto& q : split.merge()) gm.push_back(q.id); auto w = f; w.insert(w.end(), u.begin(), u.end()); CHECK(gm == w, "merge of the split: " << pbt::strv(gm)); sw(p); std::string e = (f.empty() ? "?" : pbt::str(f.size())) + sep + (u.empty() ? "?" : pbt::str(u.size())); CHECK(sw.value() == e, "switched statistic '" << sw.value() << "', expected '" << e << "'");
        if (n) { ratio(p); CHECK_NEAR(ratio.value(), double(f.size()) / n, "ratio of feasible individuals"); } mixed |= !f.empty() && !u.empty(); }
    g.nontrivial(mixed); g.note("rounds ").note(rounds);
}
}
PBT(dual_fitness, 8000, 80000) { if (g.boolean()) duals<eoMaximizingDualFitness>(g); else duals<eoMinimizingDualFitness>(g); }
// value of an assembled fitness is its first term; the other terms and their descriptions follow the operations
PBT(assembled_fitness, 8000, 80000) {
    typedef eoAssembledMinimizingFitness F; typedef eoScalarFitnessAssembledTraits T; T::resize(0, ""); std::vector<double> v; std::vector<std::string> d; F f; bool fromN = g.boolean(); if (fromN) { unsigned n = g.size(0, 3); f = F(n, 1.5, "init"); v.assign(n, 1.5); d.assign(n, "init"); } else { f = F(2.5); v.push_back(2.5); }
    unsigned steps = g.size(0, 6); bool odd = false; for (unsigned s = 0; s < steps; ++s) { double x = g.range(-5, 5); std::string nm = "term" + pbt::str(s);
        switch (g.draw(4)) { case 0: f.push_back(x); v.push_back(x); if (v.size() > d.size()) d.resize(v.size(), "Unnamed variable"); break; case 1: f.push_back(x, nm); v.push_back(x); if (d.size() < v.size()) d.resize(v.size(), "Unnamed variable"); d[v.size() - 1] = nm; break; case 2: { unsigned n = g.size(0, 5); f.resize(n, x, nm); v.resize(n, x); d.resize(n, nm); odd = true; break; } case 3: f = x; if (v.empty()) { v.push_back(x); if (d.size() < 1) d.resize(1, "Unnamed variable"); } else v[0] = x; break; default: { unsigned i = g.size(0, 5); f.setDescription(i, nm); if (d.size() <= i) d.resize(i + 1, "Unnamed variable"); d[i] = nm; odd = true; } }
        CHECK(std::vector<double>(f) == v, "terms " << pbt::strv(std::vector<double>(f)) << ", expected " << pbt::strv(v)); CHECK(double(f) == (v.empty() ? 0.0 : v[0]), "value of the assembled fitness"); CHECK(f.getDescriptionVector() == d && T::size() == d.size(), "descriptions " << pbt::strv(f.getDescriptionVector()) << ", expected " << pbt::strv(d)); for (size_t i = 0; i < d.size(); ++i) CHECK(f.getDescription(i) == d[i], "description " << i); CHECK(f.getDescription(d.size() + 2) == "Unnamed Variable", "description of a term which does not exist"); }
    F c = f; f.feasible = false; f.failed = true; f.msg = "m"; F e; e = f; CHECK(!e.feasible && e.failed && e.msg == "m" && c.feasible && !c.failed && std::vector<double>(e) == v, "copied assembled fitness"); F def; CHECK(def.size() == T::size() && def.feasible && !def.failed, "default assembled fitness has " << def.size() << " terms"); std::ostringstream o; if (d.size() >= v.size()) { f.printAll(o); std::ostringstream w; for (size_t i = 0; i < v.size(); ++i) w << d[i] << " = " << v[i] << " "; CHECK(o.str() == w.str(), "printed terms '" << o.str() << "', expected '" << w.str() << "'"); }
    F empty; empty.clear(); if (!v.empty()) CHECK(!(empty < f) && !(f < empty), "comparison with an empty fitness"); if (!v.empty()) { CHECK((f < v[0] + 1) == false && (f < v[0] - 1) == true && !(f < v[0]), "comparison with a number"); } T::resize(0, ""); g.nontrivial(steps > 1 && odd); g.note("terms ").note(v.size());
}
PBT(direction, 50, 50) {
    CHECK(!minimizing_fitness<Ind<double>>() && !minimizing_fitness<Ind<eoMaximizingFitness>>() && minimizing_fitness<Ind<eoMinimizingFitness>>() && minimizing_fitness<Ind<eoMinimizingFitnessT<int>>>() && minimizing_fitness<Ind<eoMinimizingFitnessT<float>>>() && !minimizing_fitness<Ind<eoMaximizingFitnessT<float>>>() && minimizing_fitness<Ind<eoAssembledMinimizingFitness>>() && !minimizing_fitness<Ind<eoAssembledMaximizingFitness>>(), "direction of a fitness type");
    g.nontrivial(g.boolean());
}

// the same with larger sizes
PBT_LARGE(compare, 60, 600, 10)
PBT_LARGE(population_views, 60, 600, 10)
PBT_LARGE(dual_fitness, 60, 600, 10)
PBT_LARGE(assembled_fitness, 60, 600, 10)
PBT_LARGE(direction, 10, 100, 10)
