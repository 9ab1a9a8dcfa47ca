// Deferred construction: forges, foundries and the algorithms they assemble.
#include "loop_support.hpp"
#include <eoForge.h>
#include <eoAlgoFoundry.h>
#include <eoAlgoFoundryEA.h>
#include <eoAlgoFoundryFastGA.h>
#include <eoEvalFoundryEA.h>
using namespace sup;
typedef eoBit<double> B;

// products that tell what they were built from
struct Prod { int kind = 0, a = 0; double b = 0; int* link = nullptr; int state = 0; static int alive; Prod() { ++alive; } Prod(const Prod& o) : kind(o.kind), a(o.a), b(o.b), link(o.link), state(o.state) { ++alive; } virtual ~Prod() { --alive; } };
int Prod::alive = 0;
struct P0 : Prod { P0() { kind = 0; } };
struct P1 : Prod { P1(int x) { kind = 1; a = x; } };
struct P2 : Prod { P2(int x, double y) { kind = 2; a = x; b = y; } };
struct P3 : Prod { P3(int& r) { kind = 3; link = &r; } };
struct Want { int kind, a; double b; Prod* cached = nullptr; std::shared_ptr<Prod> cachedPtr; int state = 0, pstate = 0; };
static int shared_ = 0;
static void checkProd(const Prod& p, const Want& w, const char* how) {
    CHECK(p.kind == w.kind, how << ": built class " << p.kind << " instead of " << w.kind);
    if (w.kind == 1 || w.kind == 2) CHECK(p.a == w.a, how << ": argument " << p.a << " instead of " << w.a);
    if (w.kind == 2) CHECK(p.b == w.b, how << ": second argument " << p.b << " instead of " << w.b);
    if (w.kind == 3) CHECK(p.link == &shared_, how << ": a referenced argument was copied");
}
template <class F, class K> static void put(F& f, K key, bool adding, const Want& w) {
    if constexpr (std::is_same<K, std::string>::value) {
        if (adding) { if (w.kind == 0) f.template add<P0>(key); if (w.kind == 1) f.template add<P1>(key, w.a); if (w.kind == 2) f.template add<P2>(key, w.a, w.b); if (w.kind == 3) f.template add<P3>(key, std::ref(shared_)); }
        else { if (w.kind == 0) f.template setup<P0>(key); if (w.kind == 1) f.template setup<P1>(key, w.a); if (w.kind == 2) f.template setup<P2>(key, w.a, w.b); if (w.kind == 3) f.template setup<P3>(key, std::ref(shared_)); }
    } else {
        if (adding) { if (w.kind == 0) f.template add<P0>(); if (w.kind == 1) f.template add<P1>(w.a); if (w.kind == 2) f.template add<P2>(w.a, w.b); if (w.kind == 3) f.template add<P3>(std::ref(shared_)); }
        else { if (w.kind == 0) f.template setup<P0>(key); if (w.kind == 1) f.template setup<P1>(key, w.a); if (w.kind == 2) f.template setup<P2>(key, w.a, w.b); if (w.kind == 3) f.template setup<P3>(key, std::ref(shared_)); }
    }
}
static Want genWant(pbt::Gen& g) { Want w; w.kind = g.range(0, 3); w.a = g.range(-9, 9); w.b = g.range(-9, 9) / 2.0; return w; }

template <class F, class K> static void forge(pbt::Gen& g, std::function<K(size_t)> key) {
    Silence quiet; int before = Prod::alive;
    {
        bool fresh = g.boolean(); F f(fresh); std::vector<Want> model; std::vector<std::shared_ptr<Prod>> held; std::vector<Want> heldWant;
        for (unsigned s = 0, m = g.range(2, 14); s < m; ++s) {
            int op = model.empty() ? 0 : g.range(0, 4);
            if (op == 0) { Want w = genWant(g); put(f, key(model.size()), true, w); model.push_back(w); }
            else {
                size_t i = g.draw(model.size() - 1); Want& w = model[i];
                if (op == 1) { w = genWant(g); put(f, key(i), false, w); g.nontrivial(true); }
                else if (op == 2 || std::is_same<K, std::string>::value) {
                    Prod& p = f.instantiate(key(i)); checkProd(p, w, "instantiate");
                    if (fresh || !w.cached) { CHECK(p.state == 0, "a new instance remembers the past"); w.state = 0; } else { CHECK(&p == w.cached, "the cached instance was not returned"); CHECK(p.state == w.state, "the cached instance lost its state"); }
                    w.cached = &p; p.state = ++w.state;
                } else if constexpr (!std::is_same<K, std::string>::value) {
                    std::shared_ptr<Prod> p = op == 3 ? f.instantiate_ptr(i) : f.instantiate_ptr_from(double(i)); CHECK(p != nullptr, "instantiate_ptr returned nothing"); checkProd(*p, w, "instantiate_ptr");
                    if (fresh || !w.cachedPtr) CHECK(p->state == 0, "a new pointed instance remembers the past"); else CHECK(p == w.cachedPtr, "the cached pointed instance was not returned");
                    w.cachedPtr = p; p->state = 1; held.push_back(p); heldWant.push_back(w);
                }
            }
            CHECK(f.size() == model.size(), "size " << f.size() << " after " << model.size() << " additions");
            if constexpr (!std::is_same<K, std::string>::value) if (!model.empty()) { size_t i = g.draw(model.size() - 1); if (fresh) { Prod& p = f.instantiate_from(double(i)); checkProd(p, model[i], "instantiate_from"); model[i].cached = &p; } }
        }
        for (size_t i = 0; i < held.size(); ++i) checkProd(*held[i], heldWant[i], "a shared instance kept aside"); // survives later operations
    }
    CHECK(Prod::alive == before, Prod::alive - before << " instances were not destroyed");
}
PBT(vectors, 2000, 20000) { forge<eoForgeVector<Prod>, size_t>(g, [](size_t i) { return i; }); }
PBT(maps, 1000, 10000) { forge<eoForgeMap<Prod>, std::string>(g, [](size_t i) { return "op" + std::to_string(i * 7 % 5) + "-" + std::to_string(i); }); }

PBT(scalars, 500, 5000) {
    Silence quiet; double lo = g.range(-5, 5), hi = lo + g.range(0, 8); eoForgeScalar<double> f(lo, hi); eoParameterFoundry<double> pf(g.range(0, 5), lo, hi); eoForgeScalar<size_t> u(0, 9);
    for (unsigned s = 0, m = g.range(1, 6); s < m; ++s) {
        if (g.chance(1, 4)) { lo = g.range(-5, 5); hi = lo + g.range(0, 8); f.setup(lo, hi); pf.setup(lo, hi); } if (g.chance(1, 6)) { hi += 1; f.max(hi); pf.max(hi); } if (g.chance(1, 6)) { lo -= 1; f.min(lo); pf.min(lo); }
        CHECK(f.min() == lo && f.max() == hi && pf.min() == lo && pf.max() == hi, "bounds of a scalar forge");
        double v = lo + (hi - lo) * g.range(0, 8) / 8.0; CHECK(f.instantiate(v) == v && pf.instantiate(v) == v, "a value in range is changed"); size_t k = g.range(0, 9); CHECK(u.instantiate(k) == k, "an integer value is changed");
        g.nontrivial(hi > lo);
    }
}

// operators that report to a shared journal which one of them was used
struct Journal { std::map<std::string, unsigned long> n; };
template <int K> struct JCross : CountCross<B> { Journal& j; int p; JCross(Journal& j_, int p_) : j(j_), p(p_) {} bool operator()(B& a, B& b) override { ++j.n["cross" + std::to_string(p)]; return CountCross<B>::operator()(a, b); } std::string className() const override { return "JCross"; } };
struct JMut : CountMut<B> { Journal& j; int p; JMut(Journal& j_, int p_) : j(j_), p(p_) {} bool operator()(B& a) override { ++j.n["mut" + std::to_string(p)]; return CountMut<B>::operator()(a); } std::string className() const override { return "JMut"; } };
struct JSel : eoSelectOne<B> { Journal& j; std::string p; JSel(Journal& j_, std::string p_) : j(j_), p(p_) {} const B& operator()(const eoPop<B>& q) override { checkEvaluated(q, "selection"); ++j.n["sel" + p]; return q[eo::rng.random(q.size())]; } std::string className() const override { return "JSel"; } };
struct JRep : eoReplacement<B> { Journal& j; int p; size_t* lambda; JRep(Journal& j_, int p_, size_t* l) : j(j_), p(p_), lambda(l) {} void operator()(eoPop<B>& a, eoPop<B>& o) override { ++j.n["rep" + std::to_string(p)]; *lambda = o.size(); checkEvaluated(o, "offspring"); eoPlusReplacement<B> r; r(a, o); } std::string className() const override { return "JRep"; } };
struct JCont : eoContinue<B> { Journal& j; int p; unsigned long stop, calls = 0; JCont(Journal& j_, int p_, unsigned long s) : j(j_), p(p_), stop(s) {} bool operator()(const eoPop<B>& q) override { checkEvaluated(q, "continuator"); ++j.n["cont" + std::to_string(p)]; return ++calls < stop; } std::string className() const override { return "JCont"; } };
static void only(const Journal& j, const std::string& prefix, const std::string& chosen) { for (auto& kv : j.n) if (kv.first.compare(0, prefix.size(), prefix) == 0) CHECK(kv.first == chosen, kv.first << " was used although " << chosen << " was selected"); }
static unsigned long used(const Journal& j, const std::string& k) { auto i = j.n.find(k); return i == j.n.end() ? 0 : i->second; }

PBT(assembled_ea, 600, 6000) {
    Silence quiet; Journal j; size_t lam = 0; BitEval<B> ev; eoPopLoopEval<B> pe(ev); unsigned long maxGen = g.range(1, 5);
    eoAlgoFoundryEA<B> f(pe, maxGen); std::vector<unsigned long> stops; size_t nc = g.size(1, 3), nx = g.size(1, 3), nm = g.size(1, 3), ns = g.size(1, 3), nr = g.size(1, 3);
    for (size_t i = 0; i < nc; ++i) { stops.push_back(g.range(1, 6)); f.continuators.add<JCont>(std::ref(j), int(i), stops[i]); }
    for (size_t i = 0; i < nx; ++i) f.crossovers.add<JCross<0>>(std::ref(j), int(i)); for (size_t i = 0; i < nm; ++i) f.mutations.add<JMut>(std::ref(j), int(i)); for (size_t i = 0; i < ns; ++i) f.selectors.add<JSel>(std::ref(j), std::to_string(i)); for (size_t i = 0; i < nr; ++i) f.replacements.add<JRep>(std::ref(j), int(i), &lam);
    CHECK(f.size() == 5, "number of slots");
    for (unsigned run = 0, R = g.range(1, 3); run < R; ++run) {
        size_t c = g.draw(nc - 1), x = g.draw(nx - 1), m = g.draw(nm - 1), s = g.draw(ns - 1), r = g.draw(nr - 1); size_t n = 2 * g.size(1, 3);
        f.select({c, x, m, s, r}); j.n.clear(); eoPop<B> pop = bitPop<B>(g, n, g.size(1, 5), true); double b0 = bestFit(pop); f(pop);
        unsigned long G = std::min(maxGen, stops[c]);
        only(j, "cont", "cont" + std::to_string(c)); only(j, "cross", "cross" + std::to_string(x)); only(j, "mut", "mut" + std::to_string(m)); only(j, "sel", "sel" + std::to_string(s)); only(j, "rep", "rep" + std::to_string(r));
        CHECK(used(j, "rep" + std::to_string(r)) == G, "ran " << used(j, "rep" + std::to_string(r)) << " generations instead of " << G); CHECK(used(j, "cross" + std::to_string(x)) == G * n / 2 && used(j, "mut" + std::to_string(m)) == G * n, "every pair is crossed and every offspring mutated: " << used(j, "cross" + std::to_string(x)) << " and " << used(j, "mut" + std::to_string(m)) << " for " << G << " generations of " << n);
        CHECK(pop.size() == n, "population size"); checkEvaluated(pop, "result"); CHECK(bestFit(pop) >= b0, "the elitist replacement lost the best");
        std::string nm_ = f.name(); std::ostringstream want; want << "JCont [" << c << "] + JCross [" << x << "] + JMut [" << m << "] + JSel [" << s << "] + JRep [" << r << "]"; CHECK(nm_ == want.str(), "name() is '" << nm_ << "' expected '" << want.str() << "'");
    }
    g.nontrivial(nc + nx + nm + ns + nr > 5);
}

PBT(assembled_fastga, 600, 6000) {
    Silence quiet; Journal j; size_t lam = 0; BitEval<B> ev; eoBooleanGenerator bg(0.5); eoInitFixedLength<B> init(4, bg); bool tight = g.boolean(); size_t maxEv = tight ? g.size(1, 12) : 1000000;
    eoAlgoFoundryFastGA<B> f(init, ev, maxEv); std::vector<unsigned long> stops; size_t nc = g.size(1, 3), nx = g.size(1, 3), nm = g.size(1, 3), n1 = g.size(1, 3), n2 = g.size(1, 3), n3 = g.size(1, 3), nr = g.size(1, 3);
    for (size_t i = 0; i < nc; ++i) { stops.push_back(g.range(1, 6)); f.continuators.add<JCont>(std::ref(j), int(i), stops[i]); }
    for (size_t i = 0; i < nx; ++i) f.crossovers.add<JCross<0>>(std::ref(j), int(i)); for (size_t i = 0; i < nm; ++i) f.mutations.add<JMut>(std::ref(j), int(i)); for (size_t i = 0; i < nr; ++i) f.replacements.add<JRep>(std::ref(j), int(i), &lam);
    for (size_t i = 0; i < n1; ++i) f.crossover_selectors.add<JSel>(std::ref(j), "X" + std::to_string(i)); for (size_t i = 0; i < n2; ++i) f.aftercross_selectors.add<JSel>(std::ref(j), "A" + std::to_string(i)); for (size_t i = 0; i < n3; ++i) f.mutation_selectors.add<JSel>(std::ref(j), "M" + std::to_string(i));
    for (unsigned run = 0, R = g.range(1, 3); run < R; ++run) {
        size_t c = g.draw(nc - 1), x = g.draw(nx - 1), m = g.draw(nm - 1), a = g.draw(n1 - 1), b = g.draw(n2 - 1), d = g.draw(n3 - 1), r = g.draw(nr - 1), n = g.size(1, 5), off = g.size(0, 5); double pc = g.oneof({0.0, 0.5, 1.0}), pm = g.oneof({0.0, 0.5, 1.0});
        f.select({pc, a, x, b, pm, d, m, r, c, off}); j.n.clear(); ev.done = 0; eoPop<B> pop = bitPop<B>(g, n, 4, true); size_t lambda = off ? off : n; f(pop);
        auto S = [](const char* p, size_t i) { return p + std::to_string(i); };
        only(j, "cont", S("cont", c)); only(j, "cross", S("cross", x)); only(j, "mut", S("mut", m)); only(j, "selX", S("selX", a)); only(j, "selA", S("selA", b)); only(j, "selM", S("selM", d)); only(j, "rep", S("rep", r));
        CHECK(ev.done <= maxEv, ev.done << " evaluations, " << maxEv << " allowed"); unsigned long G = used(j, S("rep", r)), cr = used(j, S("cross", x)), mu = used(j, S("mut", m));
        if (G < stops[c]) CHECK(ev.done == maxEv, "stopped after " << G << " of " << stops[c] << " generations and " << ev.done << " of " << maxEv << " evaluations"); else { CHECK(G == stops[c], "ran " << G << " generations instead of " << stops[c]); CHECK(lam == lambda, lam << " offspring instead of " << lambda); }
        if (ev.done < maxEv) { if (pc == 0) CHECK(cr == 0 && mu == G * lambda, "crossovers " << cr << " mutations " << mu << " at crossover rate 0"); if (pc == 1) CHECK(cr == G * lambda, "crossovers " << cr << " at crossover rate 1"); if (pm == 1) CHECK(mu == G * lambda, "mutations " << mu << " at mutation rate 1"); if (pc == 1 && pm == 0) CHECK(mu == 0, "mutations at rate 0"); }
        CHECK(used(j, S("selX", a)) == 2 * cr, "parents selected for crossover"); CHECK(used(j, S("selM", d)) + used(j, S("selA", b)) <= cr + mu, "selections");
        CHECK(pop.size() == n, "population size"); checkEvaluated(pop, "result");
    }
    g.nontrivial(nc + nx + nm + n1 + n2 + n3 + nr > 7);
}

typedef eoReal<double> Enc;
PBT(evaluated_foundry, 400, 4000) {
    Silence quiet; Journal j; size_t lam = 0; BitEval<B> ev; eoPopLoopEval<B> pe(ev); eoBooleanGenerator bg(0.5); eoInitFixedLength<B> init(4, bg); eoAlgoFoundryEA<B> f(pe, 3);
    size_t n[5]; for (auto& k : n) k = g.size(1, 3); for (size_t i = 0; i < n[0]; ++i) f.continuators.add<JCont>(std::ref(j), int(i), 2ul); for (size_t i = 0; i < n[1]; ++i) f.crossovers.add<JCross<0>>(std::ref(j), int(i)); for (size_t i = 0; i < n[2]; ++i) f.mutations.add<JMut>(std::ref(j), int(i)); for (size_t i = 0; i < n[3]; ++i) f.selectors.add<JSel>(std::ref(j), std::to_string(i)); for (size_t i = 0; i < n[4]; ++i) f.replacements.add<JRep>(std::ref(j), int(i), &lam);
    eoEvalFoundryEA<Enc, B> e(f, init, 2 * g.size(1, 3), pe, -1000); Enc x(5); bool in = true; size_t k[5];
    for (int i = 0; i < 5; ++i) { k[i] = g.draw(n[i]); if (g.chance(2, 3)) k[i] = std::min(k[i], n[i] - 1); in = in && k[i] < n[i]; x[i] = k[i]; }
    bool known = g.chance(1, 8); if (known) x.fitness(77); else x.invalidate(); e(x);
    CHECK(!x.invalid(), "not evaluated"); if (known) { CHECK((double)x.fitness() == 77 && j.n.empty(), "an evaluated encoding was run again"); return; }
    if (!in) { CHECK((double)x.fitness() == -1000 && j.n.empty(), "an encoding out of range was not penalised"); return; }
    only(j, "cont", "cont" + std::to_string(k[0])); only(j, "cross", "cross" + std::to_string(k[1])); only(j, "mut", "mut" + std::to_string(k[2])); only(j, "sel", "sel" + std::to_string(k[3])); only(j, "rep", "rep" + std::to_string(k[4]));
    CHECK(used(j, "rep" + std::to_string(k[4])) == 2, "generations"); CHECK((double)x.fitness() > -1000 && (double)x.fitness() <= 8, "the fitness of an algorithm is the best value it found");
    g.nontrivial(true);
}
