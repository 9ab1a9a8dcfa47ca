// Evolution loops, watched from their components: breeding, evaluation, replacement, continuation.
#include "loop_support.hpp"
#include <eoEasyEA.h>
#include <eoSGA.h>
#include <eoFastGA.h>
#include <eoAlgoRestart.h>
#include <eoCellularEasyEA.h>
using namespace sup;
typedef eoBit<double> BMax; typedef eoBit<eoMinimizingFitness> BMin;

template <class I> struct Log { unsigned long breeds = 0, popEvals = 0, replaces = 0, invalid = 0; size_t lambda = 0; };
// every component checks what it is given
template <class I> struct LogBreed : eoBreed<I> {
    Log<I>& l; eoBreed<I>& b; LogBreed(Log<I>& l_, eoBreed<I>& b_) : l(l_), b(b_) {}
    void operator()(const eoPop<I>& p, eoPop<I>& o) override { checkEvaluated(p, "parents given to breeding"); CHECK(l.breeds == l.replaces, "bred twice before a replacement"); ++l.breeds; b(p, o); l.lambda = o.size(); for (auto& x : o) l.invalid += x.invalid(); }
};
template <class I> struct LogReplace : eoReplacement<I> {
    Log<I>& l; eoReplacement<I>& r; LogReplace(Log<I>& l_, eoReplacement<I>& r_) : l(l_), r(r_) {}
    void operator()(eoPop<I>& p, eoPop<I>& o) override { checkEvaluated(p, "parents given to replacement"); checkEvaluated(o, "offspring given to replacement"); CHECK(o.size() == l.lambda, "replacement is given " << o.size() << " offspring, " << l.lambda << " were bred"); ++l.replaces; r(p, o); }
};
template <class I> struct LogPopEval : eoPopEvalFunc<I> {
    Log<I>& l; eoEvalFunc<I>& e; LogPopEval(Log<I>& l_, eoEvalFunc<I>& e_) : l(l_), e(e_) {}
    void operator()(eoPop<I>&, eoPop<I>& o) override { ++l.popEvals; for (auto& x : o) e(x); }
};
template <class I> struct LogSelect : eoSelect<I> {
    Log<I>& l; eoSelect<I>& s; LogSelect(Log<I>& l_, eoSelect<I>& s_) : l(l_), s(s_) {}
    void operator()(const eoPop<I>& p, eoPop<I>& o) override { checkEvaluated(p, "parents given to selection"); ++l.breeds; s(p, o); }
};
template <class I> struct LogTransform : eoTransform<I> {
    Log<I>& l; eoTransform<I>& t; LogTransform(Log<I>& l_, eoTransform<I>& t_) : l(l_), t(t_) {}
    void operator()(eoPop<I>& o) override { t(o); l.lambda = o.size(); for (auto& x : o) l.invalid += x.invalid(); }
};

template <class I> struct LogMerge : eoMerge<I> {
    Log<I>& l; eoPlus<I> m; LogMerge(Log<I>& l_) : l(l_) {}
    void operator()(const eoPop<I>& p, eoPop<I>& o) override { checkEvaluated(p, "parents given to merging"); checkEvaluated(o, "offspring given to merging"); ++l.replaces; m(p, o); }
};

template <class I> static void easy(pbt::Gen& g) {
    Silence quiet;
    size_t len = g.size(1, 6);
    BitEval<I> ev; Log<I> l; CountMut<I> mu; CountCross<I> cr;
    double pc = g.oneof({0.0, 0.5, 1.0}), pm = g.oneof({0.0, 0.5, 1.0});
    eoDetTournamentSelect<I> tour(g.range(1, 3));
    // offspring counts
    int ctor = g.range(0, 7);
    bool merging = ctor == 5 || ctor == 7;
    unsigned lambda = g.range(1, 10);
    eoSGATransform<I> tr(cr, pc, mu, pm);
    eoSelectNumber<I> sel(tour, lambda);
    eoSelectTransform<I> br(sel, tr);
    LogBreed<I> breed(l, br); LogSelect<I> lsel(l, sel); LogTransform<I> ltr(l, tr); LogPopEval<I> pe(l, ev);
    // replacements that never shrink or grow, whatever lambda is
    eoPlusReplacement<I> plus; eoGenerationalReplacement<I> gen; eoSSGAWorseReplacement<I> ssga; eoWeakElitistReplacement<I> weak(plus);
    eoCommaReplacement<I> comma; eoWeakElitistReplacement<I> weakc(comma);
    size_t n = g.size(1, 7);
    int rk = merging ? 0 : g.range(0, 4);
    if (rk == 1 && lambda != n) rk = 0;
    if ((rk == 3 || rk == 4) && lambda < n) rk = 2;
    if (rk == 2 && lambda > n) rk = 0;
    eoReplacement<I>* base = rk == 0 ? (eoReplacement<I>*)&plus : rk == 1 ? (eoReplacement<I>*)&gen : rk == 2 ? (eoReplacement<I>*)&ssga : rk == 3 ? (eoReplacement<I>*)&comma : (eoReplacement<I>*)&weakc;
    bool elitist = rk == 0 || rk == 4 || (rk == 2 && n > lambda) ;
    LogReplace<I> rep(l, *base);
    LogMerge<I> mplus(l); eoTruncate<I> trunc;
    unsigned long G = 1;
    Watch<I> w(n, 1, elitist);
    std::unique_ptr<eoEasyEA<I>> ea;
    switch (ctor) {
        case 0: ea.reset(new eoEasyEA<I>(w, ev, breed, rep)); break;
        case 1: ea.reset(new eoEasyEA<I>(w, ev, breed, rep, (unsigned)g.range(0, 12))); break;
        case 2: ea.reset(new eoEasyEA<I>(w, ev, pe, breed, rep, (unsigned)g.range(0, 12))); break;
        case 3: ea.reset(new eoEasyEA<I>(w, pe, breed, rep)); break;
        case 4: ea.reset(new eoEasyEA<I>(w, pe, lsel, ltr, rep)); break;
        case 5: ea.reset(new eoEasyEA<I>(w, ev, breed, mplus, trunc)); break;
        case 6: ea.reset(new eoEasyEA<I>(w, ev, lsel, ltr, rep)); break;
        case 7: ea.reset(new eoEasyEA<I>(w, ev, lsel, ltr, mplus, trunc)); break;
    }
    g.label("constructor", ctor);
    // the same object runs on several populations
    for (unsigned run = 0, R = g.range(1, 3); run < R; ++run) {
        if (rk != 1 && run) { size_t m = g.size(1, 7); if ((rk == 0 || merging) || (rk == 2 && m > lambda) || ((rk == 3 || rk == 4) && m <= lambda)) n = m; }
        G = g.range(1, 5);
        bool pre = g.boolean(); unsigned long stale = 0;
        eoPop<I> pop = bitPop<I>(g, n, len, pre); if (!pre) stale = n;
        ev.done = 0; l.invalid = l.breeds = l.replaces = l.popEvals = 0; w.size = n; w.stop = G; w.calls = 0; w.known = false;
        if (pre) { w.best = bestFit(pop); w.known = true; }
        (*ea)(pop);
        CHECK(w.calls == G, "continuator asked " << w.calls << " times, it said stop at " << G);
        CHECK(samePop(pop, w.last), "the returned population is not the one of the last generation");
        CHECK(l.breeds == G, "bred " << l.breeds << " times in " << G << " generations");
        CHECK(l.replaces == G, "replaced " << l.replaces << " times in " << G << " generations");
        CHECK(ev.done == stale + l.invalid, ev.done << " evaluations for " << stale << " unevaluated parents and " << l.invalid << " modified offspring");
        if (ctor == 2 || ctor == 3 || ctor == 4) CHECK(l.popEvals == G + 1, "population evaluation called " << l.popEvals << " times in " << G << " generations");
        g.nontrivial(G > 1 && n > 1 && l.invalid > 0);
    }
}
PBT(easy_ea, 6000, 60000) { if (g.boolean()) easy<BMax>(g); else easy<BMin>(g); }

// a replacement that changes the population size is reported
template <class I> struct Resize : eoReplacement<I> {
    int by; unsigned at, calls = 0; void operator()(eoPop<I>& p, eoPop<I>& o) override { if (++calls != at) return; if (by < 0) p.resize(p.size() + by); else for (int k = 0; k < by; ++k) p.push_back(o[0]); }
};
PBT(size_change, 100, 1000) {
    Silence quiet; typedef BMax I;
    BitEval<I> ev; CountMut<I> mu; CountCross<I> cr; eoSGATransform<I> tr(cr, 0.5, mu, 0.5); eoDetTournamentSelect<I> t(2); eoSelectNumber<I> sel(t, 4); eoSelectTransform<I> br(sel, tr);
    size_t n = g.size(2, 6); Resize<I> r; r.by = g.boolean() ? g.range(1, 3) : -g.range(1, (int)n - 1); r.at = g.range(1, 4);
    Watch<I> w(n, 6, false); eoEasyEA<I> ea(w, ev, br, r);
    eoPop<I> pop = bitPop<I>(g, n, 4, g.boolean()); bool thrown = false;
    try { ea(pop); } catch (std::exception& e) { thrown = true; }
    CHECK(thrown, "a population of " << n << " changed by " << r.by << " was accepted");
    CHECK(w.calls == r.at - 1, "the continuator was asked " << w.calls << " times before the change at generation " << r.at);
    g.nontrivial(true);
}

template <class I> static void sga(pbt::Gen& g) {
    Silence quiet;
    size_t n = g.size(0, 8), len = g.size(1, 6); double pc = g.oneof({0.0, 0.3, 1.0}), pm = g.oneof({0.0, 0.3, 1.0});
    BitEval<I> ev; CountMut<I> mu; CountCross<I> cr; eoDetTournamentSelect<I> tour(g.range(1, 3));
    if (n == 0) n = 1;
    Watch<I> w(n, 1, false); eoSGA<I> algo(tour, cr, pc, mu, pm, ev, w);
    for (unsigned run = 0, R = g.range(1, 2); run < R; ++run) {
        unsigned long G = g.range(1, 5); if (run) n = g.size(1, 8);
        eoPop<I> pop = bitPop<I>(g, n, len, true), start = pop; w.size = n; w.stop = G; w.calls = 0; ev.done = mu.calls = cr.calls = 0;
        std::set<std::vector<bool>> known; 
        algo(pop);
        CHECK(w.calls == G, "continuator asked " << w.calls << " times instead of " << G);
        CHECK(samePop(pop, w.last), "the returned population is not the one of the last generation");
        CHECK(ev.done <= G * n, "too many evaluations");
        if (pc == 0) CHECK(cr.calls == 0, "crossover called at rate 0"); if (pc == 1) CHECK(cr.calls == G * (n / 2), "crossover called " << cr.calls << " times for " << G << " generations of " << n << " at rate 1");
        CHECK(cr.calls <= G * (n / 2), "too many crossovers");
        if (pm == 0) CHECK(mu.calls == 0, "mutation called at rate 0"); if (pm == 1) CHECK(mu.calls == G * n, "mutation called " << mu.calls << " times for " << G << " generations of " << n << " at rate 1");
        if (pc == 0 && pm == 0) { CHECK(ev.done == 0, "evaluations without any variation"); for (auto& x : pop) { bool in = false; for (auto& y : start) in = in || std::equal(x.begin(), x.end(), y.begin()); CHECK(in, "an individual that was not there appeared without variation"); } }
        g.nontrivial(G > 1 && n > 1 && ev.done > 0);
    }
}
PBT(simple_ga, 4000, 40000) { if (g.boolean()) sga<BMax>(g); else sga<BMin>(g); }

// each offspring takes part in at most one crossover, and only the crossed or mutated ones are evaluated again
template <class I> struct ToggleCross : eoQuadOp<I> { unsigned long calls = 0; bool operator()(I& a, I& b) override { ++calls; a[0] = !a[0]; b[0] = !b[0]; return true; } };
template <class I> struct ToggleMut : eoMonOp<I> { unsigned long calls = 0; bool operator()(I& a) override { ++calls; a[1] = !a[1]; return true; } };
template <class I> static void sgaPairs(pbt::Gen& g) {
    Silence quiet;
    size_t n = g.size(1, 11); double pc = g.oneof({0.0, 0.5, 1.0}), pm = g.oneof({0.0, 0.0, 0.5, 1.0});
    BitEval<I> ev; ToggleMut<I> mu; ToggleCross<I> cr; eoDetTournamentSelect<I> tour(g.range(1, 3));
    Watch<I> w(n, 1, false); eoSGA<I> algo(tour, cr, pc, mu, pm, ev, w);
    eoPop<I> pop; for (size_t i = 0; i < n; ++i) { I x(3, false); x.fitness(truth(x)); pop.push_back(x); }
    algo(pop);
    unsigned long crossed = 0, mutated = 0, changed = 0; for (auto& x : pop) { crossed += x[0]; mutated += x[1]; changed += x[0] || x[1]; }
    CHECK(crossed == 2 * cr.calls, cr.calls << " crossovers changed " << crossed << " of " << n << " offspring");
    CHECK(mutated == mu.calls, mu.calls << " mutations changed " << mutated << " of " << n << " offspring");
    CHECK(ev.done == changed, ev.done << " evaluations of " << changed << " changed offspring");
    if (pc == 1) CHECK(cr.calls == n / 2, cr.calls << " crossovers among " << n); if (pm == 1) CHECK(mu.calls == n, mu.calls << " mutations of " << n);
    g.nontrivial(changed > 0 && n > 2);
}
PBT(simple_ga_pairs, 2000, 20000) { if (g.boolean()) sgaPairs<BMax>(g); else sgaPairs<BMin>(g); }

template <class I> static void fast(pbt::Gen& g) {
    Silence quiet;
    size_t n = g.size(1, 7), len = g.size(1, 6); double pc = g.oneof({0.0, 0.4, 1.0}), pm = g.oneof({0.0, 0.4, 1.0});
    BitEval<I> ev; Log<I> l; LogPopEval<I> pe(l, ev); CountMut<I> mu; CountCross<I> cr;
    eoDetTournamentSelect<I> s1(2), s3(1); eoBestSelect<I> s2;
    unsigned lambda = g.boolean() ? 0 : g.range(1, 9);
    eoPlusReplacement<I> plus; eoSSGAWorseReplacement<I> ssga;
    bool usePlus = g.boolean(); if (lambda > n) usePlus = true;
    struct R : eoReplacement<I> { eoReplacement<I>& r; size_t want = 0; unsigned long calls = 0; R(eoReplacement<I>& r_) : r(r_) {} void operator()(eoPop<I>& p, eoPop<I>& o) override { ++calls; checkEvaluated(p, "parents"); checkEvaluated(o, "offspring"); CHECK(o.size() == want, o.size() << " offspring instead of " << want); r(p, o); } };
    R rep(usePlus ? (eoReplacement<I>&)plus : (eoReplacement<I>&)ssga);
    Watch<I> w(n, 1, usePlus);
    eoFastGA<I> algo(pc, s1, cr, s2, pm, s3, mu, pe, rep, w, lambda);
    for (unsigned run = 0, K = g.range(1, 3); run < K; ++run) {
        if (run && (usePlus || lambda == 0)) n = g.size(1, 7);
        unsigned long G = g.range(1, 4);
        eoPop<I> pop = bitPop<I>(g, n, len, true); w.size = n; w.stop = G; w.calls = 0; w.known = true; w.best = bestFit(pop);
        ev.done = mu.calls = cr.calls = rep.calls = 0; rep.want = lambda ? lambda : n; unsigned long O = G * rep.want;
        algo(pop);
        CHECK(w.calls == G, "continuator asked " << w.calls << " times instead of " << G);
        CHECK(rep.calls == G, "replacement called " << rep.calls << " times in " << G << " generations");
        CHECK(samePop(pop, w.last), "the returned population is not the one of the last generation");
        if (pc == 0) { CHECK(cr.calls == 0, "crossover at rate 0"); CHECK(mu.calls == O, "without crossover every offspring is mutated: " << mu.calls << " of " << O); }
        if (pc == 1) { CHECK(cr.calls == O, "crossover at rate 1 called " << cr.calls << " times for " << O << " offspring"); if (pm == 0) CHECK(mu.calls == 0, "mutation of crossed offspring at rate 0"); if (pm == 1) CHECK(mu.calls == O, "mutation of crossed offspring at rate 1: " << mu.calls << " of " << O); }
        CHECK(cr.calls + mu.calls >= O, "some offspring is neither crossed nor mutated");
        if (pm == 0) CHECK(cr.calls + mu.calls == O, "at mutation rate 0 an offspring is either crossed or mutated");
        if (pm == 1) CHECK(mu.calls == O, "at mutation rate 1 every offspring is mutated");
        CHECK(ev.done <= 2 * cr.calls + mu.calls, ev.done << " evaluations for " << cr.calls << " crossovers and " << mu.calls << " mutations");
        g.nontrivial(run > 0 || (G > 1 && n > 1));
    }
}
PBT(fast_ga, 4000, 40000) { if (g.boolean()) fast<BMax>(g); else fast<BMin>(g); }

template <class I> struct Ring : eoCellularEasyEA<I> {
    using eoCellularEasyEA<I>::eoCellularEasyEA; std::vector<int> ranks;
    eoPop<I> neighbours(const eoPop<I>& p, int r) override { ranks.push_back(r); eoPop<I> q; int n = p.size(); q.push_back(p[(r + n - 1) % n]); q.push_back(p[(r + 1) % n]); checkEvaluated(p, "cells"); return q; }
};
template <class I> struct PickBest : eoSelectOne<I> { const I& operator()(const eoPop<I>& p) override { checkEvaluated(p, "local selection"); CHECK(p.size() == 2, "a local selection is given " << p.size() << " candidates instead of two"); size_t b = 0; for (size_t i = 1; i < p.size(); ++i) if (betterFit<I>(fit(p[i]), fit(p[b]))) b = i; return p[b]; } };
template <class I> struct PickFirst : eoSelectOne<I> { const I& operator()(const eoPop<I>& p) override { return p[0]; } };
template <class I> static void cellular(pbt::Gen& g) {
    size_t n = g.size(1, 6), len = g.size(1, 6); BitEval<I> ev; CountMut<I> mu; CountCross<I> cr; PickBest<I> best; PickFirst<I> first;
    bool keep = g.boolean(); unsigned long G = g.range(1, 4);
    Watch<I> w(n, G, keep); std::vector<double> cells; eoPop<I> pop = bitPop<I>(g, n, len, true); for (auto& x : pop) cells.push_back(fit(x));
    w.also = [&](const eoPop<I>& p) { if (keep) for (size_t i = 0; i < p.size(); ++i) { CHECK(!betterFit<I>(cells[i], fit(p[i])), "cell " << i << " got worse although the best of child and old is kept"); cells[i] = fit(p[i]); } };
    Ring<I> algo(w, ev, best, cr, mu, best, keep ? (eoSelectOne<I>&)best : (eoSelectOne<I>&)first);
    algo(pop);
    CHECK(w.calls == G, "continuator asked " << w.calls << " times instead of " << G); CHECK(samePop(pop, w.last), "returned population");
    CHECK(cr.calls == G * n && mu.calls == 2 * G * n && ev.done == 2 * G * n, "crossovers " << cr.calls << ", mutations " << mu.calls << ", evaluations " << ev.done << " for " << G * n << " cell updates");
    CHECK(algo.ranks.size() == G * n, "neighbours asked"); for (size_t i = 0; i < algo.ranks.size(); ++i) CHECK(algo.ranks[i] == int(i % n), "cells are not visited in turn");
    g.nontrivial(n > 1);
}
PBT(cellular_ea, 2000, 20000) { if (g.boolean()) cellular<BMax>(g); else cellular<BMin>(g); }

template <class I> static void restart(pbt::Gen& g) {
    Silence quiet;
    size_t n = g.size(0, 6), len = g.size(1, 5); BitEval<I> ev; eoPopLoopEval<I> pe(ev);
    struct Init : eoInit<I> { size_t len; unsigned long made = 0; void operator()(I& x) override { x.resize(len); for (size_t k = 0; k < len; ++k) x[k] = (made >> (k % 8)) & 1; ++made; x.invalidate(); } } init; init.len = len;
    struct Algo : eoAlgo<I> { size_t n; unsigned long runs = 0; Init& in; Algo(Init& i) : in(i) {} void operator()(eoPop<I>& p) override { ++runs; CHECK(p.size() == n, "restarted on " << p.size() << " individuals instead of " << n); checkEvaluated(p, "restarted population"); for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < p[i].size(); ++k) CHECK(p[i][k] == bool(((in.made - n + i) >> (k % 8)) & 1), "a restart does not begin with the initialised individuals"); if (!p.empty() && !p[0].empty()) { p[0][0] = !p[0][0]; p[0].fitness(truth(p[0])); } } } algo(init);
    unsigned long K = g.range(1, 5); Watch<I> w(n, K, false);
    int ctor = g.range(0, 3); bool sized = ctor >= 2 && g.boolean(); size_t m = sized ? g.size(0, 7) : n;
    eoAlgoPopReset<I> r1(init, pe), r2(init, pe, m); 
    struct Other : eoAlgoReset<I> { unsigned long calls = 0; void operator()(eoPop<I>&) override { ++calls; } } other;
    eoAlgoResetCombine<I> comb(other); comb.add(sized ? r2 : r1); eoAlgoResetCombine<I> comb2(std::vector<eoAlgoReset<I>*>{sized ? &r2 : &r1, &other});
    eoAlgoReset<I>& rs = g.boolean() ? comb : comb2;
    std::unique_ptr<eoAlgoRestart<I>> a;
    if (ctor == 0) a.reset(new eoAlgoRestart<I>((eoInit<I>&)init, (eoPopEvalFunc<I>&)pe, algo, w));
    if (ctor == 1) a.reset(new eoAlgoRestart<I>((eoInit<I>&)init, (eoEvalFunc<I>&)ev, algo, w));
    if (ctor == 2) a.reset(new eoAlgoRestart<I>((eoPopEvalFunc<I>&)pe, algo, w, rs));
    if (ctor == 3) a.reset(new eoAlgoRestart<I>((eoEvalFunc<I>&)ev, algo, w, rs));
    algo.n = w.size = m;
    for (unsigned run = 0, R = g.range(1, 2); run < R; ++run) {
        if (run && !sized) { n = m = g.size(0, 6); algo.n = w.size = m; }
        eoPop<I> pop = bitPop<I>(g, n, len, g.boolean()); ev.done = algo.runs = init.made = other.calls = 0; w.calls = 0;
        (*a)(pop);
        CHECK(algo.runs == K && w.calls == K, algo.runs << " runs of the restarted algorithm and " << w.calls << " questions, expected " << K);
        CHECK(init.made == K * m, init.made << " initialisations for " << K << " restarts of " << m); CHECK(ev.done == K * m, ev.done << " evaluations for " << K << " restarts of " << m);
        if (ctor >= 2) CHECK(other.calls == K, "a combined reseter ran " << other.calls << " times in " << K << " restarts");
        CHECK(samePop(pop, w.last), "returned population");
    }
    g.nontrivial(K > 1 && m > 0);
}
PBT(restarts, 3000, 30000) { if (g.boolean()) restart<BMax>(g); else restart<BMin>(g); }

// the same with larger sizes
PBT_LARGE(easy_ea, 60, 600, 10)
PBT_LARGE(size_change, 10, 100, 10)
PBT_LARGE(simple_ga, 60, 600, 10)
PBT_LARGE(simple_ga_pairs, 50, 500, 10)
PBT_LARGE(fast_ga, 60, 600, 10)
PBT_LARGE(cellular_ea, 50, 500, 10)
PBT_LARGE(restarts, 60, 600, 10)
