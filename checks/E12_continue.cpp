// Stopping criteria: the generation at which each continuator stops, compared with a naive model.
#include "ind_support.hpp"
#include <eoCtrlCContinue.h>
#include <eoSIGContinue.h>
#include <eoInvertedContinue.h>
#include <eoPeriodicContinue.h>
#include <eoTimeContinue.h>
#include <eoSteadyFitContinue.h>
#include <csignal>
#include <sstream>
using namespace sup;

// Answers from a list, recording how often it was asked and with which population.
template <class I> struct Script : eoContinue<I> {
    std::vector<bool> answers; unsigned asked = 0; std::vector<size_t> sizes;
    bool operator()(const eoPop<I>& p) override { sizes.push_back(p.size()); bool a = asked < answers.size() ? bool(answers[asked]) : true; ++asked; return a; }
};

template <class I> static void genSteps(pbt::Gen& g) {
    eoPop<I> pop = genPop<I>(g, g.size(0, 3), 0, false, true);
    unsigned long total = g.range(1, 6);
    bool external = g.boolean();
    unsigned long ext = external ? g.range(0, 8) : 0, start = ext;
    std::unique_ptr<eoGenContinue<I>> c(external ? new eoGenContinue<I>(total, ext) : new eoGenContinue<I>(total));
    unsigned long n = start;
    unsigned steps = g.range(1, 12);
    for (unsigned s = 0; s < steps; ++s) {
        if (g.chance(1, 8)) {
            total = g.range(1, 6); n = 0;
            c->totalGenerations(total);
            CHECK(c->totalGenerations() == total, "totalGenerations() after setting");
        }
        if (g.chance(1, 8)) {
            // saved in the middle of a run and restored in a fresh object
            std::stringstream ss; c->printOn(ss);
            unsigned long other = 77;
            eoGenContinue<I> d(total, other); d.readFrom(ss);
            CHECK(other == n, "restored generation counter " << other << " expected " << n);
            bool want = n + 1 < total;
            CHECK(d(pop) == want, "a restored continuator continues from the saved generation");
        }
        bool got = (*c)(pop); ++n;
        CHECK(got == (n < total), "eoGenContinue at generation " << n << " of " << total << " answered " << got);
        if (external) CHECK(ext == n, "external generation counter " << ext << " expected " << n);
        CHECK(c->value() == n, "value() " << c->value() << " expected " << n);
        if (!got) g.nontrivial(true);
    }
}
PBT(generations, 2000, 3000) { if (g.boolean()) genSteps<Max>(g); else genSteps<Min>(g); }

template <class I> static void fitStop(pbt::Gen& g) {
    double target = g.range(-3, 3);
    eoFitContinue<I> c((typename I::Fitness(target)));
    for (unsigned s = 0, k = g.range(1, 6); s < k; ++s) {
        eoPop<I> pop = genPop<I>(g, g.size(1, 5), 0, false, false);
        bool reached = false;
        for (auto& i : pop) reached = reached || (minimising<I>() ? val(i) <= target : val(i) >= target);
        CHECK(c(pop) == !reached, "eoFitContinue target " << target << " on " << pbt::strv(vals(pop)) << " answered " << !reached << " wrongly");
        g.nontrivial(reached);
    }
}
PBT(target_fitness, 300, 3000) { if (g.boolean()) fitStop<Max>(g); else fitStop<Min>(g); }

template <class I> struct Ev : eoEvalFunc<I> { void operator()(I& i) override { if (i.invalid()) i.fitness(typename I::Fitness(1)); } };

template <class I> static void evalStop(pbt::Gen& g) {
    Ev<I> ev; eoEvalFuncCounter<I> cnt(ev);
    unsigned long limit = g.range(0, 12), n = 0;
    eoEvalContinue<I> c(cnt, limit);
    CHECK(c.totalEvaluations() == limit, "totalEvaluations()");
    eoPop<I> pop = genPop<I>(g, 2, 0, false, true);
    for (unsigned s = 0, k = g.range(1, 8); s < k; ++s) {
        for (unsigned e = 0, m = g.range(0, 4); e < m; ++e) { I i; i.invalidate(); cnt(i); ++n; }
        bool got = c(pop);
        CHECK(got == (n < limit), "eoEvalContinue after " << n << " evaluations of " << limit << " answered " << got);
        if (!got) g.nontrivial(true);
    }
}
PBT(evaluations, 300, 3000) { if (g.boolean()) evalStop<Max>(g); else evalStop<Min>(g); }

template <class I> static void steady(pbt::Gen& g) {
    unsigned long minG = g.range(0, 5), st = g.range(0, 4), ext = 0;
    bool external = g.boolean();
    if (external) ext = g.range(0, 9);
    unsigned long gen = ext;
    std::unique_ptr<eoSteadyFitContinue<I>> c(external ? new eoSteadyFitContinue<I>(minG, st, ext) : new eoSteadyFitContinue<I>(minG, st));
    bool in = false; double best = 0; unsigned long last = 0;
    for (unsigned s = 0, k = g.range(1, 16); s < k; ++s) {
        if (g.chance(1, 12)) { minG = g.range(0, 4); st = g.range(0, 3); c->totalGenerations(minG, st); gen = 0; in = false; }
        CHECK(c->minGenerations() == minG && c->steadyGenerations() == st, "the limits of eoSteadyFitContinue");
        eoPop<I> pop = genPop<I>(g, g.size(1, 4), 0, false, false);
        if (g.chance(2, 3)) for (auto& i : pop) i.fitness(typename I::Fitness(g.range(-1, 1)));
        double b = sortedVals(pop)[0];
        ++gen; bool want = true;
        if (in) {
            if (minimising<I>() ? b < best : b > best) { best = b; last = gen; }
            else if (gen - last > st) want = false;
        } else if (gen > minG) { in = true; best = b; last = gen; }
        bool got = (*c)(pop);
        CHECK(got == want, "eoSteadyFitContinue(min " << minG << ", steady " << st << ") at generation " << gen << " last improvement " << last << " best so far " << best << " answered " << got);
        if (external) CHECK(ext == gen, "external counter");
        if (!got) g.nontrivial(true);
    }
}
PBT(steady_state, 4000, 6000) { if (g.boolean()) steady<Max>(g); else steady<Min>(g); }

PBT(combined, 2000, 4000) {
    typedef Max I;
    unsigned n = g.range(1, 5), steps = g.range(1, 6);
    std::vector<Script<I>> m(n);
    for (auto& s : m) for (unsigned k = 0; k < steps; ++k) s.answers.push_back(g.chance(4, 5));
    std::unique_ptr<eoCombinedContinue<I>> c;
    unsigned first = 1;
    if (g.boolean()) { std::vector<eoContinue<I>*> l; for (auto& x : m) l.push_back(&x); c.reset(new eoCombinedContinue<I>(l)); first = n; }
    else c.reset(new eoCombinedContinue<I>(m[0]));
    for (unsigned i = first; i < n; ++i) c->add(m[i]);
    std::vector<unsigned> asked(n, 0);
    for (unsigned s = 0; s < steps; ++s) {
        eoPop<I> pop = genPop<I>(g, g.size(0, 4), 0, false, true);
        bool want = true;
        for (unsigned i = 0; i < n && want; ++i) { want = asked[i] < m[i].answers.size() ? bool(m[i].answers[asked[i]]) : true; ++asked[i]; }
        bool got = (*c)(pop);
        CHECK(got == want, "combined continuator answered " << got << " at step " << s);
        for (unsigned i = 0; i < n; ++i) {
            CHECK(m[i].asked <= s + 1, "member " << i << " asked " << m[i].asked << " times in " << s + 1 << " steps");
            if (want) CHECK(!m[i].sizes.empty() && m[i].sizes.back() == pop.size(), "member " << i << " was not shown the population");
            CHECK(m[i].asked == asked[i], "member " << i << " asked " << m[i].asked << " times, expected " << asked[i]);
        }
        if (!want) g.nontrivial(true);
    }
}

PBT(real_members, 2000, 3000) {
    // limits of three kinds in one combination: it stops at the earliest of them
    typedef Max I;
    unsigned long gens = g.range(1, 10), evals = g.range(1, 30); double target = g.range(0, 12);
    Ev<I> ev; eoEvalFuncCounter<I> cnt(ev);
    eoGenContinue<I> gc(gens); eoEvalContinue<I> ec(cnt, evals); eoFitContinue<I> fc(target);
    std::vector<eoContinue<I>*> v{&gc, &ec, &fc};
    for (unsigned i = 2; i > 0; --i) std::swap(v[i], v[g.draw(i)]);
    eoCombinedContinue<I> c(*v[0]); c.add(*v[1]); c.add(*v[2]);
    unsigned long n = 0, e = 0; double best = 0;
    for (;;) {
        eoPop<I> pop;
        for (unsigned k = 0, m = g.range(1, 4); k < m; ++k) { I i; i.invalidate(); cnt(i); ++e; double f = std::min<double>(12, g.range(0, 4) + best * 0.5); i.fitness(f); pop.push_back(i); }
        double b = sortedVals(pop)[0]; best = std::max(best, b); ++n;
        bool want = n < gens && e < evals && b < target;
        bool got = c(pop);
        CHECK(got == want, "generation " << n << "/" << gens << ", evaluations " << e << "/" << evals << ", best " << b << "/" << target << ": answered " << got);
        if (!got) break;
    }
    g.nontrivial(n > 1);
}

PBT(inverted, 150, 1500) {
    typedef Max I;
    unsigned steps = g.range(1, 12);
    Script<I> s; for (unsigned k = 0; k < steps; ++k) s.answers.push_back(g.boolean());
    eoInvertedContinue<I> inv(s);
    eoPop<I> pop = genPop<I>(g, 2, 0, false, true);
    for (unsigned k = 0; k < steps; ++k) {
        CHECK(inv(pop) == !s.answers[k], "eoInvertedContinue at step " << k);
        CHECK(s.asked == k + 1, "the wrapped continuator was asked " << s.asked << " times");
    }
    g.nontrivial(steps > 1);
}

PBT(periodic_exact, 100, 1000) {
    typedef Max I;
    unsigned period = g.range(1, 6), init = g.boolean() ? g.range(0, 12) : 0;
    eoPeriodicContinue<I> c(period, init);
    eoPop<I> pop;
    for (unsigned k = 1; k <= 3 * period; ++k)
        CHECK(c(pop) == ((init + k) % period != 0), "eoPeriodicContinue(" << period << "," << init << ") call " << k);
    g.nontrivial(period > 1);
}

PBT(time_limits, 60, 300) {
    typedef Max I;
    eoPop<I> pop = genPop<I>(g, 2, 0, false, true);
    eoTimeContinue<I> none(0), lots(1000000000);
    eoSecondsElapsedContinue<I> none2(0), lots2(1000000000);
    for (unsigned k = 0, m = g.range(1, 4); k < m; ++k) {
        CHECK(!none(pop), "eoTimeContinue(0) goes on"); CHECK(lots(pop), "eoTimeContinue stops far before its limit");
        CHECK(!none2(pop), "eoSecondsElapsedContinue(0) goes on"); CHECK(lots2(pop), "eoSecondsElapsedContinue stops far before its limit");
    }
    g.nontrivial(true);
}

static int noted = 0, notedSig = 0;
static void onSignal(int sig) { ++noted; notedSig = sig; }

PBT(signals, 100, 600) {
    typedef Max I;
    eoPop<I> pop = genPop<I>(g, 1, 0, false, true);
    void (*old)(int) = signal(SIGUSR1, SIG_DFL);
    existSIGContinue = false; call_func = false; noted = 0;
    {
        // a signal is reported once to the user's function, at the next call, and the search goes on
        eoSIGContinue<I> c(SIGUSR1, onSignal);
        bool second = false; try { eoSIGContinue<I> d(SIGUSR1, onSignal); } catch (std::exception&) { second = true; }
        CHECK(second, "a second signal handler was accepted");
        int want = 0;
        for (unsigned k = 0, m = g.range(1, 6); k < m; ++k) {
            if (g.boolean()) { raise(SIGUSR1); ++want; }
            CHECK(c(pop), "eoSIGContinue stopped");
            CHECK(noted == want && (!want || notedSig == SIGUSR1), "the function was called " << noted << " times for " << want << " signals");
        }
    }
    existSIGContinue = false; call_func = false;
    signal(SIGUSR1, old);
    existCtrlCContinue = false; ask_for_stop = false;
    void (*oi)(int) = signal(SIGINT, SIG_DFL); void (*oq)(int) = signal(SIGQUIT, SIG_DFL);
    {
        eoCtrlCContinue<I> c;
        unsigned before = g.range(0, 3); int sig = g.boolean() ? SIGINT : SIGQUIT;
        for (unsigned k = 0; k < before; ++k) CHECK(c(pop), "eoCtrlCContinue stops without a signal");
        raise(sig);
        for (unsigned k = 0; k < 2; ++k) CHECK(!c(pop), "eoCtrlCContinue goes on after the signal");
    }
    signal(SIGINT, oi); signal(SIGQUIT, oq);
    existCtrlCContinue = false; ask_for_stop = false;
    g.nontrivial(true);
}

// the same with larger sizes
PBT_LARGE(generations, 50, 500, 10)
PBT_LARGE(target_fitness, 10, 100, 10)
PBT_LARGE(evaluations, 10, 100, 10)
PBT_LARGE(steady_state, 60, 600, 10)
PBT_LARGE(combined, 50, 500, 10)
PBT_LARGE(real_members, 50, 500, 10)
PBT_LARGE(inverted, 10, 100, 10)
PBT_LARGE(periodic_exact, 10, 100, 10)
PBT_LARGE(time_limits, 10, 100, 10)
PBT_LARGE(signals, 10, 100, 10)
