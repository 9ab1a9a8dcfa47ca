// Evaluation wrappers: counting, capping, remembering, printing, external commands.
#include "loop_support.hpp"
#include <eoEvalFuncCounter.h>
#include <eoEvalCounterThrowException.h>
#include <eoEvalKeepBest.h>
#include <eoEvalDump.h>
#include <eoEvalNanThrowException.h>
#include <eoEvalFuncPtr.h>
#include <eoEvalCmd.h>
#include <eoEvalNamedPipe.h>
#include <eoEvalUserTimeThrowException.h>
#include <eoPopEvalFunc.h>
#include <eoCounter.h>
#include <unistd.h>
#include <filesystem>
#include <atomic>
using namespace sup;
typedef eoBit<double> BMax; typedef eoBit<eoMinimizingFitness> BMin;

template <class I> static bool sameGeno(const I& a, const I& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
// a private directory, removed at the end of the case
struct Scratch {
    std::filesystem::path dir;
    Scratch() { static std::atomic<int> n{0}; dir = std::filesystem::temp_directory_path() / ("verif-e11-" + std::to_string(getpid()) + "-" + std::to_string(n++)); std::filesystem::create_directory(dir); }
    ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
    std::string operator()(const std::string& f) const { return (dir / f).string(); }
};
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class I> static I genInd(pbt::Gen& g) { size_t len = g.size(0, 5); I x(len); for (size_t k = 0; k < len; ++k) x[k] = g.boolean(); if (g.chance(1, 4)) x.fitness(g.range(-5, 5) + 0.25); else x.invalidate(); return x; }

// what every wrapper has in common: genotype untouched, known fitness kept, unknown fitness computed
template <class I> static void after(const I& before, const I& x, const char* what) {
    CHECK(sameGeno(before, x), what << " changed the genotype"); CHECK(!x.invalid(), what << " left the individual unevaluated");
    if (!before.invalid()) CHECK(fit(x) == fit(before), what << " changed a known fitness"); else CHECK(fit(x) == truth(x), what << " gave fitness " << fit(x) << " instead of " << truth(x));
}

template <class I> static void counting(pbt::Gen& g) {
    Silence quiet;
    BitEval<I> ev; eoEvalFuncCounter<I> cnt(ev); unsigned long limit = g.range(0, 6);
    BitEval<I> ev2; eoEvalCounterThrowException<I> lim(ev2, limit);
    eoEvalFuncCounter<I> outer((eoEvalFunc<I>&)lim); // nested: counts what gets through
    unsigned long n = 0, skipped = 0, got = 0; bool nested = g.boolean();
    for (unsigned k = 0, m = g.range(1, 12); k < m; ++k) {
        I x = genInd<I>(g), y = x, z = x; const I b = x;
        cnt(x); after(b, x, "eoEvalFuncCounter");
        if (b.invalid()) ++n; else ++skipped;
        CHECK(cnt.value() == n && ev.done == n, "counter " << cnt.value() << ", evaluations " << ev.done << ", individuals without fitness " << n);
        CHECK(ev.skipped == 0, "the wrapped evaluator was called on an individual that has a fitness");
        bool thrown = false; unsigned long cap = 0;
        try { if (nested) outer(y); else lim(y); } catch (eoMaxEvalException& e) { thrown = true; } catch (std::exception& e) { CHECK(false, "unexpected exception type"); }
        CHECK(thrown == (b.invalid() && n >= limit), "evaluation " << n << " with limit " << limit << (thrown ? " raised" : " did not raise"));
        after(b, y, "eoEvalCounterThrowException"); if (b.invalid() && !thrown) ++got;
        CHECK(lim.value() == n && ev2.done == n, "limiting counter " << lim.value() << " after " << n << " evaluations");
        if (nested) CHECK(outer.value() == got, "outer counter " << outer.value() << " for " << got << " completed evaluations");
        if (thrown) g.nontrivial(true);
    }
    if (skipped) g.nontrivial(true);
}
PBT(counters, 1500, 15000) { if (g.boolean()) counting<BMax>(g); else counting<BMin>(g); }

template <class I> static void keeping(pbt::Gen& g) {
    Silence quiet;
    BitEval<I> ev; eoEvalKeepBest<I> kb(ev), dummy; bool has = false; I best; double bf = 0;
    for (unsigned k = 0, m = g.range(1, 14); k < m; ++k) {
        if (g.chance(1, 8)) { if (has && g.boolean()) { I nb = genInd<I>(g); if (nb.invalid()) nb.fitness(truth(nb)); kb.reset(nb); dummy.reset(nb); best = nb; bf = fit(nb); } else { kb.reset(); dummy.reset(); has = false; CHECK(kb.value().invalid(), "a reset best keeper still knows a best"); } }
        I x = genInd<I>(g); const I b = x; kb(x); after(b, x, "eoEvalKeepBest"); I x2 = x; dummy(x2);
        bool improved = has && betterFit<I>(fit(x), bf);
        if (has) { CHECK(kb.found() == improved, "found() is " << kb.found() << " after fitness " << fit(x) << " against best " << bf); CHECK(dummy.found() == improved, "found() of the bare keeper"); }
        if (!has || improved) { best = x; bf = fit(x); has = true; }
        for (eoEvalKeepBest<I>* p : {&kb, &dummy}) { I e = p->best_element(); CHECK(!e.invalid() && fit(e) == bf, "best kept " << fit(e) << " expected " << bf); CHECK(sameGeno(e, best), "the kept genotype is not the first best one"); CHECK(sameGeno(p->value(), best), "value()"); }
        if (k > 0 && improved) g.nontrivial(true);
    }
}
PBT(best_keeper, 1500, 15000) { if (g.boolean()) keeping<BMax>(g); else keeping<BMin>(g); }

struct OddEval : eoEvalFunc<BMax> { double v = 0; void operator()(BMax& x) override { x.fitness(v); } };
PBT(nan_guard, 400, 4000) {
    Silence quiet; OddEval ev; eoEvalNanThrowException<BMax> e(ev);
    for (unsigned k = 0, m = g.range(1, 6); k < m; ++k) {
        BMax x = genInd<BMax>(g); const BMax b = x; ev.v = g.oneof<double>({0.0, 1.5, -2.0, std::nan(""), INFINITY, -INFINITY, 1e308, -1e-308}); bool thrown = false;
        try { e(x); } catch (eoNanException&) { thrown = true; }
        CHECK(thrown == (b.invalid() && !std::isfinite(ev.v)), "fitness " << ev.v << (thrown ? " raised" : " did not raise"));
        CHECK(sameGeno(b, x), "genotype"); if (b.invalid()) CHECK(fit(x) == ev.v || std::isnan(ev.v), "fitness not the wrapped one"); else CHECK(fit(x) == fit(b), "known fitness changed");
        if (thrown) g.nontrivial(true);
    }
}

static unsigned ptrCalls = 0;
static double ptrEval(const BMax& x) { ++ptrCalls; return truth(x); }
static double ptrEval2(const std::vector<bool>& x) { ++ptrCalls; double s = 0; for (size_t k = 0; k < x.size(); ++k) if (x[k]) s += (k % 3 == 0) ? 2 : (k % 3 == 1 ? -1 : 0.5); return s; }
PBT(function_pointers, 300, 3000) {
    eoEvalFuncPtr<BMax> e(ptrEval); eoEvalFuncPtr<BMax, double, const std::vector<bool>&> e2(ptrEval2);
    ptrCalls = 0; unsigned want = 0;
    for (unsigned k = 0, m = g.range(1, 6); k < m; ++k) { BMax x = genInd<BMax>(g), y = x; const BMax b = x; e(x); e2(y); after(b, x, "eoEvalFuncPtr"); after(b, y, "eoEvalFuncPtr on the base type"); want += 2 * b.invalid(); CHECK(ptrCalls == want, "the function was called " << ptrCalls << " times for " << want << " unevaluated individuals"); g.nontrivial(!b.invalid()); }
}

template <class I> static void loops(pbt::Gen& g) {
    BitEval<I> ev; eoPopLoopEval<I> pl(ev); eoTimeVaryingLoopEval<I> tv(ev);
    // a time-varying evaluator evaluates whatever it is given
    struct Varying : eoEvalFunc<I> { double t = 0; unsigned long calls = 0; void operator()(I& x) override { ++calls; x.fitness(truth(x) + t); } } var; eoTimeVaryingLoopEval<I> tvv(var);
    eoPop<I> par, off; for (unsigned k = 0, m = g.size(0, 6); k < m; ++k) par.push_back(genInd<I>(g)); for (unsigned k = 0, m = g.size(0, 6); k < m; ++k) off.push_back(genInd<I>(g));
    eoPop<I> p = par, o = off; pl(p, o);
    CHECK(samePop(p, par), "eoPopLoopEval touched the parents"); CHECK(o.size() == off.size(), "size"); for (size_t i = 0; i < o.size(); ++i) after(off[i], o[i], "eoPopLoopEval");
    p = par; o = off; tv(p, o); CHECK(p.size() == par.size() && o.size() == off.size(), "size"); for (size_t i = 0; i < o.size(); ++i) after(off[i], o[i], "eoTimeVaryingLoopEval"); for (size_t i = 0; i < p.size(); ++i) after(par[i], p[i], "eoTimeVaryingLoopEval");
    for (var.t = 0; var.t < 3; ++var.t) { tvv(p, o); for (auto* q : {&p, &o}) for (auto& x : *q) CHECK(fit(x) == truth(x) + var.t, "time-varying evaluation at time " << var.t << " left " << fit(x)); }
    CHECK(var.calls == 3 * (p.size() + o.size()), "calls of the time-varying evaluator");
    eoPop<I> same = off; pl(same, same); for (size_t i = 0; i < same.size(); ++i) after(off[i], same[i], "eoPopLoopEval on one population");
    p = off; apply<I>(ev, p); for (size_t i = 0; i < p.size(); ++i) after(off[i], p[i], "apply");
    g.nontrivial(off.size() > 1);
}
PBT(population_loops, 600, 6000) { if (g.boolean()) loops<BMax>(g); else loops<BMin>(g); }

PBT(printing, 300, 3000) {
    std::ostringstream out, want; BitEval<BMax> ev; std::string sep = g.boolean() ? "\n" : " ; "; eoEvalPrint<BMax> e(ev, out, sep);
    for (unsigned k = 0, m = g.range(1, 6); k < m; ++k) { BMax x = genInd<BMax>(g); const BMax b = x; e(x); after(b, x, "eoEvalPrint"); want << x << sep; CHECK(out.str() == want.str(), "printed '" << out.str() << "' expected '" << want.str() << "'"); }
    g.nontrivial(true);
}

PBT(dumping, 120, 600) {
    Scratch dir; BitEval<BMax> ev; bool single = g.boolean(), bare = g.boolean(); unsigned start = g.boolean() ? 0 : g.range(0, 20); std::string sep = g.boolean() ? "." : "_";
    std::unique_ptr<eoEvalDump<BMax>> e(bare ? new eoEvalDump<BMax>(dir("d"), single, start, sep) : new eoEvalDump<BMax>(ev, dir("d"), single, start, sep));
    std::vector<std::string> lines;
    for (unsigned k = 0, m = g.range(1, 5); k < m; ++k) {
        BMax x = genInd<BMax>(g); const BMax b = x; (*e)(x); if (!bare) after(b, x, "eoEvalDump"); std::ostringstream l; l << x << "\n"; lines.push_back(l.str());
        CHECK(e->file_count() == start + k + 1, "file_count() " << e->file_count() << " after " << k + 1 << " dumps from " << start);
        if (single) CHECK(slurp(dir("d")) == l.str(), "the single file holds '" << slurp(dir("d")) << "' expected '" << l.str() << "'");
    }
    if (!single) for (unsigned k = 0; k < lines.size(); ++k) { std::string f = dir("d" + sep + std::to_string(start + k)); CHECK(slurp(f) == lines[k], "dump " << k << " holds '" << slurp(f) << "' expected '" << lines[k] << "'"); }
    size_t files = std::distance(std::filesystem::directory_iterator(dir.dir), std::filesystem::directory_iterator()); CHECK(files == (single ? 1 : lines.size()), files << " files for " << lines.size() << " dumps");
    eoEvalDump<BMax> bad(ev, dir("no/such/place"), single); bool thrown = false; BMax x = genInd<BMax>(g); try { bad(x); } catch (std::exception&) { thrown = true; } CHECK(thrown, "an impossible dump was not reported");
    g.nontrivial(lines.size() > 1);
}

PBT(external_command, 24, 120) {
    // the command receives the printed individual as arguments: size and bits
    BMax x = genInd<BMax>(g); const BMax b = x; int code = g.chance(1, 4) ? g.range(1, 100) : 0; std::string inf = g.boolean() ? "a b" : "";
    std::ostringstream line; line << b; std::istringstream words(line.str()); unsigned n = 0; std::string w; while (words >> w) ++n; if (!inf.empty()) n += 2;
    std::string cmd = "sh -c 'echo $#.5; exit " + std::to_string(code) + "' name";
    std::unique_ptr<eoEvalFunc<BMax>> ep; bool small = g.boolean(); std::string last;
    eoEvalCmd<BMax> e(cmd, ">&1", inf, ""); eoEvalCmd<BMax, 4> e4(cmd, ">&1", inf, ""); bool thrown = false;
    try { if (small) e4(x); else e(x); } catch (eoSystemError&) { thrown = true; }
    CHECK(thrown == (b.invalid() && code != 0), "exit code " << code << (thrown ? " raised" : " did not raise")); CHECK(sameGeno(b, x), "genotype");
    if (!b.invalid()) CHECK(fit(x) == fit(b) && e.last_call().empty() && e4.last_call().empty(), "an evaluated individual was sent to the command");
    else if (code == 0) CHECK(fit(x) == n + 0.5, "fitness " << fit(x) << " expected " << n + 0.5);
    else CHECK(x.invalid(), "a failed command gave a fitness");
    g.nontrivial(b.invalid());
}

PBT(named_files, 100, 500) {
    Scratch dir; double v = g.range(-50, 50) / 4.0; { std::ofstream o(dir("in")); o << v << std::endl; }
    eoEvalNamedPipe<BMax> e(dir("out"), dir("in")); BMax x = genInd<BMax>(g); const BMax b = x; e(x); CHECK(sameGeno(b, x), "genotype");
    if (b.invalid()) { std::ostringstream l; l << b << "\n"; CHECK(slurp(dir("out")) == l.str(), "sent '" << slurp(dir("out")) << "' expected '" << l.str() << "'"); CHECK(fit(x) == v, "fitness " << fit(x) << " expected " << v); } else { CHECK(fit(x) == fit(b), "known fitness"); CHECK(!std::filesystem::exists(dir("out")), "an evaluated individual was sent"); }
    g.nontrivial(b.invalid());
}

PBT(time_limits, 60, 300) {
    Silence quiet; BitEval<BMax> ev; eoEvalTimeThrowException<BMax> none(ev, 0), lots(ev, 1000000000); eoEvalUserTimeThrowException<BMax> none2(ev, 0), lots2(ev, 1000000000); unsigned long n = 0;
    for (unsigned k = 0, m = g.range(1, 5); k < m; ++k) {
        BMax x = genInd<BMax>(g), y = x, z = x, t = x; const BMax b = x; n += b.invalid(); bool t1 = false, t2 = false;
        lots(x); after(b, x, "eoEvalTimeThrowException"); lots2(y); after(b, y, "eoEvalUserTimeThrowException"); CHECK(lots.value() == n && lots2.value() == n, "counters " << lots.value() << " and " << lots2.value() << " after " << n << " evaluations");
        try { none(z); } catch (eoMaxTimeException&) { t1 = true; } try { none2(t); } catch (eoMaxTimeException&) { t2 = true; }
        CHECK(t1 == b.invalid() && t2 == b.invalid(), "no time left: evaluation must raise exactly for unevaluated individuals"); CHECK(z.invalid() == b.invalid() && t.invalid() == b.invalid(), "evaluated after the end of time");
    }
    g.nontrivial(n > 0);
}

PBT(call_counters, 300, 3000) {
    eoFunctorStore store; BitEval<BMax> ev; eoEvalFunc<BMax>& base = ev;
    auto& c = make_counter(functor_category(base), base, store); eoDetTournamentSelect<BMax> t(1); eoSelectOne<BMax>& so = t; auto& cs = make_counter(functor_category(so), so, store);
    eoPopLoopEval<BMax> pl(ev); eoPopEvalFunc<BMax>& pb = pl; auto& cp = make_counter(functor_category(pb), pb, store);
    unsigned long n = 0, a = 0, p = 0; eoPop<BMax> pop = bitPop<BMax>(g, g.size(1, 4), 3, true);
    for (unsigned k = 0, m = g.range(1, 8); k < m; ++k) {
        int what = g.range(0, 2); BMax x = genInd<BMax>(g); const BMax b = x; unsigned long d = ev.done + ev.skipped;
        if (what == 0) { c(x); ++n; after(b, x, "a counted evaluator"); CHECK(ev.done + ev.skipped == d + 1, "the wrapped evaluator was called " << ev.done + ev.skipped - d << " times"); }
        if (what == 1) { const BMax& s = cs(pop); ++a; CHECK(&s >= &pop[0] && &s <= &pop.back(), "a counted selector returned something else"); }
        if (what == 2) { eoPop<BMax> q = pop; q[0].invalidate(); cp(pop, q); ++p; checkEvaluated(q, "counted population evaluation"); }
        CHECK(c.value() == n && cs.value() == a && cp.value() == p, "call counters " << c.value() << "," << cs.value() << "," << cp.value() << " expected " << n << "," << a << "," << p);
    }
    g.nontrivial(n + a + p > 1);
}

// the same with larger sizes
PBT_LARGE(counters, 37, 375, 10)
PBT_LARGE(best_keeper, 37, 375, 10)
PBT_LARGE(nan_guard, 10, 100, 10)
PBT_LARGE(function_pointers, 10, 100, 10)
PBT_LARGE(population_loops, 15, 150, 10)
PBT_LARGE(printing, 10, 100, 10)
PBT_LARGE(dumping, 10, 100, 10)
PBT_LARGE(external_command, 10, 100, 10)
PBT_LARGE(named_files, 10, 100, 10)
PBT_LARGE(time_limits, 10, 100, 10)
PBT_LARGE(call_counters, 10, 100, 10)
