// Checkpoints, statistics and monitors.
#include "loop_support.hpp"
#include <utils/checkpointing>
#include <utils/eoPopStat.h>
#include <utils/eoFDCStat.h>
#include <utils/eoFeasibleRatioStat.h>
#include <utils/eoMOFitnessStat.h>
#include <utils/eoTimedMonitor.h>
#include <utils/eoFuncPtrStat.h>
#include <utils/eoSignal.h>
#include <utils/eoGenCounter.h>
#include <utils/eoLogMonitor.h>
#include <eoDualFitness.h>
#include <es/eoReal.h>
#include <unistd.h>
#include <csignal>
#include <filesystem>
#include <atomic>
using namespace sup;
struct Scratch {
    std::filesystem::path dir;
    Scratch() { static std::atomic<int> n{0}; dir = std::filesystem::temp_directory_path() / ("verif-e13-" + std::to_string(getpid()) + "-" + std::to_string(n++)); std::filesystem::create_directory(dir); }
    ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
    std::string operator()(const std::string& f) const { return (dir / f).string(); }
};
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// ---- dispatch ----------------------------------------------------------------
struct Ev { int kind, which; bool last; const void* pop; size_t n; };
typedef std::vector<Ev> Trace;
enum { SORTED, STAT, UPD, MON, CONT };
template <class I> struct TStat : eoStat<I, double> { Trace& t; int k; TStat(Trace& t_, int k_) : eoStat<I, double>(0, "s"), t(t_), k(k_) {} void operator()(const eoPop<I>& p) override { t.push_back({STAT, k, false, &p, p.size()}); } void lastCall(const eoPop<I>& p) override { t.push_back({STAT, k, true, &p, p.size()}); } };
template <class I> struct TSorted : eoSortedStat<I, double> { Trace& t; int k; const eoPop<I>** cur; TSorted(Trace& t_, int k_, const eoPop<I>** c) : eoSortedStat<I, double>(0, "s"), t(t_), k(k_), cur(c) {}
    void look(const std::vector<const I*>& v) { CHECK(v.size() == (*cur)->size(), "sorted view of " << v.size() << " of " << (*cur)->size()); std::set<const I*> s(v.begin(), v.end()); CHECK(s.size() == v.size(), "an individual appears twice in the sorted view"); for (auto* p : v) CHECK(p >= &(**cur)[0] && p <= &(*cur)->back(), "the sorted view points elsewhere"); for (size_t i = 1; i < v.size(); ++i) CHECK(!better<I>(val(*v[i]), val(*v[i - 1])), "the sorted view is not best first"); }
    void operator()(const std::vector<const I*>& v) override { look(v); t.push_back({SORTED, k, false, nullptr, v.size()}); } void lastCall(const std::vector<const I*>& v) override { look(v); t.push_back({SORTED, k, true, nullptr, v.size()}); } };
struct TUpd : eoUpdater { Trace& t; int k; TUpd(Trace& t_, int k_) : t(t_), k(k_) {} void operator()() override { t.push_back({UPD, k, false, 0, 0}); } void lastCall() override { t.push_back({UPD, k, true, 0, 0}); } };
struct TMon : eoMonitor { Trace& t; int k; TMon(Trace& t_, int k_) : t(t_), k(k_) {} eoMonitor& operator()() override { t.push_back({MON, k, false, 0, 0}); return *this; } void lastCall() override { t.push_back({MON, k, true, 0, 0}); } };
template <class I> struct TCont : eoContinue<I> { Trace& t; int k; bool answer = true; TCont(Trace& t_, int k_) : t(t_), k(k_) {} bool operator()(const eoPop<I>& p) override { t.push_back({CONT, k, false, &p, p.size()}); return answer; } };

template <class I> static void dispatch(pbt::Gen& g) {
    Silence quiet; Trace t; const eoPop<I>* cur = nullptr;
    size_t n[5]; for (auto& x : n) x = g.size(0, 3); n[CONT] = std::max<size_t>(1, n[CONT]);
    std::vector<std::unique_ptr<TSorted<I>>> so; std::vector<std::unique_ptr<TStat<I>>> st; std::vector<std::unique_ptr<TUpd>> up; std::vector<std::unique_ptr<TMon>> mo; std::vector<std::unique_ptr<TCont<I>>> co;
    co.emplace_back(new TCont<I>(t, 0)); bool bySignal = g.chance(1, 4);
    void (*old)(int) = signal(SIGUSR2, SIG_DFL);
    std::unique_ptr<eoCheckPoint<I>> cpp(bySignal ? (eoCheckPoint<I>*)new eoSignal<I>(*co[0], SIGUSR2) : new eoCheckPoint<I>(*co[0])); eoCheckPoint<I>& cp = *cpp;
    // registration in any interleaving of the kinds
    size_t left[5] = {n[0], n[1], n[2], n[3], n[4] - 1};
    while (left[0] + left[1] + left[2] + left[3] + left[4]) {
        int k = g.range(0, 4); if (!left[k]) for (k = 0; !left[k]; ++k) {} --left[k]; int id = n[k] - 1 - left[k]; bool viaTo = g.boolean();
        if (k == SORTED) { so.emplace_back(new TSorted<I>(t, id, &cur)); if (viaTo) so.back()->addTo(cp); else cp.add(*so.back()); } if (k == STAT) { st.emplace_back(new TStat<I>(t, id)); if (viaTo) st.back()->addTo(cp); else cp.add(*st.back()); }
        if (k == UPD) { up.emplace_back(new TUpd(t, id)); if (viaTo) up.back()->addTo(cp); else cp.add(*up.back()); } if (k == MON) { mo.emplace_back(new TMon(t, id)); if (viaTo) mo.back()->addTo(cp); else cp.add(*mo.back()); } if (k == CONT) { co.emplace_back(new TCont<I>(t, id)); cp.add(*co.back()); }
    }
    for (unsigned s = 0, m = g.range(1, 5); s < m; ++s) {
        eoPop<I> pop = genPop<I>(g, g.size(1, 6)); cur = &pop; bool want = true; for (auto& c : co) { c->answer = g.chance(5, 6); want = want && c->answer; }
        bool fired = true; if (bySignal) { fired = g.boolean(); if (fired) raise(SIGUSR2); }
        t.clear(); bool got = cp(pop);
        if (!fired) { CHECK(t.empty() && got, "a signal checkpoint acted without a signal"); continue; }
        CHECK(got == want, "the checkpoint answered " << got);
        // expected: statistics before updaters before monitors before continuators, each once in registration order
        std::map<std::pair<int, int>, int> calls, lasts; int phase = 0; bool sawLast = false;
        for (size_t i = 0; i < t.size(); ++i) { auto& e = t[i]; if (e.last) { sawLast = true; ++lasts[{e.kind, e.which}]; CHECK(!want, "last call without a stop"); } else { CHECK(!sawLast, "a regular call after a last call"); ++calls[{e.kind, e.which}]; int ph = e.kind == SORTED ? STAT : e.kind; CHECK(ph >= phase, "observers called out of order"); phase = ph; if (i && t[i - 1].kind == e.kind && !t[i - 1].last) CHECK(t[i - 1].which + 1 == e.which, "observers of one kind not called in registration order"); } if (e.kind == STAT || e.kind == CONT) CHECK(e.pop == &pop, "an observer saw another population"); }
        for (int k = 0; k < 5; ++k) for (int i = 0; i < (int)n[k]; ++i) { CHECK((calls[{k, i}]) == 1, "observer " << i << " of kind " << k << " called " << calls[std::make_pair(k, i)] << " times"); if (k != CONT) CHECK((lasts[{k, i}]) == (want ? 0 : 1), "last call of observer " << i << " of kind " << k << " made " << lasts[std::make_pair(k, i)] << " times"); }
        if (!want) g.nontrivial(true);
    }
    signal(SIGUSR2, old);
    if (n[0] + n[1] + n[2] + n[3] > 3) g.nontrivial(true);
}
PBT(observers, 1500, 15000) { if (g.boolean()) dispatch<Max>(g); else dispatch<Min>(g); }

// ---- statistics --------------------------------------------------------------
template <class I> static double twice(const eoPop<I>& p) { return 2.0 * p.size(); }
template <class I> static void stats(pbt::Gen& g) {
    Silence quiet;
    eoAverageStat<I> av; eoSecondMomentStats<I> sm; eoBestFitnessStat<I> bf; eoBestIndividualStat<I> bi; eoInterquartileRangeStat<I> iqr; eoPopStat<I> ps(0), ps3(3); eoSortedPopStat<I> sp(0), sp2(2); eoFitnessStat<I> fs;
    unsigned nth = g.range(0, 5); double ratio = g.oneof({0.0, 0.25, 0.5, 0.9}); eoNthElementStat<I> ne((int)nth), nr(ratio); eoNthElementFitnessStat<I> nf(nth); eoFuncPtrStat<I, double> fp(twice<I>);
    bool has = false; double bestEver = 0; int bestId = -1;
    for (unsigned s = 0, m = g.range(1, 4); s < m; ++s) {
        size_t n = g.size(1, 9); eoPop<I> pop = genPop<I>(g, n, 10 * s), copy = pop; std::vector<const I*> sorted_; pop.sort(sorted_); std::vector<double> v = vals(pop), best = sortedVals(pop);
        double sum = 0; for (double x : v) sum += x; double mean = sum / n, ss = 0; for (double x : v) ss += (x - mean) * (x - mean);
        av(pop); CHECK_NEAR((double)av.value(), mean, "average of " << pbt::strv(v));
        if (n > 1) { sm(pop); CHECK_NEAR(sm.value().first, mean, "first moment"); double sd = std::sqrt(ss / (n - 1)); CHECK(ss < 1e-9 ? !(sm.value().second > 1e-3) : std::fabs(sm.value().second - sd) < 1e-6 * (1 + sd), "standard deviation " << sm.value().second << " expected " << sd << " of " << pbt::strv(v)); }
        bf(pop); CHECK((double)bf.value() == best[0], "best " << (double)bf.value() << " of " << pbt::strv(v));
        bi(pop); if (!has || better<I>(best[0], bestEver)) { has = true; bestEver = best[0]; } CHECK(val(bi.value()) == bestEver, "best individual so far has " << val(bi.value()) << " expected " << bestEver);
        // worst first: element k of the increasing order
        std::vector<double> up(best.rbegin(), best.rend()); if (nth < n) { ne(pop); CHECK((double)ne.value() == up[nth], "element " << nth << " is " << (double)ne.value() << " in " << pbt::strv(v)); }
        nr(pop); CHECK((double)nr.value() == up[(size_t)std::floor(n * ratio)], "quantile " << ratio << " is " << (double)nr.value() << " in " << pbt::strv(v));
        iqr(pop); CHECK_NEAR((double)iqr.value(), up[3 * (n / 4)] - up[n / 4], "interquartile range of " << pbt::strv(v));
        bool thrown = false; try { nf(sorted_); } catch (std::exception&) { thrown = true; } CHECK(thrown == (nth >= n), "element " << nth << " of " << n << (thrown ? " refused" : " accepted")); if (!thrown) CHECK((double)nf.value() == best[nth], "n-th best");
        fs(sorted_); CHECK(fs.value().size() == n, "all fitnesses"); for (size_t i = 0; i < n; ++i) CHECK((double)fs.value()[i] == best[i], "all fitnesses, best first");
        fp(pop); CHECK(fp.value() == 2.0 * n, "function statistic");
        for (auto* p : {&ps, &ps3}) { (*p)(pop); std::ostringstream w; size_t lim = p == &ps ? n : std::min<size_t>(n, 3); for (size_t i = 0; i < lim; ++i) w << pop[i] << "\n"; CHECK(p->value().size() >= w.str().size() && p->value().substr(p->value().size() - w.str().size()) == w.str(), "population dump '" << p->value() << "' expected '" << w.str() << "'"); size_t lines = std::count(p->value().begin(), p->value().end(), '\n'); CHECK(lines == lim + 2, "population dump lines"); }
        for (auto* p : {&sp, &sp2}) { (*p)(sorted_); std::ostringstream w; for (size_t i = 0; i < (p == &sp ? n : std::min<size_t>(n, 2)); ++i) w << *sorted_[i] << "\n"; CHECK(p->value() == w.str(), "sorted dump"); }
        CHECK(ids(pop) == ids(copy) && vals(pop) == vals(copy), "a statistic changed the population");
        if (n > 2) g.nontrivial(true);
    }
}
PBT(fitness_statistics, 1500, 15000) { if (g.boolean()) stats<Max>(g); else stats<Min>(g); }

typedef eoReal<double> R; typedef eoBit<double> B;
PBT(genotype_statistics, 800, 8000) {
    size_t n = g.size(1, 6), len = g.size(1, 5); eoPop<R> pr; eoPop<B> pb;
    for (size_t i = 0; i < n; ++i) { R r(len); B b(len); for (size_t k = 0; k < len; ++k) { r[k] = g.grid(4, 0.5); b[k] = g.boolean(); } r.fitness(g.range(0, 8)); b.fitness(g.range(0, 8)); pr.push_back(r); pb.push_back(b); }
    eoDistanceStat<R> dr; eoDistanceStat<B> db; dr(pr); db(pb); double sr = 0, sb = 0;
    for (auto& a : pr) for (auto& b : pr) for (size_t k = 0; k < len; ++k) sr += std::fabs(a[k] - b[k]); for (auto& a : pb) for (auto& b : pb) for (size_t k = 0; k < len; ++k) sb += a[k] != b[k];
    CHECK_NEAR(dr.value(), sr / (n * n * len), "average distance of real vectors"); CHECK_NEAR(db.value(), sb / (n * n * len), "average distance of bit strings");
    eoQuadDistance<R> q; eoL1Distance<R> l1; eoHammingDistance<B> h; eoFitnessDistance<R> fd; const R &a = pr[g.draw(n - 1)], &b = pr[g.draw(n - 1)]; const B &x = pb[g.draw(n - 1)], &y = pb[g.draw(n - 1)];
    double s2 = 0, s1 = 0, sh = 0; for (size_t k = 0; k < len; ++k) { s2 += (a[k] - b[k]) * (a[k] - b[k]); s1 += std::fabs(a[k] - b[k]); sh += x[k] != y[k]; }
    CHECK_NEAR(q(a, b), std::sqrt(s2), "Euclidean distance"); CHECK_NEAR(l1(a, b), s1, "L1 distance"); CHECK_NEAR(h(x, y), sh, "Hamming distance"); CHECK_NEAR(fd(a, b), std::fabs((double)a.fitness() - (double)b.fitness()), "fitness distance");
    // variable sizes
    eoPop<R> vs; size_t tot = 0; for (size_t i = 0; i < n; ++i) { R r(g.size(0, 6)); tot += r.size(); r.fitness(1); vs.push_back(r); } eoAverageSizeStat<R> as; as(vs); CHECK_NEAR(as.value(), double(tot) / n, "average size");
    // fitness-distance correlation, to the best or to a given optimum
    R opt(len); for (size_t k = 0; k < len; ++k) opt[k] = g.grid(4, 0.5); opt.fitness(99); bool given = g.boolean(); std::unique_ptr<eoFDCStat<R>> fdc(given ? new eoFDCStat<R>(l1, opt) : new eoFDCStat<R>(l1)); (*fdc)(pr); R ref = given ? opt : pr.best_element();
    std::vector<double> ds, fs; double md = 0, mf = 0; for (auto& i : pr) { double d = 0; for (size_t k = 0; k < len; ++k) d += std::fabs(i[k] - ref[k]); ds.push_back(d); fs.push_back(i.fitness()); md += d / n; mf += (double)i.fitness() / n; }
    double num = 0, vd = 0, vf = 0; for (size_t i = 0; i < n; ++i) { num += (ds[i] - md) * (fs[i] - mf); vd += (ds[i] - md) * (ds[i] - md); vf += (fs[i] - mf) * (fs[i] - mf); }
    CHECK(fdc->theDist().value().size() == n && fdc->theFit().value().size() == n, "FDC vectors"); for (size_t i = 0; i < n; ++i) { CHECK_NEAR(fdc->theDist().value()[i], ds[i], "FDC distance"); CHECK_NEAR(fdc->theFit().value()[i], fs[i], "FDC fitness"); }
    if (vd > 1e-9 && vf > 1e-9) { CHECK_NEAR(fdc->value(), num / std::sqrt(vd * vf), "fitness-distance correlation"); g.nontrivial(true); }
}

struct DInd : EO<eoMaximizingDualFitness> { };
PBT(feasible_ratio, 300, 3000) {
    Silence quiet; eoPop<DInd> p; size_t n = g.size(1, 8), k = 0; for (size_t i = 0; i < n; ++i) { bool f = g.boolean(); k += f; DInd d; d.fitness(eoMaximizingDualFitness(g.range(0, 9), f)); p.push_back(d); }
    eoFeasibleRatioStat<DInd> s; s(p); CHECK_NEAR(s.value(), double(k) / n, "feasible ratio"); g.nontrivial(k > 0 && k < n);
}

// ---- updaters and monitors -----------------------------------------------------
PBT(counters, 300, 3000) {
    unsigned c1 = g.range(0, 5), s1 = g.range(0, 3), st = g.range(0, 9); unsigned v1 = c1; eoIncrementor<unsigned> a(v1, s1); eoIncrementorParam<unsigned> b("b", c1, s1), c("c", s1); eoGenCounter gc(st), g0; eoIncrementor<unsigned> one(st); unsigned st0 = st;
    for (unsigned k = 1, m = g.range(1, 8); k <= m; ++k) { a(); b(); c(); gc(); g0(); one(); CHECK(v1 == c1 + k * s1 && b.value() == c1 + k * s1 && c.value() == k * s1, "incrementors after " << k << " calls"); CHECK(gc.value() == st0 + k - 1 && g0.value() == k - 1, "generation counters after " << k << " calls"); CHECK(st == st0 + k, "default step"); }
    g.nontrivial(true);
}

static std::vector<std::string> cells(const std::string& line, const std::string& delim) { std::vector<std::string> r; size_t p = 0; while (true) { size_t q = line.find(delim, p); std::string c = line.substr(p, q == std::string::npos ? q : q - p); size_t a = c.find_first_not_of(' '), b = c.find_last_not_of(' '); r.push_back(a == std::string::npos ? "" : c.substr(a, b - a + 1)); if (q == std::string::npos) break; p = q + delim.size(); } return r; }
static std::vector<std::string> linesOf(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }

PBT(file_monitor, 200, 1000) {
    Scratch dir; std::string f = dir("mon"), delim = g.boolean() ? " " : ","; bool keep = g.boolean(), header = g.boolean(), over = g.chance(1, 3); bool existing = g.boolean(); if (existing) { std::ofstream o(f); o << "old\n"; }
    eoValueParam<double> d(0, "dbl"); eoValueParam<int> i(0, "int"); eoValueParam<std::string> s("x", "str"); std::vector<eoParam*> all{&d, &i, &s}; size_t n = g.size(1, 3);
    eoFileMonitor m(f, delim, keep, header, over); for (size_t k = 0; k < n; ++k) m.add(*all[k]);
    std::vector<std::string> want; if (existing && keep && !over) want.push_back("old"); if (header && !keep && !over) { std::string h; for (size_t k = 0; k < n; ++k) h += (k ? delim : "") + all[k]->longName(); want.push_back(h); }
    for (unsigned t = 0, T = g.range(1, 5); t < T; ++t) {
        d.value() = g.grid(9, 0.25); i.value() = g.range(-99, 99); s.value() = "w" + std::to_string(g.range(0, 99)); m(); std::string row; for (size_t k = 0; k < n; ++k) row += (k ? delim : "") + all[k]->getValue(); if (over) want.assign(1, row); else want.push_back(row);
        auto got = linesOf(slurp(f)); CHECK(got == want, "the file holds '" << slurp(f) << "' after " << t + 1 << " generations, expected " << want.size() << " lines ending with '" << row << "'");
    }
    std::istringstream num(d.getValue()); double back; num >> back; CHECK(back == d.value(), "written value"); g.nontrivial(want.size() > 1);
}

PBT(stream_monitor, 400, 4000) {
    Silence quiet; std::ostringstream out; std::string delim = g.oneof<std::string>({"\t", ";", "|"}); unsigned w = g.range(0, 12); bool names = g.boolean(); eoValueParam<double> d(0, "dbl"); eoValueParam<int> i(0, "int"); eoValueParam<unsigned> u(0, "uns"); std::vector<eoParam*> all{&d, &i, &u}; size_t n = g.size(1, 3);
    eoOStreamMonitor m(out, delim, w, ' ', names, "="); for (size_t k = 0; k < n; ++k) m.add(*all[k]);
    unsigned T = g.range(1, 5); std::vector<std::vector<std::string>> want; { std::vector<std::string> h; for (size_t k = 0; k < n; ++k) h.push_back(all[k]->longName()); want.push_back(h); }
    for (unsigned t = 0; t < T; ++t) { d.value() = g.grid(9, 0.25); i.value() = g.range(-99, 99); u.value() = g.range(0, 999); m(); std::vector<std::string> r; for (size_t k = 0; k < n; ++k) r.push_back((names ? all[k]->longName() + "=" : "") + all[k]->getValue()); want.push_back(r); }
    auto lines = linesOf(out.str()); CHECK(lines.size() == T + 1, lines.size() << " lines for " << T << " generations"); 
    for (size_t t = 0; t < lines.size(); ++t) { std::string flat = lines[t]; auto c = cells(flat, delim); CHECK(c.size() == n + 1 && c.back().empty(), "line '" << lines[t] << "' has " << c.size() << " cells"); c.pop_back(); for (size_t k = 0; k < n; ++k) { std::string a = c[k]; a.erase(std::remove(a.begin(), a.end(), ' '), a.end()); CHECK(a == want[t][k], "cell '" << c[k] << "' expected '" << want[t][k] << "'"); } }
    g.nontrivial(T > 1 && n > 1);
}

PBT(snapshots, 30, 150) {
    // the monitor creates (or cleans) its own directory below the scratch one
    Scratch dir; unsigned freq = g.range(1, 3), start = g.range(0, 3); size_t n = g.size(1, 4), len = g.size(0, 4); std::vector<std::unique_ptr<eoValueParam<std::vector<double>>>> ps; for (size_t k = 0; k < n; ++k) ps.emplace_back(new eoValueParam<std::vector<double>>(std::vector<double>(), "v"));
    bool pre = g.boolean(), rm = g.boolean(); if (pre) { std::filesystem::create_directory(dir("snap")); std::ofstream(dir("snap/vsnap77")) << "x"; std::ofstream(dir("snap/other")) << "y"; }
    eoFileSnapshot s(dir("snap"), freq, "vsnap", " ", start, rm); for (auto& p : ps) s.add(*p); eoValueParam<int> wrong(0, "int"); bool thrown = false; try { s.add(wrong); } catch (std::exception&) { thrown = true; } CHECK(thrown, "a snapshot of something else than a vector was accepted");
    if (pre) { CHECK(std::filesystem::exists(dir("snap/other")), "a foreign file was removed"); CHECK(std::filesystem::exists(dir("snap/vsnap77")) == !rm, "old snapshots " << (rm ? "kept" : "removed")); }
    for (unsigned t = 0, T = g.range(1, 5); t < T; ++t) {
        for (auto& p : ps) { p->value().clear(); for (size_t k = 0; k < len; ++k) p->value().push_back(g.grid(9, 0.25)); }
        s(); bool due = (start + t) % freq == 0; CHECK(s.hasChanged() == due, "hasChanged()"); CHECK(s.getCounter() == start + t + 1, "getCounter()"); std::string f = dir("snap/vsnap" + std::to_string(start + t + 1)); CHECK(std::filesystem::exists(f) == due, "snapshot of call " << start + t << (due ? " missing" : " written") << " at frequency " << freq); if (!due) continue;
        CHECK(s.getFileName() == f, "getFileName() " << s.getFileName()); std::istringstream in(slurp(f)); for (size_t k = 0; k < len; ++k) { if (n == 1) { size_t idx; in >> idx; CHECK(idx == k, "index column"); } for (size_t c = 0; c < n; ++c) { double x = -1e9; in >> x; CHECK(x == ps[c]->value()[k], "row " << k << " column " << c << " holds " << x << " expected " << ps[c]->value()[k]); } } std::string rest; in >> rest; CHECK(rest.empty(), "more data than values");
    }
    g.nontrivial(n > 1 && len > 1);
}

PBT(timed_monitor, 100, 500) {
    struct M : eoMonitor { unsigned n = 0; eoMonitor& operator()() override { ++n; return *this; } } a, b, c; eoTimedMonitor never(1000000), always(0); never.add(a); never.add(c); always.add(b); unsigned k = g.range(1, 6);
    for (unsigned i = 0; i < k; ++i) { never(); always(); } CHECK(a.n == 1 && c.n == 1, "a long interval let " << a.n << " reports through"); CHECK(b.n == k, "no interval: " << b.n << " reports for " << k << " calls"); g.nontrivial(k > 1);
}

// the same with larger sizes
PBT_LARGE(observers, 37, 375, 10)
PBT_LARGE(fitness_statistics, 37, 375, 10)
PBT_LARGE(genotype_statistics, 20, 200, 10)
PBT_LARGE(feasible_ratio, 10, 100, 10)
PBT_LARGE(counters, 10, 100, 10)
PBT_LARGE(snapshots, 10, 100, 10)
PBT_LARGE(timed_monitor, 10, 100, 10)
