// E20: what the command-line builders assemble does what the components named on the command line do.
#include "build_support.hpp"
#include <do/make_checkpoint.h>
#include <do/make_run.h>
#include <ga/make_op.h>
#include <ga/make_genotype_ga.h>
#include <filesystem>
#include <set>
namespace {
namespace fs = std::filesystem;
using namespace sup; using namespace bld;
using MaxI = eoBit<double>; using MinI = eoBit<eoMinimizingFitness>;
struct Scratch { fs::path p; Scratch() { char t[] = "/tmp/verif-E20-XXXXXX"; p = mkdtemp(t); } ~Scratch() { std::error_code e; fs::remove_all(p, e); } std::string file(const std::string& n) { return (p / n).string(); } };
std::string allowed; std::vector<std::string> commands, refused;
bool inside(const std::string& path) { return !allowed.empty() && path.size() > allowed.size() && path.compare(0, allowed.size(), allowed) == 0 && path[allowed.size()] == '/' && path.find("..") == std::string::npos; }
}
// stand-in for the shell: only knows the three commands of the library, only inside the scratch directory of the case
extern "C" int system(const char* text) {
    std::string c = text ? text : ""; commands.push_back(c);
    auto rest = [&](const char* head) { std::string h = head; return c.compare(0, h.size(), h) == 0 ? c.substr(h.size()) : std::string(); };
    std::string d; std::error_code e;
    if (!(d = rest("test -d ")).empty()) return fs::is_directory(d, e) ? 0 : 256;
    if (!(d = rest("mkdir ")).empty() && inside(d)) { fs::create_directory(d, e); return 0; }
    if (!(d = rest("/bin/rm ")).empty() && d.size() > 2 && d.substr(d.size() - 2) == "/*" && inside(d.substr(0, d.size() - 2))) { for (auto& x : fs::directory_iterator(d.substr(0, d.size() - 2), e)) if (x.is_regular_file()) fs::remove(x.path(), e); return 0; }
    refused.push_back(c); return 256;
}
namespace {
constexpr double BASE = 60; // keeps every fitness positive
template <class I> struct Worth : eoEvalFunc<I> { unsigned long done = 0; void operator()(I& x) override { if (!x.invalid()) return; ++done; x.fitness(BASE + truth(x)); } };
template <class I> eoPop<I> genPop(pbt::Gen& g, size_t n, size_t len) { eoPop<I> p = bitPop<I>(g, n, len, false); Worth<I> w; for (auto& x : p) w(x); return p; }
template <class I> struct Hamming : eoDistance<I> { double operator()(const I& a, const I& b) override { double d = 0; for (size_t k = 0; k < a.size(); ++k) d += a[k] != b[k]; return d; } };
template <class I> std::string show(const eoPop<I>& p) { std::ostringstream o; for (auto& x : p) { for (size_t k = 0; k < x.size(); ++k) o << (x[k] ? '1' : '0'); if (x.invalid()) o << ":? "; else o << ":" << fit(x) << " "; } return o.str(); }
std::string pick(pbt::Gen& g, std::initializer_list<const char*> l) { return *(l.begin() + g.draw(l.size() - 1)); }
struct Many { std::string text; eoHowMany value; };
Many howMany(pbt::Gen& g, std::initializer_list<int> counts, std::initializer_list<double> percents) {
    if (g.boolean()) { int c = *(counts.begin() + g.draw(counts.size() - 1)); return {std::to_string(c), c == 0 ? eoHowMany(0.0) : eoHowMany(c)}; }
    double p = *(percents.begin() + g.draw(percents.size() - 1)); return {pbt::str(p) + "%", eoHowMany(p / 100.0)};
}
// ---- algorithms
template <class I> eoSelectOne<I>& selection(pbt::Gen& g, Args& a, Hand<I>& h, eoDistance<I>& d, bool& ok) {
    struct Choice { const char* text; std::function<eoSelectOne<I>*()> make; };
    auto ranking = [&](double p, double e) { return [&h, p, e]() -> eoSelectOne<I>* { return new eoRouletteWorthSelect<I>(h.keep(new eoRanking<I>(p, e))); }; };
    std::vector<Choice> all{
        {"", [] { return new eoDetTournamentSelect<I>(2); }},
        {"DetTour", [] { return new eoDetTournamentSelect<I>(2); }}, {"DetTour(2)", [] { return new eoDetTournamentSelect<I>(2); }}, {"DetTour(5)", [] { return new eoDetTournamentSelect<I>(5); }}, {"DetTour(9)", [] { return new eoDetTournamentSelect<I>(9); }},
        {"StochTour", [] { return new eoStochTournamentSelect<I>(1.0); }}, {"StochTour(0.6)", [] { return new eoStochTournamentSelect<I>(0.6); }}, {"StochTour(0.9)", [] { return new eoStochTournamentSelect<I>(0.9); }},
        {"Ranking", ranking(2, 1)}, {"Ranking(1.5)", ranking(1.5, 1)}, {"Ranking(1.25,1)", ranking(1.25, 1)}, {"Ranking(1.5,3)", ranking(1.5, 3)}, {"Ranking(2,0.5)", ranking(2, 0.5)}, {"Ranking(1,2)", ranking(2, 2)}, {"Ranking(2.5,1)", ranking(2, 1)}, {"Ranking(1.5,-2)", ranking(1.5, 1)}, {"Ranking(1.5,0)", ranking(1.5, 1)},
        {"Sequential", [] { return new eoSequentialSelect<I>(true); }}, {"Sequential(ordered)", [] { return new eoSequentialSelect<I>(true); }}, {"Sequential(unordered)", [] { return new eoSequentialSelect<I>(false); }},
        {"Random", [] { return new eoRandomSelect<I>; }}};
    if (!minBits<I>()) {
        all.push_back({"Roulette", []() -> eoSelectOne<I>* { return new eoProportionalSelect<I>; }});
        all.push_back({"Sharing", [&d]() -> eoSelectOne<I>* { return new eoSharingSelect<I>(0.5, d); }}); all.push_back({"Sharing(3)", [&d]() -> eoSelectOne<I>* { return new eoSharingSelect<I>(3, d); }}); all.push_back({"Sharing(1.5)", [&d]() -> eoSelectOne<I>* { return new eoSharingSelect<I>(1.5, d); }});
    }
    const Choice& c = all[g.draw(all.size() - 1)]; if (*c.text) a.set("selection", c.text); g.label("selection", *c.text ? std::string(c.text).substr(0, std::string(c.text).find('(')) : "default"); ok = true;
    return h.keep(c.make());
}
template <class I> eoReplacement<I>& replacement(pbt::Gen& g, Args& a, Hand<I>& h, bool& steady, bool& comma) {
    struct Choice { const char* text; std::function<eoReplacement<I>*()> make; };
    std::vector<Choice> all{
        {"", [] { return new eoCommaReplacement<I>; }}, {"Comma", [] { return new eoCommaReplacement<I>; }}, {"Plus", [] { return new eoPlusReplacement<I>; }},
        {"EPTour", [] { return new eoEPReplacement<I>(6); }}, {"EPTour(2)", [] { return new eoEPReplacement<I>(2); }}, {"EPTour(4)", [] { return new eoEPReplacement<I>(4); }}, {"EPTour(13)", [] { return new eoEPReplacement<I>(13); }},
        {"SSGAWorst", [] { return new eoSSGAWorseReplacement<I>; }}, {"SSGADet", [] { return new eoSSGADetTournamentReplacement<I>(2); }}, {"SSGADet(3)", [] { return new eoSSGADetTournamentReplacement<I>(3); }}, {"SSGADet(7)", [] { return new eoSSGADetTournamentReplacement<I>(7); }},
        {"SSGAStoch", [] { return new eoSSGAStochTournamentReplacement<I>(1.0); }}, {"SSGAStoch(0.7)", [] { return new eoSSGAStochTournamentReplacement<I>(0.7); }}, {"SSGAStoch(0.95)", [] { return new eoSSGAStochTournamentReplacement<I>(0.95); }}};
    const Choice& c = all[g.draw(all.size() - 1)]; std::string t = c.text; if (!t.empty()) a.set("replacement", t); g.label("replacement", t.empty() ? "default" : t.substr(0, t.find('(')));
    steady = t.compare(0, 4, "SSGA") == 0; comma = t.empty() || t == "Comma"; return h.keep(c.make());
}
template <class I> void algo(pbt::Gen& g) {
    Silence quiet; Args a; Hand<I> h; Hamming<I> dist; bool ok, steady, comma;
    eoSelectOne<I>& sel = selection<I>(g, a, h, dist, ok); eoReplacement<I>* rep = &replacement<I>(g, a, h, steady, comma);
    size_t n = g.size(2, 8), len = g.size(1, 7); Many m{"", eoHowMany(1.0)};
    if (!g.chance(1, 4)) { m = steady ? howMany(g, {1, 1, 2}, {50, 20}) : comma ? howMany(g, {(int)n, (int)n + 1, 12}, {100, 150, 200}) : howMany(g, {1, 3, 7, -1}, {100, 50, 130, 200}); a.set("nbOffspring", m.text); }
    else if (steady) { m = {"1", eoHowMany(1)}; a.set("nbOffspring", "1"); }
    if (g.boolean()) { bool w = g.boolean(); a.set("weakElitism", w ? 1 : 0); if (w) rep = &h.keep(new eoWeakElitistReplacement<I>(*rep)); g.label("weak elitism", w); }
    g.note(a.text());
    CountCross<I> x; CountMut<I> mut; eoSequentialOp<I> op; op.add(x, 0.7); op.add(mut, 0.6);
    unsigned gens = g.range(1, 4); eoGenContinue<I> c1(gens), c2(gens); Worth<I> e1, e2; eoPop<I> p1 = genPop<I>(g, n, len), p2 = p1; uint32_t s = 1 + (uint32_t)g.draw(9999);
    eoGeneralBreeder<I> breed(sel, op, m.value); eoEasyEA<I> hand(c2, e2, breed, *rep);
    seed(s); std::string byHand = thrown([&] { hand(p2); });
    std::string built = thrown([&] { auto parser = a.parser(g); eoState state; eoAlgo<I>& alg = do_make_algo_scalar<I>(*parser, state, e1, c1, op, &dist); seed(s); alg(p1); });
    CHECK(built.empty() == byHand.empty(), a.text() << ": the built algorithm " << (built.empty() ? "ran" : built) << ", the named components " << (byHand.empty() ? "ran" : byHand));
    if (!built.empty()) { g.label("thrown"); return; }
    CHECK(samePop(p1, p2), a.text() << " after " << gens << " generations: built " << show(p1) << " by hand " << show(p2)); CHECK(e1.done == e2.done, "evaluations " << e1.done << " built, " << e2.done << " by hand"); g.nontrivial(true);
}
PBT(algorithm_max, 2700, 12000) { algo<MaxI>(g); }
PBT(algorithm_min, 1500, 8000) { algo<MinI>(g); }
PBT(algorithm_refused, 180, 600) {
    Silence quiet; Args a; Worth<MaxI> e; eoGenContinue<MaxI> c(1); CountMut<MaxI> mut; eoMonGenOp<MaxI> op(mut);
    if (g.boolean()) { a.set("selection", pick(g, {"Tour(2)", "dettour(2)", "Sharing(1)", "Best", "Rank"})); } else a.set("replacement", pick(g, {"comma", "SSGA", "Plus+", "Elite", "SSGAdet(2)"}));
    std::string t = thrown([&] { auto p = a.parser(g); eoState s; do_make_algo_scalar<MaxI>(*p, s, e, c, op); });
    CHECK(!t.empty(), a.text() << " was accepted"); g.nontrivial(true);
}
// ---- general replacement
template <class I> eoReduce<I>& reducer(pbt::Gen& g, Args& a, const std::string& name, Hand<I>& h, bool& valid) {
    struct Choice { const char* text; std::function<eoReduce<I>*()> make; };
    static const std::vector<Choice> all{{"", [] { return new eoTruncate<I>; }}, {"Deterministic", [] { return new eoTruncate<I>; }}, {"Sequential", [] { return new eoTruncate<I>; }}, {"EP", [] { return new eoEPReduce<I>(6); }}, {"EP(2)", [] { return new eoEPReduce<I>(2); }}, {"EP(9)", [] { return new eoEPReduce<I>(9); }}, {"DetTour", [] { return new eoDetTournamentTruncate<I>(2); }}, {"DetTour(4)", [] { return new eoDetTournamentTruncate<I>(4); }}, {"StochTour", [] { return new eoStochTournamentTruncate<I>(1.0); }}, {"StochTour(0.75)", [] { return new eoStochTournamentTruncate<I>(0.75); }}, {"Uniform", [] { return new eoRandomReduce<I>; }}, {"Random", [] { return new eoRandomReduce<I>; }}, {"StochTour(0.5)", [] { return nullptr; }}, {"StochTour(1.1)", [] { return nullptr; }}, {"Truncate", [] { return nullptr; }}};
    const Choice& c = g.chance(1, 12) ? all[12 + g.draw(2)] : all[g.draw(11)]; if (*c.text) a.set(name, c.text); eoReduce<I>* r = c.make(); if (!r) { valid = false; r = new eoTruncate<I>; } return h.keep(r);
}
PBT(general_replacement, 1800, 9000) {
    using I = MaxI; Silence quiet; Args a; Hand<I> h; bool valid = true, strong = false; Many elite{"", eoHowMany(0.0)}, par{"", eoHowMany(0.0)}, off{"", eoHowMany(1.0)}; size_t n = g.size(2, 8), m = g.size(1, 14), len = g.size(1, 6);
    if (g.boolean()) { elite = howMany(g, {0, 1, 2}, {0, 25, 50}); a.set("elite", elite.text); } if (g.boolean()) { strong = g.boolean(); a.set("eliteType", strong ? 1 : 0); } if (g.boolean()) { par = howMany(g, {0, 1, -1}, {0, 50, 100}); a.set("surviveParents", par.text); } if (g.boolean()) { off = howMany(g, {1, 2, -1}, {50, 80, 100}); a.set("surviveOffspring", off.text); }
    eoReduce<I>& rp = reducer<I>(g, a, "reduceParents", h, valid); eoReduce<I>& ro = reducer<I>(g, a, "reduceOffspring", h, valid); eoReduce<I>& rf = reducer<I>(g, a, "reduceFinal", h, valid);
    eoParamParamType d1("Deterministic"), d2("Deterministic"), d3("Deterministic"); g.note(a.text());
    eoState state; eoReplacement<I>* built = nullptr; auto parser = a.parser(g);
    std::string t = thrown([&] { built = &make_general_replacement<I>(*parser, state, eoHowMany(0), false, eoHowMany(0.0), d1, eoHowMany(1.0), d2, d3); });
    CHECK(t.empty() == valid, a.text() << (valid ? " refused: " + t : " accepted")); if (!valid) { g.label("refused"); return; }
    eoReduceMergeReduce<I> hand(elite.value, strong, par.value, rp, off.value, ro, rf); eoPop<I> p1 = genPop<I>(g, n, len), o1 = genPop<I>(g, m, len), p2 = p1, o2 = o1;
    uint32_t s = 1 + (uint32_t)g.draw(9999); seed(s); std::string th = thrown([&] { hand(p2, o2); }); seed(s); std::string tb = thrown([&] { (*built)(p1, o1); });
    CHECK(th.empty() == tb.empty(), a.text() << ": built " << tb << " by hand " << th); if (!th.empty()) { g.label("threw"); return; }
    CHECK(samePop(p1, p2), a.text() << ": built " << show(p1) << " by hand " << show(p2)); g.nontrivial(n > 1);
}
// ---- stopping criteria
template <class I> void stopping(pbt::Gen& g) {
    Silence quiet; Args a; Hand<I> h; Worth<I> e; eoEvalFuncCounter<I> counter(e); std::vector<eoContinue<I>*> all; unsigned maxGen = 100;
    if (g.chance(3, 4)) { maxGen = g.oneof({0u, 1u, 3u, 8u, 20u}); a.set("maxGen", maxGen); } if (maxGen) all.push_back(&h.keep(new eoGenContinue<I>(maxGen)));
    unsigned minGen = 0; if (g.boolean()) { minGen = g.range(0u, 6u); a.set("minGen", minGen); }
    if (g.boolean()) { unsigned s = g.range(0u, 4u); a.set("steadyGen", s); all.push_back(&h.keep(new eoSteadyFitContinue<I>(minGen, s))); }
    if (g.boolean()) { unsigned long v = g.oneof({0ul, 1ul, 7ul, 30ul}); a.set("maxEval", v); if (v) all.push_back(&h.keep(new eoEvalContinue<I>(counter, v))); }
    if (g.boolean()) { double v = BASE + g.grid(6, 0.5); a.set("targetFitness", v); all.push_back(&h.keep(new eoFitContinue<I>(v))); }
    g.note(a.text()); auto parser = a.parser(g); eoState state; eoContinue<I>* built = nullptr; std::string t = thrown([&] { built = &do_make_continue<I>(*parser, state, counter); });
    CHECK(t.empty() == !all.empty(), a.text() << (all.empty() ? " gives no stopping criterion and was accepted" : " was refused: " + t)); if (all.empty()) { g.label("no criterion"); return; }
    size_t n = g.size(1, 4), len = g.size(1, 5); int kept = 0;
    for (int gen = 0; gen < 30; ++gen) {
        eoPop<I> p; for (size_t i = 0; i < n; ++i) { I x(len); for (size_t k = 0; k < len; ++k) x[k] = g.boolean(); x.invalidate(); counter(x); p.push_back(x); }
        bool expect = true; for (auto* c : all) if (!(*c)(p)) { expect = false; break; }
        bool got = (*built)(p); CHECK(got == expect, a.text() << ": generation " << gen + 1 << " with best " << bestFit(p) << " and " << counter.value() << " evaluations " << (got ? "continues" : "stops")); if (!got) break; ++kept;
    }
    g.label("criteria", all.size()); g.nontrivial(all.size() > 1 || kept > 0);
}
PBT(stopping_max, 1500, 8000) { stopping<MaxI>(g); }
PBT(stopping_min, 900, 5000) { stopping<MinI>(g); }
// ---- bit string operators
PBT(operators_bits, 2700, 14000) {
    using I = MaxI; Silence quiet; Args a; bool valid = true;
    double pc = rate(g, a, "pCross", 0.6, {0, 0.3, 0.8, 1}), pm = rate(g, a, "pMut", 0.1, {0, 0.5, 1, 1}), r1 = rate(g, a, "onePointRate", 1, {0, 0, 1, 3}), r2 = rate(g, a, "twoPointRate", 1, {0, 0, 2, 0.5}), ru = rate(g, a, "uRate", 2, {0, 0, 1, 4});
    double pb = rate(g, a, "pMutPerBit", 0.01, {0, 0.25, 0.5}), rb = rate(g, a, "bitFlipRate", 0.01, {0, 0, 1, 2}), ro = rate(g, a, "oneBitRate", 0.01, {0, 0, 1, 3}), rk = rate(g, a, "kBitRate", 0, {0, 1, 2}); unsigned k = 1; if (g.boolean()) { k = g.range(1u, 3u); a.set("kBit", k); }
    if (g.chance(1, 3)) a.set("operator", "SGA");
    if (g.chance(1, 10)) { valid = false; std::string n = pick(g, {"pCross", "pMut", "onePointRate", "twoPointRate", "uRate", "pMutPerBit", "bitFlipRate", "oneBitRate", "kBitRate", "kBit", "operator"});
        Args b; for (auto& w : a.words) if (w.compare(0, n.size() + 3, "--" + n + "=") != 0) b.words.push_back(w); a = b;
        if (n == "operator") a.set(n, "ES"); else if (n == "kBit") a.set(n, 0); else if (n[0] == 'p' && g.boolean()) a.set(n, n == "pMutPerBit" ? 0.6 : 1.5); else a.set(n, -0.5); }
    g.note(a.text()); auto parser = a.parser(g); eoState state; size_t len = g.size(3, 9), n = g.size(2, 7); eoBooleanGenerator<bool> gen; eoInitFixedLength<I> init(len, gen); eoGenOp<I>* built = nullptr;
    std::string t = thrown([&] { built = &do_make_op<I>(*parser, state, init); }); CHECK(t.empty() == valid, a.text() << (valid ? " refused: " + t : " accepted")); if (!valid) { g.label("refused"); return; }
    eo1PtBitXover<I> x1; eoUBitXover<I> xu; eoNPtsBitXover<I> x2; eoPropCombinedQuadOp<I> cross(x1, r1); cross.add(xu, ru); cross.add(x2, r2);
    eoBitMutation<I> mb(pb); eoDetBitFlip<I> m1, mk(k); eoPropCombinedMonOp<I> mut(mb, rb); mut.add(m1, ro); mut.add(mk, rk);
    eoQuadCloneOp<I> clone; eoProportionalOp<I> some; bool noCross = r1 + ru + r2 == 0, noMut = rb + ro + rk == 0; if (!noCross) some.add(cross, pc); some.add(clone, noCross ? 1 : 1 - pc); eoSequentialOp<I> hand; hand.add(some, 1.0); if (!noMut) hand.add(mut, pm);
    g.label("crossover", noCross ? "none" : "some"); g.label("mutation", noMut ? "none" : "some");
    eoPop<I> p = genPop<I>(g, n, len), o1, o2; uint32_t s = 1 + (uint32_t)g.draw(9999);
    for (int round = 0; round < 2; ++round) { eoSequentialSelect<I> s1(false), s2(false); eoHowMany full(1.0); eoGeneralBreeder<I> b1(s1, *built, full), b2(s2, hand, full); seed(s + round); b2(p, o2); seed(s + round); b1(p, o1); CHECK(samePop(o1, o2), a.text() << " on " << show(p) << ": built " << show(o1) << " by hand " << show(o2)); }
    g.nontrivial(!samePop(p, o1));
}
PBT(genotype_bits, 450, 2000) {
    using I = MaxI; Args a; unsigned n = 10; if (g.chance(3, 4)) { n = g.range(0u, 30u); a.set("chromSize", n); } float bias = g.oneof({0.0f, 0.5f, 0.25f, 1.0f}); auto parser = a.parser(g); eoState state; eoInit<I>& init = do_make_genotype<I>(*parser, state, I(), bias);
    eoBooleanGenerator<bool> gen(bias); eoInitFixedLength<I> hand(n, gen); uint32_t s = 1 + (uint32_t)g.draw(9999);
    for (int r = 0; r < 3; ++r) { I x(2), y(2); x.fitness(1); seed(s + r); init(x); seed(s + r); hand(y); CHECK(x.invalid(), "a drawn individual is already evaluated"); CHECK(x.size() == n && std::equal(x.begin(), x.end(), y.begin(), y.end()), a.text() << " bias " << bias << " draws another individual than its generator"); }
    g.nontrivial(n > 0);
}
// ---- populations
PBT(population, 1200, 5000) {
    using I = MaxI; Silence quiet; Scratch dir; Args a; unsigned want = 20; if (g.chance(4, 5)) { want = g.range(0u, 9u); a.set("popSize", want); } size_t len = g.size(1, 6); eoBooleanGenerator<bool> gen; eoInitFixedLength<I> init(len, gen);
    uint32_t s = 1 + (uint32_t)g.draw(9999); a.set("seed", s); bool load = g.boolean(), recompute = g.boolean(); eoPop<I> stored; Worth<I> worth; std::string file = dir.file("saved");
    if (g.boolean() || recompute) a.set("recomputeFitness", recompute ? 1 : 0);
    if (load) { stored = genPop<I>(g, g.size(0, 12), len); bool holes = g.chance(1, 6); if (holes) for (auto& x : stored) if (g.chance(1, 3)) x.invalidate(); seed(s + 77); for (int i = 0; i < 5; ++i) eo::rng.rand(); eoState out; out.registerObject(stored); out.registerObject(eo::rng); out.save(file); a.set("Load", file);
        if (holes && stored.size() > want) { bool all = true; for (auto& x : stored) all = all && !x.invalid(); if (!all) g.discard(); } }
    // what the population must be
    eoPop<I> expect; uint32_t next; if (load) { expect = stored; if (expect.size() > want) { std::stable_sort(expect.begin(), expect.end(), [](const I& x, const I& y) { return fit(x) > fit(y); }); expect.resize(want); } if (recompute) for (auto& x : expect) x.invalidate(); seed(s + 77); for (int i = 0; i < 5; ++i) eo::rng.rand(); } else seed(s);
    while (expect.size() < want) { I x; init(x); expect.push_back(x); } next = eo::rng.rand();
    g.note(a.text()); seed(4242); auto parser = a.parser(g); eoState state; eoPop<I>& pop = do_make_pop<I>(*parser, state, init); bool cut = load && stored.size() > want; uint32_t after = eo::rng.rand();
    CHECK(pop.size() == want, a.text() << ": " << pop.size() << " individuals instead of " << want << " with " << stored.size() << " in the file");
    if (cut) { // the best ones, in any order
        auto key = [](const I& x) { double f = BASE + truth(x); return f; }; std::vector<double> u, v; for (auto& x : pop) u.push_back(key(x)); for (auto& x : expect) v.push_back(key(x)); std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end()); CHECK(u == v, a.text() << ": retained " << show(pop) << "of " << show(stored));
        for (auto& x : pop) { CHECK(x.invalid() == recompute, "fitness kept or lost against recomputeFitness"); size_t here = 0, there = 0; for (auto& y : pop) here += std::equal(x.begin(), x.end(), y.begin(), y.end()); for (auto& y : stored) there += std::equal(x.begin(), x.end(), y.begin(), y.end()); CHECK(here <= there, "an individual comes out more often than it was stored"); }
    } else { CHECK(samePop(pop, expect), a.text() << ": population " << show(pop) << "instead of " << show(expect)); }
    CHECK(after == next, a.text() << ": the random generator is not where the " << (load ? "file" : "seed") << " puts it");
    { // the population and the generator are part of the state
        state.save(dir.file("again")); uint32_t follow = eo::rng.rand(); eoPop<I> back; eoRng r(1); eoState in; in.registerObject(back); in.registerObject(r); in.load(dir.file("again")); CHECK(samePop(back, pop), "the state saved " << show(back) << "for the population " << show(pop)); CHECK(r.rand() == follow, "the state saved another random generator"); }
    g.label("source", !load ? "seed" : stored.size() < want ? "short file" : cut ? "long file" : "file"); g.nontrivial(want > 0);
}
// ---- checkpoints and restarts
std::vector<std::string> lines(const std::string& f) { std::ifstream i(f); std::vector<std::string> l; std::string s; while (std::getline(i, s)) l.push_back(s); return l; }
std::set<std::string> files(const fs::path& d) { std::set<std::string> s; std::error_code e; if (fs::is_directory(d)) for (auto& x : fs::directory_iterator(d, e)) s.insert(x.path().filename().string()); return s; }
PBT(checkpoint_files, 500, 2500) {
    using I = MaxI; Silence quiet; Scratch dir; allowed = dir.p.string(); commands.clear(); refused.clear(); Args a; unsigned gens = g.range(1u, 9u); std::string res = dir.file("res"); a.set("resDir", res);
    bool print = true, useEval = true, useTime = true, file = false, pops = false, erase = true; long freq = -1;
    if (g.boolean()) { print = g.boolean(); a.set("printBestStat", print ? 1 : 0); } if (g.boolean()) { useEval = g.boolean(); a.set("useEval", useEval ? 1 : 0); } if (g.boolean()) { useTime = g.boolean(); a.set("useTime", useTime ? 1 : 0); } if (g.chance(2, 3)) { file = g.boolean(); a.set("fileBestStat", file ? 1 : 0); } if (g.chance(1, 3)) { pops = g.boolean(); a.set("printPop", pops ? 1 : 0); } if (g.chance(3, 4)) { freq = g.range(0, 5); a.set("saveFrequency", freq); } if (g.chance(1, 3)) { erase = g.boolean(); a.set("eraseDir", erase ? 1 : 0); }
    bool existed = g.chance(1, 3); if (existed) { fs::create_directory(res); std::ofstream(res + "/old.txt") << "old"; } std::ofstream(dir.file("beside")) << "beside";
    bool disk = file || freq >= 0; g.note(a.text()); auto parser = a.parser(g); eoState state; eoGenContinue<I> cont(gens); eoValueParam<unsigned long> evals(0, "Eval."); eoCheckPoint<I>* cp = nullptr; eoPop<I> pop = genPop<I>(g, g.size(1, 5), 4); state.registerObject(pop);
    std::string t = thrown([&] { cp = &do_make_checkpoint<I>(*parser, state, evals, cont); }); CHECK(refused.empty(), "command " << refused[0] << " for --resDir=" << res);
    bool mustThrow = disk && existed && !erase; CHECK(t.empty() == !mustThrow, a.text() << (existed ? " on a used directory" : "") << (t.empty() ? " accepted" : " refused: " + t)); CHECK(fs::exists(dir.file("beside")), "a file beside the result directory was removed");
    if (mustThrow) { CHECK(fs::exists(res + "/old.txt"), "the files of a directory not to be erased are gone"); g.label("refused"); return; }
    std::map<unsigned, eoPop<I>> seen; std::vector<std::vector<double>> expect; unsigned gen = 0; bool go = true; while (go) { pop = genPop<I>(g, pop.size(), 4); evals.value() += g.draw(9); ++gen; double best = bestFit(pop), avg = 0, var = 0; for (auto& x : pop) avg += fit(x); avg /= pop.size(); for (auto& x : pop) var += (fit(x) - avg) * (fit(x) - avg); if (pop.size() > 1) var /= pop.size() - 1; expect.push_back({(double)gen, (double)evals.value(), best, avg, std::sqrt(var)}); seen[gen] = pop; go = (*cp)(pop); CHECK(go == (gen < gens), "generation " << gen << " of " << gens << (go ? " goes on" : " stops")); }
    std::set<std::string> want; if (existed && !disk) want.insert("old.txt"); if (file) want.insert("best.xg"); if (freq >= 0) { for (unsigned k = 1; k <= gens; ++k) if ((freq > 0 && k % freq == 0) || k == gens) want.insert("generations" + std::to_string(k) + ".sav"); }
    std::set<std::string> got = files(res); CHECK(got == want, a.text() << " over " << gens << " generations leaves " << pbt::strv(std::vector<std::string>(got.begin(), got.end())) << " instead of " << pbt::strv(std::vector<std::string>(want.begin(), want.end()))); CHECK(disk || existed || !fs::exists(res), "a result directory appeared without any disk output");
    if (file) { auto l = lines(res + "/best.xg"); CHECK(l.size() == expect.size(), "best.xg has " << l.size() << " lines after " << gens << " generations"); bool timed = (print || pops) && useTime;
        for (size_t i = 0; i < l.size(); ++i) { std::istringstream is(l[i]); std::vector<double> v; std::string w; while (is >> w) v.push_back(atof(w.c_str())); CHECK(v.size() == 5u + timed, "line '" << l[i] << "' has " << v.size() << " columns"); if (timed) v.erase(v.begin() + 2); for (size_t k = 0; k < 5; ++k) { if (k == 4 && pop.size() < 2) continue; CHECK(std::fabs(v[k] - expect[i][k]) <= 1e-3 * (1 + std::fabs(expect[i][k])), "line '" << l[i] << "' column " << k << " instead of " << expect[i][k]); } } }
    if (freq >= 0) for (auto& k : seen) { std::string f = res + "/generations" + std::to_string(k.first) + ".sav"; if (!fs::exists(f)) continue; eoPop<I> back; eoState in; in.registerObject(back); in.load(f); CHECK(samePop(back, k.second), f << " holds " << show(back) << "instead of " << show(k.second)); }
    g.label("disk", disk); g.label("directory", existed ? "used" : "new"); g.nontrivial(disk && gens > 1); allowed.clear();
}
PBT(restart, 300, 1500) {
    using I = MaxI; Silence quiet; Scratch dir; allowed = dir.p.string(); refused.clear(); unsigned gens = g.range(2u, 8u), freq = g.range(1u, 4u), n = g.range(2u, 6u), len = g.range(3u, 8u); uint32_t s = 1 + (uint32_t)g.draw(9999);
    Args a; a.set("popSize", n); a.set("chromSize", len); if (g.boolean()) a.set("selection", pick(g, {"DetTour(3)", "StochTour(0.8)", "Ranking(1.5,1)", "Roulette", "Random"})); if (g.boolean()) a.set("replacement", pick(g, {"Plus", "EPTour(4)", "Comma"})); if (g.boolean()) a.set("weakElitism", 1); a.set("pMut", 0.8); a.set("oneBitRate", 1); a.set("printBestStat", 0);
    auto run = [&](Args b, eoPop<I>& last) { auto parser = b.parser(g); eoState state; Worth<I> worth; eoEvalFuncCounter<I> eval(worth); eoInit<I>& init = do_make_genotype<I>(*parser, state, I()); eoPop<I>& pop = do_make_pop<I>(*parser, state, init); eoContinue<I>& term = do_make_continue<I>(*parser, state, eval); eoCheckPoint<I>& cp = do_make_checkpoint<I>(*parser, state, eval, term); eoGenOp<I>& op = do_make_op<I>(*parser, state, init); eoAlgo<I>& alg = do_make_algo_scalar<I>(*parser, state, eval, cp, op); CHECK(refused.empty(), "command " << refused[0]); CHECK(pop.size() == n, pop.size() << " individuals instead of " << n); apply<I>(eval, pop); do_run<I>(alg, pop); last = pop; };
    Args whole = a; whole.set("seed", s); whole.set("maxGen", gens); whole.set("saveFrequency", freq); whole.set("resDir", dir.file("res")); eoPop<I> end; g.note(whole.text()); run(whole, end);
    for (auto& x : end) CHECK(!x.invalid() && fit(x) == BASE + truth(x), "the final population has a wrong fitness: " << show(end));
    { eoPop<I> again; Args w2 = a; w2.set("seed", s); w2.set("maxGen", gens); run(w2, again); CHECK(samePop(end, again), "the same seed gave " << show(end) << "with files and " << show(again) << "without"); }
    unsigned back = 0; for (unsigned k = freq; k < gens; k += freq) { Args r = a; r.set("Load", dir.file("res/generations" + std::to_string(k) + ".sav")); r.set("maxGen", gens - k); eoPop<I> e2; run(r, e2); CHECK(samePop(end, e2), whole.text() << ": restarted from generation " << k << " ends with " << show(e2) << "instead of " << show(end)); ++back; }
    g.label("restarts", back); g.nontrivial(back > 0); allowed.clear();
}
}
