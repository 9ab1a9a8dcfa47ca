// M07: multi-objective evolutionary algorithms.
#include "moeo_support.hpp"
using namespace sup;
namespace {
// genotype of a few bits, parent index carried through the operators
struct Ind : public MOEO<OV, double, double> { unsigned geno = 0; int from = -1; virtual std::string className() const { return "Ind"; } };
typedef std::vector<double> Raw;
struct World {                     // the problem and everything the algorithm was seen to do
    std::vector<bool> mini; unsigned bits; std::vector<OV> table; size_t n; bool keepSome;
    std::vector<std::pair<unsigned, Raw>> offs; unsigned evals = 0, total = 0; std::vector<unsigned> evaluated;
    OV& at(const Ind& x) { return table[x.geno]; }
};
World* W;
struct Eval : eoEvalFunc<Ind> { void operator()(Ind& x) { if (x.invalid()) { W->evals++; W->total++; W->evaluated.push_back(x.geno); x.objectiveVector(W->at(x)); } W->offs.push_back({x.geno, raw(x.objectiveVector())}); } };
struct PopEval : eoPopEvalFunc<Ind> { Eval e; void operator()(eoPop<Ind>&, eoPop<Ind>& o) { for (auto& x : o) e(x); } };
struct Mut : eoMonOp<Ind> { bool operator()(Ind& x) { if (W->keepSome && eo::rng.flip(0.3)) return false; x.geno ^= 1u << eo::rng.random(W->bits); return true; } std::string className() const { return "Mut"; } };
struct Cross : eoQuadOp<Ind> { bool operator()(Ind& a, Ind& b) { unsigned m = eo::rng.random(1u << W->bits), d = (a.geno ^ b.geno) & m; if (W->keepSome && !d) return false; a.geno ^= d; b.geno ^= d; return true; } std::string className() const { return "Cross"; } };
struct Trans : eoTransform<Ind> { Mut m; void operator()(eoPop<Ind>& p) { for (auto& x : p) if (m(x)) x.invalidate(); } };
template <class Fit, class Div> void survivors(std::vector<std::pair<unsigned, Raw>> all, size_t n, Fit& f, Div& d, std::multiset<std::pair<double, double>>& keys) {
    eoPop<Ind> u; for (auto& a : all) { Ind x; x.geno = a.first; x.objectiveVector(W->table[a.first]); u.push_back(x); } f(u); d(u);
    std::vector<std::pair<double, double>> k; for (auto& x : u) k.push_back({x.fitness(), x.diversity()}); std::sort(k.rbegin(), k.rend()); keys = std::multiset<std::pair<double, double>>(k.begin(), k.begin() + n);
}
enum Algo { NSGA, NSGAII, MOGA, IBEA, SPEA2, EASY, SEEA, ASEEA };
const char* names[] = {"NSGA", "NSGA-II", "MOGA", "IBEA", "SPEA2", "EasyEA", "SEEA", "ASEEA"};
struct Watch : eoContinue<Ind> {
    Algo algo; unsigned maxCalls, calls = 0; std::vector<std::pair<unsigned, Raw>> prev; double niche = 0.5; bool every; std::string who; std::vector<Ind> last;
    void look(eoPop<Ind>& p) {
        ++calls;
        if (algo != ASEEA) CHECK(p.size() == W->n, who << ": population of " << p.size() << " instead of " << W->n);
        std::vector<std::pair<unsigned, Raw>> now; for (auto& x : p) { CHECK(!x.invalid(), who << ": not evaluated"); CHECK(raw(x.objectiveVector()) == raw(W->at(x)), who << ": objective vector differs from the evaluation of the genotype"); now.push_back({x.geno, raw(x.objectiveVector())}); }
        bool first = prev.empty() && calls == 1; bool doWhile = algo != SPEA2 && algo != SEEA && algo != ASEEA; std::vector<std::pair<unsigned, Raw>> off = W->offs;
        if (first && doWhile) { CHECK(off.size() >= W->n, who << ": initial evaluation"); prev.assign(off.begin(), off.begin() + W->n); off.erase(off.begin(), off.begin() + W->n); }
        if (algo != ASEEA) CHECK(off.size() == W->n, who << ": " << off.size() << " offspring evaluated, " << W->n << " expected");
        if (every && algo != ASEEA) CHECK(W->evals == (first && doWhile ? 2 : 1) * W->n || first, who << ": " << W->evals << " evaluations for " << W->n << " modified offspring");
        if (algo == NSGA || algo == NSGAII || algo == MOGA || algo == IBEA) {
            auto all = prev; all.insert(all.end(), off.begin(), off.end()); std::multiset<unsigned> pool, kept; std::set<Raw> keptv; for (auto& a : now) keptv.insert(a.second); for (auto& a : all) pool.insert(a.first); for (auto& a : now) kept.insert(a.first);
            for (unsigned gno : kept) CHECK(kept.count(gno) <= pool.count(gno), who << ": a survivor was neither parent nor offspring, or was duplicated");
            for (auto& a : all) if (!keptv.count(a.second)) for (auto& b : now) CHECK(!dominates(a.second, b.second, W->mini), who << ": dropped " << pbt::strv(a.second) << " but kept the dominated " << pbt::strv(b.second));
            std::multiset<std::pair<double, double>> want, got; for (auto& x : p) got.insert({x.fitness(), x.diversity()});
            if (algo != IBEA) {
                moeoDominanceDepthFitnessAssignment<Ind> fd; moeoDominanceRankFitnessAssignment<Ind> fr; moeoFrontByFrontCrowdingDiversityAssignment<Ind> cd; moeoFrontByFrontSharingDiversityAssignment<Ind> sh(niche);
                if (algo == NSGAII) survivors(all, W->n, fd, cd, want); else if (algo == NSGA) survivors(all, W->n, fd, sh, want); else survivors(all, W->n, fr, sh, want);
                auto i = want.begin(); for (auto& k : got) { CHECK(pbt::near(k.first, i->first) && pbt::near(k.second, i->second), who << ": survivors are not the best ranked, (" << k.first << "," << k.second << ") instead of (" << i->first << "," << i->second << ")"); ++i; }
            }
        }
        if (algo == SPEA2 && !first) { std::multiset<unsigned> a, b; for (auto& x : off) a.insert(x.first); for (auto& x : now) b.insert(x.first); CHECK(a == b, "SPEA2: the population is not the offspring"); }
        if (algo == SEEA) { if (!first) CHECK(prev == now, "SEEA: population changed"); }
        prev = now; W->offs.clear(); W->evals = 0;
    }
    bool operator()(const eoPop<Ind>& p) { look(const_cast<eoPop<Ind>&>(p)); CHECK(calls <= maxCalls, who << ": continuator called after it asked to stop"); return calls < maxCalls; }
    std::string className() const { return "Watch"; }
};
World makeWorld(pbt::Gen& g, unsigned lo, unsigned hi, unsigned nlo, unsigned nhi) {
    World w; w.mini = setupObjectives(g, lo, hi); w.bits = g.range<unsigned>(1, 4); int span = g.oneof({2, 5, 12, 0}); for (unsigned i = 0; i < 1u << w.bits; ++i) w.table.push_back(genOV(g, span)); w.n = g.size(nlo, nhi); w.keepSome = g.boolean(); return w;
}
eoPop<Ind> start(pbt::Gen& g, World& w) { eoPop<Ind> p; for (size_t i = 0; i < w.n; ++i) { Ind x; x.geno = g.draw((1u << w.bits) - 1); p.push_back(x); } return p; }
void front(const moeoArchive<Ind>& a, const std::vector<unsigned>& seen, const std::string& who) {
    std::set<Raw> want, got; for (unsigned s : seen) { bool ok = true; for (unsigned t : seen) if (dominates(raw(W->table[t]), raw(W->table[s]), W->mini)) ok = false; if (ok) want.insert(raw(W->table[s])); }
    for (auto& x : a) { CHECK(raw(x.objectiveVector()) == raw(W->at(const_cast<Ind&>(x))), who << ": archive member badly evaluated"); got.insert(raw(x.objectiveVector())); }
    CHECK(want == got, who << ": the archive is not the front of everything evaluated, " << got.size() << " vectors instead of " << want.size());
}
}
PBT(algorithms, 12000, 120000) {
    Algo a = (Algo)g.oneof({1, 0, 2, 3, 4, 6, 7}); World w = makeWorld(g, 1, 3, a == SPEA2 ? 3 : 1, 8); W = &w; eoPop<Ind> p = start(g, w); unsigned gens = g.range(1, 4); int form = g.draw(4); if (a == SEEA || a == ASEEA || a == SPEA2) { if (form == 0) form = 1; }
    Eval ev; PopEval pev; Mut mu; Cross cr; eoMonGenOp<Ind> gop(mu); Trans tr; double pc = g.oneof({0.0, 1.0, 0.5}), pm = g.oneof({1.0, 0.0, 0.5}); Watch wt; wt.algo = a; wt.maxCalls = gens; wt.niche = g.oneof({0.5, 0.1, 2.0}); wt.every = !w.keepSome && form != 0 && !(a == SPEA2 && form == 1); wt.who = names[a];
    moeoAdditiveEpsilonBinaryMetric<OV> eps; moeoHypervolumeBinaryMetric<OV> hyp(1.5); moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>& met = g.boolean() && w.mini.size() == 2 ? (moeoNormalizedSolutionVsSolutionBinaryMetric<OV, double>&)hyp : eps; moeoExpBinaryIndicatorBasedFitnessAssignment<Ind> ifa(met, 0.05);
    moeoUnboundedArchive<Ind> ar; unsigned mx = g.range(1, 6); std::unique_ptr<moeoEA<Ind>> e; double ni = wt.niche;
    switch (a) {
    case NSGA: e.reset(form == 0 ? new moeoNSGA<Ind>(gens, ev, cr, pc, mu, pm, ni) : form == 1 ? new moeoNSGA<Ind>(wt, ev, gop, ni) : form == 2 ? new moeoNSGA<Ind>(wt, pev, gop, ni) : form == 3 ? new moeoNSGA<Ind>(wt, ev, tr, ni) : new moeoNSGA<Ind>(wt, pev, tr, ni)); break;
    case NSGAII: e.reset(form == 0 ? new moeoNSGAII<Ind>(gens, ev, cr, pc, mu, pm) : form == 1 ? new moeoNSGAII<Ind>(wt, ev, gop) : form == 2 ? new moeoNSGAII<Ind>(wt, pev, gop) : form == 3 ? new moeoNSGAII<Ind>(wt, ev, tr) : new moeoNSGAII<Ind>(wt, pev, tr)); break;
    case MOGA: e.reset(form == 0 ? new moeoMOGA<Ind>(gens, ev, cr, pc, mu, pm, ni) : form == 1 ? new moeoMOGA<Ind>(wt, ev, gop, ni) : form == 2 ? new moeoMOGA<Ind>(wt, pev, gop, ni) : form == 3 ? new moeoMOGA<Ind>(wt, ev, tr, ni) : new moeoMOGA<Ind>(wt, pev, tr, ni)); break;
    case IBEA: { bool own = g.boolean(); e.reset(form == 0 ? new moeoIBEA<Ind>(gens, ev, cr, pc, mu, pm, met) : form == 1 ? (own ? new moeoIBEA<Ind>(wt, ev, gop, ifa) : new moeoIBEA<Ind>(wt, ev, gop, met)) : form == 2 ? (own ? new moeoIBEA<Ind>(wt, pev, gop, ifa) : new moeoIBEA<Ind>(wt, pev, gop, met)) : form == 3 ? new moeoIBEA<Ind>(wt, ev, tr, met) : new moeoIBEA<Ind>(wt, pev, tr, met)); break; }
    case SPEA2: if (form == 1 && g.boolean()) e.reset(new moeoSPEA2<Ind>(wt, pev, cr, pc, mu, pm, ar)); else e.reset(form == 1 ? new moeoSPEA2<Ind>(wt, ev, cr, pc, mu, pm, ar) : form == 2 ? (g.boolean() ? new moeoSPEA2<Ind>(wt, pev, gop, ar) : new moeoSPEA2<Ind>(wt, ev, gop, ar)) : form == 3 ? new moeoSPEA2<Ind>(wt, ev, tr, ar) : new moeoSPEA2<Ind>(wt, pev, tr, ar, 1)); break;
    case SEEA: e.reset(form == 1 ? new moeoSEEA<Ind>(wt, ev, gop, ar) : form == 2 ? new moeoSEEA<Ind>(wt, pev, gop, ar) : form == 3 ? new moeoSEEA<Ind>(wt, ev, tr, ar) : new moeoSEEA<Ind>(wt, pev, tr, ar)); break;
    default: if (form == 1) e.reset(new moeoASEEA<Ind>(wt, ev, cr, pc, mu, pm, ar, mx)); else e.reset(form == 2 ? new moeoASEEA<Ind>(wt, pev, cr, pc, mu, pm, ar, mx) : form == 3 ? new moeoASEEA<Ind>(wt, ev, tr, ar, mx) : new moeoASEEA<Ind>(wt, pev, tr, ar, mx));
    }
    (*e)(p);
    if (form != 0) CHECK(wt.calls == gens, wt.who << ": the continuator was called " << wt.calls << " times for " << gens << " generations");
    else { // the number of generations is a parameter: offspring are logged since the start
        CHECK(w.offs.size() == w.n * (gens + 1), wt.who << ": " << w.offs.size() / (double)w.n - 1 << " generations of offspring instead of " << gens);
        std::set<unsigned> seen; for (auto& o : w.offs) seen.insert(o.first); for (auto& x : p) { CHECK(raw(x.objectiveVector()) == raw(w.at(x)), wt.who << ": badly evaluated"); CHECK(seen.count(x.geno), wt.who << ": unknown solution"); }
        CHECK(p.size() == w.n, wt.who << ": size");
        if (pc == 0 && pm == 0) CHECK(w.total == w.n, wt.who << ": unmodified clones evaluated again, " << w.total << " evaluations");
    }
    if (a == SPEA2 || a == SEEA || a == ASEEA) front(ar, w.evaluated, wt.who);
    g.nontrivial(w.n > 1 && gens > 1); g.note(names[a]).note(" form ").note(form).note(" n=").note(w.n).note(" gens=").note(gens).note(" objectives=").note(w.mini.size());
}
// loops given a number of generations, archive based ones
PBT(archive_algorithms_by_generations, 2500, 25000) {
    Algo a = (Algo)g.oneof({4, 6, 7}); World w = makeWorld(g, 1, 3, 3, 7); w.keepSome = false; W = &w; eoPop<Ind> p = start(g, w); unsigned gens = g.range(1, 4), mx = g.range(1, 5); Eval ev; Mut mu; Cross cr; moeoUnboundedArchive<Ind> ar; double pc = g.oneof({0.0, 1.0, 0.5});
    std::unique_ptr<moeoEA<Ind>> e; if (a == SPEA2) e.reset(new moeoSPEA2<Ind>(gens, ev, cr, pc, mu, 1.0, ar)); else if (a == SEEA) e.reset(new moeoSEEA<Ind>(gens, ev, cr, pc, mu, 1.0, ar)); else e.reset(new moeoASEEA<Ind>(gens, ev, cr, pc, mu, 1.0, ar, mx));
    (*e)(p);
    if (a != ASEEA) { CHECK(w.offs.size() == w.n * gens, names[a] << ": " << w.offs.size() << " offspring logged, " << w.n * gens << " expected"); CHECK(p.size() == w.n, "size"); CHECK(w.total == w.n * gens, names[a] << ": evaluations"); }
    front(ar, w.evaluated, names[a]); g.nontrivial(gens > 1); g.note(names[a]).note(" n=").note(w.n).note(" gens=").note(gens);
}
// the generic loop
namespace {
struct CFit : moeoFitnessAssignment<Ind> { std::vector<size_t> at; void operator()(eoPop<Ind>& p) { at.push_back(W->offs.size()); for (auto& x : p) { CHECK(!x.invalid(), "fitness assigned before the evaluation"); x.fitness(x.geno); } } void updateByDeleting(eoPop<Ind>&, OV&) {} };
struct CDiv : moeoDiversityAssignment<Ind> { unsigned calls = 0; void operator()(eoPop<Ind>& p) { ++calls; for (auto& x : p) x.diversity(0); } void updateByDeleting(eoPop<Ind>&, OV&) {} };
struct CBreed : eoBreed<Ind> { size_t k; unsigned calls = 0; Trans t; void operator()(const eoPop<Ind>& p, eoPop<Ind>& o) { ++calls; CHECK(o.empty(), "offspring left from the previous generation"); for (auto& x : p) CHECK(!x.invalid() && !x.invalidFitness() && !x.invalidDiversity(), "selection before fitness and diversity"); for (size_t i = 0; i < k; ++i) o.push_back(p[i % p.size()]); t(o); } };
struct CSel : eoSelect<Ind> { size_t k; void operator()(const eoPop<Ind>& p, eoPop<Ind>& o) { o.clear(); for (size_t i = 0; i < k; ++i) o.push_back(p[i % p.size()]); } };
struct CRep : moeoReplacement<Ind> { int delta = 0; unsigned calls = 0; void operator()(eoPop<Ind>& p, eoPop<Ind>& o) { ++calls; size_t n = p.size(); for (auto& x : o) CHECK(!x.invalid(), "replacement before the evaluation of the offspring"); for (auto& x : o) x.fitness(x.geno), x.diversity(0); for (auto& x : o) p.push_back(x); std::sort(p.begin(), p.end(), [](const Ind& a, const Ind& b) { return a.geno > b.geno; }); p.resize(n + delta); } };
}
PBT(easy_ea, 4000, 40000) {
    World w = makeWorld(g, 1, 2, 2, 6); W = &w; eoPop<Ind> p = start(g, w); unsigned gens = g.range(1, 4); size_t k = g.range(1, 6); bool each = g.boolean(); int bad = g.chance(1, 4) ? g.oneof({-1, 1}) : 0;
    Eval ev; PopEval pev; CFit f; CDiv d; CBreed b; b.k = k; CSel s; s.k = k; Trans t; CRep r; r.delta = bad;
    struct Cnt : eoContinue<Ind> { unsigned calls = 0, max; bool operator()(const eoPop<Ind>& p) { CHECK(p.size() == W->n, "size"); for (auto& x : p) CHECK(raw(x.objectiveVector()) == raw(W->table[x.geno]), "badly evaluated"); return ++calls < max; } std::string className() const { return "Cnt"; } } c; c.max = gens;
    int form = g.draw(3); std::unique_ptr<moeoEasyEA<Ind>> e(form == 0 ? new moeoEasyEA<Ind>(c, ev, b, r, f, d, each) : form == 1 ? new moeoEasyEA<Ind>(c, pev, b, r, f, d, each) : form == 2 ? new moeoEasyEA<Ind>(c, ev, s, t, r, f, d, each) : new moeoEasyEA<Ind>(c, pev, s, t, r, f, d, each));
    bool thrown = false; try { (*e)(p); } catch (eoPopSizeChangeException&) { thrown = true; }
    CHECK(thrown == (bad != 0), "population size change " << bad << (thrown ? " thrown" : " not reported"));
    if (!bad) { CHECK(c.calls == gens && r.calls == gens, "one continuator and replacement call per generation"); CHECK(f.at.size() == (each ? gens : 1) && d.calls == f.at.size(), "fitness assigned " << f.at.size() << " times"); CHECK(w.offs.size() == w.n + gens * k, "evaluated " << w.offs.size()); if (!w.keepSome) CHECK(w.total == w.n + gens * k, "evaluations"); }
    g.nontrivial(gens > 1 && !bad); g.note("form ").note(form).note(" n=").note(w.n).note(" k=").note(k).note(" gens=").note(gens);
}
// mating selection is a binary tournament on (fitness, diversity)
PBT(mating_selection, 240, 1500) {
    Algo a = (Algo)g.oneof({1, 0, 2, 3}); World w = makeWorld(g, 2, 2, 2, 6); W = &w; w.keepSome = false; w.bits = 4; w.table.clear(); for (int i = 0; i < 16; ++i) w.table.push_back(genOV(g, 4)); eoPop<Ind> p; for (size_t i = 0; i < w.n; ++i) { Ind x; x.geno = (i * 7 + 3) % 16; x.from = i; p.push_back(x); }
    Eval ev; moeoAdditiveEpsilonBinaryMetric<OV> eps; eoPop<Ind> q = p; for (auto& x : q) ev(x);
    if (a == NSGAII) { moeoDominanceDepthFitnessAssignment<Ind> f; moeoFrontByFrontCrowdingDiversityAssignment<Ind> d; f(q); d(q); } else if (a == NSGA) { moeoDominanceDepthFitnessAssignment<Ind> f; moeoFrontByFrontSharingDiversityAssignment<Ind> d(0.5); f(q); d(q); } else if (a == MOGA) { moeoDominanceRankFitnessAssignment<Ind> f; moeoFrontByFrontSharingDiversityAssignment<Ind> d(0.5); f(q); d(q); } else { moeoExpBinaryIndicatorBasedFitnessAssignment<Ind> f(eps, 0.05); f(q); for (auto& x : q) x.diversity(0); }
    std::vector<double> pr(w.n, 0); auto better = [&](size_t i, size_t j) { return std::make_pair(q[i].fitness(), q[i].diversity()) > std::make_pair(q[j].fitness(), q[j].diversity()); };
    for (size_t i = 0; i < w.n; ++i) for (size_t j = 0; j < w.n; ++j) { if (better(i, j)) pr[i] += 1; else if (better(j, i)) pr[j] += 1; else { pr[i] += 0.5; pr[j] += 0.5; } } for (auto& x : pr) x /= w.n * w.n;
    static std::vector<unsigned> cnt; cnt.assign(w.n, 0); static bool on; on = true;
    struct Tag : eoMonOp<Ind> { bool operator()(Ind& x) { if (on) cnt[x.from]++; return false; } std::string className() const { return "Tag"; } } tag; struct TagT : eoTransform<Ind> { void operator()(eoPop<Ind>& p) { for (auto& x : p) cnt[x.from]++; } } tagt; eoMonGenOp<Ind> gop(tag);
    struct One : eoContinue<Ind> { bool operator()(const eoPop<Ind>&) { return false; } std::string className() const { return "One"; } } one; int form = g.draw(4); PopEval pev; Cross cr; std::unique_ptr<moeoEA<Ind>> e;
    switch (a) {
    case NSGA: e.reset(form == 0 ? new moeoNSGA<Ind>(1u, ev, cr, 0.0, tag, 1.0) : form == 1 ? new moeoNSGA<Ind>(one, ev, tagt) : form == 2 ? new moeoNSGA<Ind>(one, ev, gop) : form == 3 ? new moeoNSGA<Ind>(one, pev, tagt) : new moeoNSGA<Ind>(one, pev, gop)); break;
    case NSGAII: e.reset(form == 0 ? new moeoNSGAII<Ind>(1u, ev, cr, 0.0, tag, 1.0) : form == 1 ? new moeoNSGAII<Ind>(one, ev, tagt) : form == 2 ? new moeoNSGAII<Ind>(one, ev, gop) : form == 3 ? new moeoNSGAII<Ind>(one, pev, tagt) : new moeoNSGAII<Ind>(one, pev, gop)); break;
    case MOGA: e.reset(form == 0 ? new moeoMOGA<Ind>(1u, ev, cr, 0.0, tag, 1.0) : form == 1 ? new moeoMOGA<Ind>(one, ev, tagt) : form == 2 ? new moeoMOGA<Ind>(one, ev, gop) : form == 3 ? new moeoMOGA<Ind>(one, pev, tagt) : new moeoMOGA<Ind>(one, pev, gop)); break;
    default: e.reset(form == 0 ? new moeoIBEA<Ind>(1u, ev, cr, 0.0, tag, 1.0, eps) : form == 1 ? new moeoIBEA<Ind>(one, ev, tagt, eps) : form == 2 ? new moeoIBEA<Ind>(one, ev, gop, eps) : form == 3 ? new moeoIBEA<Ind>(one, pev, tagt, eps) : new moeoIBEA<Ind>(one, pev, gop, eps)); }
    g.label("form", form);
    // a loop given a number of generations keeps counting over its runs: built again for each
    if (form == 0) { for (unsigned i = 0; i < 2000 / w.n; ++i) { if (a == NSGA) e.reset(new moeoNSGA<Ind>(1u, ev, cr, 0.0, tag, 1.0)); else if (a == NSGAII) e.reset(new moeoNSGAII<Ind>(1u, ev, cr, 0.0, tag, 1.0)); else if (a == MOGA) e.reset(new moeoMOGA<Ind>(1u, ev, cr, 0.0, tag, 1.0)); else e.reset(new moeoIBEA<Ind>(1u, ev, cr, 0.0, tag, 1.0, eps)); eoPop<Ind> r = p; (*e)(r); w.offs.clear(); } checkFreq(pr, cnt, std::string(names[a]) + ": parents selected"); g.nontrivial(true); return; }
    for (unsigned i = 0; i < 2000 / w.n; ++i) { eoPop<Ind> r = p; (*e)(r); w.offs.clear(); }
    checkFreq(pr, cnt, std::string(names[a]) + ": parents selected"); g.nontrivial(true); g.note(names[a]).note(" n=").note(w.n);
}
