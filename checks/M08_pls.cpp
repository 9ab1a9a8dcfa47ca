// M08: neighbourhood explorers and dominance-based local search.
#include "moeo_support.hpp"
using namespace sup;
namespace {
struct Ind : public MOEO<OV, double, double> { unsigned geno = 0; int id = -1; virtual std::string className() const { return "Ind"; } };
typedef std::vector<double> Raw;
struct World { std::vector<bool> mini; unsigned bits; std::vector<OV> table; std::vector<std::vector<unsigned>> nb; unsigned full = 0, incr = 0; };
World* W;
struct Nb : moNeighbor<Ind, OV> { unsigned key = 0; void move(Ind& x) { x.geno = key; } };
// neighbours listed per genotype, in a given order
struct Hood : moNeighborhood<Nb> {
    size_t pos = 0; bool hasNeighbor(Ind& x) { return !W->nb[x.geno].empty(); } void init(Ind& x, Nb& n) { pos = 0; n.key = W->nb[x.geno].at(0); } void next(Ind& x, Nb& n) { n.key = W->nb[x.geno].at(++pos); } bool cont(Ind& x) { return pos + 1 < W->nb[x.geno].size(); }
};
struct NEval : moEval<Nb> { void operator()(Ind&, Nb& n) { W->incr++; n.fitness(W->table[n.key]); } };
struct Eval : eoEvalFunc<Ind> { void operator()(Ind& x) { if (x.invalid()) { W->full++; x.objectiveVector(W->table[x.geno]); } } };
World makeWorld(pbt::Gen& g, bool allowEmpty) {
    World w; w.mini = setupObjectives(g, 1, 3); w.bits = g.range<unsigned>(1, 4); int span = g.oneof({3, 1, 8, 0}); unsigned N = 1u << w.bits; for (unsigned i = 0; i < N; ++i) w.table.push_back(genOV(g, span));
    for (unsigned i = 0; i < N; ++i) { std::vector<unsigned> v; unsigned k = g.size(allowEmpty ? 0 : 1, 6); for (unsigned j = 0; j < k; ++j) v.push_back(g.draw(N - 1)); w.nb.push_back(v); } return w;
}
Ind ind(unsigned geno, int id, bool ev = true) { Ind x; x.geno = geno; x.id = id; if (ev) x.objectiveVector(W->table[geno]); return x; }
}
PBT(explorers, 20000, 200000) {
    World w = makeWorld(g, true); W = &w; unsigned N = 1u << w.bits; eoPop<Ind> src; unsigned n = g.size(1, 5); for (unsigned i = 0; i < n; ++i) { src.push_back(ind(g.draw(N - 1), i)); src.back().flag(g.oneof({0, 1, -1})); src.back().fitness(i); } auto src0 = src; std::vector<unsigned> sel; unsigned m = g.size(0, 4); for (unsigned i = 0; i < m; ++i) { unsigned k = g.draw(n - 1); if (std::find(sel.begin(), sel.end(), k) == sel.end()) sel.push_back(k); }
    eoPop<Ind> dest; unsigned pre = g.size(0, 2); for (unsigned i = 0; i < pre; ++i) dest.push_back(ind(g.draw(N - 1), 90 + i)); auto dest0 = dest;
    Hood h; NEval e; unsigned num = g.oneof({1, 2, 3, 0, 7}); int kind = g.draw(3); moeoExhaustiveNeighborhoodExplorer<Nb> x0(h, e); moeoSimpleSubNeighborhoodExplorer<Nb> x1(h, num, e); moeoFirstImprovingNeighborhoodExplorer<Nb> x2(h, e); moeoNoDesimprovingNeighborhoodExplorer<Nb> x3(h, e); moeoPopNeighborhoodExplorer<Nb>* xs[] = {&x0, &x1, &x2, &x3}; const char* nm[] = {"exhaustive", "simple", "first improving", "no desimproving"};
    std::vector<std::pair<unsigned, int>> want; std::vector<int> flag; for (auto& s : src) flag.push_back(s.flag());
    for (unsigned s : sel) { auto& L = w.nb[src[s].geno]; Raw me = raw(w.table[src[s].geno]); size_t seen = 0;
        if (kind == 1 && num == 0) continue;
        for (unsigned k : L) { ++seen; Raw o = raw(w.table[k]); bool bad = dominates(me, o, w.mini), good = dominates(o, me, w.mini); if (kind < 2 || !bad) want.push_back({k, (int)s}); if (kind == 1 && seen == num) break; if (kind == 2 && good) break; if (kind == 3 && !bad) break; }
        if (!L.empty() && seen == L.size()) flag[s] = 1; }
    (*xs[kind])(src, sel, dest);
    CHECK(dest.size() == pre + want.size(), nm[kind] << " explorer: " << dest.size() - pre << " neighbours, " << want.size() << " expected");
    for (size_t i = 0; i < pre; ++i) CHECK(dest[i].id == dest0[i].id && dest[i].geno == dest0[i].geno, "earlier content altered");
    for (size_t i = 0; i < want.size(); ++i) { auto& d = dest[pre + i]; CHECK(d.geno == want[i].first && d.id == want[i].second, nm[kind] << " explorer: neighbour " << i << " is " << d.geno << " of " << d.id << ", expected " << want[i].first << " of " << want[i].second); CHECK(!d.invalidObjectiveVector() && raw(d.objectiveVector()) == raw(w.table[d.geno]), nm[kind] << " explorer: objective vector of a neighbour differs from its evaluation"); CHECK(d.flag() == 0, nm[kind] << " explorer: new solution must be unvisited"); }
    for (size_t i = 0; i < n; ++i) { CHECK(src[i].geno == src0[i].geno && raw(src[i].objectiveVector()) == raw(src0[i].objectiveVector()), "source altered"); CHECK(src[i].flag() == flag[i], nm[kind] << " explorer: flag of source " << i << " is " << src[i].flag() << ", expected " << flag[i]); }
    g.nontrivial(want.size() > 1); g.note(nm[kind]).note(" sources ").note(sel.size()).note(" neighbours ").note(want.size());
}
namespace {
struct Cnt : eoContinue<Ind> { unsigned calls = 0, max; bool operator()(const eoPop<Ind>& p) { ++calls; for (auto& x : p) CHECK(raw(x.objectiveVector()) == raw(W->table[x.geno]), "archive member badly evaluated"); return calls < max; } std::string className() const { return "Cnt"; } };
void front(const eoPop<Ind>& a, const std::vector<Raw>& covered) {
    CHECK(!a.empty() || covered.empty(), "empty archive"); for (auto& x : a) { CHECK(raw(x.objectiveVector()) == raw(W->table[x.geno]), "archive member badly evaluated"); for (auto& y : a) CHECK(!dominates(raw(x.objectiveVector()), raw(y.objectiveVector()), W->mini), "archive member dominated"); }
    for (auto& c : covered) { bool ok = false; for (auto& x : a) ok |= weakly(raw(x.objectiveVector()), c, W->mini); CHECK(ok, "a solution seen is not covered by the archive"); }
}
}
PBT(local_search, 12000, 120000) {
    World w = makeWorld(g, false); W = &w; unsigned N = 1u << w.bits; eoPop<Ind> p; unsigned n = g.size(1, 4); std::vector<Raw> seen; for (unsigned i = 0; i < n; ++i) { p.push_back(ind(g.draw(N - 1), i, g.boolean())); seen.push_back(raw(w.table[p.back().geno])); }
    Hood h; NEval ne; Eval ev; Cnt c; bool limited = g.chance(1, 3); bool repl = g.chance(1, 3); c.max = limited ? g.range(1, 4) : repl ? 25 : 100000; moeoUnboundedArchive<Ind> ar(repl); int kind = g.draw(3), xk = g.draw(3); moeoExhaustiveNeighborhoodExplorer<Nb> x0(h, ne); moeoSimpleSubNeighborhoodExplorer<Nb> x1(h, g.range(1, 3), ne); moeoFirstImprovingNeighborhoodExplorer<Nb> x2(h, ne); moeoNoDesimprovingNeighborhoodExplorer<Nb> x3(h, ne); moeoPopNeighborhoodExplorer<Nb>* xs[] = {&x0, &x1, &x2, &x3}; if (kind < 2) xk = 0; if (!limited && xk) { c.max = 30; }
    moeoExhaustiveUnvisitedSelect<Ind> su; moeoNumberUnvisitedSelect<Ind> sn(g.range(1, 3)); moeoUnvisitedSelect<Ind>& s = g.boolean() ? (moeoUnvisitedSelect<Ind>&)su : sn;
    std::unique_ptr<moeoPopLS<Nb>> ls(kind == 0 ? (moeoPopLS<Nb>*)new moeoPLS1<Nb>(c, ev, ar, h, ne) : kind == 1 ? (moeoPopLS<Nb>*)new moeoPLS2<Nb>(c, ev, ar, h, ne) : new moeoUnifiedDominanceBasedLS<Nb>(c, ev, ar, *xs[xk], s));
    (*ls)(p);
    front(ar, seen); bool own = c.calls < c.max; CHECK(c.calls >= 1 && c.calls <= c.max, "continuator called " << c.calls << " times");
    for (auto& x : p) CHECK(!x.invalid(), "start population not evaluated");
    if (own) { for (auto& x : ar) CHECK(x.flag() == 1, "stopped by itself with an unvisited archive member"); if (xk == 0) for (auto& x : ar) for (unsigned k : w.nb[x.geno]) seen.push_back(raw(w.table[k])); front(ar, seen); }
    else { bool unv = false; for (auto& x : ar) unv |= x.flag() != 1; g.label(unv ? "interrupted" : "done at the limit"); }
    if (xk == 0 && !limited && !repl) CHECK(own, "did not stop although everything is visited");
    for (auto& x : ar) if (x.flag() == 1 && xk == 0) for (unsigned k : w.nb[x.geno]) { bool ok = false; for (auto& y : ar) ok |= weakly(raw(y.objectiveVector()), raw(w.table[k]), w.mini); CHECK(ok, "visited member with a neighbour better than the archive"); }
    g.nontrivial(ar.size() > 1 || c.calls > 1); g.note("kind ").note(kind).note(" explorer ").note(xk).note(" archive ").note(ar.size()).note(" iterations ").note(c.calls);
}
PBT(hybrids, 4000, 40000) {
    World w = makeWorld(g, false); W = &w; unsigned N = 1u << w.bits; Hood h; NEval ne; Eval ev; moeoExhaustiveNeighborhoodExplorer<Nb> x(h, ne); moeoExhaustiveUnvisitedSelect<Ind> s; moeoUnboundedArchive<Ind> da(false), ga(g.boolean()); unsigned step = g.range(1, 4);
    int form = g.draw(2); Cnt c; c.max = 100000; moeoUnifiedDominanceBasedLS<Nb> ls(c, ev, da, x, s);
    if (g.boolean()) { std::unique_ptr<moeoDMLSMonOp<Nb>> op(form == 0 ? new moeoDMLSMonOp<Nb>(ls, da, false) : form == 1 ? new moeoDMLSMonOp<Nb>(ev, x, s, step, false) : new moeoDMLSMonOp<Nb>(ev, da, x, s, step, false));
        for (unsigned r = 0; r < 2; ++r) { Ind i = ind(g.draw(N - 1), 0), b = i; bool ch = (*op)(i); CHECK(!ch, "the individual is evaluated, it must not be reported as changed"); CHECK(!i.invalid() && raw(i.objectiveVector()) == raw(w.table[i.geno]), "badly evaluated"); CHECK(!dominates(raw(b.objectiveVector()), raw(i.objectiveVector()), w.mini), "worse than before"); if (form != 1) { bool in = false; for (auto& y : da) in |= y.geno == i.geno; CHECK(in, "not a member of the archive"); front(da, {raw(b.objectiveVector())}); } }
        g.note("operator, form ").note(form);
    } else { unsigned per = g.range(1, 3); eoGenContinue<Ind> gc(per); std::unique_ptr<moeoDMLSGenUpdater<Nb>> up(form == 0 ? new moeoDMLSGenUpdater<Nb>(ls, da, ga, gc, false) : form == 1 ? new moeoDMLSGenUpdater<Nb>(ev, x, s, ga, gc, step, false) : new moeoDMLSGenUpdater<Nb>(ev, da, x, s, ga, gc, step, false));
        eoPop<Ind> p; unsigned n = g.size(1, 4); std::vector<Raw> seen; for (unsigned i = 0; i < n; ++i) { p.push_back(ind(g.draw(N - 1), i)); seen.push_back(raw(w.table[p.back().geno])); } ga(p);
        for (unsigned t = 1; t <= 2 * per; ++t) { unsigned before = w.incr; (*up)(); if (t < per) CHECK(w.incr == before, "local search run in generation " << t << " of a period of " << per); if (t == per) { CHECK(w.incr > before, "local search not run after " << per << " generations"); if (form == 0) for (auto& y : ga) for (unsigned k : w.nb[y.geno]) seen.push_back(raw(w.table[k])); } front(ga, seen); }
        g.note("updater, form ").note(form); }
    g.nontrivial(true);
}

// the same with larger sizes
PBT_LARGE(explorers, 60, 600, 10)
PBT_LARGE(local_search, 60, 600, 10)
PBT_LARGE(hybrids, 60, 600, 10)
