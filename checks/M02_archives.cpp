// M02: archives versus a brute-force model of "everything offered so far".
#include "moeo_support.hpp"
#include <archive/moeo2DMinHypervolumeArchive.h>
#include <archive/moeoEpsilonHyperboxArchive.h>
#include <algorithm>
using namespace sup;

namespace {
struct Offered { int id; std::vector<double> v; };

std::string show(const std::vector<Offered>& h) {
    std::ostringstream o; for (auto& x : h) { o << "#" << x.id << pbt::strv(x.v) << " "; } return o.str();
}
// checks an archive against the history under full Pareto-front semantics
template <class A> void checkFront(A& arch, const std::vector<Offered>& hist, const std::vector<bool>& mini, bool replace) {
    std::map<std::vector<double>, int> expect; // vector -> id
    for (auto& x : hist) {
        bool dom = false;
        for (auto& y : hist) if (dominates(y.v, x.v, mini)) { dom = true; break; }
        if (dom) continue;
        if (replace || !expect.count(x.v)) expect[x.v] = x.id;
    }
    std::map<std::vector<double>, int> got;
    for (unsigned i = 0; i < arch.size(); ++i) {
        auto v = raw(arch[i].objectiveVector());
        CHECK(!got.count(v), "vector " << pbt::strv(v) << " twice in the archive; offered " << show(hist));
        got[v] = arch[i].id;
    }
    for (auto& e : expect) {
        CHECK(got.count(e.first), "missing " << pbt::strv(e.first) << "; offered " << show(hist));
        CHECK(got[e.first] == e.second, "representative of " << pbt::strv(e.first) << " is #" << got[e.first] << " instead of #" << e.second << "; offered " << show(hist));
    }
    for (auto& e : got) CHECK(expect.count(e.first), "dominated " << pbt::strv(e.first) << " kept; offered " << show(hist));
}
bool entersFront(const std::vector<Offered>& hist, const Offered& x, const std::vector<bool>& mini, bool replace) {
    for (auto& y : hist) { if (dominates(y.v, x.v, mini)) return false; if (!replace && y.v == x.v) return false; }
    return true;
}
// grid choice: mostly on an anti-correlated band so that fronts get long
OV genFrontish(pbt::Gen& g, const std::vector<bool>& mini, int span) {
    OV v = genOV(g, span);
    if (g.chance(2, 3)) {
        double s = 0; unsigned n = v.size();
        for (unsigned i = 0; i + 1 < n; ++i) s += mini[i] ? v[i] : span - v[i];
        double last = std::max(0.0, (double)span * (n - 1) / (n > 1 ? 1.0 : 1.0) - s);
        if (n > 1) { last = std::min<double>(last + g.range(0, 1), 3 * span); v[n - 1] = mini[n - 1] ? last : -last; }
    }
    return v;
}
} // namespace

PBT(unbounded_archive, 48000, 400000) {
    auto mini = setupObjectives(g, 1, 4);
    bool byDefault = g.chance(1, 5), replace = byDefault || g.boolean();
    bool ownComparator = g.boolean();
    moeoParetoObjectiveVectorComparator<OV> cmp;
    std::unique_ptr<moeoUnboundedArchive<Sol>> arch(byDefault ? (ownComparator ? new moeoUnboundedArchive<Sol>(cmp) : new moeoUnboundedArchive<Sol>()) : ownComparator ? new moeoUnboundedArchive<Sol>(cmp, replace) : new moeoUnboundedArchive<Sol>(replace));
    int span = g.oneof({2, 4, 8, 30});
    std::vector<Offered> hist; int id = 0; bool interesting = false;
    unsigned ops = g.size(1, 12);
    for (unsigned k = 0; k < ops; ++k) {
        if (g.boolean()) {
            OV v = genFrontish(g, mini, span); Sol s(id, v);
            Offered x{id++, raw(v)};
            bool want = entersFront(hist, x, mini, replace);
            for (auto& y : hist) if (y.v == x.v || dominates(y.v, x.v, mini) || dominates(x.v, y.v, mini)) interesting = true;
            // queries before insertion
            bool dom = false, has = false;
            for (auto& y : hist) { if (dominates(y.v, x.v, mini)) dom = true; }
            for (unsigned i = 0; i < arch->size(); ++i) if (raw((*arch)[i].objectiveVector()) == x.v) has = true;
            CHECK(arch->dominates(v) == dom, "dominates() wrong for " << pbt::strv(x.v) << " after " << show(hist));
            CHECK(arch->contains(v) == has, "contains() wrong");
            bool got = (*arch)(s);
            CHECK(got == want, "insertion of " << pbt::strv(x.v) << " reported " << got << " after " << show(hist));
            hist.push_back(x);
        } else {
            unsigned n = g.size(0, 12);
            eoPop<Sol> pop; bool want = false;
            for (unsigned i = 0; i < n; ++i) {
                OV v = genFrontish(g, mini, span);
                if (!hist.empty() && g.chance(1, 5)) { auto& h = g.oneof(hist); for (unsigned j = 0; j < v.size(); ++j) v[j] = h.v[j]; }
                pop.push_back(Sol(id, v));
                Offered x{id++, raw(v)};
                for (auto& y : hist) if (y.v == x.v || dominates(y.v, x.v, mini)) interesting = true;
                if (entersFront(hist, x, mini, replace)) want = true;
                hist.push_back(x);
            }
            bool got = (*arch)(pop);
            CHECK(got == want, "population insertion reported " << got << " after " << show(hist));
            CHECK(pop.size() == n, "source population changed size");
            for (unsigned i = 0; i < n; ++i) CHECK(pop[i].id == id - (int)n + (int)i, "source population modified");
        }
        checkFront(*arch, hist, mini, replace);
    }
    g.nontrivial(interesting);
    g.note("objectives=").note(mini.size()).note(" replace=").note(replace).note(" offered ").note(show(hist));
}

// equality of two archives fed with permutations of the same offers
PBT(archive_equals, 4000, 60000) {
    auto mini = setupObjectives(g, 1, 3);
    moeoUnboundedArchive<Sol> a, b;
    std::vector<Sol> s; unsigned n = g.size(1, 20);
    for (unsigned i = 0; i < n; ++i) s.push_back(Sol(i, genFrontish(g, mini, 6)));
    for (auto& x : s) a(x);
    std::vector<Sol> t(s);
    for (unsigned i = n; i > 1; --i) std::swap(t[i - 1], t[g.draw(i - 1)]);
    for (auto& x : t) b(x);
    CHECK(a.equals(b) && b.equals(a), "archives of the same offers in another order differ");
    // an extra non-dominated vector makes them differ, both ways
    OV v = a[0].objectiveVector(); v[0] += mini[0] ? -100 : 100;
    Sol x(1000, v); b(x);
    CHECK(!a.equals(b) && !b.equals(a), "equals() misses a difference");
    g.nontrivial(a.size() > 1);
    g.note("n=").note(n).note(" front=").note(a.size());
}

PBT(improving_only_bounded, 24000, 200000) {
    auto mini = setupObjectives(g, 1, 4);
    bool replace = g.boolean(); unsigned cap = g.size(1, 10);
    moeoImprOnlyBoundedArchive<Sol> arch(cap, replace);
    std::vector<Offered> hist; std::vector<Offered> model; bool full = false; int id = 0;
    unsigned n = g.size(1, 40);
    auto step = [&](const Offered& x) {
        std::vector<Offered> m2;
        for (auto& y : model) if (!dominates(x.v, y.v, mini) && !(replace && x.v == y.v)) m2.push_back(y);
        bool dom = false;
        for (auto& y : m2) if (dominates(y.v, x.v, mini) || (!replace && y.v == x.v)) dom = true;
        bool in = false;
        if (!dom) { if (m2.size() < cap) { m2.push_back(x); in = true; } else full = true; }
        model = m2; return in;
    };
    for (unsigned k = 0; k < n; ++k) {
        bool want = false, got;
        if (g.boolean()) {
            OV v = genFrontish(g, mini, 6); Sol s(id, v); Offered x{id++, raw(v)};
            want = step(x); hist.push_back(x); got = arch(s);
        } else {
            eoPop<Sol> pop; unsigned m = g.size(0, 5);
            for (unsigned i = 0; i < m; ++i) { OV v = genFrontish(g, mini, 6); pop.push_back(Sol(id, v)); Offered x{id++, raw(v)}; hist.push_back(x); want = step(x) || want; }
            got = arch(pop);
        }
        CHECK(got == want, "insertion reported " << got << ", cap " << cap << " offers " << show(hist));
        CHECK(arch.size() <= cap, "capacity exceeded");
        std::set<int> a, b; for (unsigned i = 0; i < arch.size(); ++i) a.insert(arch[i].id); for (auto& y : model) b.insert(y.id);
        CHECK(a == b && a.size() == arch.size(), "content differs from the model, cap " << cap << " offers " << show(hist));
    }
    g.nontrivial(full); g.label(full ? "full" : "notfull");
    g.note("cap=").note(cap).note(" offers ").note(show(hist));
}

namespace {
// fitness and diversity that only depend on the identity, so that the preferred members are known
struct IdFitness : public moeoFitnessAssignment<Sol> {
    int a; IdFitness(int a_) : a(a_) {}
    void operator()(eoPop<Sol>& p) { for (auto& s : p) s.fitness((double)((s.id * a) % 4)); }
    void updateByDeleting(eoPop<Sol>&, OV&) {}
};
struct IdDiversity : public moeoDiversityAssignment<Sol> {
    int a; IdDiversity(int a_) : a(a_) {}
    void operator()(eoPop<Sol>& p) { for (auto& s : p) s.diversity((double)((s.id * a) % 101)); }
    void updateByDeleting(eoPop<Sol>&, OV&) {}
};
}

PBT(fitness_diversity_bounded, 24000, 200000) {
    auto mini = setupObjectives(g, 2, 4);
    bool replace = g.boolean(); unsigned cap = g.size(1, 8);
    IdFitness fit(g.range(1, 3)); IdDiversity div(g.range(1, 100));
    moeoFitnessThenDiversityComparator<Sol> cmp;
    moeoFitDivBoundedArchive<Sol> arch(cmp, fit, div, cap, replace);
    int id = 0; bool truncated = false; unsigned n = g.size(1, 15);
    std::vector<Offered> hist;
    for (unsigned k = 0; k < n; ++k) {
        std::vector<Offered> model;
        for (unsigned i = 0; i < arch.size(); ++i) model.push_back({arch[i].id, raw(arch[i].objectiveVector())});
        eoPop<Sol> pop; unsigned m = g.boolean() ? 1 : g.size(0, 10); bool want = false;
        for (unsigned i = 0; i < m; ++i) {
            OV v = genFrontish(g, mini, 6); Offered x{id, raw(v)}; pop.push_back(Sol(id, v)); ++id; hist.push_back(x);
            std::vector<Offered> m2;
            for (auto& y : model) if (!dominates(x.v, y.v, mini) && !(replace && x.v == y.v)) m2.push_back(y);
            bool dom = false;
            for (auto& y : m2) if (dominates(y.v, x.v, mini) || (!replace && y.v == x.v)) dom = true;
            if (!dom) { m2.push_back(x); want = true; }
            model = m2;
        }
        bool got = (m == 1 && g.boolean()) ? arch(pop[0]) : arch(pop);
        CHECK(got == want, "insertion reported " << got << "; cap " << cap << " offers " << show(hist));
        CHECK(arch.size() == std::min<size_t>(cap, model.size()), "size " << arch.size() << " instead of " << std::min<size_t>(cap, model.size()) << "; offers " << show(hist));
        std::set<int> in; for (unsigned i = 0; i < arch.size(); ++i) in.insert(arch[i].id);
        CHECK(in.size() == arch.size(), "individual duplicated in the archive");
        auto key = [&](int i) { return std::make_pair((i * fit.a) % 4, (i * div.a) % 101); };
        for (int i : in) { bool found = false; for (auto& y : model) if (y.id == i) found = true; CHECK(found, "#" << i << " should not be in the archive; offers " << show(hist)); }
        if (model.size() > cap) {
            truncated = true;
            for (auto& y : model) if (!in.count(y.id)) for (int i : in)
                CHECK(!(key(i) < key(y.id)), "truncation removed #" << y.id << " which is preferred to kept #" << i << " (cap " << cap << "; offers " << show(hist) << ")");
        }
    }
    g.nontrivial(truncated); g.label(truncated ? "truncated" : "fits");
    g.note("cap=").note(cap).note(" offers ").note(show(hist));
}

PBT(hypervolume_2d_bounded, 32000, 260000) {
    std::vector<bool> mini(2, true); OV::setup(2, mini);
    unsigned cap = g.size(2, 8);
    moeo2DMinHypervolumeArchive<Sol> arch(cap, 1e6);
    std::vector<std::vector<double>> B; std::vector<Offered> hist; bool overflow = false; int id = 0;
    unsigned n = g.size(1, 40); int span = g.oneof({3, 8, 20});
    for (unsigned k = 0; k < n; ++k) {
        OV v = genFrontish(g, mini, span); Sol s(id, v); Offered x{id++, raw(v)}; hist.push_back(x);
        bool wdom = false; for (auto& y : B) if (weakly(y, x.v, mini)) wdom = true;
        std::vector<std::vector<double>> N;
        for (auto& y : B) if (!dominates(x.v, y, mini)) N.push_back(y);
        N.push_back(x.v);
        bool got;
        if (g.chance(1, 4)) { eoPop<Sol> p; p.push_back(s); got = arch(p); } else got = arch(s);
        std::vector<std::vector<double>> C;
        for (auto it = arch.begin(); it != arch.end(); ++it) C.push_back(raw(it->objectiveVector()));
        auto sorted = [](std::vector<std::vector<double>> z) { std::sort(z.begin(), z.end()); return z; };
        if (wdom) {
            CHECK(!got && sorted(C) == sorted(B), "a dominated or equal vector changed the archive; cap " << cap << " offers " << show(hist));
        } else if (N.size() <= cap) {
            CHECK(got && sorted(C) == sorted(N), "a non-dominated vector was not stored although there is room; cap " << cap << " offers " << show(hist));
        } else {
            overflow = true;
            CHECK(C.size() == cap, "size " << C.size() << " with capacity " << cap << "; offers " << show(hist));
            for (auto& y : C) CHECK(std::find(N.begin(), N.end(), y) != N.end(), "unexpected vector " << pbt::strv(y) << "; offers " << show(hist));
            auto lo0 = *std::min_element(N.begin(), N.end()), lo1 = *std::min_element(N.begin(), N.end(), [](const std::vector<double>& a, const std::vector<double>& b) { return a[1] < b[1]; });
            CHECK(std::find(C.begin(), C.end(), lo0) != C.end() && std::find(C.begin(), C.end(), lo1) != C.end(), "an extreme vector was dropped; cap " << cap << " offers " << show(hist));
            if (!got) CHECK(sorted(C) == sorted(B), "rejected but content changed");
            // the one left out contributes least
            auto S = sorted(N); double least = 1e300, out = -1;
            for (unsigned i = 0; i < S.size(); ++i) {
                double c = i == 0 || i + 1 == S.size() ? 1e6 : (S[i + 1][0] - S[i][0]) * (S[i - 1][1] - S[i][1]);
                least = std::min(least, c); if (std::find(C.begin(), C.end(), S[i]) == C.end()) out = c;
            }
            CHECK(out == least, "the vector left out contributes " << out << " but another one only " << least << "; cap " << cap << " offers " << show(hist));
        }
        B = C;
        { auto S = sorted(C); for (auto it = arch.begin(); it != arch.end(); ++it) { auto y = raw(it->objectiveVector()); unsigned i = std::find(S.begin(), S.end(), y) - S.begin(); double c = i == 0 || i + 1 == S.size() ? 1e6 : (S[i + 1][0] - S[i][0]) * (S[i - 1][1] - S[i][1]); CHECK(it->fitness() == c, "fitness " << it->fitness() << " of " << pbt::strv(y) << " is not its contribution " << c << "; cap " << cap << " offers " << show(hist)); } }
        for (auto& y : C) for (auto& z : C) CHECK(!dominates(y, z, mini), "dominated vector kept; offers " << show(hist));
    }
    g.nontrivial(overflow); g.label(overflow ? "overflow" : "fits");
    g.note("cap=").note(cap).note(" offers ").note(show(hist));
}

PBT(spea2_fixed_size, 8000, 120000) {
    auto mini = setupObjectives(g, 2, 3);
    unsigned cap = g.size(1, 10);
    moeoSPEA2Archive<Sol> arch(cap);
    moeoEuclideanDistance<Sol> dist;
    moeoDominanceCountRankingFitnessAssignment<Sol> fit(arch, false);
    moeoNearestNeighborDiversityAssignment<Sol> div(dist, arch, g.range<unsigned>(1, 3));
    std::vector<Offered> hist; std::map<int, int> offeredCount; int id = 0; unsigned rounds = g.size(1, 8); bool filled = false;
    size_t expectSize = 0;
    for (unsigned r = 0; r < rounds; ++r) {
        eoPop<Sol> pop; unsigned m = g.size(1, 12);
        for (unsigned i = 0; i < m; ++i) { OV v = genFrontish(g, mini, 8); pop.push_back(Sol(id, v)); hist.push_back({id, raw(v)}); offeredCount[id]++; ++id; }
        fit(pop); div(pop);
        if (arch.size() == cap) filled = true;
        if (m == 1 && g.boolean()) arch(pop[0]); else arch(pop);
        expectSize = std::min<size_t>(cap, expectSize + m);
        CHECK(arch.size() == expectSize, "size " << arch.size() << " instead of " << expectSize << " (cap " << cap << "); offers " << show(hist));
        std::map<int, int> in;
        for (unsigned i = 0; i < arch.size(); ++i) {
            CHECK(arch[i].id >= 0 && arch[i].id < id, "unknown member");
            CHECK(raw(arch[i].objectiveVector()) == hist[arch[i].id].v, "objective vector of a member changed");
            CHECK(++in[arch[i].id] <= 1, "member #" << arch[i].id << " stored twice; cap " << cap << " offers " << show(hist));
        }
    }
    g.nontrivial(filled); g.label(filled ? "filled" : "open");
    g.note("cap=").note(cap).note(" offers ").note(show(hist));
}

PBT(epsilon_hyperbox, 6000, 100000) {
    auto mini = setupObjectives(g, 2, 3);
    std::vector<double> eps(mini.size()); for (auto& e : eps) e = g.oneof({0.05, 0.1, 0.25, 0.5});
    moeoEpsilonHyperboxArchive<Sol> arch(eps);
    std::vector<Offered> hist; int id = 0; unsigned n = g.size(1, 25);
    for (unsigned k = 0; k < n; ++k) {
        std::set<int> before; for (unsigned i = 0; i < arch.size(); ++i) before.insert(arch[i].id);
        if (g.chance(1, 4)) {
            eoPop<Sol> pop; unsigned m = g.size(0, 4); int first = id;
            for (unsigned i = 0; i < m; ++i) { OV v = genFrontish(g, mini, 10); pop.push_back(Sol(id, v)); hist.push_back({id, raw(v)}); ++id; }
            bool got = arch(pop), entered = false;
            for (unsigned i = 0; i < arch.size(); ++i) { if (arch[i].id >= first) entered = true; else CHECK(before.count(arch[i].id), "unknown member"); }
            CHECK(m || !got, "an empty population changed the archive");
            CHECK(got || !entered, "population rejected but one of it is stored; offers " << show(hist));
            continue;
        }
        OV v = genFrontish(g, mini, 10); Sol s(id, v); hist.push_back({id, raw(v)}); ++id;
        std::vector<std::vector<double>> old; std::vector<int> oldId; for (unsigned i = 0; i < arch.size(); ++i) { old.push_back(raw(arch[i].objectiveVector())); oldId.push_back(arch[i].id); }
        OV i0 = arch.getIdeal(), n0 = arch.getNadir();
        bool got = arch(s);
        OV i1 = arch.getIdeal(), n1 = arch.getNadir();
        // a beats b up to one box in every objective
        auto boxwise = [&](const std::vector<double>& a, const std::vector<double>& b) {
            for (unsigned i = 0; i < mini.size(); ++i) {
                double width = std::max({old.size() < 2 ? 1.0 : 0.0, old.empty() ? 0.0 : std::fabs(n0[i] - i0[i]), std::fabs(n1[i] - i1[i]),
                                         old.empty() ? 0.0 : std::max({n0[i], i0[i], v[i]}) - std::min({n0[i], i0[i], v[i]})}) * eps[i] * (1 + 1e-9) + 1e-9;
                if (mini[i] ? a[i] > b[i] + width : a[i] < b[i] - width) return false;
            }
            return true;
        };
        if (!got) {
            bool why = false;
            for (auto& m : old) if (boxwise(m, raw(v))) why = true;
            for (unsigned i = 0; i < mini.size(); ++i) if (mini[i] ? v[i] > n0[i] : v[i] < n0[i]) why = true;
            CHECK(why, "rejected though no member is as good up to a box and it is inside the bounds; offers " << show(hist));
            CHECK(arch.size() == old.size(), "a rejected solution removed a member; offers " << show(hist));
        }
        std::set<int> after; for (unsigned i = 0; i < arch.size(); ++i) after.insert(arch[i].id);
        CHECK(after.size() == arch.size(), "member stored twice; offers " << show(hist));
        for (int i : after) CHECK(i == id - 1 || before.count(i), "unknown member");
        if (after.count(id - 1)) {
            CHECK(got, "stored but reported as rejected; offers " << show(hist));
            for (unsigned i = 0; i < mini.size(); ++i) {
                double lo = v[i], hi = v[i]; for (unsigned k = 0; k < arch.size(); ++k) { lo = std::min(lo, (double)arch[k].objectiveVector()[i]); hi = std::max(hi, (double)arch[k].objectiveVector()[i]); }
                CHECK(i1[i] == (mini[i] ? lo : hi) && n1[i] == (mini[i] ? hi : lo), "bounds in objective " << i << " are " << i1[i] << ".." << n1[i] << "; offers " << show(hist));
            }
        }
        for (unsigned k = 0; k < old.size(); ++k) if (!after.count(oldId[k])) CHECK(boxwise(raw(v), old[k]), "member " << pbt::strv(old[k]) << " was removed by an offer not as good; offers " << show(hist));
        CHECK(arch.size() > 0, "archive became empty; offers " << show(hist));
        for (unsigned i = 0; i < arch.size(); ++i) for (unsigned j = 0; j < arch.size(); ++j) CHECK(!dominates(raw(arch[i].objectiveVector()), raw(arch[j].objectiveVector()), mini), "dominated member; offers " << show(hist));
    }
    g.nontrivial(arch.size() < hist.size());
    g.note("offers ").note(show(hist));
}

// the same with larger sizes
PBT_LARGE(unbounded_archive, 60, 600, 4)
PBT_LARGE(archive_equals, 60, 600, 4)
PBT_LARGE(improving_only_bounded, 60, 600, 4)
PBT_LARGE(fitness_diversity_bounded, 60, 600, 4)
PBT_LARGE(hypervolume_2d_bounded, 60, 600, 4)
PBT_LARGE(spea2_fixed_size, 60, 600, 4)
PBT_LARGE(epsilon_hyperbox, 60, 600, 4)
