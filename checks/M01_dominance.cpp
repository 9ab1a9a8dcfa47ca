// M01: dominance relations and comparators versus their definitions.
#include "moeo_support.hpp"
#include <comparator/moeoGDominanceObjectiveVectorComparator.h>
#include <comparator/moeoEpsilonObjectiveVectorComparator.h>
#include <comparator/moeoStrictObjectiveVectorComparator.h>
#include <comparator/moeoWeakObjectiveVectorComparator.h>
using namespace sup;
namespace {
// -1: a better, 0 equal up to the tolerance, 1: b better
int cmp1(double a, double b, bool mini) { if (std::fabs(a - b) < 5e-11) return 0; return ((a < b) == mini) ? -1 : 1; }
struct Rel { int better = 0, equal = 0, worse = 0; };
Rel rel(const std::vector<double>& a, const std::vector<double>& b, const std::vector<bool>& m) {
    Rel r; for (size_t i = 0; i < a.size(); ++i) { int c = cmp1(a[i], b[i], m[i]); if (c < 0) r.better++; else if (c == 0) r.equal++; else r.worse++; } return r;
}
bool pdom(const std::vector<double>& a, const std::vector<double>& b, const std::vector<bool>& m) { Rel r = rel(a, b, m); return r.worse == 0 && r.better > 0; }
// grid values, now and then moved by less than the tolerance
OV near_(pbt::Gen& g, int span, double step, double off) {
    OV v; for (unsigned i = 0; i < v.size(); ++i) { v[i] = off + step * g.range(0, span); if (g.chance(1, 8)) v[i] += (g.boolean() ? 1 : -1) * 1e-12; } return v;
}
}
PBT(definitions, 60000, 1200000) {
    auto m = setupObjectives(g, 1, 6); unsigned n = m.size();
    int span = g.oneof({1, 2, 4, 50}); double step = g.oneof({1.0, 0.5, 1e-6, 1000.0}), off = g.oneof({0.0, -3.0, 1.0});
    std::vector<OV> v; for (int k = 0; k < 3; ++k) v.push_back(near_(g, span, step, off));
    if (g.chance(1, 4)) { v[1] = v[0]; unsigned i = g.draw(n - 1); v[1][i] += step * g.range(-1, 1); }
    if (g.chance(1, 3)) { v[2] = v[1]; unsigned i = g.draw(n - 1); v[2][i] += step * g.range(-1, 1); }
    moeoParetoObjectiveVectorComparator<OV> pareto; moeoStrictObjectiveVectorComparator<OV> strict; moeoWeakObjectiveVectorComparator<OV> weak;
    moeoObjectiveObjectiveVectorComparator<OV> lexi;
    double eps = g.oneof({1.0, 1.1, 2.0, 0.5}); moeoEpsilonObjectiveVectorComparator<OV> epsc(eps);
    OV ref = near_(g, span, step, off); moeoGDominanceObjectiveVectorComparator<OV> gdom(ref);
    auto flag = [&](const OV& o) { bool le = true, ge = true; for (unsigned i = 0; i < n; ++i) { if (o[i] > ref[i]) le = false; if (o[i] < ref[i]) ge = false; } return le || ge; };
    bool P[3][3], S[3][3], L[3][3]; bool tie = false, dom = false;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
        auto x = raw(v[a]), y = raw(v[b]); Rel r = rel(x, y, m); // r.worse: y better
        if (a != b && r.equal) tie = true;
        std::string who = pbt::strv(x) + " / " + pbt::strv(y);
        P[a][b] = pareto(v[a], v[b]); S[a][b] = strict(v[a], v[b]); L[a][b] = lexi(v[a], v[b]);
        if (P[a][b]) dom = true;
        CHECK(P[a][b] == (r.better == 0 && r.worse > 0), "Pareto " << who);
        CHECK(v[b].dominates(v[a]) == P[a][b], "objective vector dominates() " << who);
        CHECK(S[a][b] == (r.worse == (int)n), "strict " << who);
        CHECK(weak(v[a], v[b]) == (r.better == 0), "weak " << who);
        bool e = true; for (unsigned i = 0; i < n; ++i) if (cmp1(y[i], x[i] / eps, m[i]) > 0) e = false;
        bool edge = false; for (unsigned i = 0; i < n; ++i) { double d = std::fabs(y[i] - x[i] / eps); if (d > 1e-11 && d < 1e-9) edge = true; }
        if (!edge) CHECK(epsc(v[a], v[b]) == e, "epsilon " << eps << " " << who);
        bool fa = flag(v[a]), fb = flag(v[b]);
        bool gd = !fb ? false : (!fa ? true : P[a][b]);
        CHECK(gdom(v[a], v[b]) == gd, "g-dominance, reference " << pbt::strv(raw(ref)) << " " << who);
        int c = 0; for (unsigned i = 0; i < n && !c; ++i) c = cmp1(x[i], y[i], true);
        CHECK(L[a][b] == (c < 0), "lexicographic " << who);
        bool eq = r.equal == (int)n;
        CHECK((v[a] == v[b]) == eq && (v[a] != v[b]) == !eq, "equality " << who);
        CHECK((v[a] < v[b]) == (c < 0) && (v[a] > v[b]) == (c > 0) && (v[a] <= v[b]) == (c <= 0) && (v[a] >= v[b]) == (c >= 0), "ordering operators " << who);
    }
    for (int a = 0; a < 3; ++a) {
        CHECK(!P[a][a] && !S[a][a] && !L[a][a], "a relation is reflexive");
        for (int b = 0; b < 3; ++b) {
            CHECK(!(P[a][b] && P[b][a]) && !(S[a][b] && S[b][a]) && !(L[a][b] && L[b][a]), "mutual domination");
            CHECK(!S[a][b] || P[a][b], "strict dominance without Pareto dominance");
            for (int c = 0; c < 3; ++c) {
                CHECK(!(P[a][b] && P[b][c]) || P[a][c], "Pareto dominance not transitive");
                CHECK(!(S[a][b] && S[b][c]) || S[a][c], "strict dominance not transitive");
                CHECK(!(L[a][b] && L[b][c]) || L[a][c], "lexicographic order not transitive");
            }
        }
    }
    g.nontrivial(tie || dom); g.label(dom ? "some dominance" : "all incomparable");
    g.note("min mask ").note(pbt::strv(std::vector<int>(m.begin(), m.end()))).note(" vectors ").note(pbt::strv(raw(v[0]))).note(pbt::strv(raw(v[1]))).note(pbt::strv(raw(v[2])));
}

PBT(scalar_comparators, 20000, 300000) {
    auto m = setupObjectives(g, 1, 4);
    Sol s[2]; double wf = g.oneof({1.0, 0.0, -1.0, 2.5}), wd = g.oneof({1.0, 0.0, 3.0, -0.5});
    for (int k = 0; k < 2; ++k) { s[k] = Sol(k, genOV(g, 2)); s[k].fitness(g.range(-2, 2)); s[k].diversity(g.range(-2, 2)); }
    moeoFitnessComparator<Sol> f; moeoFitnessThenDiversityComparator<Sol> fd; moeoDiversityThenFitnessComparator<Sol> df; moeoAggregativeComparator<Sol> ag(wf, wd), agd;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        double fa = s[a].fitness(), fb = s[b].fitness(), da = s[a].diversity(), db = s[b].diversity();
        CHECK(f(s[a], s[b]) == (fa < fb), "fitness comparator");
        bool e1 = fa < fb || (fa == fb && da < db), e2 = da < db || (da == db && fa < fb);
        CHECK(fd(s[a], s[b]) == e1, "fitness then diversity");
        CHECK(df(s[a], s[b]) == e2, "diversity then fitness");
        CHECK(ag(s[a], s[b]) == (wf * fa + wd * da < wf * fb + wd * db), "aggregative");
        CHECK(agd(s[a], s[b]) == (fa + da < fb + db), "default aggregative");
        moeoPtrComparator<Sol> pc(fd); CHECK(pc(&s[a], &s[b]) == e1, "pointer comparator");
        for (unsigned i = 0; i < m.size(); ++i) { moeoOneObjectiveComparator<Sol> o(i); CHECK(o(s[a], s[b]) == (s[a].objectiveVector()[i] < s[b].objectiveVector()[i]), "one objective comparator"); }
    }
    bool thrown = false; try { moeoOneObjectiveComparator<Sol> o(m.size()); } catch (std::exception&) { thrown = true; }
    CHECK(thrown, "objective index out of range accepted");
    g.nontrivial(s[0].fitness() == s[1].fitness() || s[0].diversity() == s[1].diversity());
    g.note("fitness ").note(s[0].fitness()).note(",").note(s[1].fitness()).note(" diversity ").note(s[0].diversity()).note(",").note(s[1].diversity());
}

// the objective-vector layer: values, validity flags, copies
PBT(solution_flags, 8000, 100000) {
    auto m = setupObjectives(g, 1, 4); Sol s; bool ov = false, f = false, d = false; OV v; double fv = 0, dv = 0;
    unsigned n = g.size(1, 20);
    for (unsigned k = 0; k < n; ++k) {
        switch (g.draw(7)) {
        case 0: v = genOV(g, 9); s.objectiveVector(v); ov = true; break;
        case 1: s.invalidateObjectiveVector(); ov = false; break;
        case 2: fv = g.range(-5, 5); s.fitness(fv); f = true; break;
        case 3: s.invalidateFitness(); f = false; break;
        case 4: dv = g.range(-5, 5); s.diversity(dv); d = true; break;
        case 5: s.invalidateDiversity(); d = false; break;
        case 6: s.invalidate(); ov = f = d = false; break;
        case 7: { Sol t(s); Sol u; u = t; s = u; } break;
        }
        CHECK(s.invalidObjectiveVector() == !ov && s.invalid() == !ov && s.invalidFitness() == !f && s.invalidDiversity() == !d, "validity flags");
        auto throws = [](auto fn) { try { fn(); } catch (std::exception&) { return true; } return false; };
        CHECK(throws([&] { s.objectiveVector(); }) == !ov, "objectiveVector() of an invalid solution");
        CHECK(throws([&] { s.fitness(); }) == !f, "fitness() of an invalid solution");
        CHECK(throws([&] { s.diversity(); }) == !d, "diversity() of an invalid solution");
        if (ov) CHECK(raw(s.objectiveVector()) == raw(v), "objective vector");
        if (f) CHECK(s.fitness() == fv, "fitness"); if (d) CHECK(s.diversity() == dv, "diversity");
    }
    g.nontrivial(n > 3); g.note("steps ").note(n);
}
