// E20: builders of real-valued genotypes and operators.
#include "build_real.hpp"
#include <es/make_op_real.h>
namespace {
using namespace sup; using namespace bld;
template <class I> void genotype(pbt::Gen& g) {
    Silence quiet; Args a; unsigned n = 10; if (g.chance(4, 5)) { n = g.range(1u, 6u); a.set("vecSize", n); } std::string b = std::to_string(n) + "[-1,1]"; if (g.boolean()) { b = box(g, n, true); a.set("initBounds", b); }
    double sigma = 0.3; bool scaled = false; if (g.boolean()) { sigma = g.oneof({0.0, 0.1, 0.5, 2.0}); scaled = g.boolean(); a.set("sigmaInit", pbt::str(sigma) + (scaled ? "%" : "")); } std::vector<double> vec(n, sigma); bool given = g.chance(1, 3); if (given) { std::string t = std::to_string(n); for (auto& v : vec) { v = 0.25 * (1 + g.draw(7)); t += "," + pbt::str(v); } a.set("vecSigmaInit", t); }
    bool negative = g.chance(1, 12); if (negative) { Args c; for (auto& w : a.words) if (w.find("sigmaInit") != 2) c.words.push_back(w); a = c; a.set("sigmaInit", g.boolean() ? "-0.5" : "-1%"); }
    g.note(a.text()); auto parser = a.parser(g); eoState state; eoEsChromInit<I>* init = nullptr; std::string t = thrown([&] { init = &do_make_genotype<I>(*parser, state, I()); }); CHECK(t.empty() == !negative, a.text() << (negative ? " accepted" : " refused: " + t)); if (negative) { g.label("refused"); return; }
    eoRealVectorBounds hb(b); std::unique_ptr<eoEsChromInit<I>> hand(scaled ? new eoEsChromInit<I>(hb, sigma, true) : new eoEsChromInit<I>(hb, vec)); uint32_t s = 1 + (uint32_t)g.draw(9999); CHECK(init->size() == n, a.text() << " makes " << init->size() << " variables instead of " << n);
    for (int r = 0; r < 3; ++r) { I x, y; x.fitness(3); seed(s + r); (*init)(x); seed(s + r); (*hand)(y); CHECK(x.invalid() && x.size() == n, a.text() << " drew " << x.size() << " variables" << (x.invalid() ? "" : ", already evaluated")); CHECK(sameReal(x, y), a.text() << " drew " << x << " instead of " << y);
        double all = 0; for (unsigned k = 0; k < n; ++k) { CHECK(x[k] >= hb.minimum(k) && x[k] <= hb.maximum(k), a.text() << ": variable " << k << " drawn at " << x[k]); all += hb.range(k) / n; }
        std::vector<double> st = strategy(x), want; if (std::is_same<I, eoEsSimple<double>>::value) want = {scaled ? sigma * all : vec[0]}; else if (!st.empty()) for (unsigned k = 0; k < n; ++k) want.push_back(scaled ? sigma * hb.range(k) : vec[k]); for (size_t k = 0; k < want.size(); ++k) CHECK_NEAR(st[k], want[k], 1e-9); }
    g.nontrivial(n > 1);
}
PBT(genotype_real, 900, 3000) { genotype<eoReal<double>>(g); }
PBT(genotype_simple, 900, 3000) { genotype<eoEsSimple<double>>(g); }
PBT(genotype_stdev, 900, 3000) { genotype<eoEsStdev<double>>(g); }
PBT(genotype_full, 900, 3000) { genotype<eoEsFull<double>>(g); }
PBT(operators_real, 2700, 14000) {
    using I = eoReal<double>; Silence quiet; Args a; size_t n = g.size(1, 4), size = g.size(2, 7); bool valid = true; std::string ib = box(g, n, true); eoRealVectorBounds initb(ib); eoRealInitBounded<I> init(initb);
    bool bounded = g.chance(2, 3); std::string b = box(g, n, false); eoRealVectorBounds hb(b), none(n, eoDummyRealNoBounds); if (bounded) a.set("objectBounds", b); eoRealVectorBounds& use = bounded ? hb : none;
    double pc = rate(g, a, "pCross", 0.6, {0, 0.3, 1}), pm = rate(g, a, "pMut", 0.1, {0, 0.5, 1}), al = rate(g, a, "alpha", 0, {0, 0.25, 0.5}), rs = rate(g, a, "segmentRate", 1, {0, 0, 0, 2}), rh = rate(g, a, "hypercubeRate", 1, {0, 0, 0, 3}), ru = rate(g, a, "uxoverRate", 1, {0, 0, 0, 0.5});
    double ep = rate(g, a, "epsilon", 0.01, {0, 0.1, 1}), mu = rate(g, a, "uniformMutRate", 1, {0, 0, 0, 2}), md = rate(g, a, "detMutRate", 1, {0, 0, 0, 2}), mn = rate(g, a, "normalMutRate", 1, {0, 0, 0, 0.5}), sg = rate(g, a, "sigma", 0.3, {0.05, 1}), pn = rate(g, a, "pNormal", 1, {0, 0.5, 1}); if (g.chance(1, 4)) a.set("operator", "SGA");
    bool noCross = rs + rh + ru == 0, noMut = mu + md + mn == 0; if (noCross && noMut) valid = false;
    if (g.chance(1, 10)) { valid = false; std::vector<std::string> names{"pCross", "pMut", "alpha", "segmentRate", "hypercubeRate", "uxoverRate", "epsilon", "uniformMutRate", "detMutRate", "normalMutRate", "operator"}; std::string w = names[g.draw(names.size() - 1)]; Args c; for (auto& t : a.words) if (t.compare(0, w.size() + 3, "--" + w + "=") != 0) c.words.push_back(t); a = c; if (w == "operator") a.set(w, "sga"); else if (w[0] == 'p' && g.boolean()) a.set(w, 1.25); else a.set(w, -0.25); }
    g.note(a.text()); auto parser = a.parser(g); eoState state; eoGenOp<I>* built = nullptr; std::string t = thrown([&] { built = &do_make_op<I>(*parser, state, init); }); CHECK(t.empty() == valid, a.text() << (valid ? " refused: " + t : " accepted")); if (!valid) { g.label("refused"); return; }
    eoSegmentCrossover<I> xs(use, al); eoHypercubeCrossover<I> xh(use, al); eoRealUXover<I> xu; eoPropCombinedQuadOp<I> cross(xs, rs); cross.add(xh, rh); cross.add(xu, ru); eoUniformMutation<I> ou(use, ep); eoDetUniformMutation<I> od(use, ep); eoNormalVecMutation<I> on(use, sg, pn); eoPropCombinedMonOp<I> mut(ou, mu); mut.add(od, md); mut.add(on, mn);
    eoQuadCloneOp<I> clone; eoProportionalOp<I> some; if (!noCross) some.add(cross, pc); some.add(clone, noCross ? 1 : 1 - pc); eoSequentialOp<I> hand; hand.add(some, 1.0); if (!noMut) hand.add(mut, pm); g.label("crossover", noCross ? "none" : "some"); g.label("mutation", noMut ? "none" : "some");
    eoPop<I> p; for (size_t i = 0; i < size; ++i) { I x; x.resize(n); for (size_t k = 0; k < n; ++k) { x[k] = g.grid(8, 0.5); use.truncate(k, x[k]); } x.fitness(1); p.push_back(x); }
    sameBreeding(g, a, *built, hand, p, &use);
}
}
