// E20: builder of the operators of self-adaptive evolution strategies.
#include "build_real.hpp"
#include <es/make_op_es.h>
namespace {
using namespace sup; using namespace bld;
template <class I> void es(pbt::Gen& g) {
    Silence quiet; Args a; size_t n = g.size(2, 4), size = g.size(2, 6); bool valid = true; std::string ib = box(g, n, true); eoRealVectorBounds initb(ib); eoEsChromInit<I> init(initb, std::vector<double>(n, 0.3));
    bool bounded = g.boolean(); std::string b = box(g, n, false); eoRealVectorBounds hb(b), none(n, eoDummyRealNoBounds); if (bounded) a.set("objectBounds", b); eoRealVectorBounds& use = bounded ? hb : none;
    double pc = rate(g, a, "pCross", 1, {0, 0.5, 1}), pm = rate(g, a, "pMut", 1, {0, 0.5, 1}); rate(g, a, "TauLoc", 1, {0, 0.5, 2}); rate(g, a, "TauGlob", 1, {0, 0.5, 2}); rate(g, a, "Beta", 0.0873, {0, 0.2}); if (g.chance(1, 4)) a.set("operator", "SGA");
    std::string type = "global", obj = "discrete", dev = "intermediate"; if (g.boolean()) a.set("crossType", type = g.boolean() ? "global" : "standard"); const char* kinds[] = {"discrete", "intermediate", "none"}; if (g.boolean()) a.set("crossObj", obj = kinds[g.draw(2)]); if (g.boolean()) a.set("crossStdev", dev = kinds[g.draw(2)]);
    if (g.chance(1, 10)) { valid = false; std::vector<std::string> names{"pCross", "pMut", "crossType", "crossObj", "crossStdev", "operator"}; std::string w = names[g.draw(names.size() - 1)]; Args c; for (auto& t : a.words) if (t.compare(0, w.size() + 3, "--" + w + "=") != 0) c.words.push_back(t); a = c; if (w[0] == 'p') a.set(w, g.boolean() ? 1.25 : -0.25); else a.set(w, g.boolean() ? "Discrete" : "other"); }
    if (pc == 0 && pm == 0) valid = false;
    g.note(a.text()); auto parser = a.parser(g), again = a.parser(g); eoState state; eoGenOp<I>* built = nullptr; std::string t = thrown([&] { built = &do_make_op<I>(*parser, state, init); }); CHECK(t.empty() == valid, a.text() << (valid ? " refused: " + t : " accepted")); if (!valid) { g.label("refused"); return; }
    auto atom = [](const std::string& k) -> std::unique_ptr<eoBinOp<double>> { if (k == "discrete") return std::make_unique<eoDoubleExchange>(); if (k == "intermediate") return std::make_unique<eoDoubleIntermediate>(); return std::make_unique<eoBinCloneOp<double>>(); };
    auto xo = atom(obj), xd = atom(dev); eoEsGlobalXover<I> global(*xo, *xd); eoEsStandardXover<I> standard(*xo, *xd); eoBinGenOp<I> wrapped(standard); eoEsMutationInit mi(*again, "Variation Operators"); eoEsMutate<I> mut(mi, use); eoSequentialOp<I> hand; if (type == "global") hand.add(global, pc); else hand.add(wrapped, pc); hand.add(mut, pm);
    eoPop<I> p; for (size_t i = 0; i < size; ++i) { I x; seed(50 + i + (uint32_t)g.draw(99)); init(x); for (size_t k = 0; k < n; ++k) use.truncate(k, x[k]); x.fitness(1); p.push_back(x); }
    g.label("recombination", type); sameBreeding(g, a, *built, hand, p, &use);
}
PBT(operators_es_simple, 1200, 5000) { es<eoEsSimple<double>>(g); }
PBT(operators_es_stdev, 1200, 5000) { es<eoEsStdev<double>>(g); }
PBT(operators_es_full, 1200, 5000) { es<eoEsFull<double>>(g); }
}
