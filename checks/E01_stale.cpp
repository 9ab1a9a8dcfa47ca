// E01: variation operators never leave a stale fitness behind.
#include "eo_support.hpp"
#include <es.h>
#include <ga.h>
#include <ga/eoBitOp.h>
#include <ga/eoStandardBitMutation.h>
#include <es/eoRealOp.h>
#include <es/eoNormalMutation.h>
#include <es/eoRealAtomXover.h>
#include <es/eoEsChromInit.h>
#include <es/eoEsMutate.h>
#include <es/eoEsStandardXover.h>
#include <es/eoEsGlobalXover.h>
#include <eoInt.h>
#include <eoSwapMutation.h>
#include <eoShiftMutation.h>
#include <eoTwoOptMutation.h>
#include <eoOrderXover.h>
#include <eoPartiallyMappedXover.h>
#include <eoVariableLengthMutation.h>
#include <eoVariableLengthCrossover.h>
#include <eoFlOrMonOp.h>
#include <eoRealToIntMonOp.h>
#include <eoRealToIntQuadOp.h>
#include <eoSGATransform.h>
#include <eoOpContainer.h>
#include <eoGeneralBreeder.h>
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeOp.h>
#include <gp/eoStParseTreeOp.h>
#include <gp/eoParseTreeDepthInit.h>
#include <memory>
using namespace sup;
struct Quiet { std::streambuf *o, *e; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Node { char c; int a; Node(char c = 'x', int a = 0) : c(c), a(a) {} int arity() const { return a; } void randomize() {} int type() const { return 0; } int type(int) const { return 0; } bool operator==(const Node& o) const { return c == o.c && a == o.a; } bool operator!=(const Node& o) const { return !(*this == o); } };
std::ostream& operator<<(std::ostream& o, const Node& n) { return o << n.c; }
std::istream& operator>>(std::istream& i, Node& n) { i >> n.c; n.a = n.c < 'a' ? n.c - 'A' + 1 : 0; return i; }
typedef eoBit<double> B; typedef eoReal<double> R; typedef eoInt<double> P; typedef eoVector<double, int> V; typedef eoParseTree<double, Node> T; typedef eoEsSimple<double> S1; typedef eoEsStdev<double> S2; typedef eoEsFull<double> S3;
// the genotype as numbers, and a fitness that depends on all of it
std::vector<double> geno(const B& b) { return std::vector<double>(b.begin(), b.end()); }
std::vector<double> geno(const R& b) { return b; }
std::vector<double> geno(const S1& b) { std::vector<double> v(b); v.push_back(b.stdev); return v; }
std::vector<double> geno(const S2& b) { std::vector<double> v(b); v.insert(v.end(), b.stdevs.begin(), b.stdevs.end()); return v; }
std::vector<double> geno(const S3& b) { std::vector<double> v(b); v.insert(v.end(), b.stdevs.begin(), b.stdevs.end()); v.insert(v.end(), b.correlations.begin(), b.correlations.end()); return v; }
std::vector<double> geno(const eoVector<double, int>& b) { return std::vector<double>(b.begin(), b.end()); }
std::vector<double> geno(const P& b) { return std::vector<double>(b.begin(), b.end()); }
std::vector<double> geno(const T& t) { std::vector<double> v; for (auto i = t.ebegin(); i != t.eend(); ++i) v.push_back(i->c); return v; }
template <class E> double fit(const E& e) { double f = 1; auto v = geno(e); for (size_t i = 0; i < v.size(); ++i) f = std::fmod(f * 1.37 + v[i] * (i + 1) + 0.61, 1000.0); return f + v.size(); }
template <class E> struct Ops { std::vector<std::pair<std::string, std::unique_ptr<eoOp<E>>>> v; std::vector<std::shared_ptr<void>> keep; template <class O> void add(const std::string& n, O* o) { v.emplace_back(n, std::unique_ptr<eoOp<E>>(o)); } template <class K> K& own(K* k) { keep.emplace_back(std::shared_ptr<K>(k)); return *k; } };
// one application of one operator
template <class E, class Mk> void direct(pbt::Gen& g, Ops<E>& ops, Mk make) {
    size_t k = g.range<size_t>(0, ops.v.size() - 1); eoOp<E>& op = *ops.v[k].second; const std::string& name = ops.v[k].first; E x = make(), y = g.chance(1, 3) ? x : make(); x.fitness(fit(x)); y.fitness(fit(y)); g.note(name); g.label("operator", name); int reps = g.range(1, 3);
    for (int r = 0; r < reps; ++r) {
        if (x.invalid()) x.fitness(fit(x)); if (y.invalid()) y.fitness(fit(y)); E a = x, b = y; bool ret = false, quad = op.getType() == eoOp<E>::quadratic;
        switch (op.getType()) { case eoOp<E>::unary: ret = static_cast<eoMonOp<E>&>(op)(x); break; case eoOp<E>::binary: ret = static_cast<eoBinOp<E>&>(op)(x, y); break; case eoOp<E>::quadratic: ret = static_cast<eoQuadOp<E>&>(op)(x, y); break; default: return; }
        bool cx = geno(x) != geno(a), cy = geno(y) != geno(b); g.count(cx || cy ? "changed" : "unchanged"); g.nontrivial(cx || cy);
        if (!quad) { CHECK(!cy, name << " changed its second argument"); CHECK(!y.invalid() && y.fitness() == b.fitness(), name << " touched the fitness of its second argument"); }
        if (!ret) { CHECK(!cx, name << " changed its argument from " << pbt::strv(geno(a)) << " to " << pbt::strv(geno(x)) << " but reports no change"); CHECK(!cy, name << " changed its second argument but reports no change"); }
        if (!ret || !cx) CHECK(x.invalid() || x.fitness() == a.fitness(), name << " replaced a fitness");
        if (ret) { x.invalidate(); if (quad) y.invalidate(); }
    }
}
// any combination of operators leaves no stale fitness
template <class E, class Mk> void combined(pbt::Gen& g, Ops<E>& ops, Mk make) {
    Quiet q; size_t n = g.range<size_t>(1, 5); eoPop<E> p, o; for (size_t i = 0; i < n; ++i) { E x = i && g.chance(1, 4) ? E(p[0]) : make(); x.fitness(fit(x)); p.push_back(x); }
    std::vector<std::unique_ptr<eoOpContainer<E>>> c; int depth = g.range(1, 3); eoPop<E> keep = p;
    for (int d = 0; d < depth; ++d) { bool seq = g.boolean(); c.emplace_back(seq ? (eoOpContainer<E>*)new eoSequentialOp<E> : new eoProportionalOp<E>); size_t k = g.range<size_t>(1, 3); for (size_t i = 0; i < k; ++i) { eoOp<E>* op; if (d && i == 0) op = c[d - 1].get(); else { size_t w = g.range<size_t>(0, ops.v.size() - 1); op = ops.v[w].second.get(); g.note(ops.v[w].first); } c.back()->add(*op, i == 0 ? 1.0 : g.oneof({1.0, 0.5, 0.2})); } }
    std::vector<eoQuadOp<E>*> qs; std::vector<eoMonOp<E>*> ms; for (auto& x : ops.v) { if (x.second->getType() == eoOp<E>::quadratic) qs.push_back(static_cast<eoQuadOp<E>*>(x.second.get())); if (x.second->getType() == eoOp<E>::unary) ms.push_back(static_cast<eoMonOp<E>*>(x.second.get())); }
    bool tr = g.boolean() && !qs.empty() && !ms.empty();
    if (tr) { eoQuadOp<E>& qo = *qs[g.range<size_t>(0, qs.size() - 1)]; eoMonOp<E>& mo = *ms[g.range<size_t>(0, ms.size() - 1)]; o = p; double pc = g.oneof({1.0, 0.5}), pm = g.oneof({1.0, 0.4, 0.0}); if (g.boolean()) { eoSGATransform<E> t(qo, pc, mo, pm); t(o); } else { eoPropCombinedQuadOp<E> pq(qo, 0.5); pq.add(*qs[0], 0.5); eoPropCombinedMonOp<E> pm2(mo, 0.5); pm2.add(*ms[0], 0.5); eoDynSGATransform<E> t(pq, pc, pm2, pm); t(o); } }
    else { eoRandomSelect<E> sel; eoGeneralBreeder<E> br(sel, *c.back(), g.oneof({1.0, 2.0}), true); br(p, o); }
    for (size_t i = 0; i < n; ++i) CHECK(geno(p[i]) == geno(keep[i]) && !p[i].invalid() && p[i].fitness() == keep[i].fitness(), "parent " << i << " was changed");
    bool any = false; for (size_t i = 0; i < o.size(); ++i) { any = any || o[i].invalid(); if (!o[i].invalid()) CHECK(o[i].fitness() == fit(o[i]), "offspring " << i << " = " << pbt::strv(geno(o[i])) << " carries the fitness of another genotype"); } g.nontrivial(any);
}
#define FAMILY(name, E, n1, n2) PBT(name##_flag, n1, 10 * n1) { Ops<E> o; auto m = setup(g, o); direct(g, o, m); } PBT(name##_combined, n2, 10 * n2) { Ops<E> o; auto m = setup(g, o); combined(g, o, m); }
auto setup(pbt::Gen& g, Ops<B>& o) {
    size_t n = g.range<size_t>(1, 12); double r = g.oneof({0.1, 0.0, 0.5, 1.0}); o.add("eoBitMutation", new eoBitMutation<B>(r)); o.add("eoOneBitFlip", new eoOneBitFlip<B>); o.add("eoDetBitFlip", new eoDetBitFlip<B>(g.range(1, 3))); o.add("eoDetSingleBitFlip", new eoDetSingleBitFlip<B>(g.range<unsigned>(1, n))); o.add("eoBitInversion", new eoBitInversion<B>); o.add("eoBitNext", new eoBitNext<B>); o.add("eoBitPrev", new eoBitPrev<B>); o.add("eo1PtBitXover", new eo1PtBitXover<B>); o.add("eoUBitXover", new eoUBitXover<B>(g.oneof({0.5f, 0.1f}))); if (n > 3) o.add("eoNPtsBitXover", new eoNPtsBitXover<B>(g.range(1, 2))); o.add("eoStandardBitMutation", new eoStandardBitMutation<B>(r)); o.add("eoConditionalBitMutation", new eoConditionalBitMutation<B>(r)); o.add("eoShiftedBitMutation", new eoShiftedBitMutation<B>(r)); o.add("eoUniformBitMutation", new eoUniformBitMutation<B>); o.add("eoFastBitMutation", new eoFastBitMutation<B>(1.5)); auto& x = o.own(new eo1PtBitXover<B>); o.add("eoQuad2BinOp", new eoQuad2BinOp<B>(x));
    return [&g, n] { B b; b.resize(n); bool uni = g.chance(1, 5); for (size_t i = 0; i < n; ++i) b[i] = uni ? true : g.boolean(); return b; };
}
FAMILY(bit, B, 3000, 1500)
template <class E> void realBounds(pbt::Gen& g, size_t n, Ops<E>& o, eoRealVectorBounds*& v) { v = &o.own(new eoRealVectorBounds(n, g.boolean() ? -2.0 : 0.0, 3.0)); }
auto setup(pbt::Gen& g, Ops<R>& o) {
    size_t n = g.range<size_t>(1, 5); eoRealVectorBounds* v; realBounds(g, n, o, v); double e = g.oneof({0.5, 0.01, 5.0}), p = g.oneof({1.0, 0.3, 0.0}); double& sg = o.own(new double(e)); o.add("eoUniformMutation", new eoUniformMutation<R>(*v, e, p)); o.add("eoDetUniformMutation", new eoDetUniformMutation<R>(*v, e, g.range<unsigned>(1, n))); o.add("eoNormalVecMutation", new eoNormalVecMutation<R>(*v, e, p)); o.add("eoNormalMutation", new eoNormalMutation<R>(*v, sg, p)); o.add("eoUniformMutation unbounded", new eoUniformMutation<R>(e, p)); o.add("eoNormalVecMutation unbounded", new eoNormalVecMutation<R>(e, p)); o.add("eoSegmentCrossover", new eoSegmentCrossover<R>(*v, g.oneof({0.0, 0.5}))); o.add("eoHypercubeCrossover", new eoHypercubeCrossover<R>(*v, g.oneof({0.0, 0.5}))); o.add("eoSBXCrossover", new eoSBXCrossover<R>(*v, 1.0)); o.add("eoRealUXover", new eoRealUXover<R>(g.oneof({0.5f, 0.1f})));
    return [&g, n] { R b; b.resize(n); for (auto& x : b) x = g.oneof({0.0, 3.0, 1.5, 0.25, 2.0}); return b; };
}
FAMILY(real, R, 2500, 1200)
void fillEs(pbt::Gen&, S1& e) { e.stdev = 0.5; } void fillEs(pbt::Gen&, S2& e) { e.stdevs.assign(e.size(), 0.5); } void fillEs(pbt::Gen& g, S3& e) { e.stdevs.assign(e.size(), 0.5); e.correlations.assign(e.size() * (e.size() - 1) / 2, g.oneof({0.0, 0.5})); }
template <class E> auto setupEs(pbt::Gen& g, Ops<E>& o) {
    size_t n = g.range<size_t>(1, 4); eoRealVectorBounds* v; realBounds(g, n, o, v); static char prog[] = "check"; static char* argv[] = {prog, nullptr}; eoParser& ps = o.own(new eoParser(1, argv)); eoEsMutationInit& in = o.own(new eoEsMutationInit(ps)); o.add("eoEsMutate", new eoEsMutate<E>(in, *v)); auto& ex = o.own(new eoDoubleExchange); auto& im = o.own(new eoDoubleIntermediate); bool a = g.boolean(); o.add("eoEsStandardXover", new eoEsStandardXover<E>(a ? (eoBinOp<double>&)ex : im, g.boolean() ? (eoBinOp<double>&)ex : im)); o.add("eoEsGlobalXover", new eoEsGlobalXover<E>(a ? (eoBinOp<double>&)ex : im, ex)); auto& e1 = o.own(new eoDoubleExchange); o.add("eoEsStandardXover exchange", new eoEsStandardXover<E>(e1, e1));
    return [&g, n] { E b; b.resize(n); for (auto& x : b) x = g.oneof({0.0, 3.0, 1.5, 0.25, 2.0}); fillEs(g, b); return b; };
}
auto setup(pbt::Gen& g, Ops<S1>& o) { return setupEs(g, o); }
auto setup(pbt::Gen& g, Ops<S2>& o) { return setupEs(g, o); }
auto setup(pbt::Gen& g, Ops<S3>& o) { return setupEs(g, o); }
FAMILY(es_simple, S1, 600, 400)
FAMILY(es_stdev, S2, 600, 400)
FAMILY(es_full, S3, 600, 400)
auto setup(pbt::Gen& g, Ops<P>& o) {
    size_t n = g.range<size_t>(2, 8); o.add("eoSwapMutation", new eoSwapMutation<P>(g.range(1, 3))); o.add("eoShiftMutation", new eoShiftMutation<P>); o.add("eoTwoOptMutation", new eoTwoOptMutation<P>); o.add("eoOrderXover", new eoOrderXover<P>); o.add("eoPartiallyMappedXover", new eoPartiallyMappedXover<P>);
    return [&g, n] { P b; for (size_t i = 0; i < n; ++i) b.push_back(i); for (size_t i = n; i > 1; --i) std::swap(b[i - 1], b[g.range<size_t>(0, i - 1)]); return b; };
}
FAMILY(permutation, P, 1500, 800)
struct IntOps { static constexpr int lo = -3, hi = 5; };
struct I : public eoInt<double> { typedef double FitnessType; }; // the integer operators ask for this name
std::vector<double> geno(const I& b) { return std::vector<double>(b.begin(), b.end()); }
auto setup(pbt::Gen& g, Ops<I>& o) {
    size_t n = g.range<size_t>(1, 5); auto& b = o.own(new eoIntInterval(0, 5)); double e = g.oneof({0.4, 3.0, 0.1}), p = g.oneof({1.0, 0.3, 0.0}); auto& m = o.own(new eoUniformMutation<R>(e, p)); auto& u = o.own(new eoRealUXover<R>(0.5f)); auto& s = o.own(new eoSegmentCrossover<R>(0.5)); o.add("eoRealToIntMonOp", new eoRealToIntMonOp<I>(m, b)); o.add("eoRealToIntMonOp folds", new eoRealToIntMonOp<I>(m, b, eoRealToIntMonOp<I>::folds)); o.add("eoRealToIntMonOp unbounded", new eoRealToIntMonOp<I>(m)); o.add("eoRealToIntQuadOp", new eoRealToIntQuadOp<I>(u, b)); o.add("eoRealToIntQuadOp folds", new eoRealToIntQuadOp<I>(s, b, eoRealToIntQuadOp<I>::folds));
    return [&g, n] { I b; for (size_t i = 0; i < n; ++i) b.push_back(g.range(0, 5)); return b; };
}
PBT(integer_flag, 800, 8000) { Ops<I> o; auto m = setup(g, o); direct(g, o, m); }
struct Gene : public eoInit<int> { void operator()(int& x) { x = eo::rng.random(3); } };
struct GeneMut : public eoMonOp<int> { bool operator()(int& x) { int y = eo::rng.random(3); bool c = y != x; x = y; return c; } };
struct GeneX : public eoQuadOp<int> { bool operator()(int& x, int& y) { if (x == y) return false; std::swap(x, y); return true; } };
auto setup(pbt::Gen& g, Ops<V>& o) {
    size_t lo = g.range<size_t>(1, 3), hi = lo + g.range<size_t>(0, 4); auto& gi = o.own(new Gene); auto& gm = o.own(new GeneMut); float r = g.oneof({0.5f, 0.1f, 0.9f}); auto& ae = o.own(new eoUniformAtomExchange<int>(r)); o.add("eoVlAddMutation", new eoVlAddMutation<V>(hi, gi)); o.add("eoVlDelMutation", new eoVlDelMutation<V>(lo)); o.add("eoVlUniformQuadOp", new eoVlUniformQuadOp<V>(lo, hi, r)); o.add("eoVlUniformBinOp", new eoVlUniformBinOp<V>(lo, hi, r)); o.add("eoVlAtomExchangeQuadOp", new eoVlAtomExchangeQuadOp<V>(lo, hi, ae)); o.add("eoFlOrAllMutation", new eoFlOrAllMutation<V>(gm, g.oneof({1.0, 0.4, 0.0}))); o.add("eoFlOrKMutation", new eoFlOrKMutation<V>(gm, g.range(0, 2)));
    return [&g, lo, hi] { V b; size_t n = g.range<size_t>(lo, hi); for (size_t i = 0; i < n; ++i) b.push_back(g.range(0, 2)); return b; };
}
FAMILY(variable_length, V, 2000, 1000)
auto setup(pbt::Gen& g, Ops<T>& o) {
    auto& nodes = o.own(new std::vector<Node>{Node('x', 0), Node('y', 0), Node('A', 1), Node('B', 2), Node('b', 2)}); for (auto& n : nodes) if (n.c == 'b') n.c = 'C', n.a = 3; bool grow = g.boolean(); auto& in = o.own(new eoParseTreeDepthInit<double, Node>(g.range(2, 3), nodes, grow)); unsigned mx = g.oneof({20u, 6u, 3u}); o.add("eoSubtreeXOver", new eoSubtreeXOver<double, Node>(mx)); o.add("eoBranchMutation", new eoBranchMutation<double, Node>(in, mx)); o.add("eoPointMutation", new eoPointMutation<double, Node>(nodes)); o.add("eoExpansionMutation", new eoExpansionMutation<double, Node>(in, mx)); o.add("eoCollapseSubtreeMutation", new eoCollapseSubtreeMutation<double, Node>(in, mx)); o.add("eoHoistMutation", new eoHoistMutation<double, Node>); o.add("eoStSubtreeXOver", new eoStSubtreeXOver<double, Node>(mx)); o.add("eoStBranchMutation", new eoStBranchMutation<double, Node>(in, mx)); o.add("eoStPointMutation", new eoStPointMutation<double, Node>(nodes)); o.add("eoStHoistMutation", new eoStHoistMutation<double, Node>(in, mx));
    return [&in] { T t; in(t); return t; };
}
FAMILY(tree, T, 1200, 500)
// evaluation validity itself
PBT(validity_protocol, 800, 8000) {
    B b(3, false); CHECK(b.invalid(), "a new individual is evaluated"); int n = g.range(1, 8); bool valid = false; double f = 0; for (int i = 0; i < n; ++i) { switch (g.range(0, 3)) { case 0: f = g.grid(9, 0.5); b.fitness(f); valid = true; break; case 1: b.invalidate(); valid = false; break; case 2: { B c(b); b = c; break; } default: { B c(2, true); c.fitness(99); c = b; std::swap(b, c); } } CHECK(b.invalid() == !valid, "validity after step " << i); bool th = false; try { double x = b.fitness(); CHECK(valid && x == f, "fitness " << x << " instead of " << f); } catch (eoInvalidFitnessError&) { th = true; } CHECK(th == !valid, "reading an invalid fitness"); th = false; try { b.fitnessReference(); } catch (eoInvalidFitnessError&) { th = true; } CHECK(th == !valid, "reference to an invalid fitness"); } g.nontrivial(n > 2);
}
