// E09: breeding yields the requested offspring and leaves parents alone.
#include "ind_support.hpp"
#include <eoOpContainer.h>
#include <eoGeneralBreeder.h>
#include <eoOneToOneBreeder.h>
#include <eoSGATransform.h>
#include <eoSGAGenOp.h>
#include <eoPropGAGenOp.h>
#include <eoCloneOps.h>
#include <eoCombinedInit.h>
using namespace sup;
// an individual that remembers what was done to it
struct Tr : public EO<double> { std::string s; Tr(const std::string& x = "") : s(x) {} bool operator==(const Tr& o) const { return s == o.s && invalid() == o.invalid() && (invalid() || fitness() == o.fitness()); } };
std::ostream& operator<<(std::ostream& o, const Tr& t) { return o << t.s << (t.invalid() ? "!" : ""); }
struct Mon : public eoMonOp<Tr> { std::string n; bool r; Mon(std::string n, bool r = true) : n(n), r(r) {} bool operator()(Tr& a) { a.s = n + "(" + a.s + ")"; return r; } };
struct Bin : public eoBinOp<Tr> { std::string n; bool r; Bin(std::string n, bool r = true) : n(n), r(r) {} bool operator()(Tr& a, const Tr& b) { a.s = n + "(" + a.s + "," + b.s + ")"; return r; } };
struct Quad : public eoQuadOp<Tr> { std::string n; bool r; Quad(std::string n, bool r = true) : n(n), r(r) {} bool operator()(Tr& a, Tr& b) { std::string x = a.s, y = b.s; a.s = n + "1(" + x + "," + y + ")"; b.s = n + "2(" + y + "," + x + ")"; return r; } };
struct Three : public eoGenOp<Tr> { std::string n; Three(std::string n) : n(n) {} unsigned max_production() { return 3; } std::string className() const { return n; } void apply(eoPopulator<Tr>& p) { Tr& a = *p; Tr& b = *++p; Tr& c = *++p; for (Tr* x : {&a, &b, &c}) { x->s = n + "(" + x->s + ")"; x->invalidate(); } } };
struct Cycle : public eoSelectOne<Tr> { size_t i = 0; bool set = false; void setup(const eoPop<Tr>&) { i = 0; set = true; } const Tr& operator()(const eoPop<Tr>& p) { return p[i++ % p.size()]; } };
// model of the same operators over a list and a cursor
struct Item { std::string s; bool valid; };
struct World { std::vector<Item> d; size_t cur = 0, sel = 0, n; Item pick() { return {"p" + std::to_string(sel++ % n), true}; } Item& at() { if (cur == d.size()) d.push_back(pick()); return d[cur]; } };
struct Node { int type; std::string name; bool ret; std::vector<Node> kids; std::vector<double> rates;
    void run(World& w) const {
        switch (type) { case 0: { Item& a = w.at(); a.s = name + "(" + a.s + ")"; a.valid = a.valid && !ret; break; } case 1: { Item a = w.at(), b = w.pick(); w.at().s = name + "(" + a.s + "," + b.s + ")"; w.at().valid = a.valid && !ret; break; }
            case 2: { Item a = w.at(); size_t p = w.cur; w.cur++; Item b = w.at(); w.d[p] = {name + "1(" + a.s + "," + b.s + ")", a.valid && !ret}; w.d[w.cur] = {name + "2(" + b.s + "," + a.s + ")", b.valid && !ret}; break; }
            case 3: for (int k = 0; k < 3; ++k) { if (k) w.cur++; Item& a = w.at(); a.s = name + "(" + a.s + ")"; a.valid = false; } break;
            case 4: { size_t pos = w.cur; for (size_t i = 0; i < kids.size(); ++i) { w.cur = pos; do { if (rates[i] == 1) kids[i].run(w); if (w.cur < w.d.size()) w.cur++; } while (w.cur < w.d.size()); } break; }
            default: for (size_t i = 0; i < kids.size(); ++i) if (rates[i] > 0) kids[i].run(w); } }
    std::string str() const { std::string r = type < 4 ? name + (ret ? "" : "-") : type == 4 ? "seq{" : "prop{"; for (size_t i = 0; i < kids.size(); ++i) r += kids[i].str() + ":" + pbt::str(rates[i]) + " "; return type < 4 ? r : r + "}"; } };
struct Store { std::vector<std::unique_ptr<eoOp<Tr>>> v; eoOp<Tr>& keep(eoOp<Tr>* p) { v.emplace_back(p); return *p; } };
Node gen(pbt::Gen& g, int depth, int& id) { Node n; n.type = depth ? g.oneof({4, 5, 0, 2, 1, 3}) : g.oneof({0, 2, 1, 3}); n.ret = n.type == 3 || g.chance(2, 3); if (n.type < 4) { n.name = std::string(1, "mbqt"[n.type]) + std::to_string(id++); return n; } size_t k = g.range<size_t>(1, 3), one = g.range<size_t>(0, k - 1); for (size_t i = 0; i < k; ++i) { n.kids.push_back(gen(g, depth - 1, id)); n.rates.push_back(n.type == 4 ? (i == 0 ? 1 : g.chance(3, 4)) : i == one ? g.oneof({1.0, 0.25, 3.0}) : 0); } return n; }
eoOp<Tr>& build(const Node& n, Store& s) { switch (n.type) { case 0: return s.keep(new Mon(n.name, n.ret)); case 1: return s.keep(new Bin(n.name, n.ret)); case 2: return s.keep(new Quad(n.name, n.ret)); case 3: return s.keep(new Three(n.name)); } eoOpContainer<Tr>* c = n.type == 4 ? (eoOpContainer<Tr>*)new eoSequentialOp<Tr> : new eoProportionalOp<Tr>; s.keep(c); for (size_t i = 0; i < n.kids.size(); ++i) c->add(build(n.kids[i], s), n.rates[i]); return *c; }
eoPop<Tr> parentsOf(size_t n) { eoPop<Tr> p; for (size_t i = 0; i < n; ++i) { p.push_back(Tr("p" + std::to_string(i))); p.back().fitness(i); } return p; }
template <class C> void same(const C& o, const std::vector<Item>& e, size_t n) { CHECK(o.size() == n, "offspring size " << o.size() << " instead of " << n); for (size_t i = 0; i < n; ++i) { CHECK(o[i].s == e[i].s, "offspring " << i << " is " << o[i].s << " instead of " << e[i].s); CHECK(o[i].invalid() == !e[i].valid, "offspring " << i << " (" << o[i].s << ") is " << (o[i].invalid() ? "not " : "") << "evaluated"); if (e[i].valid) CHECK(o[i].fitness() < 1e6, "fitness"); } }
void unchanged(const eoPop<Tr>& p, const eoPop<Tr>& k) { CHECK(p.size() == k.size(), "the parent population changed size"); for (size_t i = 0; i < p.size(); ++i) CHECK(p[i] == k[i], "parent " << i << " was changed"); }

PBT(general_breeder_runs_operator_tree, 3000, 30000) {
    Silence q; size_t n = g.range<size_t>(1, 6); int id = 0; Node t = gen(g, 2, id); g.note(n); g.note(t.str()); eoPop<Tr> p = parentsOf(n), k = p, o; if (g.boolean()) o = parentsOf(3); Store st; eoOp<Tr>& top = build(t, st); eoFunctorStore fs; eoGenOp<Tr>& op = wrap_op<Tr>(top, fs); Cycle sel; int mode = g.range(0, 3); double rate = g.oneof({1.0, 0.5, 2.0, 0.0, 1.7}); int c = g.range(1, 9); c = mode == 2 ? std::min<int>(c, n) : c;
    eoHowMany hm = mode == 2 ? eoHowMany(-c) : eoHowMany(c); std::unique_ptr<eoGeneralBreeder<Tr>> b; size_t target; if (mode == 0) { b.reset(new eoGeneralBreeder<Tr>(sel, op, rate)); target = std::ceil(rate * n); } else if (mode == 1) { b.reset(new eoGeneralBreeder<Tr>(sel, op, (double)c, false)); target = c; } else { b.reset(new eoGeneralBreeder<Tr>(sel, op, hm)); target = mode == 2 ? n - c : c; }
    g.note(mode); g.note(target); g.nontrivial(t.type >= 4 && target > 1); g.label("top operator", t.type); int rounds = g.range(1, 2);
    for (int r = 0; r < rounds; ++r) { World w; w.n = n; while (w.d.size() < target) { t.run(w); if (w.cur < w.d.size()) w.cur++; } sel.set = false; (*b)(p, o); CHECK(sel.set, "the selector was not set up"); same(o, w.d, target); unchanged(p, k); }
}
PBT(sga_transform, 1500, 15000) {
    size_t n = g.range<size_t>(1, 7), m = g.range<size_t>(0, 9); double pc = g.boolean(), pm = g.boolean(); bool rc = g.chance(2, 3), rm = g.chance(2, 3), dyn = g.boolean(); eoPop<Tr> p = parentsOf(n), k = p, o; Quad cr("q", rc); Mon mu("m", rm); Cycle sel; eoSelectNumber<Tr> many(sel, std::max<size_t>(m, 1)); eoSGATransform<Tr> st(cr, pc, mu, pm); eoDynSGATransform<Tr> dy(cr, 1 - pc, mu, 1 - pm); double c2 = 1 - pc, m2 = 1 - pm; eoDynSGATransform<Tr> dr(cr, &c2, mu, &m2); bool ref = g.boolean(); eoDynSGATransform<Tr>& d = ref ? dr : dy; if (ref) { c2 = pc; m2 = pm; } else { dy.PCrossHandle() = pc; dy.PMutHandle() = pm; } eoSelectTransform<Tr> br(many, dyn ? (eoTransform<Tr>&)d : st); m = std::max<size_t>(m, 1); g.note(n); g.note(m); g.note(pc); g.note(pm); g.nontrivial(m > 1 && pc + pm > 0);
    br(p, o); std::vector<Item> e; for (size_t i = 0; i < m; ++i) e.push_back({"p" + std::to_string(i % n), true}); if (pc) for (size_t i = 0; i + 1 < m; i += 2) { auto a = e[i], b = e[i + 1]; e[i] = {"q1(" + a.s + "," + b.s + ")", !rc}; e[i + 1] = {"q2(" + b.s + "," + a.s + ")", !rc}; } if (pm) for (auto& x : e) x = {"m(" + x.s + ")", x.valid && !rm}; same(o, e, m); unchanged(p, k);
}
PBT(sga_gen_ops, 800, 8000) {
    Silence q; size_t n = g.range<size_t>(1, 6), m = g.range<size_t>(1, 7); double pc = g.boolean(), pm = g.boolean(); Quad cr("q"); Mon mu("m"); Cycle sel; eoPop<Tr> p = parentsOf(n), k = p, o; std::vector<Item> e; bool sga = g.boolean(); g.note(sga); g.note(n); g.note(m); g.note(pc); g.note(pm); g.nontrivial(m > 1);
    if (sga) { eoSGAGenOp<Tr> op(cr, pc, mu, pm); eoGeneralBreeder<Tr> b(sel, op, (double)m, false); b(p, o); for (size_t i = 0; i < m + 1; i += 2) { Item x{"p" + std::to_string(i % n), true}, y{"p" + std::to_string((i + 1) % n), true}; auto a = x, c = y; if (pc) { a = {"q1(" + x.s + "," + y.s + ")", false}; c = {"q2(" + y.s + "," + x.s + ")", false}; } if (pm) { a = {"m(" + a.s + ")", false}; c = {"m(" + c.s + ")", false}; } e.push_back(a); e.push_back(c); } }
    else { int which = g.range(0, 2); eoPropGAGenOp<Tr> op(which == 0, cr, which == 1, mu, which == 2); eoGeneralBreeder<Tr> b(sel, op, (double)m, false); b(p, o); for (size_t i = 0; i < m + 1; ++i) { std::string x = "p" + std::to_string(i % n), y = "p" + std::to_string((i + 1) % n); if (which == 0) e.push_back({x, true}); else if (which == 2) e.push_back({"m(" + x + ")", false}); else if (i % 2 == 0) { e.push_back({"q1(" + x + "," + y + ")", false}); e.push_back({"q2(" + y + "," + x + ")", false}); } } }
    same(o, e, m); unchanged(p, k);
}
// probabilities of the operators
PBT(operator_probabilities, 60, 600) {
    Silence q; const unsigned N = 4000; int kind = g.range(0, 8); Mon a("a"), b("b"), c("c"); Quad qa("A"), qb("B"); double r0 = g.oneof({1.0, 0.5, 3.0, 0.0}), r1 = g.oneof({1.0, 2.0, 0.3}), r2 = g.oneof({0.0, 1.0}); double p1 = g.oneof({0.0, 0.3, 0.8, 1.0}), p2 = g.oneof({0.0, 0.4, 1.0}); Cycle sel; eoPop<Tr> p = parentsOf(2), o; g.label("combination", kind); g.note(kind); g.note(r0); g.note(r1); g.note(r2); g.note(p1); g.note(p2); g.nontrivial(true); double T = r0 + r1 + r2;
    auto first = [](const std::string& s) { return s[0]; };
    if (kind == 0) { eoProportionalOp<Tr> op; op.add(a, r0); op.add(b, r1); op.add(c, r2); eoGeneralBreeder<Tr> br(sel, op, (double)N, false); br(p, o); std::vector<unsigned> n(3); for (auto& x : o) n[first(x.s) - 'a']++; checkFreq({r0 / T, r1 / T, r2 / T}, n, "proportional operator"); }
    if (kind == 1) { eoPropCombinedMonOp<Tr> op(a, r0); op.add(b, r1); op.add(c, r2); std::vector<unsigned> n(3); for (unsigned i = 0; i < N; ++i) { Tr x("x"); CHECK(op(x), "flag lost"); n[first(x.s) - 'a']++; } checkFreq({r0 / T, r1 / T, r2 / T}, n, "combined mutation"); }
    if (kind == 2) { eoPropCombinedQuadOp<Tr> op(qa, r0); op.add(qb, r1); std::vector<unsigned> n(2); for (unsigned i = 0; i < N; ++i) { Tr x("x"), y("y"); CHECK(op(x, y), "flag lost"); CHECK(x.s.substr(1) == "1(x,y)" && y.s.substr(1) == "2(y,x)", "combined crossover"); n[first(x.s) - 'A']++; } checkFreq({r0 / (r0 + r1), r1 / (r0 + r1)}, n, "combined crossover"); }
    if (kind == 3) { eoSequentialOp<Tr> op; eoMonCloneOp<Tr> cl; op.add(cl, 1); op.add(a, p1); op.add(b, p2); eoGeneralBreeder<Tr> br(sel, op, (double)N, false); br(p, o); std::vector<unsigned> n(4); for (auto& x : o) { CHECK(x.s.find("a(b") == std::string::npos, "operators applied in the wrong order"); n[(x.s.find('a') != std::string::npos) + 2 * (x.s.find('b') != std::string::npos)]++; } checkFreq({(1 - p1) * (1 - p2), p1 * (1 - p2), (1 - p1) * p2, p1 * p2}, n, "sequential operators"); }
    if (kind == 4) { eoSGATransform<Tr> tr(qa, p1, a, p2); eoPop<Tr> x = parentsOf(N); tr(x); std::vector<unsigned> n(4); for (auto& i : x) { n[(i.s.find('A') != std::string::npos) + 2 * (i.s[0] == 'a')]++; CHECK(i.invalid() == (i.s[0] != 'p'), "stale fitness"); } std::vector<unsigned> cr = {(n[0] + n[2]) / 2, (n[1] + n[3]) / 2}, mu = {n[0] + n[1], n[2] + n[3]}; checkFreq({1 - p1, p1}, cr, "crossover rate"); checkFreq({1 - p2, p2}, mu, "mutation rate"); }
    if (kind == 5) { eoSGAGenOp<Tr> op(qa, p1, a, p2); eoGeneralBreeder<Tr> br(sel, op, (double)N, false); br(p, o); unsigned cr = 0, mu = 0; for (size_t i = 0; i < N; i += 2) { bool x = o[i].s.find('A') != std::string::npos, y = o[i + 1].s.find('A') != std::string::npos; CHECK(x == y, "half a crossover"); cr += x; } for (auto& i : o) mu += i.s[0] == 'a'; checkFreq({1 - p1, p1}, {N / 2 - cr, cr}, "crossover rate"); checkFreq({1 - p2, p2}, {N - mu, mu}, "mutation rate"); }
    if (kind == 6) { eoPropGAGenOp<Tr> op(r0, qa, r1, a, r2); eoGeneralBreeder<Tr> br(sel, op, (double)(2 * N), false); br(p, o); std::vector<unsigned> n(3); size_t i = 0; unsigned tot = 0; while (i + 1 < o.size()) { if (o[i].s[0] == 'p') { n[0]++; i++; } else if (o[i].s[0] == 'a') { n[2]++; i++; } else { CHECK(o[i + 1].s[0] == 'A', "half a crossover"); n[1]++; i += 2; } tot++; } checkFreq({r0 / T, r1 / T, r2 / T}, n, "clone, crossover and mutation weights"); }
    if (kind == 7) { eoQuad2BinOp<Tr> op(qa); std::vector<unsigned> n(2); for (unsigned i = 0; i < N; ++i) { Tr x("x"), y("y"), yk = y; CHECK(op(x, y), "flag lost"); CHECK(y == yk, "second parent changed"); CHECK(x.s == "A1(x,y)" || x.s == "A2(x,y)", "binary crossover " << x.s); n[x.s == "A2(x,y)"]++; } checkFreq({0.5, 0.5}, n, "which child is kept"); }
    if (kind == 8) { struct In : public eoInit<Tr> { char c; In(char c) : c(c) {} void operator()(Tr& x) { x.s = std::string(1, c); x.invalidate(); } }; In i1('a'), i2('b'); eoCombinedInit<Tr> in(i1, r0); in.add(i2, r1); std::vector<unsigned> n(2); for (unsigned i = 0; i < N; ++i) { Tr x; in(x); n[x.s[0] - 'a']++; } checkFreq({r0 / (r0 + r1), r1 / (r0 + r1)}, n, "combined initialiser"); }
}
PBT(wrapped_operators, 500, 5000) {
    bool r = g.boolean(); Mon m("m", r); Quad qu("q", r); Bin b("b", r); Tr x("x"), y("y"); x.fitness(1); y.fitness(2); int kind = g.range(0, 7); g.note(kind); g.note(r); g.nontrivial(true); bool f = r;
    switch (kind) { case 0: { eoInvalidateMonOp<Tr> o(m); f = o(x); CHECK(x.s == "m(x)" && x.invalid() == r && !y.invalid(), "mutation"); break; } case 1: { eoInvalidateBinOp<Tr> o(b); f = o(x, y); CHECK(x.s == "b(x,y)" && x.invalid() == r && y.s == "y" && !y.invalid(), "binary"); break; } case 2: { eoInvalidateQuadOp<Tr> o(qu); f = o(x, y); CHECK(x.s == "q1(x,y)" && y.s == "q2(y,x)" && x.invalid() == r && y.invalid() == r, "crossover"); break; } case 3: { eoMon2QuadOp1<Tr> o(m); f = o(x, y); CHECK(x.s == "m(x)" && y.s == "y", "first mutated"); break; } case 4: { eoMon2QuadOp2<Tr> o(m); f = o(x, y); CHECK(x.s == "x" && y.s == "m(y)", "second mutated"); break; } case 5: { eoMonCloneOp<Tr> c; eoQuadCloneOp<Tr> d; eoBinCloneOp<Tr> e; CHECK(!c(x) && !d(x, y) && !e(x, y) && x.s == "x" && y.s == "y" && !x.invalid(), "clone"); break; }
        case 6: { eoPop<Tr> p = parentsOf(3), k = p, o; struct Last : public eoSelectOne<Tr> { const Tr& operator()(const eoPop<Tr>& p) { return p.back(); } } last; eoSelBinGenOp<Tr> op(b, last); Cycle sel; eoGeneralBreeder<Tr> br(sel, op, 4.0, false); br(p, o); CHECK(o.size() == 4 && o[0].s == "b(p0,p2)" && o[3].s == "b(p0,p2)" && o[1].s == "b(p1,p2)" && o[1].invalid() == r, "binary operator with its own selector"); unchanged(p, k); break; }
        default: { size_t n = g.range<size_t>(0, 4); eoPop<Tr> p = parentsOf(n), o; eoSeqPopulator<Tr> it(p, o); for (size_t i = 0; i < n; ++i) { CHECK((*it).s == p[i].s && it.tellp() == i, "sequential populator"); ++it; } CHECK(it.exhausted(), "not exhausted"); bool thrown = false; try { *it; } catch (eoPopulator<Tr>::OutOfIndividuals&) { thrown = true; } CHECK(thrown, "too many individuals"); } }
    CHECK(f == r, "modification flag " << f);
}
PBT(one_to_one_breeder, 1200, 12000) {
    size_t n = g.range<size_t>(1, 7); eoPop<Tr> p = parentsOf(n), k = p, o = g.boolean() ? parentsOf(2) : eoPop<Tr>(); for (size_t i = 0; i < n; ++i) { p[i].fitness(g.range(0, 4)); k[i] = p[i]; } std::map<std::string, double> childFit, parFit; for (size_t i = 0; i < n; ++i) { childFit["m(p" + std::to_string(i) + ")"] = g.range(0, 4); parFit[p[i].s] = p[i].fitness(); }
    struct Ev : public eoEvalFunc<Tr> { std::map<std::string, double>& f; unsigned n = 0; Ev(std::map<std::string, double>& f) : f(f) {} void operator()(Tr& x) { if (x.invalid()) { x.fitness(f[x.s]); n++; } } } ev(childFit); Mon m("m"); eoMonGenOp<Tr> mg(m); eoProportionalOp<Tr> pr; pr.add(m, 1); bool viaProp = g.boolean(); double pRep = g.boolean(), rate = g.oneof({1.0, 0.5}); eoOneToOneBreeder<Tr> br(viaProp ? (eoGenOp<Tr>&)pr : mg, ev, pRep, eoHowMany(rate)); size_t t = std::ceil(rate * n); g.note(n); g.note(pRep); g.note(viaProp); g.nontrivial(n > 1);
    for (int round = 0; round < 2; ++round) { br(p, o); unchanged(p, k); CHECK(o.size() == t, "offspring size " << o.size() << " instead of " << t); std::set<std::string> seen; for (auto& x : o) { bool child = x.s[0] == 'm'; std::string par = child ? x.s.substr(2, x.s.size() - 3) : x.s, ch = "m(" + par + ")"; CHECK(parFit.count(par) && seen.insert(par).second, "parent " << par << " bred twice or unknown"); CHECK(!x.invalid() && x.fitness() == (child ? childFit[ch] : parFit[par]), "fitness of " << x.s); bool back = pRep == 1 && parFit[par] > childFit[ch]; CHECK(child == !back, "the worse of parent " << parFit[par] << " and child " << childFit[ch] << " was kept"); } CHECK(ev.n == t * (round + 1), "evaluations"); }
}
