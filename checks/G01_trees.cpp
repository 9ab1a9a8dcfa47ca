// G01: parse trees, their initialisers and operators.
#include "ind_support.hpp"
#include <gp/eoParseTree.h>
#include <gp/eoParseTreeDepthInit.h>
#include <gp/eoParseTreeOp.h>
#include <gp/eoStParseTreeDepthInit.h>
#include <gp/eoStParseTreeOp.h>
using namespace sup;
namespace {
int serial = 0;
// a function or terminal: the operation, the number of children, the types, and a value that tells copies apart
struct N {
    int op = -1, ar = 0, val = 0, ret = 0, arg[6] = {0, 0, 0, 0, 0, 0};
    int arity() const { return ar; }
    void randomize() { val = ++serial; }
    int type() const { return ret; }
    int type(int c) const { return arg[c]; }
    bool operator==(const N& o) const { return op == o.op && ar == o.ar && val == o.val; }
    template <class C> void operator()(double& r, C c, double x) const { double s = val % 7 + (op % 2 ? x : 0); for (int i = 0; i < ar; ++i) { double y = 0; c[i].apply(y, x); s += (i + 2) * y; } r = std::fmod(s, 1009.0); }
    template <class C> void operator()(std::string& r, C c) const { std::string s = pbt::str(op) + "." + pbt::str(val); if (ar) { s += "("; for (int i = 0; i < ar; ++i) { std::string y; c[i].apply(y); s += (i ? "," : "") + y; } s += ")"; } r = s; }
};
std::ostream& operator<<(std::ostream& o, const N& n) { return o << n.op << ' ' << n.ar << ' ' << n.val; }
std::istream& operator>>(std::istream& i, N& n) { return i >> n.op >> n.ar >> n.val; }
typedef eoParseTree<double, N> Tree; typedef parse_tree<N>::subtree Sub;
// the model of a tree: its nodes, each before its children
typedef std::vector<N> V;
unsigned endOf(const V& v, unsigned i) { unsigned need = 1; while (need) { need += v.at(i).ar; --need; ++i; } return i; }
V part(const V& v, unsigned i) { return V(v.begin() + i, v.begin() + endOf(v, i)); }
V put(const V& v, unsigned i, const V& w) { V r(v.begin(), v.begin() + i); r.insert(r.end(), w.begin(), w.end()); r.insert(r.end(), v.begin() + endOf(v, i), v.end()); return r; }
unsigned depthAt(const V& v, unsigned& i) { unsigned d = 0; int a = v.at(i++).ar; for (int k = 0; k < a; ++k) d = std::max(d, depthAt(v, i)); return d + 1; }
unsigned depthOf(const V& v) { unsigned i = 0; return depthAt(v, i); }
void leafDepths(const V& v, unsigned& i, unsigned d, std::vector<unsigned>& out) { int a = v.at(i++).ar; if (!a) out.push_back(d); for (int k = 0; k < a; ++k) leafDepths(v, i, d + 1, out); }
std::vector<unsigned> leafDepths(const V& v) { std::vector<unsigned> o; unsigned i = 0; leafDepths(v, i, 1, o); return o; }
V pruned(V v, unsigned most) { if (most >= 1) while (v.size() > most) v = part(v, 1); return v; }
std::string show(const V& v, unsigned& i) { const N& n = v.at(i++); std::string s = pbt::str(n.op) + "." + pbt::str(n.val); if (n.ar) { s += "("; for (int k = 0; k < n.ar; ++k) s += (k ? "," : "") + show(v, i); s += ")"; } return s; }
std::string show(const V& v) { unsigned i = 0; return show(v, i); }
double value(const V& v, unsigned& i, double x) { const N n = v.at(i++); double s = n.val % 7 + (n.op % 2 ? x : 0); for (int k = 0; k < n.ar; ++k) s += (k + 2) * value(v, i, x); return std::fmod(s, 1009.0); }
// reads the model out of a tree, checking on the way what each node says of itself
struct Meas { unsigned size, depth, cum; };
Meas walk(const Sub& s, const Sub* parent, V& out, const char* what) {
    out.push_back(*s); CHECK(s.get_parent() == parent, what << ": a node does not know its parent"); Meas m = {1, 0, 0}; CHECK(s.end() - s.begin() == (*s).ar, what << ": node with " << (s.end() - s.begin()) << " children instead of " << (*s).ar);
    for (int k = 0; k < (*s).ar; ++k) { CHECK(&s[k] == s.begin() + k, what << ": operator[]"); Meas c = walk(s[k], &s, out, what); m.size += c.size; m.depth = std::max(m.depth, c.depth); m.cum += c.cum; } m.depth++; m.cum += m.size;
    CHECK(s.size() == m.size && s.depth() == m.depth && s.cumulative_size() == m.cum, what << ": a subtree of " << m.size << " nodes, depth " << m.depth << ", cumulative size " << m.cum << " says " << s.size() << ", " << s.depth() << ", " << s.cumulative_size()); return m;
}
V model(const Tree& t, const char* what) {
    V v; Meas m = walk(t.root(), nullptr, v, what); CHECK(t.size() == m.size && t.depth() == m.depth && !t.empty() && t.valid(), what << ": size " << t.size() << ", depth " << t.depth() << ", valid " << t.valid() << " for a tree of " << m.size << " nodes and depth " << m.depth);
    // the nodes numbered from the last leaf to the root
    unsigned i = 0; Tree::const_iterator it = t.begin(); for (; it != t.end(); ++it, ++i) { CHECK(i < v.size() && **it == v[v.size() - 1 - i] && &*it == &t[i], what << ": node " << i << " of the iteration"); } CHECK(i == v.size(), what << ": iteration over " << i << " nodes of " << v.size()); i = 0; for (auto e = t.ebegin(); e != t.eend(); e++, ++i) CHECK(i < v.size() && *e == v[v.size() - 1 - i] && e->val == (*e).val, what << ": embedded iteration"); return v;
}
struct Set { V nodes; int maxAr; };
// functions and terminals; op is the place in the set
Set genSet(pbt::Gen& g) { Set s; unsigned t = g.range(1, 3), f = g.range(1, 4); s.maxAr = g.oneof({2, 2, 3, 5}); for (unsigned i = 0; i < t + f; ++i) { N n; n.ar = i < t ? 0 : g.range(1, s.maxAr); s.nodes.push_back(n); } for (unsigned i = s.nodes.size(); i > 1; --i) std::swap(s.nodes[i - 1], s.nodes[g.draw(i - 1)]); for (unsigned i = 0; i < s.nodes.size(); ++i) { s.nodes[i].op = i; s.nodes[i].val = 1000000 + i; } s.maxAr = 0; for (auto& n : s.nodes) s.maxAr = std::max(s.maxAr, n.ar); return s; }
void grow(pbt::Gen& g, const Set& s, unsigned depth, V& out, unsigned most) { V can; for (auto& n : s.nodes) if (n.ar == 0 || (depth > 1 && out.size() < most)) can.push_back(n); N n = can[g.draw(can.size() - 1)]; n.val = ++serial; out.push_back(n); for (int i = 0; i < n.ar; ++i) grow(g, s, depth - 1, out, most); }
V genV(pbt::Gen& g, const Set& s, unsigned most = 14) { V v; grow(g, s, g.range(1, 4), v, most); return v; }
// the tree made in one of the ways the library offers
void make(pbt::Gen& g, const V& v, Tree& t) {
    V back(v.rbegin(), v.rend()); int how = g.draw(3);
    if (how == 0) { parse_tree<N> p(back.begin(), back.end()); t = Tree(p); }
    else if (how == 1) { t.clear(); CHECK(t.empty() && t.size() == 0, "cleared tree"); for (auto& n : back) t.push_back(n); t.invalidate(); }
    else if (how == 2) { std::ostringstream o; o << "INVALID " << v.size(); for (auto& n : back) o << ' ' << n; std::istringstream i(o.str()); i >> t; }
    else { parse_tree<N> p(back.begin(), back.end()), q; q = p.root(); Tree u(q); t.swap(u); t.invalidate(); }
}
struct RecInit : eoInit<Tree> { eoInit<Tree>& in; std::vector<V> made; RecInit(eoInit<Tree>& i) : in(i) {} void operator()(Tree& t) { in(t); made.push_back(model(t, "initialiser")); } };
bool same(const V& a, const V& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
}
PBT(structure, 12000, 120000) {
    serial = 0; Set s = genSet(g); V v = genV(g, s), w = genV(g, s); Tree t, u; make(g, v, t); make(g, w, u); unsigned steps = g.size(0, 6); bool self = false;
    for (unsigned k = 0; k <= steps; ++k) {
        V m = model(t, "tree"); CHECK(same(m, v), "tree is " << show(m) << " instead of " << show(v)); V mu = model(u, "other tree"); CHECK(same(mu, w), "the other tree is " << show(mu) << " instead of " << show(w)); CHECK((t == u) == same(v, w) && (t != u) == !same(v, w), "comparison of " << show(v) << " and " << show(w));
        double x = g.grid(10, 0.5), r = 0; unsigned i = 0; t.apply(r, x); double e = value(v, i, x); CHECK_NEAR(r, e, "value of " << show(v) << " at " << x); std::string txt; t.apply(txt); CHECK(txt == show(v), "printed as " << txt << " instead of " << show(v));
        std::vector<const Sub*> all; int wanted = g.draw(s.nodes.size() - 1); auto is = [&](const N& n) { return n.op == wanted; }; const Tree& ct = t; ct.find_nodes(all, is); std::vector<Sub*> mine; t.find_nodes(mine, is); unsigned n = 0; for (auto& q : v) n += q.op == wanted; CHECK(all.size() == n && mine.size() == n, "find_nodes found " << all.size() << " and " << mine.size() << " of " << n); for (unsigned q = 0; q < n; ++q) CHECK(all[q] == mine[q] && (**all[q]).op == wanted && (q == 0 || all[q] != all[q - 1]), "find_nodes found another node");
        std::map<const Sub*, unsigned> slots; for (unsigned c = 0; c < t.root().cumulative_size(); ++c) { const Sub* p = &t.root().select_cumulative(c); CHECK(p == &t.get_cumulative(c) && p == &ct.get_cumulative(c), "get_cumulative(" << c << ")"); slots[p]++; } CHECK(slots.size() == v.size(), "selection by size reaches " << slots.size() << " of " << v.size() << " nodes"); for (auto& q : slots) CHECK(q.second == q.first->size(), "a subtree of " << q.first->size() << " nodes is selected by " << q.second << " of the indices");
        { double f = g.grid(20, 0.25); bool known = g.boolean(); Tree p = t; if (known) p.fitness(f); else p.invalidate(); std::ostringstream o; o << p << " 77"; Tree q; if (g.boolean()) q = u; if (g.boolean()) q.fitness(99); std::istringstream in(o.str()); in >> q; V mq = model(q, "tree read back"); CHECK(same(mq, v) && q.invalid() == !known && (!known || q.fitness() == f), "read back " << show(mq) << " instead of " << show(v)); int z = 0; in >> z; CHECK(z == 77, "reading a tree took too much or too little of the stream"); }
        if (k == steps) break; unsigned a = g.draw(v.size() - 1), b; Tree before = t;
        switch (g.draw(6)) {
            case 0: b = g.draw(w.size() - 1); t[v.size() - 1 - a] = u[w.size() - 1 - b]; v = put(v, a, part(w, b)); break;
            case 1: b = g.draw(v.size() - 1); self = self || a != b; t[v.size() - 1 - a] = t[v.size() - 1 - b]; v = put(v, a, part(v, b)); break;
            case 2: { N n = v[a]; n.val = ++serial; n.op = s.nodes.size(); t[v.size() - 1 - a] = n; v[a] = n; break; }
            case 3: { unsigned most = g.draw(v.size() + 1); t.pruneTree(most); v = pruned(v, most); break; }
            case 4: t.swap(u); std::swap(v, w); break;
            case 5: u = t; w = v; break;
            default: { Tree c(t[v.size() - 1 - a]); t = c; v = part(v, a); }
        }
        V mb = model(before, "copy of the tree"); if (v.size() > 60 || w.size() > 60) { t.pruneTree(20); v = pruned(v, 20); u.pruneTree(20); w = pruned(w, 20); }
    }
    g.nontrivial(v.size() > 2 && steps > 0); g.label("steps", steps); g.label("largest arity", s.maxAr); g.note("set of ").note(s.nodes.size()).note(" nodes, ").note(show(v)).note(self ? " assigned within itself" : "");
}
PBT(initialisers, 10000, 100000) {
    serial = 0; Silence quiet; Set s = genSet(g); unsigned d = g.range(1, s.maxAr > 3 ? 3 : 5), count = g.range(1, 14); bool grows = g.boolean(), ramped = g.boolean(); eoParseTreeDepthInit<double, N> init(d, s.nodes, grows, ramped); Tree t; unsigned cur = d; bool gr = grows;
    for (unsigned k = 0; k < count; ++k) {
        if (g.boolean()) t.fitness(3.0); int first = serial; init(t); V v = model(t, "initialiser"); CHECK(t.invalid(), "an initialised tree kept its former fitness"); std::set<int> vals; for (auto& n : v) { CHECK(n.op >= 0 && n.op < int(s.nodes.size()) && s.nodes[n.op].ar == n.ar, "node " << n.op << " with " << n.ar << " children is not of the set"); CHECK(n.val > first && n.val <= serial, "a node was not randomised"); CHECK(vals.insert(n.val).second, "two nodes with the same random value"); }
        unsigned depth = depthOf(v); CHECK(depth <= d, "tree of depth " << depth << " beyond the maximum " << d); CHECK(depth <= cur, "tree " << k << " of the ramp has depth " << depth << " beyond " << cur); if (!gr) for (unsigned l : leafDepths(v)) CHECK(l == cur, "a full tree of depth " << cur << " has a leaf at depth " << l << ": " << show(v));
        if (ramped) { if (gr) cur = cur > 2 ? cur - 1 : d; gr = !gr; }
    }
    g.nontrivial(d > 1); g.label("kind", ramped ? "ramped" : grows ? "grow" : "full"); g.label("depth", d); g.note(ramped ? "ramped" : grows ? "grow" : "full").note(" depth ").note(d).note(", ").note(s.nodes.size()).note(" nodes, last ").note(show(model(t, "last")));
    if (g.chance(1, 4)) { unsigned m = g.range(2, s.maxAr > 3 ? 3 : 4), size = g.size(0, 24); eoPop<Tree> pop; if (g.boolean()) pop.push_back(t); eoInitRampedHalfAndHalf(pop, size, m, s.nodes); CHECK(pop.size() == size, "ramped half and half gave " << pop.size() << " trees instead of " << size); unsigned part = size / (2 * (m - 1)); std::vector<unsigned> full(m + 1, 0), deep(m + 1, 0); for (auto& x : pop) { V v = model(x, "ramped half and half"); CHECK(x.invalid(), "valid new tree"); auto l = leafDepths(v); unsigned lo = *std::min_element(l.begin(), l.end()), hi = *std::max_element(l.begin(), l.end()); CHECK(hi <= m, "ramped half and half: depth " << hi << " beyond " << m); if (lo == hi) full[hi]++; deep[hi]++; } for (unsigned k = 2; k <= m; ++k) CHECK(full[k] >= part, "ramped half and half: " << full[k] << " full trees of depth " << k << " instead of at least " << part); unsigned upto = 0; for (unsigned k = 0; k <= m; ++k) { upto += deep[k]; if (k >= 2) CHECK(upto >= 2 * part * (k - 1), "ramped half and half: only " << upto << " trees within depth " << k); } }
}
PBT(choices, 120, 1200) {
    serial = 0; Set s = genSet(g); const unsigned M = 3000; unsigned d = g.range(1, 3); bool grows = g.boolean(); eoParseTreeDepthInit<double, N> init(d, s.nodes, grows); std::vector<double> p(s.nodes.size(), 0.0); std::vector<unsigned> c(s.nodes.size(), 0), leaf(s.nodes.size(), 0); unsigned n = 0, leaves = 0; for (auto& x : s.nodes) n += d == 1 ? x.ar == 0 : grows || x.ar > 0; for (unsigned i = 0; i < p.size(); ++i) if (d == 1 ? s.nodes[i].ar == 0 : grows || s.nodes[i].ar > 0) p[i] = 1.0 / n;
    Tree t; for (unsigned k = 0; k < M; ++k) { init(t); c[(*t.root()).op]++; V v; walk(t.root(), nullptr, v, "tree"); unsigned i = 0; auto l = leafDepths(v); if (l[0] == d) { while (v[i].ar) ++i; leaf[v[i].op]++; leaves++; } } checkFreq(p, c, "root of new trees"); unsigned terms = 0; for (auto& x : s.nodes) terms += x.ar == 0; std::vector<double> q(s.nodes.size(), 0.0); for (unsigned i = 0; i < q.size(); ++i) if (s.nodes[i].ar == 0) q[i] = 1.0 / terms; if (leaves > 500) checkFreq(q, leaf, "terminals at the full depth");
    // which node the operators pick
    V v = genV(g, s, 5); Tree a; make(g, v, a); eoHoistMutation<double, N> hoist; std::vector<unsigned> h(v.size(), 0); for (unsigned k = 0; k < M; ++k) { Tree b = a; hoist(b); V m; walk(b.root(), nullptr, m, "hoisted"); unsigned i = 0; while (i < v.size() && !(v[i] == m[0])) ++i; CHECK(i < v.size(), "hoisted nothing"); h[i]++; } checkFreq(std::vector<double>(v.size(), 1.0 / v.size()), h, "node hoisted");
    V w = genV(g, s, 5); Tree b; make(g, w, b); eoSubtreeXOver<double, N> cross(1000); std::vector<unsigned> ci(v.size(), 0), cj(w.size(), 0); for (unsigned k = 0; k < M; ++k) { Tree x = a, y = b; cross(x, y); V m; walk(x.root(), nullptr, m, "crossed"); unsigned i = 0; while (i < v.size() && i < m.size() && m[i] == v[i]) ++i; CHECK(i < v.size() && i < m.size(), "crossover exchanged nothing"); unsigned j = 0; while (j < w.size() && !(w[j] == m[i])) ++j; CHECK(j < w.size(), "crossover brought a node of none of the parents"); ci[i]++; cj[j]++; } checkFreq(std::vector<double>(v.size(), 1.0 / v.size()), ci, "crossover point of the first parent"); checkFreq(std::vector<double>(w.size(), 1.0 / w.size()), cj, "crossover point of the second parent");
    eoPointMutation<double, N> pt(s.nodes); std::vector<unsigned> pi(v.size(), 0), pn(s.nodes.size(), 0); unsigned target = g.draw(v.size() - 1), hits = 0; for (unsigned k = 0; k < M; ++k) { Tree x = a; pt(x); V m; walk(x.root(), nullptr, m, "mutated"); for (unsigned i = 0; i < v.size(); ++i) if (!(m[i] == v[i])) { pi[i]++; if (i == target) { pn[m[i].op]++; ++hits; } } } checkFreq(std::vector<double>(v.size(), 1.0 / v.size()), pi, "node mutated"); unsigned alike = 0; for (auto& x : s.nodes) alike += x.ar == v[target].ar; std::vector<double> pp; for (auto& x : s.nodes) pp.push_back(x.ar == v[target].ar ? 1.0 / alike : 0.0); if (hits > 300) checkFreq(pp, pn, "node put by the point mutation");
    eoParseTreeDepthInit<double, N> in2(2, s.nodes, true); eoBranchMutation<double, N> br(in2, 1000); eoExpansionMutation<double, N> ex(in2, 1000); eoCollapseSubtreeMutation<double, N> co(in2, 1000);
    for (int kind = 0; kind < 3; ++kind) { eoMonOp<Tree>& op = kind == 0 ? (eoMonOp<Tree>&)br : kind == 1 ? (eoMonOp<Tree>&)ex : (eoMonOp<Tree>&)co; std::vector<unsigned> at(v.size(), 0); std::vector<double> pr(v.size(), 0.0); unsigned can = 0; for (auto& x : v) can += kind == 0 || (kind == 1 ? x.ar == 0 : x.ar > 0 || v.size() == 1); for (unsigned i = 0; i < v.size(); ++i) if (kind == 0 || (kind == 1 ? v[i].ar == 0 : v[i].ar > 0 || v.size() == 1)) pr[i] = 1.0 / can; for (unsigned k = 0; k < M; ++k) { Tree x = a; op(x); V m; walk(x.root(), nullptr, m, "mutated"); unsigned i = 0; while (i < v.size() && i < m.size() && m[i] == v[i]) ++i; CHECK(i < v.size(), "nothing replaced"); at[i]++; } checkFreq(pr, at, kind == 0 ? "branch replaced" : kind == 1 ? "leaf expanded" : "subtree collapsed"); }
    g.nontrivial(v.size() > 1); g.note(s.nodes.size()).note(" nodes in the set, trees of ").note(v.size()).note(" and ").note(w.size());
}
PBT(operators, 14000, 140000) {
    serial = 0; Set s = genSet(g); V v = genV(g, s, 9), w = genV(g, s, 9); Tree a, b; make(g, v, a); make(g, w, b); unsigned most = g.oneof({1u, 2u, 3u, 5u, 8u, 12u, 1000u}); bool grows = g.boolean(); eoParseTreeDepthInit<double, N> raw(g.range(2, s.maxAr > 3 ? 2 : 3), s.nodes, grows); RecInit init(raw); RecInit& ri = init;
    eoSubtreeXOver<double, N> cross(most); eoBranchMutation<double, N> branch(ri, most); eoPointMutation<double, N> point(s.nodes); eoExpansionMutation<double, N> expand(ri, most); eoCollapseSubtreeMutation<double, N> collapse(ri, most); eoHoistMutation<double, N> hoist; unsigned steps = g.range(1, 5), cut = 0; std::string trail;
    for (unsigned k = 0; k < steps; ++k) {
        int op = g.draw(5); static const char* names[] = {"eoSubtreeXOver", "eoBranchMutation", "eoPointMutation", "eoExpansionMutation", "eoCollapseSubtreeMutation", "eoHoistMutation"}; init.made.clear(); bool said = true; V keepB = w;
        if (v.size() > 40) { a.pruneTree(10); v = pruned(v, 10); } if (w.size() > 40) { b.pruneTree(10); w = pruned(w, 10); keepB = w; }
        switch (op) { case 0: said = cross(a, b); break; case 1: said = branch(a); break; case 2: said = point(a); break; case 3: said = expand(a); break; case 4: said = collapse(a); break; default: said = hoist(a); }
        V na = model(a, names[op]), nb = model(b, names[op]); CHECK(said, names[op] << " says that it changed nothing"); bool found = false; trail += std::string(" ") + names[op];
        if (op != 0) CHECK(same(nb, keepB), names[op] << " changed another tree"); if (op != 2 && op != 5) CHECK(na.size() <= most && (op != 0 || nb.size() <= most), names[op] << ": tree of " << std::max(na.size(), nb.size()) << " nodes beyond " << most);
        if (op == 0) { for (unsigned i = 0; i < v.size() && !found; ++i) for (unsigned j = 0; j < w.size() && !found; ++j) { V x = put(v, i, part(w, j)), y = put(w, j, part(v, i)); if (x.size() > most || y.size() > most) ++cut; found = same(na, pruned(x, most)) && same(nb, pruned(y, most)); } CHECK(found, "eoSubtreeXOver of " << show(v) << " and " << show(w) << " limited to " << most << " gave " << show(na) << " and " << show(nb)); }
        else if (op == 2) { unsigned diff = 0; CHECK(na.size() == v.size(), "eoPointMutation changed the size"); for (unsigned i = 0; i < v.size(); ++i) { CHECK(na[i].ar == v[i].ar, "eoPointMutation changed the shape"); if (!(na[i] == v[i])) { ++diff; CHECK(na[i].op >= 0 && na[i] == s.nodes[na[i].op], "eoPointMutation put a node that is not of its set"); } } CHECK(diff <= 1, "eoPointMutation changed " << diff << " nodes"); }
        else if (op == 5) { for (unsigned i = 0; i < v.size() && !found; ++i) found = same(na, part(v, i)); CHECK(found, "eoHoistMutation of " << show(v) << " gave " << show(na)); }
        else { CHECK(!init.made.empty(), names[op] << " did not build a new tree"); const V& x = init.made.back(); for (unsigned i = 0; i < v.size() && !found; ++i) { if (op == 3 && v[i].ar) continue; if (op == 4 && !v[i].ar && v.size() > 1) continue; for (unsigned j = 0; j < x.size() && !found; ++j) { if (op == 3 && !x[j].ar) continue; if (op == 4 && x[j].ar) continue; V y = put(v, i, part(x, j)); if (y.size() > most) ++cut; found = same(na, pruned(y, most)); } } CHECK(found, names[op] << " of " << show(v) << " with " << show(x) << " limited to " << most << " gave " << show(na)); }
        v = na; w = nb; g.count(names[op]);
    }
    g.nontrivial(steps > 1); g.label("limit met", cut > 0); g.note("limit ").note(most).note(":").note(trail).note(" -> ").note(show(v));
}
PBT(strong_types, 6000, 60000) {
    serial = 0; unsigned types = g.range(1, 3); V set; bool barren = types > 1 && g.chance(1, 3); /* the last type may have no terminal */ for (unsigned ty = 0; ty < types; ++ty) { unsigned t = barren && ty + 1 == types ? 0 : g.range(1, 2), f = g.range(1, 2); for (unsigned i = 0; i < t + f; ++i) { N n; n.ret = ty; n.ar = i < t ? 0 : g.range(1, 3); for (int k = 0; k < n.ar; ++k) n.arg[k] = g.draw(types - 1 - (barren && ty + 1 == types)); set.push_back(n); } } for (unsigned i = set.size(); i > 1; --i) std::swap(set[i - 1], set[g.draw(i - 1)]); for (unsigned i = 0; i < set.size(); ++i) { set[i].op = i; set[i].val = 500 + i; }
    unsigned d = g.range(1, 4), d2 = g.range(2, 3); bool grows = g.boolean() || barren; int want = g.draw(types - 1 - barren); eoStParseTreeDepthInit<double, N> init(d, set, want, grows), init2(d2, set, want, true);
    std::function<void(const V&, unsigned&, int, const char*)> typed = [&](const V& v, unsigned& i, int ty, const char* what) { const N n = v.at(i++); CHECK(n.op >= 0 && n.ret == ty, what << ": a node of type " << n.ret << " where type " << ty << " is required in " << show(v)); for (int k = 0; k < n.ar; ++k) typed(v, i, n.arg[k], what); };
    auto ok = [&](const V& v, const char* what) { unsigned i = 0; typed(v, i, want, what); }; Tree a, b; a.fitness(2.0); init(a); init(b); V v = model(a, "eoStParseTreeDepthInit"), w = model(b, "eoStParseTreeDepthInit"); ok(v, "eoStParseTreeDepthInit"); ok(w, "eoStParseTreeDepthInit"); CHECK(a.invalid(), "initialised again but still evaluated"); CHECK(depthOf(v) <= d, "depth " << depthOf(v) << " beyond " << d); if (!grows) for (unsigned l : leafDepths(v)) CHECK(l == d, "full typed tree with a leaf at depth " << l << " instead of " << d);
    // tell the nodes apart
    for (unsigned i = 0; i < a.size(); ++i) (*a[i]).val = ++serial; for (unsigned i = 0; i < b.size(); ++i) (*b[i]).val = ++serial; v = model(a, "typed"); w = model(b, "typed");
    RecInit ri(init2); eoStSubtreeXOver<double, N> cross(1000); eoStBranchMutation<double, N> branch(ri, 1000); eoStPointMutation<double, N> point(set); eoStHoistMutation<double, N> hoist(ri, 1000); static const char* names[] = {"eoStSubtreeXOver", "eoStBranchMutation", "eoStPointMutation", "eoStHoistMutation"}; unsigned steps = g.range(1, 5);
    // a branch mutation needs a new tree that can hold each type
    std::set<int> reach; { std::set<int> now = {want}; for (unsigned l = 1; l <= d2; ++l) { std::set<int> next; for (int ty : now) { reach.insert(ty); for (auto& n : set) if (n.ret == ty) for (int k = 0; k < n.ar; ++k) next.insert(n.arg[k]); } now = next; } }
    for (unsigned k = 0; k < steps; ++k) {
        int op = g.draw(3); if (v.size() > 60 || w.size() > 60) op = 3; if (op == 1 && barren) op = 2; if (op == 1) for (auto& n : v) if (!reach.count(n.ret)) op = 2; ri.made.clear(); V keepB = w;
        switch (op) { case 0: cross(a, b); break; case 1: branch(a); break; case 2: point(a); break; default: hoist(a); }
        V na = model(a, names[op]), nb = model(b, names[op]); ok(na, names[op]); ok(nb, names[op]); if (op) CHECK(same(nb, keepB), names[op] << " changed another tree"); bool found = false;
        if (op == 0) { bool can = false; for (unsigned i = 0; i < v.size() && !found; ++i) for (unsigned j = 0; j < w.size() && !found; ++j) if (v[i].ret == w[j].ret) { can = true; found = same(na, put(v, i, part(w, j))) && same(nb, put(w, j, part(v, i))); } CHECK(found || !can, "eoStSubtreeXOver of " << show(v) << " and " << show(w) << " gave " << show(na) << " and " << show(nb)); }
        else if (op == 1) { const V& x = ri.made.back(); for (unsigned i = 0; i < v.size() && !found; ++i) for (unsigned j = 0; j < x.size() && !found; ++j) found = v[i].ret == x[j].ret && same(na, put(v, i, part(x, j))); CHECK(found, "eoStBranchMutation of " << show(v) << " with " << show(x) << " gave " << show(na)); }
        else if (op == 2) { unsigned diff = 0; CHECK(na.size() == v.size(), "eoStPointMutation changed the size"); for (unsigned i = 0; i < v.size(); ++i) { CHECK(na[i].ar == v[i].ar, "eoStPointMutation changed the shape"); if (!(na[i] == v[i])) { ++diff; CHECK(na[i] == set.at(na[i].op), "eoStPointMutation put a node that is not of its set"); } } CHECK(diff <= 1, "eoStPointMutation changed " << diff << " nodes"); }
        else { for (unsigned i = 0; i < v.size() && !found; ++i) found = v[i].ret == want && same(na, part(v, i)); CHECK(found, "eoStHoistMutation of " << show(v) << " gave " << show(na)); }
        v = na; w = nb; g.count(names[op]); if (v.size() > 120 || w.size() > 120) break;
    }
    g.nontrivial(types > 1 && v.size() > 1); g.label("types", types); g.note(types).note(" types, depth ").note(d).note(", ").note(show(v));
}
