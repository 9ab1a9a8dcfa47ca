// B01: benchmark problems against their published definitions.
#include "ind_support.hpp"
#include <mo.h>
using namespace std;
#include <eval/oneMaxEval.h>
#include <eval/royalRoadEval.h>
#include <eval/bbRoyalRoadEval.h>
#include <eval/longKPathEval.h>
#include <eval/nkLandscapesEval.h>
#include <eval/nkpLandscapesEval.h>
#include <eval/nkqLandscapesEval.h>
#include <eval/maxSATeval.h>
#include <eval/ubqpEval.h>
#include <eval/qapEval.h>
#include <eval/queenEval.h>
#include <moeo>
#include <DTLZ.h>
#include <DTLZ1Eval.h>
#include <DTLZ2Eval.h>
#include <DTLZ3Eval.h>
#include <DTLZ4Eval.h>
#include <DTLZ5Eval.h>
#include <DTLZ6Eval.h>
#include <DTLZ7Eval.h>
#include <PolynomialMutation.h>
#include <SBXCrossover.h>
#include <filesystem>
#include <fstream>
using namespace sup;
namespace {
struct Scratch { std::filesystem::path p; Scratch() { char t[] = "/tmp/verif-B01-XXXXXX"; p = mkdtemp(t); } ~Scratch() { std::error_code e; std::filesystem::remove_all(p, e); } std::string file(const char* n) { return (p / n).string(); } std::string put(const std::string& s) { std::string f = file("in"); std::ofstream(f.c_str()) << s; return f; } };
std::string slurp(const std::string& f) { std::ifstream is(f.c_str()); std::ostringstream o; o << is.rdbuf(); return o.str(); }
typedef eoMinimizingFitness Low;
template <class S> std::string text(const S& s) { std::ostringstream o; for (unsigned i = 0; i < s.size(); ++i) o << (i && s[i] > 9 ? "," : "") << s[i]; return o.str(); }
template <class F> eoBit<F> genBits(pbt::Gen& g, unsigned n) { eoBit<F> s; int style = g.draw(3); for (unsigned i = 0; i < n; ++i) s.push_back(style == 0 ? true : style == 1 ? !g.chance(1, 6) : style == 2 ? g.boolean() : g.chance(1, 6)); return s; }
// evaluates, compares, and looks that nothing else changed; the former fitness must not matter
template <class S> void judge(pbt::Gen& g, eoEvalFunc<S>& eval, S s, double want, const std::string& what) { S t(s); if (g.boolean()) s.fitness(typename S::Fitness(g.grid(50, 0.5))); eval(s); CHECK(s.size() == t.size() && std::equal(s.begin(), s.end(), t.begin()), what << " changed the solution " << text(t)); CHECK(!s.invalid() && std::fabs(double(s.fitness()) - want) <= 1e-9 * (1 + std::fabs(want)), what << " gives " << s << " instead of " << want << " to " << text(t)); }
template <class F> void bitProblems(pbt::Gen& g) {
    typedef eoBit<F> S; int kind = g.draw(3); if (kind == 0) { oneMaxEval<S> e; unsigned n = g.draw(12), reps = g.range(1, 3); for (unsigned r = 0; r < reps; ++r) { S s = genBits<F>(g, n); double w = 0; for (unsigned i = 0; i < n; ++i) w += s[i]; judge<S>(g, e, s, w, "oneMaxEval"); } g.nontrivial(n > 1); g.label("problem", "one-max"); g.note("one-max of ").note(n); return; }
    if (kind == 1) { unsigned k = g.range(1, 4), n = g.draw(14); RoyalRoadEval<S> e(k); CHECK(e.blockSize() == k, "block size"); for (unsigned r = 0; r < 3; ++r) { S s = genBits<F>(g, n); double w = 0; for (unsigned b = 0; (b + 1) * k <= n; ++b) { bool all = true; for (unsigned j = 0; j < k; ++j) all = all && s[b * k + j]; w += all; } judge<S>(g, e, s, w, "RoyalRoadEval of blocks of " + std::to_string(k)); } g.nontrivial(n / k > 1); g.label("problem", "royal road"); g.note("royal road ").note(n).note("/").note(k); return; }
    if (kind == 2) { unsigned k = g.range(1, 4), b = g.draw(4), m = g.draw(3); BBRoyalRoadEval<S> e(b, k); std::vector<std::vector<bool>> ts; std::vector<double> ws; for (unsigned t = 0; t < m; ++t) { std::vector<bool> x; for (unsigned j = 0; j < k; ++j) x.push_back(g.boolean()); ts.push_back(x); ws.push_back(g.grid(8, 0.5)); std::vector<bool> y(x); e.addTarget(y, ws[t]); } CHECK(e.blockSize() == k && e.nbBlocks() == b && e.getTargets() == ts, "BBRoyalRoadEval: parameters"); for (unsigned r = 0; r < 3; ++r) { S s = genBits<F>(g, b * k + g.draw(2)); if (m && b && g.boolean()) { unsigned t = g.draw(m - 1), at = g.draw(b - 1); for (unsigned j = 0; j < k; ++j) s[at * k + j] = ts[t][j]; } double w = 0; for (unsigned i = 0; i < b; ++i) for (unsigned t = 0; t < m; ++t) { unsigned d = 0; for (unsigned j = 0; j < k; ++j) d += s[i * k + j] != ts[t][j]; w += d ? 1.0 / (1 + d) : ws[t]; } judge<S>(g, e, s, w, "BBRoyalRoadEval"); } g.nontrivial(b > 1 && m > 0); g.label("problem", "building-block royal road"); g.note(b).note(" blocks of ").note(k).note(", targets ").note(m); return; }
    unsigned k = g.range(1, 4), m = g.draw(k == 1 ? 8 : k == 2 ? 5 : 3), n = m * k + 1; std::vector<std::vector<int>> path = {{0}, {1}}; for (unsigned l = 1; l < n; l += k) { std::vector<std::vector<int>> next; for (auto x : path) { x.resize(l + k, 0); next.push_back(x); } for (unsigned j = 1; j < k; ++j) { auto x = path.back(); for (unsigned i = 0; i < k; ++i) x.push_back(i < j); next.push_back(x); } for (unsigned i = path.size(); i-- > 0;) { auto x = path[i]; x.resize(l + k, 1); next.push_back(x); } path = next; }
    LongKPathEval<S> e(k); for (unsigned r = 0; r < 4; ++r) { S s = genBits<F>(g, n); if (g.chance(2, 3)) { unsigned i = g.draw(path.size() - 1); for (unsigned j = 0; j < n; ++j) s[j] = path[i][j]; if (g.chance(1, 3)) { unsigned j = g.draw(n - 1); s[j] = !s[j]; } } double w = -1; for (unsigned i = 0; i < path.size(); ++i) { bool eq = true; for (unsigned j = 0; j < n; ++j) eq = eq && path[i][j] == (int)s[j]; if (eq) w = n + i; } g.label("on the path", w >= 0); if (w < 0) { w = 0; for (unsigned j = 0; j < n; ++j) w += !s[j]; } judge<S>(g, e, s, w, "LongKPathEval of k=" + std::to_string(k)); } g.nontrivial(m > 0); g.label("problem", "long k-path"); g.note("long path, k=").note(k).note(" n=").note(n);
}
// NK landscapes: structure, value, and save/load
template <class E> void nkCheck(pbt::Gen& g, E& e, unsigned N, unsigned K, const std::string& w, const std::string& tag, bool consecutive) {
    typedef eoBit<double> S; Scratch dir; for (unsigned i = 0; i < N; ++i) { std::set<unsigned> seen; for (unsigned j = 0; j <= K; ++j) { CHECK(e.links[i][j] < N, w << ": link out of range"); seen.insert(e.links[i][j]); if (consecutive) CHECK(e.links[i][j] == (i + j) % N, w << ": links are not consecutive"); } CHECK(seen.size() == K + 1 && seen.count(i), w << ": links of variable " << i << " are not distinct or miss it"); }
    auto value = [&](const S& s, E& of) { double a = 0; for (unsigned i = 0; i < N; ++i) { unsigned c = 0; for (unsigned j = 0; j <= K; ++j) if (s[of.links[i][j]]) c += 1u << j; a += of.tables[i][c]; } return a / N; }; std::string f = dir.file("instance"); e.save(f.c_str()); { std::ifstream is(f.c_str()); std::string l, p, k2; std::getline(is, l); CHECK(l.size() && l[0] == 'c', w << ": saved file"); unsigned n2, kk; is >> p >> k2 >> n2 >> kk; CHECK(p == "p" && k2 == tag && n2 == N && kk == K, w << ": saved parameters " << p << " " << k2 << " " << n2 << " " << kk); }
    E again; int how = g.draw(2); if (g.boolean()) { std::string f0 = dir.file("other"); unsigned n0 = g.range(1, 8), k0 = g.draw(std::min(n0 - 1, 3u)); { std::ofstream o(f0.c_str()); o << "p " << tag << " " << n0 << " " << k0 << (tag == "NK" ? "" : " 1") << "\np links\n"; for (unsigned j = 0; j <= k0; ++j) for (unsigned i = 0; i < n0; ++i) o << (i + j) % n0 << " "; o << "\np tables\n"; for (unsigned j = 0; j < n0 * (2u << k0); ++j) o << 0.25 << "\n"; } again.load(f0); S s = genBits<double>(g, n0); again(s); CHECK(s.fitness() == 0.25, w << ": loaded constant landscape gives " << s.fitness()); } again.load(f); std::unique_ptr<E> ctor; if (how == 2) { again.load(f); ctor.reset(new E(f.c_str())); } CHECK(again.N == N && again.K == K, w << ": reloaded size"); for (unsigned r = 0; r < 4; ++r) { S s = genBits<double>(g, N), t(s), u(s); judge<S>(g, e, s, value(s, e), w); e(s); again(t); CHECK(std::fabs(s.fitness() - t.fitness()) <= 1e-12, w << ": " << t.fitness() << " after save and load instead of " << s.fitness()); if (ctor) { (*ctor)(u); CHECK(std::fabs(s.fitness() - u.fitness()) <= 1e-12, w << ": " << u.fitness() << " built from the saved file instead of " << s.fitness()); } } for (unsigned i = 0; i < N; ++i) { for (unsigned j = 0; j <= K; ++j) CHECK(again.links[i][j] == e.links[i][j], w << ": reloaded links"); for (unsigned j = 0; j < (2u << K); ++j) CHECK(std::fabs(again.tables[i][j] - e.tables[i][j]) <= 1e-12, w << ": reloaded tables"); }
    std::string f2 = dir.file("again"); again.save(f2.c_str()); std::string a = slurp(f), b = slurp(f2); CHECK(a.substr(a.find('\n')) == b.substr(b.find('\n')), w << ": saved again as another file"); bool threw = false; try { E x; x.load(dir.file("missing")); } catch (std::exception&) { threw = true; } CHECK(threw, w << ": loaded a missing file"); std::string head = a.substr(a.find('\n') + 1); threw = false; try { E x; x.load(dir.put("c x\nq " + head.substr(2))); } catch (std::exception&) { threw = true; } CHECK(threw, w << ": loaded a file without parameters"); threw = false; std::string wrong = head; wrong.replace(wrong.find(tag), tag.size(), "XX"); try { E x; x.load(dir.put(wrong)); } catch (std::exception&) { threw = true; } CHECK(threw, w << ": loaded an instance of another kind"); { E x; x.load(dir.put("c one\nc two words\n" + head)); S s = genBits<double>(g, N), t(s); e(s); x(t); CHECK(std::fabs(s.fitness() - t.fitness()) <= 1e-12, w << ": comments change the instance"); }
}
void nk(pbt::Gen& g) {
    typedef eoBit<double> S; unsigned N = g.range(1, 7), K = g.draw(std::min(N - 1, 4u)); bool cons = g.boolean(); int kind = g.draw(2); if (kind == 0) { std::unique_ptr<nkLandscapesEval<S>> e(cons ? new nkLandscapesEval<S>(N, K, true) : new nkLandscapesEval<S>(N, K)); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < (2u << K); ++j) CHECK(e->tables[i][j] >= 0 && e->tables[i][j] < 1, "NK contribution outside [0,1)"); nkCheck(g, *e, N, K, "nkLandscapesEval", "NK", cons); } else if (kind == 1) { double p = g.oneof({0.0, 0.3, 0.9, 1.0}); nkpLandscapesEval<S> e(N, K, p, cons); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < (2u << K); ++j) { double x = e.tables[i][j]; CHECK(x >= 0 && x < 1 && (p < 1 || x == 0) && (p > 0 || x > 0), "NKp contribution " << x << " with p=" << p); } nkCheck(g, e, N, K, "nkpLandscapesEval", "NKp", cons); } else { unsigned q = g.range(2, 5); nkqLandscapesEval<S> e(N, K, q, cons); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < (2u << K); ++j) { double x = e.tables[i][j] * (q - 1); CHECK(std::fabs(x - std::round(x)) < 1e-9 && x > -0.5 && x < q - 0.5, "NKq contribution " << e.tables[i][j] << " with q=" << q); } nkCheck(g, e, N, K, "nkqLandscapesEval", "NKq", cons); }
    g.nontrivial(N > 1 && K > 0); g.label("problem", kind == 0 ? "NK" : kind == 1 ? "NKp" : "NKq"); g.note("N=").note(N).note(" K=").note(K);
}
void sat(pbt::Gen& g) {
    typedef eoBit<double> S; Scratch dir; unsigned n = g.range(1, 6), m = g.draw(8), k = g.range<unsigned>(1, n); bool random = g.boolean(); std::vector<std::vector<int>> cl; std::unique_ptr<MaxSATeval<S>> e; if (random) { e.reset(new MaxSATeval<S>(n, m, k)); CHECK(e->nbVar == n && e->nbClauses == m, "MaxSATeval: sizes"); for (unsigned i = 0; i < m; ++i) { cl.push_back(e->clauses[i]); std::set<int> v; for (int l : cl[i]) { CHECK(l && std::abs(l) <= (int)n, "MaxSATeval: literal " << l); v.insert(std::abs(l)); } CHECK(cl[i].size() == k && v.size() == k, "MaxSATeval: clause without " << k << " variables"); } } else { std::string t; for (unsigned c = g.draw(2); c-- > 0;) t += "c some p cnf 3 comment\n"; t += "p cnf " + std::to_string(n) + " " + std::to_string(m) + "\n"; for (unsigned i = 0; i < m; ++i) { std::vector<int> c; unsigned l = g.chance(1, 8) ? 0 : g.range(1, 4); for (unsigned j = 0; j < l; ++j) c.push_back((g.boolean() ? 1 : -1) * g.range(1, (int)n)); cl.push_back(c); for (int x : c) t += std::to_string(x) + (g.chance(1, 6) ? "\n" : " "); t += "0\n"; } std::string f = dir.put(t); e.reset(new MaxSATeval<S>(f)); }
    std::string f = dir.file("saved"); e->save(f); MaxSATeval<S> again(f); for (unsigned r = 0; r < 4; ++r) { S s = genBits<double>(g, n); unsigned w = 0; for (unsigned i = 0; i < m; ++i) { bool t = false; for (int l : cl[i]) t = t || (l > 0 ? s[l - 1] : !s[-l - 1]); CHECK(e->clauseEval(i, s) == t, "MaxSATeval: clause " << i << " on " << text(s)); w += t; } judge<S>(g, *e, s, w, "MaxSATeval"); judge<S>(g, again, s, w, "MaxSATeval after save and load"); } for (std::string bad : {"c x\nq cnf 1 1\n1 0\n", "p dnf 1 1\n1 0\n"}) { bool threw = false; try { std::string b = dir.put(bad); MaxSATeval<S> x(b); } catch (std::exception&) { threw = true; } CHECK(threw, "MaxSATeval read a file of another format"); } bool threw = false; try { std::string b = dir.file("missing"); MaxSATeval<S> x(b); } catch (std::exception&) { threw = true; } CHECK(threw, "MaxSATeval read a missing file"); g.nontrivial(m > 1 && n > 1); g.label("problem", random ? "random SAT" : "SAT file"); g.note(n).note(" variables, ").note(m).note(" clauses");
}
template <class F> void quadratic(pbt::Gen& g) {
    typedef eoBit<F> S; Scratch dir; unsigned count = g.range(1, 3), pick = g.draw(count - 1), format = g.draw(1); std::ostringstream t; t << count << "\n"; std::vector<std::vector<int>> Q; for (unsigned c = 0; c < count; ++c) { unsigned n = g.draw(5); std::vector<std::vector<int>> q(n, std::vector<int>(n, 0)); for (auto& r : q) for (auto& x : r) if (g.chance(2, 3)) x = g.chance(1, 8) ? 100000 * g.range(-9, 9) : g.range(-9, 9); if (format) { t << n << "\n"; for (auto& r : q) { for (int x : r) t << x << " "; t << "\n"; } } else { unsigned z = 0; for (auto& r : q) for (int x : r) z += x != 0; t << n << " " << z << "\n"; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (q[i][j]) t << i + 1 << " " << j + 1 << " " << q[i][j] << "\n"; } if (c == pick) Q = q; } std::string f = dir.put(t.str()); unsigned n = Q.size(); UbqpEval<S> e(f, format, pick); CHECK(e.getNbVar() == (int)n, "UbqpEval: " << e.getNbVar() << " variables instead of " << n); for (unsigned r = 0; r < 4; ++r) { S s = genBits<F>(g, n); double w = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) w += Q[i][j] * s[i] * s[j]; judge<S>(g, e, s, w, "UbqpEval"); } g.nontrivial(n > 1); g.label("problem", format ? "UBQP matrix" : "UBQP list"); g.note(n).note(" variables, instance ").note(pick);
}
template <class T> void assignment(pbt::Gen& g) {
    typedef eoInt<Low> S; Scratch dir; unsigned n = g.draw(5); std::ostringstream t; t << n << "\n\n"; std::vector<std::vector<double>> M[2]; for (int k = 0; k < 2; ++k) { M[k].assign(n, std::vector<double>(n, 0)); for (auto& r : M[k]) { for (auto& x : r) { x = (g.chance(1, 8) ? 70000 : 1) * g.range(-3, 9) * (std::is_same<T, double>::value ? 0.5 : 1); t << x << " "; } t << "\n"; } t << "\n"; } QAPeval<S, T> e(dir.put(t.str())); CHECK(e.getNbVar() == (int)n, "QAPeval: size"); for (unsigned r = 0; r < 3; ++r) { S s; for (unsigned i = 0; i < n; ++i) s.push_back(i); for (unsigned i = n; i > 1; --i) std::swap(s[i - 1], s[g.draw(i - 1)]); double w = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) w += M[0][i][j] * M[1][s[i]][s[j]]; judge<S>(g, e, s, w, "QAPeval"); } g.nontrivial(n > 1); g.label("problem", "QAP"); g.note("QAP of ").note(n);
}
void queens(pbt::Gen& g) { typedef eoInt<Low> S; queenEval<S> e; unsigned n = g.draw(8); for (unsigned r = 0; r < 3; ++r) { S s; for (unsigned i = 0; i < n; ++i) s.push_back(i); unsigned swaps = g.draw(8); for (unsigned k = 0; n && k < swaps; ++k) std::swap(s[g.draw(n - 1)], s[g.draw(n - 1)]); double w = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) w += std::abs((int)s[i] - (int)s[j]) == (int)(j - i); judge<S>(g, e, s, w, "queenEval"); } g.nontrivial(n > 2); g.label("problem", "queens"); g.note("queens ").note(n); }
// DTLZ
std::vector<double> reference(int which, const std::vector<double>& x, unsigned M, double alpha) {
    unsigned n = x.size(), k = n - M + 1; double g = 0; const double PI = 3.14159265358979323846; for (unsigned i = M - 1; i < n; ++i) { double d = x[i] - 0.5; g += which == 1 || which == 3 ? d * d - std::cos(20 * PI * d) : which == 6 ? std::pow(x[i], 0.1) : which == 7 ? x[i] : d * d; } if (which == 1 || which == 3) g = 100 * (k + g); if (which == 7) { g = 1 + 9 * g / k; std::vector<double> f(x.begin(), x.begin() + M - 1); double h = M; for (double v : f) h -= v / (1 + g) * (1 + std::sin(3 * PI * v)); f.push_back((1 + g) * h); return f; } std::vector<double> th; for (unsigned i = 0; i + 1 < M; ++i) th.push_back(which == 4 ? std::pow(x[i], alpha) * PI / 2 : (which == 5 || which == 6) && i > 0 ? PI / (4 * (1 + g)) * (1 + 2 * g * x[i]) : x[i] * PI / 2); std::vector<double> f; for (unsigned m = 0; m < M; ++m) { double v = (1 + g) * (which == 1 ? 0.5 : 1); for (unsigned i = 0; i + m + 1 < M; ++i) v *= which == 1 ? x[i] : std::cos(th[i]); if (m) v *= which == 1 ? 1 - x[M - 1 - m] : std::sin(th[M - 1 - m]); f.push_back(v); } return f;
}
void dtlz(pbt::Gen& g) {
    unsigned M = g.range(2, 5), n = M + g.draw(5); std::vector<bool> dir(M, true); moeoObjectiveVectorTraits::setup(M, dir); double alpha = g.oneof({1.0, 2.0, 10.0, 100.0}); int which = g.range(1, 7); DTLZ1Eval e1; DTLZ2Eval e2; DTLZ3Eval e3; DTLZ4Eval e4(alpha); DTLZ5Eval e5; DTLZ6Eval e6; DTLZ7Eval e7; moeoEvalFunc<DTLZ>* es[] = {&e1, &e2, &e3, &e4, &e5, &e6, &e7}; std::vector<double> x; int style = g.draw(2); for (unsigned i = 0; i < n; ++i) x.push_back(style == 0 ? g.oneof({0.0, 0.5, 1.0, 0.25}) : style == 1 && i >= M - 1 ? 0.5 : g.real(0, 1)); DTLZ s; s.resize(n); for (unsigned i = 0; i < n; ++i) s[i] = x[i]; std::string w = "DTLZ" + std::to_string(which) + " of " + pbt::strv(x); bool known = g.chance(1, 4); DTLZObjectiveVector old; if (known) { for (unsigned m = 0; m < M; ++m) old[m] = g.grid(9, 1); s.objectiveVector(old); } (*es[which - 1])(s); for (unsigned i = 0; i < n; ++i) CHECK(s[i] == x[i], w << ": variables changed"); CHECK(!s.invalidObjectiveVector(), w << ": not evaluated"); auto f = reference(which, x, M, alpha); for (unsigned m = 0; m < M; ++m) { double is = s.objectiveVector()[m]; if (known) CHECK(is == old[m], w << ": evaluated again"); else CHECK(std::fabs(is - f[m]) <= 1e-8 * (1 + std::fabs(f[m])), w << ": objective " << m << " is " << is << " instead of " << f[m]); } g.nontrivial(!known); g.label("problem", "DTLZ" + std::to_string(which)); g.note(w);
}
typedef eoReal<double> R;
void mutation(pbt::Gen& g) {
    unsigned n = g.range(1, 5); std::vector<double> lo, hi; for (unsigned i = 0; i < n; ++i) { lo.push_back(g.grid(6, 0.5)); hi.push_back(lo[i] + g.oneof({0.5, 1.0, 4.0})); } eoRealVectorBounds b(lo, hi); double p = g.oneof({0.0, 0.3, 1.0}), eta = g.oneof({0.0, 1.0, 5.0, 20.0}); PolynomialMutation<R> mut(b, p, eta); for (unsigned r = 0; r < 30; ++r) { R s; for (unsigned i = 0; i < n; ++i) s.push_back(g.chance(1, 5) ? lo[i] : g.chance(1, 5) ? hi[i] : lo[i] + g.real(0, 1) * (hi[i] - lo[i])); R t(s); bool c = mut(s); bool diff = false; for (unsigned i = 0; i < n; ++i) { CHECK(s[i] >= lo[i] && s[i] <= hi[i], "PolynomialMutation: variable " << s[i] << " outside [" << lo[i] << "," << hi[i] << "]"); diff = diff || s[i] != t[i]; double reach = std::min(t[i] - lo[i], hi[i] - t[i]); CHECK(std::fabs(s[i] - t[i]) <= reach + 1e-12 * (1 + std::fabs(t[i])), "PolynomialMutation moved " << t[i] << " to " << s[i]); } CHECK(!diff || c, "PolynomialMutation changed something and says no"); if (p == 0) CHECK(!c, "PolynomialMutation at rate 0"); if (p == 1) CHECK(c, "PolynomialMutation at rate 1"); } g.nontrivial(p > 0); g.note("rate ").note(p).note(" eta ").note(eta);
}
void mutationLaw(pbt::Gen& g) {
    double lo = g.grid(4, 1), w = g.oneof({1.0, 3.0}), p = g.oneof({0.2, 1.0}), eta = g.oneof({0.0, 1.0, 5.0, 20.0}), at = g.oneof({0.1, 0.3, 0.5, 0.8}); eoRealVectorBounds b(1, lo, lo + w); PolynomialMutation<R> mut(b, p, eta); double dm = std::min(at, 1 - at), q = std::pow(1 - dm, eta + 1), P = (std::pow(1 - dm / 2, eta + 1) - q) / (2 * (1 - q)); const unsigned M = 4000; std::vector<unsigned> c(5, 0); for (unsigned i = 0; i < M; ++i) { R s; s.push_back(lo + at * w); bool m = mut(s); double d = (s[0] - lo) / w - at; if (!m) c[4]++; else c[d <= -dm / 2 ? 0 : d <= 0 ? 1 : d < dm / 2 ? 2 : 3]++; } checkFreq({p * P, p * (0.5 - P), p * (0.5 - P), p * P, 1 - p}, c, "polynomial mutation, eta " + std::to_string(eta)); g.nontrivial(true); g.note("eta ").note(eta).note(" at ").note(at);
}
void crossover(pbt::Gen& g) {
    unsigned n = g.range(1, 5); std::vector<double> lo, hi; for (unsigned i = 0; i < n; ++i) { lo.push_back(g.grid(6, 0.5)); hi.push_back(lo[i] + g.oneof({0.5, 1.0, 4.0})); } eoRealVectorBounds b(lo, hi); double eta = g.oneof({0.0, 1.0, 5.0, 20.0}); SBXCrossover<R> x(b, eta); for (unsigned r = 0; r < 30; ++r) { R a, c; bool any = false; for (unsigned i = 0; i < n; ++i) { auto draw = [&] { return g.chance(1, 6) ? lo[i] : g.chance(1, 6) ? hi[i] : lo[i] + g.real(0, 1) * (hi[i] - lo[i]); }; a.push_back(draw()); c.push_back(g.chance(1, 4) ? a[i] : draw()); any = any || std::fabs(a[i] - c[i]) > 1e-13; } R a0(a), c0(c); bool ch = x(a, c); CHECK(ch == any, "SBXCrossover says " << ch); for (unsigned i = 0; i < n; ++i) { for (double v : {a[i], c[i]}) CHECK(v >= lo[i] && v <= hi[i], "SBXCrossover: child " << v << " outside [" << lo[i] << "," << hi[i] << "]"); double m = (a0[i] + c0[i]) / 2; CHECK(std::min(a[i], c[i]) <= m + 1e-9 && std::max(a[i], c[i]) >= m - 1e-9, "SBXCrossover: both children on one side of " << m); if (a0[i] == c0[i]) CHECK(a[i] == a0[i] && c[i] == c0[i], "SBXCrossover changed equal genes"); } } g.nontrivial(true); g.note("eta ").note(eta);
}
void crossoverLaw(pbt::Gen& g) {
    double lo = g.grid(4, 1), w = g.oneof({1.0, 4.0}), eta = g.oneof({0.0, 1.0, 5.0, 20.0}); double y1 = lo + w * g.oneof({0.0, 0.1, 0.3}), y2 = lo + w * g.oneof({0.4, 0.6, 1.0}); eoRealVectorBounds b(1, lo, lo + w); SBXCrossover<R> x(b, eta); double half = (y2 - y1) / 2, mid = (y1 + y2) / 2; auto law = [&](double bmax) { double al = 2 - std::pow(bmax, -(eta + 1)), B = 0.8; double pB = std::pow(B, eta + 1) / al, p1 = 1 / al, C = 1 + (bmax - 1) / 2, pC = (2 - std::pow(C, -(eta + 1))) / al; if (bmax <= 1) { p1 = pC = 1; } return std::vector<double>{pB, p1 - pB, pC - p1, 1 - pC}; }; double b1 = 1 + (y1 - lo) / half, b2 = 1 + (lo + w - y2) / half; const unsigned M = 4000; std::vector<unsigned> l(4, 0), h(4, 0), side(2, 0); auto cell = [&](double bq, double bmax) { return bq <= 0.8 ? 0 : bq <= 1 + 1e-12 ? 1 : bq <= 1 + (bmax - 1) / 2 ? 2 : 3; }; bool flip = g.boolean(); for (unsigned i = 0; i < M; ++i) { R a, c; a.push_back(flip ? y2 : y1); c.push_back(flip ? y1 : y2); x(a, c); double s = std::min(a[0], c[0]), t = std::max(a[0], c[0]); l[cell((mid - s) / half, b1)]++; h[cell((t - mid) / half, b2)]++; side[a[0] <= c[0]]++; } auto q1 = law(b1), q2 = law(b2); for (auto* q : {&q1, &q2}) for (double& v : *q) if (std::fabs(v) < 1e-12) v = 0; checkFreq(q1, l, "lower child of SBX, eta " + std::to_string(eta)); checkFreq(q2, h, "upper child of SBX, eta " + std::to_string(eta)); checkFreq({0.5, 0.5}, side, "child that goes first"); g.nontrivial(true); g.note("eta ").note(eta);
}
}
PBT(bit_problems, 6000, 60000) { if (g.boolean()) bitProblems<double>(g); else bitProblems<Low>(g); }
PBT(nk_landscapes, 1500, 15000) { nk(g); }
PBT(satisfiability, 1500, 15000) { sat(g); }
PBT(binary_quadratic, 1500, 15000) { if (g.boolean()) quadratic<double>(g); else quadratic<Low>(g); }
PBT(quadratic_assignment, 1000, 10000) { if (g.boolean()) assignment<long>(g); else assignment<double>(g); }
PBT(queen_boards, 1500, 15000) { queens(g); }
PBT(dtlz_suite, 8000, 80000) { dtlz(g); }
PBT(polynomial_mutation, 2000, 20000) { mutation(g); }
PBT(polynomial_mutation_law, 40, 400) { mutationLaw(g); }
PBT(sbx, 2000, 20000) { crossover(g); }
PBT(sbx_law, 40, 400) { crossoverLaw(g); }
PBT(contribution_laws, 40, 400) { typedef eoBit<double> S; double p = g.oneof({0.1, 0.5, 0.8}); nkpLandscapesEval<S> e(300, 3, p); unsigned q = g.range(2, 5); nkqLandscapesEval<S> f(300, 3, q); nkLandscapesEval<S> h(300, 3); std::vector<unsigned> z(2, 0), l(q, 0), u(4, 0); std::vector<unsigned> first(4, 0); for (unsigned i = 0; i < 300; ++i) { for (unsigned j = 0; j < 16; ++j) { z[e.tables[i][j] == 0]++; l[(unsigned)std::lround(f.tables[i][j] * (q - 1))]++; u[std::min(3u, (unsigned)(h.tables[i][j] * 4))]++; } for (unsigned j = 1; j < 4; ++j) first[h.links[i][j] * 4 / 300]++; } checkFreq({1 - p, p}, z, "zero contributions of NKp"); checkFreq(std::vector<double>(q, 1.0 / q), l, "levels of NKq"); checkFreq(std::vector<double>(4, 0.25), u, "contributions of NK"); checkFreq(std::vector<double>(4, 0.25), first, "random links"); MaxSATeval<S> m(8, 1500, 2); std::vector<unsigned> var(8, 0), sign(2, 0); for (unsigned i = 0; i < 1500; ++i) for (int x : m.clauses[i]) { var[std::abs(x) - 1]++; sign[x > 0]++; } checkFreq(std::vector<double>(8, 0.125), var, "variables of random clauses"); checkFreq({0.5, 0.5}, sign, "signs of random literals"); g.nontrivial(true); g.note("p ").note(p).note(" q ").note(q); }
