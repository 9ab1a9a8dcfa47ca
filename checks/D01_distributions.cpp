// D01: estimated distributions, samplers, bounders, repairers and re-centring.
#include "eo_support.hpp"
#include <es.h>
#include <mo>
#include <edo>
#include <Eigen/Dense>
#include <memory>
namespace {
typedef eoReal<eoMinimizingFitness> R;
typedef eoBit<double> B;
typedef edoNormalMulti<R> Multi;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
struct BB : public EO<double>, public std::vector<std::vector<int>> { typedef std::vector<int> AtomType; void readFrom(std::istream&) {} void printOn(std::ostream&) const {} };   // rows of bits
std::vector<double> vec(const R& r) { return std::vector<double>(r.begin(), r.end()); }
// values on a grid, far from zero at times so that centring matters
R genReal(pbt::Gen& g, unsigned n, double shift = 0) { R r; for (unsigned i = 0; i < n; ++i) r.push_back(shift + (g.chance(1, 6) ? 0.0 : g.boolean() ? g.grid(8, 0.5) : g.real(-4, 4))); return r; }
eoPop<R> genPopulation(pbt::Gen& g, unsigned n) { eoPop<R> p; unsigned m = g.range(1, 8); double shift = g.oneof({0.0, 0.0, 10.0, -100.0}); for (unsigned i = 0; i < m; ++i) { if (i && g.chance(1, 5)) p.push_back(p[g.draw(i - 1)]); else p.push_back(genReal(g, n, shift)); p.back().fitness(eoMinimizingFitness(g.grid(5, 1))); } return p; }
bool close(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-8 * (s + std::fabs(a) + std::fabs(b)); }
void estimators(pbt::Gen& g) {
    edoEstimatorUniform<R> u; edoEstimatorNormalMono<R> mono; edoEstimatorNormalMulti<R> multi; unsigned reps = g.range(1, 3); for (unsigned r = 0; r < reps; ++r) { unsigned n = g.range(1, 5); eoPop<R> p = genPopulation(g, n), was(p); unsigned m = p.size(); auto du = u(p); auto d1 = mono(p); auto d2 = multi(p); for (unsigned i = 0; i < m; ++i) CHECK(p.size() == m && p[i] == was[i] && !p[i].invalid(), "estimators change the population"); CHECK(du.size() == n && d1.size() == n && d2.size() == n, "dimension of the estimated distributions"); std::vector<double> mean(n, 0); for (unsigned d = 0; d < n; ++d) { double lo = p[0][d], hi = lo; for (auto& x : p) { mean[d] += x[d] / m; lo = std::min(lo, x[d]); hi = std::max(hi, x[d]); } CHECK(du.min()[d] == lo && du.max()[d] == hi, "edoEstimatorUniform: [" << du.min()[d] << "," << du.max()[d] << "] instead of [" << lo << "," << hi << "]"); } for (unsigned d = 0; d < n; ++d) { CHECK(close(d1.mean()[d], mean[d]) && close(Vec(d2.mean())[d], mean[d]), "means " << d1.mean()[d] << " and " << Vec(d2.mean())[d] << " instead of " << mean[d]); for (unsigned e = 0; e < n; ++e) { double c = 0; for (auto& x : p) c += (x[d] - mean[d]) * (x[e] - mean[e]) / m; double is = Mat(d2.varcovar())(d, e); CHECK(close(is, c, 10), "edoEstimatorNormalMulti: covariance " << is << " of variables " << d << " and " << e << " instead of " << c); if (d == e) CHECK(close(d1.variance()[d], c, 10), "edoEstimatorNormalMono: variance " << d1.variance()[d] << " instead of " << c); } } g.nontrivial(m > 1); g.note(m).note(" points of ").note(n).note("; "); }
}
void binomials(pbt::Gen& g) {
    unsigned n = g.range(1, 6), m = g.range(1, 7); eoPop<B> p; for (unsigned i = 0; i < m; ++i) { B b; for (unsigned j = 0; j < n; ++j) b.push_back(g.boolean()); p.push_back(b); } edoEstimatorBinomial<B> e; auto d = e(p); CHECK(d.size() == n, "edoEstimatorBinomial: dimension"); for (unsigned j = 0; j < n; ++j) { double c = 0; for (auto& b : p) c += b[j]; CHECK(close(d[j], c / m), "edoEstimatorBinomial: " << d[j] << " instead of " << c / m); } unsigned rows = g.range(1, 3), cols = g.range(1, 4); eoPop<BB> q; for (unsigned i = 0; i < m; ++i) { BB b; for (unsigned r = 0; r < rows; ++r) { std::vector<int> row; for (unsigned c = 0; c < cols; ++c) row.push_back(g.boolean()); b.push_back(row); } q.push_back(b); } double cap = 0; for (auto& b : q) { double s = 0; for (auto& r : b) for (int v : r) s += v; cap = std::max(cap, s); } if (cap > m) { g.label("matrix", "skipped"); } else { edoEstimatorBinomialMulti<BB> em; auto dm = em(q); CHECK(dm.rows() == rows && dm.cols() == cols, "edoEstimatorBinomialMulti: size"); for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) { double s = 0; for (auto& b : q) s += b[r][c]; CHECK(close(dm(r, c), s / m), "edoEstimatorBinomialMulti: " << dm(r, c) << " instead of " << s / m); } edoSamplerBinomialMulti<BB> sm; for (unsigned k = 0; k < 4; ++k) { BB b = sm(dm); CHECK(b.size() == rows && b.invalid(), "edoSamplerBinomialMulti: rows"); for (unsigned r = 0; r < rows; ++r) { CHECK(b[r].size() == cols, "edoSamplerBinomialMulti: columns"); for (unsigned c = 0; c < cols; ++c) { CHECK(b[r][c] == 0 || b[r][c] == 1, "edoSamplerBinomialMulti: value"); if (dm(r, c) < 1e-9) CHECK(b[r][c] == 0, "edoSamplerBinomialMulti: one of probability 0"); if (dm(r, c) > 1 - 1e-9) CHECK(b[r][c] == 1, "edoSamplerBinomialMulti: zero of probability 1"); } } } g.label("matrix", "checked"); }
    edoSamplerBinomial<B> s; for (unsigned k = 0; k < 4; ++k) { B b = s(d); CHECK(b.size() == n && b.invalid(), "edoSamplerBinomial: size"); for (unsigned j = 0; j < n; ++j) { if (d[j] < 1e-9) CHECK(!b[j], "edoSamplerBinomial: one of probability 0"); if (d[j] > 1 - 1e-9) CHECK(b[j], "edoSamplerBinomial: zero of probability 1"); } } double pr = g.oneof({0.0, 0.25, 1.0}); edoBinomial<B> c(n, pr); edoBinomialMulti<BB> cm(rows, cols, pr); CHECK(c.size() == n && cm.rows() == rows && cm.cols() == cols && c[n - 1] == pr && cm(rows - 1, cols - 1) == pr, "constant binomial distributions"); g.nontrivial(m > 1); g.note(m).note(" strings of ").note(n);
}
// generated covariance G Gᵀ, at times degenerate or very unequal
Mat genCovariance(pbt::Gen& g, unsigned n) { unsigned k = g.chance(1, 4) ? g.draw(n) : n; Mat G = Mat::Zero(n, std::max(1u, k)); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < k; ++j) G(i, j) = (j == i ? 1 : 0.5) * g.grid(4, 0.5) * (i == 0 && g.boolean() ? 0.1 : 1); return G * G.transpose(); }
void samples(pbt::Gen& g) {
    unsigned n = g.range(1, 4); const unsigned M = 3000; int kind = g.draw(2); edoBounderNo<R> no; Vec mean(n); Mat cov = Mat::Zero(n, n); R m, v, lo, hi; for (unsigned i = 0; i < n; ++i) { mean[i] = g.grid(6, 1); m.push_back(mean[i]); v.push_back(g.oneof({0.0, 0.25, 1.0, 9.0})); double w = g.oneof({0.0, 1.0, 4.0}); lo.push_back(mean[i] - w / 2); hi.push_back(mean[i] + w / 2); cov(i, i) = kind == 0 ? v[i] : w * w / 12; } if (kind == 2) cov = genCovariance(g, n); edoNormalMono<R> d0(m, v); edoUniform<R> d1(lo, hi); Multi d2(mean, cov); edoSamplerNormalMono<R> s0(no); edoSamplerUniform<R> s1(no); edoSamplerNormalMulti<R> s2(no); std::vector<R> xs; Vec sum = Vec::Zero(n); for (unsigned k = 0; k < M; ++k) { R x = kind == 0 ? s0(d0) : kind == 1 ? s1(d1) : s2(d2); CHECK(x.size() == n && x.invalid(), "sample of another size"); for (unsigned i = 0; i < n; ++i) { CHECK(std::isfinite(x[i]), "sampled " << x[i]); sum[i] += x[i]; if (kind == 1) CHECK(x[i] >= lo[i] && x[i] <= hi[i], "edoSamplerUniform: " << x[i] << " outside [" << lo[i] << "," << hi[i] << "]"); if (cov(i, i) == 0) CHECK(close(x[i], mean[i]), "variable without variance sampled at " << x[i]); } xs.push_back(x); } Vec sm = sum / M; for (unsigned i = 0; i < n; ++i) { CHECK(std::fabs(sm[i] - mean[i]) <= 7 * std::sqrt(cov(i, i) / M) + 1e-9, "mean " << sm[i] << " of the samples instead of " << mean[i] << " with variance " << cov(i, i)); for (unsigned j = 0; j <= i; ++j) { double c = 0; for (auto& x : xs) c += (x[i] - mean[i]) * (x[j] - mean[j]) / M; double sd = std::sqrt((cov(i, i) * cov(j, j) + cov(i, j) * cov(i, j)) / M); CHECK(std::fabs(c - cov(i, j)) <= 7 * sd + 1e-9, "covariance " << c << " of sampled variables " << i << " and " << j << " instead of " << cov(i, j)); } if (cov(i, i) > 0) { double q[4] = {-0.6744897501960817, 0, 0.6744897501960817, 0}; std::vector<unsigned> cells(4, 0); for (auto& x : xs) { double z = (x[i] - mean[i]) / std::sqrt(cov(i, i)); if (kind == 1) cells[std::min(3, int((x[i] - lo[i]) / (hi[i] - lo[i]) * 4))]++; else cells[z < q[0] ? 0 : z < 0 ? 1 : z < q[2] ? 2 : 3]++; } sup::checkFreq(std::vector<double>(4, 0.25), cells, "quartiles of sampled variable"); } }
    g.nontrivial(n > 1); g.label("sampler", kind == 0 ? "independent normal" : kind == 1 ? "uniform" : "correlated normal"); g.note(n).note(" variables");
}
void bitSamples(pbt::Gen& g) { unsigned n = g.range(1, 4); const unsigned M = 3000; std::vector<double> pr; for (unsigned i = 0; i < n; ++i) pr.push_back(g.oneof({0.0, 0.1, 0.5, 0.8, 1.0})); edoBinomial<B> d(pr); edoSamplerBinomial<B> s; std::vector<unsigned> ones(n, 0); unsigned both = 0; for (unsigned k = 0; k < M; ++k) { B b = s(d); for (unsigned i = 0; i < n; ++i) ones[i] += b[i]; both += b[0] && b[n - 1]; } for (unsigned i = 0; i < n; ++i) sup::checkFreq({pr[i], 1 - pr[i]}, {ones[i], M - ones[i]}, "edoSamplerBinomial"); double pb = n > 1 ? pr[0] * pr[n - 1] : pr[0]; sup::checkFreq({pb, 1 - pb}, {both, M - both}, "edoSamplerBinomial: two bits together"); unsigned c = g.range(1, 3); edoBinomialMulti<BB> dm(Mat::Constant(2, c, 0.5)); std::vector<double> pm; for (unsigned j = 0; j < c; ++j) { pm.push_back(g.oneof({0.0, 0.2, 0.7})); dm(1, j) = pm[j]; } edoSamplerBinomialMulti<BB> sm; std::vector<unsigned> om(c, 0); for (unsigned k = 0; k < M; ++k) { BB b = sm(dm); for (unsigned j = 0; j < c; ++j) om[j] += b[1][j]; } for (unsigned j = 0; j < c; ++j) sup::checkFreq({pm[j], 1 - pm[j]}, {om[j], M - om[j]}, "edoSamplerBinomialMulti"); g.nontrivial(true); g.note(n).note(" bits"); }
// generator that counts its calls
struct Fixed : public eoRndGenerator<double> { double next; unsigned calls; Fixed() : next(0), calls(0) {} double operator()() { ++calls; return next++; } };
void repairs(pbt::Gen& g) {
    unsigned n = g.range(1, 6); R x; R lo, hi; for (unsigned i = 0; i < n; ++i) { lo.push_back(g.grid(4, 0.5)); hi.push_back(lo[i] + g.oneof({0.0, 0.5, 2.0})); x.push_back(g.chance(1, 6) ? lo[i] : g.chance(1, 6) ? hi[i] : g.grid(40, 0.125)); } if (g.boolean()) x.fitness(eoMinimizingFitness(1)); R y(x); int kind = g.draw(7); std::string what; auto expect = [&](unsigned i, double want) { CHECK(std::fabs(y[i] - want) <= 1e-12 * (1 + std::fabs(want)), what << ": " << x[i] << " becomes " << y[i] << " instead of " << want); };
    if (kind == 0) { what = "edoBounderBound"; edoBounderBound<R> b(lo, hi); b(y); for (unsigned i = 0; i < n; ++i) expect(i, std::min(hi[i], std::max(lo[i], x[i]))); CHECK(b.min() == lo && b.max() == hi, "bounds"); }
    else if (kind == 1) { what = "edoBounderNo"; edoBounderNo<R> b; b(y); for (unsigned i = 0; i < n; ++i) expect(i, x[i]); }
    else if (kind == 2) { what = "edoBounderUniform"; edoBounderUniform<R> b(lo, hi); b(y); for (unsigned i = 0; i < n; ++i) if (x[i] >= lo[i] && x[i] <= hi[i]) expect(i, x[i]); else CHECK(y[i] >= lo[i] && y[i] <= hi[i], what << ": " << y[i] << " outside [" << lo[i] << "," << hi[i] << "]"); }
    else if (kind == 3) { what = "edoBounderRng"; Fixed f; f.next = 1000; edoBounderRng<R> b(lo, hi, f); b(y); unsigned k = 0; for (unsigned i = 0; i < n; ++i) if (x[i] >= lo[i] && x[i] <= hi[i]) expect(i, x[i]); else expect(i, 1000 + k++); CHECK(f.calls == k, what << " draws too often"); }
    else if (kind == 4) { int f = g.draw(2); what = f == 0 ? "edoRepairerFloor" : f == 1 ? "edoRepairerCeil" : "edoRepairerRound"; edoRepairerFloor<R> a; edoRepairerCeil<R> b; edoRepairerRound<R> c; if (f == 0) a(y); else if (f == 1) b(y); else c(y); for (unsigned i = 0; i < n; ++i) expect(i, f == 0 ? std::floor(x[i]) : f == 1 ? std::ceil(x[i]) : std::round(x[i])); CHECK(y.invalid(), what << " keeps the fitness"); }
    else if (kind == 5) { double p = g.oneof({1.0, 0.5, 0.25}); what = "edoRepairerRoundDecimals"; edoRepairerRoundDecimals<R> c(p); c(y); for (unsigned i = 0; i < n; ++i) expect(i, std::round(x[i] / p) * p); CHECK(y.invalid(), what << " keeps the fitness"); }
    else if (kind == 6) { double m = g.oneof({1.0, 1.5, 3.0}); what = "edoRepairerModulo"; edoRepairerModulo<R> c(m); c(y); for (unsigned i = 0; i < n; ++i) { expect(i, x[i] - m * std::trunc(x[i] / m)); CHECK(std::fabs(y[i]) < m, what << ": " << y[i]); } CHECK(y.invalid(), what << " keeps the fitness"); }
    else { what = "edoRepairerDispatcher"; edoRepairerFloor<R> a; edoRepairerCeil<R> b; edoRepairerModulo<R> c(2); edoRepairer<R>* ops[] = {&a, &b, &c}; unsigned parts = g.draw(3); R w(x); std::unique_ptr<edoRepairerDispatcher<R>> d; bool first = g.boolean(); if (!first || !parts) d.reset(new edoRepairerDispatcher<R>()); for (unsigned k = 0; k < parts; ++k) { unsigned f = g.draw(2), bits = g.draw((1u << n) - 1); std::vector<unsigned> idx; for (unsigned i = 0; i < n; ++i) if (bits >> i & 1) idx.push_back(i); if (g.boolean()) std::reverse(idx.begin(), idx.end()); if (d) d->add(idx, ops[f]); else d.reset(new edoRepairerDispatcher<R>(idx, ops[f])); for (unsigned i : idx) w[i] = f == 0 ? std::floor(w[i]) : f == 1 ? std::ceil(w[i]) : std::fmod(w[i], 2); } (*d)(y); for (unsigned i = 0; i < n; ++i) expect(i, w[i]); CHECK(y.invalid(), what << " keeps the fitness"); }
    g.nontrivial(n > 1); g.label("repairer", what); g.note(what).note(" of ").note(pbt::strv(vec(x)));
}
// the sampler repairs what it sampled
void repairedSamples(pbt::Gen& g) { unsigned n = g.range(1, 4); R lo(n, -0.5), hi(n, 0.5); edoBounderBound<R> b(lo, hi); edoSamplerNormalMono<R> s0(b); edoSamplerUniform<R> s1(b); edoSamplerNormalMulti<R> s2(b); edoSamplerNormalAdaptive<R> s3(b); edoNormalMono<R> d0(R(n, 0.0), R(n, 4.0)); edoUniform<R> d1(R(n, -3.0), R(n, 3.0)); Multi d2(n); edoNormalAdaptive<R> d3(n); for (unsigned k = 0; k < 10; ++k) for (int w = 0; w < 4; ++w) { R x = w == 0 ? s0(d0) : w == 1 ? s1(d1) : w == 2 ? s2(d2) : s3(d3); CHECK(x.size() == n, "sample size"); for (double v : vec(x)) CHECK(v >= -0.5 && v <= 0.5, "sampler " << w << " leaves " << v << " unrepaired"); } g.nontrivial(true); g.note(n); }
void centring(pbt::Gen& g) {
    unsigned n = g.range(1, 4); R lo, hi, m, v; for (unsigned i = 0; i < n; ++i) { lo.push_back(g.grid(8, 0.5)); hi.push_back(lo[i] + g.oneof({0.0, 1.0, 3.0})); m.push_back(g.grid(8, 0.5)); v.push_back(g.oneof({0.25, 1.0})); } Vec mean(n); for (unsigned i = 0; i < n; ++i) mean[i] = m[i]; Mat cov = genCovariance(g, n); edoUniform<R> u(lo, hi); edoNormalMono<R> d1(m, v); Multi d2(mean, cov); edoUniformCenter<R> c0; edoNormalMonoCenter<R> c1; edoNormalMultiCenter<R> c2; unsigned reps = g.range(1, 3); for (unsigned r = 0; r < reps; ++r) { R at = genReal(g, n), was(at); c0(u, at); c1(d1, at); c2(d2, at); for (unsigned i = 0; i < n; ++i) { CHECK(at[i] == was[i], "centring changes the point"); CHECK(close(u.min()[i], at[i] - (hi[i] - lo[i]) / 2) && close(u.max()[i], at[i] + (hi[i] - lo[i]) / 2), "edoUniformCenter: [" << u.min()[i] << "," << u.max()[i] << "] around " << at[i]); CHECK(d1.mean()[i] == at[i] && d1.variance()[i] == v[i], "edoNormalMonoCenter: " << d1.mean()[i] << " instead of " << at[i]); CHECK(Vec(d2.mean())[i] == at[i], "edoNormalMultiCenter: " << Vec(d2.mean())[i] << " instead of " << at[i]); for (unsigned j = 0; j < n; ++j) CHECK(Mat(d2.varcovar())(i, j) == cov(i, j), "edoNormalMultiCenter changes the covariance"); } } g.nontrivial(true); g.note(n).note(" variables");
}
// estimator that logs, for the combined ones
struct Step : public edoEstimator<Multi> { Multi* shared; Vec seen; double add; bool usesShared; Step(double a) : shared(0), add(a), usesShared(false) {} Multi operator()(eoPop<R>&) { seen = shared ? Vec(shared->mean()) : Vec(); Vec m = shared ? Vec(shared->mean()) : Vec(Vec::Zero(1)); for (int i = 0; i < m.size(); ++i) m[i] += add; return Multi(m, Mat::Identity(m.size(), m.size())); } };
void combined(pbt::Gen& g) {
    unsigned k = g.range(1, 3); Multi shared(1); std::vector<std::unique_ptr<Step>> st; for (unsigned i = 0; i < k; ++i) { st.emplace_back(new Step(g.range(1, 9))); st[i]->shared = &shared; } edoEstimatorCombinedAdaptive<Multi> a(shared, *st[0]); for (unsigned i = 1; i < k; ++i) a.add(*st[i]); eoPop<R> p = genPopulation(g, 1); double sum = 0; unsigned calls = g.range(1, 3); for (unsigned c = 0; c < calls; ++c) { Multi d = a(p); for (unsigned i = 0; i < k; ++i) { CHECK(st[i]->seen[0] == sum, "combined estimators: estimator " << i << " does not see the distribution of the former one"); sum += st[i]->add; } CHECK(Vec(d.mean())[0] == sum && Vec(shared.mean())[0] == sum, "combined estimators: result"); } edoEstimatorNormalMulti<R> e1; for (auto& s : st) s->shared = 0; unsigned n = g.range(1, 3); std::vector<edoEstimator<Multi>*> es; for (auto& s : st) es.push_back(s.get()); es.push_back(&e1); edoEstimatorCombinedStateless<Multi> b(es); for (unsigned c = 0; c < calls; ++c) { eoPop<R> q = genPopulation(g, n); Multi d = b(q), w = e1(q); CHECK(Vec(d.mean()) == Vec(w.mean()) && Mat(d.varcovar()) == Mat(w.varcovar()), "edoEstimatorCombinedStateless: not the last estimate"); } edoEstimatorCombinedStateless<Multi> one(e1); { eoPop<R> q = genPopulation(g, n); Multi d = one(q); CHECK(d.size() == n, "edoEstimatorCombinedStateless: dimension"); one.add(*st[0]); d = one(q); CHECK(d.size() == 1, "edoEstimatorCombinedStateless: added estimator"); }
    // transforms: as many new points as there were
    edoBounderNo<R> no; edoSamplerNormalMulti<R> s(no); Multi own(1); edoTransformAdaptive<Multi> t(own, e1, s); edoTransformStateless<Multi> t2(e1, s); eoPop<R> q = genPopulation(g, n), z(q); Multi w = e1(q); unsigned m = q.size(); t(q); CHECK(q.size() == m && Vec(own.mean()) == Vec(w.mean()), "edoTransformAdaptive: " << q.size() << " points instead of " << m); t2(z); CHECK(z.size() == m, "edoTransformStateless: " << z.size() << " points instead of " << m); for (auto& x : q) CHECK(x.size() == n && x.invalid(), "edoTransformAdaptive: point"); g.nontrivial(k > 1); g.note(k).note(" estimators");
}
}
PBT(estimate_real, 4000, 40000) { estimators(g); }
PBT(estimate_binary, 3000, 30000) { binomials(g); }
PBT(sample_real, 60, 600) { samples(g); }
PBT(sample_binary, 40, 400) { bitSamples(g); }
PBT(repair, 8000, 80000) { repairs(g); }
PBT(repair_samples, 300, 3000) { repairedSamples(g); }
PBT(recentre, 3000, 30000) { centring(g); }
PBT(combine_estimators, 2000, 20000) { combined(g); }
