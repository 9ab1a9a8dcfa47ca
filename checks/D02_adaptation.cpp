// D02: estimation-of-distribution loops and covariance matrix adaptation.
#include "eo_support.hpp"
#include <es.h>
#include <mo>
#include <edo>
#include <Eigen/Dense>
#include <es/CMAState.h>
#include <es/CMAParams.h>
#include <es/eoCMAInit.h>
#include <es/eoCMABreed.h>
#include <es/eig.h>
#include <memory>
namespace {
typedef eoReal<eoMinimizingFitness> R;
typedef edoNormalAdaptive<R> Ada;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
double value(const std::vector<double>& x) { double s = 0; for (unsigned i = 0; i < x.size(); ++i) s += (1 + 3 * i) * (x[i] - 1) * (x[i] - 1) + (i ? x[i] * x[i - 1] : 0); return s; }
struct Value : public eoEvalFunc<R> { unsigned calls; Value() : calls(0) {} void operator()(R& r) { if (r.invalid()) { r.fitness(eoMinimizingFitness(value(r))); ++calls; } } };
// ---- the loop, with parts that log what they are given
struct Log { std::vector<std::string> lines; void add(const std::string& s) { lines.push_back(s); } };
std::string ids(const eoPop<R>& p) { std::ostringstream o; for (auto& x : p) o << x[0] << (x.invalid() ? "? " : " "); return o.str(); }
struct Model : public edoDistrib<R> { double tag; explicit Model(double t = -1) : tag(t) {} unsigned size() const { return 1; } void reset(size_t dim = 0) { tag = 1000 + dim; } };
struct Est : public edoEstimator<Model> { Log& log; const char* name; double& clock; Est(Log& l, const char* n, double& c) : log(l), name(n), clock(c) {} Model operator()(eoPop<R>& p) { log.add(std::string(name) + " " + ids(p)); return Model(++clock); } };
struct Sel : public eoSelect<R> { Log& log; unsigned k; Sel(Log& l, unsigned k) : log(l), k(k) {} void operator()(const eoPop<R>& p, eoPop<R>& out) { log.add("select " + ids(p) + "to " + std::to_string(out.size())); out.clear(); for (unsigned i = 0; i < k && i < p.size(); ++i) out.push_back(p[i]); } };
struct Sam : public edoSampler<Model> { Log& log; double& clock; Sam(Log& l, double& c, edoRepairer<R>& r) : edoSampler<Model>(r), log(l), clock(c) {} R sample(Model& m) { log.add("sample " + std::to_string((int)m.tag)); R r; r.push_back(++clock); return r; } };
struct Eva : public eoPopEvalFunc<R> { Log& log; Eva(Log& l) : log(l) {} void operator()(eoPop<R>& a, eoPop<R>& b) { log.add("evaluate " + ids(a) + "/ " + ids(b)); for (auto& x : b) x.fitness(eoMinimizingFitness(x[0])); } };
struct Rep : public eoReplacement<R> { Log& log; Rep(Log& l) : log(l) {} void operator()(eoPop<R>& a, eoPop<R>& b) { log.add("replace " + ids(a) + "/ " + ids(b)); for (unsigned i = 0; i < a.size() && i < 2; ++i) a[i] = b[i]; } };
struct PopCont : public eoContinue<R> { Log& log; int left; PopCont(Log& l, int n) : log(l), left(n) {} bool operator()(const eoPop<R>& p) { log.add("population " + ids(p)); return --left > 0; } };
struct DisCont : public edoContinue<Model> { Log& log; int left; DisCont(Log& l, int n) : log(l), left(n) {} bool operator()(const Model& m) { log.add("distribution " + std::to_string((int)m.tag)); return --left > 0; } };
void loop(pbt::Gen& g) {
    Log log, want; double clock = 0; unsigned n = g.range(1, 5), k = g.range<unsigned>(1, n); int pops = g.range(1, 4), dists = g.range(1, 5); int ctor = g.draw(4); eoPop<R> p; for (unsigned i = 0; i < n; ++i) { R r; r.push_back(-1.0 - i); if (!g.chance(1, 4)) r.fitness(eoMinimizingFitness(i)); p.push_back(r); } edoBounderNo<R> no; Est est(log, "estimate", clock), init(log, "initial", clock); Sel sel(log, k); Sam sam(log, clock, no); Eva eva(log); Rep rep(log); PopCont pc(log, pops); DisCont dc(log, dists); Model d; std::unique_ptr<edoAlgo<Model>> algo; if (ctor == 0) algo.reset(new edoAlgoAdaptive<Model>(d, eva, sel, est, init, sam, rep, pc, dc)); else if (ctor == 1) algo.reset(new edoAlgoAdaptive<Model>(d, eva, sel, est, sam, rep, pc, dc)); else if (ctor == 2) algo.reset(new edoAlgoAdaptive<Model>(d, eva, sel, est, sam, rep, pc)); else if (ctor == 3) algo.reset(new edoAlgoStateless<Model>(eva, sel, est, sam, rep, pc, dc)); else algo.reset(new edoAlgoStateless<Model>(eva, sel, est, sam, rep, pc)); bool hasDist = ctor == 0 || ctor == 1 || ctor == 3;
    // the same run, written out
    eoPop<R> q(p); double c = 0, tag; want.add(std::string(ctor == 0 ? "initial " : "estimate ") + ids(q)); tag = ++c; int pl = pops, dl = dists; bool stoppedBy = false; while (true) { want.add("select " + ids(q) + "to 0"); eoPop<R> s; for (unsigned i = 0; i < k; ++i) s.push_back(q[i]); want.add("estimate " + ids(s)); tag = ++c; if (hasDist) { want.add("distribution " + std::to_string((int)tag)); if (!(--dl > 0)) { stoppedBy = true; break; } } eoPop<R> o; for (unsigned i = 0; i < n; ++i) { want.add("sample " + std::to_string((int)tag)); R r; r.push_back(++c); o.push_back(r); } want.add("evaluate " + ids(q) + "/ " + ids(o)); for (auto& x : o) x.fitness(eoMinimizingFitness(x[0])); want.add("replace " + ids(q) + "/ " + ids(o)); for (unsigned i = 0; i < n && i < 2; ++i) q[i] = o[i]; want.add("population " + ids(q)); if (!(--pl > 0)) break; }
    (*algo)(p); for (unsigned i = 0; i < std::max(log.lines.size(), want.lines.size()); ++i) { std::string a = i < log.lines.size() ? log.lines[i] : "nothing", b = i < want.lines.size() ? want.lines[i] : "nothing"; CHECK(a == b, "step " << i << " of the loop: " << a << " instead of " << b); } CHECK(p.size() == n && ids(p) == ids(q), "population left by the loop: " << ids(p) << " instead of " << ids(q)); if (ctor < 3) CHECK(d.tag == tag, "distribution left by the loop"); g.nontrivial(!stoppedBy && n > 1); g.label("stopped by", stoppedBy ? "distribution" : "population"); g.note(n).note(" individuals, ").note(pops).note("/").note(dists).note(" iterations");
}
void small(pbt::Gen& g) {
    // combined continuators, checkpoint, reset and edit
    Log log; unsigned k = g.range(1, 4); std::vector<std::unique_ptr<DisCont>> cs; std::vector<int> left; for (unsigned i = 0; i < k; ++i) { left.push_back(g.range(1, 4)); cs.emplace_back(new DisCont(log, left[i])); } bool check = g.boolean(); edoCombinedContinue<Model> comb(*cs[0]); edoCheckPoint<Model> cp(*cs[0]); struct Count : public eoUpdater { unsigned n, last; Count() : n(0), last(0) {} void operator()() { ++n; } void lastCall() { ++last; } } upd; struct Mon : public eoMonitor { unsigned n, last; Mon() : n(0), last(0) {} eoMonitor& operator()() { ++n; return *this; } void lastCall() { ++last; } } mon; struct St : public edoStat<Model, double> { unsigned last; St() : edoStat<Model, double>(0, "s"), last(0) {} void operator()(const Model& m) { value() = m.tag; } void lastCall(const Model& m) { ++last; value() = -m.tag; } } st; cp.add(upd); cp.add(mon); st.addTo(cp); for (unsigned i = 1; i < k; ++i) { comb.add(*cs[i]); cp.add(*cs[i]); } for (unsigned call = 1; call <= 5; ++call) { Model m(call); log.lines.clear(); std::vector<int> before; for (auto& c : cs) before.push_back(c->left); bool r = check ? cp(m) : comb(m); bool all = true; unsigned asked = 0; for (unsigned i = 0; i < k; ++i) if (check || all) { ++asked; if (!(before[i] - 1 > 0)) all = false; } CHECK(r == all, "call " << call << " says " << r); CHECK(log.lines.size() == asked, "continuators asked " << log.lines.size() << " times instead of " << asked); if (check) { CHECK(upd.n == call && mon.n == call && st.value() == (all ? call : -(double)call), "edoCheckPoint: parts not called"); } if (!r) { if (check) CHECK(upd.last == 1 && mon.last == 1 && st.last == 1, "edoCheckPoint: last call"); break; } else if (check) CHECK(upd.last == 0 && mon.last == 0 && st.last == 0, "edoCheckPoint: early last call"); }
    unsigned n = g.range(1, 4), n2 = g.range(1, 4); Ada d(n); auto dirty = [&]() { unsigned s = d.size(); d.mean(Vec(Vec::Constant(s, 3))); d.sigma(2); d.scaling(Vec::Constant(s, 4)); d.covar(Mat::Constant(s, s, 2)); d.coord_sys(Mat::Constant(s, s, 1)); d.path_covar(Vec::Constant(s, 5)); d.path_sigma(Vec::Constant(s, 6)); }; auto fresh = [&](unsigned s, const char* what) { CHECK(d.size() == s && d.mean() == Vec(Vec::Zero(s)) && d.covar() == Mat(Mat::Identity(s, s)) && d.coord_sys() == Mat(Mat::Identity(s, s)) && d.scaling() == Vec(Vec::Constant(s, 1)) && d.sigma() == 1 && d.path_covar() == Vec(Vec::Zero(s)) && d.path_sigma() == Vec(Vec::Zero(s)), what << ": distribution not reset to dimension " << s); }; fresh(n, "edoNormalAdaptive"); eoPop<R> p; dirty(); d.reset(); fresh(n, "reset"); dirty(); edoDistribReset<Ada> r1(d); r1(p); fresh(n, "edoDistribReset"); dirty(); edoDistribReset<Ada> r2(d, n2); r2(p); fresh(n2, "edoDistribReset"); dirty(); edoEstimatorAdaptiveReset<Ada> e1(d), e2(d, n); Ada c = e1(p); fresh(n2, "edoEstimatorAdaptiveReset"); dirty(); c = e2(p); fresh(n, "edoEstimatorAdaptiveReset"); CHECK(c.size() == n && &e1.distribution() == &d, "edoEstimatorAdaptiveReset: result"); R to; for (unsigned i = 0; i < n; ++i) to.push_back(g.grid(5, 1)); edoEstimatorAdaptiveEdit<Ada> ed(d, [&]() { return to; }, [&](R x) { d.mean(x); }); Ada f = ed(p); for (unsigned i = 0; i < n; ++i) CHECK(f.mean()[i] == to[i] && d.mean()[i] == to[i], "edoEstimatorAdaptiveEdit"); Ada full(n, d.mean(), d.covar(), d.coord_sys(), d.scaling(), 0.5, d.path_covar(), d.path_sigma()); CHECK(full.size() == n && full.sigma() == 0.5 && full.mean() == d.mean(), "edoNormalAdaptive from its parameters");
    // stopping on parameters
    edoContAdaptiveFinite<Ada> fin; CHECK(fin(d), "edoContAdaptiveFinite stops on finite parameters"); double bad = g.oneof({std::numeric_limits<double>::infinity(), std::nan(""), -std::numeric_limits<double>::infinity()}); unsigned at = g.draw(n - 1), at2 = g.draw(n - 1); int what = g.draw(5); { Ada x(d); Vec v = Vec::Constant(n, 1); v[at] = bad; Mat m = Mat::Identity(n, n); m(at, at2) = bad; if (what == 0) x.sigma(bad); else if (what == 1) x.path_sigma(v); else if (what == 2) x.scaling(v); else if (what == 3) x.coord_sys(m); else if (what == 4) x.path_covar(v); else x.covar(m); CHECK(!fin(x), "edoContAdaptiveFinite goes on with parameter " << what << " at " << bad); } double thr = g.oneof({10.0, 1e6}), cond = g.oneof({1.0, 5.0, 20.0, 1e5, 1e7}); if (n > 1) { Vec e = Vec::Constant(n, 1.0); e[0] = cond; Mat Q = Mat::Identity(n, n); double a = g.real(0, 3); Q(0, 0) = Q(1, 1) = std::cos(a); Q(0, 1) = -std::sin(a); Q(1, 0) = std::sin(a); Ada x(d); x.covar(Q * e.asDiagonal() * Q.transpose()); edoContAdaptiveIllCovar<Ada> ill(thr); CHECK(ill(x) == (cond < thr), "edoContAdaptiveIllCovar says " << ill(x) << " for condition number " << cond << " and threshold " << thr); e[1] = g.oneof({0.0, -1e-18}); x.covar(Mat(e.asDiagonal())); CHECK(!ill(x), "edoContAdaptiveIllCovar goes on with eigenvalue " << e[1]); } g.nontrivial(k > 1); g.note(k).note(" continuators, dimension ").note(n);
}
// ---- covariance matrix adaptation of EDO against the published update
struct Ref { Vec mean, ps, pc; Mat C, B; Vec D; double sigma; unsigned calls, eigen; };
void published(Ref& r, const std::vector<std::vector<double>>& x) {
    unsigned N = r.mean.size(), mu = x.size(); ++r.calls; Vec w(mu); for (unsigned i = 0; i < mu; ++i) w[i] = std::log(mu + 0.5) - std::log(i + 1.0); w /= w.sum(); double mueff = 1 / w.squaredNorm(), n = N, cc = (4 + mueff / n) / (n + 4 + 2 * mueff / n), cs = (mueff + 2) / (n + mueff + 5), c1 = 2 / ((n + 1.3) * (n + 1.3) + mueff), cmu = std::min(1 - c1, 2 * (mueff - 2 + 1 / mueff) / ((n + 2) * (n + 2) + mueff)), damps = 1 + 2 * std::max(0.0, std::sqrt((mueff - 1) / (n + 1)) - 1) + cs, chiN = std::sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n)); Vec old = r.mean; r.mean = Vec::Zero(N); for (unsigned k = 0; k < mu; ++k) for (unsigned i = 0; i < N; ++i) r.mean[i] += w[k] * x[k][i]; Vec step = (r.mean - old) / r.sigma; Mat inv = r.B * r.D.cwiseInverse().asDiagonal() * r.B.transpose(); r.ps = (1 - cs) * r.ps + std::sqrt(cs * (2 - cs) * mueff) * inv * step; double hsig = r.ps.norm() / std::sqrt(1 - std::pow(1 - cs, 2.0 * r.calls)) / chiN < 1.4 + 2 / (n + 1); r.pc = (1 - cc) * r.pc + hsig * std::sqrt(cc * (2 - cc) * mueff) * step; Mat C = (1 - c1 - cmu) * r.C + c1 * (r.pc * r.pc.transpose() + (1 - hsig) * cc * (2 - cc) * r.C); for (unsigned k = 0; k < mu; ++k) { Vec y(N); for (unsigned i = 0; i < N; ++i) y[i] = (x[k][i] - old[i]) / r.sigma; C += cmu * w[k] * y * y.transpose(); } r.C = C; r.sigma *= std::exp(cs / damps * (r.ps.norm() / chiN - 1)); unsigned evals = r.calls * mu; if (evals - r.eigen > mu / (c1 + cmu) / N / 10) { r.eigen = evals; Eigen::SelfAdjointEigenSolver<Mat> s(r.C); r.D = s.eigenvalues().cwiseSqrt(); r.B = s.eigenvectors(); }
}
double diff(const Mat& a, const Mat& b) { return a.rows() == b.rows() && a.cols() == b.cols() ? (a - b).cwiseAbs().maxCoeff() : 1e300; }
void adaptive(pbt::Gen& g) {
    unsigned N = g.range(1, 5), mu = g.chance(1, 5) ? g.range(30, 90) : g.range(1, 12), steps = g.range(1, 8); Ada d(N); edoEstimatorNormalAdaptive<R> est(d); edoBounderNo<R> no; edoSamplerNormalAdaptive<R> sam(no); Ref r; Vec m0(N); for (unsigned i = 0; i < N; ++i) m0[i] = g.grid(4, 1); d.mean(m0); double s0 = g.oneof({1.0, 0.3, 2.0}); d.sigma(s0); r.mean = m0; r.sigma = s0; r.ps = r.pc = Vec::Zero(N); r.C = r.B = Mat::Identity(N, N); r.D = Vec::Constant(N, 1); r.calls = r.eigen = 0; unsigned lambda = mu + g.draw(mu); bool ok = true; for (unsigned t = 0; t < steps && ok; ++t) { if (t && g.chance(1, 10)) { est.resetCalls(); r.calls = 0; } eoPop<R> p; Value ev; for (unsigned i = 0; i < lambda; ++i) { p.push_back(sam(d)); ev(p.back()); } p.sort(); p.resize(mu); std::vector<std::vector<double>> xs; for (auto& x : p) xs.push_back(x); Ada back = est(p); published(r, xs); auto tol = [&](const Mat& m) { return 1e-6 * (1 + m.cwiseAbs().maxCoeff()); }; CHECK(diff(d.mean(), r.mean) <= tol(r.mean), "iteration " << t << ": mean"); CHECK(std::isfinite(d.sigma()) && d.sigma() > 0 && std::fabs(d.sigma() - r.sigma) <= 1e-6 * r.sigma, "iteration " << t << ": step size " << d.sigma() << " instead of " << r.sigma); CHECK(diff(d.path_sigma(), r.ps) <= tol(r.ps), "iteration " << t << ": step path"); CHECK(diff(d.path_covar(), r.pc) <= tol(r.pc), "iteration " << t << ": covariance path"); Mat C = d.covar(); CHECK(diff(C, r.C) <= tol(r.C), "iteration " << t << ": covariance"); CHECK(diff(C, C.transpose()) <= 1e-9 * (1 + C.cwiseAbs().maxCoeff()), "iteration " << t << ": covariance not symmetric"); Eigen::SelfAdjointEigenSolver<Mat> es(C); double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff(); CHECK(lo >= -1e-9 * hi, "iteration " << t << ": eigenvalue " << lo << " of the covariance"); Mat Bm = d.coord_sys(); Vec Dm = d.scaling(); CHECK(diff(Bm * Bm.transpose(), Mat::Identity(N, N)) <= 1e-8, "iteration " << t << ": axes not orthonormal"); Mat V = Bm * Dm.cwiseProduct(Dm).asDiagonal() * Bm.transpose(), W = r.B * r.D.cwiseProduct(r.D).asDiagonal() * r.B.transpose(); CHECK(diff(V, W) <= tol(W), "iteration " << t << ": axes and scales do not match the covariance"); CHECK(diff(back.covar(), d.covar()) == 0 && back.sigma() == d.sigma() && diff(back.mean(), d.mean()) == 0, "iteration " << t << ": returned distribution"); ok = lo > 1e-7 * hi && hi < 1e9 && d.sigma() > 1e-9 && d.sigma() < 1e9; }
    g.nontrivial(steps > 1); g.label("parents", mu > 12 ? "many" : "few"); g.note(N).note(" variables, ").note(mu).note(" parents, ").note(steps).note(" updates");
}
void adaptiveSamples(pbt::Gen& g) { unsigned N = g.range(1, 3); const unsigned M = 3000; Ada d(N); Vec m(N), D(N); for (unsigned i = 0; i < N; ++i) { m[i] = g.grid(4, 1); D[i] = g.oneof({0.5, 1.0, 3.0}); } double s = g.oneof({0.5, 2.0}), a = g.real(0, 3); Mat B = Mat::Identity(N, N); if (N > 1) { B(0, 0) = B(1, 1) = std::cos(a); B(0, 1) = -std::sin(a); B(1, 0) = std::sin(a); } d.mean(m); d.scaling(D); d.coord_sys(B); d.sigma(s); edoBounderNo<R> no; edoSamplerNormalAdaptive<R> sam(no); Mat cov = s * s * B * D.cwiseProduct(D).asDiagonal() * B.transpose(); std::vector<R> xs; for (unsigned k = 0; k < M; ++k) { xs.push_back(sam(d)); CHECK(xs.back().size() == N && xs.back().invalid(), "sample"); } for (unsigned i = 0; i < N; ++i) { double sum = 0; for (auto& x : xs) sum += x[i]; CHECK(std::fabs(sum / M - m[i]) <= 7 * std::sqrt(cov(i, i) / M), "mean of the samples"); for (unsigned j = 0; j <= i; ++j) { double c = 0; for (auto& x : xs) c += (x[i] - m[i]) * (x[j] - m[j]) / M; CHECK(std::fabs(c - cov(i, j)) <= 7 * std::sqrt((cov(i, i) * cov(j, j) + cov(i, j) * cov(i, j)) / M), "covariance " << c << " of the samples instead of " << cov(i, j)); } } g.nontrivial(N > 1); g.note(N); }
// a whole CMA-ES run of EDO keeps its contract
void adaptiveRun(pbt::Gen& g) { unsigned N = g.range(1, 3), n = g.range(3, 12), gens = g.range(1, 6); Ada d(N); edoEstimatorNormalAdaptive<R> est(d); edoBounderNo<R> no; edoSamplerNormalAdaptive<R> sam(no); Value ev; eoPopLoopEval<R> pe(ev); eoRankMuSelect<R> sel(std::max(1u, n / 2)); eoCommaReplacement<R> rep; eoGenContinue<R> gen(gens); eoPop<R> p; for (unsigned i = 0; i < n; ++i) { R x; for (unsigned j = 0; j < N; ++j) x.push_back(g.real(-3, 3)); ev(x); p.push_back(x); } edoContAdaptiveFinite<Ada> fin; edoAlgoAdaptive<Ada> algo(d, pe, sel, est, sam, rep, gen, fin); algo(p); CHECK(p.size() == n, "population of " << p.size() << " instead of " << n); for (auto& x : p) CHECK(!x.invalid() && std::fabs(double(x.fitness()) - value(x)) <= 1e-9 * (1 + std::fabs(value(x))), "individual whose fitness is not its value"); CHECK(ev.calls == n * (gens + 1), "evaluated " << ev.calls << " individuals instead of " << n * (gens + 1)); g.nontrivial(gens > 1); g.note(n).note(" x ").note(gens); }
// ---- CMA of EO: the sampling map is read off by sampling a standard state with the same seed
struct Seen { Vec mean; Mat A; };
Seen map(const eo::CMAState& s, const eo::CMAState& standard, unsigned n, unsigned seed) { unsigned m = 4 * n + 6; Mat Z(m, n + 1), V(m, n); eo::rng.reseed(seed); eo::rng.clearCache(); for (unsigned k = 0; k < m; ++k) { std::vector<double> z; standard.sample(z); CHECK(z.size() == n, "CMAState: sample of " << z.size() << " variables"); Z(k, n) = 1; for (unsigned i = 0; i < n; ++i) Z(k, i) = z[i]; } eo::rng.reseed(seed); eo::rng.clearCache(); for (unsigned k = 0; k < m; ++k) { std::vector<double> v; s.sample(v); CHECK(v.size() == n, "CMAState: sample of " << v.size() << " variables"); for (unsigned i = 0; i < n; ++i) V(k, i) = v[i]; } Mat X = Z.colPivHouseholderQr().solve(V); CHECK(diff(Z * X, V) <= 1e-7 * (1 + V.cwiseAbs().maxCoeff()), "CMAState: samples are not mean + A.z"); Seen r; r.A = X.topRows(n).transpose(); r.mean = X.row(n).transpose(); return r; }
eo::CMAParams params(pbt::Gen& g, unsigned n, unsigned maxgen) { int how = g.draw(3); eo::CMAParams p; if (how == 0) { p.defaults(n, maxgen); return p; } std::vector<std::string> a = {"cma", "--max-gen=" + std::to_string(maxgen)}; unsigned lambda = 4 + (unsigned)(3 * std::log((double)n)), mu = lambda / 2; int scheme = 0; if (how > 1) { lambda = g.range(2, 14); mu = g.range<unsigned>(1, lambda - 1); scheme = g.draw(2); a.push_back("--lambda=" + std::to_string(lambda)); a.push_back("--mu=" + std::to_string(mu)); a.push_back("--weighting=" + std::to_string(scheme)); } unsigned asked = mu; if (how == 3 && g.chance(1, 3)) { asked = lambda + g.draw(3); a[3] = "--mu=" + std::to_string(asked); mu = lambda / 2; } std::vector<double> least(1, 0.0), first(1, 0.3); if (how > 1) { least.clear(); first.clear(); for (int i = 0, k = g.range(1, 5); i < k; ++i) least.push_back(g.oneof({0.0, 1e-9, 5e-9})); for (int i = 0, k = g.range(1, 5); i < k; ++i) first.push_back(g.oneof({0.1, 0.3, 1.0})); auto list = [](const std::vector<double>& v) { std::ostringstream o; o << v.size(); for (double x : v) o << "," << x; return o.str(); }; a.push_back("--min-stdev=" + list(least)); a.push_back("--init-stdev=" + list(first)); } std::vector<char*> argv; for (auto& s : a) argv.push_back(&s[0]); eoParser parser(argv.size(), argv.data()); p = eo::CMAParams(parser, n); CHECK(p.lambda == lambda && p.mu == mu, "CMAParams: lambda " << p.lambda << " and mu " << p.mu << " instead of " << lambda << " and " << mu); for (unsigned i = 0; i < n; ++i) CHECK(p.minStdevs[i] == least[std::min<size_t>(i, least.size() - 1)] && p.initialStdevs[i] == first[std::min<size_t>(i, first.size() - 1)], "CMAParams: standard deviations " << p.minStdevs[i] << " and " << p.initialStdevs[i] << " of variable " << i << " from " << pbt::strv(least) << " and " << pbt::strv(first)); double sum = 0; for (unsigned i = 0; i < mu; ++i) sum += scheme == 1 ? 1 : scheme == 2 ? mu - i : std::log(mu + 1.) - std::log(i + 1.); CHECK(p.weights.size() == mu, "CMAParams: " << p.weights.size() << " weights for " << mu << " parents"); for (unsigned i = 0; i < mu; ++i) { double w = (scheme == 1 ? 1 : scheme == 2 ? mu - i : std::log(mu + 1.) - std::log(i + 1.)) / sum; CHECK(std::fabs(p.weights[i] - w) <= 1e-9, "CMAParams: weight " << i << " is " << p.weights[i] << " instead of " << w << " with scheme " << scheme); } return p; }
void classic(pbt::Gen& g) {
    unsigned n = g.range(1, 4), maxgen = g.oneof({100u, 1000u, 2u, 4u}), steps = g.range(1, 7), seed = g.range(1, 100000); eo::CMAParams p = params(g, n, maxgen); CHECK(p.n == n && p.maxgen == maxgen && p.weights.size() == p.mu && p.mu >= 1 && p.mu < p.lambda && p.minStdevs.size() == n && p.initialStdevs.size() == n, "CMAParams: sizes"); double N = n, sw = 0, sw2 = 0; for (unsigned i = 0; i < p.mu; ++i) { sw += p.weights[i]; sw2 += p.weights[i] * p.weights[i]; CHECK(p.weights[i] > 0 && (!i || p.weights[i] <= p.weights[i - 1]), "CMAParams: weights not positive and decreasing"); } CHECK(std::fabs(sw - 1) <= 1e-9, "CMAParams: weights sum to " << sw); double mueff = 1 / sw2, cs = (mueff + 2) / (N + mueff + 3), cc = 4 / (N + 4), t1 = 2 / ((N + 1.4142) * (N + 1.4142)), t2 = std::min(1.0, (2 * mueff - 1) / ((N + 2) * (N + 2) + mueff)), ccov = t1 / mueff + (1 - 1 / mueff) * t2, damp = 1 + std::max(0.3, 1 - N / maxgen) * (1 + 2 * std::max(0.0, std::sqrt((mueff - 1) / (N + 1)) - 1)) / cs; auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }; CHECK(same(p.mueff, mueff) && same(p.mucov, mueff) && same(p.ccumsig, cs) && same(p.ccumcov, cc) && same(p.ccov, ccov) && same(p.damp, damp), "CMAParams: constants " << p.mueff << " " << p.ccumsig << " " << p.ccumcov << " " << p.ccov << " " << p.damp << " instead of " << mueff << " " << cs << " " << cc << " " << ccov << " " << damp);
    if (g.boolean()) for (unsigned i = 0; i < n; ++i) p.initialStdevs[i] = g.oneof({0.1, 0.3, 1.0}); eo::CMAParams q = p; q.initialStdevs = 1.0; eo::CMAState standard(q, std::vector<double>(n, 0.0), 1.0); std::vector<double> m0; for (unsigned i = 0; i < n; ++i) m0.push_back(g.grid(4, 1)); double sigma = g.oneof({0.5, 1.0, 2.0}); eo::CMAState state(p, m0, sigma); double trace = 0; for (double x : p.initialStdevs) trace += x * x; Vec mean(n), ps = Vec::Zero(n), pc = Vec::Zero(n); Mat C = Mat::Zero(n, n); for (unsigned i = 0; i < n; ++i) { mean[i] = m0[i]; C(i, i) = p.initialStdevs[i] * p.initialStdevs[i] * n / trace; } std::vector<double> hist(3, 0.0); auto compare = [&](const eo::CMAState& s, const char* when) { Seen a = map(s, standard, n, ++seed); Mat V = a.A * a.A.transpose(), W = sigma * sigma * C; CHECK(diff(a.mean, mean) <= 1e-6 * (1 + mean.cwiseAbs().maxCoeff() + a.A.norm()), when << ": mean " << a.mean.transpose() << " instead of " << mean.transpose()); CHECK(diff(V, W) <= 1e-5 * W.cwiseAbs().maxCoeff(), when << ": covariance of the samples\n" << V << "\ninstead of\n" << W); }; compare(state, "at the start"); eoCMABreed<eoMinimizingFitness> breed(state, p.lambda); bool flat = g.chance(1, 8), viaBreed = g.boolean(); double push = !viaBreed && g.boolean() ? g.oneof({2.0, 4.0, -4.0}) : 0; int way = g.boolean() ? 1 : -1; typedef eoVector<eoMinimizingFitness, double> V; double chiN = std::sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N * N)); bool ok = true; for (unsigned t = 0; t < steps && ok; ++t) { eo::rng.reseed(++seed); eo::rng.clearCache(); eoPop<V> pop; for (unsigned i = 0; i < p.lambda; ++i) { V v; eoCMAInit<eoMinimizingFitness> init(state); v.fitness(eoMinimizingFitness(1)); init(v); CHECK(v.invalid() && v.size() == n, "eoCMAInit: not a new individual"); v.fitness(eoMinimizingFitness(flat ? 1 : value(v))); pop.push_back(v); } std::stable_sort(pop.begin(), pop.end(), [](const V& a, const V& b) { return b < a; }); pop.resize(p.mu); double best = pop[0].fitness(), worst = pop.back().fitness(); std::vector<std::vector<double>> xs; for (auto& v : pop) xs.push_back(v); if (push) { for (auto& x : xs) x[n - 1] += push * sigma; best = g.range(-3, 3); worst = best + way * g.draw(2); } eo::CMAState copy(state); std::vector<const std::vector<double>*> ptr; for (auto& x : xs) ptr.push_back(&x); if (viaBreed) { eoPop<V> shuffled(pop), off; if (g.boolean()) off = pop; if (!flat) std::reverse(shuffled.begin(), shuffled.end()); breed(shuffled, off); CHECK(off.size() == p.lambda, "eoCMABreed: " << off.size() << " offspring"); for (auto& v : off) CHECK(v.invalid() && v.size() == n, "eoCMABreed: offspring with a fitness"); } else { state.reestimate(ptr, best, worst); CHECK(state.updateEigenSystem(10), "no eigensystem"); }
        std::unique_ptr<eo::CMAState> kept; if (g.boolean()) { eo::CMAState other(q, m0, 3.0); if (g.boolean()) { compare(copy, "copy taken before the update"); } other = state; state = other; kept.reset(new eo::CMAState(q, m0, 3.0)); *kept = state; } Vec old = mean; mean = Vec::Zero(n); for (unsigned k = 0; k < p.mu; ++k) for (unsigned i = 0; i < n; ++i) mean[i] += p.weights[k] * xs[k][i]; Vec bdz = std::sqrt(mueff) * (mean - old) / sigma; Eigen::SelfAdjointEigenSolver<Mat> es(C); Mat inv = es.operatorInverseSqrt(); ps = (1 - cs) * ps + std::sqrt(cs * (2 - cs)) * (inv * bdz); double psxps = ps.squaredNorm(); hist[t % 3] = best; double hsig = t > 0 && std::sqrt(psxps) / std::sqrt(1 - std::pow(1 - cs, 2.0 * t)) / chiN < 1.5 + 1 / (N - 0.5); pc = (1 - cc) * pc + hsig * std::sqrt(cc * (2 - cc)) * bdz; if (t >= 3) { double dir = best < worst ? -1 : 1; bool worse = best == worst || (dir * hist[t % 3] < dir * hist[(t - 1) % 3] && dir * hist[t % 3] < dir * hist[(t - 2) % 3]); if (psxps / n > 1.5 + 10 * std::sqrt(2.0 / n) && worse) { double f = std::sqrt((1 + std::max(0.0, std::log(psxps / n))) * n / psxps); ps *= f; psxps *= f * f; g.label("momentum", "removed"); } } Mat D = (1 - ccov) * C + ccov / mueff * (pc * pc.transpose() + (1 - hsig) * cc * (2 - cc) * C); for (unsigned k = 0; k < p.mu; ++k) { Vec y(n); for (unsigned i = 0; i < n; ++i) y[i] = (xs[k][i] - old[i]) / sigma; D += ccov * (1 - 1 / mueff) * p.weights[k] * y * y.transpose(); } C = D; sigma *= std::exp((std::sqrt(psxps) / chiN - 1) / damp); if (best == worst) sigma *= std::exp(0.2 + 1 / damp); compare(state, "after an update"); if (kept) compare(*kept, "assigned after an update"); Eigen::SelfAdjointEigenSolver<Mat> now(C); double lo = now.eigenvalues().minCoeff(), hi = now.eigenvalues().maxCoeff(); ok = lo > 1e-6 * hi && sigma > 1e-6 && sigma < 1e6; }
    g.nontrivial(steps > 1); g.label("update", viaBreed ? "eoCMABreed" : "direct"); g.label("flat", flat); g.note(n).note(" variables, ").note(p.mu).note("/").note(p.lambda).note(", ").note(steps).note(" updates");
}
void limits(pbt::Gen& g) { unsigned n = g.range(1, 3); eo::CMAParams p; p.defaults(n, 100); double least = g.oneof({0.0, 0.5, 3.0}); p.minStdevs = least; std::vector<double> m0(n, 0.0); eo::CMAState s(p, m0, 0.01); eo::CMAParams q = p; q.initialStdevs = 1.0; eo::CMAState standard(q, m0, 1.0); auto spread = [&](const eo::CMAState& st) { return map(st, standard, n, 7).A.norm(); }; double before = spread(s); std::vector<std::vector<double>> xs(p.mu, m0); std::vector<const std::vector<double>*> ptr; for (auto& x : xs) ptr.push_back(&x); eo::CMAState a(s), b(s); a.reestimate(ptr, 0, 1); a.updateEigenSystem(10); b.reestimate(ptr, 1, 1); b.updateEigenSystem(10); double sa = spread(a), sb = spread(b); CHECK(sb > sa * 1.1, "equal fitness values do not widen the search"); if (least > 0) { eo::CMAParams z = p; z.minStdevs = 0.0; eo::CMAState c(z, m0, 0.01); c.reestimate(ptr, 0, 1); c.updateEigenSystem(10); CHECK(sa > spread(c) * 1.02, "standard deviations below their minimum do not widen the search"); } CHECK(before > 0 && (least > 0 || sa < before), "parents at the mean do not narrow the search"); g.nontrivial(true); g.note(n); }
// the eigensolver
void eigen(pbt::Gen& g) { unsigned n = g.range(1, 7); Mat G = Mat::Zero(n, n); int style = g.draw(3); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) G(i, j) = style == 0 ? (i == j ? g.grid(4, 1) : 0) : style == 1 ? g.grid(2, 1) : style == 2 ? g.real(-1, 1) : (j < 1 ? g.grid(3, 1) : 0); Mat S = G * G.transpose(); lower_triangular_matrix C(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) C[i][j] = S(i, j); std::valarray<double> d(n); square_matrix Q(n); int it = eo::eig(n, C, d, Q, 30 * n); CHECK(it <= (int)(30 * n), "eig needs " << it << " iterations"); Mat B(n, n); Vec D(n); for (unsigned i = 0; i < n; ++i) { D[i] = d[i]; for (unsigned j = 0; j < n; ++j) B(i, j) = Q[i][j]; } double s = 1 + S.cwiseAbs().maxCoeff(); CHECK(diff(B * B.transpose(), Mat::Identity(n, n)) <= 1e-8, "eig: vectors not orthonormal"); CHECK(diff(B * D.asDiagonal() * B.transpose(), S) <= 1e-8 * s, "eig: not a decomposition of the matrix"); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j <= i; ++j) CHECK(C[i][j] == S(i, j), "eig changes its matrix"); g.nontrivial(n > 1); g.note(n); }
}
PBT(eda_loop, 5000, 50000) { loop(g); }
PBT(distribution_control, 4000, 40000) { small(g); }
PBT(adaptive_update, 2500, 25000) { adaptive(g); }
PBT(adaptive_samples, 40, 400) { adaptiveSamples(g); }
PBT(adaptive_run, 600, 6000) { adaptiveRun(g); }
PBT(cma_update, 2500, 25000) { classic(g); }
PBT(cma_limits, 300, 3000) { limits(g); }
PBT(eigensystem, 4000, 40000) { eigen(g); }
