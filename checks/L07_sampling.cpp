// L07: landscape sampling and statistics of samples.
#include "mo_support.hpp"
#include <sampling/moSampling.h>
#include <sampling/moStatistics.h>
#include <sampling/moDensityOfStatesSampling.h>
#include <sampling/moAutocorrelationSampling.h>
#include <sampling/moFDCsampling.h>
#include <sampling/moAdaptiveWalkSampling.h>
#include <sampling/moHillClimberSampling.h>
#include <sampling/moRndBestFitnessCloudSampling.h>
#include <sampling/moRndRndFitnessCloudSampling.h>
#include <sampling/moMHBestFitnessCloudSampling.h>
#include <sampling/moMHRndFitnessCloudSampling.h>
#include <sampling/moNeutralDegreeSampling.h>
#include <sampling/moNeutralWalkSampling.h>
#include <filesystem>
using namespace sup;
using namespace ls;
namespace {
struct Scratch { std::filesystem::path p; Scratch() { char t[] = "/tmp/verif-L07-XXXXXX"; p = mkdtemp(t); } ~Scratch() { std::error_code e; std::filesystem::remove_all(p, e); } std::string file(const char* n) { return (p / n).string(); } };
std::string slurp(const std::string& f) { std::ifstream is(f.c_str()); std::ostringstream o; o << is.rdbuf(); return o.str(); }
template <class D> struct LogInit : public eoInit<typename D::Sol> { typename D::Sol base; std::vector<typename D::Sol> made; void operator()(typename D::Sol& s) { s = base; if (D::perm) for (unsigned i = s.size(); i > 1; --i) { unsigned j = eo::rng.random(i); auto x = s[i - 1]; s[i - 1] = (typename D::Sol::AtomType)s[j]; s[j] = x; } else for (unsigned i = 0; i < s.size(); ++i) s[i] = eo::rng.flip(); s.invalidate(); made.push_back(s); } };
// reference climbs on an ordered neighbourhood: end, moves, neighbours evaluated
template <class D> struct Climb { typename D::Sol end; unsigned moves = 0, evals = 0; };
template <class D> Climb<D> climb(const Land& land, typename D::Sol s, unsigned size, bool first) { Climb<D> c; s.fitness(typename D::Fit(land(s))); for (;;) { auto v = around<D>(land, s, size); int b = -1; for (unsigned k = 0; k < size; ++k) { ++c.evals; if (better<D>(v[k], b < 0 ? s : v[b])) { b = k; if (first) break; } } if (b < 0) { c.end = s; return c; } s = v[b]; ++c.moves; } }
enum { DOS, FDC, AUTO, RBEST, RRND, MBEST, MRND, DEGREE, ADAPT, HILL, NEUTRAL, NEUTRAL0, OWN };
const char* NAME[] = {"moDensityOfStatesSampling", "moFDCsampling", "moAutocorrelationSampling", "moRndBestFitnessCloudSampling", "moRndRndFitnessCloudSampling", "moMHBestFitnessCloudSampling", "moMHRndFitnessCloudSampling", "moNeutralDegreeSampling", "moAdaptiveWalkSampling", "moHillClimberSampling", "moNeutralWalkSampling", "moNeutralWalkSampling from a given solution", "moSampling"};
template <class D> void sampling(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; int kind = g.draw(12); std::string w = NAME[kind]; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 5), size = D::neighbours(n), nb = g.range(2, 9); Land land = genLand(g, true); Full<D> full(land); Incr<D> incr(land); LogInit<D> init; init.base = D::make(g, n); bool ordered = kind == ADAPT || kind == HILL; moOrderNeighborhood<N> ord(size); moRndWithoutReplNeighborhood<N> rnd(size); moNeighborhood<N>& nh = ordered ? (moNeighborhood<N>&)ord : rnd; S ref = D::make(g, n), given = D::make(g, n); if (g.boolean()) given.fitness(F(land(given))); eoHammingDistance<S> ham; moNeighborComparator<N> cn; moSolNeighborComparator<N> csn; moRandomWalk<N> ownWalk(rnd, full, incr, nb); moFitnessStat<S> ownStat; std::shared_ptr<moSampling<N>> sp; bool b = g.boolean();
    switch (kind) { case DOS: sp = std::make_shared<moDensityOfStatesSampling<N>>(init, full, nb); break; case FDC: sp = std::make_shared<moFDCsampling<N>>(init, full, ham, ref, nb); break; case AUTO: sp = std::make_shared<moAutocorrelationSampling<N>>(init, nh, full, incr, nb); break; case RBEST: sp = std::make_shared<moRndBestFitnessCloudSampling<N>>(init, nh, full, incr, nb); break; case RRND: sp = std::make_shared<moRndRndFitnessCloudSampling<N>>(init, nh, full, incr, nb); break; case MBEST: sp = std::make_shared<moMHBestFitnessCloudSampling<N>>(init, nh, full, incr, nb); break; case MRND: sp = std::make_shared<moMHRndFitnessCloudSampling<N>>(init, nh, full, incr, nb); break; case DEGREE: if (b) sp = std::make_shared<moNeutralDegreeSampling<N>>(init, nh, full, incr, nb); else sp = std::make_shared<moNeutralDegreeSampling<N>>(init, nh, full, incr, cn, csn, nb); break; case ADAPT: sp = std::make_shared<moAdaptiveWalkSampling<N>>(init, nh, full, incr, nb); break; case HILL: sp = std::make_shared<moHillClimberSampling<N>>(init, nh, full, incr, nb); break; case NEUTRAL: sp = std::make_shared<moNeutralWalkSampling<N>>(init, nh, full, incr, nb); break; case NEUTRAL0: sp = std::make_shared<moNeutralWalkSampling<N>>(given, nh, full, incr, ham, nb); break; default: sp = std::make_shared<moSampling<N>>(init, ownWalk, ownStat); }
    static const unsigned COLS[] = {1, 2, 1, 2, 2, 2, 2, 2, 3, 2, 12, 13, 1}; unsigned cols = COLS[kind]; bool solFirst = kind == NEUTRAL || kind == NEUTRAL0; moSampling<N>& sam = *sp; moSolutionStat<S> solStat; moCounterStat<S> hidden; moContinuator<N>* before = ownWalk.getContinuator(); if (g.boolean()) sam.add(hidden, false); sam.add(solStat); Scratch dir; unsigned runs = g.range(1, 3), rows = 0;
    for (unsigned r = 0; r < runs; ++r) {
        init.made.clear(); sam(); const std::vector<S>& sols = sam.getSolutions(cols); rows = sols.size(); auto val = [&](unsigned c, unsigned i) { return sam.getValues(c)[i]; }; for (unsigned c = 0; c < cols; ++c) { unsigned have = (solFirst && c == 0) || (kind == ADAPT && c == 2) || (kind == HILL && c == 1) ? sam.getSolutions(c).size() : sam.getValues(c).size(); CHECK(have == rows, w << ": column " << c << " has " << have << " values for " << rows << " solutions"); }
        bool random = kind == DOS || kind == FDC || kind == RBEST || kind == RRND || kind == DEGREE || ordered, neutral = kind == NEUTRAL || kind == NEUTRAL0; if (random) CHECK(rows == nb && init.made.size() == nb, w << ": " << rows << " values, " << init.made.size() << " solutions instead of " << nb); else if (!neutral) CHECK(rows == nb + 1, w << ": " << rows << " values instead of " << nb + 1); CHECK(rows > 0, w << ": nothing recorded"); if (!neutral || kind == NEUTRAL) CHECK(random || init.made.size() == 1, w << ": " << init.made.size() << " initial solutions");
        for (unsigned i = 0; i < rows; ++i) { const S& s = sols[i]; std::ostringstream o; o << w << ", value " << i << " of " << rows << " at " << ls::text(s) << ": "; std::string at = o.str(); CHECK(evaluated<D>(land, s), at << "wrong fitness"); S first = kind == NEUTRAL0 ? given : init.made[random ? i : 0]; Climb<D> c; if (ordered) { c = climb<D>(land, first, size, kind == ADAPT); CHECK(same(s, c.end), at << "climb from " << ls::text(first) << " ends at " << ls::text(c.end)); } else if (random || i == 0) CHECK(same(s, first), at << "not the solution generated"); auto v = around<D>(land, s, size); double f = land(s), best = land(v[0]), worst = best, mean = 0; unsigned eq = 0, up = 0, down = 0; std::vector<double> q; for (auto& x : v) { double y = land(x); q.push_back(y); mean += y / v.size(); if (score<F>(y) > score<F>(best)) best = y; if (score<F>(y) < score<F>(worst)) worst = y; eq += y == f; up += score<F>(y) > score<F>(f); down += score<F>(y) < score<F>(f); } if (!random && i) { const S& p = sols[i - 1]; bool nbr = neighbourOf<D>(land, p, s, size); if (kind == AUTO || kind == OWN) CHECK(nbr, at << "not a neighbour of " << ls::text(p)); else if (neutral) { unsigned flat = 0; for (auto& x : around<D>(land, p, size)) flat += land(x) == land(p); CHECK(flat ? nbr && land(p) == f : same(p, s) && i + 1 == rows, at << "neutral walk from " << ls::text(p)); } else CHECK(nbr || same(p, s), at << "neither stayed nor moved to a neighbour of " << ls::text(p)); }
            std::sort(q.begin(), q.end()); unsigned m = q.size(); double sd = 0; for (double x : q) sd += (x - mean) * (x - mean); sd = m > 1 ? std::sqrt(sd / (m - 1)) : 0; if (!ordered && !neutral) CHECK_NEAR(val(0, i), f, at << "fitness"); switch (kind) { case FDC: { double d = 0; for (unsigned j = 0; j < n; ++j) d += s[j] != ref[j]; CHECK_NEAR(val(1, i), d, at << "distance"); break; } case RBEST: case MBEST: CHECK_NEAR(val(1, i), best, at << "best neighbour"); break; case RRND: case MRND: CHECK(std::count(q.begin(), q.end(), val(1, i)), at << val(1, i) << " is the fitness of no neighbour"); break; case DEGREE: CHECK(val(1, i) == eq, at << "neutral degree " << val(1, i) << " instead of " << eq); break; case ADAPT: CHECK(val(0, i) == c.moves && val(1, i) == c.evals && same(sam.getSolutions(2)[i], s), at << "length " << val(0, i) << " instead of " << c.moves << ", evaluations " << val(1, i) << " instead of " << c.evals); break; case HILL: CHECK(val(0, i) == c.moves && same(sam.getSolutions(1)[i], s), at << "length " << val(0, i) << " instead of " << c.moves); break; case NEUTRAL: case NEUTRAL0: { unsigned k = kind == NEUTRAL0; CHECK(same(sam.getSolutions(0)[i], s), at << "solution"); if (k) { double d = 0; for (unsigned j = 0; j < n; ++j) d += s[j] != given[j]; CHECK_NEAR(val(1, i), d, at << "distance"); } double want[] = {mean, sd, worst, q[m / 4], q[m / 2], q[3 * m / 4], best, (double)m, (double)down, (double)eq, (double)up}; for (unsigned j = 0; j < 11; ++j) CHECK(std::fabs(val(1 + k + j, i) - want[j]) <= 1e-6 * (1 + std::fabs(want[j])), at << "neighbourhood figure " << j << " is " << val(1 + k + j, i) << " instead of " << want[j]); } } }
        if (neutral) { unsigned flat = 0; for (auto& x : around<D>(land, sols.back(), size)) flat += land(x) == land(sols.back()); CHECK(rows == nb + 1 || (!flat && rows < nb + 1), w << ": stopped after " << rows << " solutions"); } CHECK(ownWalk.getContinuator() == before, w << ": the continuator of the search was not given back");
        if (g.chance(1, 3)) { unsigned p = g.boolean() ? g.range(2, 12) : 0, c = g.draw(cols); if (p) sam.precision(p); bool app = g.boolean(), header = g.boolean(); std::string d = g.oneof({std::string(" "), std::string(";"), std::string(", ")}), f1 = dir.file("all"), f2 = dir.file("col"), old1 = app ? slurp(f1) : "", old2 = app ? slurp(f2) : ""; sam.fileExport(f1, d, app, header); sam.fileExport(c, f2, app); std::vector<std::string> lines; { std::istringstream is(slurp(f1).substr(old1.size())); std::string l; while (std::getline(is, l)) lines.push_back(l); } CHECK(slurp(f1).compare(0, old1.size(), old1) == 0 && slurp(f2).compare(0, old2.size(), old2) == 0, w << ": export did not append"); unsigned h = header && !app; CHECK(lines.size() == rows + h, w << ": " << lines.size() << " lines for " << rows << " values"); static unsigned prec; if (p) prec = p; else prec = 6; bool isSol = c == cols || (solFirst && c == 0) || (kind == ADAPT && c == 2) || (kind == HILL && c == 1); std::string want; for (unsigned i = 0; i < rows; ++i) { std::string line; for (unsigned k = 0; k <= cols; ++k) { std::ostringstream o; o.precision(p ? p : (unsigned)std::clog.precision()); bool sk = k == cols || (solFirst && k == 0) || (kind == ADAPT && k == 2) || (kind == HILL && k == 1); if (sk) o << sam.getSolutions(k)[i]; else o << sam.getValues(k)[i]; line += (k ? d : "") + o.str(); if (k == c) want += o.str() + "\n"; } if (p || r == 0) CHECK(lines[i + h] == line, w << ": exported line " << lines[i + h] << " instead of " << line); } (void)isSol; if (p || r == 0) CHECK(slurp(f2) == old2 + want, w << ": exported column " << slurp(f2) << " instead of " << old2 + want); if (h) { unsigned seps = 0; for (std::size_t q = lines[0].find(d); q != std::string::npos; q = lines[0].find(d, q + d.size())) ++seps; CHECK(seps >= cols, w << ": header " << lines[0]); } bool threw = false; try { sam.fileExport(cols + 1, f2); } catch (std::exception&) { threw = true; } CHECK(threw, w << ": exported a column that does not exist"); g.label("exported"); }
    }
    g.nontrivial(rows > 2); g.label("sampling", w); g.note(w).note(": ").note(rows).note(" values, ").note(runs).note(" runs");
}
}
PBT(samples_bits_max, 4000, 40000) { sampling<Bits<double>>(g); }
PBT(samples_bits_min, 4000, 40000) { sampling<Bits<eoMinimizingFitness>>(g); }
PBT(samples_perms, 2500, 25000) { sampling<Perm<eoMinimizingFitness>>(g); }
PBT(basic, 3000, 30000) { moStatistics st; unsigned n = g.draw(8); bool same = g.boolean(); std::vector<double> d; double c = g.oneof({0.1, 1.0, -2.7, 0.0}); for (unsigned i = 0; i < n; ++i) d.push_back(same ? c : g.grid(40, 0.25)); double mn = -1, mx = -1, av = -1, sd = -1; st.basic(d, mn, mx, av, sd); double lo = 0, hi = 0, m = 0, v = 0; for (unsigned i = 0; i < n; ++i) { if (!i || d[i] < lo) lo = d[i]; if (!i || d[i] > hi) hi = d[i]; m += d[i] / n; } for (double x : d) v += (x - m) * (x - m) / n; CHECK(mn == lo && mx == hi, "minimum and maximum " << mn << " " << mx << " of " << pbt::strv(d)); CHECK_NEAR(av, m, "average of " << pbt::strv(d)); CHECK(sd >= 0 && std::fabs(sd - std::sqrt(v)) <= 1e-6, "deviation " << sd << " instead of " << std::sqrt(v) << " of " << pbt::strv(d)); g.nontrivial(n > 1); g.note(pbt::strv(d)); }
PBT(distances, 1500, 15000) { typedef Bits<double> D; moStatistics st; unsigned n = g.draw(6), len = g.range(1, 5); std::vector<D::Sol> v; for (unsigned i = 0; i < n; ++i) v.push_back(D::make(g, len)); eoHammingDistance<D::Sol> ham; std::vector<std::vector<double>> m(g.draw(7), std::vector<double>(g.draw(7), -1.0)); st.distances(v, ham, m); CHECK(m.size() == n, "distance matrix of " << m.size() << " rows instead of " << n); for (unsigned i = 0; i < n; ++i) { CHECK(m[i].size() == n, "row of the distance matrix"); for (unsigned j = 0; j < n; ++j) { double d = 0; for (unsigned k = 0; k < len; ++k) d += v[i][k] != v[j][k]; CHECK(m[i][j] == d, "distance " << m[i][j] << " between " << i << " and " << j << " instead of " << d); } } g.nontrivial(n > 1); g.note(n).note(" solutions"); }
PBT(autocorrelations, 3000, 30000) {
    moStatistics st; unsigned n = g.chance(1, 10) ? 0 : g.range(4, 14), lags = n ? g.draw(std::min(n - 3, 5u)) : g.draw(3); std::vector<double> d; for (unsigned i = 0; i < n; ++i) d.push_back(g.grid(10, 0.5)); std::vector<double> rho(g.draw(3), 7.0), phi(g.draw(3), 7.0), r(lags + 1, 1.0); bool ok = true; for (unsigned s = 1; n && s <= lags; ++s) { double a = 0, b = 0, va = 0, vb = 0, c = 0; unsigned m = n - s; for (unsigned k = 0; k < m; ++k) { a += d[k] / m; b += d[k + s] / m; } for (unsigned k = 0; k < m; ++k) { va += (d[k] - a) * (d[k] - a) / m; vb += (d[k + s] - b) * (d[k + s] - b) / m; c += (d[k] - a) * (d[k + s] - b) / m; } if (va < 1e-3 || vb < 1e-3) { ok = false; break; } r[s] = c / std::sqrt(va * vb); } if (!ok) g.discard();
    st.autocorrelation(d, lags, rho, phi); if (!n) { CHECK(rho.empty() && phi.empty(), "autocorrelation of nothing"); g.note("empty"); return; } CHECK(rho.size() == lags + 1 && phi.size() == lags + 1, "autocorrelation: " << rho.size() << " lags instead of " << lags + 1); for (unsigned s = 0; s <= lags; ++s) CHECK(std::fabs(rho[s] - r[s]) <= 1e-6, "autocorrelation at lag " << s << " is " << rho[s] << " instead of " << r[s] << " for " << pbt::strv(d));
    // partial autocorrelation: last coefficient of the Yule-Walker system of each order
    CHECK(phi[0] == 1, "partial autocorrelation at lag 0"); for (unsigned k = 1; k <= lags; ++k) { std::vector<std::vector<double>> A(k, std::vector<double>(k + 1)); for (unsigned i = 0; i < k; ++i) { for (unsigned j = 0; j < k; ++j) A[i][j] = r[i > j ? i - j : j - i]; A[i][k] = r[i + 1]; } bool singular = false; for (unsigned c = 0; c < k && !singular; ++c) { unsigned p = c; for (unsigned i = c; i < k; ++i) if (std::fabs(A[i][c]) > std::fabs(A[p][c])) p = i; if (std::fabs(A[p][c]) < 0.02) { singular = true; break; } std::swap(A[p], A[c]); for (unsigned i = 0; i < k; ++i) if (i != c) { double f = A[i][c] / A[c][c]; for (unsigned j = c; j <= k; ++j) A[i][j] -= f * A[c][j]; } } if (singular) break; bool stable = true; for (unsigned j = 1; j < k; ++j) if (!(std::fabs(phi[j]) < 0.99)) stable = false; if (!stable) break; double want = A[k - 1][k] / A[k - 1][k - 1]; CHECK(std::fabs(phi[k] - want) <= 1e-5 * (1 + std::fabs(want)), "partial autocorrelation at lag " << k << " is " << phi[k] << " instead of " << want << " for " << pbt::strv(d)); if (k > 1) g.label("partial"); } g.nontrivial(lags > 0); g.note(pbt::strv(d)).note(" lags ").note(lags);
}
