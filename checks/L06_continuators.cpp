// L06: continuators, checkpoints and statistics of local searches.
#include "mo_support.hpp"
#include <continuator/moQuartilesNeighborStat.h>
#include <continuator/moValueStat.h>
#include <continuator/moValueParamContinuator.h>
#include <filesystem>
using namespace sup;
using namespace ls;
namespace {
struct Scratch { std::filesystem::path p; Scratch() { char t[] = "/tmp/verif-L06-XXXXXX"; p = mkdtemp(t); } ~Scratch() { std::error_code e; std::filesystem::remove_all(p, e); } std::string file(const char* n) { return (p / n).string(); } };
std::string slurp(const std::string& f) { std::ifstream is(f.c_str()); std::ostringstream o; o << is.rdbuf(); return o.str(); }
template <class D> typename D::Sol genSol(pbt::Gen& g, const Land& land, unsigned n) { typename D::Sol s = D::make(g, n); s.fitness(typename D::Fit(land(s))); return s; }
// a random history of runs, steps and evaluations; every continuator against a model
template <class D> void criteria(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = g.range(1, 4); Land land = genLand(g); Full<D> f0(land); Incr<D> i0(land); eoEvalFuncCounter<S> full(f0); moEvalCounter<N> nev(i0); unsigned max = g.draw(6); bool restart = g.boolean(); int kind = g.draw(8); double level = g.grid(12, 0.5); eoValueParam<int> par(g.range(0, 3), "p"); S best = genSol<D>(g, land, n); moSolComparator<S> comp; struct Flip : public moSolComparator<S> { bool operator()(const S& a, const S& b) { return a.fitness() > b.fitness(); } } flip;
    moOrderNeighborhood<N> nh(n); moIterContinuator<N> iter(max, g.boolean()); moFitContinuator<N> fit((F(level))); bool byDefault = restart && g.boolean(); moFullEvalContinuator<N> fe1(full, max, restart), fe0(full, max), &fe = byDefault ? fe0 : fe1; moNeighborEvalContinuator<N> ne1(nev, max, restart), ne0(nev, max), &ne = byDefault ? ne0 : ne1; moEvalsContinuator<N> ev1(full, nev, max, restart), ev0(full, nev, max), &ev = byDefault ? ev0 : ev1; moBestNoImproveContinuator<N> bn(best, max, g.boolean()), bf(best, max, flip); moValueParamContinuator<N, int> vp(par, max, restart); moTrueContinuator<N> tr; moContinuator<N>* all[] = {&iter, &fit, &fe, &ne, &ev, &bn, &vp, &tr, &bf}; const char* names[] = {"moIterContinuator", "moFitContinuator", "moFullEvalContinuator", "moNeighborEvalContinuator", "moEvalsContinuator", "moBestNoImproveContinuator", "moValueParamContinuator", "moTrueContinuator", "moBestNoImproveContinuator with comparator"}; moContinuator<N>& c = *all[kind];
    unsigned cpt = 0, nf = 0, nn = 0, sf = 0, sn = 0, stops = 0, asked = 0; int sv = restart ? par.value() : 0; S any = genSol<D>(g, land, n); c.init(any); unsigned len = g.range(1, 25); std::ostringstream hist;
    for (unsigned i = 0; i < len; ++i) { int op = g.draw(6); if (op == 0 && g.boolean()) { S s = genSol<D>(g, land, n); c.init(s); cpt = 0; sf = restart ? nf : 0; sn = restart ? nn : 0; sv = restart ? par.value() : 0; hist << "init "; } else if (op == 1) { S s = D::make(g, n); bool known = g.boolean(); if (known) s.fitness(F(land(s))); full(s); if (!known) ++nf; hist << "full "; } else if (op == 2) { S s = genSol<D>(g, land, n); N x; nh.init(s, x); nev(s, x); ++nn; hist << "nb "; } else if (op == 3) { par.value() += g.draw(2); if (g.boolean()) best = genSol<D>(g, land, n); } else { S s = genSol<D>(g, land, n), t(s); bool r = c(s), want; long v = -1; double a = score<F>(s.fitness()), b = score<F>(best.fitness()); switch (kind) { case 0: want = ++cpt < max; v = cpt; break; case 1: want = a < score<F>(F(level)); break; case 2: want = nf - sf < max; v = nf - sf; break; case 3: want = nn - sn < max; v = nn - sn; break; case 4: want = nf - sf + nn - sn < max; v = nf - sf + nn - sn; break; case 5: case 8: cpt = (kind == 8 ? a >= b : a <= b) ? cpt + 1 : 0; want = cpt < max; v = cpt; break; case 6: want = par.value() - sv < (int)max; v = par.value() - sv; break; default: want = true; } hist << "step(" << s.fitness() << ") "; CHECK(r == want, names[kind] << " with limit " << (kind == 1 ? level : max) << " says " << (r ? "continue" : "stop") << " after " << hist.str()); long is = kind == 0 ? (long)iter.value() : kind == 2 ? (long)fe.value() : kind == 3 ? (long)ne.value() : kind == 4 ? (long)ev.value() : kind == 5 ? (long)bn.value() : kind == 8 ? (long)bf.value() : kind == 6 ? (long)vp.value() : -1L; CHECK(is == v, names[kind] << ": value " << is << " instead of " << v << " after " << hist.str()); CHECK(same(s, t), names[kind] << " changed the solution"); ++asked; stops += !r; } }
    g.nontrivial(asked > 1); g.label("criterion", names[kind]); g.label("stopped", stops > 0); g.note(names[kind]).note(": ").note(hist.str());
}
template <class N> struct Voter : public moContinuator<N> { typedef typename N::EOT S; std::string* log; int id; std::vector<bool> says; unsigned k = 0; void init(S&) { k = 0; *log += "i" + std::to_string(id) + " "; } bool operator()(S&) { *log += "c" + std::to_string(id) + " "; return says[k++ % says.size()]; } };
template <class S> struct LogStat : public moStatBase<S> { std::string* log; int id; void init(S& s) { *log += "S" + std::to_string(id) + " "; } void operator()(S&) { *log += "s" + std::to_string(id) + " "; } void lastCall(S&) { *log += "ls" + std::to_string(id) + " "; } };
struct LogUp : public eoUpdater { std::string* log; int id; void operator()() { *log += "u" + std::to_string(id) + " "; } void lastCall() { *log += "lu" + std::to_string(id) + " "; } };
struct LogMoUp : public moUpdater { std::string* log; int id; void init() { *log += "V" + std::to_string(id) + " "; } void operator()() { *log += "v" + std::to_string(id) + " "; } void lastCall() { *log += "lv" + std::to_string(id) + " "; } };
struct LogMon : public eoMonitor { std::string* log; int id; eoMonitor& operator()() { *log += "m" + std::to_string(id) + " "; return *this; } void lastCall() { *log += "lm" + std::to_string(id) + " "; } };
void checkpoint(pbt::Gen& g) {
    Silence quiet; typedef Bits<double> D; typedef D::Sol S; typedef D::Nb N; std::string log; unsigned nc = g.range(1, 3), ns = g.draw(3), nm = g.draw(2), nu = g.draw(2), nv = g.draw(2), interval = g.range(1, 4); std::vector<Voter<N>> cs(nc); std::vector<LogStat<S>> ss(ns); std::vector<LogMon> ms(nm); std::vector<LogUp> us(nu); std::vector<LogMoUp> vs(nv); for (unsigned i = 0; i < nc; ++i) { cs[i].log = &log; cs[i].id = i; unsigned l = g.range(1, 5); for (unsigned k = 0; k < l; ++k) cs[i].says.push_back(!g.chance(1, 4)); }
    auto name = [&](auto& v) { for (unsigned i = 0; i < v.size(); ++i) { v[i].log = &log; v[i].id = i; } }; name(ss); name(ms); name(us); name(vs); bool combined = g.chance(1, 4); bool defInterval = interval == 1 && g.boolean(); std::unique_ptr<moCheckpoint<N>> cp(defInterval ? new moCheckpoint<N>(cs[0]) : new moCheckpoint<N>(cs[0], interval)); moCombinedContinuator<N> cc(cs[0]); for (unsigned i = 1; i < nc; ++i) { cp->add(cs[i]); cc.add(cs[i]); } for (auto& x : ss) cp->add(x); for (auto& x : ms) cp->add(x); for (auto& x : us) cp->add(x); for (auto& x : vs) cp->add(x); moContinuator<N>& c = combined ? (moContinuator<N>&)cc : *cp; if (combined) ns = nm = nu = nv = 0;
    auto lot = [](const char* p, unsigned n) { std::string s; for (unsigned i = 0; i < n; ++i) s += p + std::to_string(i) + " "; return s; }; S s = D::make(g, 2); s.fitness(0); unsigned runs = g.range(1, 3), most = 0; for (unsigned r = 0; r < runs; ++r) { log.clear(); c.init(s); std::string want = lot("S", ns) + lot("V", nv) + lot("m", nm) + lot("i", nc); CHECK(log == want, "init called " << log << "instead of " << want); unsigned steps = g.draw(9); most = std::max(most, steps); for (unsigned k = 1; k <= steps; ++k) { log.clear(); bool all = true; for (auto& x : cs) all = all && x.says[(k - 1) % x.says.size()]; bool b = c(s); want = (k % interval == 0 ? lot("s", ns) : "") + lot("u", nu) + lot("v", nv) + lot("m", nm) + lot("c", nc); CHECK(log == want, "step " << k << " with interval " << interval << " called " << log << "instead of " << want); CHECK(b == all, "step " << k << ": " << (b ? "continued though a member says stop" : "stopped though all members say continue")); } if (g.boolean()) { log.clear(); c.lastCall(s); want = lot("ls", ns) + lot("lu", nu) + lot("lv", nv) + lot("lm", nm); CHECK(log == want, "lastCall called " << log << "instead of " << want); } }
    g.nontrivial(most > 1); g.label("kind", combined ? "combined" : "checkpoint"); g.note(nc).note(" continuators, ").note(ns).note(" statistics, interval ").note(interval);
}
// statistics along a random trajectory
template <class D> void statistics(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 5), size = g.chance(1, 8) ? 0 : D::perm ? D::neighbours(n) : g.range(1, (int)n); Land land = genLand(g); Incr<D> incr(land); moOrderNeighborhood<N> order(size); moRndWithoutReplNeighborhood<N> rnd(size); bool r = g.boolean(); moNeighborhood<N>& nh = r ? (moNeighborhood<N>&)rnd : order; moNeighborComparator<N> cn; moSolNeighborComparator<N> csn; moNeighborhoodStat<N> a(nh, incr), b(nh, incr, cn, csn); moNeighborhoodStat<N>& st = g.boolean() ? a : b; unsigned k = g.chance(1, 3) ? g.range(1, 4) : 0;
    bool re = g.boolean(); moFitnessStat<S> fit; bool byDefault = re && g.boolean(); moBestFitnessStat<S> bestF1(re), bestF0, &bestF = byDefault ? bestF0 : bestF1; moBestSoFarStat<S> bestS1(re), bestS0, &bestS = byDefault ? bestS0 : bestS1; moSolutionStat<S> sol; moCounterStat<S> cnt; moMinusOneCounterStat<S> cnt1; S ref = D::make(g, n); eoHammingDistance<S> ham; moDistanceStat<S> dist(ham, ref); S refWas(ref); unsigned uv = 0; bool bv = false; moUnsignedStat<S> us(&uv); moBooleanStat<S> bs(&bv); eoValueParam<int> par(g.range(0, 5), "p"); bool rv = g.boolean(); moValueStat<S, int> vs(par, rv); moStatFromStat<S, unsigned> from(cnt);
    moAverageFitnessNeighborStat<N> sMean(st); moStdFitnessNeighborStat<N> sSd(st); moMaxNeighborStat<N> sMax(st); moMinNeighborStat<N> sMin(st); moMedianNeighborStat<N> sMed(st); moQ1NeighborStat<N> sQ1(st); moQ3NeighborStat<N> sQ3(st); moQuartilesNeighborStat<N> sQ(st); moSecondMomentNeighborStat<N> s2(st); moSizeNeighborStat<N> sSize(st); moNbInfNeighborStat<N> sInf(st); moNbSupNeighborStat<N> sSup(st); moNeutralDegreeNeighborStat<N> sEq(st); moNeighborBestStat<N> nb1(nh, incr, k), nb2(nh, incr, cn, csn, k); moNeighborBestStat<N>& nbest = g.boolean() ? nb1 : nb2; moNeighborFitnessStat<N> nfit(nh, incr); std::vector<moStatBase<S>*> all = {&st, &fit, &bestF, &bestS, &sol, &cnt, &cnt1, &dist, &us, &bs, &vs, &from, &sMean, &sSd, &sMax, &sMin, &sMed, &sQ1, &sQ3, &sQ, &s2, &sSize, &sInf, &sSup, &sEq, &nbest, &nfit};
    unsigned runs = g.range(1, 3), total = 0; bool any = false; S top; int base = 0; for (unsigned q = 0; q < runs; ++q) { unsigned steps = g.draw(6); for (unsigned i = 0; i <= steps; ++i) { S s = genSol<D>(g, land, n), t(s); uv = g.draw(9); bv = g.boolean(); par.value() += g.draw(2); for (auto* x : all) if (i == 0) x->init(s); else (*x)(s); ++total; std::ostringstream at; at << " at " << s << (i ? " (step)" : " (init)"); std::string w = at.str(); CHECK(same(s, t) && s.fitness() == t.fitness(), "a statistic changed the solution" << w);
            if (i == 0) { if (re || !any) top = s; base = rv ? par.value() : 0; } if (!any || better<D>(s, top)) top = s; any = true; CHECK(fit.value() == s.fitness() && same(sol.value(), s) && sol.value().fitness() == s.fitness(), "fitness or solution statistic" << w); CHECK(bestF.value() == top.fitness(), "moBestFitnessStat: " << bestF.value() << " instead of " << top.fitness() << w); CHECK(same(bestS.value(), top) && bestS.value().fitness() == top.fitness(), "moBestSoFarStat: " << bestS.value() << " instead of " << top << w); CHECK(cnt.value() == i && from.value() == i && cnt1.value() == (i ? i - 1 : 0), "counters: " << cnt.value() << " " << cnt1.value() << " " << from.value() << " instead of " << i << w); double d = 0; for (unsigned j = 0; j < n; ++j) d += s[j] != refWas[j]; CHECK_NEAR(dist.value(), d, "moDistanceStat" << w); CHECK(us.value() == uv && bs.value() == bv && vs.value() == par.value() - base, "moUnsignedStat, moBooleanStat or moValueStat" << w);
            CHECK(st.value() == (size > 0), "moNeighborhoodStat: value" << w); if (!size) { CHECK(nbest.value() == F() && nfit.value() == F(), "neighbour of a solution without neighbours" << w); continue; } auto v = around<D>(land, s, size); std::vector<double> f; for (auto& x : v) f.push_back(land(x)); unsigned up = 0, eq = 0, down = 0; double mean = 0, lo = 0, hi = 0; for (unsigned j = 0; j < f.size(); ++j) { double x = score<F>(F(f[j])), y = score<F>(s.fitness()); up += x > y; eq += x == y; down += x < y; mean += f[j] / f.size(); if (!j || x > score<F>(F(hi))) hi = f[j]; if (!j || x < score<F>(F(lo))) lo = f[j]; } double sd = 0; for (double x : f) sd += (x - mean) * (x - mean); sd = f.size() > 1 ? std::sqrt(sd / (f.size() - 1)) : 0; std::vector<double> o(f); std::sort(o.begin(), o.end()); unsigned m = o.size(); double q1 = o[m / 4], q2 = o[m / 2], q3 = o[3 * m / 4];
            CHECK(st.getSize() == m && sSize.value() == m, "size of the neighbourhood: " << st.getSize() << " instead of " << m << w); CHECK(st.getNbSup() == up && st.getNbEqual() == eq && st.getNbInf() == down, "better, equal, worse neighbours: " << st.getNbSup() << " " << st.getNbEqual() << " " << st.getNbInf() << " instead of " << up << " " << eq << " " << down << w); CHECK(sSup.value() == up && sEq.value() == eq && sInf.value() == down, "counts of neighbours" << w); CHECK_NEAR((double)st.getMax(), hi, "best neighbour" << w); CHECK_NEAR((double)st.getMin(), lo, "worst neighbour" << w); CHECK_NEAR((double)sMax.value(), hi, "moMaxNeighborStat" << w); CHECK_NEAR((double)sMin.value(), lo, "moMinNeighborStat" << w); CHECK_NEAR(st.getMean(), mean, "mean of the neighbours" << w); CHECK_NEAR(sMean.value(), mean, "moAverageFitnessNeighborStat" << w); CHECK(std::fabs(st.getSD() - sd) <= 1e-6 * (1 + std::fabs(sd) + std::fabs(mean)), "deviation " << st.getSD() << " instead of " << sd << w); CHECK(sSd.value() == st.getSD(), "moStdFitnessNeighborStat" << w); CHECK(s2.value().first == st.getMean() && s2.value().second == st.getSD(), "moSecondMomentNeighborStat" << w); CHECK_NEAR((double)st.getQ1(), q1, "first quartile" << w); CHECK_NEAR((double)st.getMedian(), q2, "median" << w); CHECK_NEAR((double)st.getQ3(), q3, "third quartile" << w); CHECK_NEAR((double)sQ1.value(), q1, "moQ1NeighborStat" << w); CHECK_NEAR((double)sMed.value(), q2, "moMedianNeighborStat" << w); CHECK_NEAR((double)sQ3.value(), q3, "moQ3NeighborStat" << w); CHECK(sQ.value().first == (double)st.getQ1() && sQ.value().second == (double)st.getQ3(), "moQuartilesNeighborStat" << w);
            bool in = false; for (double x : f) in = in || pbt::near(x, (double)nfit.value()); CHECK(in && (r || pbt::near((double)nfit.value(), f[0])), "moNeighborFitnessStat: " << nfit.value() << " is the fitness of no such neighbour" << w); unsigned seen = k ? std::min(k, m) : m; if (!r || seen == m) { double h = f[0]; for (unsigned j = 1; j < seen; ++j) if (score<F>(F(f[j])) > score<F>(F(h))) h = f[j]; CHECK_NEAR((double)nbest.value(), h, "moNeighborBestStat over " << seen << w); } else { unsigned atLeast = 0; in = false; for (double x : f) { in = in || pbt::near(x, (double)nbest.value()); atLeast += score<F>(F(x)) <= score<F>(nbest.value()); } CHECK(in && atLeast >= seen, "moNeighborBestStat over " << seen << w); } } ref = D::make(g, n); }
    g.nontrivial(total > 2 && size > 1); g.label("neighbours", size); g.note(size).note(" neighbours, ").note(total).note(" steps");
}
template <class D> void monitors(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = g.range(1, 4); Land land = genLand(g); moFitnessStat<S> fit; moSolutionStat<S> sol; moCounterStat<S> cnt; eoValueParam<double> real(0, "real"); eoValueParam<unsigned long> big(0, "big"); eoValueParam<long long> ll(0, "ll"); moVectorMonitor<S> mf(fit), ms(sol), mc(cnt), mr(real), mb(big), ml(ll); moVectorMonitor<S>* all[] = {&mf, &ms, &mc, &mr, &mb, &ml}; std::vector<std::vector<double>> want(6); std::vector<S> sols; Scratch dir; unsigned len = g.range(1, 14), prec = g.boolean() ? g.range(2, 12) : 6; if (prec != 6) for (auto* m : all) m->precision(prec); std::string file = dir.file("out"), text; unsigned exports = 0; CHECK(ms.solutionType() && !mf.solutionType() && !mc.solutionType(), "solutionType"); CHECK(mr.longName() == "real" && mb.longName() == "big" && ml.longName() == "ll" && mf.longName() == fit.longName() && ms.longName() == sol.longName() && mc.longName() == cnt.longName(), "moVectorMonitor: longName");
    for (unsigned i = 0; i < len; ++i) { S s = genSol<D>(g, land, n); if (i == 0) { fit.init(s); sol.init(s); cnt.init(s); } else { fit(s); sol(s); cnt(s); } real.value() = g.real(-5, 5); big.value() = g.draw(1000) * 1000003ul; ll.value() = (long long)g.range(-5, 5) * 10000000ll; for (int k = 0; k < 6; ++k) if (g.chance(3, 4)) { (*all[k])(); if (k == 1) sols.push_back(s); else want[k].push_back(k == 0 ? (double)s.fitness() : k == 2 ? i : k == 3 ? real.value() : k == 4 ? (double)big.value() : (double)ll.value()); }
        int k = g.draw(5); auto line = [&](unsigned j) { std::ostringstream o; o.precision(prec); if (k == 1) o << sols[j]; else o << want[k][j]; return o.str(); }; unsigned m = k == 1 ? sols.size() : want[k].size(); CHECK(all[k]->size() == m, "moVectorMonitor keeps " << all[k]->size() << " values instead of " << m); if (k == 1) { CHECK(ms.getSolutions().size() == m, "solutions"); for (unsigned j = 0; j < m; ++j) CHECK(same(ms.getSolutions()[j], sols[j]) && ms.getSolutions()[j].fitness() == sols[j].fitness(), "moVectorMonitor: solution " << j); } else CHECK(all[k]->getValues() == want[k], "moVectorMonitor: values " << pbt::strv(all[k]->getValues()) << " instead of " << pbt::strv(want[k])); for (unsigned j = 0; j < m; ++j) CHECK(all[k]->getValue(j) == line(j), "moVectorMonitor: value " << all[k]->getValue(j) << " instead of " << line(j)); if (g.chance(1, 5)) { all[k]->clear(); if (k == 1) sols.clear(); else want[k].clear(); CHECK(all[k]->size() == 0, "clear"); } else if (g.chance(1, 4)) { bool app = g.boolean(); all[k]->fileExport(file, app); if (!app) text.clear(); for (unsigned j = 0; j < m; ++j) text += line(j) + "\n"; ++exports; CHECK(slurp(file) == text, "file " << slurp(file) << " instead of " << text); } }
    bool threw = false; try { mf.fileExport(dir.file("no/such/dir")); } catch (std::exception&) { threw = true; } CHECK(threw, "moVectorMonitor: exported to a file that cannot be opened"); g.nontrivial(len > 2); g.label("exports", exports > 0); g.note(len).note(" values");
}
// the checkpoint inside a real search
template <class D> void inRuns(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = g.range(1, 5); Land land = genLand(g); Full<D> f0(land); Incr<D> i0(land); eoEvalFuncCounter<S> full(f0); moEvalCounter<N> nev(i0); moRndWithReplNeighborhood<N> nh(n); unsigned max = g.range(1, 9), interval = g.range(1, 3); Recorder<N> rec; moFitnessStat<S> fit; moBestSoFarStat<S> best; moCounterStat<S> cnt; moVectorMonitor<S> mf(fit), mc(cnt), mb(best); int kind = g.draw(3); moIterContinuator<N> iter(max, false); moNeighborEvalContinuator<N> ne(nev, max); moBestNoImproveContinuator<N> bn(best.value(), max, false); double level = g.grid(8, 0.5); moFitContinuator<N> fc((F(level))); rec.most = 60; moContinuator<N>* cs[] = {&iter, &ne, &bn, &fc}; moCheckpoint<N> cp(*cs[kind], interval); cp.add(rec); cp.add(fit); cp.add(best); cp.add(cnt); cp.add(mf); cp.add(mc); cp.add(mb); moRandomWalk<N> walk(nh, full, nev, cp); unsigned runs = g.range(1, 3), longest = 0;
    for (unsigned r = 0; r < runs; ++r) { mf.clear(); mc.clear(); mb.clear(); S s = genSol<D>(g, land, n), top(s); double shown = (double)s.fitness(); unsigned counted = 0, idle = 0; walk(s); unsigned steps = rec.path.size(); longest = std::max(longest, steps); CHECK(mf.size() == steps + 1 && mc.size() == steps + 1, "monitors called " << mf.size() << " times in " << steps << " steps"); for (unsigned i = 0; i <= steps; ++i) { if (i) { S& t = rec.path[i - 1]; if (i % interval == 0) { shown = (double)t.fitness(); ++counted; if (better<D>(t, top)) top = t; } bool stop = kind == 0 || kind == 1 ? i >= max : kind == 2 ? (idle = better<D>(t, top) ? 0 : idle + 1) >= max : score<F>(t.fitness()) >= score<F>(F(level)); if (i < steps) CHECK(!stop, "went on at step " << i); else CHECK(stop || rec.hit, "stopped at step " << i); } CHECK(mf.getValues()[i] == shown && mc.getValues()[i] == counted && same(mb.getSolutions()[i], top), "step " << i << " of a run with interval " << interval << ": fitness " << mf.getValues()[i] << " instead of " << shown << ", count " << mc.getValues()[i] << " instead of " << counted); } }
    g.nontrivial(longest > 1); g.label("criterion", kind); g.note("criterion ").note(kind).note(" interval ").note(interval).note(" steps ").note(longest);
}
}
PBT(criteria_max, 6000, 60000) { criteria<Bits<double>>(g); }
PBT(criteria_min, 6000, 60000) { criteria<Bits<eoMinimizingFitness>>(g); }
PBT(checkpoints, 5000, 50000) { checkpoint(g); }
PBT(statistics_bits, 4000, 40000) { if (g.boolean()) statistics<Bits<double>>(g); else statistics<Bits<eoMinimizingFitness>>(g); }
PBT(statistics_perms, 1500, 15000) { statistics<Perm<eoMinimizingFitness>>(g); }
PBT(vector_monitors, 800, 8000) { if (g.boolean()) monitors<Bits<double>>(g); else monitors<Bits<eoMinimizingFitness>>(g); }
PBT(in_a_search, 3000, 30000) { if (g.boolean()) inRuns<Bits<double>>(g); else inRuns<Bits<eoMinimizingFitness>>(g); }
PBT(saver, 500, 5000) { std::string log; unsigned m = g.range(1, 3), interval = g.range(1, 4), steps = g.draw(9); std::vector<LogMon> ms(m); for (unsigned i = 0; i < m; ++i) { ms[i].log = &log; ms[i].id = i; } moCounterMonitorSaver s(interval, ms[0]); for (unsigned i = 1; i < m; ++i) s.add(ms[i]); for (unsigned k = 0; k < steps; ++k) { log.clear(); s(); std::string want; if (k % interval == 0) for (unsigned i = 0; i < m; ++i) want += "m" + std::to_string(i) + " "; CHECK(log == want, "call " << k << " with interval " << interval << " called " << log << "instead of " << want); } log.clear(); s.lastCall(); std::string want; for (unsigned i = 0; i < m; ++i) want += "lm" + std::to_string(i) + " "; CHECK(log == want, "lastCall called " << log); g.nontrivial(steps > 1); g.note(m).note(" monitors, interval ").note(interval); }
PBT(time_limit, 300, 3000) { Silence quiet; typedef Bits<double> D; typedef D::Nb N; D::Sol s = D::make(g, 2); s.fitness(0); long max = g.oneof({0L, 100L, 1000L, 100000L}), age = g.oneof({50L, 500L, 50000L, 500000L}); moTimeContinuator<N> c(g.boolean() ? max : 7, g.boolean()); c.maxTime(max); CHECK(c(s) == (max > 0), "moTimeContinuator of " << max << " seconds says " << c(s) << " at its start"); bool ext = g.boolean(); time_t now = time(0); if (ext) c.setStartingTime(now - age); bool r = c(s); CHECK(r == (ext ? age < max : max > 0), "moTimeContinuator of " << max << " seconds after " << age); c.init(s); if (ext) CHECK(c.getStartingTime() == now - age, "external start lost"); else CHECK(c.getStartingTime() >= now, "start not taken"); CHECK(c(s) == (ext ? age < max : max > 0), "moTimeContinuator of " << max << " seconds, second run"); g.nontrivial(ext); g.note(max).note(" seconds, age ").note(age); }
