// L05: simulated annealing, Metropolis-Hastings, iterated local search, variable neighbourhood search.
#include "mo_support.hpp"
using namespace sup;
using namespace ls;
namespace {
template <class S> struct Fixed : public moCoolingSchedule<S> { double t; unsigned inits = 0, left, n = 0; std::vector<bool> told; Fixed(double _t, unsigned steps) : t(_t), left(steps) {} double init(S&) { ++inits; n = 0; told.clear(); return t; } void update(double& x, bool moved) { ++n; told.push_back(moved); x = t; } bool operator()(double) { return n < left; } };
// the chance to be at each neighbour, or to stay, after one step
template <class D> void oneStep(pbt::Gen& g, bool metropolis) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = D::perm ? g.range(2, 3) : g.range(1, 4), size = D::neighbours(n); Land land = genLand(g, metropolis); Full<D> full(land); Incr<D> incr(land); bool with = g.boolean(); moRndWithReplNeighborhood<N> wi(size); moRndWithoutReplNeighborhood<N> wo(size); moNeighborhood<N>& nh = with ? (moNeighborhood<N>&)wi : (moNeighborhood<N>&)wo; double T = g.oneof({0.25, 1.0, 2.0, 10.0}); Fixed<S> cool(T, 1); Recorder<N> rec; rec.most = 1; moSolNeighborComparator<N> comp; std::unique_ptr<moLocalSearch<N>> ls; int form = g.draw(2); std::string w = metropolis ? "moMetropolisHasting" : "moSA";
    moNeighborComparator<N> cn;
    if (metropolis) ls.reset(form == 0 ? new moMetropolisHasting<N>(nh, full, incr, 1) : form == 1 ? new moMetropolisHasting<N>(nh, full, incr, 5, rec) : new moMetropolisHasting<N>(nh, full, incr, 5, rec, cn, comp)); else ls.reset(form == 0 ? new moSA<N>(nh, full, incr, T, 0.0, 0, 0.0) : form == 1 ? new moSA<N>(nh, full, incr, cool) : new moSA<N>(nh, full, incr, cool, comp, rec));
    S s = D::make(g, n); s.fitness(F(land(s))); auto v = around<D>(land, s, size); std::vector<double> p(size + 1, 0); for (unsigned k = 0; k < size; ++k) { double a = land(s), b = land(v[k]), acc = better<D>(v[k], s) ? 1 : metropolis ? (a == 0 ? 0 : std::min(a, b) / std::max(a, b)) : std::exp(-std::fabs(a - b) / T); p[k] += acc / size; p[size] += (1 - acc) / size; } if (std::fabs(p[size]) < 1e-12) p[size] = 0; const unsigned M = 3000; std::vector<unsigned> c(size + 1, 0); for (unsigned i = 0; i < M; ++i) { S t(s); (*ls)(t); CHECK(evaluated<D>(land, t), w << ": wrong fitness"); unsigned at = size; for (unsigned k = 0; k < size; ++k) if (same(t, v[k])) at = k; CHECK(at < size || same(t, s), w << ": went to a solution that is no neighbour"); c[at]++; }
    std::ostringstream o; o << w << " at " << s << " (T=" << T << "), neighbours"; for (auto& x : v) o << " " << x.fitness(); checkFreq(p, c, o.str()); g.nontrivial(p[size] > 0); g.label("algorithm", w); g.note(o.str());
}
// temperatures and number of steps
template <class D> void cooling(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = g.range(1, 5); Land land = genLand(g); Full<D> full(land); Incr<D> incr(land); unsigned size = g.chance(1, 8) ? 0 : n; moRndWithReplNeighborhood<N> nh(size); double t0 = g.oneof({0.5, 2.0, 10.0}), alpha = g.oneof({0.1, 0.5, 0.9}), tEnd = g.oneof({0.01, 0.4, 1.0, 20.0}); unsigned span = g.draw(4), tries = g.range(1, 6), moves = g.range(1, 4), most = g.draw(3); moSimpleCoolingSchedule<S> simple(t0, alpha, span, tEnd); moDynSpanCoolingSchedule<S> dyn(t0, alpha, tries, moves, most); bool isDyn = g.boolean(); moCoolingSchedule<S>& cool = isDyn ? (moCoolingSchedule<S>&)dyn : simple;
    struct Temp : public Recorder<N> { moLocalSearch<N>* ls = 0; std::vector<double> t; void init(S& s) { t.clear(); Recorder<N>::init(s); } bool operator()(S& s) { t.push_back(dynamic_cast<moSAexplorer<N>&>(ls->getNeighborhoodExplorer()).getTemperature()); return Recorder<N>::operator()(s); } } rec; rec.most = g.boolean() ? g.range(1, 20) : 400; moSA<N> own(nh, full, incr, cool, rec), def(nh, full, incr, t0, alpha, span, tEnd); moLocalSearch<N>& sa = !isDyn && g.boolean() ? (def.setContinuator(rec), def) : own; rec.ls = &sa;
    unsigned runs = g.range(1, 3), steps = 0; for (unsigned r = 0; r < runs; ++r) { S s = D::make(g, n), now(s); now.fitness(F(land(s))); sa(s); double t = t0; unsigned k = 0, a = 0, b = 0, idle = 0; steps = rec.path.size();
        for (unsigned i = 0; i < steps; ++i) { bool moved = !same(now, rec.path[i]); CHECK(evaluated<D>(land, rec.path[i]), "moSA: wrong fitness"); CHECK(!moved || (size && neighbourOf<D>(land, now, rec.path[i], n)), "moSA: not a neighbour"); now = rec.path[i]; bool go; if (isDyn) { ++a; b += moved; if (a >= tries || b >= moves) { t *= alpha; idle = b ? 0 : idle + 1; a = b = 0; } go = idle <= most; } else { if (k >= span) { t *= alpha; k = 0; } else ++k; go = t > tEnd; } CHECK_NEAR(rec.t[i], t, "moSA: temperature after " << i + 1 << " steps"); if (i + 1 < steps) CHECK(go, "moSA went on after the end of the schedule"); else CHECK(!go || rec.hit, "moSA stopped after " << steps << " steps before the end of the schedule"); } CHECK(steps <= rec.most && same(s, now), "moSA: returned solution"); }
    g.nontrivial(steps > 1); g.label("schedule", isDyn ? "dynamic" : "simple"); g.note(isDyn ? "dynamic" : "simple").note(" T ").note(t0).note(" alpha ").note(alpha).note(" steps ").note(steps);
}
// steepest ascent on an ordered neighbourhood, written from its definition
template <class D> typename D::Sol climb(const Land& land, typename D::Sol s, unsigned size) { s.fitness(typename D::Fit(land(s))); for (;;) { auto v = around<D>(land, s, size); int b = -1; for (unsigned k = 0; k < size; ++k) if (better<D>(v[k], b < 0 ? s : v[b])) b = k; if (b < 0) return s; s = v[b]; } }
// a perturbation that flips or exchanges something at random and leaves the fitness alone
template <class D> struct Kick : public eoMonOp<typename D::Sol> { unsigned size; std::vector<typename D::Sol> in, out; Kick(unsigned s) : size(s) {} bool operator()(typename D::Sol& s) { in.push_back(s); typename D::Sol t(s); typename D::Nb v; v.index(t, eo::rng.random(size)); v.move(t); for (unsigned i = 0; i < s.size(); ++i) s[i] = t[i]; out.push_back(s); return true; } };
template <class N> struct Criterion : public moAcceptanceCriterion<N> { typedef typename N::EOT S; moAcceptanceCriterion<N>* inner; std::vector<unsigned> yes; unsigned calls = 0, inits = 0, adds = 0, updates = 0; S a, b; bool operator()(S& x, S& y) { ++calls; a = x; b = y; return inner ? (*inner)(x, y) : std::count(yes.begin(), yes.end(), calls) > 0; } void init(S&) { ++inits; calls = adds = updates = 0; } void add(S&, N&) { ++adds; } void update(S&, N&) { ++updates; } void clearMemory() {} };
template <class D> void iterated(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; typedef moDummyNeighbor<S> Dn; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 6), size = D::neighbours(n), part = g.chance(1, 3) ? g.range<unsigned>(1, size) : size; Land land = genLand(g); Full<D> plain(land), climbing(land); eoEvalFuncCounter<S> counting(plain); bool lazy = g.boolean(); eoEvalFunc<S>& full = lazy ? (eoEvalFunc<S>&)counting : plain; Incr<D> incr(land); moOrderNeighborhood<N> nh(part); moSimpleHC<N> hc(nh, climbing, incr); Kick<D> kick(size); struct Marks : public Recorder<Dn> { Kick<D>* k; std::vector<unsigned> marks; void init(S& s) { marks.clear(); Recorder<Dn>::init(s); } bool operator()(S& s) { marks.push_back(k->in.size()); return Recorder<Dn>::operator()(s); } } rec; rec.k = &kick; rec.most = g.range(1, 8); std::map<unsigned, unsigned> counts; int form = g.draw(5); unsigned times = g.draw(3), lo = g.draw(2), hi = lo + g.draw(3), threshold = g.range(1, 4); moMonOpPerturb<N> several(kick, full, times), between(kick, full, lo, hi); moOrderNeighborhood<N> other(size); moNeighborhoodPerturb<N, N> neighbour(other, incr); struct Init : public eoInit<S> { std::vector<S> made; S base; void operator()(S& s) { s = base; for (unsigned i = s.size(); i > 1; --i) { unsigned j = eo::rng.random(i); auto x = s[i - 1]; s[i - 1] = (typename S::AtomType)s[j]; s[j] = x; } s.invalidate(); made.push_back(s); } } fresh; fresh.base = D::make(g, n); moRestartPerturb<N> restart(fresh, full, threshold);
    moAlwaysAcceptCrit<N> always; moBetterAcceptCrit<N> betterCrit; moEqualSolComparator<S> eq; moBetterAcceptCrit<N> orEqual(eq); Criterion<N> crit; int rule = g.draw(3); crit.inner = rule == 0 ? (moAcceptanceCriterion<N>*)&always : rule == 1 ? (moAcceptanceCriterion<N>*)&betterCrit : rule == 2 ? (moAcceptanceCriterion<N>*)&orEqual : 0; unsigned ys = g.draw(5); for (unsigned i = 0; i < ys; ++i) crit.yes.push_back(g.range(1, 8)); std::unique_ptr<moILS<N>> ils;
    if (form == 0) ils.reset(new moILS<N>(hc, full, kick, rec.most)); else if (form == 1) ils.reset(new moILS<N>(hc, full, kick, rec)); else ils.reset(new moILS<N>(hc, full, rec, form == 2 ? (moPerturbation<N>&)several : form == 3 ? (moPerturbation<N>&)between : form == 4 ? (moPerturbation<N>&)neighbour : restart, crit)); if (form < 2) rule = 0; if (form == 0) { S s = D::make(g, n); (*ils)(s); CHECK(kick.in.size() == rec.most - 1, "moILS: " << kick.in.size() << " perturbations in " << rec.most << " iterations"); CHECK(evaluated<D>(land, s), "moILS: wrong fitness"); ils->setContinuator(rec); }
    unsigned runs = g.range(1, 2); for (unsigned r = 0; r < runs; ++r) { S s = D::make(g, n), now(s); now.fitness(F(land(s))); if (g.boolean()) s.fitness(F(land(s))); kick.in.clear(); kick.out.clear(); fresh.made.clear(); (*ils)(s); CHECK(rec.path.size() == rec.most, "moILS: " << rec.path.size() << " iterations instead of " << rec.most); unsigned kicks = 0, adds = 0, calls = 0, counter = 0, restarts = 0; unsigned turn = 0; S start(now);
        for (unsigned i = 0; i < rec.path.size(); ++i) {
            std::vector<S> starts; if (i == 0) starts.push_back(now); else if (form <= 3) { unsigned k0 = kicks; if (form == 3) { unsigned k = rec.marks[i] - rec.marks[i - 1]; CHECK(k >= lo && (k < hi || k == lo), "moMonOpPerturb: " << k << " perturbations instead of " << lo << " to " << hi); S x(now); for (; kicks < rec.marks[i]; ++kicks) { CHECK(same(kick.in[kicks], x), "moILS: perturbation not applied to the current solution"); x = kick.out[kicks]; } counts[k - lo]++; starts.push_back(x); } else { unsigned want = form == 2 ? times : 1; S x(now); for (unsigned k = 0; k < want; ++k) { CHECK(kicks < kick.in.size() && same(kick.in[kicks], x), "moILS: perturbation not applied to the current solution"); x = kick.out[kicks++]; } starts.push_back(x); } } else if (form == 4) starts.push_back(around<D>(land, now, size)[turn]); else { if (counter >= threshold) { CHECK(restarts < fresh.made.size(), "moRestartPerturb: no restart after " << counter << " iterations without a move"); starts.push_back(fresh.made[restarts++]); counter = 0; } else starts.push_back(now); }
            const S& t = rec.path[i]; CHECK(evaluated<D>(land, t), "moILS: fitness of " << ls::text(t) << " is " << t << " instead of " << land(t)); bool stayed = false, moved = false; for (auto& x : starts) { S y = climb<D>(land, x, part); ++calls; bool yes = form < 2 || rule == 0 || (rule == 1 && better<D>(y, now)) || (rule == 2 && !better<D>(now, y)) || (rule == 3 && std::count(crit.yes.begin(), crit.yes.end(), i + 1)); if (yes && same(y, t)) moved = true; if (!yes && same(now, t)) stayed = true; } CHECK(moved || stayed, "moILS: iteration " << i << " went from " << ls::text(now) << " to " << ls::text(t) << " (form " << form << ", acceptance " << rule << ")"); bool yes = moved; if (moved && stayed) yes = crit.adds > adds; adds += yes; if (yes) turn = 0; turn = turn + 1 < size ? turn + 1 : 0; if (form == 5) { if (yes) counter = 0; ++counter; } now = t;
        }
        if (form >= 2) CHECK(crit.inits == r + 1 && crit.calls == rec.most && crit.adds == adds && crit.updates == rec.most, "moILS: acceptance told of " << crit.adds << " moves of " << adds << ", " << crit.updates << " iterations of " << rec.most); if (form <= 3) CHECK(kicks == kick.in.size(), "moILS: perturbation called too often"); if (form == 5) CHECK(restarts == fresh.made.size(), "moRestartPerturb restarted too early"); CHECK(same(s, now), "moILS: returned solution"); if (rule == 1 || rule == 2) CHECK(!better<D>(start, s), "moILS: returned a solution worse than the start"); }
    g.nontrivial(rec.most > 2); g.label("form", form); g.label("acceptance", rule); g.note("form ").note(form).note(" acceptance ").note(rule).note(" iterations ").note(rec.most);
}
template <class D> struct Logged : public eoMonOp<typename D::Sol> { eoMonOp<typename D::Sol>* op = 0; int id = 0; std::vector<int>* log = 0; std::vector<typename D::Sol>* out = 0; bool operator()(typename D::Sol& s) { log->push_back(id); bool r = op ? (*op)(s) : false; out->push_back(s); return r; } };
template <class D> void variable(pbt::Gen& g) {
    Silence quiet; typedef typename D::Sol S; typedef typename D::Nb N; typedef typename D::Fit F; unsigned n = D::perm ? g.range(2, 4) : g.range(1, 6), size = D::neighbours(n), K = g.range(1, 4); Land land = genLand(g); Full<D> full(land); Incr<D> incr(land); Recorder<N> rec; rec.most = g.range(1, 12); bool cycle = g.boolean(); int kind = g.draw(2);
    std::vector<std::unique_ptr<moOrderNeighborhood<N>>> nh; std::vector<std::unique_ptr<moSimpleHC<N>>> hc; std::vector<std::unique_ptr<Kick<D>>> kick; std::vector<Logged<D>> sh(K), se(K); std::vector<int> shLog, lsLog; std::vector<S> shOut, lsOut; std::vector<unsigned> part; for (unsigned k = 0; k < K; ++k) { part.push_back(g.range<unsigned>(1, size)); nh.emplace_back(new moOrderNeighborhood<N>(part[k])); hc.emplace_back(new moSimpleHC<N>(*nh[k], full, incr)); kick.emplace_back(new Kick<D>(size)); bool shakes = g.boolean(); sh[k].op = shakes ? kick[k].get() : 0; sh[k].id = se[k].id = k; sh[k].log = &shLog; se[k].log = &lsLog; sh[k].out = &shOut; se[k].out = &lsOut; se[k].op = hc[k].get(); }
    moForwardVectorVNSelection<S> fw(se[0], sh[0], cycle); moBackwardVectorVNSelection<S> bw(se[0], sh[0], cycle); moRndVectorVNSelection<S> rn(se[0], sh[0], cycle); moVectorVNSelection<S>& sel = kind == 0 ? (moVectorVNSelection<S>&)fw : kind == 1 ? (moVectorVNSelection<S>&)bw : rn; unsigned added = 1; bool late = g.boolean(); unsigned first = late ? g.range<unsigned>(1, K) : K; for (; added < first; ++added) sel.add(se[added], sh[added]);
    moAlwaysAcceptCrit<N> always; moBetterAcceptCrit<N> betterCrit; Criterion<N> crit; int rule = g.draw(2); crit.inner = rule == 0 ? (moAcceptanceCriterion<N>*)&always : rule == 1 ? (moAcceptanceCriterion<N>*)&betterCrit : 0; unsigned ys = g.draw(5); for (unsigned i = 0; i < ys; ++i) crit.yes.push_back(g.range(1, 12)); moVNS<N> vns(sel, crit, full, rec); unsigned runs = g.range(1, 3), back = 0; const char* w = kind == 0 ? "moVNS, forward" : kind == 1 ? "moVNS, backward" : "moVNS, random";
    for (unsigned r = 0; r < runs; ++r) {
        if (r == 1) for (; added < K; ++added) sel.add(se[added], sh[added]); unsigned k = added; shLog.clear(); lsLog.clear(); shOut.clear(); lsOut.clear(); crit.calls = 0; S s = D::make(g, n), now(s); now.fitness(F(land(s))); if (g.boolean()) s.fitness(F(land(s))); S best(now); vns(s); unsigned steps = rec.path.size(); CHECK(lsLog.size() == steps && shLog.size() == steps, w << ": " << lsLog.size() << " searches and " << shLog.size() << " shakes in " << steps << " steps"); int pos = 0; std::vector<int> block;
        for (unsigned i = 0; i < steps; ++i) {
            int id = lsLog[i]; CHECK(shLog[i] == id, w << ": shake " << shLog[i] << " with search " << id); if (kind < 2) { int want = kind == 0 ? pos : (int)k - 1 - pos; CHECK(id == want, w << ": search " << id << " instead of " << want << " at step " << i); } else { if (block.size() == k) CHECK(id == block[pos], w << ": another order in the second round"); else { CHECK(!std::count(block.begin(), block.end(), id) && id >= 0 && id < (int)k, w << ": search " << id << " again before the others"); block.push_back(id); } }
            if (!sh[id].op) CHECK(same(shOut[i], now), w << ": search not started from the current solution"); else { bool nb = neighbourOf<D>(land, now, shOut[i], size); CHECK(nb, w << ": shake not applied to the current solution"); } S y = climb<D>(land, shOut[i], part[id]); CHECK(same(y, lsOut[i]) && evaluated<D>(land, lsOut[i]), w << ": the search from " << ls::text(shOut[i]) << " ended at " << lsOut[i] << " instead of " << y); if (better<D>(y, best)) best = y; bool yes = rule == 0 || (rule == 1 && better<D>(y, now)) || (rule == 2 && std::count(crit.yes.begin(), crit.yes.end(), i + 1)); if (yes) now = y; CHECK(same(rec.path[i], now) && evaluated<D>(land, rec.path[i]), w << ": step " << i << " at " << rec.path[i] << " instead of " << now);
            bool stop = false; if (i > 0 && yes) { pos = 0; block.clear(); ++back; } else if (cycle || pos + 1 < (int)k) pos = (pos + 1) % k; else stop = true; if (i + 1 < steps) CHECK(!stop, w << ": went on after its last search"); else CHECK(stop || rec.hit, w << ": stopped after " << steps << " steps with " << k << " searches");
        }
        CHECK(same(s, best) && evaluated<D>(land, s), w << ": returned " << s << " instead of the best solution found, " << best);
    }
    g.nontrivial(K > 1 && rec.most > 2); g.label("selection", w); g.label("returned to the first", back > 0); g.note(w).note(cycle ? " cycling " : " ").note(K).note(" searches, acceptance ").note(rule);
}
}
PBT(annealing_step, 120, 1200) { switch (g.draw(2)) { case 0: oneStep<Bits<double>>(g, false); break; case 1: oneStep<Bits<eoMinimizingFitness>>(g, false); break; default: oneStep<Perm<eoMinimizingFitness>>(g, false); } }
PBT(metropolis_step, 100, 1000) { if (g.boolean()) oneStep<Bits<double>>(g, true); else oneStep<Bits<eoMinimizingFitness>>(g, true); }
PBT(annealing_schedule, 4000, 40000) { if (g.boolean()) cooling<Bits<double>>(g); else cooling<Bits<eoMinimizingFitness>>(g); }
PBT(metropolis_steps, 1000, 10000) { Silence quiet; typedef Bits<double> D; unsigned n = g.range(1, 5), size = g.chance(1, 6) ? 0 : n, most = g.range(1, 9); Land land = genLand(g, true); Full<D> full(land); Incr<D> incr(land); moRndWithReplNeighborhood<D::Nb> nh(size); Recorder<D::Nb> rec; rec.most = g.boolean() ? g.range(1, 9) : 100; moMetropolisHasting<D::Nb> mh(nh, full, incr, most, rec); for (int r = 0; r < 2; ++r) { D::Sol s = D::make(g, n), now(s); now.fitness(land(s)); mh(s); CHECK(rec.path.size() == std::min(rec.most, most), "moMetropolisHasting: " << rec.path.size() << " steps instead of " << most); for (auto& t : rec.path) { CHECK(evaluated<D>(land, t), "moMetropolisHasting: wrong fitness"); CHECK(same(t, now) || (size && neighbourOf<D>(land, now, t, n)), "moMetropolisHasting: not a neighbour"); now = t; } CHECK(same(s, now), "moMetropolisHasting: returned solution"); } g.nontrivial(most > 1); g.note(most).note(" steps"); }
PBT(iterated_bits, 5000, 50000) { if (g.boolean()) iterated<Bits<double>>(g); else iterated<Bits<eoMinimizingFitness>>(g); }
PBT(iterated_perms, 3000, 30000) { iterated<Perm<eoMinimizingFitness>>(g); }
PBT(variable_bits, 6000, 60000) { if (g.boolean()) variable<Bits<double>>(g); else variable<Bits<eoMinimizingFitness>>(g); }
PBT(variable_perms, 3000, 30000) { variable<Perm<eoMinimizingFitness>>(g); }
PBT(initial_solutions, 500, 5000) { Silence quiet; typedef Bits<double> D; typedef D::Sol S; unsigned n = g.range(1, 6); Land land = genLand(g); Full<D> full(land); Incr<D> incr(land); moOrderNeighborhood<D::Nb> nh(n); moSimpleHC<D::Nb> hc(nh, full, incr); S ext = D::make(g, n); if (g.boolean()) ext.fitness(land(ext)); moSolInit<S> init(ext); moLocalSearchInit<D::Nb> both(init, hc); S s = D::make(g, n), t(s); init(s); CHECK(same(s, ext) && s.invalid() == ext.invalid(), "moSolInit does not give the solution"); both(t); S e = climb<D>(land, ext, n); CHECK(same(t, e) && evaluated<D>(land, t), "moLocalSearchInit gives " << t << " instead of " << e); ext = D::make(g, n); init(s); CHECK(same(s, ext), "moSolInit gives an old solution"); g.nontrivial(n > 1); g.note(n); }
PBT(random_order, 40, 400) { typedef Bits<double> D; typedef D::Sol S; struct Id : public eoMonOp<S> { bool operator()(S&) { return false; } }; unsigned K = g.range(2, 4); std::vector<Id> a(K), b(K); moRndVectorVNSelection<S> sel(a[0], b[0], true); for (unsigned k = 1; k < K; ++k) sel.add(a[k], b[k]); S s = D::make(g, 2); const unsigned M = 3000; std::vector<unsigned> f(K, 0), l(K, 0), two(K * K, 0); unsigned last = 0; for (unsigned i = 0; i < M; ++i) { sel.init(s); unsigned x = (Id*)&sel.getLocalSearch() - &a[0]; f[x]++; if (i) two[last * K + x]++; last = x; sel.next(s); l[(Id*)&sel.getLocalSearch() - &a[0]]++; } std::vector<double> u(K, 1.0 / K); checkFreq(u, f, "first search of moRndVectorVNSelection"); checkFreq(u, l, "second search of moRndVectorVNSelection"); checkFreq(std::vector<double>(K * K, 1.0 / K / K), two, "first searches of two rounds"); g.nontrivial(true); g.note(K).note(" searches"); }
PBT(random_strength, 30, 300) { typedef Bits<double> D; typedef D::Sol S; unsigned n = g.range(1, 4), lo = g.draw(3), hi = lo + g.range(1, 4); Land land = genLand(g); Full<D> full(land); Kick<D> kick(n); eoEvalFuncCounter<S> lazy(full); moMonOpPerturb<D::Nb> p(kick, lazy, lo, hi); const unsigned M = 3000; std::vector<unsigned> c(hi - lo, 0); S s = D::make(g, n); s.fitness(land(s)); for (unsigned i = 0; i < M; ++i) { kick.in.clear(); bool r = p(s); unsigned k = kick.in.size(); CHECK(k >= lo && k < hi, "moMonOpPerturb: " << k << " perturbations instead of " << lo << " to " << hi); CHECK(r == (k > 0) && evaluated<D>(land, s), "moMonOpPerturb: answer or fitness"); c[k - lo]++; } checkFreq(std::vector<double>(hi - lo, 1.0 / (hi - lo)), c, "number of perturbations"); g.nontrivial(hi - lo > 1); g.note(lo).note(" to ").note(hi); }
PBT(neighbour_perturbation, 1000, 10000) { typedef Bits<double> D; typedef D::Sol S; unsigned n = g.range(1, 5), size = g.chance(1, 6) ? 0 : g.range<unsigned>(1, n), steps = g.range(1, 9), turn = 0; Land land = genLand(g); Incr<D> incr(land); moOrderNeighborhood<D::Nb> nh(size); moNeighborhoodPerturb<D::Nb, D::Nb> p(nh, incr); S s = D::make(g, n); s.fitness(land(s)); D::Nb none; p.init(s); for (unsigned i = 0; i < steps; ++i) { int op = g.draw(3); if (op == 0) { p.add(s, none); turn = 0; } else if (op == 1) { if (size) { p.update(s, none); turn = turn + 1 < size ? turn + 1 : 0; } } else { S e = size ? around<D>(land, s, size)[turn] : s; bool r = p(s); CHECK(r && same(s, e) && evaluated<D>(land, s), "moNeighborhoodPerturb gives " << s << " instead of " << e); } } g.nontrivial(size > 1); g.note(size).note(" neighbours"); }
// parameters left out take the documented defaults: temperature 10, factor 0.9, span 100, end 0.01; selections cycle
PBT(documented_defaults, 60, 600) {
    Silence quiet; typedef Bits<double> D; typedef D::Sol S; typedef D::Nb N; unsigned n = g.range(1, 4), given = g.draw(4); Land land = genLand(g); Full<D> full(land); Incr<D> incr(land); moRndWithReplNeighborhood<N> nh(n); double t0 = given > 0 ? g.oneof({0.5, 2.0}) : 10, alpha = given > 1 ? g.oneof({0.2, 0.5}) : 0.9, tEnd = given > 3 ? g.oneof({0.1, 0.4}) : 0.01; unsigned span = given > 2 ? g.draw(5) : 100;
    struct Temp : public Recorder<N> { moLocalSearch<N>* ls = 0; std::vector<double> t; void init(S& s) { t.clear(); Recorder<N>::init(s); } bool operator()(S& s) { t.push_back(dynamic_cast<moSAexplorer<N>&>(ls->getNeighborhoodExplorer()).getTemperature()); return Recorder<N>::operator()(s); } } rec; rec.most = 20000;
    std::unique_ptr<moSA<N>> sa(given == 0 ? new moSA<N>(nh, full, incr) : given == 1 ? new moSA<N>(nh, full, incr, t0) : given == 2 ? new moSA<N>(nh, full, incr, t0, alpha) : given == 3 ? new moSA<N>(nh, full, incr, t0, alpha, span) : new moSA<N>(nh, full, incr, t0, alpha, span, tEnd)); sa->setContinuator(rec); rec.ls = sa.get();
    S s = D::make(g, n); (*sa)(s); double t = t0; unsigned k = 0; for (unsigned i = 0; i < rec.t.size(); ++i) { if (k >= span) { t *= alpha; k = 0; } else ++k; CHECK_NEAR(rec.t[i], t, "moSA with " << given << " parameters given: temperature after " << i + 1 << " steps"); CHECK((t > tEnd) == (i + 1 < rec.t.size()), "moSA with " << given << " parameters given: ended after " << rec.t.size() << " steps"); }
    struct Id : public eoMonOp<S> { bool operator()(S&) { return false; } } id; moForwardVectorVNSelection<S> fw(id, id); moBackwardVectorVNSelection<S> bw(id, id); moRndVectorVNSelection<S> rn(id, id); unsigned more = g.draw(3); moVectorVNSelection<S>* sel[] = {&fw, &bw, &rn}; for (auto* x : sel) { for (unsigned i = 0; i < more; ++i) x->add(id, id); x->init(s); for (unsigned i = 0; i < 2 * more + 3; ++i) { CHECK(x->cont(s), x->className() << " of " << more + 1 << " does not cycle by default after " << i << " steps"); x->next(s); } }
    g.nontrivial(given < 4);
}
