// E08: replacement keeps the size, only survivors, and the promised elite.
#include "ind_support.hpp"
#include <eoG3Replacement.h>
#include <eoMGGReplacement.h>
#include <eoSurviveAndDie.h>
#include <eoReduceSplit.h>
#include <eoReduceMergeReduce.h>
using namespace sup;
const unsigned N = 3000;
template <class I> std::vector<double> topVals(std::vector<double> v, size_t k) { std::sort(v.begin(), v.end(), [](double a, double b) { return better<I>(a, b); }); if (k < v.size()) v.resize(k); return v; }
template <class T> std::vector<T> cat(std::vector<T> a, const std::vector<T>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

template <class I> void reducing(pbt::Gen& g) {
    Silence q; size_t n = g.size(0, 9), k = g.chance(1, 12) ? n + g.range(1, 2) : n ? g.range<size_t>(0, n) : 0; int kind = g.range(0, 5); eoPop<I> p = genPop<I>(g, n), keep = p; unsigned t = g.oneof({2u, 3u, 1u, 6u}); double r = g.oneof({1.0, 0.8, 0.6, 0.3, 2.0}); std::unique_ptr<eoReduce<I>> red;
    switch (kind) { case 0: red.reset(new eoTruncate<I>); break; case 1: red.reset(new eoLinearTruncate<I>); break; case 2: red.reset(new eoRandomReduce<I>); break; case 3: red.reset(new eoEPReduce<I>(t)); break; case 4: red.reset(new eoDetTournamentTruncate<I>(t)); break; default: red.reset(new eoStochTournamentTruncate<I>(r)); }
    g.note(kind); g.note(n); g.note(k); g.label("reduction", kind); g.nontrivial(k < n && k > 0);
    if (g.boolean()) { eoPop<I> other = genPop<I>(g, 5); (*red)(other, 3); }
    if (k > n) { CHECK(throws([&] { (*red)(p, k); }), "reducing " << n << " individuals to " << k << " is accepted"); return; }
    (*red)(p, k); CHECK(p.size() == k, "reduced to " << p.size() << " instead of " << k); checkSubset(p, keep, "reduction"); if (k == n) CHECK(sorted(ids(p)) == ids(keep), "reduction to the same size");
    if (kind <= 1) CHECK(sortedVals(p) == topVals<I>(vals(keep), k), "truncation keeps " << pbt::strv(sortedVals(p)) << " of " << pbt::strv(sortedVals(keep)));
}
PBT(reduce_max, 3000, 30000) { reducing<Max>(g); }
PBT(reduce_min, 1500, 15000) { reducing<Min>(g); }
// which individual is removed: exact probabilities for one removal
template <class I> void removal(pbt::Gen& g) {
    Silence q; size_t n = g.size(2, 5); eoPop<I> p = genPop<I>(g, n, 0, true); int kind = g.range(0, 3); unsigned t = g.oneof({2u, 3u}); double r0 = g.oneof({1.0, 0.7, 0.3}), r = r0 <= 0.5 ? 0.51 : r0; bool split = g.boolean() && kind < 3; std::vector<double> pr(n, 0); if (kind == 3) { n = 3; p = genPop<I>(g, 3, 0, true); t = 2; }
    if (kind == 0) pr.assign(n, 1.0 / n);
    if (kind == 1) { std::vector<double> s(n, 1.0 / n); for (unsigned k = 1; k < t; ++k) { std::vector<double> z(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) z[better<I>(val(p[i]), val(p[j])) ? j : i] += s[i] / (n - 1); s = z; } pr = s; }
    if (kind == 2) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (i == j) { pr[i] += 1.0 / n / n; continue; } size_t b = better<I>(val(p[i]), val(p[j])) ? i : j, w = i + j - b; pr[w] += r / n / n; pr[b] += (1 - r) / n / n; }
    if (kind == 3) { pr.assign(3, 0); auto score = [&](size_t i, int code) { double s = 0; for (int d : {code / 3, code % 3}) s += val(p[d]) == val(p[i]) ? 0.5 : better<I>(val(p[i]), val(p[d])) ? 1 : 0; return s; }; for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) { int code[3] = {a, b, c}; size_t worst = 0; for (size_t i = 1; i < 3; ++i) { double si = score(i, code[i]), sw = score(worst, code[worst]); if (si < sw || (si == sw && better<I>(val(p[worst]), val(p[i])))) worst = i; } pr[worst] += 1.0 / 729; } }
    std::vector<unsigned> c(n, 0); g.note(kind); g.note(pbt::strv(vals(p))); g.nontrivial(true); g.label("removal", kind);
    for (unsigned k = 0; k < N; ++k) { eoPop<I> x = p, out; int gone = -1; if (split) { if (kind == 0) { if (g.chance(1, 2) || true) { if (t == 2) eoRandomSplit<I>(eoHowMany(1), true)(x, out); else eoLinearRandomSplit<I>(eoHowMany(1), true)(x, out); } } else if (kind == 1) eoDetTournamentTruncateSplit<I>(t, eoHowMany(1), true)(x, out); else eoStochTournamentTruncateSplit<I>(r0, eoHowMany(1), true)(x, out); CHECK(out.size() == 1, "one eliminated individual expected"); gone = out[0].id; }
        else { if (kind == 0) { eoRandomReduce<I> zz; eoReduce<I>& z = zz; z(x, n - 1); } else if (kind == 1) { eoDetTournamentTruncate<I> z(t); z(x, n - 1); } else if (kind == 2) { eoStochTournamentTruncate<I> z(r0); z(x, n - 1); } else { eoEPReduce<I> z(t); z(x, n - 1); } std::set<int> s; for (auto& y : x) s.insert(y.id); for (size_t i = 0; i < n; ++i) if (!s.count(i)) gone = i; }
        CHECK(gone >= 0 && x.size() == n - 1, "one individual has to go"); c[gone]++; }
    checkFreq(pr, c, "individual removed");
}
PBT(removal_frequency, 40, 400) { if (g.boolean()) removal<Max>(g); else removal<Min>(g); }
template <class I> void splitting(pbt::Gen& g) {
    Silence q; size_t n = g.size(1, 9), old = g.size(0, 3); int kind = g.range(0, 5); bool ret = g.boolean(); eoPop<I> p = genPop<I>(g, n), keep = p, out = genPop<I>(g, old, 100), outKeep = out; unsigned t = g.oneof({2u, 3u, 1u}); double r = g.oneof({1.0, 0.7, 0.3}); int mode = g.range(0, 2); int c = g.range(1, (int)n + 1); double rate = g.oneof({0.0, 0.5, 1.0, 0.3}); eoHowMany hm = mode == 0 ? eoHowMany(c) : mode == 1 ? eoHowMany(rate) : eoHowMany(-c); size_t e = mode == 0 ? c : mode == 1 ? (size_t)std::ceil(rate * n) : n - c; bool bad = e > n;
    std::unique_ptr<eoReduceSplit<I>> s; switch (kind) { case 0: s.reset(new eoTruncateSplit<I>(hm, ret)); break; case 1: s.reset(new eoLinearTruncateSplit<I>(hm, ret)); break; case 2: s.reset(new eoRandomSplit<I>(hm, ret)); break; case 3: s.reset(new eoLinearRandomSplit<I>(hm, ret)); break; case 4: s.reset(new eoDetTournamentTruncateSplit<I>(t, hm, ret)); break; default: s.reset(new eoStochTournamentTruncateSplit<I>(r, hm, ret)); }
    g.note(kind); g.note(n); g.note(mode); g.note(c); g.nontrivial(n > 1); g.label("split", kind);
    if (bad) { CHECK(throws([&] { (*s)(p, out); }), "eliminating " << e << " of " << n << " is accepted"); return; }
    (*s)(p, out); CHECK(p.size() == n - e, "split leaves " << p.size() << " of " << n << " after eliminating " << e); checkSubset(p, keep, "split"); CHECK(out.size() == old + (ret ? e : 0), "split returned " << out.size() - old << " eliminated individuals"); for (size_t i = 0; i < old; ++i) CHECK(out[i].id == outKeep[i].id, "split disturbed individuals eliminated earlier");
    if (ret) { auto all = ids(p); for (size_t i = old; i < out.size(); ++i) all.push_back(out[i].id); CHECK(sorted(all) == ids(keep), "split lost or copied individuals"); }
    if (kind <= 1) CHECK(sortedVals(p) == topVals<I>(vals(keep), n - e), "truncating split keeps " << pbt::strv(sortedVals(p)) << " of " << pbt::strv(sortedVals(keep)));
}
PBT(split_max, 2500, 25000) { splitting<Max>(g); }
PBT(split_min, 1000, 10000) { splitting<Min>(g); }
template <class I> void merging(pbt::Gen& g) {
    Silence q; size_t n = g.size(1, 8), m = g.size(0, 6); eoPop<I> p = genPop<I>(g, n), o = genPop<I>(g, m, 100), keep = o; int kind = g.range(0, 3); double rate = g.oneof({0.0, 0.5, 1.0, 0.3}); unsigned c = g.range<unsigned>(0, n + 1); size_t e = kind == 0 ? n : kind == 1 ? (size_t)(rate * n) : kind == 2 ? c : 0; bool bad = e > n; g.note(kind); g.note(n); g.note(c); g.nontrivial(e > 0 && e < n); std::unique_ptr<eoMerge<I>> mg; switch (kind) { case 0: mg.reset(new eoPlus<I>); break; case 1: mg.reset(new eoElitism<I>(rate)); break; case 2: mg.reset(new eoElitism<I>(c, false)); break; default: mg.reset(new eoNoElitism<I>); }
    if (bad) { CHECK(throws([&] { (*mg)(p, o); }), "an elite larger than the population is accepted"); return; }
    (*mg)(p, o); CHECK(o.size() == m + e, "merged population of " << o.size() << " instead of " << m + e); std::vector<I> added(o.begin() + m, o.end()); for (size_t i = 0; i < m; ++i) CHECK(o[i].id == keep[i].id, "merging disturbed the offspring"); checkSubset(added, (std::vector<I>&)p, "merge"); CHECK(sortedVals(added) == topVals<I>(vals(p), e), "elite " << pbt::strv(sortedVals(added)) << " of " << pbt::strv(sortedVals(p)));
    CHECK(throws([] { eoElitism<I> x(1.5); }) && throws([] { eoElitism<I> x(-0.5); }) && throws([] { eoElitism<I> x(-2, false); }), "invalid elite size accepted");
}
PBT(merge_max, 1500, 15000) { merging<Max>(g); }
PBT(merge_min, 800, 8000) { merging<Min>(g); }

// ---- replacements, applied over several generations with the same object
template <class I> void replacing(pbt::Gen& g) {
    Silence q; size_t P = g.size(1, 8); int kind = g.range(0, 11); unsigned t = g.oneof({2u, 3u, 5u}); double r = g.oneof({1.0, 0.75}); eoGenerationalReplacement<I> gen; eoCommaReplacement<I> comma; eoSSGAStochTournamentReplacement<I> stoch(r); std::unique_ptr<eoReplacement<I>> rep; int k = g.range(2, 4); eoTruncate<I> trunc; eoLinearTruncate<I> lin;
    if (kind == 8 || kind == 9) { P = std::max<size_t>(P, k); }
    switch (kind) { case 0: rep.reset(new eoGenerationalReplacement<I>); break; case 1: rep.reset(new eoPlusReplacement<I>); break; case 2: rep.reset(new eoCommaReplacement<I>); break; case 3: rep.reset(new eoEPReplacement<I>(t)); break; case 4: rep.reset(new eoSSGAWorseReplacement<I>); break; case 5: rep.reset(new eoSSGADetTournamentReplacement<I>(t)); break; case 6: rep.reset(new eoSSGAStochTournamentReplacement<I>(r)); break; case 7: rep.reset(new eoWeakElitistReplacement<I>(g.boolean() ? (eoReplacement<I>&)gen : g.boolean() ? (eoReplacement<I>&)comma : stoch)); break; case 8: rep.reset(new eoMGGReplacement<I>(eoHowMany(k), t)); break; case 9: rep.reset(new eoG3Replacement<I>(eoHowMany(k))); break; case 10: { static eoElitism<I> el(1, false); rep.reset(new eoMergeReduce<I>(el, trunc)); break; } default: { static eoPlus<I> plus; rep.reset(new eoReduceMerge<I>(lin, plus)); } }
    eoPop<I> parents = genPop<I>(g, P); int gens = g.range(1, 3); g.note(kind); g.note(P); g.label("replacement", kind); g.nontrivial(P > 1);
    for (int ge = 0; ge < gens; ++ge) {
        size_t O; switch (kind) { case 0: O = P; break; case 2: O = P + g.range(0, 3); break; case 10: O = P - 1 + g.range(0, 3); break; case 4: case 5: case 6: case 11: O = g.range<size_t>(0, P + (g.chance(1, 8) ? 1 : 0)); break; case 7: O = P; break; case 8: O = g.range<size_t>(1, 6); break; default: O = g.range<size_t>(0, 6); }
        eoPop<I> off = genPop<I>(g, O, 100 * (ge + 1)), pk = parents, ok = off; g.note(O); auto pv = sortedVals(pk), ov = sortedVals(ok), both = topVals<I>(cat(pv, ov), P + O);
        if ((kind >= 4 && kind <= 6 || kind == 11) && O > P) { CHECK(throws([&] { (*rep)(parents, off); }), "more offspring than parents accepted"); return; }
        if (kind == 2 && g.chance(1, 10)) { off.resize(P - 1); CHECK(throws([&] { (*rep)(parents, off); }), "comma replacement accepts too few offspring"); return; }
        (*rep)(parents, off); CHECK(parents.size() == P, "the population went from " << P << " to " << parents.size() << " individuals"); checkSubset(parents, cat((std::vector<I>&)pk, (std::vector<I>&)ok), "replacement"); auto nv = sortedVals(parents); std::vector<int> now = ids(parents); std::set<int> in(now.begin(), now.end());
        auto all = [&](const eoPop<I>& x) { for (auto& i : x) if (!in.count(i.id)) return false; return true; };
        switch (kind) {
            case 0: CHECK(ids(parents) == ids(ok), "generational replacement"); break;
            case 1: CHECK(nv == topVals<I>(both, P), "plus replacement keeps " << pbt::strv(nv) << " of " << pbt::strv(both)); break;
            case 2: CHECK(nv == topVals<I>(ov, P), "comma replacement keeps " << pbt::strv(nv) << " of " << pbt::strv(ov)); break;
            case 4: case 11: CHECK(all(ok), "an offspring was lost"); CHECK(nv == topVals<I>(cat(topVals<I>(pv, P - O), ov), P), "replace-worst gives " << pbt::strv(nv)); break;
            case 5: case 6: CHECK(all(ok), "an offspring was lost"); break;
            case 7: CHECK(!better<I>(pv[0], nv[0]), "weak elitism lost the best fitness " << pv[0] << ", now " << nv[0]); break;
            case 8: { CHECK(nv.size() == P, "size"); auto kept = topVals<I>(pv, P - k); size_t found = 0; for (auto& i : pk) found += in.count(i.id); CHECK(found >= P - k, "MGG lost more than " << k << " parents"); std::multiset<double> left(nv.begin(), nv.end()); for (double v : kept) { auto it = left.find(v); CHECK(it != left.end(), "MGG lost a good parent of fitness " << v); left.erase(it); } CHECK(left.count(ov[0]), "MGG lost the best offspring"); bool bo = false; for (auto& i : ok) bo = bo || (val(i) == ov[0] && in.count(i.id)); CHECK(bo, "MGG lost the best offspring"); break; }
            case 9: { auto rest = pv; std::vector<double> worst(rest.begin() + (P - k), rest.end()); CHECK(nv == topVals<I>(cat(topVals<I>(pv, P - k), topVals<I>(cat(worst, ov), k)), P), "G3 gives " << pbt::strv(nv) << " from parents " << pbt::strv(pv) << " and offspring " << pbt::strv(ov)); break; }
            case 10: CHECK(nv == topVals<I>(cat(ov, {pv[0]}), P), "elite of one and truncation give " << pbt::strv(nv)); break;
        }
        if (kind == 1 || kind == 4 || kind == 7 || kind == 9 || kind == 10) if (O < P || kind != 4) CHECK(!better<I>(pv[0], nv[0]), "the best fitness decreased from " << pv[0] << " to " << nv[0]);
    }
}
PBT(replace_max, 6000, 60000) { replacing<Max>(g); }
PBT(replace_min, 3000, 30000) { replacing<Min>(g); }
template <class I> void weakOnly(pbt::Gen& g) { // what weak elitism changes: nothing, or the worst individual
    size_t P = g.size(1, 7); eoPop<I> p = genPop<I>(g, P), o = genPop<I>(g, P, 100), pk = p, ok = o; eoGenerationalReplacement<I> gen; eoWeakElitistReplacement<I> w(gen); w(p, o); auto e = sortedVals(ok); double champ = sortedVals(pk)[0]; if (better<I>(champ, e[0])) { e.back() = champ; e = topVals<I>(e, P); } CHECK(sortedVals(p) == e, "weak elitism gives " << pbt::strv(sortedVals(p)) << " instead of " << pbt::strv(e)); checkSubset(p, cat((std::vector<I>&)pk, (std::vector<I>&)ok), "weak elitism"); g.nontrivial(P > 1);
}
PBT(weak_elitism, 1500, 15000) { if (g.boolean()) weakOnly<Max>(g); else weakOnly<Min>(g); }
template <class I> void rmr(pbt::Gen& g) {
    Silence q; size_t P = g.size(1, 8), O = g.size(1, 8); eoPop<I> p = genPop<I>(g, P), o = genPop<I>(g, O, 100), pk = p, ok = o; bool strong = g.boolean(), det = g.boolean(); size_t elite = g.range<size_t>(0, std::min<size_t>(P, 3)), rest = P - elite; double rp = g.oneof({1.0, 0.5, 0.0, 0.3}), ro = g.oneof({1.0, 0.5, 0.7}); eoTruncate<I> tr; eoLinearTruncate<I> li; eoRandomReduce<I> rn; eoReduce<I>&a = det ? (eoReduce<I>&)tr : rn, &b = det ? (eoReduce<I>&)li : rn, &c = det ? (eoReduce<I>&)tr : rn;
    eoReduceMergeReduce<I> rep(elite ? eoHowMany((int)elite) : eoHowMany(0.0), strong, eoHowMany(rp), a, eoHowMany(ro), b, c); size_t np = (size_t)std::ceil(rp * rest), no = (size_t)std::ceil(ro * O), merged = np + no, target = strong && elite ? P - elite : P; g.note(P); g.note(O); g.note(elite); g.note(strong); g.note(rp); g.note(ro); g.note(pbt::strv(vals(pk))); g.note(pbt::strv(vals(ok))); g.nontrivial(elite > 0); g.label("elitism", elite ? (strong ? "strong" : "weak") : "none");
    if (merged < target) { CHECK(throws([&] { rep(p, o); }), "a merged population of " << merged << " is accepted for " << target); return; }
    rep(p, o); CHECK(p.size() == P, "the population went from " << P << " to " << p.size()); checkSubset(p, cat((std::vector<I>&)pk, (std::vector<I>&)ok), "reduce-merge-reduce"); auto pv = sortedVals(pk), ov = sortedVals(ok), nv = sortedVals(p); std::vector<double> el(pv.begin(), pv.begin() + elite), others(pv.begin() + elite, pv.end());
    if (strong) { std::multiset<double> left(nv.begin(), nv.end()); for (double v : el) { auto it = left.find(v); CHECK(it != left.end(), "strong elitism lost a parent of fitness " << v); left.erase(it); } }
    for (size_t i = 0; i < elite; ++i) CHECK(!better<I>(el[i], nv[i]), (strong ? "strong" : "weak") << " elitism: the " << i << "th fitness " << nv[i] << " is worse than that of the elite " << el[i]);
    if (det) { auto m = topVals<I>(cat(topVals<I>(others, np), topVals<I>(ov, no)), target); if (strong) m = topVals<I>(cat(m, el), P); else if (elite) { size_t save = 0; while (save < elite && better<I>(el[save], m[elite - 1])) ++save; for (size_t i = 0; i < save; ++i) m[P - 1 - i] = el[i]; m = topVals<I>(m, P); } CHECK(nv == m, "reduce-merge-reduce gives " << pbt::strv(nv) << " instead of " << pbt::strv(m)); }
}
PBT(reduce_merge_reduce_max, 3000, 30000) { rmr<Max>(g); }
PBT(reduce_merge_reduce_min, 1500, 15000) { rmr<Min>(g); }
template <class I> void sad(pbt::Gen& g) {
    Silence q; size_t P = g.size(2, 8), O = g.size(1, 8); eoPop<I> p = genPop<I>(g, P), o = genPop<I>(g, O, 100), pk = p, ok = o; bool rate = g.boolean(); auto num = [&](size_t n) { return rate ? g.oneof({0.0, 0.25, 0.5, 1.0}) : (double)g.range<size_t>(0, n); }; double sp = num(P), dp = num(P), so = num(O), dO = num(O); auto many = [&](double x, size_t n) { return rate ? (size_t)std::ceil(x * n) : (size_t)x; };
    eoDeterministicSaDReplacement<I> rep(sp, dp, so, dO, rate); size_t nsp = many(sp, P), nso = many(so, O), ndp = std::min(many(dp, P), P - nsp), ndo = std::min(many(dO, O), O - nso); auto pv = sortedVals(pk), ov = sortedVals(ok); g.note(P); g.note(O); g.note(sp); g.note(dp); g.note(so); g.note(dO); g.nontrivial(nsp + nso > 0);
    std::vector<double> lucky(pv.begin(), pv.begin() + nsp); lucky.insert(lucky.end(), ov.begin(), ov.begin() + nso); std::vector<double> pool(pv.begin() + nsp, pv.end() - ndp); pool.insert(pool.end(), ov.begin() + nso, ov.end() - ndo);
    if (lucky.size() > P || pool.size() < P - lucky.size()) { CHECK(throws([&] { rep(p, o); }), "impossible survival numbers accepted"); return; }
    rep(p, o); CHECK(p.size() == P, "size " << p.size()); checkSubset(p, cat((std::vector<I>&)pk, (std::vector<I>&)ok), "survive and die"); auto e = topVals<I>(cat(topVals<I>(pool, P - lucky.size()), lucky), P); CHECK(sortedVals(p) == e, "survive-and-die gives " << pbt::strv(sortedVals(p)) << " instead of " << pbt::strv(e));
}
PBT(survive_and_die, 3000, 30000) { if (g.boolean()) sad<Max>(g); else sad<Min>(g); }

// the same with larger sizes
PBT_LARGE(reduce_max, 60, 600, 10)
PBT_LARGE(reduce_min, 37, 375, 10)
PBT_LARGE(removal_frequency, 10, 100, 10)
PBT_LARGE(split_max, 60, 600, 10)
PBT_LARGE(split_min, 25, 250, 10)
PBT_LARGE(merge_max, 37, 375, 10)
PBT_LARGE(merge_min, 20, 200, 10)
PBT_LARGE(replace_max, 60, 600, 10)
PBT_LARGE(replace_min, 60, 600, 10)
PBT_LARGE(weak_elitism, 37, 375, 10)
PBT_LARGE(reduce_merge_reduce_max, 60, 600, 10)
PBT_LARGE(reduce_merge_reduce_min, 37, 375, 10)
PBT_LARGE(survive_and_die, 60, 600, 10)
