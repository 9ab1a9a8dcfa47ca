// Bit strings and instrumented components to watch an evolution loop from the inside.
#pragma once
#include "ind_support.hpp"
#include <ga.h>
namespace sup {
// value of a genotype: an arbitrary but fixed function with ties
template <class I> double truth(const I& x) { double s = 0; for (size_t k = 0; k < x.size(); ++k) if (x[k]) s += (k % 3 == 0) ? 2 : (k % 3 == 1 ? -1 : 0.5); return s; }
template <class I> double fit(const I& x) { return (double)x.fitness(); }
template <class I> constexpr bool minBits() { return !std::is_same<typename I::Fitness, double>::value; }
template <class I> bool betterFit(double a, double b) { return minBits<I>() ? a < b : a > b; }
template <class I> double bestFit(const eoPop<I>& p) { double b = fit(p[0]); for (auto& x : p) if (betterFit<I>(fit(x), b)) b = fit(x); return b; }
// fully evaluated, with the right values
template <class I> void checkEvaluated(const eoPop<I>& p, const char* where) {
    for (size_t i = 0; i < p.size(); ++i) { CHECK(!p[i].invalid(), where << ": individual " << i << " of " << p.size() << " is not evaluated"); CHECK(fit(p[i]) == truth(p[i]), where << ": individual " << i << " has fitness " << fit(p[i]) << " but its genotype is worth " << truth(p[i])); }
}
template <class I> struct BitEval : eoEvalFunc<I> {
    unsigned long done = 0, skipped = 0;
    void operator()(I& x) override { if (!x.invalid()) { ++skipped; return; } ++done; x.fitness(truth(x)); }
};
template <class I> eoPop<I> bitPop(pbt::Gen& g, size_t n, size_t len, bool evaluated) {
    eoPop<I> p; for (size_t i = 0; i < n; ++i) { I x(len); for (size_t k = 0; k < len; ++k) x[k] = g.boolean(); if (evaluated) x.fitness(truth(x)); else x.invalidate(); p.push_back(x); } return p;
}
template <class I> struct CountMut : eoMonOp<I> {
    unsigned long calls = 0; std::string className() const override { return "CountMut"; }
    bool operator()(I& x) override { ++calls; if (x.empty()) return false; unsigned k = eo::rng.random(x.size() + 1); if (k == x.size()) return false; x[k] = !x[k]; return true; }
};
template <class I> struct CountCross : eoQuadOp<I> {
    unsigned long calls = 0; std::string className() const override { return "CountCross"; }
    bool operator()(I& a, I& b) override { ++calls; if (a == b || a.empty()) return false; unsigned k = eo::rng.random(a.size()); bool t = a[k]; bool ch = a[k] != b[k]; a[k] = b[k]; b[k] = t; return ch; }
};
// continuator that looks at every generation and stops after a given number
template <class I> struct Watch : eoContinue<I> {
    size_t size; unsigned long stop, calls = 0; eoPop<I> last; bool elitist; double best = 0; bool known = false; std::function<void(const eoPop<I>&)> also;
    Watch(size_t n, unsigned long s, bool e) : size(n), stop(s), elitist(e) {}
    bool operator()(const eoPop<I>& p) override {
        ++calls; CHECK(calls <= stop, "the loop went on after its continuator said stop");
        CHECK(p.size() == size, "the continuator sees " << p.size() << " individuals instead of " << size);
        checkEvaluated(p, "continuator");
        if (!p.empty()) { double b = bestFit(p); if (known && elitist) CHECK(!betterFit<I>(best, b), "best fitness went from " << best << " to " << b << " under an elitist replacement"); best = b; known = true; }
        if (also) also(p);
        last = p; return calls < stop;
    }
};
template <class I> bool samePop(const eoPop<I>& a, const eoPop<I>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!std::equal(a[i].begin(), a[i].end(), b[i].begin(), b[i].end()) || a[i].invalid() != b[i].invalid() || (!a[i].invalid() && fit(a[i]) != fit(b[i]))) return false; return true; }
template <class I> double bestOf(const eoPop<I>& p) { return bestFit(p); }
} // namespace sup
