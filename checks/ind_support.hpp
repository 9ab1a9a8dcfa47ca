// Individuals that can be followed: an integer identity beside the fitness.
#pragma once
#include "eo_support.hpp"
#include <memory>
#include <map>
#include <set>
namespace sup {
struct Silence { std::streambuf *o, *e, *l; std::ostringstream sink; Silence() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())), l(std::clog.rdbuf(sink.rdbuf())) {} ~Silence() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); } };
template <class F> struct Ind : public EO<F> {
    int id = -1; Ind() {} Ind(int i, double f) : id(i) { this->fitness(F(f)); }
    void printOn(std::ostream& o) const { EO<F>::printOn(o); o << ' ' << id; } void readFrom(std::istream& i) { EO<F>::readFrom(i); i >> id; }
};
typedef Ind<double> Max; typedef Ind<eoMinimizingFitness> Min;
template <class I> double val(const I& i) { return (double)i.fitness(); }
template <class I> constexpr bool minimising() { return std::is_same<I, Min>::value; }
// a strictly better value
template <class I> bool better(double a, double b) { return minimising<I>() ? a < b : a > b; }
template <class I> eoPop<I> genPop(pbt::Gen& g, size_t n, int firstId = 0, bool distinct = false, bool nonneg = false) {
    eoPop<I> p; int style = distinct ? 3 : g.range(0, 3); std::vector<double> vals;
    for (size_t i = 0; i < n; ++i) { double v = style == 0 ? g.range(0, 2) : style == 1 ? 5 : style == 2 ? g.grid(4, 0.5) : g.range(0, 1000) / 8.0; if (nonneg) v = std::fabs(v); if (distinct) while (std::count(vals.begin(), vals.end(), v)) v += 0.125; vals.push_back(v); p.push_back(I(firstId + (int)i, v)); }
    return p;
}
template <class I> std::vector<int> ids(const std::vector<I>& p) { std::vector<int> r; for (auto& x : p) r.push_back(x.id); return r; }
template <class I> std::vector<double> vals(const std::vector<I>& p) { std::vector<double> r; for (auto& x : p) r.push_back(val(x)); return r; }
template <class I> std::vector<double> sortedVals(const std::vector<I>& p) { auto r = vals(p); std::sort(r.begin(), r.end(), [](double a, double b) { return better<I>(a, b); }); return r; } // best first
template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }
// every individual of `p` is an unchanged individual of `from`, none more often than there
template <class I> void checkSubset(const std::vector<I>& p, const std::vector<I>& from, const char* what) {
    std::map<int, std::pair<int, double>> left; for (auto& x : from) { left[x.id].first++; left[x.id].second = val(x); }
    for (auto& x : p) { CHECK(!x.invalid(), what << ": individual " << x.id << " has no fitness"); auto it = left.find(x.id); CHECK(it != left.end(), what << ": individual " << x.id << " comes from nowhere"); CHECK(it->second.second == val(x), what << ": individual " << x.id << " changed its fitness"); CHECK(it->second.first-- > 0, what << ": individual " << x.id << " appears too often"); }
}
} // namespace sup
