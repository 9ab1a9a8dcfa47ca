// Small choice-sequence property-based testing engine.
//
// A property is a function drawing every decision it needs from a Gen.  All
// draws of a case are recorded, so a failing case is the list of its draws:
// it can be replayed without the random source and shrunk by deleting and
// lowering draws.  Cases run in forked workers; a crash, a sanitizer report or
// a runaway case is a failure of the case being run, like a failed CHECK.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <limits>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

const unsigned MAXCHOICES = 1u << 16;

class Gen {
public:
    // random source
    Gen(uint64_t seed) : state_(seed), replay_(nullptr) {}
    // replayed source
    Gen(const std::vector<uint64_t>* r) : state_(0), replay_(r) {}

    // uniform in [0, maxv]
    uint64_t draw(uint64_t maxv);

    template <class T = int> T range(long long lo, long long hi) {
        if (hi <= lo) return (T)lo;
        return (T)(lo + (long long)draw((uint64_t)(hi - lo)));
    }
    // size in [lo,hi], boundary and small values favoured
    unsigned size(unsigned lo, unsigned hi) {
        if (hi <= lo) return lo;
        if (scale > 1) return lo + (unsigned)draw((uint64_t)(hi - lo) * scale);
        uint64_t k = draw(7);
        if (k <= 1) return lo + (unsigned)draw(std::min<unsigned>(2, hi - lo));
        if (k <= 4) return lo + (unsigned)draw(std::min<unsigned>(8, hi - lo));
        return lo + (unsigned)draw(hi - lo);
    }
    unsigned scale = 1; // factor on the upper limit of size(), see PBT_LARGE
    bool boolean() { return draw(1) == 1; }
    // true with probability n/d (draws 0 = false so that shrinking goes to false)
    bool chance(unsigned n, unsigned d) { return draw(d - 1) >= d - n; }
    // uniform real in [lo,hi], 2^30 steps
    double real(double lo, double hi) { return lo + (hi - lo) * ((double)draw(1u << 30) / (double)(1u << 30)); }
    // real on a small grid k*step, k in [-n,n], zero first when shrinking
    double grid(int n, double step = 1.0) {
        uint64_t k = draw(2 * (uint64_t)n);
        long long v = (k & 1) ? (long long)((k + 1) / 2) : -(long long)(k / 2);
        return (double)v * step;
    }
    template <class T> const T& oneof(const std::vector<T>& v) { return v[(size_t)draw(v.size() - 1)]; }
    template <class T> T oneof(std::initializer_list<T> v) { return *(v.begin() + (size_t)draw(v.size() - 1)); }
    std::vector<bool> mask(unsigned n) { std::vector<bool> m(n); for (unsigned i = 0; i < n; ++i) m[i] = boolean(); return m; }

    // bookkeeping
    void label(const std::string& l) { labels.insert(l); }
    template <class T> void label(const std::string& k, const T& v) { std::ostringstream o; o << k << "=" << v; labels.insert(o.str()); }
    void count(const std::string& l, uint64_t n = 1) { counts[l] += n; }
    void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
    bool isNontrivial() const { return nontrivial_; }
    template <class T> Gen& note(const T& t) { note_ << t << " "; return *this; }
    std::string noted() const { return note_.str(); }
    void discard() { throw Discard(); }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    uint64_t hash() const { return hash_; }

    std::set<std::string> labels;
    std::map<std::string, uint64_t> counts;

    // shared recording area, set by the engine
    uint64_t* rec = nullptr;
    volatile uint32_t* nrec = nullptr;
private:
    uint64_t next();
    uint64_t state_;
    const std::vector<uint64_t>* replay_;
    size_t pos_ = 0;
    bool nontrivial_ = false;
    uint64_t hash_ = 1469598103934665603ull;
    std::ostringstream note_;
};

typedef std::function<void(Gen&)> PropFn;

struct Sub {
    std::string name;
    long quick, thorough;
    PropFn fn;
};
std::vector<Sub>& subs();
struct Reg { Reg(const char* n, long q, long t, PropFn f) { subs().push_back(Sub{n, q, t, f}); } };
// called before every case, with the case's generator (e.g. to seed the library's RNG)
extern void (*beforeCase)(Gen&);

template <class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
template <class T> std::string strv(const std::vector<T>& v) {
    std::ostringstream o; o.precision(17); o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
    o << "]"; return o.str();
}
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(name, quick cases, thorough cases) { ... uses Gen& g ... }
#define PBT(name, q, t) \
    static void name(pbt::Gen& g); \
    static pbt::Reg PBT_CAT(reg_, name)(#name, q, t, name); \
    static void name(pbt::Gen& g)

// the same property again, with sizes up to factor times larger
#define PBT_LARGE(name, q, t, factor) \
    static void PBT_CAT(name, _large)(pbt::Gen& g) { g.scale = factor; name(g); } \
    static pbt::Reg PBT_CAT(reg_large_, name)(#name "_large", q, t, PBT_CAT(name, _large));

#define CHECK(cond, msg) \
    do { if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << #cond << " failed (line " << __LINE__ << "): " << msg; throw pbt::Failure{o_.str()}; } } while (0)
#define CHECK_NEAR(a, b, msg) \
    do { double a_ = (a), b_ = (b); if (!pbt::near(a_, b_)) { std::ostringstream o_; o_.precision(17); o_ << #a << " == " << #b << " failed (line " << __LINE__ << "): " << a_ << " vs " << b_ << ": " << msg; throw pbt::Failure{o_.str()}; } } while (0)
