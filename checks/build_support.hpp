// Command lines for the builders of eo/src/do, eo/src/ga and eo/src/es.
#pragma once
#include "loop_support.hpp"
#include <do/make_pop.h>
#include <do/make_continue.h>
#include <do/make_algo_scalar.h>
#include <do/make_general_replacement.h>
#include <memory>
namespace bld {
// arguments of a program, in an order drawn at random
struct Args {
    std::vector<std::string> words;
    template <class T> void set(const std::string& name, const T& value) { std::ostringstream o; o.precision(17); o << "--" << name << "=" << value; words.push_back(o.str()); }
    std::unique_ptr<eoParser> parser(pbt::Gen& g) const {
        std::vector<std::string> w = words; for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[g.draw(i - 1)]);
        static char prog[] = "prog"; std::vector<char*> v{prog}; for (auto& s : w) v.push_back(const_cast<char*>(s.c_str()));
        return std::make_unique<eoParser>((unsigned)v.size(), v.data());
    }
    std::string text() const { std::string s; for (auto& w : words) s += " " + w; return s; }
};
// gives the value on the command line, or leaves the default in force
inline double rate(pbt::Gen& g, Args& a, const std::string& name, double dflt, std::initializer_list<double> values) { if (g.chance(1, 3)) return dflt; double v = *(values.begin() + g.draw(values.size() - 1)); a.set(name, v); return v; }
inline void seed(uint32_t s) { eo::rng.reseed(s); eo::rng.clearCache(); }
// a call that may throw: empty text when it did not
template <class F> std::string thrown(F f) { try { f(); return ""; } catch (pbt::Failure&) { throw; } catch (std::exception& e) { return std::string("exception: ") + e.what(); } }
template <class I> struct Hand { eoFunctorStore store; template <class F> F& keep(F* f) { store.storeFunctor(f); return *f; } };
} // namespace bld
