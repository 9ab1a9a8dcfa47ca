// Saving and loading the state of a run.
#include "loop_support.hpp"
#include <utils/eoState.h>
#include <utils/eoUpdater.h>
#include <utils/eoParser.h>
#include <eoGenContinue.h>
#include <eoInt.h>
#include <es/eoReal.h>
#include <ga/eoBit.h>
#include <unistd.h>
#include <filesystem>
#include <atomic>
using namespace sup;
typedef eoBit<double> B; typedef eoReal<eoMinimizingFitness> R; typedef eoInt<double> N;
struct Scratch {
    std::filesystem::path dir;
    Scratch() { static std::atomic<int> n{0}; dir = std::filesystem::temp_directory_path() / ("verif-e14-" + std::to_string(getpid()) + "-" + std::to_string(n++)); std::filesystem::create_directory(dir); }
    ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
    std::string operator()(const std::string& f) const { return (dir / f).string(); }
};
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// an object without a class name
struct Plain : eoPersistent { int v = 0; void printOn(std::ostream& o) const override { o << v; } void readFrom(std::istream& i) override { i >> v; } };
// an object whose text spans several lines and holds a comment
struct Lines : eoObject, eoPersistent { std::vector<int> v; std::string className() const override { return "Lines"; } void printOn(std::ostream& o) const override { for (int x : v) o << x << " # a remark 99\n\n"; o << "end"; } void readFrom(std::istream& i) override { v.clear(); int x; while (i >> x) v.push_back(x); } };

template <class I> static void fillInd(pbt::Gen& g, I& i, double step) { if (g.chance(3, 4)) i.fitness(g.grid(40, step) - 3); else i.invalidate(); }
static B bits(pbt::Gen& g) { B b(g.size(0, 6)); for (size_t k = 0; k < b.size(); ++k) b[k] = g.boolean(); fillInd(g, b, 0.25); return b; }
static R reals(pbt::Gen& g, double step) { R r(g.size(0, 4)); for (auto& x : r) x = g.grid(60, step) - 5; fillInd(g, r, step); return r; }
static N ints(pbt::Gen& g) { N r(g.size(0, 4)); for (auto& x : r) x = g.range(-999, 999); fillInd(g, r, 0.5); return r; }
template <class I> static bool same(const I& a, const I& b) { if (a.size() != b.size() || a.invalid() != b.invalid()) return false; for (size_t k = 0; k < a.size(); ++k) if (a[k] != b[k]) return false; return a.invalid() || (double)a.fitness() == (double)b.fitness(); }
template <class I> static bool same(const eoPop<I>& a, const eoPop<I>& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (!same(a[k], b[k])) return false; return true; }

struct World {
    eoPop<B> pb, pb2; eoPop<R> pr; R one; N i1, i2; eoRng rng; eoGenContinue<B> gen; Plain plain, plain2; Lines lines;
    World() : one(0), rng(5), gen(1000000) {}
    eoPersistent* at(int k) { eoPersistent* a[] = {&pb, &pb2, &pr, &one, &i1, &i2, &rng, &gen, &plain, &plain2, &lines}; return a[k]; }
    enum { COUNT = 11 };
};
// objects without a class name (family 5) are named after their position
static const int family[World::COUNT] = {0, 0, 0, 1, 2, 2, 3, 5, 5, 5, 6};
static const char* const names[World::COUNT] = {"population", "second population", "real population", "real vector", "integer vector", "second integer vector", "random generator", "generation counter", "unnamed object", "second unnamed object", "multi-line object"};
static void fillWorld(pbt::Gen& g, World& w, double step) {
    for (size_t n = g.size(0, 4); n--;) w.pb.push_back(bits(g)); for (size_t n = g.size(0, 3); n--;) w.pb2.push_back(bits(g)); for (size_t n = g.size(0, 3); n--;) w.pr.push_back(reals(g, step));
    w.one = reals(g, step); w.i1 = ints(g); w.i2 = ints(g); w.rng.reseed(g.range(0, 100000)); unsigned k = g.oneof<unsigned>({0, 1, 3, 622, 623, 624, 625, 1300}); while (k--) w.rng.rand(); if (g.boolean()) w.rng.normal(); eoPop<B> none; for (unsigned m = g.range(0, 5); m--;) w.gen(none);
    w.plain.v = g.range(-99, 99); w.plain2.v = g.range(-99, 99); w.lines.v.clear(); for (size_t n = g.size(0, 3); n--;) w.lines.v.push_back(g.range(-9, 9));
}
static unsigned long genOf(World& w) { std::ostringstream o; w.gen.printOn(o); return std::stoul(o.str()); }
static void numbers(eoRng& r, std::vector<double>& v) { for (int i = 0; i < 5; ++i) { v.push_back(r.normal()); v.push_back(r.rand()); v.push_back(r.uniform()); } for (int i = 0; i < 700; ++i) v.push_back(r.rand()); }
static bool equal(int k, World& a, World& b) {
    switch (k) { case 0: return same(a.pb, b.pb); case 1: return same(a.pb2, b.pb2); case 2: return same(a.pr, b.pr); case 3: return same(a.one, b.one); case 4: return same(a.i1, b.i1); case 5: return same(a.i2, b.i2);
        case 6: { std::vector<double> x, y; numbers(a.rng, x); numbers(b.rng, y); return x == y; }
        case 7: return genOf(a) == genOf(b); case 8: return a.plain.v == b.plain.v; case 9: return a.plain2.v == b.plain2.v; default: return a.lines.v == b.lines.v; }
}

PBT(save_load, 1500, 12000) {
    Silence quiet; bool exact = g.boolean(); double step = exact ? 1.0 / 3 : 0.25; World a, b; fillWorld(g, a, step); fillWorld(g, b, 0.25);
    // which objects are registered where; objects sharing a class name keep their relative order
    std::vector<int> who; for (int k = 0; k < World::COUNT; ++k) if (g.boolean()) who.push_back(k); if (who.empty()) who.push_back(g.range(0, World::COUNT - 1)); bool shuffled = g.boolean() && !std::count_if(who.begin(), who.end(), [](int k) { return family[k] == 5; });
    std::vector<int> other = who; if (shuffled) { for (size_t i = other.size(); i > 1; --i) std::swap(other[i - 1], other[g.draw(i - 1)]); for (int f = 0; f < 7; ++f) { std::vector<int> in; for (int k : who) if (family[k] == f) in.push_back(k); size_t n = 0; for (int& k : other) if (family[k] == f) k = in[n++]; } }
    eoState sa, sb; for (int k : who) sa.registerObject(*a.at(k)); for (int k : other) sb.registerObject(*b.at(k));
    if (g.chance(1, 4)) sa.formatLatex("run"); Scratch dir; bool file = g.chance(1, 3) && !exact; std::string text;
    if (file) { sa.save(dir("s.sav")); text = slurp(dir("s.sav")); sb.load(dir("s.sav")); } else { std::stringstream ss; if (exact) ss.precision(17); sa.save(ss); text = ss.str(); sb.load(ss); }
    g.note("text:\n" + (text.size() < 2000 ? text : std::string("(long)")));
    { std::ostringstream again; if (exact) again.precision(17); sb.save(again); if (!shuffled && text.compare(0, 3, "run") != 0) CHECK(again.str() == text, "saved again, the state reads '" << again.str().substr(0, 300) << "'"); }
    for (int k : who) CHECK(equal(k, a, b), "the " << names[k] << " was not restored");
    g.nontrivial(who.size() > 2);
}

PBT(partial_load, 800, 6000) {
    // objects of one state absent from the file and sections of the file nobody claims
    Silence quiet; World a, b, keep; fillWorld(g, a, 0.25); std::vector<int> fam; for (int f = 0; f < 7; ++f) fam.push_back(g.range(0, 2)); fam[5] = 2; // 0: only saved, 1: only registered, 2: both
    bool any = false; for (int f : fam) any = any || f != 1; if (!any) fam[0] = 0;
    unsigned seed = g.range(0, 1000); b.rng.reseed(seed); keep.rng.reseed(seed); b.plain.v = keep.plain.v = 7; b.one = keep.one = reals(g, 0.25); b.i1 = keep.i1 = ints(g); b.lines.v = keep.lines.v = {4}; b.pb.push_back(bits(g)); keep.pb = b.pb;
    eoState sa, sb; for (int k = 0; k < World::COUNT; ++k) { if (fam[family[k]] != 1) sa.registerObject(*a.at(k)); if (fam[family[k]] != 0) sb.registerObject(*b.at(k)); }
    std::stringstream ss; sa.save(ss); sb.load(ss);
    for (int k = 0; k < World::COUNT; ++k) { int w = fam[family[k]]; if (w == 2 && family[k] != 5) CHECK(equal(k, a, b), "the " << names[k] << " was not restored"); else if (w != 2) CHECK(equal(k, keep, b), "the " << names[k] << " changed although it was " << (w == 0 ? "not registered" : "not in the file")); }
    g.nontrivial(true);
}

PBT(generator_resumes, 1500, 12000) {
    // text of a generator taken anywhere in its sequence, loaded over another one
    eoRng a(g.range(0, 1000000)), b(g.range(0, 100)), c(1); unsigned n = g.boolean() ? g.range(0, 1300) : g.range(610, 640); for (unsigned i = 0; i < n; ++i) a.rand(); unsigned m = g.range(0, 3); for (unsigned i = 0; i < m; ++i) a.normal(); if (g.boolean()) b.normal();
    std::stringstream s; if (g.boolean()) s.precision(g.range(3, 20)); s << a; std::vector<double> va, vb, vc; s >> b; CHECK(!s.fail(), "reading failed"); std::stringstream t; t << b; t >> c; numbers(a, va); numbers(b, vb); numbers(c, vc); CHECK(va == vb, "the generator does not continue its sequence after being read back (" << n << " numbers drawn, " << m << " normal deviates)"); CHECK(va == vc, "nor after two trips"); g.nontrivial(n > 0);
}

PBT(bad_files, 200, 1000) {
    Silence quiet; eoState s; Plain p; s.registerObject(p); p.v = 3; bool thrown = false; Scratch dir; try { s.load(dir("absent")); } catch (std::exception&) { thrown = true; } CHECK(thrown, "a missing file was loaded"); CHECK(p.v == 3, "and changed an object");
    thrown = false; std::istringstream empty(""); try { s.load(empty); } catch (std::exception&) { thrown = true; } CHECK(thrown, "an empty file was loaded");
    // text before the first section, blank lines and comments do not matter
    int v = g.range(-50, 50); std::ostringstream o; for (unsigned k = g.range(0, 3); k--;) o << "some words\n\n"; o << "\\section{nobody}\n4\n\\section{0}\n"; if (g.boolean()) o << "# comment\n"; o << v << (g.boolean() ? " # more\n" : "\n"); if (g.boolean()) o << "\\section{other}\n5 6\n"; std::istringstream in(o.str()); s.load(in); CHECK(p.v == v, "read " << p.v << " from '" << o.str() << "'"); g.nontrivial(true);
}

PBT(counted_saver, 150, 800) {
    Silence quiet; Scratch dir; eoState s; Plain p; s.registerObject(p); unsigned every = g.range(1, 4), start = g.range(0, 3), calls = g.range(0, 9); bool last = g.boolean(), viaBool = g.boolean();
    std::unique_ptr<eoCountedStateSaver> sv(viaBool ? new eoCountedStateSaver(every, s, dir("st"), last, "x", start) : new eoCountedStateSaver(every, s, dir("st"), "x", start)); if (!viaBool) last = true; std::map<unsigned, int> want;
    for (unsigned k = 1; k <= calls; ++k) { p.v = g.range(0, 99); (*sv)(); if ((start + k) % every == 0) want[start + k] = p.v; } if (g.boolean()) { p.v = 100; sv->lastCall(); if (last) want[start + calls] = 100; }
    std::set<std::string> files; for (auto& e : std::filesystem::directory_iterator(dir.dir)) files.insert(e.path().filename().string()); CHECK(files.size() == want.size(), files.size() << " files for " << want.size() << " savings");
    for (auto& w : want) { std::string f = "st" + std::to_string(w.first) + ".x"; CHECK(files.count(f), f << " is missing"); eoState r; Plain q; r.registerObject(q); r.load(dir(f)); CHECK(q.v == w.second, f << " holds " << q.v << " expected " << w.second); } g.nontrivial(want.size() > 1);
}

PBT(parser_section, 300, 2000) {
    // parameters given on the command line are saved with the run and read back from the file
    Silence quiet; int v = g.range(-99, 99); double d = g.grid(80, 0.125); std::string word = "w" + std::to_string(g.range(0, 99)); bool flag = g.boolean(), others = g.boolean(); std::vector<std::string> args{"prog", "--vi=" + std::to_string(v), "--vd=" + pbt::str(d), "--vs=" + word, std::string("--vb=") + (flag ? "1" : "0")}; std::vector<char*> av; for (auto& a : args) av.push_back(&a[0]); char* none[] = {av[0]};
    eoParser p(av.size(), av.data()), q(1, none); auto reg = [](eoParser& x) { x.createParam(1, "vi", "an integer", 'i', "first"); x.createParam(0.5, "vd", "a number", 'd', "second"); x.createParam(std::string("dflt"), "vs", "a word"); x.createParam(true, "vb", "a flag"); x.createParam(77, "unset", "left alone"); }; reg(p); reg(q); q.getValueParam<int>("unset").value() = 5;
    eoState sp, sq; eoPop<B> pop, pop2; for (unsigned n = g.range(1, 3); n--;) pop.push_back(bits(g)); if (others) { sp.registerObject(pop); sq.registerObject(pop2); } sp.registerObject(p); sq.registerObject(q); std::stringstream ss; sp.save(ss);
    std::string text = ss.str(); sq.load(ss); CHECK(q.valueOf<int>("vi") == v && q.valueOf<double>("vd") == d && q.valueOf<std::string>("vs") == word && q.valueOf<bool>("vb") == flag, "parameters not restored from " << text); CHECK(q.valueOf<int>("unset") == 5, "a parameter never given changed"); if (others) CHECK(same(pop, pop2), "population beside the parser");
    // the parser alone also reads the whole file, taking its own section only
    eoParser r(1, none); reg(r); std::istringstream whole(text); r.readFrom(whole); CHECK(r.valueOf<int>("vi") == v && r.valueOf<std::string>("vs") == word, "parameters not read from the saved state"); g.nontrivial(true);
}

// the same with larger sizes
PBT_LARGE(save_load, 37, 375, 10)
PBT_LARGE(partial_load, 20, 200, 10)
PBT_LARGE(generator_resumes, 37, 375, 10)
PBT_LARGE(bad_files, 10, 100, 10)
PBT_LARGE(counted_saver, 10, 100, 10)
PBT_LARGE(parser_section, 10, 100, 10)
