// Command line and parameter files.
#include "ind_support.hpp"
#include <utils/eoParser.h>
#include <utils/eoHowMany.h>
#include <utils/eoRealVectorBounds.h>
#include <unistd.h>
#include <filesystem>
#include <atomic>
using namespace sup;
struct Scratch {
    std::filesystem::path dir;
    Scratch() { static std::atomic<int> n{0}; dir = std::filesystem::temp_directory_path() / ("verif-e16-" + std::to_string(getpid()) + "-" + std::to_string(n++)); std::filesystem::create_directory(dir); }
    ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
    std::string operator()(const std::string& f) const { return (dir / f).string(); }
};
struct Argv { std::vector<std::string> a; std::vector<char*> p; Argv(std::vector<std::string> v) : a(std::move(v)) { for (auto& s : a) p.push_back(&s[0]); p.push_back(nullptr); } unsigned argc() { return a.size(); } char** argv() { return p.data(); } };

enum Type { INT, UNS, DBL, STR, BOOL, CHR, TYPES };
struct Decl { Type t; std::string name; char s; bool required; std::string section; std::string dflt; eoParam* p = nullptr; };
static std::string genValue(pbt::Gen& g, Type t) {
    switch (t) { case INT: return std::to_string(g.range(-999, 999)); case UNS: return std::to_string(g.range(0, 9999)); case DBL: return pbt::str(g.grid(300, 0.125)); case BOOL: return g.boolean() ? "1" : "0"; case CHR: return std::string(1, 'a' + g.range(0, 25));
        default: { std::string s = g.oneof<std::string>({"word", "a=b", "x--y", "p/q.txt", "DetTour(2)", "1", "-z", "--w=3"}); return g.boolean() ? s : s + std::to_string(g.range(0, 99)); } }
}
static eoParam* declare(eoParser& p, const Decl& d) {
    std::istringstream i(d.dflt); switch (d.t) { case INT: { int v; i >> v; return &p.createParam(v, d.name, "desc of " + d.name, d.s, d.section, d.required); } case UNS: { unsigned v; i >> v; return &p.createParam(v, d.name, "desc of " + d.name, d.s, d.section, d.required); } case DBL: { double v; i >> v; return &p.createParam(v, d.name, "desc of " + d.name, d.s, d.section, d.required); } case BOOL: { bool v; i >> v; return &p.createParam(v, d.name, "desc of " + d.name, d.s, d.section, d.required); } case CHR: { char v; i >> v; return &p.createParam(v, d.name, "desc of " + d.name, d.s, d.section, d.required); } default: return &p.createParam(d.dflt, d.name, "desc of " + d.name, d.s, d.section, d.required); }
}
static std::string valueOf(eoParser& p, const Decl& d) { std::ostringstream o; switch (d.t) { case INT: o << p.valueOf<int>(d.name); break; case UNS: o << p.valueOf<unsigned>(d.name); break; case DBL: o << p.valueOf<double>(d.name); break; case BOOL: o << p.valueOf<bool>(d.name); break; case CHR: o << p.valueOf<char>(d.name); break; default: o << p.valueOf<std::string>(d.name); } return o.str(); }

PBT(values, 4000, 30000) {
    Silence quiet; Scratch dir; std::vector<Decl> ds; size_t n = g.size(1, 6);
    for (size_t k = 0; k < n; ++k) { Decl d; d.t = (Type)g.range(0, TYPES - 1); d.name = "p" + std::to_string(k) + (g.chance(1, 3) ? "-long_name" : ""); d.s = g.boolean() ? 'A' + k : 0; d.required = g.chance(1, 6); d.section = g.oneof<std::string>({"", "Zeta", "Alpha"}); d.dflt = genValue(g, d.t); ds.push_back(d); }
    // which source gives each parameter, and in which form
    std::vector<std::string> args{"prog"}, lines; std::vector<std::string> want(n); std::vector<bool> given(n, false); bool useFile = g.boolean();
    std::vector<std::pair<int, std::string>> cmd; std::vector<bool> cmdLong(n, false), cmdAny(n, false);
    for (size_t k = 0; k < n; ++k) { want[k] = ds[k].dflt; for (unsigned times = g.oneof<unsigned>({0, 1, 1, 2}); times; --times) { std::string v = genValue(g, ds[k].t); bool lng = cmdAny[k] ? cmdLong[k] : (!ds[k].s || g.boolean()); cmdAny[k] = true; cmdLong[k] = lng; std::string text; if (lng) text = "--" + ds[k].name + "=" + v; else text = std::string("-") + ds[k].s + (g.boolean() && v[0] != '=' ? "" : "=") + v; if (ds[k].t == BOOL && v == "1" && g.boolean()) text = lng ? "--" + ds[k].name : std::string("-") + ds[k].s; args.push_back(text); given[k] = true; want[k] = v; } }
    if (useFile) { for (size_t k = 0; k < n; ++k) if (g.boolean()) { std::string v = genValue(g, ds[k].t); // a short name in the file would win over a long one on the command line: see the known finding
                bool lng = !ds[k].s || cmdLong[k] || g.boolean(); std::string line = lng ? "--" + ds[k].name + "=" + v : std::string("-") + ds[k].s + "=" + v; if (g.boolean()) line += "   # --" + ds[k].name + "=nonsense"; if (g.chance(1, 4)) line = "  " + line; lines.push_back(line); if (!cmdAny[k]) want[k] = v; given[k] = true; } if (g.boolean()) lines.push_back("# --" + ds[0].name + "=commented"); if (g.boolean()) lines.push_back(""); if (g.boolean()) { lines.insert(lines.begin(), "\\section{Parser}"); lines.insert(lines.begin(), "\\section{other}\n--" + ds[0].name + "=5"); } std::ofstream f(dir("params")); for (auto& l : lines) f << l << "\n"; f.close(); args.insert(args.begin() + 1 + g.draw(args.size() - 1), "@" + dir("params")); }
    bool unknown = g.chance(1, 6); if (unknown) args.push_back(g.oneof<std::string>({"--nobody=3", "-~", "--nobody"})); bool tolerant = g.chance(1, 4); if (tolerant) args.push_back("--stopOnUnknownParam=0");
    for (auto& a : args) g.note(a);
    if (useFile && lines.empty()) { std::ofstream f(dir("params")); f << "# nothing\n"; }
    Argv av(args); eoParser p(av.argc(), av.argv(), "a program"); bool missing = false;
    for (size_t k = 0; k < n; ++k) { ds[k].p = declare(p, ds[k]); if (ds[k].required && !given[k]) missing = true; }
    for (size_t k = 0; k < n; ++k) { std::string got = valueOf(p, ds[k]); CHECK(got == want[k], "parameter " << ds[k].name << " is '" << got << "', expected '" << want[k] << "'"); CHECK(p.isItThere(*ds[k].p) == given[k] && p.isItThere(ds[k].name) == given[k], "parameter " << ds[k].name << (given[k] ? " reported absent" : " reported present")); CHECK(p.getParamWithLongName(ds[k].name) == ds[k].p && p.getParam(ds[k].name) == ds[k].p, "handle by name"); CHECK(p.get(ds[k].name) == want[k], "text of " << ds[k].name << ": " << p.get(ds[k].name)); CHECK(ds[k].p->defValue() == ds[k].dflt, "default text of " << ds[k].name); }
    bool help = p.userNeedsHelp(); CHECK(help == (missing || (unknown && !tolerant)), "help " << (help ? "asked" : "not asked") << (missing ? ", a required parameter is missing" : "") << (unknown ? ", an unknown parameter was given" : ""));
    if (!missing && !unknown) { // written down and read by another parser
        { std::ofstream f(dir("written")); f << p; } Argv bv({"prog", "@" + dir("written")}); eoParser q(bv.argc(), bv.argv()); for (auto& d : ds) declare(q, d); for (size_t k = 0; k < n; ++k) CHECK(valueOf(q, ds[k]) == want[k], "parameter " << ds[k].name << " is '" << valueOf(q, ds[k]) << "' when read from the written file, expected '" << want[k] << "'");
        // and by one where the parameters are declared before reading, with other defaults
        Argv none({"prog"}); eoParser r(none.argc(), none.argv()); for (size_t k = 0; k < n; ++k) { Decl d = ds[k]; d.dflt = genValue(g, d.t); d.required = false; std::string dd = d.dflt; declare(r, d); ds[k].section = dd; } std::ifstream f(dir("written")); r.readFrom(f); for (size_t k = 0; k < n; ++k) CHECK(valueOf(r, ds[k]) == (given[k] ? want[k] : ds[k].section), "parameter " << ds[k].name << " is '" << valueOf(r, ds[k]) << "' after reading a file later"); }
    std::ostringstream h; Argv hv({"prog", g.boolean() ? "-h" : "--help"}); eoParser ph(hv.argc(), hv.argv(), "what it does"); for (auto& d : ds) { d.required = false; declare(ph, d); } CHECK(ph.userNeedsHelp(), "help not given"); ph.printHelp(h); for (auto& d : ds) CHECK(h.str().find("--" + d.name + " ") != std::string::npos && h.str().find("desc of " + d.name) != std::string::npos && h.str().find("default: " + d.dflt + ")") != std::string::npos, "help does not describe " << d.name);
    g.nontrivial(args.size() > 2);
}

PBT(lookups, 600, 4000) {
    Silence quiet; int v = g.range(-9, 9), d = g.range(-9, 9); bool gave = g.boolean(); std::vector<std::string> a{"prog"}; if (gave) a.push_back("--num=" + std::to_string(v)); bool pre = g.boolean(); if (pre) a.push_back("--sub-num=77"); Argv av(a); eoParser p(av.argc(), av.argv()); int want = gave ? v : d;
    eoValueParam<int>& x = p.getORcreateParam(d, "num", "number", 'n'); CHECK(x.value() == want, "created " << x.value()); eoValueParam<int>& y = p.getORcreateParam(d + 1, "num", "number", 'n'); CHECK(&x == &y && y.value() == want, "a second request gives another parameter"); CHECK(&p.getValueParam<int>("num") == &x, "getValueParam");
    bool t = false; try { p.valueOf<double>("num"); } catch (eoWrongParamTypeException&) { t = true; } CHECK(t, "wrong type accepted"); t = false; try { p.valueOf<int>("absent"); } catch (eoMissingParamException&) { t = true; } CHECK(t, "absent parameter accepted"); CHECK(p.getParamWithLongName("absent") == nullptr, "absent parameter found"); t = false; try { p.getValueParam<int>("absent"); } catch (eoMissingParamException&) { t = true; } CHECK(t, "absent parameter returned");
    p.setPrefix("sub-"); int sd = 5; eoValueParam<int>& z = p.createParam(sd, "num", "other", 0, "S"); CHECK(z.longName() == "sub-num" && z.value() == (pre ? 77 : 5), "prefixed parameter " << z.longName() << " is " << z.value()); CHECK(&p.getValueParam<int>("num") == &z, "prefixed look-up"); p.resetPrefix(); CHECK(&p.getValueParam<int>("num") == &x && &p.getValueParam<int>("sub-num") == &z, "look-up after the prefix"); CHECK(!p.userNeedsHelp(), "help asked"); g.nontrivial(true);
}

PBT(structured_values, 1500, 10000) {
    // name(arguments): any number of arguments, blanks allowed when given directly, a missing parenthesis tolerated
    std::string name = g.oneof<std::string>({"DetTour", "Roulette", "X"}); std::vector<std::string> args; for (size_t k = g.size(0, 3); k--;) args.push_back(g.oneof<std::string>({"2", "0.75", "ordered", "-1", "50%"})); bool closed = g.chance(4, 5), blanks = g.boolean(); std::string t = name; if (!args.empty()) { t += "("; for (size_t k = 0; k < args.size(); ++k) t += (k ? std::string(",") : std::string()) + (blanks && k ? " " : "") + args[k]; if (closed) t += ")"; }
    g.note(t); eoParamParamType pp(t); CHECK(pp.first == name, "'" << t << "' has name '" << pp.first << "'"); CHECK(pp.second == args, "'" << t << "' has arguments " << pbt::strv(pp.second)); std::ostringstream o; o << pp; std::string back = o.str(); eoParamParamType qq(std::string("Other(1)")); std::istringstream in(back); in >> qq; CHECK(qq.first == name && qq.second == args, "printed as '" << back << "' and read as another value");
    if (!blanks) { Argv av({"prog", "--sel=" + t}); eoParser p(av.argc(), av.argv()); eoValueParam<eoParamParamType>& v = p.createParam(eoParamParamType("Default(9,9)"), "sel", "selector"); CHECK(v.value().first == name && v.value().second == args, "on the command line"); }
    // other structured types
    std::vector<double> w; std::string wt; for (size_t k = g.size(1, 4); k--;) { w.push_back(g.grid(40, 0.25)); wt += "," + pbt::str(w.back()); } wt = std::to_string(w.size()) + wt; Argv bv({"prog", "--vec=" + wt, "--many=" + std::to_string(g.range(1, 4) * 25) + "%", "--bounds=2[-1,1];[0,+inf]"}); eoParser q(bv.argc(), bv.argv()); CHECK(q.createParam(std::vector<double>(2, 1.0), "vec", "numbers").value() == w, "'" << wt << "' is read as '" << q.get("vec") << "'"); eoHowMany h = q.createParam(eoHowMany(0.1), "many", "how many").value(); CHECK(pbt::str(100.0 * h(1000) / 1000) + "%" == bv.a[2].substr(7), "rate"); eoRealVectorBounds& b = q.createParam(eoRealVectorBounds(1, 0, 9), "bounds", "bounds").value(); CHECK(b.size() == 3 && b.minimum(0) == -1 && b.maximum(1) == 1 && b.minimum(2) == 0 && !b.isMaxBounded(2), "bounds on the command line"); g.nontrivial(args.size() > 1);
}
