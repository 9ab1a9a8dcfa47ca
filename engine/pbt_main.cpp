#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
void (*beforeCase)(Gen&) = nullptr;

static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t Gen::next() { state_ += 0x9e3779b97f4a7c15ull; return mix(state_); }
uint64_t Gen::draw(uint64_t maxv) {
    uint64_t v;
    if (maxv == 0) v = 0;
    else if (replay_) {
        v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
        ++pos_;
        if (v > maxv) v = maxv;
    } else if (maxv == ~0ull) v = next();
    else v = (uint64_t)(((unsigned __int128)next() * (maxv + 1)) >> 64);
    if (maxv == 0) return 0;
    hash_ = (hash_ ^ v) * 1099511628211ull; hash_ ^= hash_ >> 29;
    if (rec && *nrec < MAXCHOICES) { rec[*nrec] = v; *nrec = *nrec + 1; }
    return v;
}
} // namespace pbt

using namespace pbt;

namespace {

struct Slot {
    volatile uint32_t running;     // 1 while a case is running
    volatile uint32_t sub;
    volatile uint64_t idx;
    volatile uint64_t done;        // cases completed by this worker
    volatile uint32_t failed;      // 1: CHECK failure recorded
    volatile uint32_t finished;
    volatile uint32_t n;
    char msg[4096];
    uint64_t rec[MAXCHOICES];
};
struct Shared { volatile uint32_t stop; };

Shared* shared;
Slot* slots;
std::string scratch;
uint64_t seed = 1;
long scale100 = 100;
bool verbose = false;
double cpuLimit = 25, wallLimit = 150;
unsigned schedules = 0; // how often a failing case that depends on the schedule is tried again

void setmsg(Slot& s, const std::string& m) {
    size_t n = std::min(m.size(), sizeof(s.msg) - 1);
    memcpy(s.msg, m.data(), n); s.msg[n] = 0;
}

// runs one case; returns 0 ok, 1 failed, 2 discarded
int runCase(Slot& s, unsigned sub, Gen& g) {
    s.sub = sub; s.n = 0; s.failed = 0; s.msg[0] = 0;
    g.rec = s.rec; g.nrec = &s.n;
    s.running = 1;
    int r = 0;
    try {
        if (beforeCase) beforeCase(g);
        subs()[sub].fn(g);
    } catch (Discard&) { r = 2; }
    catch (Failure& f) { setmsg(s, f.msg); r = 1; }
    catch (std::exception& e) { setmsg(s, std::string("unexpected exception: ") + e.what()); r = 1; }
    catch (...) { setmsg(s, "unexpected exception of unknown type"); r = 1; }
    if (r == 1) s.failed = 1;
    s.running = 0;
    s.done = s.done + 1;
    return r;
}
uint64_t caseSeed(unsigned sub, uint64_t idx) {
    uint64_t h = 14695981039346656037ull;
    for (char c : subs()[sub].name) h = (h ^ (unsigned char)c) * 1099511628211ull;
    return mix(mix(seed * 0x9e3779b97f4a7c15ull + 12345) ^ mix(h) ^ mix(idx * 0xda942042e4dd58b5ull + 77));
}
void silence() {
    if (verbose) return;
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); close(fd);
}
void childSetup() {
    silence();
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (chdir(scratch.c_str()) != 0) _exit(99);
}
double cpuOf(pid_t p) {
    std::ifstream f("/proc/" + std::to_string(p) + "/stat");
    std::string line; std::getline(f, line);
    size_t q = line.rfind(')');
    if (q == std::string::npos) return 0;
    std::istringstream is(line.substr(q + 2));
    std::string t; double ut = 0, st = 0;
    for (int i = 3; i <= 15; ++i) { is >> t; if (i == 14) ut = atof(t.c_str()); if (i == 15) st = atof(t.c_str()); }
    return (ut + st) / sysconf(_SC_CLK_TCK);
}
double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string asanSummary(pid_t p) {
    std::ifstream f(scratch + "/asan." + std::to_string(p));
    std::string l, frames; int k = 0;
    while (std::getline(f, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos) { size_t q = l.find("AddressSanitizer"); frames = l.substr(q) + " "; k = 0; }
        else if (!frames.empty() && k < 6 && l.find("    #") == 0) { size_t q = l.find(" in "); frames += " <- " + (q == std::string::npos ? l : l.substr(q + 4, 120)); ++k; }
        else if (!frames.empty() && l.empty() && k > 0) break;
    }
    return frames;
}
std::string deathMessage(int status, pid_t p, bool hang) {
    std::string m;
    if (hang) return "the case does not terminate (no progress within the CPU/wall limit)";
    if (WIFSIGNALED(status)) m = std::string("killed by signal ") + strsignal(WTERMSIG(status));
    else m = "process exited with status " + std::to_string(WEXITSTATUS(status));
    std::string a = asanSummary(p);
    if (!a.empty()) m += "; " + a;
    return m;
}

// waits for a child working on one slot, enforcing limits; returns true if it died / hung
bool waitChild(pid_t p, Slot& s, int& status, bool& hang) {
    hang = false;
    uint64_t lastDone = s.done; double cpu0 = 0, t0 = now(); int us = 200;
    for (;;) {
        pid_t r = waitpid(p, &status, WNOHANG);
        if (r == p) break;
        usleep(us); if (us < 20000) us *= 2;
        if (s.done != lastDone) { lastDone = s.done; cpu0 = cpuOf(p); t0 = now(); }
        if (us >= 20000 && (cpuOf(p) - cpu0 > cpuLimit || now() - t0 > wallLimit)) {
            hang = true; kill(p, SIGKILL); waitpid(p, &status, 0); break;
        }
    }
    return hang || !WIFEXITED(status) || WEXITSTATUS(status) != 0;
}

struct Outcome { bool failed; std::string msg; };

Outcome finishChild(pid_t p, Slot& s) {
    int st; bool hang;
    waitChild(p, s, st, hang);
    Outcome o;
    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) o = {false, ""};
    else if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 10 && s.failed) o = {true, s.msg};
    else o = {true, deathMessage(st, p, hang)};
    unlink((scratch + "/asan." + std::to_string(p)).c_str());
    return o;
}
// run a choice list in a fresh process; the recorded (effective) list is left in slot
Outcome runChoices(unsigned sub, const std::vector<uint64_t>& ch) {
    Slot& s = slots[0];
    s.done = 0; s.failed = 0; s.n = 0;
    pid_t p = fork();
    if (p == 0) {
        childSetup();
        Gen g(&ch);
        int r = runCase(s, sub, g);
        _exit(r == 1 ? 10 : 0);
    }
    return finishChild(p, s);
}
// run a stream of cases (first, first+step, ... last) in a fresh process
Outcome runStream(unsigned sub, uint64_t first, uint64_t step, uint64_t last) {
    Slot& s = slots[0];
    s.done = 0; s.failed = 0; s.n = 0;
    pid_t p = fork();
    if (p == 0) {
        childSetup();
        for (uint64_t i = first; i <= last; i += step) {
            Gen g(caseSeed(sub, i));
            s.idx = i;
            if (runCase(s, sub, g) == 1) _exit(10);
        }
        _exit(0);
    }
    return finishChild(p, s);
}

bool shorter(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

std::vector<uint64_t> shrink(unsigned sub, std::vector<uint64_t> best, std::string& msg, double budget) {
    double t0 = now();
    int tries = 0;
    auto attempt = [&](std::vector<uint64_t> c) -> bool {
        if (now() - t0 > budget || tries > 4000) return false;
        ++tries;
        Outcome o = runChoices(sub, c);
        if (!o.failed) return false;
        std::vector<uint64_t> eff(slots[0].rec, slots[0].rec + slots[0].n);
        while (!eff.empty() && eff.back() == 0) eff.pop_back();
        if (shorter(eff, best)) { best = eff; msg = o.msg; return true; }
        if (shorter(c, best)) { best = c; msg = o.msg; return true; }
        return false;
    };
    bool improved = true;
    while (improved && now() - t0 < budget) {
        improved = false;
        // drop tail / blocks
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
            for (size_t i = best.size(); i-- > 0;) {
                if (i + blk > best.size()) continue;
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); }
            }
            if (blk == 1) break;
        }
        // zero, then binary-lower single values
        for (size_t i = 0; i < best.size(); ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c(best); c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            int guard = 0;
            while (lo + 1 < hi && guard++ < 24) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { improved = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid;
            }
        }
    }
    return best;
}

std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct WorkerOut {
    std::map<std::string, uint64_t> counters;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
};

void dumpWorker(unsigned w, const WorkerOut& o) {
    std::string base = scratch + "/w" + std::to_string(w);
    std::ofstream c(base + ".cnt");
    for (auto& p : o.counters) c << p.second << "\t" << p.first << "\n";
    c.close();
    std::ofstream h(base + ".hash", std::ios::binary);
    h.write((const char*)o.hashes.data(), o.hashes.size() * 8);
    h.close();
    std::ofstream s(base + ".smp");
    for (auto& x : o.samples) { std::string y; for (char ch : x) y += ch == '\n' ? ' ' : ch; s << y << "\n"; }
}

void workerMain(unsigned w, unsigned W, bool thorough, const std::string& only) {
    childSetup();
    Slot& s = slots[w];
    WorkerOut out;
    std::vector<uint64_t> perSubSamples(subs().size(), 0);
    for (unsigned sub = 0; sub < subs().size(); ++sub) {
        if (!only.empty() && subs()[sub].name != only) continue;
        uint64_t total = (uint64_t)((thorough ? subs()[sub].thorough : subs()[sub].quick) * scale100 / 100);
        if (total == 0) total = 1;
        for (uint64_t i = w; i < total; i += W) {
            if (shared->stop) goto end;
            s.idx = i;
            Gen g(caseSeed(sub, i));
            int r = runCase(s, sub, g);
            if (r == 1) { shared->stop = 1; s.finished = 2; dumpWorker(w, out); _exit(10); }
            out.counters["eval." + subs()[sub].name]++;
            if (r == 2) { out.counters["discarded." + subs()[sub].name]++; continue; }
            for (auto& l : g.labels) out.counters["label." + subs()[sub].name + "." + l]++;
            for (auto& c : g.counts) out.counters["count." + subs()[sub].name + "." + c.first] += c.second;
            if (g.isNontrivial()) {
                out.counters["nontrivial." + subs()[sub].name]++;
                uint64_t h = g.hash() ^ mix(sub + 1);
                out.hashes.push_back(h);
                if (perSubSamples[sub] < 1 && !g.noted().empty()) {
                    perSubSamples[sub]++;
                    out.samples.push_back(subs()[sub].name + ": " + g.noted().substr(0, 400));
                }
            }
        }
    }
end:
    dumpWorker(w, out);
    s.finished = 1;
    _exit(0);
}

std::string field(const std::string& j, const std::string& k) {
    size_t p = j.find("\"" + k + "\":");
    if (p == std::string::npos) return "";
    p += k.size() + 3;
    while (p < j.size() && j[p] == ' ') ++p;
    if (j[p] == '"') { size_t e = j.find('"', p + 1); return j.substr(p + 1, e - p - 1); }
    if (j[p] == '[') { size_t e = j.find(']', p); return j.substr(p + 1, e - p - 1); }
    size_t e = j.find_first_of(",}\n", p); return j.substr(p, e - p);
}

} // namespace

int main(int argc, char** argv) {
    std::string prop = "X00", tier = "quick", evidence, replayDir = ".", replay, only, rule, assumptions;
    unsigned W = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replaydir") replayDir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--rule") rule = val();
        else if (a == "--assume") assumptions = val();
        else if (a == "--scale") scale100 = (long)(atof(val().c_str()) * 100);
        else if (a == "--cpu-limit") cpuLimit = atof(val().c_str());
        else if (a == "--schedules") schedules = atoi(val().c_str());
        else if (a == "--wall-limit") wallLimit = atof(val().c_str());
        else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (auto& s : subs()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n"; return 0; }
    }
    std::sort(subs().begin(), subs().end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });
    if (scratch.empty()) { char t[] = "/tmp/pbt.XXXXXX"; scratch = mkdtemp(t); }
    if (verbose) ; 
    // address sanitizer log goes to files in scratch (options are read at start: re-exec once)
    if (!getenv("PBT_CHILD")) {
        std::string o = "detect_leaks=0:exitcode=77:log_path=" + scratch + "/asan:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=0:detect_odr_violation=0:new_delete_type_mismatch=1:alloc_dealloc_mismatch=1:hard_rss_limit_mb=6000";
        if (verbose) { size_t q = o.find("log_path="); o.erase(q, o.find(':', q) - q + 1); }
        setenv("ASAN_OPTIONS", o.c_str(), 1);
        setenv("PBT_CHILD", "1", 1);
        setenv("PBT_SCRATCH", scratch.c_str(), 1);
        std::vector<char*> av(argv, argv + argc);
        static char s1[] = "--scratch"; av.push_back(s1); av.push_back(strdup(scratch.c_str())); av.push_back(nullptr);
        execv("/proc/self/exe", av.data());
        perror("exec"); return 3;
    }
    signal(SIGPIPE, SIG_IGN);
    shared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots = (Slot*)mmap(0, sizeof(Slot) * std::max(1u, W), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!replay.empty()) {
        std::ifstream f(replay); std::stringstream b; b << f.rdbuf();
        std::string j = b.str();
        std::string sn = field(j, "sub");
        unsigned sub = 0; while (sub < subs().size() && subs()[sub].name != sn) ++sub;
        if (sub == subs().size()) { std::cerr << "unknown sub-property " << sn << "\n"; return 3; }
        Outcome o{false, ""};
        if (field(j, "kind") == "stream") {
            seed = strtoull(field(j, "seed").c_str(), 0, 10);
            o = runStream(sub, strtoull(field(j, "first").c_str(), 0, 10), strtoull(field(j, "step").c_str(), 0, 10), strtoull(field(j, "last").c_str(), 0, 10));
        } else {
            std::vector<uint64_t> ch; std::string l = field(j, "choices"); for (auto& c : l) if (c == ',') c = ' ';
            std::istringstream is(l); uint64_t v; while (is >> v) ch.push_back(v);
            for (unsigned k = 0, n = field(j, "kind") == "schedule" ? 200 : 1; k < n && !o.failed; ++k) o = runChoices(sub, ch);
        }
        if (o.failed) { std::cout << "FAILED " << sn << ": " << o.msg << "\nVIOLATION property=" << prop << " replay=" << replay << std::endl; return 1; }
        std::cout << "passes\n"; return 0;
    }

    double t0 = now();
    bool thorough = tier == "thorough";
    std::vector<pid_t> pids(W);
    for (unsigned w = 0; w < W; ++w) {
        pids[w] = fork();
        if (pids[w] == 0) workerMain(w, W, thorough, only);
    }
    // monitor
    struct Died { unsigned w; std::string msg; bool check; };
    std::vector<Died> died;
    std::vector<uint64_t> lastDone(W, ~0ull); std::vector<double> cpu0(W, 0), tw(W, now());
    std::vector<char> alive(W, 1);
    unsigned left = W;
    double stopAt = 0;
    while (left) {
        usleep(20000);
        for (unsigned w = 0; w < W; ++w) {
            if (!alive[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                alive[w] = 0; --left;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].finished) continue;
                shared->stop = 1;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && slots[w].failed) died.push_back({w, slots[w].msg, true});
                else died.push_back({w, deathMessage(st, pids[w], false), false});
                continue;
            }
            if (slots[w].done != lastDone[w]) { lastDone[w] = slots[w].done; cpu0[w] = cpuOf(pids[w]); tw[w] = now(); }
            else if (cpuOf(pids[w]) - cpu0[w] > cpuLimit || now() - tw[w] > wallLimit) {
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = 0; --left;
                shared->stop = 1;
                died.push_back({w, deathMessage(0, pids[w], true), false});
            }
            // once a failure is known, do not wait long for the others
            if (shared->stop) {
                if (stopAt == 0) stopAt = now();
                if (now() - stopAt > 20 && alive[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = 0; --left; }
            }
        }
    }
    // merge
    std::map<std::string, uint64_t> counters; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples; std::set<std::string> seenSub;
    for (unsigned w = 0; w < W; ++w) {
        std::string base = scratch + "/w" + std::to_string(w);
        std::ifstream c(base + ".cnt"); std::string line;
        while (std::getline(c, line)) { size_t t = line.find('\t'); if (t != std::string::npos) counters[line.substr(t + 1)] += strtoull(line.c_str(), 0, 10); }
        std::ifstream h(base + ".hash", std::ios::binary); uint64_t v;
        while (h.read((char*)&v, 8)) distinct.insert(v);
        std::ifstream s(base + ".smp");
        while (std::getline(s, line)) { std::string sn = line.substr(0, line.find(':')); if (seenSub.insert(sn).second) samples.push_back(line); }
    }
    uint64_t evals = 0, disc = 0;
    for (auto& p : counters) { if (p.first.compare(0, 5, "eval.") == 0) evals += p.second; if (p.first.compare(0, 10, "discarded.") == 0) disc += p.second; }

    // judge failures
    bool violation = false; std::string vmsg, vpath;
    for (auto& d : died) {
        Slot& s = slots[d.w];
        unsigned sub = s.sub; uint64_t idx = s.idx;
        std::vector<uint64_t> ch(s.rec, s.rec + s.n);
        if (!s.running && !d.check) { std::cerr << "worker " << d.w << " died outside a case: " << d.msg << "\n"; }
        int rep = 0; std::string msg = d.msg;
        // full generator replay (covers cases longer than the record)
        Outcome o{false, ""};
        for (int k = 0; k < 3; ++k) { o = runChoices(sub, ch); if (o.failed) { ++rep; msg = o.msg; } }
        std::ostringstream js;
        // a case that fails only on some schedules: seen failing at least twice more
        bool bySchedule = false;
        if (rep < 3 && schedules) {
            double t1 = now();
            for (unsigned k = 0; k < schedules && rep < 2 && now() - t1 < 120; ++k) { o = runChoices(sub, ch); if (o.failed) { ++rep; msg = o.msg; } }
            bySchedule = rep >= 2;
        }
        if (bySchedule) {
            js << "{\"property\": \"" << prop << "\", \"kind\": \"schedule\", \"sub\": \"" << subs()[sub].name << "\", \"seed\": " << seed << ", \"case\": " << idx << ", \"choices\": [";
            for (size_t i = 0; i < ch.size(); ++i) js << (i ? "," : "") << ch[i];
            js << "], \"message\": \"" << jesc(msg) << "\"}\n";
        } else if (rep == 3) {
            std::vector<uint64_t> best = shrink(sub, ch, msg, 60);
            int rep2 = 0; for (int k = 0; k < 3; ++k) { o = runChoices(sub, best); if (o.failed) { ++rep2; msg = o.msg; } }
            if (rep2 < 3) best = ch;
            js << "{\"property\": \"" << prop << "\", \"kind\": \"choices\", \"sub\": \"" << subs()[sub].name << "\", \"seed\": " << seed << ", \"case\": " << idx << ", \"choices\": [";
            for (size_t i = 0; i < best.size(); ++i) js << (i ? "," : "") << best[i];
            js << "], \"message\": \"" << jesc(msg) << "\"}\n";
        } else {
            // history dependent, or timing dependent: replay the worker's stream of this sub-property
            rep = 0;
            for (int k = 0; k < 3; ++k) { o = runStream(sub, d.w, W, idx); if (o.failed) { ++rep; msg = o.msg; } }
            if (rep < 3) { std::cerr << "failure of " << subs()[sub].name << " case " << idx << " was not reproducible (" << rep << "/3): " << d.msg << "\n"; continue; }
            uint64_t first = d.w;
            // shortest suffix that still fails
            for (uint64_t len = 2; len * W < idx; len *= 2) {
                uint64_t f = idx - (len - 1) * W;
                if (runStream(sub, f, W, idx).failed && runStream(sub, f, W, idx).failed) { first = f; break; }
            }
            js << "{\"property\": \"" << prop << "\", \"kind\": \"stream\", \"sub\": \"" << subs()[sub].name << "\", \"seed\": " << seed << ", \"first\": " << first << ", \"step\": " << W << ", \"last\": " << idx << ", \"message\": \"" << jesc(msg) << "\"}\n";
        }
        ::mkdir(replayDir.c_str(), 0755);
        vpath = replayDir + "/" + prop + "-" + subs()[sub].name + "-" + std::to_string(seed) + ".json";
        std::ofstream f(vpath); f << js.str(); f.close();
        violation = true; vmsg = subs()[sub].name + ": " + msg;
        std::cout << "FAILED " << vmsg << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << vpath << std::endl;
        break;
    }
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream e(evidence);
        e << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"discarded\": " << disc << ",\n  \"rule\": \"" << jesc(rule) << "\",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size() && i < 40; ++i) e << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
        e << "\n  ],\n  \"counters\": {";
        bool first = true;
        for (auto& p : counters) { e << (first ? "\n   " : ",\n   ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
        e << "\n  }\n },\n \"assumptions\": [\"" << jesc(assumptions) << "\"],\n \"violations\": " << (violation ? 1 : 0) << ",\n \"wall_s\": " << wall << "\n}\n";
    }
    std::cout << prop << " " << tier << " seed=" << seed << " cases=" << evals << " nontrivial=" << distinct.size() << " discarded=" << disc << " wall=" << wall << "s" << (violation ? " VIOLATED" : " held") << std::endl;
    return violation ? 1 : 0;
}
