// Small explicit-enumeration model checking runtime.
//
// A harness registers families. A family is a finite space of cases: case i of
// the family is decoded from its index by a mixed-radix odometer (pick), so the
// space is enumerated completely, without sampling, and any case can be
// replayed alone from "family:index". Worker processes share the cases; a case
// that crashes, trips a sanitizer or does not end is attributed to its index.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::set<std::string>& wanted() { static std::set<std::string> w; return w; }
inline bool want(const char* p) { return wanted().empty() || wanted().count(p); }

struct Slot {               // one per worker, in shared memory
    volatile uint64_t family, index, started_ms, cases, finished;
};

struct Violation { std::string prop, family, msg; uint64_t index; };

struct State {
    std::unordered_set<uint64_t> states;
    uint64_t transitions = 0, checks = 0, cases = 0, skipped = 0, nviol = 0;
    std::map<std::string, uint64_t> outcomes;
    std::vector<Violation> violations;
    std::vector<std::string> samples;
    // current case
    std::string family; uint64_t index = 0, rem = 0;
    std::string desc; bool verbose = false, failed = false;
    bool exhausted = false;
};
inline State& st() { static State s; return s; }

inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; h ^= h >> 31;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return mix(h, n);
}
struct Hasher {
    uint64_t h = 88172645463325252ull;
    Hasher& add(double d) { if (d == 0) d = 0; h = mix(h, 0); uint64_t u; memcpy(&u, &d, 8); h = mix(h, u); return *this; }
    Hasher& rnd(double d, double q) { return add(std::nearbyint(d / q)); }
    Hasher& add(uint64_t u) { h = mix(h, u); return *this; }
    Hasher& add(int u) { h = mix(h, (uint64_t)u); return *this; }
    Hasher& add(unsigned u) { h = mix(h, u); return *this; }
};

inline void state(uint64_t h) { st().states.insert(h); }
inline void transition(uint64_t n = 1) { st().transitions += n; }
inline void outcome(const std::string& o) { ++st().outcomes[o]; }
inline void skip() { ++st().skipped; }

// Digit of the current case.
inline unsigned pick(unsigned n) {
    auto& s = st(); unsigned d = s.rem % n; s.rem /= n; return d;
}
template<typename T, size_t N> const T& pick(const T (&a)[N]) { return a[pick(N)]; }

__attribute__((format(printf, 1, 2)))
inline void describe(const char* f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    st().desc += b;
}
__attribute__((format(printf, 2, 3)))
inline void fail(const char* prop, const char* f, ...) {
    if (!want(prop)) return;
    char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    auto& s = st(); s.failed = true; ++s.nviol;
    if (s.verbose) printf("FAIL %s: %s\n", prop, b);
    if (s.violations.size() < 20) s.violations.push_back({prop, s.family, b, s.index});
}
// check(cond): one property check on the real code
#define MC_CHECK(prop, cond, ...) do { ++::mc::st().checks; if (!(cond)) ::mc::fail(prop, __VA_ARGS__); } while (0)

struct Family { std::string name; uint64_t count; std::function<void()> run; };
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
inline void family(const std::string& name, uint64_t count, std::function<void()> run) {
    if (count) families().push_back({name, count, run});
}
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }

inline uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

inline void run_case(const Family& f, uint64_t i, bool sample) {
    auto& s = st();
    s.family = f.name; s.index = i; s.rem = i; s.desc.clear(); s.failed = false;
    ++s.cases;
    f.run();
    if (sample && !s.desc.empty() && s.samples.size() < 8)
        s.samples.push_back(f.name + ":" + std::to_string(i) + " " + s.desc.substr(0, 600));
}

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else if (c < 127) o += c; else o += '?';
    }
    return o;
}

inline void dump_worker(const std::string& path) {
    auto& s = st();
    FILE* f = fopen(path.c_str(), "wb");
    fprintf(f, "%" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %d\n", s.transitions, s.checks, s.cases, s.skipped, s.nviol, (int)s.exhausted);
    fprintf(f, "%zu\n", s.outcomes.size());
    for (auto& o : s.outcomes) fprintf(f, "%" PRIu64 " %s\n", o.second, o.first.c_str());
    fprintf(f, "%zu\n", s.violations.size());
    for (auto& v : s.violations) fprintf(f, "%s %s %" PRIu64 " %s\n", v.prop.c_str(), v.family.c_str(), v.index, jesc(v.msg).c_str());
    fprintf(f, "%zu\n", s.samples.size());
    for (auto& v : s.samples) fprintf(f, "%s\n", jesc(v).c_str());
    fprintf(f, "%zu\n", s.states.size());
    for (auto h : s.states) fwrite(&h, 8, 1, f);
    fclose(f);
}
inline std::string getl(FILE* f) { std::string r; int c; while ((c = fgetc(f)) != EOF && c != '\n') r += (char)c; return r; }
inline bool merge_worker(const std::string& path, State& t) {
    FILE* f = fopen(path.c_str(), "rb"); if (!f) return false;
    uint64_t a, b, c, d, e; int ex;
    if (sscanf(getl(f).c_str(), "%" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %d", &a, &b, &c, &d, &e, &ex) != 6) { fclose(f); return false; }
    t.transitions += a; t.checks += b; t.cases += c; t.skipped += d; t.nviol += e; t.exhausted |= ex;
    size_t n = strtoull(getl(f).c_str(), 0, 10);
    while (n--) { auto l = getl(f); auto p = l.find(' '); t.outcomes[l.substr(p + 1)] += strtoull(l.c_str(), 0, 10); }
    n = strtoull(getl(f).c_str(), 0, 10);
    while (n--) {
        std::istringstream is(getl(f)); Violation v; is >> v.prop >> v.family >> v.index; is.get(); std::getline(is, v.msg);
        t.violations.push_back(v);
    }
    n = strtoull(getl(f).c_str(), 0, 10);
    while (n--) { auto l = getl(f); if (t.samples.size() < 24) t.samples.push_back(l); }
    n = strtoull(getl(f).c_str(), 0, 10);
    while (n--) { uint64_t h; if (fread(&h, 8, 1, f) != 1) break; t.states.insert(h); }
    fclose(f); return true;
}

struct Options {
    std::string out, prop, only, replay, tmp; int jobs = 8; double budget = 600; bool thorough = false, list = false; int case_limit_s = 60;
};
inline Options& opt() { static Options o; return o; }
inline bool thorough() { return opt().thorough; }

inline void worker(int w, int jobs, Slot* slot, uint64_t skip_before_family, uint64_t skip_upto, uint64_t t_end) {
    auto& fs = families();
    auto& s = st();
    for (uint64_t fi = 0; fi < fs.size(); ++fi) {
        if (fi < skip_before_family) continue;
        if (!opt().only.empty() && fs[fi].name != opt().only) continue;
        uint64_t n = fs[fi].count, taken = 0;
        // Interleave the cases over the workers so that they share expensive regions.
        for (uint64_t i = w; i < n; i += jobs) {
            if (fi == skip_before_family && skip_upto != ~0ull && i <= skip_upto) continue;
            slot->family = fi; slot->index = i; slot->started_ms = now_ms();
            run_case(fs[fi], i, taken < 1 || (i * 2654435761u % n) < (uint64_t)jobs);
            ++taken; ++slot->cases;
            if (s.violations.size() >= 20) return;
            if (slot->started_ms > t_end) { s.exhausted = true; return; }
        }
    }
}

inline void setup();   // not used

inline int main_(int argc, char** argv, std::function<void()> reg) {
    Options& o = opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") o.out = nx();
        else if (a == "--prop") o.prop = nx();
        else if (a == "--only") o.only = nx();
        else if (a == "--replay") o.replay = nx();
        else if (a == "--tmp") o.tmp = nx();
        else if (a == "--jobs") o.jobs = atoi(nx().c_str());
        else if (a == "--budget") o.budget = atof(nx().c_str());
        else if (a == "--case-limit") o.case_limit_s = atoi(nx().c_str());
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--list") o.list = true;
    }
    if (!o.prop.empty()) wanted().insert(o.prop);
    reg();
    if (o.list) { for (auto& f : families()) printf("%s %" PRIu64 "\n", f.name.c_str(), f.count); return 0; }
    if (!o.replay.empty()) {
        auto p = o.replay.rfind(':');
        std::string fam = o.replay.substr(0, p); uint64_t idx = strtoull(o.replay.c_str() + p + 1, 0, 10);
        for (auto& f : families()) if (f.name == fam) {
            st().verbose = true; st().exhausted = false;
            run_case(f, idx, true);
            printf("case %s:%" PRIu64 "\n%s\n%s\n", fam.c_str(), idx, st().desc.c_str(), st().nviol ? "REPLAY: violated" : "REPLAY: held");
            fflush(stdout);
            return st().nviol ? 1 : 0;
        }
        printf("no such family %s\n", fam.c_str());
        return 3;
    }
    if (o.tmp.empty()) o.tmp = "/tmp";
    int J = o.jobs;
    Slot* slots = static_cast<Slot*>(mmap(0, sizeof(Slot) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset((void*)slots, 0, sizeof(Slot) * J);
    uint64_t t0 = now_ms(), t_end = t0 + (uint64_t)(o.budget * 1000);
    std::vector<pid_t> pid(J, -1); std::vector<int> gen(J, 0);
    std::vector<std::string> outs;
    State total;
    auto& fs = families();
    auto spawn = [&](int w, uint64_t sf, uint64_t si) {
        fflush(stdout); fflush(stderr);
        std::string out = o.tmp + "/w" + std::to_string(w) + "." + std::to_string(gen[w]++);
        slots[w].started_ms = now_ms(); slots[w].finished = 0;
        pid_t p = fork();
        if (p == 0) {
            std::string err = out + ".err";
            int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2); dup2(fd, 1);
            worker(w, J, &slots[w], sf, si, t_end);
            dump_worker(out);
            slots[w].finished = 1;
            fflush(stdout); fflush(stderr);
            _exit(0);
        }
        outs.push_back(out); pid[w] = p;
    };
    for (int w = 0; w < J; ++w) spawn(w, 0, ~0ull);
    int alive = J;
    while (alive) {
        usleep(20000);
        for (int w = 0; w < J; ++w) {
            if (pid[w] < 0) continue;
            int stt; pid_t r = waitpid(pid[w], &stt, WNOHANG);
            bool hang = false;
            if (r == 0) {
                uint64_t started = slots[w].started_ms, nowm = now_ms();
                if (!slots[w].finished && nowm > started && nowm - started > (uint64_t)o.case_limit_s * 1000) { kill(pid[w], SIGKILL); waitpid(pid[w], &stt, 0); hang = true; }
                else continue;
            }
            pid[w] = -1; --alive;
            if (!hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && slots[w].finished) continue;
            // A crash, sanitizer report or hang in the case that was running.
            uint64_t f = slots[w].family, i = slots[w].index;
            std::string why;
            if (hang) why = "the case did not end within " + std::to_string(o.case_limit_s) + " s";
            else if (WIFSIGNALED(stt)) why = "killed by signal " + std::to_string(WTERMSIG(stt));
            else why = "process ended with status " + std::to_string(WEXITSTATUS(stt));
            {   // first meaningful line of the error output
                FILE* e = fopen((outs.empty() ? "" : (o.tmp + "/w" + std::to_string(w) + "." + std::to_string(gen[w] - 1) + ".err")).c_str(), "rb");
                if (e) {
                    std::string l; int k = 0;
                    while (k++ < 2000 && !feof(e)) {
                        l = getl(e);
                        if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos || l.find("terminate called") != std::string::npos) { why += ": " + l.substr(0, 300); break; }
                    }
                    fclose(e);
                }
            }
            std::string pr = o.prop.empty() ? "ANY" : o.prop;
            total.violations.push_back({pr, fs[f].name, jesc(why), i}); ++total.nviol;
            total.cases += slots[w].cases;   // its counters died with it
            if (gen[w] < 3 && total.violations.size() < 6 && now_ms() < t_end) { slots[w].cases = 0; spawn(w, f, i); ++alive; }
            else total.exhausted = true;
        }
    }
    for (auto& p : outs) merge_worker(p, total);
    FILE* f = o.out.empty() ? stdout : fopen(o.out.c_str(), "wb");
    fprintf(f, "{\"states\":%zu,\"transitions\":%" PRIu64 ",\"cases\":%" PRIu64 ",\"checks\":%" PRIu64 ",\"skipped\":%" PRIu64 ",\"nviol\":%" PRIu64 ",\"cut\":%s,\n\"families\":{",
            total.states.size(), total.transitions, total.cases, total.checks, total.skipped, total.nviol, total.exhausted ? "true" : "false");
    bool first = true;
    for (auto& x : fs) { if (!o.only.empty() && x.name != o.only) continue; fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", x.name.c_str(), x.count); first = false; }
    fprintf(f, "},\n\"outcomes\":{"); first = true;
    for (auto& x : total.outcomes) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
    fprintf(f, "},\n\"samples\":["); first = true;
    for (auto& x : total.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n", x.c_str()); first = false; }
    fprintf(f, "],\n\"violations\":["); first = true;
    for (auto& x : total.violations) { fprintf(f, "%s{\"prop\":\"%s\",\"case\":\"%s:%" PRIu64 "\",\"msg\":\"%s\"}", first ? "" : ",\n", x.prop.c_str(), x.family.c_str(), x.index, x.msg.c_str()); first = false; }
    fprintf(f, "],\n\"wall_s\":%.2f}\n", (now_ms() - t0) / 1000.0);
    if (f != stdout) fclose(f);
    return total.nviol ? 1 : 0;
}

}  // namespace mc

#ifndef MC_OWN_RANDOM
#include <random>
// std::random_device gives fixed values: the seeds of the code under test are
// inputs the harness owns.
unsigned std::random_device::_M_getval() { static unsigned n = 12345; return n += 2654435769u; }
#endif
