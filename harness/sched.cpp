// See sched.hpp. Compiled without instrumentation.
#include "sched.hpp"
#include <cxxabi.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <random>
#include <unordered_map>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

// seeds are inputs the harness owns
unsigned std::random_device::_M_getval() { static unsigned n = 12345; return n += 2654435769u; }

namespace sched {
static const int T = 28;                       // threads at most
typedef uint32_t Clk;
struct VC { Clk c[T]; void join(const VC& o) { for (int i = 0; i < T; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Team { int n; int arrived; int gen; VC vc; bool serialised; Team* up;
    struct Loop { bool init; int64_t next, ub, st, chunk; int64_t total; } loops[64]; int singles[64]; };
struct Ctx { Team* team; int tid; int nloop, nsingle; };
enum St { FREE, RUN, BLOCK };
struct Th {
    int id; pthread_t p; std::atomic<int> go; St st; const void* wait; VC vc; bool started;
    Ctx ctx[8]; int depth;                      // nesting of regions
    const std::function<void()>* fn; void (*mt)(int*, int*, ...); void** args; Team* team; int tid;
    bool finished; int loop64[4]; int64_t disp_lb;
};
static Th th[T];
static thread_local Th* self_ = nullptr;
static Th* cur = &th[0];
static int maxused = 1;
static bool active = false;                     // inside an execution
static int armed = 0;                           // >0: more than one thread exists
static Config cfg; static Result res;
static int preempt_used; static uint64_t steps;
struct Choice { int n, i; };
static Choice* path; static size_t npath, pos; static const size_t MAXP = 1 << 16;
static bool exploring = false;

static void die(const char* f, ...) {
    va_list ap; va_start(ap, f); fprintf(stderr, "ERROR: "); vfprintf(stderr, f, ap); fprintf(stderr, " (schedule %s)\n", current_path().c_str()); fflush(stderr);
    printf("ERROR: schedule %s\n", current_path().c_str()); fflush(stdout);
    _exit(66);
}
std::string current_path() { std::string s; char b[16]; for (size_t k = 0; k < pos && k < 200; ++k) { snprintf(b, 16, "%d", path[k].i); s += b; if (path[k].i > 9) s += ","; } return s; }
static int choose(int n) {
    if (n <= 1 || !exploring) return 0;
    if (pos < npath) { if (path[pos].n != n) die("the execution is not reproducible: %d choices instead of %d at point %zu", n, path[pos].n, pos); return path[pos++].i; }
    if (npath >= MAXP) die("too many choices");
    path[npath++] = {n, 0}; ++pos; return 0;
}
// Who goes on when the current thread cannot: a choice of its own, or a deviation from the first that can.
static int pick_next(int n) { if (cfg.free_choices) return choose(n); if (preempt_used >= cfg.preemptions) return 0; int c = choose(n); preempt_used += c > 0; return c; }
static void fwait(std::atomic<int>& a) { while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
static void fpost(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void hand(Th* to) {
    Th* me = self_; if (to == me) return;
    cur = to; fpost(to->go); fwait(me->go);
}
// The current thread may go on: continue it, or preempt.
static void point() {
    if (!active || armed == 0) return;
    if (++steps > (uint64_t)cfg.limit) die("the operation does not end within %d steps", cfg.limit);
    ++res.points;
    int o[T], n = 0; o[n++] = self_->id;
    if (preempt_used < cfg.preemptions) for (int k = 0; k < maxused; ++k) if (th[k].st == RUN && &th[k] != self_) o[n++] = k;
    int c = choose(n); if (c) { ++preempt_used; hand(&th[o[c]]); }
}
// The current thread cannot go on (it blocked or ended).
static void next() {
    if (++steps > (uint64_t)cfg.limit) die("the operation does not end within %d steps", cfg.limit);
    int o[T], n = 0; for (int k = 0; k < maxused; ++k) if (th[k].st == RUN) o[n++] = k;
    if (!n) {
        std::string w; char b[80]; for (int k = 0; k < maxused; ++k) if (th[k].st == BLOCK) { snprintf(b, 80, " thread %d waits for %p;", k, th[k].wait); w += b; }
        die("deadlock:%s", w.c_str());
    }
    ++res.points;
    hand(&th[o[pick_next(n)]]);
}
static void block(const void* on) { self_->st = BLOCK; self_->wait = on; next(); }
static void wake(const void* on) { for (int k = 0; k < maxused; ++k) if (th[k].st == BLOCK && th[k].wait == on) th[k].st = RUN; }

// ---- shadow memory
struct Ent { uint64_t pc; Clk clk; uint8_t tid, mask, write, used; };
struct Cell { uint64_t epoch; Ent e[8]; uint8_t freed; uint64_t fpc; };
struct Page { Cell c[512]; };
static uint64_t epoch = 1;
static const size_t PH = 1 << 16;
static struct { uint64_t key; Page* p; } *ptab;
static Page* page(uint64_t a) {
    static uint64_t lk = ~0ull; static Page* lp; uint64_t k = a >> 12;
    if (k != lk) {
        size_t h = (k * 0x9e3779b97f4a7c15ull) >> 48;
        while (ptab[h].p && ptab[h].key != k) h = (h + 1) % PH;
        if (!ptab[h].p) { ptab[h].key = k; ptab[h].p = (Page*)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        lk = k; lp = ptab[h].p;
    }
    return lp;
}
static Cell& cell(uint64_t a) { Cell& c = page(a)->c[(a >> 3) & 511]; if (c.epoch != epoch) { memset((void*)&c, 0, sizeof c); c.epoch = epoch; } return c; }
static void bad(const char* kind, uint64_t a, uint64_t pc, bool w, int t2, uint64_t pc2, bool w2) {
    if (!res.bad.empty()) return;
    bool on = active; active = false; int ar = armed; armed = 0;     // allocate outside the execution
    char b[400]; snprintf(b, 400, "%s at address %#lx: thread %d %s at %#lx, thread %d %s at %#lx", kind, a, self_->id, w ? "writes" : "reads", pc, t2, w2 ? "writes" : "reads", pc2);
    res.bad = b; res.path = current_path();
    char cmd[300]; char exe[200]; ssize_t n = readlink("/proc/self/exe", exe, 199); if (n > 0) { exe[n] = 0;
        snprintf(cmd, 300, "addr2line -f -C -s -e %s %#lx %#lx 2>/dev/null", exe, pc - 1, pc2 - 1);
        if (FILE* f = popen(cmd, "r")) { char l[300]; int i = 0; while (fgets(l, 300, f)) { l[strcspn(l, "\n")] = 0; if (i++ % 2) res.bad += std::string(" ") + l + ";"; else res.bad += " [" + std::string(l).substr(0, 120) + "]"; } pclose(f); } }
    active = on; armed = ar;
}
static inline void access1(uint64_t a, unsigned mask, bool w, uint64_t pc) {
    Cell& c = cell(a); Th* me = self_; int t = me->id;
    if (c.freed) { bad("use after free", a, pc, w, t, c.fpc, true); return; }
    int slot = -1; bool done = false;
    for (int k = 0; k < 8; ++k) {
        Ent& e = c.e[k];
        if (!e.used) { if (slot < 0) slot = k; continue; }
        if (!(e.mask & mask)) continue;
        if (e.tid == t) {
            if ((e.mask & mask) == e.mask && (w || !e.write)) { if (e.mask == mask || slot < 0) { slot = k; } e.used = (slot == k); continue; }
            if (e.write && !w && e.clk == me->vc.c[t] && (e.mask & mask) == mask) done = true;
        } else {
            bool hb = e.clk <= me->vc.c[e.tid];
            if (!hb && (w || e.write)) { bad("data race", a, pc, w, e.tid, e.pc, e.write); return; }
            if (hb && w && (e.mask & mask) == e.mask) { e.used = 0; if (slot < 0) slot = k; }
        }
    }
    if (done) return;
    if (slot < 0) slot = (a >> 3) & 7;
    c.e[slot] = {pc, me->vc.c[t], (uint8_t)t, (uint8_t)mask, (uint8_t)w, 1};
}
// What a thread repeats before its clock moves on adds nothing.
static struct Recent { uint64_t a, epoch; Clk clk; uint8_t n, w; } recent[T][4096];
static void access(const void* p, size_t n, bool w, void* ret) {
    if (!armed || !active || !res.bad.empty()) return;
    Th* me = self_; if (!me) return;
    ++res.accesses;
    Recent& q = recent[me->id][((uint64_t)p >> 2) & 4095];
    if (n <= 16) {
        if (q.a == (uint64_t)p && q.epoch == epoch && q.clk == me->vc.c[me->id] && q.n == n && q.w >= w) return;
        q = {(uint64_t)p, epoch, me->vc.c[me->id], (uint8_t)n, (uint8_t)w};
    }
    uint64_t a = (uint64_t)p, e = a + n, pc = (uint64_t)ret;
    while (a < e) {
        uint64_t g = a & ~7ull, hi = g + 8 < e ? g + 8 : e; unsigned m = 0; for (uint64_t k = a; k < hi; ++k) m |= 1u << (k & 7);
        access1(g, m, w, pc); a = g + 8;
    }
}

// ---- allocation: every execution allocates upwards from the start of a slot, so that
// the order of addresses is that of the allocations; a slot something still lives in is not reused
static const size_t SLOT = 64ull << 20, SLOTS = 1024;
static char* base; static size_t slot, used; static int64_t live[SLOTS];
static bool in_arena(const void* p) { return base && p >= base && p < base + SLOT * SLOTS; }
static void* arena(size_t n, size_t al) {
    if (al < 16) al = 16;
    size_t s = (used + 16 + al - 1) / al * al; if (s + n > SLOT) { fprintf(stderr, "ERROR: out of memory in one execution\n"); _exit(66); }
    char* p = base + slot * SLOT + s; ((size_t*)p)[-1] = n; used = s + n; ++live[slot];
    memset(p, 0xff, n);
    return p;
}
static void afree(void* p, void* pc) {
    size_t n = ((size_t*)p)[-1], s = ((char*)p - base) / SLOT; --live[s];
    if (armed && active && self_ && s == slot && res.bad.empty()) {
        access(p, n, true, pc);
        for (size_t k = 0; k < n; k += 8) { Cell& c = cell((uint64_t)p + k); c.freed = 1; c.fpc = (uint64_t)pc; }
    } else memset(p, 0xff, n);
}
static void begin_exec() {
    if (!base) base = (char*)mmap(0, SLOT * SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    while (live[slot] > 0 && slot + 1 < SLOTS) ++slot;
    live[slot] = 0; used = 0;
}

// ---- threads
static void run_region(Th* t) {
    if (t->fn) { auto f = t->fn; t->fn = nullptr; (*f)(); return; }     // a caller of its own, in no team
    Ctx& c = t->ctx[t->depth++]; c = {t->team, t->tid, 0, 0};
    { int g = t->id, b = t->tid; void** a = t->args; t->mt(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]); }
    --t->depth;
}
static void leave(Team* tm) {           // at the end of a region: wait for the others
    Th* me = self_;
    tm->vc.join(me->vc); ++me->vc.c[me->id];
    if (++tm->arrived == tm->n) wake(tm);
}
static void* loop(void* p) {
    Th* me = (Th*)p; self_ = me;
    for (;;) {
        fwait(me->go);
        Team* tm = me->team;
        run_region(me);
        leave(tm); me->st = FREE;
        {
            int o[T], n = 0; for (int k = 0; k < maxused; ++k) if (th[k].st == RUN) o[n++] = k;
            if (!n) die("deadlock: nothing can run when thread %d ends", me->id);
            Th* to = &th[o[pick_next(n)]]; ++res.points; cur = to; fpost(to->go);
        }
    }
}
static Th* grab() {
    for (int k = 1; k < T; ++k) if (th[k].st == FREE) {
        if (!th[k].started) {
            th[k].started = true; th[k].id = k; th[k].go = 0;
            bool a = active; active = false;
            pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
            if (pthread_create(&th[k].p, &at, loop, &th[k])) { fprintf(stderr, "ERROR: no thread\n"); _exit(66); }
            active = a;
        }
        if (k + 1 > maxused) maxused = k + 1;
        return &th[k];
    }
    die("more than %d threads", T); return nullptr;
}
static void region(int n, void (*mt)(int*, int*, ...), void** args, const std::function<void()>* fns) {
    int left = 0; for (int k = 1; k < T; ++k) left += th[k].st == FREE;      // as with a thread limit
    if (!fns && n > left + 1) n = left + 1;
    Th* me = self_; Team tm; memset((void*)&tm, 0, sizeof tm); tm.n = n;
    tm.up = me->depth ? me->ctx[me->depth - 1].team : nullptr;
    bool arm = n > 1 && active;
    if (arm) { if (armed == 0) ++epoch; ++armed; }
    for (int k = 1; k < n; ++k) {
        Th* t = grab(); t->st = RUN; Clk own = t->vc.c[t->id]; t->vc.join(me->vc); t->vc.c[t->id] = own + 1;
        t->mt = mt; t->args = args; t->fn = fns ? fns + k : nullptr; t->team = &tm; t->tid = k; t->depth = 0;
    }
    ++me->vc.c[me->id];
    Team* ot = me->team; int oi = me->tid; auto ofn = me->fn; auto omt = me->mt; auto oa = me->args;
    if (n > 1) point();
    me->team = &tm; me->tid = 0; me->fn = fns; me->mt = mt; me->args = args;
    if (me->depth >= 7) die("regions nested too deeply");
    run_region(me);
    me->team = ot; me->tid = oi; me->fn = ofn; me->mt = omt; me->args = oa;
    leave(&tm);
    while (tm.arrived < tm.n) block(&tm);
    me->vc.join(tm.vc);
    if (arm) --armed;
}
static void reset() {
    for (int k = 1; k < T; ++k) { memset(th[k].vc.c, 0, sizeof th[k].vc.c); th[k].depth = 0; if (th[k].st != FREE) die("thread %d still runs", k); }
    memset(th[0].vc.c, 0, sizeof th[0].vc.c); for (int k = 0; k < T; ++k) th[k].vc.c[k] = 1;
    th[0].st = RUN; th[0].depth = 0; armed = 0; preempt_used = 0; steps = 0; maxused = 1; self_ = &th[0]; cur = &th[0]; ++epoch;
}

// ---- locks
struct Lock { const void* a; Th* owner; int count, readers; VC vc; };
static Lock locks[4096];
static Lock& lock_of(const void* a) {
    size_t h = ((uint64_t)a * 0x9e3779b97f4a7c15ull) >> 52;
    for (size_t k = 0; k < 4096; ++k, h = (h + 1) % 4096) { if (!locks[h].a) { locks[h].a = a; return locks[h]; } if (locks[h].a == a) return locks[h]; }
    die("too many locks"); return locks[0];
}
static void clear_locks() { memset((void*)locks, 0, sizeof locks); }
static void acquire(const void* a, bool recursive) {
    if (!self_) return;
    point();
    Lock* l = &lock_of(a);
    if (recursive && l->owner == self_) { ++l->count; return; }
    while (l->owner || l->readers) block(a);
    l->owner = self_; l->count = 1; self_->vc.join(l->vc);
}
static bool try_acquire(const void* a, bool recursive) {
    if (!self_) return true;
    point(); Lock* l = &lock_of(a);
    if (recursive && l->owner == self_) { ++l->count; return true; }
    if (l->owner || l->readers) return false;
    l->owner = self_; l->count = 1; self_->vc.join(l->vc); return true;
}
static void release(const void* a) {
    if (!self_) return;
    Lock& l = lock_of(a); if (l.owner != self_) return;
    if (--l.count) return;
    l.owner = nullptr; l.vc.join(self_->vc); ++self_->vc.c[self_->id]; wake(a);
}
static void acquire_shared(const void* a) { if (!self_) return; point(); Lock* l = &lock_of(a); while (l->owner) block(a); ++l->readers; self_->vc.join(l->vc); }
static void release_any(const void* a) {
    if (!self_) return; Lock& l = lock_of(a);
    if (l.owner == self_) { release(a); return; }
    if (l.readers) { --l.readers; l.vc.join(self_->vc); ++self_->vc.c[self_->id]; if (!l.readers) wake(a); }
}
static void barrier() {
    Th* me = self_; if (!me || !me->depth) return; Team* tm = me->ctx[me->depth - 1].team; if (!tm || tm->n == 1) return;
    point();
    tm->vc.join(me->vc); ++me->vc.c[me->id]; int g = tm->gen;
    if (++tm->arrived == tm->n) { tm->arrived = 0; ++tm->gen; wake(&tm->gen); }
    else while (tm->gen == g) block(&tm->gen);
    me->vc.join(tm->vc);
}

static void one(const std::function<void()>& body) {
    reset(); clear_locks(); begin_exec(); active = true;
    body();
    active = false;
}
void serial(const std::function<void()>& body) { Config c; c.team = 1; cfg = c; exploring = false; if (!path) path = (Choice*)__libc_malloc(sizeof(Choice) * MAXP); if (!ptab) ptab = (decltype(ptab))__libc_calloc(PH, sizeof *ptab); npath = pos = 0; self_ = &th[0]; one(body); }
Result explore(const Config& c, const std::function<void()>& body, const std::function<bool()>& done) {
    cfg = c; res = Result(); if (!path) path = (Choice*)__libc_malloc(sizeof(Choice) * MAXP); if (!ptab) ptab = (decltype(ptab))__libc_calloc(PH, sizeof *ptab);
    static bool pinned = false;
    if (!pinned) { pinned = true; cpu_set_t s; CPU_ZERO(&s); int cpu = sched_getcpu(); if (cpu >= 0) { CPU_SET(getpid() % sysconf(_SC_NPROCESSORS_ONLN), &s); if (sched_setaffinity(0, sizeof s, &s)) {} } }
    npath = 0; exploring = true;
    for (;;) {
        pos = 0; one(body); ++res.schedules; if (npath > res.max_depth) res.max_depth = npath;
        if (pos < npath) die("the execution is not reproducible: it ended early");
        bool go = done(); if (res.path.empty()) res.path = current_path();
        if (!go || !res.bad.empty()) break;
        res.path.clear();
        while (npath && path[npath - 1].i + 1 >= path[npath - 1].n) --npath;
        if (!npath) break;
        ++path[npath - 1].i;
    }
    exploring = false; return res;
}
void concurrently(const std::function<void()>* f, int n) {
    region(n, nullptr, nullptr, f);
}
}  // namespace sched
using namespace sched;

// ---- OpenMP entry points
extern "C" {
typedef void (*Micro)(int*, int*, ...);
struct ident_t;
static int team_size_next = 0;
static int cur_team() { Th* m = self_; return m && m->depth && m->ctx[m->depth - 1].team ? m->ctx[m->depth - 1].team->n : 1; }
static int cur_tid() { Th* m = self_; return m && m->depth ? m->ctx[m->depth - 1].tid : 0; }
static bool in_par() { Th* m = self_; if (!m) return false; for (Team* t = m->depth ? m->ctx[m->depth - 1].team : nullptr; t; t = t->up) if (t->n > 1 && !t->serialised) return true; return false; }
static void fork_args(int argc, Micro mt, void** a) {
    int n = cfg.team; if (team_size_next) { n = team_size_next < cfg.team ? team_size_next : cfg.team; team_size_next = 0; }
    if (!self_ || !active) n = 1;
    if (in_par() && !cfg.nested) n = 1;
    region(n, mt, a, nullptr);
}
void __kmpc_fork_call(ident_t*, int argc, Micro mt, ...) {
    void* a[24] = {}; va_list ap; va_start(ap, mt); if (argc > 24) { fprintf(stderr, "ERROR: region with %d arguments\n", argc); _exit(66); } for (int k = 0; k < argc; ++k) a[k] = va_arg(ap, void*); va_end(ap);
    if (!self_) self_ = &th[0];
    fork_args(argc, mt, a);
}
void __kmpc_fork_call_if(ident_t*, int argc, Micro mt, int cond, void* args) { void* a[24] = {args}; if (!self_) self_ = &th[0]; if (!cond) region(1, mt, a, nullptr); else fork_args(argc, mt, a); }
int __kmpc_global_thread_num(ident_t*) { return self_ ? self_->id : 0; }
void __kmpc_push_num_threads(ident_t*, int, int n) { team_size_next = n; }
void __kmpc_serialized_parallel(ident_t*, int) { Th* m = self_ ? self_ : (self_ = &th[0]); Team* t = (Team*)__libc_calloc(1, sizeof(Team)); t->n = 1; t->up = m->depth ? m->ctx[m->depth - 1].team : nullptr; m->ctx[m->depth++] = {t, 0, 0, 0}; }
void __kmpc_end_serialized_parallel(ident_t*, int) { Th* m = self_; --m->depth; __libc_free(m->ctx[m->depth].team); }
void __kmpc_barrier(ident_t*, int) { barrier(); }
int __kmpc_cancel_barrier(ident_t*, int) { barrier(); return 0; }
void __kmpc_flush(ident_t*) {}
int __kmpc_master(ident_t*, int) { return cur_tid() == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int, int f) { return cur_tid() == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int) { Th* m = self_; if (!m || !m->depth) return 1; Ctx& c = m->ctx[m->depth - 1]; if (c.team->n == 1) return 1; point(); int k = c.nsingle++ % 64; if (c.team->singles[k]) { if (c.team->singles[k] == c.team->n - 1) c.team->singles[k] = 0; else ++c.team->singles[k]; return 0; } c.team->singles[k] = c.team->n > 1 ? 1 : 0; return 1; }
void __kmpc_end_single(ident_t*, int) {}
void __kmpc_copyprivate(ident_t*, int, size_t, void* data, void (*f)(void*, void*), int did) { static void* d; if (did) d = data; barrier(); if (!did) f(data, d); barrier(); }
void __kmpc_critical(ident_t*, int, void* l) { acquire(l, false); }
void __kmpc_critical_with_hint(ident_t*, int, void* l, unsigned) { acquire(l, false); }
void __kmpc_end_critical(ident_t*, int, void* l) { release(l); }
void __kmpc_ordered(ident_t*, int) {}
void __kmpc_end_ordered(ident_t*, int) {}
int __kmpc_reduce_nowait(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* l) { if (cur_team() > 1) acquire(l, false); return 1; }
void __kmpc_end_reduce_nowait(ident_t*, int, void* l) { if (cur_team() > 1) release(l); }
int __kmpc_reduce(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* l) { if (cur_team() > 1) acquire(l, false); return 1; }
void __kmpc_end_reduce(ident_t*, int, void* l) { if (cur_team() > 1) { release(l); barrier(); } }
}
template<typename I> static void static_init(int sch, int* last, I* lo, I* hi, typename std::make_signed<I>::type* st, typename std::make_signed<I>::type incr, typename std::make_signed<I>::type chunk) {
    typedef typename std::make_signed<I>::type S; typedef typename std::make_unsigned<I>::type U;
    int n = cur_team(), t = cur_tid();
    U trip; if (incr > 0) { if (*hi < *lo) { *last = 0; if (st) *st = incr; return; } trip = (U)(*hi - *lo) / (U)incr + 1; } else { if (*lo < *hi) { *last = 0; if (st) *st = incr; return; } trip = (U)(*lo - *hi) / (U)(-incr) + 1; }
    sch &= 0xff;
    if (sch == 33 || sch == 65) {    // chunked
        if (chunk < 1) chunk = 1; S span = chunk * incr; *st = span * n; *last = t == (int)(((trip - 1) / (U)chunk) % (U)n); *lo = *lo + span * t; *hi = *lo + span - incr; return;
    }
    U small = trip / n, extra = trip % n; U first = t * small + ((U)t < extra ? t : extra), cnt = small + ((U)t < extra ? 1 : 0);
    I l = *lo; *last = trip && (first + cnt == trip) && cnt; *st = (S)trip * incr;
    *lo = l + (S)first * incr; *hi = *lo + (S)cnt * incr - incr;
    if (!cnt) { *last = 0; if (incr > 0 && !std::is_signed<I>::value && *lo == 0) { *lo = 1; *hi = 0; } }
}
struct Disp { int64_t lb, ub, st; };
template<typename I> static void disp_init(int sch, I lb, I ub, typename std::make_signed<I>::type st, typename std::make_signed<I>::type chunk) {
    Th* m = self_; if (!m->depth) { m->ctx[0] = {(Team*)__libc_calloc(1, sizeof(Team)), 0, 0, 0}; m->ctx[0].team->n = 1; m->depth = 1; }
    Ctx& c = m->ctx[m->depth - 1]; auto& l = c.team->loops[c.nloop++ % 64];
    if (!l.init) { l.init = true; l.next = 0; l.st = st; l.chunk = chunk < 1 ? 1 : chunk; l.total = st > 0 ? (ub < lb ? 0 : (int64_t)((ub - lb) / st) + 1) : (lb < ub ? 0 : (int64_t)((lb - ub) / -st) + 1); l.ub = (int64_t)lb; (void)sch; }
}
template<typename I> static int disp_next(int* last, I* lo, I* hi, typename std::make_signed<I>::type* st) {
    Th* m = self_; Ctx& c = m->ctx[m->depth - 1]; auto& l = c.team->loops[(c.nloop - 1) % 64];
    point();
    if (l.next >= l.total) return 0;
    int64_t a = l.next, b = a + l.chunk < l.total ? a + l.chunk : l.total; l.next = b;
    *lo = (I)(l.ub + a * l.st); *hi = (I)(l.ub + (b - 1) * l.st); if (st) *st = l.st; if (last) *last = b == l.total; return 1;
}
extern "C" {
#define FORMS(SUF, I, S) \
void __kmpc_for_static_init_##SUF(ident_t*, int, int sch, int* last, I* lo, I* hi, S* st, S incr, S chunk) { static_init<I>(sch, last, lo, hi, st, incr, chunk); } \
void __kmpc_dispatch_init_##SUF(ident_t*, int, int sch, I lb, I ub, S st, S chunk) { disp_init<I>(sch, lb, ub, st, chunk); } \
int __kmpc_dispatch_next_##SUF(ident_t*, int, int* last, I* lo, I* hi, S* st) { return disp_next<I>(last, lo, hi, st); } \
void __kmpc_dispatch_fini_##SUF(ident_t*, int) {}
FORMS(4, int32_t, int32_t) FORMS(4u, uint32_t, int32_t) FORMS(8, int64_t, int64_t) FORMS(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident_t*, int) {}
void __kmpc_dispatch_deinit(ident_t*, int) {}
struct Task { void* shareds; int (*routine)(int, void*); int part; void* d[4]; };
void* __kmpc_omp_task_alloc(ident_t*, int, int, size_t n, size_t sh, int (*r)(int, void*)) { size_t o = (n + 15) / 16 * 16; Task* t = (Task*)malloc(o + sh + 16); memset(t, 0, o + sh); t->shareds = (char*)t + o; t->routine = r; return t; }
int __kmpc_omp_task(ident_t*, int g, void* t) { point(); ((Task*)t)->routine(g, t); return 0; }
void __kmpc_omp_task_begin_if0(ident_t*, int, void*) {}
void __kmpc_omp_task_complete_if0(ident_t*, int, void*) {}
int __kmpc_omp_taskwait(ident_t*, int) { return 0; }
int __kmpc_omp_taskyield(ident_t*, int, int) { point(); return 0; }
void __kmpc_taskgroup(ident_t*, int) {}
void __kmpc_end_taskgroup(ident_t*, int) {}
int omp_get_thread_num() { return cur_tid(); }
int omp_get_num_threads() { return cur_team(); }
int omp_get_max_threads() { return in_par() && !cfg.nested ? 1 : cfg.team; }
int omp_get_num_procs() { return cfg.team; }
int omp_get_thread_limit() { return T; }
int omp_in_parallel() { return in_par(); }
void omp_set_num_threads(int) {}
int omp_get_level() { return self_ ? self_->depth : 0; }
int omp_get_active_level() { return in_par(); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return cfg.nested; }
int omp_get_max_active_levels() { return cfg.nested ? 8 : 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return 0; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* l) { acquire(l, false); } void omp_unset_lock(void* l) { release(l); } int omp_test_lock(void* l) { return try_acquire(l, false); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* l) { acquire(l, true); } void omp_unset_nest_lock(void* l) { release(l); } int omp_test_nest_lock(void* l) { return try_acquire(l, true); }

// ---- pthread locks
int pthread_mutex_lock(pthread_mutex_t* m) { acquire(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return try_acquire(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { release(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; if (active || self_) { Lock& l = lock_of(m); const void* p = l.a; memset((void*)&l, 0, sizeof l); l.a = p; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { acquire_shared(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { acquire(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { release_any(m); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(int*)l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { acquire((const void*)l, false); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { release((const void*)l); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 2) return 0; *o = 2; f(); return 0; }
// static initialisation
int __cxa_guard_acquire(__cxxabiv1::__guard* g) { if (*(volatile char*)g) { if (self_) self_->vc.join(lock_of(g).vc); return 0; } if (!self_) return 1; acquire(g, false); if (*(volatile char*)g) { release(g); return 0; } return 1; }
void __cxa_guard_release(__cxxabiv1::__guard* g) { *(volatile char*)g = 1; if (self_) release(g); }
void __cxa_guard_abort(__cxxabiv1::__guard* g) { if (self_) release(g); }

// ---- allocation
void* malloc(size_t n) { if (active && self_) return arena(n, 16); return __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) afree(p, __builtin_return_address(0)); else __libc_free(p); }
void* calloc(size_t a, size_t b) { if (active && self_) { void* p = arena(a * b, 16); memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (in_arena(p) || (active && self_)) { size_t o = in_arena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p); void* q = malloc(n); memcpy(q, p, o < n ? o : n); free(p); return q; }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { if (active && self_) return arena(n, al); return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }

// ---- instrumentation
#define RA __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, 0, RA); } void __tsan_read2(void* p) { access(p, 2, 0, RA); } void __tsan_read4(void* p) { access(p, 4, 0, RA); } void __tsan_read8(void* p) { access(p, 8, 0, RA); } void __tsan_read16(void* p) { access(p, 16, 0, RA); }
void __tsan_write1(void* p) { access(p, 1, 1, RA); } void __tsan_write2(void* p) { access(p, 2, 1, RA); } void __tsan_write4(void* p) { access(p, 4, 1, RA); } void __tsan_write8(void* p) { access(p, 8, 1, RA); } void __tsan_write16(void* p) { access(p, 16, 1, RA); }
void __tsan_unaligned_read2(void* p) { access(p, 2, 0, RA); } void __tsan_unaligned_read4(void* p) { access(p, 4, 0, RA); } void __tsan_unaligned_read8(void* p) { access(p, 8, 0, RA); } void __tsan_unaligned_read16(void* p) { access(p, 16, 0, RA); }
void __tsan_unaligned_write2(void* p) { access(p, 2, 1, RA); } void __tsan_unaligned_write4(void* p) { access(p, 4, 1, RA); } void __tsan_unaligned_write8(void* p) { access(p, 8, 1, RA); } void __tsan_unaligned_write16(void* p) { access(p, 16, 1, RA); }
#define RW(N) void __tsan_read_write##N(void* p) { access(p, N, 1, RA); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define VO(N) void __tsan_volatile_read##N(void* p) { access(p, N, 0, RA); } void __tsan_volatile_write##N(void* p) { access(p, N, 1, RA); } void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, 0, RA); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, 1, RA); }
VO(1) VO(2) VO(4) VO(8) VO(16)
void __tsan_vptr_read(void** p) { access(p, 8, 0, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, RA); }
void __tsan_read_range(void* p, size_t n) { access(p, n, 0, RA); } void __tsan_write_range(void* p, size_t n) { access(p, n, 1, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(d, n, 1, RA); access(s, n, 0, RA); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(d, n, 1, RA); access(s, n, 0, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, n, 1, RA); return memset(d, v, n); }
}
// Atomics order everything: a scheduling point, then acquire and release on the address.
static void atom(const volatile void* a, int mo) { if (!self_ || !active || !armed) return; point(); if (mo) { Lock& l = lock_of((const char*)a + 1); self_->vc.join(l.vc); l.vc.join(self_->vc); ++self_->vc.c[self_->id]; } }
#define ATOM(N, I) extern "C" { \
I __tsan_atomic##N##_load(const volatile I* a, int mo) { atom(a, mo); return *a; } \
void __tsan_atomic##N##_store(volatile I* a, I v, int mo) { atom(a, mo); *a = v; } \
I __tsan_atomic##N##_exchange(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = v; return o; } \
I __tsan_atomic##N##_fetch_add(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = o + v; return o; } \
I __tsan_atomic##N##_fetch_sub(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = o - v; return o; } \
I __tsan_atomic##N##_fetch_and(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = o & v; return o; } \
I __tsan_atomic##N##_fetch_or(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = o | v; return o; } \
I __tsan_atomic##N##_fetch_xor(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = o ^ v; return o; } \
I __tsan_atomic##N##_fetch_nand(volatile I* a, I v, int mo) { atom(a, mo); I o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile I* a, I* e, I v, int mo, int) { atom(a, mo); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile I* a, I* e, I v, int mo, int) { atom(a, mo); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
I __tsan_atomic##N##_compare_exchange_val(volatile I* a, I e, I v, int mo, int) { atom(a, mo); I o = *a; if (o == e) *a = v; return o; } }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, __uint128_t)
extern "C" void __tsan_atomic_thread_fence(int) { if (self_ && active && armed) point(); }
extern "C" void __tsan_atomic_signal_fence(int) {}
