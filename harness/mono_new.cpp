// operator new whose addresses only ever grow: what depends on the order of
// addresses (tracks in a cluster are sorted by pointer) then depends on the
// order of allocation alone, so two equal histories give equal results.
#include <sys/mman.h>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <new>
namespace {
const size_t N = size_t(1) << 37, B = 1 << 20;
char* base = nullptr; std::atomic<size_t> top{0}; std::atomic<int32_t>* live = nullptr; std::atomic<int> ready{0};
void init() {
    void* p = mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void* q = mmap(nullptr, N / B * sizeof(*live), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || q == MAP_FAILED) abort();
    base = (char*)p; live = (std::atomic<int32_t>*)q; ready = 1;
}
struct Init { Init() { if (!ready) init(); } } init_;
void* get(size_t n, size_t al) {
    if (!ready) init();
    if (al < 16) al = 16;
    if (n >= B / 2) { void* p = nullptr; if (posix_memalign(&p, al, n)) abort(); return p; }
    for (;;) {
        size_t t = top, s = (t + al - 1) / al * al, e = s + (n ? n : 1);
        if (s / B != (e - 1) / B) { s = (s / B + 1) * B; e = s + n; }          // within one block
        if (e > N) abort();
        if (top.compare_exchange_weak(t, e)) { ++live[s / B]; return base + s; }
    }
}
void put(void* p) {
    if (!p) return;
    if ((char*)p < base || (char*)p >= base + N) { free(p); return; }
    size_t b = ((char*)p - base) / B;
    if (--live[b] == 0 && top / B > b) madvise(base + b * B, B, MADV_DONTNEED);
}
}
void* operator new(size_t n) { return get(n, 16); }
void* operator new[](size_t n) { return get(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
