// Allocation ledger and fault injector: replaces the global operator new and
// delete of the whole program, and provides two user-supplied function pairs.
// Include in exactly one translation unit.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <string>
#ifdef VH_TRACE
#include <execinfo.h>
#endif

namespace led {
// VH_TRACE: where the leaking blocks and the failing allocation came from
#ifdef VH_TRACE
struct Bt { void *f[24]; int n; };
inline Bt bts[65536]; inline void *btp[65536]; inline int nbt = 0;
inline void note(void *p) { if (nbt < 65536) { btp[nbt] = p; bts[nbt].n = backtrace(bts[nbt].f, 24); nbt++; } }
inline void forget(void *p) { for (int k = nbt - 1; k >= 0; k--) if (btp[k] == p) { btp[k] = nullptr; return; } }
inline void report() { for (int k = 0; k < nbt; k++) if (btp[k]) { fprintf(stderr, "leaked:\n"); backtrace_symbols_fd(bts[k].f, bts[k].n, 2); } nbt = 0; }
#endif
// Inside a window every block is counted; blocks of a window must be gone when it closes.
struct State { bool on = false; uint32_t epoch = 0; long live = 0; long long seen = 0; long long failAt = -1; bool sticky = false; bool failed = false; const char *err = nullptr; };
inline State g;
struct alignas(16) Head { uint64_t magic; uint32_t epoch, size; };
constexpr uint64_t kLive = 0x51edba11a110c8edull, kDead = 0xdeadb10cdeadb10cull;
inline bool strike() {
    if (!g.on) return false;
    long long k = g.seen++;
    if (g.failAt < 0) return false;
    if (k == g.failAt || (g.sticky && k > g.failAt)) {
        g.failed = true;
#ifdef VH_TRACE
        if (k == g.failAt) { g.on = false; void *f[24]; fprintf(stderr, "failing:\n"); backtrace_symbols_fd(f, backtrace(f, 24), 2); g.on = true; }
#endif
        return true;
    }
    return false;
}
inline void *raw(size_t n, bool counted) {
    Head *h = (Head *)malloc(sizeof(Head) + n + (n == 0));
    if (!h) abort();
    h->magic = kLive; h->epoch = counted && g.on ? g.epoch : 0; h->size = (uint32_t)n;
    if (h->epoch) { g.live++;
#ifdef VH_TRACE
        bool o = g.on; g.on = false; note(h + 1); g.on = o;
#endif
    }
    return h + 1;
}
inline void drop(void *p) {
    if (!p) return;
    Head *h = (Head *)p - 1;
    if (h->magic != kLive) { g.err = h->magic == kDead ? "a block was freed twice" : "a pointer that is no block was freed"; fprintf(stderr, "ledger: %s\n", g.err); abort(); }
    if (h->epoch && h->epoch == g.epoch) { g.live--;
#ifdef VH_TRACE
        forget(p);
#endif
    }
    h->magic = kDead;
    free(h);
}
inline void open() { g.on = true; g.epoch++; g.live = 0; g.seen = 0; g.failAt = -1; g.sticky = false; g.failed = false; }
inline void arm(long long k, bool sticky) { g.seen = 0; g.failAt = k; g.sticky = sticky; g.failed = false; }
inline void disarm() { g.failAt = -1; }
inline long close() {
    g.on = false; g.failAt = -1;
#ifdef VH_TRACE
    if (g.live) report();
    nbt = 0;
#endif
    return g.live;
}
// Not counted, not failed: for the monitors' own use inside a window.
struct Pause { bool was; Pause() : was(g.on) { g.on = false; } ~Pause() { g.on = was; } };

// User-supplied allocation functions A (malloc-like) and B (new-like, may throw). Each pair only accepts its own blocks.
struct Pool { long live = 0; long long seen = 0, failAt = -1; bool sticky = false, failed = false, throws = false; uint64_t tag = 0; };
inline Pool pool[2];
struct alignas(16) PHead { uint64_t tag; size_t size; };
template <int K> void *poolAlloc(size_t n) {
    Pool &p = pool[K]; long long k = p.seen++;
    if (p.failAt >= 0 && (k == p.failAt || (p.sticky && k > p.failAt))) { p.failed = true; if (p.throws) throw std::bad_alloc(); return nullptr; }
    PHead *h = (PHead *)malloc(sizeof(PHead) + n); if (!h) abort();
    h->tag = 0xa110c0 + K; h->size = n; p.live++; return h + 1;
}
template <int K> void poolFree(void *q) {
    if (!q) return;
    PHead *h = (PHead *)q - 1;
    if (h->tag != 0xa110c0ull + K) { fprintf(stderr, "ledger: pool %d was given a block it does not own\n", K); abort(); }
    h->tag = 0; pool[K].live--; free(h);
}
} // namespace led

void *operator new(size_t n) { if (led::strike()) throw std::bad_alloc(); return led::raw(n, true); }
void *operator new[](size_t n) { if (led::strike()) throw std::bad_alloc(); return led::raw(n, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (led::strike()) return nullptr; return led::raw(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (led::strike()) return nullptr; return led::raw(n, true); }
void operator delete(void *p) noexcept { led::drop(p); }
void operator delete[](void *p) noexcept { led::drop(p); }
void operator delete(void *p, size_t) noexcept { led::drop(p); }
void operator delete[](void *p, size_t) noexcept { led::drop(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { led::drop(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { led::drop(p); }
