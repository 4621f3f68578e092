// Run-time library behind the compiler's thread instrumentation: serialises
// the threads, lets a plan decide who runs at each scheduling point, keeps
// vector clocks, and reports accesses that no synchronisation orders.
#include "sched.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <csignal>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
namespace sch {
static thread_local int tid = -1;
// ---- memory ----
static char *region[kThreads + 1]; static size_t used[kThreads + 1]; static const size_t kRegion = 1ull << 30;   // the last one: protected
static bool protecting = false;
static char *base = nullptr;
static void needRegions() { if (base) return; base = (char *)mmap(nullptr, kRegion * (kThreads + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) _exit(60); for (int k = 0; k <= kThreads; k++) region[k] = base + k * kRegion; }
static bool inRegions(const void *p) { return base && (const char *)p >= base && (const char *)p < base + kRegion * (kThreads + 1); }
static void *bump(int r, size_t n, size_t al) {
    needRegions(); if (al < 16) al = 16;
    size_t o = (used[r] + 16 + al - 1) / al * al; if (o + n + 64 > kRegion) _exit(61);
    used[r] = o + n; char *p = region[r] + o; *(size_t *)(p - 8) = n; return p;
}
static int where() { return tid >= 0 ? tid : protecting ? kThreads : -1; }
static void *xmalloc(size_t n, size_t al = 16) { int r = where(); return r < 0 ? al > 16 ? __libc_memalign(al, n) : __libc_malloc(n) : bump(r, n, al); }
static void xfree(void *p) { if (!p || inRegions(p)) return; __libc_free(p); }
} // namespace sch
extern "C" {
void *malloc(size_t n) { return sch::xmalloc(n); }
void free(void *p) { sch::xfree(p); }
void *calloc(size_t a, size_t b) { if (sch::where() < 0) return __libc_calloc(a, b); void *p = sch::xmalloc(a * b); memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n) { if (sch::where() < 0 && !sch::inRegions(p)) return __libc_realloc(p, n); void *q = sch::xmalloc(n); if (p) { size_t o = sch::inRegions(p) ? *(size_t *)((char *)p - 8) : n; memcpy(q, p, o < n ? o : n); sch::xfree(p); } return q; }
void *memalign(size_t al, size_t n) { return sch::xmalloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return sch::xmalloc(n, al); }
int posix_memalign(void **q, size_t al, size_t n) { *q = sch::xmalloc(n, al); return 0; }
}
namespace sch {
// ---- scheduler ----
static Shared *S = nullptr; static Options opt; static const Plan *plan = nullptr; static int nThreads = 0;
static int turn = -1; enum { Ready, Blocked, Done }; static int state[kThreads]; static const void *waitsFor[kThreads];
static int preempts = 0; static size_t planPos = 0; static char *stackLo[kThreads], *stackHi[kThreads];
static uint32_t VC[kThreads][kThreads];
static struct { const char *p; size_t n; } excl[16]; static int nExcl = 0;
static bool active() { return tid >= 0 && S; }
static void fatal(const char *m) { if (!S->err[0]) snprintf(S->err, sizeof S->err, "%s", m); }
static void wake(int t) { __atomic_store_n(&turn, t, __ATOMIC_SEQ_CST); syscall(SYS_futex, &turn, FUTEX_WAKE, 64, nullptr, nullptr, 0); }
static void await(int me) { for (;;) { int t = __atomic_load_n(&turn, __ATOMIC_SEQ_CST); if (t == me) return; syscall(SYS_futex, &turn, FUTEX_WAIT, t, nullptr, nullptr, 0); } }
// Who runs next; `me` may go on when canGo.
static void decide(int me, bool canGo) {
    int en = 0; for (int k = 0; k < nThreads; k++) if (state[k] == Ready && (k != me || canGo)) en |= 1 << k;
    if (!en) {
        bool all = true; for (int k = 0; k < nThreads; k++) all = all && state[k] == Done;
        if (!all) { S->deadlock = 1; fatal("the threads wait for one another for ever"); _exit(52); }
        wake(kThreads); return;                                     // the main thread
    }
    int next = canGo ? me : __builtin_ctz(en);
    if (S->nDec < kDecisions) {
        int i = S->nDec++;
        if (planPos < plan->at.size() && plan->at[planPos].first == i) { int t = plan->at[planPos++].second; if (en >> t & 1) { if (canGo && t != me) preempts++; next = t; } }
        S->dec[i] = {(int8_t)(canGo ? me : -1), (int8_t)next, (uint8_t)en, (uint8_t)preempts};
    } else S->overflow = 1;
    if (next == me) return;
    wake(next);
    if (state[me] != Done) await(me);
}
static void point() { S->points++; decide(tid, true); }
static void block(const void *a) { state[tid] = Blocked; waitsFor[tid] = a; decide(tid, false); }
static void unblock(const void *a) { for (int k = 0; k < nThreads; k++) if (state[k] == Blocked && waitsFor[k] == a) state[k] = Ready; }
// ---- happens-before ----
struct SyncVar { uint64_t a; uint32_t vc[kThreads]; int owner, count, readers, idx; uint8_t ginit, guard, shared; };
static SyncVar *svs; static const size_t kSv = 1 << 16;
static SyncVar &sv(const void *p) { uint64_t a = (uint64_t)p; size_t h = (a * 0x9E3779B97F4A7C15ull) >> 48; for (;; h = (h + 1) & (kSv - 1)) { if (svs[h].a == a) return svs[h]; if (!svs[h].a) { svs[h].a = a; svs[h].owner = -1; return svs[h]; } } }
static void acquire(SyncVar &v) { for (int k = 0; k < nThreads; k++) if (v.vc[k] > VC[tid][k]) VC[tid][k] = v.vc[k]; }
static void release(SyncVar &v) { for (int k = 0; k < nThreads; k++) if (VC[tid][k] > v.vc[k]) v.vc[k] = VC[tid][k]; VC[tid][tid]++; }
static bool sharedSync(SyncVar &v, const void *p, bool write) {
    uint64_t a = (uint64_t)p;
    if (v.idx == 0 && S->nSync < kSync) {
        S->sync[S->nSync] = a; S->syncMask[S->nSync++] = 0; v.idx = S->nSync;
        if (opt.syncShared) for (uint64_t x : *opt.syncShared) if (x == a) v.shared = 1;
    } else if (v.idx == 0) S->overflow = 1;
    if (v.idx) S->syncMask[v.idx - 1] |= (uint8_t)(1 << tid | (write ? 0x80 : 0));
    return v.shared;
}
static void syncPoint(const void *p, bool write = true) {
    if ((char *)p >= stackLo[tid] && (char *)p < stackHi[tid]) return;
    SyncVar &v = sv(p); if (!sharedSync(v, p, write)) return;
    if (v.guard && *(const volatile char *)p) return;               // initialised for good: nobody can change what this sees
    point();
}
struct Cell { uint64_t g; uint32_t wc, rc[kThreads]; uint8_t wt, wm, watomic, rm[kThreads], ratomic[kThreads]; void *wpc, *rpc[kThreads]; };
static Cell *cells; static const size_t kCells = 1 << 21; static size_t nCells = 0;
static std::string nameOf(void *pc) { Dl_info d; if (dladdr(pc, &d) && d.dli_sname) return d.dli_sname; return "?"; }
static void race(const char *what, int a, void *pa, int b, void *pb, const void *at) {
    if (S->err[0]) return;
    snprintf(S->err, sizeof S->err, "data race: %s at %p, thread %d in %.300s, thread %d in %.300s", what, at, a, nameOf(pa).c_str(), b, nameOf(pb).c_str());
}
static void touch(const char *p, size_t n, bool write, bool atomic, void *pc) {
    S->accesses++;
    if (!opt.races || (p >= stackLo[tid] && p < stackHi[tid])) return;
    if (write && p >= region[kThreads] && p < region[kThreads] + used[kThreads]) S->schemaWrites++;
    for (int k = 0; k < nExcl; k++) if (p >= excl[k].p && p < excl[k].p + excl[k].n) return;
    while (n) {
        uint64_t g = (uint64_t)p >> 3; size_t o = (uint64_t)p & 7, m = 8 - o < n ? 8 - o : n; uint8_t mask = (uint8_t)(((1u << m) - 1) << o);
        size_t h = (g + (g >> 21) * 0x9E3779B1ull) & (kCells - 1); while (cells[h].g && cells[h].g != g) h = (h + 1) & (kCells - 1);
        Cell &c = cells[h]; if (!c.g) { if (++nCells > kCells * 3 / 4) { S->overflow = 1; return; } c.g = g; c.wt = 255; }
        uint32_t *vc = VC[tid];
        if (!atomic && c.wt == tid && c.wc == vc[tid] && (c.wm & mask) == mask && (!write || !c.watomic)) {      // nothing happened since this thread wrote it last, unless others read it
            if (!write) { p += m; n -= m; continue; }
            bool r = false; for (int k = 0; k < nThreads; k++) r |= k != tid && c.rc[k]; if (!r) { p += m; n -= m; continue; }
        }
        if (c.wt != 255 && c.wt != tid && (c.wm & mask) && c.wc > vc[c.wt] && !(atomic && c.watomic)) race(write ? "two writes" : "a write and a read", c.wt, c.wpc, tid, pc, p);
        if (write) {
            for (int k = 0; k < nThreads; k++) if (k != tid && c.rc[k] && (c.rm[k] & mask) && c.rc[k] > vc[k] && !(atomic && c.ratomic[k])) race("a read and a write", k, c.rpc[k], tid, pc, p);
            if (c.wt == tid && c.wc == vc[tid]) c.wm |= mask; else c.wm = mask;
            c.wt = (uint8_t)tid; c.wc = vc[tid]; c.watomic = atomic; c.wpc = pc;
        } else { if (c.rc[tid] == vc[tid]) { c.rm[tid] |= mask; c.ratomic[tid] &= atomic; } else { c.rm[tid] = mask; c.ratomic[tid] = atomic; } c.rc[tid] = vc[tid]; c.rpc[tid] = pc; }
        p += m; n -= m;
    }
}
// ---- function entries ----
struct PcInfo { void *pc; bool ours; }; static PcInfo *pcs; static const size_t kPcs = 1 << 16;
static bool oursFn(void *pc) {
    size_t h = ((uint64_t)pc * 0x9E3779B97F4A7C15ull) >> 48; while (pcs[h].pc && pcs[h].pc != pc) h = (h + 1) & (kPcs - 1);
    if (pcs[h].pc) return pcs[h].ours;
    std::string n = nameOf(pc); bool o = (n.compare(0, 12, "_ZN8valijson") == 0 || n.compare(0, 13, "_ZNK8valijson") == 0) && n.find("8adapters") > 20;
    pcs[h].pc = pc; pcs[h].ours = o; return o;
}
void exclude(const void *p, size_t n) { if (nExcl < 16) excl[nExcl++] = {(const char *)p, n}; }
void protectBegin() { needRegions(); protecting = true; }
void protectEnd() { protecting = false; }
Shared *newShared() { if (!pcs) pcs = (PcInfo *)mmap(nullptr, sizeof(PcInfo) * kPcs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return p == MAP_FAILED ? nullptr : (Shared *)p; }
static void onSegv(int sig, siginfo_t *i, void *) {
    (void)i; if (S && !S->err[0]) snprintf(S->err, sizeof S->err, "a thread ended by signal %d", sig);
    _exit(53);
}
struct Start { int t; const Job *j; };
static void *worker(void *x) {
    Start *s = (Start *)x; int me = s->t;
    await(me); tid = me;
    std::string o;
    try { o = (*s->j)(); } catch (...) { o = "an exception left the thread"; }
    int n = (int)(o.size() < (size_t)kText ? o.size() : (size_t)kText); memcpy(S->out[me], o.data(), (size_t)n); S->outLen[me] = n;
    state[me] = Done; int t = tid; decide(t, false);
    tid = -1; S->finished++;
    return nullptr;
}
static void child(const std::vector<Job> &jobs, const Plan &p, const Options &o, Shared &sh) {
    needRegions(); nThreads = (int)jobs.size(); plan = &p; opt = o;
    svs = (SyncVar *)mmap(nullptr, sizeof(SyncVar) * kSv, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell *)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO; for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    signal(SIGALRM, SIG_DFL);
    pthread_t th[kThreads]; Start st[kThreads]; const size_t kStack = 8 << 20;
    for (int k = 0; k < nThreads; k++) {
        state[k] = Ready; for (int q = 0; q < nThreads; q++) VC[k][q] = q == k ? 1 : 0;
        char *m = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stackLo[k] = m; stackHi[k] = m + kStack; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, m, kStack); st[k] = {k, &jobs[k]}; if (pthread_create(&th[k], &a, worker, &st[k])) _exit(62);
    }
    S = &sh; turn = -1;
    // the first decision: who starts
    { int i = S->nDec++; int en = (1 << nThreads) - 1, next = 0; if (planPos < p.at.size() && p.at[planPos].first == i) next = p.at[planPos++].second; S->dec[i] = {-1, (int8_t)next, (uint8_t)en, 0}; wake(next); }
    await(kThreads);
    for (int k = 0; k < nThreads; k++) pthread_join(th[k], nullptr);
    _exit(0);
}
std::string execute(const std::vector<Job> &jobs, const Plan &p, const Options &o, Shared &sh, bool &stalled) {
    stalled = false;
    sh.nDec = sh.nSync = sh.overflow = sh.deadlock = sh.finished = 0; sh.accesses = sh.entries = sh.points = sh.schemaWrites = 0; sh.err[0] = 0; memset(sh.outLen, 0, sizeof sh.outLen);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) { child(jobs, p, o, sh); _exit(0); }
    int st = 0; long waited = 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break;
        struct timespec ts = {0, waited < 200 ? 100000 : 2000000}; nanosleep(&ts, nullptr); waited++;
        if (waited > 200 + o.seconds * 500L) { kill(pid, SIGKILL); waitpid(pid, &st, 0); stalled = true; return ""; }
    }
    if (sh.err[0]) return sh.err;
    if (!WIFEXITED(st)) return "the process ended by signal " + std::to_string(WTERMSIG(st));
    if (WEXITSTATUS(st) != 0) return "the process ended with status " + std::to_string(WEXITSTATUS(st));
    if (sh.finished != (int)jobs.size()) return "a thread did not finish";
    return "";
}
} // namespace sch
using namespace sch;
#define PC __builtin_return_address(0)
#define ACC(n) \
    extern "C" void __tsan_read##n(void *p) { if (active()) touch((char *)p, n, false, false, PC); } \
    extern "C" void __tsan_write##n(void *p) { if (active()) touch((char *)p, n, true, false, PC); } \
    extern "C" void __tsan_unaligned_read##n(void *p) { if (active()) touch((char *)p, n, false, false, PC); } \
    extern "C" void __tsan_unaligned_write##n(void *p) { if (active()) touch((char *)p, n, true, false, PC); } \
    extern "C" void __tsan_volatile_read##n(void *p) { if (active()) touch((char *)p, n, false, false, PC); } \
    extern "C" void __tsan_volatile_write##n(void *p) { if (active()) touch((char *)p, n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (active() && opt.entries) { void *pc = PC; if (oursFn(pc)) { S->entries++; point(); } } }
void __tsan_func_exit() {}
void __tsan_read_range(void *p, size_t n) { if (active()) touch((char *)p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (active()) touch((char *)p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (active() && *p != v) touch((char *)p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { if (active()) touch((char *)p, 8, false, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}
static bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
template <class T> static void pre(volatile T *a, bool write, int mo, void *pc) { if (!active()) return; syncPoint((const void *)a, write); touch((char *)a, sizeof(T), write, true, pc); (void)mo; }
template <class T> static void post(volatile T *a, bool rd, bool wr, int mo) { if (!active()) return; SyncVar &v = sv((const void *)a); if (rd && isAcq(mo)) acquire(v); if (wr && isRel(mo)) release(v); }
#define ATO(bits, T) \
    extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int mo) { pre(a, false, mo, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); post(a, true, false, mo); return v; } \
    extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { pre(a, true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); post(a, false, true, mo); } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { pre(a, true, mo, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); post(a, true, true, mo); return r; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { pre(a, true, mo, PC); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, true, r, mo); return r; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) { pre(a, true, mo, PC); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, true, r, mo); return r; } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) { pre(a, true, mo, PC); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, true, true, mo); return e; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) { if (active()) { SyncVar &v = sv((void *)8); acquire(v); release(v); } }
extern "C" void __tsan_atomic_signal_fence(int) {}
// ---- function-local statics: byte 0 done, byte 1 in progress ----
extern "C" int __cxa_guard_acquire(uint64_t *g) {
    char *b = (char *)g;
    if (!active()) { if (b[0]) return 0; b[1] = 1; return 1; }
    for (;;) {
        SyncVar &v = sv(g); v.guard = 1; syncPoint(g);
        if (b[0]) { acquire(v); return 0; }
        if (!b[1]) { b[1] = 1; acquire(v); return 1; }
        block(g);
    }
}
extern "C" void __cxa_guard_release(uint64_t *g) { char *b = (char *)g; if (active()) { release(sv(g)); } b[0] = 1; b[1] = 0; if (active()) { unblock(g); if (sv(g).shared) point(); } }
extern "C" void __cxa_guard_abort(uint64_t *g) { char *b = (char *)g; b[1] = 0; if (active()) { release(sv(g)); unblock(g); syncPoint(g); } }
// ---- mutexes ----
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active()) { static decltype(&pthread_mutex_lock) f = nullptr; if (!f) f = REAL(pthread_mutex_lock); return f(m); }
    syncPoint(m); SyncVar &v = sv(m);
    while (v.owner >= 0 && v.owner != tid) block(m);
    v.owner = tid; v.count++; acquire(v); return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active()) { static decltype(&pthread_mutex_trylock) f = nullptr; if (!f) f = REAL(pthread_mutex_trylock); return f(m); }
    syncPoint(m); SyncVar &v = sv(m); if (v.owner >= 0 && v.owner != tid) return EBUSY; v.owner = tid; v.count++; acquire(v); return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active()) { static decltype(&pthread_mutex_unlock) f = nullptr; if (!f) f = REAL(pthread_mutex_unlock); return f(m); }
    SyncVar &v = sv(m); release(v); if (--v.count <= 0) { v.count = 0; v.owner = -1; unblock(m); } syncPoint(m); return 0;
}
static int rw(pthread_rwlock_t *l, bool write, bool tryOnly) {
    syncPoint(l); SyncVar &v = sv(l);
    while ((v.owner >= 0 && v.owner != tid) || (write && v.readers)) { if (tryOnly) return EBUSY; block(l); }
    if (write) { v.owner = tid; v.count++; } else v.readers++;
    acquire(v); return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!active()) return REAL(pthread_rwlock_rdlock)(l); return rw(l, false, false); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!active()) return REAL(pthread_rwlock_wrlock)(l); return rw(l, true, false); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!active()) return REAL(pthread_rwlock_tryrdlock)(l); return rw(l, false, true); }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!active()) return REAL(pthread_rwlock_trywrlock)(l); return rw(l, true, true); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!active()) return REAL(pthread_rwlock_unlock)(l); SyncVar &v = sv(l); release(v); if (v.owner == tid) { if (--v.count <= 0) { v.owner = -1; v.count = 0; } } else if (v.readers) v.readers--; unblock(l); syncPoint(l); return 0; }
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!active()) return REAL(pthread_once)(o, f);
    for (;;) {
        syncPoint(o); SyncVar &v = sv(o);
        if (*o == 2) return 0;                                       // done before the threads started
        if (v.ginit == 2) { acquire(v); return 0; }
        if (!v.ginit) { v.ginit = 1; try { f(); } catch (...) { v.ginit = 0; release(v); unblock(o); throw; } v.ginit = 2; release(v); unblock(o); syncPoint(o); return 0; }
        block(o);
    }
}

// ---- what the C and C++ libraries do to memory on the code's behalf ----
extern "C" void *memmove(void *d, const void *s, size_t n) {
    if (active() && n) { touch((const char *)s, n, false, false, PC); touch((const char *)d, n, true, false, PC); }
    void *r = d;
    if (d == s || !n) return r;
    if (d < s || (char *)d >= (const char *)s + n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
    d = (char *)d + n - 1; s = (const char *)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
extern "C" void *memcpy(void *d, const void *s, size_t n) {
    if (active() && n) { touch((const char *)s, n, false, false, PC); touch((const char *)d, n, true, false, PC); }
    void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
extern "C" void *memset(void *d, int c, size_t n) {
    if (active() && n) touch((const char *)d, n, true, false, PC);
    void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
extern "C" int memcmp(const void *a, const void *b, size_t n) {
    if (active() && n) { touch((const char *)a, n, false, false, PC); touch((const char *)b, n, false, false, PC); }
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
#include <map>
#include <list>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    typedef void (*F)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base &);
    static F f = nullptr; if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    if (active()) { touch((char *)&h, sizeof h, true, false, PC); touch((char *)p, sizeof *p, true, false, PC); }
    f(left, x, p, h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
    typedef _Rb_tree_node_base *(*F)(_Rb_tree_node_base *, _Rb_tree_node_base &);
    static F f = nullptr; if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    if (active()) { touch((char *)&h, sizeof h, true, false, PC); touch((char *)z, sizeof *z, true, false, PC); }
    return f(z, h);
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept {
    if (active()) { touch((char *)pos, sizeof *pos, true, false, PC); touch((char *)pos->_M_prev, sizeof *pos, true, false, PC); }
    _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    if (active()) { touch((char *)_M_next, sizeof *this, true, false, PC); touch((char *)_M_prev, sizeof *this, true, false, PC); }
    _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next;
}
}
}
