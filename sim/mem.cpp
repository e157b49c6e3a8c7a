// Heap of the simulated process (with failure injection and shadow), data race detector, ThreadSanitizer entry points.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

#define EXPORT __attribute__((visibility("default"), used))
#define PC ((uintptr_t)__builtin_return_address(0))

namespace rt {

int g_fill = -1;
int64_t alloc_fail_at = -1;
bool alloc_fail_persist = false;
int64_t alloc_seen = 0;
uint64_t alloc_failed = 0, alloc_failed_total = 0;
size_t alloc_min_size = 0;

// ------------------------------------------------------------------ heap
static const uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 256ull << 30;
static const uintptr_t SHADOW = 0x300000000000ull;
static uintptr_t bump = 0, arena_end = 0;
static uintptr_t big_bump = 0x400000000000ull;
static bool heap_ready = false;
static const uint64_t MAX_LIVE = 3ull << 30; // the simulated machine's memory
static uint64_t live_bytes = 0;
uint64_t live_peak = 0;
uint64_t live_sut_bytes = 0, live_sut_blocks = 0;
void peak_reset() { live_peak = live_bytes; }
struct Hdr { uint64_t size; uint32_t cls; uint32_t state; uint64_t pc; uint64_t map_base; };
static_assert(sizeof(Hdr) == 32, "");
enum { LIVE = 0x11cea11e, FREED = 0xdeadf4ee, BIG = 0xffffffff };
static const int NCLS = 112;
static uint32_t cls_size[NCLS];
static int n_cls = 0;
struct FreeNode { FreeNode* next; };
static FreeNode* freelist[NCLS]; // LIFO of really free blocks
static FreeNode *qhead[NCLS], *qtail[NCLS]; // quarantine FIFO
static int qlen[NCLS];
static const int QMAX = 64;
static volatile int heap_lock = 0;
struct Lk { Lk() { while (__sync_lock_test_and_set(&heap_lock, 1)) ; } ~Lk() { __sync_lock_release(&heap_lock); } };

static inline uint8_t* sh8(uintptr_t a) { return (uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }
static void heap_init() {
    heap_ready = true;
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    void* q = mmap((void*)SHADOW, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || q == MAP_FAILED) { (void)!write(2, "heap mmap failed\n", 17); _exit(97); }
    for (uint32_t s = 16; s <= 1024; s += 16) cls_size[n_cls++] = s;
    for (uint32_t s = 1024; s < (256u << 10); s *= 2) for (int k = 5; k <= 8; ++k) cls_size[n_cls++] = s / 4 * k;
    bump = ARENA + 4096; arena_end = ARENA + ARENA_SZ;
}
// the child process of a case starts with a pristine heap, independent of what the parent did before
void heap_fresh() {
    live_bytes = 0;
    bump = ARENA + (ARENA_SZ / 2);
    big_bump = 0x500000000000ull;
    memset(freelist, 0, sizeof freelist); memset(qhead, 0, sizeof qhead); memset(qtail, 0, sizeof qtail); memset(qlen, 0, sizeof qlen);
}
static int cls_of(size_t n) {
    if (n <= 1024) return n ? (n - 1) / 16 : 0;
    int lo = 64, hi = n_cls - 1;
    while (lo < hi) { int m = (lo + hi) / 2; if (cls_size[m] >= n) hi = m; else lo = m + 1; }
    return lo;
}
static void set_addressable(uintptr_t a, size_t n) {
    memset(sh8(a), 8, n >> 3);
    if (n & 7) *sh8(a + (n & ~7ull)) = n & 7;
}
static inline uint32_t own(size_t n) { // whose block is it
    if (!cur || !cur->in_sut) return LIVE;
    live_sut_bytes += n; live_sut_blocks++;
    return LIVE | 1;
}
static void* heap_alloc(size_t n, size_t align, uintptr_t pc, bool zero) {
    if (!heap_ready) heap_init();
    if (cur && cur->in_sut && n >= alloc_min_size) {
        int64_t k = alloc_seen++;
        if (alloc_fail_at >= 0 && (alloc_fail_persist ? k >= alloc_fail_at : k == alloc_fail_at)) { alloc_failed++; errno = ENOMEM; return nullptr; }
    }
    if (n > (1ull << 40) || live_bytes + n > MAX_LIVE) { errno = ENOMEM; return nullptr; }
    Lk lk;
    live_bytes += n;
    if (live_bytes > live_peak) live_peak = live_bytes;
    size_t need = n + (align > 16 ? align : 0);
    if (need > (256u << 10)) {
        size_t body = (need + 15) & ~15ull;
        size_t len = (body + sizeof(Hdr) + 4095) & ~4095ull;
        void* m = mmap((void*)big_bump, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { errno = ENOMEM; return nullptr; }
        uintptr_t user = big_bump + len - ((n + 15) & ~15ull);
        if (align > 16) user &= ~(align - 1);
        big_bump += len + (1 << 20); // guard pages: not mapped
        Hdr* h = (Hdr*)(user - sizeof(Hdr));
        h->size = n; h->cls = BIG; h->state = own(n); h->pc = pc; h->map_base = (uintptr_t)m;
        if (!zero && g_fill > 0) memset((void*)user, g_fill, n < (1u << 20) ? n : (1u << 20));
        return (void*)user;
    }
    int c = cls_of(need);
    uintptr_t blk;
    if (freelist[c]) { blk = (uintptr_t)freelist[c]; freelist[c] = freelist[c]->next; }
    else { blk = bump; bump += sizeof(Hdr) + cls_size[c] + (cls_size[c] < 64 ? 16 : cls_size[c]); /* the rest is a red zone */ if (bump > arena_end) { errno = ENOMEM; return nullptr; } }
    uintptr_t user = blk + sizeof(Hdr);
    if (align > 16) user = (user + align - 1) & ~(align - 1);
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    h->size = n; h->cls = c; h->state = own(n); h->pc = pc; h->map_base = blk;
    set_addressable(user, n);
    if (g_race && cur) shadow_reset(user, n);
    if (zero) memset((void*)user, 0, n);
    else if (g_fill >= 0) memset((void*)user, g_fill, n);
    return (void*)user;
}
static void heap_free(void* p, uintptr_t pc) {
    if (!p) return;
    uintptr_t user = (uintptr_t)p;
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    if ((h->state & ~1u) != LIVE) {
        if (cur && g_active) cur->in_sut = 0;
        if (cur && g_active) violation("heap", strf("%s of %p", h->state == FREED ? "double free" : "invalid free", p));
        return;
    }
    if (g_race && g_active && cur && h->size && cur->in_sut) shadow_access(user, h->size < 65536 ? h->size : 65536, true, false, pc);
    Lk lk;
    live_bytes -= h->size < live_bytes ? h->size : live_bytes;
    if (h->state & 1) { live_sut_bytes -= h->size; live_sut_blocks--; }
    if (h->cls == BIG) {
        uintptr_t base = h->map_base, end = (user + h->size + 4095) & ~4095ull;
        munmap((void*)base, end - base);
        return;
    }
    h->state = FREED;
    memset(sh8(user), 0xFD, (h->size + 7) >> 3);
    int c = h->cls;
    FreeNode* f = (FreeNode*)h->map_base;
    if (g_heapcheck && g_active) memset(p, 0xDD, h->size < 64 ? h->size : 64);
    // the first 8 bytes of the block header serve as link; keep the state word of aligned blocks' headers elsewhere intact
    f->next = nullptr;
    if (qtail[c]) qtail[c]->next = f; else qhead[c] = f;
    qtail[c] = f;
    if (++qlen[c] > QMAX) {
        FreeNode* o = qhead[c]; qhead[c] = o->next; if (!qhead[c]) qtail[c] = nullptr; qlen[c]--;
        o->next = freelist[c]; freelist[c] = o;
    }
}
static size_t heap_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }

static std::string where(uintptr_t pc) {
    Dl_info di{};
    if (dladdr((void*)pc, &di) && di.dli_fname) {
        const char* b = strrchr(di.dli_fname, '/');
        return strf("%s+0x%lx", b ? b + 1 : di.dli_fname, (unsigned long)(pc - (uintptr_t)di.dli_fbase));
    }
    return strf("0x%lx", (unsigned long)pc);
}

void heap_check(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (a - ARENA >= ARENA_SZ || !n) return;
    uintptr_t end = a + n;
    for (uintptr_t g = a & ~7ull; g < end; g += 8) {
        uint8_t s = *sh8(g);
        uintptr_t last = (end < g + 8 ? end : g + 8) - g; // bytes of the granule up to the last accessed one
        if (s == 8) continue;
        if (s == 0xFD || s == 0 || last > s) {
            g_active = false; cur->in_sut = 0;
            violation("heap", strf("%s of %zu bytes at 0x%lx: %s, at %s, thread %d", write ? "write" : "read", n, (unsigned long)a,
                                   s == 0xFD ? "freed heap memory" : "outside any heap object", where(pc).c_str(), cur->id));
        }
    }
}

// ------------------------------------------------------------------ race detector
struct Cell { uint64_t meta; uint64_t pc; };
struct Chunk { Cell cells[(1 << 18) * 4]; };
static Chunk** top = nullptr;
static Chunk* chunk_for(uintptr_t a) {
    Chunk*& c = top[(a >> 21) & ((1ull << 26) - 1)];
    if (!c) {
        c = (Chunk*)mmap(nullptr, sizeof(Chunk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (c == MAP_FAILED) harness_error("shadow mmap");
    }
    return c;
}
void race_init() {
    if (!top) top = (Chunk**)mmap(nullptr, sizeof(Chunk*) << 26, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void shadow_reset(uintptr_t a, size_t n) {
    if (!top) return;
    uintptr_t g = a & ~7ull, end = a + n;
    while (g < end) {
        Chunk* c = top[(g >> 21) & ((1ull << 26) - 1)];
        uintptr_t ce = (g | 0x1fffff) + 1;
        if (ce > end) ce = end;
        if (c) { size_t i = (g >> 3) & 0x3ffff, k = (ce - g + 7) >> 3; memset(&c->cells[i * 4], 0, k * 4 * sizeof(Cell)); }
        g = ce;
        g = (g + 7) & ~7ull;
    }
}
// meta: epoch 32 | tid 16 | mask 8 | w 1 | atomic 1 | valid 1
static inline uint64_t mk(uint32_t ep, int tid, uint8_t mask, bool w, bool at) {
    return (uint64_t)ep << 32 | (uint64_t)tid << 16 | (uint64_t)mask << 8 | (uint64_t)w << 2 | (uint64_t)at << 1 | 1;
}
static void race_report(uintptr_t a, bool w, bool at, uintptr_t pc, uint64_t m, uint64_t opc) {
    g_active = false; cur->in_sut = 0;
    violation("race", strf("%s%s at %s by thread %d races with %s%s at %s by thread %d (address 0x%lx)", at ? "atomic " : "", w ? "write" : "read",
                           where(pc).c_str(), cur->id, (m & 2) ? "atomic " : "", (m & 4) ? "write" : "read", where(opc).c_str(), (int)(m >> 16 & 0xffff),
                           (unsigned long)a));
}
static inline void one(uintptr_t a, uint8_t mask, bool w, bool at, uintptr_t pc) {
    Chunk* c = chunk_for(a);
    Cell* cell = &c->cells[((a >> 3) & 0x3ffff) * 4];
    const int tid = cur->id;
    const uint32_t ep = cur->vc.c[tid];
    int own = -1, empty = -1, sub = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t m = cell[i].meta;
        if (!m) { if (empty < 0) empty = i; continue; }
        int t = m >> 16 & 0xffff; uint8_t cm = m >> 8; bool cw = m & 4, cat = m & 2; uint32_t cep = m >> 32;
        if (t == tid) {
            if (cep == ep && !(mask & ~cm) && (cw || !w) && (at || !cat)) return;
            if (cm == mask && (w || !cw) && (!at || cat)) own = i;
        } else if (cep > cur->vc.c[t]) {
            if ((cm & mask) && (w || cw) && !(at && cat)) race_report(a, w, at, pc, m, cell[i].pc);
        } else if (w || !cw) sub = i;
    }
    int s = own >= 0 ? own : empty >= 0 ? empty : sub >= 0 ? sub : (int)(g_step & 3);
    cell[s].meta = mk(ep, tid, mask, w, at);
    cell[s].pc = pc;
}
void shadow_access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
    while (n) {
        size_t off = a & 7, len = 8 - off < n ? 8 - off : n;
        one(a, (uint8_t)(((1u << len) - 1) << off), w, at, pc);
        a += len; n -= len;
    }
}
void mem_release_hb(Thr* t, VC& v) { v.join(t->vc); t->vc.c[t->id]++; }
void mem_acquire_hb(Thr* t, const VC& v) { t->vc.join(v); }

static std::unordered_map<uintptr_t, VC*>* avc;
VC& atomic_vc(uintptr_t a) {
    if (!avc) avc = new std::unordered_map<uintptr_t, VC*>;
    HarnessScope hs;
    VC*& v = (*avc)[a];
    if (!v) v = new VC;
    return *v;
}
void atomics_clear() { if (avc) avc->clear(); }
static VC fence_vc;

static inline __attribute__((always_inline)) void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!g_active) return;
    if (++g_step >= g_stop) mem_slow();
    sh->cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (g_heapcheck) heap_check(a, n, w, pc);
    if (g_race) shadow_access(a, n, w, false, pc);
}
static void range_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!g_active || !n) return;
    if (++g_step >= g_stop) mem_slow();
    if (g_heapcheck) heap_check(a, n, w, pc);
    if (g_race) shadow_access(a, n, w, false, pc);
}
static void atomic_pre(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    sched_point(K_ATOMIC, a);
    sh->cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (g_heapcheck) heap_check(a, n, w, pc);
    if (g_race) shadow_access(a, n, w, true, pc);
}
static void atomic_acq(uintptr_t a, int mo) {
    if (!g_race || mo == 0 || mo == 3) return;
    if (avc) { auto it = avc->find(a); if (it != avc->end()) mem_acquire_hb(cur, *it->second); }
}
static void atomic_rel(uintptr_t a, int mo, bool rmw) {
    if (!g_race) return;
    if (mo < 3) { if (!rmw && avc) { auto it = avc->find(a); if (it != avc->end()) *it->second = VC(); } return; } // relaxed store ends the release sequence
    VC& v = atomic_vc(a);
    if (!rmw) v = VC();
    mem_release_hb(cur, v);
}

} // namespace rt
using namespace rt;

// ------------------------------------------------------------------ malloc family
extern "C" {
EXPORT void* malloc(size_t n) { return heap_alloc(n, 16, PC, false); }
EXPORT void free(void* p) { heap_free(p, PC); }
EXPORT void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return heap_alloc(n, 16, PC, true);
}
EXPORT void* realloc(void* p, size_t n) {
    if (!p) return heap_alloc(n, 16, PC, false);
    if (!n) { heap_free(p, PC); return nullptr; }
    void* q = heap_alloc(n, 16, PC, false);
    if (!q) return nullptr;
    size_t o = heap_size(p);
    memcpy(q, p, o < n ? o : n);
    heap_free(p, PC);
    return q;
}
EXPORT void* memalign(size_t al, size_t n) { return heap_alloc(n, al < 16 ? 16 : al, PC, false); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al < 16 ? 16 : al, PC, false); }
EXPORT int posix_memalign(void** r, size_t al, size_t n) { void* p = heap_alloc(n, al < 16 ? 16 : al, PC, false); if (!p) return ENOMEM; *r = p; return 0; }
EXPORT void* valloc(size_t n) { return heap_alloc(n, 4096, PC, false); }
EXPORT void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096, PC, false); }
EXPORT size_t malloc_usable_size(void* p) { return heap_size(p); }

// ------------------------------------------------------------------ memory functions called by the instrumented code
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { range_access((uintptr_t)s, n, false, PC); range_access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { range_access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

// ------------------------------------------------------------------ ThreadSanitizer interface
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) { (void)pc; }
EXPORT void __tsan_func_exit() {}
#define RW(N) \
    EXPORT void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
    EXPORT void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
    EXPORT void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
    EXPORT void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
    EXPORT void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
    EXPORT void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void* a) { access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, size_t n) { range_access((uintptr_t)a, n, false, PC); }
EXPORT void __tsan_write_range(void* a, size_t n) { range_access((uintptr_t)a, n, true, PC); }
EXPORT void __tsan_vptr_update(void** a, void* v) { (void)v; access((uintptr_t)a, 8, true, PC); }
EXPORT void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
EXPORT void __tsan_atomic_thread_fence(int mo) {
    if (!g_active) return;
    sched_point(K_ATOMIC);
    if (!g_race) return;
    if (mo == 1 || mo == 2 || mo >= 4) mem_acquire_hb(cur, fence_vc);
    if (mo >= 3) mem_release_hb(cur, fence_vc);
}
EXPORT void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
    EXPORT T __tsan_atomic##N##_load(const volatile T* a, int mo) { \
        if (g_active) { atomic_pre((uintptr_t)a, sizeof(T), false, PC); atomic_acq((uintptr_t)a, mo); } return *a; } \
    EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { \
        if (g_active) { atomic_pre((uintptr_t)a, sizeof(T), true, PC); atomic_rel((uintptr_t)a, mo, false); } *a = v; } \
    EXPORT T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { \
        if (g_active) { atomic_pre((uintptr_t)a, sizeof(T), true, PC); atomic_acq((uintptr_t)a, mo); atomic_rel((uintptr_t)a, mo, true); } T o = *a; *a = v; return o; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { \
        if (g_active) atomic_pre((uintptr_t)a, sizeof(T), true, PC); \
        if (*a == *e) { if (g_active) { atomic_acq((uintptr_t)a, mo); atomic_rel((uintptr_t)a, mo, true); } *a = d; return 1; } \
        if (g_active) atomic_acq((uintptr_t)a, fmo); *e = *a; return 0; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { \
        return __tsan_atomic##N##_compare_exchange_strong(a, e, d, mo, fmo); } \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { \
        __tsan_atomic##N##_compare_exchange_strong(a, &e, d, mo, fmo); return e; }
#define RMW(N, T, name, expr) \
    EXPORT T __tsan_atomic##N##_fetch_##name(volatile T* a, T v, int mo) { \
        if (g_active) { atomic_pre((uintptr_t)a, sizeof(T), true, PC); atomic_acq((uintptr_t)a, mo); atomic_rel((uintptr_t)a, mo, true); } T o = *a; *a = expr; return o; }
#define ALL(N, T) AT(N, T) RMW(N, T, add, o + v) RMW(N, T, sub, o - v) RMW(N, T, and, o & v) RMW(N, T, or, o | v) RMW(N, T, xor, o ^ v) RMW(N, T, nand, ~(o & v))
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
typedef unsigned __int128 u128;
ALL(128, u128)
}
