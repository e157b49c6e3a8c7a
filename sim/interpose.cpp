// pthread objects, clocks, entropy and process exit of the simulated process.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <semaphore.h>
#include <stdexcept>
#include <sys/time.h>
#include <sys/random.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <map>
#include <string>

#define EXPORT __attribute__((visibility("default"), used))
using namespace rt;
#define REAL(name) ([] { static decltype(&name) p = nullptr; if (!p) p = (decltype(&name))dlsym(RTLD_NEXT, #name); return p; }())
static inline bool insim() { return g_active && cur && !cur->in_rt; }

namespace rt {
struct Mutex { Thr* owner = nullptr; int depth = 0; VC vc; };
struct Cond { std::vector<Thr*> waiters; };
struct Rw { int readers = 0; Thr* writer = nullptr; VC vc; };
struct Sem { int value = 0; VC vc; };
struct Bar { unsigned n = 0, arrived = 0; uint64_t gen = 0; VC vc; };
struct Once { int st = 0; VC vc; };
static std::unordered_map<uintptr_t, Mutex>* mutexes;
static std::map<uintptr_t, Cond>* conds;
static std::unordered_map<uintptr_t, Rw>* rws;
static std::unordered_map<uintptr_t, Sem>* sems;
static std::unordered_map<uintptr_t, Bar>* bars;
static std::unordered_map<uintptr_t, Once>* onces;
static size_t n_cond_waiters = 0;

void objects_clear() {
    if (!mutexes) { mutexes = new std::unordered_map<uintptr_t, Mutex>; conds = new std::map<uintptr_t, Cond>; rws = new std::unordered_map<uintptr_t, Rw>;
        sems = new std::unordered_map<uintptr_t, Sem>; bars = new std::unordered_map<uintptr_t, Bar>; onces = new std::unordered_map<uintptr_t, Once>; }
}
static Mutex& mtx(uintptr_t m) { HarnessScope hs; return (*mutexes)[m]; }
extern std::vector<Thr*>& all_threads();
static void wake_waiters(Kind k, uintptr_t obj) {
    for (auto t : all_threads()) if (t->st == BLOCKED && t->why == k && t->whyobj == obj) make_runnable(t);
}
void sim_mutex_lock(uintptr_t m, bool rec, Kind k) {
    sched_point(k, m);
    Mutex& x = mtx(m);
    if (x.owner == cur && rec) { x.depth++; return; }
    while (x.owner) block(k, m); // locking a mutex one already owns blocks forever: found as deadlock
    x.owner = cur; x.depth = 1;
    mem_acquire_hb(cur, x.vc);
}
bool sim_mutex_trylock(uintptr_t m, bool rec) {
    sched_point(K_MUTEX, m);
    Mutex& x = mtx(m);
    if (x.owner == cur && rec) { x.depth++; return true; }
    if (x.owner) return false;
    x.owner = cur; x.depth = 1;
    mem_acquire_hb(cur, x.vc);
    return true;
}
void sim_mutex_unlock(uintptr_t m) {
    Mutex& x = mtx(m);
    if (x.owner != cur) { // unlocking somebody else's mutex: undefined; keep going like the real one
        x.owner = nullptr; x.depth = 0;
    } else if (--x.depth > 0) return;
    x.owner = nullptr;
    mem_release_hb(cur, x.vc);
    for (auto t : all_threads()) if (t->st == BLOCKED && (t->why == K_MUTEX || t->why == K_CRIT) && t->whyobj == m) make_runnable(t);
    sched_point(K_UNLOCK, m);
}
size_t cond_waiters() { return n_cond_waiters; }
static void cond_remove(Cond& c, Thr* t) {
    for (size_t i = 0; i < c.waiters.size(); ++i) if (c.waiters[i] == t) { c.waiters.erase(c.waiters.begin() + i); n_cond_waiters--; return; }
}
bool spurious_wake(uint64_t which) {
    for (auto t : all_threads()) if (t->st == BLOCKED && t->why == K_COND) {
        if (which-- == 0) { cond_remove((*conds)[t->whyobj], t); make_runnable(t); return true; }
    }
    return false;
}
static int sim_cond_wait(uintptr_t c, uintptr_t m, bool timed, uint64_t until) {
    HarnessScope hs;
    sched_point(K_COND, c);
    Cond& x = (*conds)[c];
    Mutex& mx = mtx(m);
    int depth = mx.depth;
    mx.owner = nullptr; mx.depth = 0;
    mem_release_hb(cur, mx.vc);
    for (auto t : all_threads()) if (t->st == BLOCKED && (t->why == K_MUTEX || t->why == K_CRIT) && t->whyobj == m) make_runnable(t);
    x.waiters.push_back(cur); n_cond_waiters++;
    bool to = false;
    if (timed) { to = block_until(K_COND, c, until); cond_remove(x, cur); }
    else block(K_COND, c);
    while (mx.owner) block(K_MUTEX, m);
    mx.owner = cur; mx.depth = depth ? depth : 1;
    mem_acquire_hb(cur, mx.vc);
    return to ? ETIMEDOUT : 0;
}
static void sim_cond_signal(uintptr_t c, bool all) {
    HarnessScope hs;
    sched_point(K_SIGNAL, c);
    Cond& x = (*conds)[c];
    if (x.waiters.empty()) return;
    if (all) { auto w = x.waiters; for (auto t : w) { cond_remove(x, t); make_runnable(t); } }
    else {
        int64_t v = fault(F_SIGPICK, g_record && x.waiters.size() > 1 ? 0.5 : 0, x.waiters.size());
        Thr* t = x.waiters[v >= 0 ? v : 0];
        cond_remove(x, t); make_runnable(t);
    }
    sched_point(K_SIGNAL, c);
}
Entropy entropy;
static Rng ent_rng(1);
static uint64_t ent_seeded = 0;
static uint32_t entropy_draw() {
    if (ent_seeded != entropy.seed + 1) { ent_rng.init(entropy.seed); ent_seeded = entropy.seed + 1; }
    sched_point(K_USER);
    int64_t k = entropy.draws++;
    if ((entropy.mode == 1 && k >= entropy.k) || (entropy.mode == 2 && k == entropy.k)) {
        entropy.failed++;
        throw std::runtime_error("simulated: random_device could not be read");
    }
    return (uint32_t)ent_rng.next();
}
} // namespace rt

extern "C" {
// ---- mutex
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!insim()) return REAL(pthread_mutex_lock)(m);
    sim_mutex_lock((uintptr_t)m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!insim()) return REAL(pthread_mutex_trylock)(m);
    return sim_mutex_trylock((uintptr_t)m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!insim()) return REAL(pthread_mutex_unlock)(m);
    sim_mutex_unlock((uintptr_t)m); return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!insim()) return REAL(pthread_mutex_destroy)(m);
    mutexes->erase((uintptr_t)m); return 0;
}
EXPORT int pthread_spin_lock(pthread_spinlock_t* m) { if (!insim()) return REAL(pthread_spin_lock)(m); sim_mutex_lock((uintptr_t)m); return 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* m) { if (!insim()) return REAL(pthread_spin_unlock)(m); sim_mutex_unlock((uintptr_t)m); return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t* m) { if (!insim()) return REAL(pthread_spin_trylock)(m); return sim_mutex_trylock((uintptr_t)m) ? 0 : EBUSY; }
// ---- cond
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!insim()) return REAL(pthread_cond_wait)(c, m);
    return sim_cond_wait((uintptr_t)c, (uintptr_t)m, false, 0);
}
static uint64_t abs_to_virtual(const struct timespec* ts, bool mono) {
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec - (mono ? 0 : vreal_off);
    return t < (int64_t)vnow ? vnow : (uint64_t)t;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!insim()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return sim_cond_wait((uintptr_t)c, (uintptr_t)m, true, abs_to_virtual(ts, false));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
    if (!insim()) return REAL(pthread_cond_clockwait)(c, m, id, ts);
    return sim_cond_wait((uintptr_t)c, (uintptr_t)m, true, abs_to_virtual(ts, id == CLOCK_MONOTONIC));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (!insim()) return REAL(pthread_cond_signal)(c); sim_cond_signal((uintptr_t)c, false); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (!insim()) return REAL(pthread_cond_broadcast)(c); sim_cond_signal((uintptr_t)c, true); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) { if (!insim()) return REAL(pthread_cond_destroy)(c); conds->erase((uintptr_t)c); return 0; }
// ---- rwlock
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* r) {
    HarnessScope hs;
    if (!insim()) return REAL(pthread_rwlock_rdlock)(r);
    sched_point(K_RW, (uintptr_t)r); Rw& x = (*rws)[(uintptr_t)r];
    while (x.writer) block(K_RW, (uintptr_t)r);
    x.readers++; mem_acquire_hb(cur, x.vc); return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* r) {
    HarnessScope hs;
    if (!insim()) return REAL(pthread_rwlock_wrlock)(r);
    sched_point(K_RW, (uintptr_t)r); Rw& x = (*rws)[(uintptr_t)r];
    while (x.writer || x.readers) block(K_RW, (uintptr_t)r);
    x.writer = cur; mem_acquire_hb(cur, x.vc); return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* r) {
    HarnessScope hs;
    if (!insim()) return REAL(pthread_rwlock_unlock)(r);
    Rw& x = (*rws)[(uintptr_t)r];
    if (x.writer == cur) x.writer = nullptr; else if (x.readers) x.readers--;
    mem_release_hb(cur, x.vc); // readers release too: more order than there is, no false race
    wake_waiters(K_RW, (uintptr_t)r); sched_point(K_UNLOCK, (uintptr_t)r); return 0;
}
// ---- semaphores
EXPORT int sem_init(sem_t* s, int sh_, unsigned v) { HarnessScope hs; if (!insim()) return REAL(sem_init)(s, sh_, v); Sem& x = (*sems)[(uintptr_t)s]; x = Sem(); x.value = v; return 0; }
EXPORT int sem_destroy(sem_t* s) { if (!insim()) return REAL(sem_destroy)(s); sems->erase((uintptr_t)s); return 0; }
EXPORT int sem_wait(sem_t* s) {
    HarnessScope hs;
    if (!insim()) return REAL(sem_wait)(s);
    sched_point(K_SEM, (uintptr_t)s); Sem& x = (*sems)[(uintptr_t)s];
    while (x.value <= 0) block(K_SEM, (uintptr_t)s);
    x.value--; mem_acquire_hb(cur, x.vc); return 0;
}
EXPORT int sem_trywait(sem_t* s) {
    HarnessScope hs;
    if (!insim()) return REAL(sem_trywait)(s);
    sched_point(K_SEM, (uintptr_t)s); Sem& x = (*sems)[(uintptr_t)s];
    if (x.value <= 0) { errno = EAGAIN; return -1; }
    x.value--; mem_acquire_hb(cur, x.vc); return 0;
}
EXPORT int sem_post(sem_t* s) {
    HarnessScope hs;
    if (!insim()) return REAL(sem_post)(s);
    Sem& x = (*sems)[(uintptr_t)s]; x.value++; mem_release_hb(cur, x.vc);
    wake_waiters(K_SEM, (uintptr_t)s); sched_point(K_UNLOCK, (uintptr_t)s); return 0;
}
// ---- barriers
EXPORT int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) {
    HarnessScope hs;
    if (!insim()) return REAL(pthread_barrier_init)(b, a, n);
    Bar& x = (*bars)[(uintptr_t)b]; x = Bar(); x.n = n; return 0;
}
EXPORT int pthread_barrier_destroy(pthread_barrier_t* b) { if (!insim()) return REAL(pthread_barrier_destroy)(b); bars->erase((uintptr_t)b); return 0; }
EXPORT int pthread_barrier_wait(pthread_barrier_t* b) {
    HarnessScope hs;
    if (!insim()) return REAL(pthread_barrier_wait)(b);
    sched_point(K_BARRIER, (uintptr_t)b); Bar& x = (*bars)[(uintptr_t)b];
    mem_release_hb(cur, x.vc);
    uint64_t g = x.gen;
    if (++x.arrived == x.n) { x.arrived = 0; x.gen++; wake_waiters(K_BARRIER, (uintptr_t)b); mem_acquire_hb(cur, x.vc); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (x.gen == g) block(K_BARRIER, (uintptr_t)b);
    mem_acquire_hb(cur, x.vc); return 0;
}
// ---- once and guards of function-local statics
EXPORT int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!insim()) return REAL(pthread_once)(o, f);
    sched_point(K_ONCE, (uintptr_t)o);
    Once* px; { HarnessScope hs; px = &(*onces)[(uintptr_t)o]; }
    Once& x = *px;
    if (*o == 2 || x.st == 2) { mem_acquire_hb(cur, x.vc); return 0; }
    while (x.st == 1) block(K_ONCE, (uintptr_t)o);
    if (x.st == 2) { mem_acquire_hb(cur, x.vc); return 0; }
    x.st = 1;
    try { f(); } catch (...) { x.st = 0; wake_waiters(K_ONCE, (uintptr_t)o); throw; }
    x.st = 2; *o = 2; mem_release_hb(cur, x.vc); wake_waiters(K_ONCE, (uintptr_t)o);
    return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* g) {
    char* c = (char*)g;
    if (*c & 1) return 0;
    if (!insim()) { c[1] = 1; return 1; }
    sched_point(K_ONCE, (uintptr_t)g);
    while (c[1]) { block(K_ONCE, (uintptr_t)g); }
    if (*c & 1) { mem_acquire_hb(cur, atomic_vc((uintptr_t)g)); return 0; }
    c[1] = 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) {
    char* c = (char*)g;
    c[1] = 0; *c |= 1;
    if (!insim()) return;
    mem_release_hb(cur, atomic_vc((uintptr_t)g));
    wake_waiters(K_ONCE, (uintptr_t)g);
    sched_point(K_UNLOCK, (uintptr_t)g);
}
EXPORT void __cxa_guard_abort(uint64_t* g) {
    ((char*)g)[1] = 0;
    if (insim()) wake_waiters(K_ONCE, (uintptr_t)g);
}
// ---- threads
EXPORT int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!insim()) return REAL(pthread_create)(p, a, f, arg);
    int in_sut = cur->in_sut;
    HarnessScope hs;
    Thr* me = cur;
    Thr* t = new_thread(false, nullptr);
    t->job = [t, f, arg, in_sut] { t->in_sut = in_sut; t->retval = f(arg); };
    me->vc.c[me->id]++; t->vc.join(me->vc); t->vc.c[t->id]++;
    *p = t->pt;
    sched_point(K_CREATE);
    return 0;
}
static Thr* by_pt(pthread_t p) { for (auto t : all_threads()) if (t->id && t->pt == p) return t; return nullptr; }
EXPORT int pthread_join(pthread_t p, void** r) {
    if (!insim()) return REAL(pthread_join)(p, r);
    Thr* t = by_pt(p);
    if (!t) return ESRCH;
    rt::join(t);
    if (r) *r = t->retval;
    return 0;
}
EXPORT int pthread_detach(pthread_t p) {
    if (!insim()) return REAL(pthread_detach)(p);
    Thr* t = by_pt(p); if (t) t->detached = true; return 0;
}
EXPORT int sched_yield() { if (!insim()) return REAL(sched_yield)(); yield_cpu(); return 0; }
// ---- time
EXPORT int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!g_active || !cur) return REAL(clock_gettime)(id, ts);
    uint64_t v = read_clock(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void* z) {
    if (!g_active || !cur) return REAL(gettimeofday)(tv, z);
    uint64_t v = read_clock(true); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0;
}
EXPORT time_t time(time_t* t) {
    if (!g_active || !cur) return REAL(time)(t);
    time_t r = read_clock(true) / 1000000000ull; if (t) *t = r; return r;
}
EXPORT clock_t clock() { if (!g_active || !cur) return REAL(clock)(); return read_clock(false) / 1000; }
EXPORT int nanosleep(const struct timespec* d, struct timespec* rem) {
    if (!insim()) return REAL(nanosleep)(d, rem);
    block_until(K_SLEEP, 0, vnow + d->tv_sec * 1000000000ull + d->tv_nsec); return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* d, struct timespec* rem) {
    if (!insim()) return REAL(clock_nanosleep)(id, flags, d, rem);
    uint64_t t = d->tv_sec * 1000000000ull + d->tv_nsec;
    block_until(K_SLEEP, 0, (flags & TIMER_ABSTIME) ? abs_to_virtual(d, id != CLOCK_REALTIME) : vnow + t); return 0;
}
EXPORT int usleep(useconds_t us) { if (!insim()) return REAL(usleep)(us); block_until(K_SLEEP, 0, vnow + us * 1000ull); return 0; }
EXPORT unsigned sleep(unsigned s) { if (!insim()) return REAL(sleep)(s); block_until(K_SLEEP, 0, vnow + s * 1000000000ull); return 0; }
EXPORT int get_nprocs() { return 8; }
// ---- entropy
EXPORT void sim_rd_init(void*, const void*) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
EXPORT void sim_rd_init(void*, const void*) {
    if (g_active) entropy.opens++;
    if (g_active && entropy.mode == 3 && (int64_t)entropy.opens > entropy.k) { entropy.failed++; throw std::runtime_error("simulated: random_device could not be opened"); }
}
EXPORT unsigned sim_rd_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
EXPORT unsigned sim_rd_get(void*) { return entropy_draw(); }
EXPORT void sim_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
EXPORT void sim_rd_fini(void*) {}
EXPORT void sim_rd_initp(void*, const void*) __asm__("_ZNSt13random_device16_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
EXPORT void sim_rd_initp(void* a, const void* b) { sim_rd_init(a, b); }
EXPORT unsigned sim_rd_getp(void*) __asm__("_ZNSt13random_device16_M_getval_pretr1Ev");
EXPORT unsigned sim_rd_getp(void*) { return entropy_draw(); }
EXPORT ssize_t getrandom(void* b, size_t n, unsigned fl) {
    if (!g_active || !cur) return REAL(getrandom)(b, n, fl);
    for (size_t i = 0; i < n; ++i) ((char*)b)[i] = (char)entropy_draw();
    return n;
}
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
// ---- exit
EXPORT void exit(int code) noexcept {
    if (g_active && cur) death(D_EXIT, strf("exit(%d)", code));
    REAL(exit)(code); __builtin_unreachable();
}
}
