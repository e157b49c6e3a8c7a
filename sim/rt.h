// Runtime of the deterministic simulator: one OS thread runs at a time, a seeded scheduler decides which.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <pthread.h>

namespace rt {

constexpr int MAXT = 256;

// ---------------------------------------------------------------- random numbers (splitmix / xoshiro; own code)
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { init(seed); }
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void init(uint64_t seed) { for (auto& v : s) v = splitmix(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return uni() < p; }
    uint64_t geo(double mean); // geometric-like gap >= 1
};
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}

// ---------------------------------------------------------------- vector clocks
struct VC {
    uint32_t c[MAXT];
    uint64_t span = 0; // longest chain of steps ordered before this point
    VC() { memset(c, 0, sizeof c); }
    void join(const VC& o);
};
extern int g_nthr; // number of threads ever created (bounds the vector clocks)

// ---------------------------------------------------------------- threads
enum State { RUNNABLE, BLOCKED, IDLE, DONE };
enum Kind { K_START, K_MUTEX, K_UNLOCK, K_COND, K_SIGNAL, K_ATOMIC, K_BARRIER, K_FORK, K_JOINTEAM, K_LOOP, K_SINGLE, K_CRIT,
            K_TASK, K_CB, K_MEM, K_YIELD, K_CREATE, K_JOIN, K_IO, K_SLEEP, K_SEM, K_RW, K_ONCE, K_ORDERED, K_USER, K_EXIT, K_NUM };
extern const char* kind_name[];

struct Ctx; // OpenMP context (gomp.cpp)
struct Thr {
    int id = 0;
    int go = 0;
    State st = RUNNABLE;
    int why = 0;
    uintptr_t whyobj = 0;
    bool timed = false, timedout = false;
    uint64_t wake_at = 0;
    uint64_t prio = 0;
    bool victim = false;
    uint64_t runlen = 0;
    VC vc;
    uint64_t span_mark = 0;  // g_step up to which vc.span counts this thread's own steps
    int in_sut = 0;
    int in_rt = 0;
    Ctx* ctx = nullptr;
    std::function<void()> job;
    bool is_team = false;    // worker of the OpenMP pool
    bool is_user = false;    // created with pthread_create or spawn
    bool detached = false;
    void* retval = nullptr;
    pthread_t pt{};
    char* stack_lo = nullptr;
    int callback_depth = 0;
};
extern Thr* cur;
extern bool g_active;      // simulation running (else: everything single threaded, passes through)
extern bool g_race;        // race detector on
extern bool g_heapcheck;   // heap shadow on
extern uint64_t g_step, g_stop;

extern uint64_t live_peak;      // heap bytes in use, the most since peak_reset
extern uint64_t live_sut_bytes, live_sut_blocks; // taken by the code under test and not given back
void peak_reset();
uint64_t span_now();            // longest chain of steps that ends at the current thread's present step
void mem_slow();           // g_step reached g_stop
void init_process();       // once, in the zygote
void init_child();         // once per child before begin()

// ---------------------------------------------------------------- configuration of a run
struct Sched {
    int policy = 0;        // 0 stay, 1 random, 2 pct, 3 starve, 4 round robin, 5 last-first
    double p = 0.3;        // switch probability at a synchronisation point
    double memgap = 0;     // mean number of memory accesses between preemptions (0: none)
    int depth = 3;         // pct
    uint64_t len = 2000;   // pct: expected number of points
    int quantum = 3;
    uint64_t seed = 1;
};
struct Env {
    std::vector<int> nthreads{1}; // OMP_NUM_THREADS list
    bool dyn = false;             // OMP_DYNAMIC
    int limit = 0;                // OMP_THREAD_LIMIT (0 none)
    int maxlevels = 1;            // max active levels
    int teampol = 0;              // 0 full, 1 at most teamk, 2 random 1..requested
    int teamk = 0;
    double spur = 0;              // probability of a spurious wakeup at a scheduling point with waiters
    double clockjump = 0;         // probability per clock reading
    double yieldskip = 0;
};
struct Dev { uint64_t step; int tid; };
struct FaultEv { int kind; uint64_t idx; int64_t val; };
enum FKind { F_TEAM, F_SPUR, F_SIGPICK, F_ALLOC, F_CLOCK, F_ENTROPY, F_IO, F_CRASH, F_TASK, F_STALL, F_NUM };
extern const char* fault_name[];

extern Env env;
extern bool g_record;                 // true: draw from seeds; false: replay lists
extern std::vector<Dev> devs;         // recorded or replayed
extern std::vector<FaultEv> faults;   // recorded or replayed
void set_sched(const Sched& s);       // for the calls that follow
void set_fault_seed(uint64_t seed);
// one decision about a fault: -1 none, else value in [0,range)
int64_t fault(FKind k, double prob, uint64_t range);
void replay_faults();                 // index the list to replay
extern uint64_t fault_count[F_NUM];   // opportunities seen
extern uint64_t step_limit;
extern const char* step_limit_class;

void begin();   // simulation on (calling thread becomes thread 0)
void end();     // run leftover threads until all are idle, simulation off

// ---------------------------------------------------------------- scheduling
void sched_point(Kind k, uintptr_t obj = 0);
void block(Kind k, uintptr_t obj);                   // current thread blocks until make_runnable
bool block_until(Kind k, uintptr_t obj, uint64_t t); // true: timed out
void make_runnable(Thr* t);
Thr* new_thread(bool team, std::function<void()> job);
size_t user_threads_left(); // threads made by the code under test that have not finished
Thr* spawn(std::function<void()> job);   // application thread inside the simulation
void join(Thr* t);
void yield_cpu();

// ---------------------------------------------------------------- virtual time
extern uint64_t vnow;       // monotonic ns
extern int64_t vreal_off;   // offset of the wall clock
uint64_t read_clock(bool realtime);

// ---------------------------------------------------------------- results
struct Shared {
    volatile int done;
    char verdict[16];      // ok, viol, err
    char cls[64];
    char msg[16384];
    char info[4096];       // what ran, for samples
    uint64_t hash, vtime, steps, switches, evals;
    int nontrivial;
    uint64_t ntrace;
    char trace[48 << 20];
    // accumulated over all children of a worker
    uint64_t stat[256];
    uint8_t cov[1 << 16];
    uint64_t sim_runs, total_vtime, total_steps, total_switches;
    uint64_t fopp[F_NUM], ffired[F_NUM];
};
extern Shared* sh;
enum StatId : int;
void stat(const char* name, uint64_t add = 1);
extern const char* stat_names[256];
extern int n_stat_names;

[[noreturn]] void finish(const char* verdict, const char* cls, const std::string& msg);
[[noreturn]] void violation(const char* cls, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// process-ending events inside the simulated program: decided by the running case
enum Death { D_TERMINATE, D_ABORT, D_ASSERT, D_SIGNAL, D_EXIT };
extern std::function<void(Death, const std::string&)> on_death; // may finish(); if it returns, a violation is reported
[[noreturn]] void death(Death d, const std::string& what);

struct SutScope { // marks code of the system under test (for allocation faults)
    Thr* t; int old;
    SutScope() : t(cur), old(t ? t->in_sut : 0) { if (t) t->in_sut = 1; }
    ~SutScope() { if (t) t->in_sut = old; }
};
struct HarnessScope { // marks code of the harness (callbacks, oracles)
    Thr* t; int old;
    HarnessScope() : t(cur), old(t ? t->in_sut : 0) { if (t) t->in_sut = 0; }
    ~HarnessScope() { if (t) t->in_sut = old; }
};

// ---------------------------------------------------------------- memory (mem.cpp)
void shadow_reset(uintptr_t a, size_t n);
void shadow_access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc);
void heap_check(uintptr_t a, size_t n, bool write, uintptr_t pc);
extern int g_fill;                      // byte for fresh heap memory
extern int64_t alloc_fail_at;           // -1 none; the k-th allocation of the system under test fails
extern bool alloc_fail_persist;
extern int64_t alloc_seen;
extern uint64_t alloc_failed, alloc_failed_total;
extern size_t alloc_min_size;
void mem_release_hb(Thr* t, VC& v);     // release: v = join(v, t); tick t
void mem_acquire_hb(Thr* t, const VC& v);
VC& atomic_vc(uintptr_t a);
void atomics_clear();
void heap_fresh();                      // in the child, before anything is allocated for the case
void race_init();

// ---------------------------------------------------------------- pthread objects (interpose.cpp)
void sim_mutex_lock(uintptr_t m, bool recursive = false, Kind k = K_MUTEX);
bool sim_mutex_trylock(uintptr_t m, bool recursive = false);
void sim_mutex_unlock(uintptr_t m);
void objects_clear();
size_t cond_waiters();
bool spurious_wake(uint64_t which);

// ---------------------------------------------------------------- entropy (interpose.cpp)
struct Entropy {
    uint64_t seed = 1;
    int mode = 0;           // 0 normal, 1 fails from the k-th call on, 2 fails once at the k-th call
    int64_t k = 0;
    uint64_t draws = 0, opens = 0, failed = 0;
};
extern Entropy entropy;

// ---------------------------------------------------------------- simulated disk (disk.cpp)
struct SimFile { std::string name, data; bool existed = false; };
struct Disk {
    std::vector<SimFile> files;
    uint64_t cap = ~0ull;          // bytes until the disk is full
    double p_short = 0, p_eintr = 0, p_eio = 0;
    int64_t fail_write_at = -1;    // k-th write call fails
    int fail_errno = 0; bool fail_persist = true;
    int64_t fail_open_at = -1;
    int64_t fail_close_at = -1;
    int64_t crash_at = -1;         // k-th write call: crash after part of it
    uint64_t writes = 0, opens = 0, closes = 0, bytes = 0, injected = 0;
    std::function<void()> on_crash;
    SimFile* find(const std::string& n);
};
extern Disk disk;
extern const char* disk_prefix; // "/simdisk/"

// ---------------------------------------------------------------- OpenMP (gomp.cpp)
Ctx* new_root_ctx();
void gomp_reset();
extern uint64_t team_short, regions_seen, max_team;

} // namespace rt
