#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <execinfo.h>
#include <cxxabi.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

namespace rt {

const char* kind_name[] = {"start", "mutex", "unlock", "cond", "signal", "atomic", "barrier", "fork", "jointeam", "loop", "single",
    "critical", "task", "callback", "mem", "yield", "create", "join", "io", "sleep", "sem", "rwlock", "once", "ordered", "user", "exit"};
const char* fault_name[] = {"team", "spurious", "sigpick", "alloc", "clock", "entropy", "io", "crash", "task", "stall"};

uint64_t Rng::geo(double mean) {
    double u = uni();
    double v = -std::log(1.0 - u) * mean;
    return 1 + (uint64_t)v;
}
int g_nthr = 0;
Thr* cur = nullptr;
uint64_t g_step = 0;
static inline void fold(Thr* t) { t->vc.span += g_step - t->span_mark; t->span_mark = g_step; }
uint64_t span_now() { fold(cur); return cur->vc.span; }
void VC::join(const VC& o) {
    if (cur) fold(cur);
    if (o.span > span) span = o.span;
    for (int i = 0; i < g_nthr; ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
}

bool g_active = false, g_race = false, g_heapcheck = false;
uint64_t g_stop = ~0ull;
uint64_t step_limit = 4000000000ull;
const char* step_limit_class = "livelock"; // what it means to get there
Env env;
bool g_record = true;
std::vector<Dev> devs;
std::vector<FaultEv> faults;
uint64_t fault_count[F_NUM];
uint64_t vnow = 1000000000ull;
int64_t vreal_off = 1700000000ll * 1000000000ll;
Shared* sh = nullptr;
std::function<void(Death, const std::string&)> on_death;

static std::vector<Thr*> thrs;
std::vector<Thr*>& all_threads() { return thrs; }
static Sched sched;
static Rng srng(1);
static Rng frng[F_NUM];
static uint64_t next_preempt = ~0ull, switch_step = 0, points_since_switch = 0;
static uint64_t vpoints = 0;
static std::vector<uint64_t> pct_points;
static size_t dev_i = 0;
static uint64_t H = 0x1234567;
static uint64_t n_switch = 0, n_points = 0;
static bool draining = false;
static uint64_t rr_left = 0;
static const uint64_t FAIR_STEPS = 4000000, FAIR_POINTS = 3000;

const char* stat_names[256];
int n_stat_names = 0;
void stat(const char* name, uint64_t add) {
    // the table is filled in the zygote (register_stats) so that all children agree; unknown names are an error
    for (int i = 0; i < n_stat_names; ++i)
        if (stat_names[i] == name || !strcmp(stat_names[i], name)) { sh->stat[i] += add; return; }
    harness_error(std::string("unregistered stat ") + name);
}

std::string strf(const char* fmt, ...) {
    char buf[4096];
    HarnessScope hs;
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

// ------------------------------------------------------------------ results
static void flush_result(const char* verdict, const char* cls, const char* msg) {
    if (sh->done) return;
    g_active = false;
    snprintf(sh->verdict, sizeof sh->verdict, "%s", verdict);
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    snprintf(sh->msg, sizeof sh->msg, "%s", msg);
    sh->hash = H;
    sh->vtime = vnow - 1000000000ull;
    sh->steps = g_step;
    sh->switches = n_switch;
    sh->total_vtime += sh->vtime;
    sh->total_steps += g_step;
    sh->total_switches += n_switch;
    for (int i = 0; i < F_NUM; ++i) sh->fopp[i] += fault_count[i];
    for (auto& f : faults) if (f.kind != F_TEAM && f.kind != F_IO) sh->ffired[f.kind]++;
    sh->ffired[F_TEAM] += team_short; sh->ffired[F_ALLOC] += alloc_failed_total + alloc_failed; sh->ffired[F_ENTROPY] += entropy.failed;
    sh->ffired[F_IO] += disk.injected;
    if (strcmp(verdict, "ok")) {
        char* p = sh->trace; char* e = sh->trace + sizeof sh->trace - 64;
        for (auto& d : devs) { if (p >= e) break; p += sprintf(p, "dev %llu %d\n", (unsigned long long)d.step, d.tid); }
        for (auto& f : faults) { if (p >= e) break; p += sprintf(p, "fault %s %llu %lld\n", fault_name[f.kind], (unsigned long long)f.idx, (long long)f.val); }
        sh->ntrace = p - sh->trace;
    } else sh->ntrace = 0;
    sh->done = 1;
}
void finish(const char* verdict, const char* cls, const std::string& msg) {
    g_active = false;
    flush_result(verdict, cls, msg.c_str());
    _exit(0);
}
void violation(const char* cls, const std::string& msg) { finish("viol", cls, msg); }
void harness_error(const std::string& msg) { finish("err", "harness", msg); }
void death(Death d, const std::string& what) {
    if (!sh || !cur) { fprintf(stderr, "death outside a simulation: %s\n", what.c_str()); _exit(99); }
    static int depth = 0;
    g_active = false; cur->in_sut = 0;
    if (depth++ == 0 && on_death) on_death(d, what);
    static const char* n[] = {"terminate", "abort", "assert", "signal", "exit"};
    violation(n[d], what);
}

// ------------------------------------------------------------------ futex hand-over
static void fwait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void wait_go(Thr* t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) fwait(&t->go, 0);
    t->go = 0;
}
static void hand_to(Thr* to) {
    fold(cur);
    cur = to;
    to->span_mark = g_step;
    H = mix(H, to->id + 7);
    n_switch++;
    switch_step = g_step; points_since_switch = 0;
    rr_left = sched.quantum;
    __atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
    fwake(&to->go);
}
static void transfer(Thr* to) {
    Thr* me = cur;
    if (to == me) return;
    hand_to(to);
    wait_go(me);
}

// ------------------------------------------------------------------ decisions
static void update_stop() {
    uint64_t s = step_limit;
    if (switch_step + FAIR_STEPS < s) s = switch_step + FAIR_STEPS;
    if (g_record) { if (next_preempt < s) s = next_preempt; }
    else {
        while (dev_i < devs.size() && devs[dev_i].step <= g_step) dev_i++;
        if (dev_i < devs.size() && devs[dev_i].step < s) s = devs[dev_i].step;
    }
    g_stop = s;
}
static void new_preempt() { next_preempt = sched.memgap > 0 ? g_step + srng.geo(sched.memgap) : ~0ull; }

static uint64_t team_run = 0;
void set_sched(const Sched& s) {
    sched = s;
    srng.init(s.seed);
    vpoints = 0;
    pct_points.clear();
    for (int i = 0; i < s.depth; ++i) pct_points.push_back(srng.below(s.len ? s.len : 1));
    std::sort(pct_points.begin(), pct_points.end());
    for (auto t : thrs) { t->prio = 1000 + srng.below(1000000); t->victim = srng.chance(0.3); }
    rr_left = s.quantum;
    new_preempt();
    update_stop();
}
void set_fault_seed(uint64_t seed) {
    uint64_t x = seed;
    for (int i = 0; i < F_NUM; ++i) frng[i].init(Rng::splitmix(x));
}
static std::vector<std::pair<uint64_t, int64_t>> rfaults[F_NUM];
static size_t rcursor[F_NUM];
int64_t fault(FKind k, double prob, uint64_t range) {
    uint64_t idx = fault_count[k]++;
    if (g_record) {
        if (prob <= 0) return -1;
        bool f = frng[k].chance(prob);
        int64_t v = frng[k].below(range);
        if (!f) return -1;
        HarnessScope hs;
        faults.push_back({k, idx, v});
        return v;
    }
    auto& q = rfaults[k]; auto& c = rcursor[k];
    while (c < q.size() && q[c].first < idx) ++c;
    if (c < q.size() && q[c].first == idx) { int64_t v = q[c].second; return v < (int64_t)range ? v : (int64_t)range - 1; }
    return -1;
}
void replay_faults() {
    for (int k = 0; k < F_NUM; ++k) { rfaults[k].clear(); rcursor[k] = 0; }
    for (auto& f : faults) rfaults[f.kind].push_back({f.idx, f.val});
    for (auto& q : rfaults) std::stable_sort(q.begin(), q.end(), [](const std::pair<uint64_t, int64_t>& a, const std::pair<uint64_t, int64_t>& b) { return a.first < b.first; });
}

static std::string describe() {
    if (cur) cur->in_sut = 0; // only called when the run ends here
    std::string s;
    for (auto t : thrs) {
        if (t->st == IDLE || t->st == DONE) continue;
        s += strf(" [thread %d%s: %s %s%s]", t->id, t == cur ? "*" : "", t->st == RUNNABLE ? "runnable" : "waits for",
                  t->st == RUNNABLE ? "" : kind_name[t->why], t->timed ? " (timed)" : "");
    }
    return s;
}
static int count_runnable() { int n = 0; for (auto t : thrs) n += t->st == RUNNABLE; return n; }

static Thr* next_cyclic() {
    int n = thrs.size(), c = cur->id;
    for (int i = 1; i <= n; ++i) { Thr* t = thrs[(c + i) % n]; if (t->st == RUNNABLE) return t; }
    return nullptr;
}
static void fire_timers() { // no thread runnable
    Thr* best = nullptr;
    for (auto t : thrs) if (t->st == BLOCKED && t->timed && (!best || t->wake_at < best->wake_at)) best = t;
    if (best) {
        if (best->wake_at > vnow) vnow = best->wake_at;
        best->timedout = true; best->timed = false; best->st = RUNNABLE;
        return;
    }
    if (draining) { draining = false; thrs[0]->st = RUNNABLE; return; }
    g_active = false; cur->in_sut = 0;
    violation("deadlock", "no thread can make progress:" + describe());
}
static void expire_timers() {
    for (auto t : thrs) if (t->st == BLOCKED && t->timed && t->wake_at <= vnow) { t->timedout = true; t->timed = false; t->st = RUNNABLE; }
}

// cur may be runnable or not; forced: prefer another thread (yield)
static Thr* choose(Kind k, bool forced) {
    int nr = count_runnable();
    if (nr == 0) { fire_timers(); nr = count_runnable(); }
    if (g_step >= step_limit) {
        g_active = false; cur->in_sut = 0;
        violation(step_limit_class, strf("no completion within %llu steps:", (unsigned long long)step_limit) + describe());
    }
    bool stay_ok = cur->st == RUNNABLE && !forced && points_since_switch < FAIR_POINTS && g_step - switch_step < FAIR_STEPS;
    Thr* def = stay_ok ? cur : next_cyclic();
    if (nr == 1) return def;
    if (!g_record) {
        while (dev_i < devs.size() && devs[dev_i].step < g_step) dev_i++;
        if (dev_i < devs.size() && devs[dev_i].step == g_step) {
            int id = devs[dev_i++].tid;
            if (id < (int)thrs.size() && thrs[id]->st == RUNNABLE) return thrs[id];
        }
        return def;
    }
    Thr* pick = def;
    bool must = cur->st != RUNNABLE || forced;
    auto rnd = [&](bool notcur) -> Thr* {
        int m = nr - (notcur && cur->st == RUNNABLE ? 1 : 0);
        int i = srng.below(m);
        for (auto t : thrs) if (t->st == RUNNABLE && !(notcur && t == cur)) if (i-- == 0) return t;
        return def;
    };
    if (k == K_MEM) pick = rnd(true);
    else if (stay_ok || must) switch (sched.policy) {
        case 0: break;
        case 1: if (must) pick = rnd(forced); else if (srng.chance(sched.p)) pick = rnd(false); break;
        case 2: { // priorities with change points
            while (!pct_points.empty() && vpoints >= pct_points.front()) { pct_points.erase(pct_points.begin()); cur->prio = pct_points.size(); }
            Thr* b = nullptr;
            for (auto t : thrs) if (t->st == RUNNABLE && !(forced && t == cur) && (!b || t->prio > b->prio)) b = t;
            if (b) pick = b;
            break; }
        case 3: { // victims only run when nobody else can
            if (must || cur->victim) {
                int m = 0; for (auto t : thrs) m += t->st == RUNNABLE && !t->victim && !(forced && t == cur);
                if (m) { int i = srng.below(m); for (auto t : thrs) if (t->st == RUNNABLE && !t->victim && !(forced && t == cur)) if (i-- == 0) { pick = t; break; } }
            } else if (srng.chance(sched.p * 0.3)) { pick = rnd(false); if (pick->victim) pick = def; }
            if (srng.chance(0.02)) { Thr* t = thrs[srng.below(thrs.size())]; t->victim = !t->victim; }
            break; }
        case 4: if (must || rr_left-- == 0) { rr_left = sched.quantum; pick = next_cyclic(); } break;
        case 5: { // last runnable thread first
            if (must || srng.chance(sched.p * 0.2)) for (auto t : thrs) if (t->st == RUNNABLE && !(forced && t == cur)) pick = t;
            break; }
    }
    if (pick != def) { HarnessScope hs; devs.push_back({g_step, pick->id}); }
    return pick;
}

static void tick_point(Kind k, uintptr_t) {
    ++g_step; ++n_points; ++vpoints; ++points_since_switch;
    vnow += 1000;
    H = mix(H, (uint64_t)cur->id << 8 | k);
    expire_timers();
}
static void after_choice() {
    if (g_record && next_preempt <= g_step) new_preempt();
    update_stop();
}

void sched_point(Kind k, uintptr_t obj) {
    if (!g_active || cur->in_rt) return;
    tick_point(k, obj);
    if (env.spur > 0 || (!g_record && !faults.empty())) {
        size_t w = cond_waiters();
        if (w) { int64_t v = fault(F_SPUR, env.spur, w); if (v >= 0) spurious_wake(v); }
    }
    if (env.yieldskip > 0 || (!g_record && !faults.empty())) {
        int64_t v = fault(F_STALL, env.yieldskip, 200);
        if (v >= 0) {
            cur->timed = true; cur->timedout = false; cur->wake_at = vnow + (v + 1) * 1000;
            cur->st = BLOCKED; cur->why = K_SLEEP;
        }
    }
    Thr* to = choose(k, false);
    after_choice();
    transfer(to);
}
void yield_cpu() {
    if (!g_active || cur->in_rt) return;
    tick_point(K_YIELD, 0);
    Thr* to = choose(K_YIELD, true);
    after_choice();
    transfer(to);
}
void mem_slow() {
    if (!g_active || cur->in_rt) { update_stop(); if (g_stop <= g_step) g_stop = g_step + 1000; return; }
    H = mix(H, g_step);
    ++vpoints; vnow += 100;
    expire_timers();
    bool replay_here = !g_record && dev_i < devs.size() && devs[dev_i].step == g_step;
    bool pre = (g_record && g_step >= next_preempt) || replay_here;
    Thr* to = cur;
    if (pre || g_step >= switch_step + FAIR_STEPS || g_step >= step_limit) to = choose(pre ? K_MEM : K_YIELD, false);
    if (g_step >= switch_step + FAIR_STEPS) { switch_step = g_step; points_since_switch = 0; }
    if (g_record && next_preempt <= g_step) new_preempt();
    update_stop();
    transfer(to);
}
void block(Kind k, uintptr_t obj) {
    cur->st = BLOCKED; cur->why = k; cur->whyobj = obj; cur->timed = false; cur->timedout = false;
    tick_point(k, obj);
    Thr* me = cur;
    Thr* to = choose(k, false);
    after_choice();
    transfer(to);
    if (me->st != RUNNABLE) harness_error("woken while not runnable");
}
bool block_until(Kind k, uintptr_t obj, uint64_t t) {
    Thr* me = cur;
    me->st = BLOCKED; me->why = k; me->whyobj = obj; me->timed = true; me->timedout = false; me->wake_at = t;
    tick_point(k, obj);
    Thr* to = choose(k, false);
    after_choice();
    transfer(to);
    me->timed = false;
    return me->timedout;
}
void make_runnable(Thr* t) { if (t->st == BLOCKED || t->st == IDLE) { t->st = RUNNABLE; t->timed = false; t->timedout = false; } }

// ------------------------------------------------------------------ threads
static void altstack() {
    stack_t ss{};
    ss.ss_size = 64 << 10;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
}
static void leave_cpu(State st) { // current thread has nothing more to do
    Thr* me = cur;
    me->st = st;
    ++g_step;
    H = mix(H, (uint64_t)me->id << 8 | K_EXIT);
    Thr* to = choose(K_EXIT, false);
    after_choice();
    if (to == me) return;
    hand_to(to);
}
static void* thr_main(void* p) {
    Thr* me = (Thr*)p;
    bool first = true;
    for (;;) {
        wait_go(me);
        if (first) { altstack(); first = false; } // only once we own the processor
        if (me->job) { auto j = std::move(me->job); me->job = nullptr; j(); }
        if (me->is_team) { leave_cpu(IDLE); continue; }
        for (auto t : thrs) if (t->st == BLOCKED && t->why == K_JOIN && t->whyobj == (uintptr_t)me) make_runnable(t);
        leave_cpu(DONE);
        for (;;) pause();
    }
    return nullptr;
}
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
Thr* new_thread(bool team, std::function<void()> job) {
    HarnessScope hs;
    if (g_nthr >= MAXT) harness_error("too many threads");
    int act = g_active; g_active = false;
    Thr* t = new Thr;
    t->id = g_nthr++;
    t->is_team = team; t->is_user = !team;
    t->st = team ? IDLE : RUNNABLE;
    t->job = std::move(job);
    t->vc.c[t->id] = 1;
    t->prio = 1000 + (g_record ? srng.below(1000000) : 0);
    t->victim = g_record ? srng.chance(0.3) : false;
    t->ctx = new_root_ctx();
    const size_t sz = 1 << 20;
    static char* next = (char*)0x200000000000ull;
    char* st = (char*)mmap(next, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (st == MAP_FAILED) harness_error("mmap stack");
    next += sz + (64 << 10);
    t->stack_lo = st;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, sz);
    if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    thrs.push_back(t);
    if (real_pthread_create(&t->pt, &a, thr_main, t)) harness_error("pthread_create");
    pthread_attr_destroy(&a);
    g_active = act;
    return t;
}
size_t user_threads_left() { size_t n = 0; for (auto t : thrs) n += t->is_user && t != cur && t->id && t->st != DONE; return n; }
Thr* spawn(std::function<void()> job) {
    Thr* t = new_thread(false, std::move(job));
    cur->vc.c[cur->id]++;
    t->vc.join(cur->vc); t->vc.c[t->id]++;
    sched_point(K_CREATE);
    return t;
}
void join(Thr* t) {
    sched_point(K_JOIN, (uintptr_t)t);
    while (t->st != DONE) block(K_JOIN, (uintptr_t)t);
    cur->vc.join(t->vc);
}

static int run_count = 0;
void begin() {
    if (thrs.empty()) {
        Thr* t = new Thr;
        t->id = g_nthr++; t->vc.c[0] = 1; t->ctx = new_root_ctx(); t->prio = 1000;
        thrs.push_back(t);
        cur = t;
        altstack();
    }
    if (cur != thrs[0]) harness_error("begin on another thread");
    for (auto t : thrs) { t->vc.c[t->id]++; }
    for (auto t : thrs) if (t != cur) { cur->vc.join(t->vc); }
    for (auto t : thrs) if (t != cur) { t->vc.join(cur->vc); t->vc.c[t->id]++; }
    cur->vc.c[cur->id]++;
    switch_step = g_step; points_since_switch = 0;
    cur->span_mark = g_step;
    sh->sim_runs++;
    run_count++;
    update_stop();
    g_active = true;
}
void end() {
    if (cur != thrs[0]) harness_error("end on another thread");
    bool others = false;
    for (auto t : thrs) if (t != cur && t->st != IDLE && t->st != DONE) others = true;
    if (others) { draining = true; block(K_EXIT, 0); draining = false; }
    g_active = false;
}

// ------------------------------------------------------------------ process set-up
static void on_signal(int sig, siginfo_t* si, void* uc) {
    static volatile int nested = 0;
    if (nested++) _exit(98);
    auto* u = (ucontext_t*)uc;
    uintptr_t pc = u->uc_mcontext.gregs[REG_RIP];
    Dl_info di{};
    char where[512] = "?";
    if (dladdr((void*)pc, &di) && di.dli_fname) {
        const char* b = strrchr(di.dli_fname, '/');
        snprintf(where, sizeof where, "%s+0x%lx %s", b ? b + 1 : di.dli_fname, (unsigned long)(pc - (uintptr_t)di.dli_fbase), di.dli_sname ? di.dli_sname : "");
    }
    if (cur) cur->in_sut = 0;
    char buf[1024];
    snprintf(buf, sizeof buf, "signal %d (%s) at %s, address %p, thread %d", sig, strsignal(sig), where, si->si_addr, cur ? cur->id : -1);
    if (sig == SIGXCPU || sig == SIGALRM) {
        g_active = false;
        flush_result("viol", "hang", (std::string("processor time limit reached: ") + describe()).c_str());
        _exit(0);
    }
    death(D_SIGNAL, buf);
}
static void on_terminate() {
    if (cur) cur->in_sut = 0;
    std::string what = "std::terminate";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { what += std::string(": ") + x.what(); }
        catch (const char* c) { what += std::string(": ") + c; }
        catch (...) { what += ": unknown exception"; }
    }
    death(D_TERMINATE, what);
}
void init_process() {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void* d[2]; backtrace(d, 2); // loads libgcc now
}
void init_child() {
    altstack();
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    sh->done = 0; sh->ntrace = 0; sh->nontrivial = 0; sh->evals = 0; sh->info[0] = 0;
}

uint64_t read_clock(bool realtime) {
    if (g_active) {
        vnow += 20;
        int64_t v = fault(F_CLOCK, env.clockjump, 8);
        if (v >= 0) {
            static const int64_t j[] = {-3600000000000ll, -1000000ll, 1000000ll, 1000000000ll, 86400000000000ll, -1000000000ll, 250000000ll, -86400000000000ll};
            if (v == 2 || v == 3 || v == 6) vnow += j[v]; else vreal_off += j[v];
        }
    }
    return realtime ? (uint64_t)((int64_t)vnow + vreal_off) : vnow;
}

} // namespace rt

extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
    const char* b = strrchr(f, '/');
    rt::death(rt::D_ASSERT, rt::strf("assertion failed: %s at %s:%u in %.160s", e, b ? b + 1 : f, l, fn ? fn : "?"));
}
namespace std { [[noreturn]] void __glibcxx_assert_fail(const char* f, int l, const char*, const char* c) noexcept; }
__attribute__((visibility("default"))) void std::__glibcxx_assert_fail(const char* f, int l, const char*, const char* c) noexcept {
    const char* b = f ? strrchr(f, '/') : nullptr;
    rt::death(rt::D_ASSERT, rt::strf("library assertion failed: %s at %s:%d", c ? c : "unreachable", b ? b + 1 : f ? f : "?", l));
}
extern "C" void abort() noexcept { rt::death(rt::D_ABORT, "abort called"); }
