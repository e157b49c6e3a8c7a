// OpenMP runtime of the simulated process: the libgomp entry points the compiler emits, and the omp_* interface,
// on top of the simulator's scheduler. Team sizes, loop chunk assignment and task order are decisions of the simulation.
#include "rt.h"
#include <deque>
#include <map>
#include <omp.h>
#include <stdlib.h>

#define EXPORT __attribute__((visibility("default"), used))
typedef unsigned long long ull;

namespace rt {

uint64_t team_short = 0, regions_seen = 0, max_team = 0;

struct Task {
    void (*fn)(void*) = nullptr;
    char* arg = nullptr; // owned copy
    void* argp = nullptr;
    Task* parent = nullptr;
    int children = 0; // not finished
    struct Group* group = nullptr; // innermost group this task belongs to
    VC created, childdone;
    bool finished = false, final_ = false;
    int in_sut = 0;
    int refs = 1;
};
struct Group { Group* up; int open = 0; VC done; };
struct Work {
    int kind = 0; // 0 static 1 dynamic 2 guided 3 sections 4 single
    bool is_ull = false, up = true;
    long long next = 0, end = 0, incr = 1, chunk = 0;
    ull unext = 0, uend = 0, uincr = 1, uchunk = 0;
    long long start0 = 0; ull ustart0 = 0;
    int left = 0;     // members that are still to finish
    bool claimed = false;
    void* copy = nullptr; bool copied = false; VC copyvc;
    // ordered
    uint64_t ord_next = 0; // next iteration index (in units of incr) allowed into the ordered section
    VC ordvc;
};
struct Team {
    int n = 1;
    Thr* master = nullptr;
    int arrived = 0; uint64_t gen = 0; VC barvc;
    int done = 0; VC endvc;
    std::map<uint64_t, Work> works;
    std::deque<Task*> queue;
    int open_tasks = 0; // queued or running
    VC taskvc;
};
struct GroupIcv { int busy = 1; };
struct Ctx {
    Ctx* up = nullptr;
    Team* team = nullptr;
    int tid = 0, level = 0, active = 0;
    int nthreads = 1; bool dyn = false; int maxlev = 1;
    omp_sched_t sched = omp_sched_dynamic; int sched_chunk = 1;
    uint64_t ws = 0;
    Work* cw = nullptr; uint64_t cwi = 0; int sround = 0;
    uint64_t ord_first = 0, ord_last = 0; // iteration indices of the current chunk
    uint64_t ord_cur = 0; bool ord_in = false;
    Task* task = nullptr; // current explicit or implicit task
    Group* group = nullptr;
    GroupIcv* g = nullptr;
};

static void apply_env(Ctx* c) {
    c->nthreads = env.nthreads.empty() ? 1 : env.nthreads[0];
    c->dyn = env.dyn; c->maxlev = env.maxlevels;
}
Ctx* new_root_ctx() {
    Ctx* c = new Ctx;
    c->team = new Team; c->g = new GroupIcv; c->task = new Task;
    apply_env(c);
    return c;
}
void gomp_reset() { if (cur) cur->ctx = new_root_ctx(); }

extern std::vector<Thr*>& all_threads();
static Ctx* C() {
    static Ctx* boot = nullptr;
    if (cur) return cur->ctx;
    if (!boot) boot = new_root_ctx();
    return boot;
}
static bool on() { return g_active && cur; }

// ------------------------------------------------------------------ tasks
static void task_unref(Task* t) { if (--t->refs == 0) { free(t->arg); delete t; } }
static void wake_team(Team* tm) { // members waiting at a barrier, taskwait or the end of the region re-check
    for (auto t : all_threads())
        if (t->st == BLOCKED && (t->why == K_BARRIER || t->why == K_TASK || t->why == K_JOINTEAM || t->why == K_ORDERED || t->why == K_SINGLE) && t->whyobj == (uintptr_t)tm) make_runnable(t);
}
static void run_body(Task* t, Ctx* c) {
    Task* old = c->task; Group* og = c->group;
    c->task = t; c->group = t->group;
    int s = cur ? cur->in_sut : 0;
    if (cur) cur->in_sut = t->in_sut;
    t->fn(t->argp);
    if (cur) cur->in_sut = s;
    c->task = old; c->group = og;
    t->finished = true;
    if (on()) {
        mem_release_hb(cur, t->parent->childdone);
        mem_release_hb(cur, c->team->taskvc);
        if (t->group) mem_release_hb(cur, t->group->done);
    }
    if (t->group) t->group->open--;
    t->parent->children--;
    task_unref(t->parent);
}
static bool run_one_task(Team* tm, Ctx* c) {
    if (tm->queue.empty()) return false;
    int64_t v = fault(F_TASK, g_record && tm->queue.size() > 1 ? 0.4 : 0, tm->queue.size());
    size_t i = v < 0 ? 0 : v;
    Task* t = tm->queue[i];
    tm->queue.erase(tm->queue.begin() + i);
    mem_acquire_hb(cur, t->created);
    sched_point(K_TASK, (uintptr_t)tm);
    run_body(t, c);
    tm->open_tasks--;
    task_unref(t);
    wake_team(tm);
    return true;
}

// ------------------------------------------------------------------ teams
static void team_barrier(Team* tm, Ctx* c) {
    HarnessScope hs;
    sched_point(K_BARRIER, (uintptr_t)tm);
    if (!on()) return;
    if (tm->n == 1) { while (run_one_task(tm, c)) ; if (tm->open_tasks == 0) mem_acquire_hb(cur, tm->taskvc); return; }
    mem_release_hb(cur, tm->barvc);
    uint64_t g = tm->gen;
    tm->arrived++;
    for (;;) {
        if (tm->gen != g) break;
        if (run_one_task(tm, c)) continue;
        if (tm->arrived == tm->n && tm->open_tasks == 0) {
            tm->arrived = 0; tm->gen++;
            tm->barvc.join(tm->taskvc);
            wake_team(tm);
            break;
        }
        block(K_BARRIER, (uintptr_t)tm);
    }
    mem_acquire_hb(cur, tm->barvc);
}
static Thr* idle_worker() {
    for (auto t : all_threads()) if (t->is_team && t->st == IDLE && !t->job) return t;
    return new_thread(true, nullptr);
}
static int team_size(Ctx* c, unsigned req) {
    int want = req ? (int)req : c->nthreads;
    if (want < 1) want = 1;
    if (!on()) return 1;
    regions_seen++;
    int full = want;
    if (want > 1 && c->active >= c->maxlev) want = 1;
    else if (want > 1) {
        if (env.limit > 0) { int free_ = env.limit - c->g->busy; if (want > free_ + 1) want = free_ + 1 > 1 ? free_ + 1 : 1; }
        if (env.teampol == 1 && env.teamk > 0 && want > env.teamk) want = env.teamk;
        if (want > 1) {
            double p = env.teampol == 2 ? 0.7 : c->dyn ? 0.4 : 0;
            int64_t v = fault(F_TEAM, p, want - 1);
            if (v >= 0) want = (int)v + 1;
        }
    }
    if (want > 200) want = 200;
    if (want < full) team_short++;
    if ((uint64_t)want > max_team) max_team = want;
    return want;
}
static Ctx* member(Ctx* up, Team* tm, int tid) {
    Ctx* c = new Ctx;
    c->up = up; c->team = tm; c->tid = tid;
    c->level = up->level + 1; c->active = up->active + (tm->n > 1);
    c->nthreads = c->level < (int)env.nthreads.size() ? env.nthreads[c->level] : up->nthreads;
    c->dyn = up->dyn; c->maxlev = up->maxlev; c->sched = up->sched; c->sched_chunk = up->sched_chunk; c->g = up->g;
    c->task = new Task;
    return c;
}
static void drop(Ctx* c) { task_unref(c->task); delete c; }

static void parallel(void (*fn)(void*), void* data, unsigned req, const std::function<void(Team*)>& setup = nullptr) {
    Ctx* up = C();
    Team* tm;
    Ctx* mine;
    std::vector<Thr*> ws;
    int sut = 0;
    {
        int s0 = cur ? cur->in_sut : 0; sut = s0;
        if (cur) cur->in_sut = 0;
        sched_point(K_FORK);
        tm = new Team;
        tm->n = team_size(up, req);
        tm->master = cur;
        up->g->busy += tm->n - 1;
        if (setup) setup(tm);
        mine = member(up, tm, 0);
        for (int i = 1; i < tm->n; ++i) {
            Thr* w = idle_worker();
            Ctx* wc = member(up, tm, i);
            w->job = [tm, wc, w, fn, data, sut] {
                Ctx* old = w->ctx;
                w->ctx = wc; w->in_sut = sut;
                sched_point(K_START);
                fn(data);
                w->in_sut = 0;
                sched_point(K_JOINTEAM, (uintptr_t)tm);
                while (run_one_task(tm, wc)) ;
                mem_release_hb(w, tm->endvc);
                w->ctx = old;
                drop(wc);
                tm->done++;
                wake_team(tm);
            };
            ws.push_back(w);
        }
        if (on()) {
            cur->vc.c[cur->id]++;
            for (auto w : ws) { w->vc.join(cur->vc); w->vc.c[w->id]++; w->st = RUNNABLE; }
            cur->vc.c[cur->id]++;
        }
        if (cur) { cur->ctx = mine; cur->in_sut = s0; }
        sched_point(K_FORK);
    }
    fn(data);
    {
        int s0 = cur ? cur->in_sut : 0;
        if (cur) cur->in_sut = 0;
        sched_point(K_JOINTEAM, (uintptr_t)tm);
        for (;;) {
            if (run_one_task(tm, mine)) continue;
            if (tm->done == tm->n - 1 && tm->open_tasks == 0) break;
            block(K_JOINTEAM, (uintptr_t)tm);
        }
        if (on()) { mem_acquire_hb(cur, tm->endvc); mem_acquire_hb(cur, tm->taskvc); }
        up->g->busy -= tm->n - 1;
        if (cur) cur->ctx = up;
        drop(mine);
        delete tm;
        if (cur) cur->in_sut = s0;
    }
}

// ------------------------------------------------------------------ work sharing
static Work& enter_work(Ctx* c, bool& first) {
    uint64_t i = c->ws++;
    Team* tm = c->team;
    auto it = tm->works.find(i);
    first = it == tm->works.end();
    if (first) { it = tm->works.emplace(i, Work()).first; it->second.left = tm->n; }
    c->cw = &it->second; c->cwi = i; c->sround = 0;
    return it->second;
}
static void leave_work(Ctx* c) {
    if (!c->cw) return;
    if (--c->cw->left == 0) c->team->works.erase(c->cwi);
    c->cw = nullptr;
}
static bool loop_next(long* is, long* ie) {
    HarnessScope hs;
    sched_point(K_LOOP);
    Ctx* c = C(); Work& w = *c->cw; int n = c->team->n;
    long long total = w.incr > 0 ? (w.end > w.start0 ? (w.end - w.start0 + w.incr - 1) / w.incr : 0) : (w.end < w.start0 ? (w.start0 - w.end - w.incr - 1) / -w.incr : 0);
    long long a, b; // iteration indices
    if (w.kind == 0) {
        if (w.chunk <= 0) {
            if (c->sround++) return false;
            long long q = total / n, r = total % n;
            if (c->tid < r) { a = c->tid * (q + 1); b = a + q + 1; } else { a = r * (q + 1) + (c->tid - r) * q; b = a + q; }
            if (a == b) return false;
        } else {
            a = ((long long)c->sround++ * n + c->tid) * w.chunk; b = a + w.chunk;
            if (a >= total) return false;
            if (b > total) b = total;
        }
    } else {
        a = w.next;
        if (a >= total) return false;
        long long ch = w.chunk > 0 ? w.chunk : 1;
        if (w.kind == 2) { long long q = (total - a + n - 1) / n; if (q > ch) ch = q; }
        b = a + ch < total ? a + ch : total;
        w.next = b;
    }
    c->ord_first = c->ord_cur = a; c->ord_last = b; c->ord_in = false;
    *is = w.start0 + a * w.incr; *ie = w.start0 + b * w.incr;
    if (b == total) *ie = w.end;
    return true;
}
static void loop_setup(Work& w, int kind, long s, long e, long incr, long chunk) { w.kind = kind; w.start0 = s; w.end = e; w.incr = incr; w.chunk = chunk; w.next = 0; }
static bool loop_start(int kind, long s, long e, long incr, long chunk, long* is, long* ie) {
    HarnessScope hs;
    sched_point(K_LOOP);
    bool first; Ctx* c = C();
    Work& w = enter_work(c, first);
    if (first) loop_setup(w, kind, s, e, incr, chunk);
    return is ? loop_next(is, ie) : true;
}
static bool ull_next(ull* is, ull* ie) {
    HarnessScope hs;
    sched_point(K_LOOP);
    Ctx* c = C(); Work& w = *c->cw; int n = c->team->n;
    ull total;
    if (w.up) total = w.uend > w.ustart0 ? (w.uend - w.ustart0 + w.uincr - 1) / w.uincr : 0;
    else { ull dec = -w.uincr; total = w.uend < w.ustart0 ? (w.ustart0 - w.uend + dec - 1) / dec : 0; }
    ull a, b;
    if (w.kind == 0) {
        if (w.uchunk == 0) {
            if (c->sround++) return false;
            ull q = total / n, r = total % n, t = c->tid;
            if (t < r) { a = t * (q + 1); b = a + q + 1; } else { a = r * (q + 1) + (t - r) * q; b = a + q; }
            if (a == b) return false;
        } else {
            a = ((ull)c->sround++ * n + c->tid) * w.uchunk; b = a + w.uchunk;
            if (a >= total) return false;
            if (b > total) b = total;
        }
    } else {
        a = w.unext;
        if (a >= total) return false;
        ull ch = w.uchunk ? w.uchunk : 1;
        if (w.kind == 2) { ull q = (total - a + n - 1) / n; if (q > ch) ch = q; }
        b = total - a > ch ? a + ch : total;
        w.unext = b;
    }
    c->ord_first = c->ord_cur = a; c->ord_last = b; c->ord_in = false;
    *is = w.ustart0 + a * w.uincr; *ie = w.ustart0 + b * w.uincr;
    if (b == total) *ie = w.uend;
    return true;
}
static bool ull_start(bool up, int kind, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie) {
    HarnessScope hs;
    sched_point(K_LOOP);
    bool first; Ctx* c = C();
    Work& w = enter_work(c, first);
    if (first) { w.kind = kind; w.is_ull = true; w.up = up; w.ustart0 = s; w.uend = e; w.uincr = incr; w.uchunk = chunk; }
    return is ? ull_next(is, ie) : true;
}
static int runtime_kind(long& chunk) {
    Ctx* c = C();
    chunk = c->sched_chunk;
    int k = (int)c->sched & 0xff;
    if (k == omp_sched_static || k == omp_sched_auto) { if (k == omp_sched_auto) chunk = 0; return 0; }
    return k == omp_sched_guided ? 2 : 1;
}
static void par_loop(void (*fn)(void*), void* d, unsigned nt, int kind, long s, long e, long incr, long chunk) {
    parallel(fn, d, nt, [=](Team* tm) { Work w; loop_setup(w, kind, s, e, incr, chunk); w.left = tm->n; tm->works.emplace(0, w); });
}
// combined constructs: the body calls *_next without *_start
static void adopt() {
    Ctx* c = C();
    if (!c->cw) { bool f; enter_work(c, f); if (f) harness_error("worksharing construct without start"); }
}
static bool sect_next_impl(unsigned* r) {
    Ctx* c = C(); Work& w = *c->cw;
    if (w.next >= w.end) { *r = 0; return false; }
    *r = (unsigned)++w.next; return true;
}
static void ordered_enter() {
    HarnessScope hs;
    Ctx* c = C();
    sched_point(K_ORDERED, (uintptr_t)c->team);
    if (!c->cw) return;
    while (c->cw->ord_next != c->ord_cur) {
        if (c->cw->ord_next < c->ord_cur) block(K_ORDERED, (uintptr_t)c->team); else break;
    }
    mem_acquire_hb(cur, c->cw->ordvc);
}
static void ordered_leave() {
    HarnessScope hs;
    Ctx* c = C();
    if (!c->cw) return;
    c->ord_cur++; c->cw->ord_next = c->ord_cur;
    mem_release_hb(cur, c->cw->ordvc);
    wake_team(c->team);
    sched_point(K_ORDERED, (uintptr_t)c->team);
}
static const char crit_default = 0, atomic_default = 0;
static uintptr_t lock_obj(const void* p) { return (uintptr_t)p; }

} // namespace rt
using namespace rt;

extern "C" {
// ------------------------------------------------------------------ parallel
EXPORT void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { parallel(fn, d, nt); }
EXPORT void GOMP_parallel_start(void (*)(void*), void*, unsigned) { harness_error("GOMP_parallel_start is not supported"); }
EXPORT void GOMP_parallel_end() { harness_error("GOMP_parallel_end is not supported"); }
#define PLOOP(name, kind) EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long incr, long chunk, unsigned) { par_loop(fn, d, nt, kind, s, e, incr, chunk); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name) EXPORT void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long incr, unsigned) { long ch; int k = runtime_kind(ch); par_loop(fn, d, nt, k, s, e, incr, ch); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
// ------------------------------------------------------------------ loops
#define LOOP(name, kind) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long incr, long chunk, long* is, long* ie) { return loop_start(kind, s, e, incr, chunk, is, ie); } \
    EXPORT bool GOMP_loop_##name##_next(long* is, long* ie) { adopt(); return loop_next(is, ie); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
LOOP(ordered_static, 0) LOOP(ordered_dynamic, 1) LOOP(ordered_guided, 2)
#define LOOPR(name) \
    EXPORT bool GOMP_loop_##name##_start(long s, long e, long incr, long* is, long* ie) { long ch; int k = runtime_kind(ch); return loop_start(k, s, e, incr, ch, is, ie); } \
    EXPORT bool GOMP_loop_##name##_next(long* is, long* ie) { adopt(); return loop_next(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(ordered_runtime)
static bool loop_generic(bool, long s, long e, long incr, long sched, long chunk, long* is, long* ie, uintptr_t* red, void** mem) {
    if (red || mem) harness_error("task reductions are not supported");
    int k = sched & 0xff;
    if (k == 0) { long ch; k = runtime_kind(ch); chunk = ch; } else k = k == 1 || k == 4 ? 0 : k == 3 ? 2 : 1;
    return loop_start(k, s, e, incr, chunk, is, ie);
}
EXPORT bool GOMP_loop_start(long s, long e, long incr, long sched, long chunk, long* is, long* ie, uintptr_t* red, void** mem) { return loop_generic(false, s, e, incr, sched, chunk, is, ie, red, mem); }
EXPORT bool GOMP_loop_ordered_start(long s, long e, long incr, long sched, long chunk, long* is, long* ie, uintptr_t* red, void** mem) { return loop_generic(true, s, e, incr, sched, chunk, is, ie, red, mem); }
#define ULOOP(name, kind) \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie) { return ull_start(up, kind, s, e, incr, chunk, is, ie); } \
    EXPORT bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { adopt(); return ull_next(is, ie); }
ULOOP(static, 0) ULOOP(dynamic, 1) ULOOP(guided, 2) ULOOP(nonmonotonic_dynamic, 1) ULOOP(nonmonotonic_guided, 2)
ULOOP(ordered_static, 0) ULOOP(ordered_dynamic, 1) ULOOP(ordered_guided, 2)
#define ULOOPR(name) \
    EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull incr, ull* is, ull* ie) { long ch; int k = runtime_kind(ch); return ull_start(up, k, s, e, incr, ch, is, ie); } \
    EXPORT bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { adopt(); return ull_next(is, ie); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime) ULOOPR(ordered_runtime)
EXPORT void GOMP_loop_end_nowait() { HarnessScope hs; adopt(); leave_work(C()); }
EXPORT void GOMP_loop_end() { GOMP_loop_end_nowait(); team_barrier(C()->team, C()); }
EXPORT bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXPORT void GOMP_ordered_start() { ordered_enter(); }
EXPORT void GOMP_ordered_end() { ordered_leave(); }
// ------------------------------------------------------------------ sections, single, barrier
EXPORT unsigned GOMP_sections_start(unsigned count) {
    HarnessScope hs; sched_point(K_LOOP);
    bool f; Work& w = enter_work(C(), f);
    if (f) { w.kind = 3; w.next = 0; w.end = count; }
    unsigned r; sect_next_impl(&r); return r;
}
EXPORT unsigned GOMP_sections_next() { HarnessScope hs; sched_point(K_LOOP); adopt(); unsigned r; sect_next_impl(&r); return r; }
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) {
    parallel(fn, d, nt, [=](Team* tm) { Work w; w.kind = 3; w.next = 0; w.end = count; w.left = tm->n; tm->works.emplace(0, w); });
}
EXPORT void GOMP_sections_end_nowait() { HarnessScope hs; adopt(); leave_work(C()); }
EXPORT void GOMP_sections_end() { GOMP_sections_end_nowait(); team_barrier(C()->team, C()); }
EXPORT bool GOMP_sections_end_cancel() { GOMP_sections_end(); return false; }
EXPORT bool GOMP_single_start() {
    HarnessScope hs; sched_point(K_SINGLE);
    bool f; Ctx* c = C(); enter_work(c, f); leave_work(c); return f;
}
EXPORT void* GOMP_single_copy_start() {
    HarnessScope hs; sched_point(K_SINGLE);
    bool f; Ctx* c = C(); Work& w = enter_work(c, f);
    if (f) return nullptr;
    while (!w.copied) block(K_SINGLE, (uintptr_t)c->team);
    mem_acquire_hb(cur, w.copyvc);
    void* p = w.copy;
    leave_work(c);
    return p;
}
EXPORT void GOMP_single_copy_end(void* d) {
    HarnessScope hs;
    Ctx* c = C();
    c->cw->copy = d; c->cw->copied = true; mem_release_hb(cur, c->cw->copyvc);
    wake_team(c->team);
    leave_work(c);
}
EXPORT void GOMP_barrier() { team_barrier(C()->team, C()); }
EXPORT bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }
// ------------------------------------------------------------------ critical, atomic
EXPORT void GOMP_critical_start() { if (on()) sim_mutex_lock(lock_obj(&crit_default), false, K_CRIT); }
EXPORT void GOMP_critical_end() { if (on()) sim_mutex_unlock(lock_obj(&crit_default)); }
EXPORT void GOMP_critical_name_start(void** p) { if (on()) sim_mutex_lock(lock_obj(p), false, K_CRIT); }
EXPORT void GOMP_critical_name_end(void** p) { if (on()) sim_mutex_unlock(lock_obj(p)); }
EXPORT void GOMP_atomic_start() { if (on()) sim_mutex_lock(lock_obj(&atomic_default), false, K_CRIT); }
EXPORT void GOMP_atomic_end() { if (on()) sim_mutex_unlock(lock_obj(&atomic_default)); }
// ------------------------------------------------------------------ tasks
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool ifc, unsigned flags, void**, int, void*) {
    Ctx* c = C(); Team* tm = c->team;
    Task* t; bool deferred;
    int sut = cur ? cur->in_sut : 0;
    {
        HarnessScope hs;
        sched_point(K_TASK, (uintptr_t)tm);
        t = new Task;
        t->in_sut = sut; t->fn = fn; t->parent = c->task; t->group = c->group;
        t->final_ = (flags & 2) || c->task->final_;
        c->task->refs++; c->task->children++;
        if (t->group) t->group->open++;
        deferred = ifc && !t->final_ && !(flags & 8) && on();
        if (deferred || cpy) {
            t->arg = (char*)malloc(size + align + 8);
            t->argp = (void*)(((uintptr_t)t->arg + align - 1) & ~(uintptr_t)(align - 1));
            if (!cpy) memcpy(t->argp, data, size);
        } else t->argp = data;
    }
    if (cpy) cpy(t->argp, data);
    HarnessScope hs;
    if (!deferred) {
        if (flags & 8) while (c->task->children > 1) if (!run_one_task(tm, c)) block(K_TASK, (uintptr_t)tm); // dependences: after all earlier siblings
        if (flags & 8) mem_acquire_hb(cur, c->task->childdone);
        run_body(t, c); task_unref(t); wake_team(tm); return;
    }
    mem_release_hb(cur, t->created);
    tm->queue.push_back(t); tm->open_tasks++;
    wake_team(tm);
    sched_point(K_TASK, (uintptr_t)tm);
}
EXPORT void GOMP_taskwait() {
    HarnessScope hs;
    Ctx* c = C();
    sched_point(K_TASK, (uintptr_t)c->team);
    while (c->task->children > 0) if (!run_one_task(c->team, c)) block(K_TASK, (uintptr_t)c->team);
    if (on()) mem_acquire_hb(cur, c->task->childdone);
}
EXPORT void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
EXPORT void GOMP_taskyield() { HarnessScope hs; sched_point(K_TASK); }
EXPORT void GOMP_taskgroup_start() { HarnessScope hs; Ctx* c = C(); Group* g = new Group; g->up = c->group; c->group = g; }
EXPORT void GOMP_taskgroup_end() {
    HarnessScope hs;
    Ctx* c = C(); Group* g = c->group;
    sched_point(K_TASK, (uintptr_t)c->team);
    while (g->open > 0) if (!run_one_task(c->team, c)) block(K_TASK, (uintptr_t)c->team);
    if (on()) mem_acquire_hb(cur, g->done);
    c->group = g->up; delete g;
}
static void taskloop_impl(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, long long total, std::function<void(void*, long long, long long)> setr) {
    // flags: 1<<8 up, 1<<9 grainsize, 1<<10 if, 1<<11 nogroup
    bool grain = flags & (1 << 9), nogroup = flags & (1 << 11), ifc = flags & (1 << 10);
    if (total <= 0) return;
    long long nt = grain ? (num ? total / (long long)num : 1) : (num ? (long long)num : C()->team->n);
    if (nt < 1) nt = 1;
    if (nt > total) nt = total;
    if (!nogroup) GOMP_taskgroup_start();
    for (long long i = 0; i < nt; ++i) {
        long long a = total / nt * i + (i < total % nt ? i : total % nt), b = a + total / nt + (i < total % nt);
        char* buf; void* p;
        { HarnessScope hs; buf = (char*)malloc(size + align); p = (void*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); }
        if (cpy) cpy(p, data); else memcpy(p, data, size);
        setr(p, a, b);
        GOMP_task(fn, p, nullptr, size, align, ifc || !(flags & (1 << 10)), flags & 3, nullptr, 0, nullptr);
        HarnessScope hs; free(buf);
    }
    if (!nogroup) GOMP_taskgroup_end();
}
EXPORT void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, long s, long e, long step) {
    long long total = step > 0 ? (e > s ? (e - s + step - 1) / step : 0) : (e < s ? (s - e - step - 1) / -step : 0);
    taskloop_impl(fn, data, cpy, size, align, flags, num, total, [=](void* p, long long a, long long b) { ((long*)p)[0] = s + a * step; ((long*)p)[1] = s + b * step; });
}
EXPORT void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, ull s, ull e, ull step) {
    bool up = flags & (1 << 8); ull dec = -step;
    long long total = up ? (e > s ? (e - s + step - 1) / step : 0) : (e < s ? (s - e + dec - 1) / dec : 0);
    taskloop_impl(fn, data, cpy, size, align, flags, num, total, [=](void* p, long long a, long long b) { ((ull*)p)[0] = s + a * step; ((ull*)p)[1] = s + b * step; });
}
// ------------------------------------------------------------------ omp_*
#define OC noexcept
EXPORT int omp_get_thread_num() OC { return C()->tid; }
EXPORT int omp_get_num_threads() OC { return C()->team->n; }
EXPORT int omp_get_max_threads() OC { return C()->nthreads; }
EXPORT void omp_set_num_threads(int n) OC { C()->nthreads = n < 1 ? 1 : n; }
EXPORT int omp_get_num_procs() OC { return 8; }
EXPORT int omp_in_parallel() OC { return C()->active > 0; }
EXPORT void omp_set_dynamic(int v) OC { C()->dyn = v; }
EXPORT int omp_get_dynamic() OC { return C()->dyn; }
EXPORT void omp_set_nested(int v) OC { C()->maxlev = v ? 8 : 1; }
EXPORT int omp_get_nested() OC { return C()->maxlev > 1; }
EXPORT void omp_set_max_active_levels(int v) OC { if (v >= 0) C()->maxlev = v; }
EXPORT int omp_get_max_active_levels() OC { return C()->maxlev; }
EXPORT int omp_get_supported_active_levels() OC { return 255; }
EXPORT int omp_get_thread_limit() OC { return env.limit > 0 ? env.limit : 2147483647; }
EXPORT int omp_get_level() OC { return C()->level; }
EXPORT int omp_get_active_level() OC { return C()->active; }
EXPORT int omp_get_ancestor_thread_num(int l) OC { Ctx* c = C(); if (l < 0 || l > c->level) return -1; while (c->level > l) c = c->up; return c->tid; }
EXPORT int omp_get_team_size(int l) OC { Ctx* c = C(); if (l < 0 || l > c->level) return -1; while (c->level > l) c = c->up; return c->team->n; }
EXPORT void omp_set_schedule(omp_sched_t k, int ch) OC { C()->sched = k; C()->sched_chunk = ch; }
EXPORT void omp_get_schedule(omp_sched_t* k, int* ch) OC { *k = C()->sched; *ch = C()->sched_chunk; }
EXPORT double omp_get_wtime() OC { return read_clock(false) / 1e9; }
EXPORT double omp_get_wtick() OC { return 1e-9; }
EXPORT int omp_in_final() OC { return C()->task->final_; }
EXPORT int omp_get_cancellation() OC { return 0; }
EXPORT omp_proc_bind_t omp_get_proc_bind() OC { return omp_proc_bind_false; }
EXPORT int omp_get_num_places() OC { return 0; }
EXPORT int omp_get_place_num() OC { return -1; }
EXPORT int omp_is_initial_device() OC { return 1; }
EXPORT int omp_get_num_devices() OC { return 0; }
EXPORT int omp_get_default_device() OC { return 0; }
EXPORT int omp_get_num_teams() OC { return 1; }
EXPORT int omp_get_team_num() OC { return 0; }
EXPORT int omp_get_max_task_priority() OC { return 0; }
EXPORT void omp_init_lock(omp_lock_t*) OC {}
EXPORT void omp_destroy_lock(omp_lock_t*) OC {}
EXPORT void omp_set_lock(omp_lock_t* l) OC { if (on()) sim_mutex_lock((uintptr_t)l); }
EXPORT void omp_unset_lock(omp_lock_t* l) OC { if (on()) sim_mutex_unlock((uintptr_t)l); }
EXPORT int omp_test_lock(omp_lock_t* l) OC { return on() ? sim_mutex_trylock((uintptr_t)l) : 1; }
EXPORT void omp_init_nest_lock(omp_nest_lock_t*) OC {}
EXPORT void omp_destroy_nest_lock(omp_nest_lock_t*) OC {}
EXPORT void omp_set_nest_lock(omp_nest_lock_t* l) OC { if (on()) sim_mutex_lock((uintptr_t)l, true); }
EXPORT void omp_unset_nest_lock(omp_nest_lock_t* l) OC { if (on()) sim_mutex_unlock((uintptr_t)l); }
EXPORT int omp_test_nest_lock(omp_nest_lock_t* l) OC { return on() ? sim_mutex_trylock((uintptr_t)l, true) : 1; }
}
