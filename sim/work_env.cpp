// C23: a call leaves nothing behind but its result.
#include "work.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <exception>
#include <iostream>
#include <new>
#include <omp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
using namespace rt;
extern char** environ;
namespace rt { size_t disk_open_files(); }

static void note(const std::string& s) { snprintf(sh->info, sizeof sh->info, "%s", s.c_str()); }

// everything of the caller's process and thread that a generator has no business changing
typedef std::vector<std::pair<std::string, std::string>> World;
static World world() {
    World w;
    auto add = [&](const char* k, const std::string& v) { w.emplace_back(k, v); };
    auto num = [&](const char* k, long long v) { add(k, std::to_string(v)); };
    num("number of threads for the next region (omp_get_max_threads)", omp_get_max_threads());
    num("omp_get_dynamic", omp_get_dynamic());
    num("omp_get_max_active_levels", omp_get_max_active_levels());
    omp_sched_t k; int ch; omp_get_schedule(&k, &ch);
    num("omp_get_schedule kind", k); num("omp_get_schedule chunk", ch);
    num("omp_get_level", omp_get_level());
    num("floating point rounding mode", fegetround());
#if defined(__x86_64__)
    num("MXCSR control bits", _mm_getcsr() & ~0x3fu);
    uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw)); num("x87 control word", cw);
#endif
    for (auto os : {&std::cout, &std::cerr}) {
        const char* n = os == &std::cout ? "std::cout" : "std::cerr"; std::string s = n;
        num((s + " flags").c_str(), (long long)os->flags()); num((s + " precision").c_str(), os->precision()); num((s + " width").c_str(), os->width());
        num((s + " state").c_str(), os->rdstate()); num((s + " exceptions").c_str(), os->exceptions()); num((s + " buffer").c_str(), (long long)(uintptr_t)os->rdbuf()); add((s + " fill").c_str(), std::string(1, os->fill()));
    }
    add("global C++ locale", std::locale().name());
    add("C locale", setlocale(LC_ALL, nullptr));
    num("terminate handler", (long long)(uintptr_t)std::get_terminate());
    num("new handler", (long long)(uintptr_t)std::get_new_handler());
    char cwd[512]; add("working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
    mode_t m = umask(077); umask(m); num("umask", m);
    std::string env; for (char** e = environ; e && *e; ++e) env += std::string(*e) + "\n";
    add("environment variables", env);
    std::string sig;
    for (int s = 1; s < 32; ++s) { struct sigaction a; if (!sigaction(s, nullptr, &a)) sig += strf("%d:%p:%x ", s, (void*)a.sa_handler, a.sa_flags); }
    sigset_t ss; pthread_sigmask(SIG_SETMASK, nullptr, &ss); for (int s = 1; s < 32; ++s) if (sigismember(&ss, s)) sig += strf("m%d ", s);
    add("signal handlers and mask", sig);
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); std::string a; for (int i = 0; i < 64; ++i) a += CPU_ISSET(i, &cs) ? '1' : '0';
    add("processors of the calling thread", a);
    int fds = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++fds; closedir(d); }
    num("open file descriptors", fds);
    num("open files below the output directory", (long long)disk_open_files());
    num("unfinished threads started by the call", (long long)user_threads_left());
    return w;
}
static int out_fd = -1;
static long long printed() { fflush(stdout); fflush(stderr); struct stat s; return out_fd >= 0 && !fstat(out_fd, &s) ? s.st_size : 0; }

void gen_C23(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    p.set("op", (int)(idx % (O_SAVEDOT + 1)));
    p.set("size", (int)logu(r, 2, 120));
    p.set("bits", r.next() >> 1);
    EnvOpt o; o.maxthr = 8; o.allow_one = r.chance(0.3);
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("reps", (int)r.range(7, thorough ? 14 : 9));
    if (r.chance(0.15)) p.set("eseed", -1 - (int)r.below(5));
    if (r.chance(0.5)) { p.set("xnum", (int)r.range(1, 8)); p.set("xdyn", (int)r.below(2)); p.set("xlev", (int)r.range(0, 4)); p.set("xsch", (int)r.range(1, 4)); p.set("xch", (int)r.range(1, 9)); }
    if (r.chance(0.3)) { p.set("xprec", (int)r.range(1, 17)); p.set("xflags", (int)r.below(3)); }
    p.set("form", (int)r.below(4)); // how the tree is used
    switch (idx / 16 % 4) {
        case 1: p.set("at", r.chance(0.4) ? r.uni() : 0.1 * r.uni()); p.set("persist", (int)r.below(2)); break; // an allocation fails
        case 2: if (p.i("op") == O_SAVEDOT) { if (r.chance(0.3)) p.set("failo", 0); else if (r.chance(0.3)) p.set("failc", 0); else { p.set("failw", r.uni()); p.set("persist", (int)r.below(2)); } } break;
    }
}
void run_C23(const P& p) {
    static Op o; o = make_op((int)p.i("op"), (int)p.i("size", 10), p.u("bits"), p.s("fl") == "T", (int)p.i("thr", 1));
    static Op before;
    if (p.has("eseed")) o.seed = (int)p.i("eseed");
    before = o;
    int reps = (int)std::max<int64_t>(6, p.i("reps", 7)), form = (int)p.i("form");
    bool tree = o.kind == O_GIRG_CB || o.kind == O_HRG_CB, disk_fault = p.has("failo") || p.has("failc") || p.has("failw");
    note(describe_op(o) + strf(" threads=%lld repeated %d times%s", (long long)p.i("thr"), reps, p.has("at") ? " with failing allocations" : disk_fault ? " with disk errors" : ""));
    g_heapcheck = p.s("fl") == "T";
    out_fd = memfd_create("out", 0);
    if (out_fd >= 0) { fflush(stdout); fflush(stderr); dup2(out_fd, 1); dup2(out_fd, 2); }
    capture_begin_end(true);
    if (p.has("xprec")) { std::cout.precision(p.i("xprec")); if (p.i("xflags") == 1) std::cout.setf(std::ios::scientific, std::ios::floatfield); if (p.i("xflags") == 2) std::cout.setf(std::ios::hex, std::ios::basefield); }
    static HrgIn hin; hin = o.h;
    alloc_fail_at = -1; alloc_seen = 0;
    static int64_t total; total = 0;
    static int failures; failures = 0;
    std::vector<uint64_t> bytes, blocks;
    on_death = [](Death d, const std::string&) {
        if (d == D_SIGNAL || d == D_ASSERT) return;
        if (!alloc_failed && !disk.injected) return;
        stat("ended_process"); finish("ok", "died", "");
    };
    uint64_t writes = 0;
    for (int i = 0; i < reps; ++i) {
        setup_run(p); disk = Disk();
        entropy = Entropy(); entropy.seed = p.u("bits");
        if (i && p.has("failw")) disk.fail_write_at = (int64_t)(p.d("failw") * writes);
        if (i && p.has("failo")) disk.fail_open_at = p.i("failo");
        if (i && p.has("failc")) disk.fail_close_at = p.i("failc");
        disk.fail_persist = p.i("persist");
        alloc_seen = 0; alloc_failed = 0; alloc_fail_persist = p.i("persist");
        alloc_fail_at = i && p.has("at") ? (int64_t)(p.d("at") * total) : -1;
        std::string diff, threw;
        sim([&] {
            World w0, w1;
            int r0 = 0, r1 = 0;
            {
                HarnessScope h;
                if (p.has("xnum")) { omp_set_num_threads((int)p.i("xnum")); omp_set_dynamic((int)p.i("xdyn")); omp_set_max_active_levels((int)p.i("xlev")); omp_set_schedule((omp_sched_t)p.i("xsch"), (int)p.i("xch")); }
                srand(4711); r0 = rand(); srand(4711);
                w0 = world();
            }
            try {
                Out out;
                if (tree) {
                    static Sink* s; static void* t; t = nullptr;
                    { HarnessScope h; s = new Sink(omp_get_max_threads()); }
                    bool hrg = o.kind == O_HRG_CB;
                    auto make = [&] { t = hrg ? Hy(p).treeNew(hin.rad, hin.ang, hin.T, hin.R, &s->cb, false) : G(p).treeNew(o.g.D, o.g.w, o.g.pos, o.g.alpha, &s->cb, false); };
                    auto run = [&] { hrg ? Hy(p).treeRun(t, o.seed) : G(p).treeRun(t, o.seed); };
                    auto drop = [&] { if (t) { hrg ? Hy(p).treeFree(t) : G(p).treeFree(t); } t = nullptr; };
                    try { make(); for (int j = 0; j < form; ++j) run(); } // form 0: built, never used
                    catch (...) { drop(); HarnessScope h; delete s; throw; }
                    drop();
                    HarnessScope h; delete s;
                } else if (o.kind == O_HRG) {
                    Edges e = Hy(p).generateEdges(hin.rad, hin.ang, hin.T, hin.R, o.seed);
                    HarnessScope h; e = Edges();
                } else run_op(p, o, out);
                HarnessScope h; out = Out();
            } catch (const std::exception& e) { HarnessScope h; threw = strf("%s", e.what()); }
            catch (...) { HarnessScope h; threw = "unknown exception"; }
            HarnessScope h;
            r1 = rand();
            w1 = world();
            for (size_t j = 0; j < w0.size() && j < w1.size(); ++j) if (w0[j].second != w1[j].second) { diff = w0[j].first + " was " + w0[j].second.substr(0, 300) + " before the call and is " + w1[j].second.substr(0, 300) + " after it"; break; }
            if (diff.empty() && r0 != r1) diff = "the call changed the state of rand()";
        });
        alloc_fail_at = -1;
        if (i == 0) { total = alloc_seen; writes = disk.writes; }
        if (!threw.empty()) { ++failures; if (!alloc_failed && !disk.injected) violation("exception", "no fault, but the call failed: " + threw); }
        if (!diff.empty()) violation("side-effect", diff);
        if (o.kind == O_HRG || o.kind == O_HRG_CB) { if (hin.rad != before.h.rad || hin.ang != before.h.ang) violation("input-changed", "the call changed the radii or angles given to it"); }
        if (o.g.w != before.g.w || o.g.pos != before.g.pos || o.e != before.e) violation("input-changed", "the call changed the weights, positions or edges given to it");
        bytes.push_back(live_sut_bytes); blocks.push_back(live_sut_blocks);
    }
    on_death = nullptr;
    std::string txt = capture_begin_end(false);
    if (!txt.empty()) violation("output", "the call printed: " + txt.substr(0, 300));
    if (long long n = printed()) violation("output", strf("the calls printed %lld bytes to the standard output or error", n));
    size_t k = bytes.size();
    bool grows = true;
    for (size_t i = k - 4; i < k; ++i) grows &= blocks[i] > blocks[i - 1] && bytes[i] > bytes[i - 1];
    if (grows) violation("leak", strf("every call leaves memory behind: %llu, %llu, %llu, %llu bytes after the last four identical calls", (unsigned long long)bytes[k - 4], (unsigned long long)bytes[k - 3], (unsigned long long)bytes[k - 2], (unsigned long long)bytes[k - 1]));
    if (getenv("SIM_SHOW")) note(describe_op(o) + strf(" bytes %llu %llu %llu failures %d", (unsigned long long)bytes[0], (unsigned long long)bytes[k - 2], (unsigned long long)bytes[k - 1], failures));
    stat("calls_compared", k); stat("exceptions", failures);
    sh->evals = k; sh->nontrivial = 1;
}
