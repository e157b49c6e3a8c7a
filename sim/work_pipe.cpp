// Properties of whole generation pipelines: average degree, amount of work.
#include "work.h"
#include <omp.h>
using namespace rt;

static void note(const std::string& s) { snprintf(sh->info, sizeof sh->info, "%s", s.c_str()); }

// one pipeline from model parameters to edges; returns the number of edges
struct Pipe { bool hrg, nk; int n, D; double ple, alpha, T, deg, R; bool par; };
static Pipe make_pipe(const P& p) {
    Pipe q;
    q.hrg = p.i("hrg"); q.nk = p.i("nk"); q.n = (int)std::max<int64_t>(2, p.i("n", 10)); q.D = (int)p.i("D", 1);
    q.ple = p.d("ple", 2.5); q.alpha = p.d("alpha", q.hrg ? 0.75 : INFINITY); q.T = p.d("T"); q.deg = p.d("deg", 5); q.par = p.i("par", 1); q.R = 0;
    return q;
}
static std::string pipe_desc(const P& p, const Pipe& q) {
    return q.hrg ? strf("HRG n=%d alpha=%g T=%g deg=%g%s threads=%lld", q.n, q.alpha, q.T, q.deg, q.nk ? " nkr" : "", (long long)p.i("thr"))
                 : strf("GIRG n=%d D=%d ple=%g alpha=%g deg=%g threads=%lld", q.n, q.D, q.ple, q.alpha, q.deg, (long long)p.i("thr"));
}
static uint64_t run_pipe(const P& p, const Pipe& q, int seed, uint64_t* edge_steps) {
    Edges e;
    uint64_t s0 = 0;
    sim([&] {
        if (q.hrg) {
            double R = q.nk ? Hy(p).calculateRadiusNK(q.n, q.alpha, q.T, q.deg) : Hy(p).calculateRadius(q.n, q.alpha, q.T, q.deg);
            Vec r = Hy(p).sampleRadii(q.n, q.alpha, R, seed, q.par), a = Hy(p).sampleAngles(q.n, seed + 7777, q.par);
            s0 = g_step;
            e = Hy(p).generateEdges(r, a, q.T, R, seed + 99);
        } else {
            Vec w = G(p).generateWeights(q.n, q.ple, seed, q.par);
            Mat x = G(p).generatePositions(q.n, q.D, seed + 7777, q.par);
            G(p).scaleWeights(w, q.deg, q.D, q.alpha);
            s0 = g_step;
            e = G(p).generateEdges(w, x, q.alpha, seed + 99);
        }
        if (edge_steps) *edge_steps = g_step - s0;
    });
    return e.size();
}

// ------------------------------------------------------------------ C21
void gen_C21(P& p, Rng& r, uint64_t idx, bool thorough) {
    bool hrg = idx % 2;
    p.set("fl", "P"); p.set("hrg", hrg ? 1 : 0);
    EnvOpt o; o.maxthr = 8; o.allow_one = r.chance(0.3);
    gen_env(p, r, o);
    gen_sched(p, r, false);
    p.set("seed", (int)r.below(1000000000));
    p.set("par", r.chance(0.8) ? 1 : 0);
    p.set("N", thorough ? 24 : 10);
    if (hrg) {
        p.set("nk", idx % 6 == 5 ? 1 : 0);
        p.set("n", (int)logu(r, 8000, thorough ? 60000 : 20000));
        p.set("alpha", r.chance(0.5) ? 0.75 + 0.25 * r.uni() : 0.88 + 0.12 * r.uni());
        p.set("T", r.chance(0.25) ? 0.0 : 0.6 * r.uni());
        p.set("deg", logu(r, 3, 30));
    } else {
        int D = pick(r, {1, 1, 2, 2, 3, 4, 5});
        p.set("D", D);
        p.set("n", (int)logu(r, 600, D <= 2 ? 8000 : D == 3 ? 3000 : 1200));
        p.set("ple", 2.1 + 0.9 * r.uni());
        p.set("alpha", r.chance(0.4) ? INFINITY : 1.1 + 6 * r.uni());
        p.set("deg", logu(r, D <= 3 ? 3 : 10, 40));
    }
}
void run_C21(const P& p) {
    Pipe q = make_pipe(p);
    int N = (int)p.i("N", 10);
    note(pipe_desc(p, q));
    double s = 0, s2 = 0;
    for (int i = 0; i < N; ++i) {
        setup_run(p, i);
        double d = 2.0 * run_pipe(p, q, (int)(p.i("seed") + 104729ll * i) & 0x3fffffff, nullptr) / q.n;
        s += d; s2 += d * d;
    }
    double m = s / N, sd = std::sqrt(std::max(0.0, s2 / N - m * m) / std::max(1, N - 1));
    if (getenv("SIM_SHOW")) note(pipe_desc(p, q) + strf(" mean %.4f ratio %.4f sd %.4f", m, m / q.deg, sd));
    // GIRG weights are scaled for this very input; the radius of an HRG is an asymptotic estimate
    double lo = 0.99 * q.deg - 0.03, hi = 1.01 * q.deg + 0.03;
    if (q.hrg) { lo = (q.alpha >= 0.85 ? 0.93 : 0.85) * q.deg; hi = 1.04 * q.deg; }
    if (!(m >= lo - 7 * sd && m <= hi + 7 * sd)) violation("wrong-degree", strf("average degree %.4f over %d graphs (standard error %.4f), desired %.6g", m, N, sd, q.deg));
    sh->evals = N; sh->nontrivial = 1;
    stat("graphs_measured", N);
}

// ------------------------------------------------------------------ C22
void gen_C22(P& p, Rng& r, uint64_t idx, bool thorough) {
    bool hrg = idx % 2;
    p.set("fl", "R"); p.set("hrg", hrg ? 1 : 0);
    EnvOpt o; o.maxthr = 6; o.allow_one = r.chance(0.3);
    gen_env(p, r, o);
    gen_sched(p, r, false);
    p.set("seed", (int)r.below(1000000000));
    p.set("par", 1);
    if (hrg) {
        p.set("alpha", 0.6 + 0.4 * r.uni());
        p.set("T", r.chance(0.4) ? 0.0 : 0.8 * r.uni());
        p.set("n", (int)r.range(1200, 1700));
    } else {
        int D = pick(r, {1, 1, 2, 2, 3});
        p.set("D", D);
        p.set("ple", 2.2 + 0.8 * r.uni());
        p.set("alpha", r.chance(0.4) ? INFINITY : r.chance(0.4) ? 1.12 + 0.38 * r.uni() : 1.5 + 6 * r.uni());
        p.set("n", D == 1 ? (int)r.range(600, 800) : D == 2 ? (int)r.range(1000, 1200) : (int)r.range(1600, 1900));
    }
    p.set("deg", p.i("D") == 3 ? logu(r, 10, 22) : logu(r, 4, 20));
    if (idx % 16 < 2) p.set("big", (p.i("D") == 3 ? 7 : hrg || p.i("D") == 2 ? 8 : 9) + (thorough && idx % 64 < 2)); // sizes n, 16n and 2^big n
}
void run_C22(const P& p) {
    Pipe q = make_pipe(p);
    note(pipe_desc(p, q));
    step_limit = 4000000000ull; // large graphs
    const int K = 3; // sizes n, 4n, 16n
    const int big = (int)p.i("big");
    const double limit = q.D == 3 ? 5 : 2.6; // growth of the work per node and edge
    double work[K], edge_work[K], memory[K], size[K];
    for (int k = 0; k < K; ++k) {
        Pipe z = q; z.n = q.n << (big ? k == 0 ? 0 : k == 1 ? 4 : big : 2 * k);
        const int reps = big && k == 2 ? 1 : 2;
        uint64_t all = 0, ed = 0, m = 0, mem = 0;
        for (int i = 0; i < reps; ++i) {
            setup_run(p, k * 10 + i);
            step_limit = g_step + 1500000000ull, step_limit_class = "superlinear-work"; // some 20 times what these small ones need
            if (k) step_limit = g_step + (uint64_t)(1.4 * limit * std::max(work[0], work[k - 1]) * 1.4 * size[0] / 2 * z.n / q.n), step_limit_class = "superlinear-work"; // no use to finish
            peak_reset();
            uint64_t a = 0, s0 = g_step, l0 = live_peak;
            m += run_pipe(p, z, (int)(p.i("seed") + 104729ll * i + k) & 0x3fffffff, &a);
            all += g_step - s0; ed += a; mem += live_peak - l0;
        }
        size[k] = (double)reps * z.n + m;
        work[k] = all / size[k]; edge_work[k] = ed / size[k]; memory[k] = mem / size[k];
        stat("accesses_measured", all); stat("graphs_measured", reps);
    }
    if (getenv("SIM_SHOW")) note(pipe_desc(p, q) + strf(" growth all %.3f %.3f (%.1f) edges %.3f %.3f (%.1f) memory %.3f %.3f (%.1f)", work[1] / work[0], work[2] / work[0], work[2], edge_work[1] / edge_work[0], edge_work[2] / edge_work[0], edge_work[2], memory[1] / memory[0], memory[2] / memory[0], memory[2]));
    auto check = [&](const double* x, const char* what, const char* cls) {
        if (x[2] > limit * x[0]) violation(cls, strf("%s per node and edge grow from %.1f to %.1f and %.1f when the graph grows %d-fold (nodes plus edges of all runs %.0f, %.0f, %.0f)", what, x[0], x[1], x[2], big ? 1 << big : 16, size[0], size[1], size[2]));
    };
    check(edge_work, "memory accesses of edge generation", "superlinear-work");
    check(work, "memory accesses of the whole pipeline", "superlinear-work");
    check(memory, "bytes of heap memory in use", "superlinear-memory");
    sh->evals = 2 * K; sh->nontrivial = 1;
}

// ------------------------------------------------------------------ C24
void gen_C24(P& p, Rng& r, uint64_t idx, bool thorough) {
    bool hrg = idx % 2;
    p.set("fl", "R"); p.set("hrg", hrg ? 1 : 0);
    int thr = (int)r.range(2, 8);
    p.set("thr", thr);
    p.set("fill", 0xa5); p.set("fs", r.next() >> 1);
    if (r.chance(0.3)) { p.set("tpol", 1); p.set("tk", (int)r.range(2, thr)); }
    // threads take turns after short stretches of work, as if each had a processor
    p.set("pol", 4); p.set("sp", 1.0); p.set("mgap", logu(r, 30, 120)); p.set("depth", 1); p.set("slen", 1000); p.set("qn", 1); p.set("ss", r.next() >> 1);
    p.set("seed", (int)r.below(1000000000));
    if (idx % 8 >= 6) { // samplers
        p.set("kind", hrg ? pick(r, {O_RADII, O_ANGLES, O_BOTH}) : pick(r, {O_WEIGHTS, O_POSITIONS}));
        p.set("n", thr * 10000 + (int)r.below(100000));
        p.set("D", (int)r.range(1, 5));
        return;
    }
    if (hrg) {
        p.set("alpha", 0.7 + 0.3 * r.uni());
        p.set("T", r.chance(0.4) ? 0.0 : 0.7 * r.uni());
        p.set("n", (int)r.range(6000, 12000));
    } else {
        int D = pick(r, {1, 1, 1, 2, 2, 2, 3});
        p.set("D", D);
        p.set("ple", 2.5 + 0.5 * r.uni());
        p.set("alpha", r.chance(0.4) ? INFINITY : 1.5 + 6 * r.uni());
        p.set("n", D == 3 ? (int)r.range(3000, 4000) : (int)r.range(6000, 12000));
    }
    p.set("deg", p.i("D") == 3 ? logu(r, 12, 24) : logu(r, 6, 20));
}
void run_C24(const P& p) {
    Pipe q = make_pipe(p);
    int kind = (int)p.i("kind", -1);
    std::string desc = kind < 0 ? pipe_desc(p, q) : strf("%s n=%d D=%d threads=%lld", op_name[kind], q.n, q.D, (long long)p.i("thr"));
    note(desc);
    step_limit = 4000000000ull;
    int thr = (int)std::max<int64_t>(2, p.i("thr", 2)), team = p.i("tpol") == 1 ? (int)std::min<int64_t>(thr, p.i("tk", thr)) : thr;
    Vec w; Mat x; HrgIn h; h.T = q.T;
    P one = p; for (auto k : {"tpol", "tk", "mgap"}) one.m.erase(k); one.set("thr", 1);
    setup_run(one);
    if (kind < 0) sim([&] {
        if (q.hrg) {
            h.R = Hy(p).calculateRadius(q.n, q.alpha, q.T, q.deg);
            h.rad = Hy(p).sampleRadii(q.n, q.alpha, h.R, (int)p.i("seed"), true); h.ang = Hy(p).sampleAngles(q.n, (int)p.i("seed") / 2 + 7777, true);
        } else {
            w = G(p).generateWeights(q.n, q.ple, (int)p.i("seed"), true); x = G(p).generatePositions(q.n, q.D, (int)p.i("seed") / 2 + 7777, true);
            G(p).scaleWeights(w, q.deg, q.D, q.alpha);
        }
    });
    struct None { static void f(void*, int, int, int) {} };
    uint64_t work[2], span[2];
    for (int k = 0; k < 2; ++k) {
        setup_run(k ? p : one);
        EdgeCb cb{None::f, nullptr};
        sim([&] {
            void* t = nullptr;
            if (kind < 0) t = q.hrg ? Hy(p).treeNew(h.rad, h.ang, h.T, h.R, &cb, false) : G(p).treeNew(q.D, w, x, q.alpha, &cb, false);
            uint64_t w0 = g_step, s0 = span_now();
            if (kind < 0) q.hrg ? Hy(p).treeRun(t, 12) : G(p).treeRun(t, 12);
            else { Out out; Op o; o.kind = kind; o.n = q.n; o.D = q.D; o.a = q.hrg ? 0.8 : 2.6; o.b = 20; o.seed = 12; run_op(p, o, out); }
            work[k] = g_step - w0; span[k] = span_now() - s0;
            if (t) q.hrg ? Hy(p).treeFree(t) : G(p).treeFree(t);
        });
    }
    // work over its longest chain of dependent steps: how many processors the call can keep busy
    double par = (double)work[1] / span[1], extra = (double)work[1] / work[0];
    if (getenv("SIM_SHOW")) note(desc + strf(" team %d parallelism %.3f extra %.3f work %.3g", team, par, extra, (double)work[0]));
    double need = team <= 2 ? 1.25 : team == 3 ? 1.4 : kind >= 0 ? 2.2 : q.hrg ? 1.5 : 1.8;
    if (kind == O_POSITIONS) need = team <= 2 ? 1.12 : team == 3 ? 1.2 : 1.35; // one thread allocates all vectors first
    if (par < need) violation("not-parallel", strf("%d threads were delivered, but the longest chain of dependent work is %llu of %llu memory accesses (%.2f processors busy, expected %.2f or more)", team, (unsigned long long)span[1], (unsigned long long)work[1], par, need));
    if (extra > 3) violation("repeated-work", strf("%d threads do %.2f times the work of one (%llu and %llu memory accesses)", team, extra, (unsigned long long)work[1], (unsigned long long)work[0]));
    stat("accesses_measured", work[0] + work[1]);
    sh->evals = 2; sh->nontrivial = 1;
}
