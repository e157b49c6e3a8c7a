// Properties beyond edge generation: termination, memory, samplers, sorting, files, command line tools, allocation failure, scaling, entropy.
#include "work.h"
#include <iostream>
#include <locale>
#include <omp.h>
using namespace rt;

static void note(const std::string& s) { snprintf(sh->info, sizeof sh->info, "%s", s.c_str()); }

// ------------------------------------------------------------------ C08
void gen_C08(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 2 ? "R" : "T");
    p.set("op", (int)(idx % O_NUM));
    p.set("size", (int)logu(r, 1, thorough ? 400 : 200));
    p.set("bits", r.next() >> 1);
    EnvOpt o; o.maxthr = r.chance(0.3) ? 64 : 16; o.allow_one = r.chance(0.2);
    gen_env(p, r, o);
    if (r.chance(0.4)) { if (!p.has("tpol") && !p.has("lim") && !p.has("dyn")) { if (r.chance(0.5)) p.set("tpol", 2); else { p.set("tpol", 1); p.set("tk", (int)r.range(1, 4)); } } }
    if (r.chance(0.4)) p.set("spur", logu(r, 0.02, 0.5));
    if (r.chance(0.3)) p.set("stall", logu(r, 0.01, 0.2));
    gen_sched(p, r, true);
    if (idx % 7 == 3) p.set("apps", (int)r.range(2, 3));
    if (idx % 7 == 5) { p.set("outer", (int)r.range(2, 4)); if (p.i("thr") > 12) p.set("thr", 12); p.set("mlev", (int)r.range(1, 2)); }
    gen_huge(p, r, 0.01);
}
struct Many { const P* p; std::vector<Op>* ops; std::vector<Out>* outs; };
static void many_body(void* v, int tid) { Many& m = *(Many*)v; if (tid < (int)m.ops->size()) run_op(*m.p, (*m.ops)[tid], (*m.outs)[tid]); }
static bool has_files(int k) { return k == O_SAVEDOT || k == O_GENGIRG || k == O_GENHRG; }
// runs one call, or several at the same time, or several from a parallel region of the application
static std::string run_many(const P& p, bool contract) {
    static std::vector<Op> ops; static std::vector<Out> outs;
    int k = (int)std::max<int64_t>(1, std::max(p.i("apps"), p.i("outer")));
    std::string d;
    for (int i = 0; i < k; ++i) {
        uint64_t x = p.u("bits") + i * 7919;
        int kind = (int)((p.i("op") + (i ? Rng::splitmix(x) : 0)) % O_NUM);
        if (k > 1 && (kind == O_GENGIRG || kind == O_GENHRG)) kind = O_HRG; // the tools are processes of their own
        ops.push_back(make_op(kind, (int)p.i("size", 10), p.u("bits") + i, p.s("fl") == "T", (int)p.i("thr", 1)));
        if (has_files(kind)) ops.back().base += std::to_string(i);
        d += (i ? " | " : "") + describe_op(ops.back());
    }
    outs.resize(k);
    note(strf("%s%s, threads=%lld", p.has("outer") ? "nested: " : k > 1 ? "concurrent: " : "", d.c_str(), (long long)p.i("thr")));
    if (p.has("outer")) { static Many m{&p, &ops, &outs}; sim([&] { G(p).nested(k, many_body, &m); }); }
    else if (k > 1) sim([&] {
        std::vector<Thr*> ts;
        { HarnessScope hs; for (int i = 0; i < k; ++i) { ts.push_back(spawn([&p, i] { SutScope ss; run_op(p, ops[i], outs[i]); })); } }
        for (auto t : ts) rt::join(t);
    });
    else {
        std::string ex;
        sim([&] { try { run_op(p, ops[0], outs[0], contract); } catch (const std::exception& e) { HarnessScope h; ex = e.what(); } });
        if (!ex.empty()) violation("exception", "a valid call threw: " + ex);
    }
    return d;
}
void run_C08(const P& p) {
    setup_run(p);
    run_many(p, false);
    sh->nontrivial = p.i("thr") > 1;
}

// ------------------------------------------------------------------ C10
void gen_C10(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 5 == 4 ? "R" : "T");
    p.set("op", (int)(idx % O_NUM));
    p.set("size", (int)logu(r, 1, thorough ? 250 : 130));
    p.set("bits", r.next() >> 1);
    EnvOpt o; o.maxthr = r.chance(0.1) ? 32 : 8; o.allow_one = r.chance(0.2);
    gen_env(p, r, o);
    gen_sched(p, r, true);
    if (p.has("mgap") && p.d("mgap") < 100) p.set("mgap", 100.0);
    if (idx % 6 == 3) p.set("apps", (int)r.range(2, 3));
    if (idx % 6 == 5) { p.set("outer", (int)r.range(2, 3)); p.set("mlev", (int)r.range(1, 2)); }
    if (r.chance(0.1)) p.set("neg", 1);
    gen_huge(p, r, 0.04);
    if (p.i("thr") > 32) { // enough points for all of them
        p.set("size", (int)r.range(60, 250));
        if (r.chance(0.7)) { p.set("op", pick(r, {O_GIRG, O_GIRG, O_GIRG_CB, O_HRG})); if (p.i("op") != O_HRG) { p.set("size", (int)r.range(500, 2000)); p.set("fl", "R"); } }
    }
}
void run_C10(const P& p) {
    race_init();
    g_race = g_heapcheck = true;
    setup_run(p);
    run_many(p, true);
    sh->nontrivial = p.i("thr") > 1;
    stat("race_checked_runs");
}

// ------------------------------------------------------------------ C12
static void uniform_tests(const std::vector<double>& u, const std::string& what, uint64_t& tests, int chunks) {
    int n = u.size();
    if (n < 200) return;
    // Kolmogorov-Smirnov, whole and per part
    auto ks = [&](int a, int b) {
        std::vector<double> s(u.begin() + a, u.begin() + b); std::sort(s.begin(), s.end());
        double D = 0; int m = b - a;
        for (int i = 0; i < m; ++i) { D = std::max(D, std::fabs(s[i] - (double)i / m)); D = std::max(D, std::fabs(s[i] - (double)(i + 1) / m)); }
        ++tests;
        if (D * std::sqrt((double)m) > 4.6) violation("wrong-distribution", strf("%s: entries %d..%d do not follow the documented distribution (Kolmogorov-Smirnov %.4f, n=%d)", what.c_str(), a, b, D, m));
    };
    ks(0, n);
    auto corr = [&](int a, int b, int len, const char* txt) {
        double s = 0; for (int i = 0; i < len; ++i) s += (u[a + i] - 0.5) * (u[b + i] - 0.5);
        ++tests;
        double z = s * 12 / std::sqrt((double)len);
        if (std::fabs(z) > 8) violation("dependent-entries", strf("%s: %s at offset %d correlated with offset %d over %d entries (z=%.1f)", what.c_str(), txt, a, b, len, z));
    };
    for (int lag = 1; lag <= 8; ++lag) corr(0, lag, n - lag, "sequence");
    if (chunks > 1) {
        int c = n / chunks;
        for (int i = 0; i < chunks; ++i) { ks(i * c, (i + 1) * c); for (int j = i + 1; j < chunks; ++j) for (int d = 0; d < 3; ++d) if (j * c + d + c <= n && c > 500) corr(i * c, j * c + d, std::min(c, n - j * c - d), "threads' parts"); }
    }
}
static void distinct(std::vector<double> v, const std::string& what, const char* cls) {
    std::sort(v.begin(), v.end());
    int dup = 0; double x = 0;
    for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) { ++dup; x = v[i]; }
    if (dup > 2) violation(cls, strf("%s: %d of %zu values occur twice, for example %.17g", what.c_str(), dup, v.size(), x));
}
void gen_C12(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 6 == 0 ? "T" : idx % 6 == 1 ? "R" : "P");
    p.set("kind", (int)(idx % 5));
    EnvOpt o; o.fixed_team = true; o.allow_one = r.chance(0.3); o.maxthr = 12;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    int n = r.chance(0.15) ? (int)r.range(1, 50) : r.chance(0.15) ? (int)r.range(9998, 20002) : (int)logu(r, 1000, thorough ? 160000 : 90000);
    if (p.s("fl") != "P" && n > 40000) n = 40000;
    if (idx / 5 % 25 == 5) { p.set("fl", "P"); n = (int)r.range(100000, thorough ? 400000 : 240000); p.set("thr", (int)r.range(9, 24)); } // large teams
    p.set("n", n);
    p.set("D", p.s("fl") == "P" && n > 90000 ? (int)r.range(1, 2) : (int)r.range(1, 5));
    p.set("a", r.uni()); p.set("R", 3 + 22 * r.uni());
    p.set("par", r.chance(0.85) ? 1 : 0);
    p.set("seed", r.chance(0.1) ? 0 : (int)r.below(2000000000));
    p.set("k", (int)r.range(2, 4));
}
struct Samp { Vec a, b; Mat m; };
static Samp sample(const P& p, int seed) {
    Samp s;
    int n = (int)p.i("n", 10), kind = (int)p.i("kind"); if (n < 1) n = 1;
    double a = p.d("a", 0.5), R = p.d("R", 10), al = 0.5 + 0.7 * a;
    bool par = p.i("par");
    switch (kind) {
        case 0: s.a = G(p).generateWeights(n, 2.02 + 0.98 * a, seed, par); break;
        case 1: s.m = G(p).generatePositions(n, (int)p.i("D", 1), seed, par); break;
        case 2: s.a = Hy(p).sampleRadii(n, al, R, seed, par); break;
        case 3: s.b = Hy(p).sampleAngles(n, seed, par); break;
        case 4: { auto x = Hy(p).sampleBoth(n, al, R, seed, par); HarnessScope h; s.a = x.first; s.b = x.second; break; }
    }
    return s;
}
// checks ranges and counts; returns values mapped to uniform ones
static void judge(const P& p, const Samp& s, std::vector<double>* u1, std::vector<double>* u2) {
    int n = (int)p.i("n", 10), kind = (int)p.i("kind"); if (n < 1) n = 1;
    double a = p.d("a", 0.5), R = p.d("R", 10), al = 0.5 + 0.7 * a, ple = 2.02 + 0.98 * a;
    const double tau = 2 * 3.14159265358979323846;
    auto size = [&](size_t k) { if (k != (size_t)n) violation("incomplete", strf("%zu entries returned, %d requested", k, n)); };
    if (kind == 0) {
        size(s.a.size());
        double top = std::pow(0.5 * n, 1 - ple);
        for (int i = 0; i < n; ++i) {
            double w = s.a[i], lo = std::min(1.0, 0.5 * n), hi = std::max(1.0, 0.5 * n);
            if (!(w >= lo * (1 - 1e-12) && w <= hi * (1 + 1e-9))) violation("range", strf("weight %d is %.17g, range [1,%g]", i, w, hi));
            u1->push_back(n == 2 ? 0.5 : (1 - std::pow(w, 1 - ple)) / (1 - top));
        }
        if (n <= 2) u1->clear();
    } else if (kind == 1) {
        size(s.m.size());
        int D = (int)p.i("D", 1), zeros = 0;
        for (int i = 0; i < n; ++i) {
            if ((int)s.m[i].size() != D) violation("incomplete", strf("position %d has %zu coordinates, not %d", i, s.m[i].size(), D));
            for (double x : s.m[i]) { if (!(x >= 0 && x < 1)) violation("range", strf("coordinate of position %d is %.17g", i, x)); zeros += x == 0; u1->push_back(x); }
        }
        if (zeros > 2) violation("incomplete", strf("%d coordinates are exactly 0", zeros));
    } else {
        if (kind != 3) {
            size(s.a.size());
            for (int i = 0; i < n; ++i) {
                double x = s.a[i];
                if (!(x > 0 && x <= R * (1 + 1e-12))) violation("range", strf("radius %d is %.17g, range (0,%g)", i, x, R));
                u1->push_back((std::cosh(al * x) - 1) / (std::cosh(al * R) - 1));
            }
        }
        if (kind != 2) {
            size(s.b.size());
            int zeros = 0;
            for (int i = 0; i < n; ++i) { double x = s.b[i]; if (!(x >= 0 && x < tau)) violation("range", strf("angle %d is %.17g", i, x)); zeros += x == 0; u2->push_back(x / tau); }
            if (zeros > 2) violation("incomplete", strf("%d angles are exactly 0", zeros));
        }
    }
}
void run_C12(const P& p) {
    static const char* names[] = {"weights", "positions", "radii", "angles", "radii and angles"};
    int kind = (int)p.i("kind"), seed = (int)p.i("seed"), k = (int)p.i("k", 2);
    note(strf("%s n=%lld D=%lld threads=%lld parallel=%lld", names[kind], (long long)p.i("n"), (long long)p.i("D"), (long long)p.i("thr"), (long long)p.i("par")));
    Samp ref; uint64_t tests = 0;
    for (int i = 0; i < k; ++i) {
        setup_run(p, i);
        Samp s;
        max_team = 1;
        sim([&] { s = sample(p, seed); });
        if (i == 0) {
            int team = (int)max_team;
            std::vector<double> u1, u2; judge(p, s, &u1, &u2);
            if (!u1.empty()) { uniform_tests(u1, names[kind], tests, team); distinct(kind == 0 || kind == 2 || kind == 4 ? s.a : u1, names[kind], "shared-stream"); }
            if (!u2.empty()) { uniform_tests(u2, names[kind], tests, team); distinct(s.b, names[kind], "shared-stream"); }
            if (kind == 4 && u1.size() > 200) for (int d = -1; d <= 1; ++d) {
                double z = 0; int m = 0;
                for (size_t j = 1; j + 1 < u1.size(); ++j, ++m) z += (u1[j] - 0.5) * (u2[j + d] - 0.5);
                z *= 12 / std::sqrt((double)m); ++tests;
                if (std::fabs(z) > 8) violation("dependent-entries", strf("radii and angles are correlated (z=%.1f, offset %d)", z, d));
            }
            if (kind == 1 && p.i("D") > 1 && s.m.size() > 200) for (int d = 0; d < p.i("D"); ++d) for (int e = d + 1; e < p.i("D"); ++e) {
                double z = 0; for (auto& x : s.m) z += (x[d] - 0.5) * (x[e] - 0.5);
                z *= 12 / std::sqrt((double)s.m.size()); ++tests;
                if (std::fabs(z) > 8) violation("dependent-entries", strf("coordinates %d and %d are correlated (z=%.1f)", d, e, z));
            }
            ref = s;
        } else if (s.a != ref.a || s.b != ref.b || s.m != ref.m) {
            size_t j = 0; bool fa = false;
            for (; j < s.a.size(); ++j) if (s.a[j] != ref.a[j]) { fa = true; break; }
            violation("not-reproducible", strf("%s differ between two runs with seed %d and %lld threads%s", names[kind], seed, (long long)p.i("thr"), fa ? strf(", first at entry %zu: %.17g and %.17g", j, s.a[j], ref.a[j]).c_str() : ""));
        }
    }
    sh->evals = k;
    sh->nontrivial = p.i("n") >= 1000;
    stat("tests", tests); stat("runs_compared", k - 1); stat("entries_sampled", (uint64_t)p.i("n"));
}

// ------------------------------------------------------------------ C13
void gen_C13(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 4 == 0 ? "T" : idx % 4 == 1 ? "R" : "P");
    bool inst = p.s("fl") != "P";
    EnvOpt o; o.maxthr = 12; o.allow_one = r.chance(0.3);
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("var", (int)r.below(8));
    p.set("hrg", (int)r.below(2)); // which copy of the header
    int n = r.chance(0.25) ? (int)r.range(0, 300) : r.chance(0.4) ? (int)logu(r, 300, 131072) : inst ? (int)r.range(131073, 280000) : (int)logu(r, 131073, thorough ? 1600000 : 900000);
    p.set("n", n);
    int var = (int)p.i("var"), width = var == 1 ? 64 : var == 6 ? 16 : var == 7 ? 31 : 32; // bits of the key type
    uint64_t top = width == 64 ? ~0ull : (1ull << width) - 1;
    int bits = (int)r.range(0, width - 1);
    uint64_t m = 1ull << bits;
    switch (r.below(7)) {
        case 0: break; case 1: m -= 1; break; case 2: m += 1; break; case 3: m = r.below(m + 1); break; case 4: m = (m - 1) * 2 + 1; break;
        case 5: m = m - 1 - r.below(m); break; case 6: if (r.chance(0.3)) m = top - r.below(3) * r.below(100); break;
    }
    if (m > top) m = top;
    p.set("maxkey", m);
    p.set("dist", (int)r.below(8));
    p.set("is", r.next() >> 1);
    if (p.s("fl") == "P") gen_huge(p, r, 0.03);
}
void run_C13(const P& p) {
    int n = (int)p.i("n"), var = (int)p.i("var"), dist = (int)p.i("dist");
    uint64_t M = p.u("maxkey");
    Rng r(p.u("is"));
    std::vector<Item> v(n);
    auto key_up_to = [&](uint64_t m) { return m == ~0ull ? r.next() : r.below(m + 1); };
    uint64_t c = key_up_to(M), few = 1 + r.below(5);
    for (int i = 0; i < n; ++i) {
        uint64_t k;
        switch (dist) {
            default: k = key_up_to(M); break;
            case 1: k = M; break;
            case 2: k = r.chance(0.5) ? M : 0; break;
            case 3: k = c; break;
            case 4: k = r.below(few) * (M / few); break;
            case 5: k = (uint64_t)((long double)M * i / std::max(1, n)); break;
            case 6: k = M - (uint64_t)((long double)M * i / std::max(1, n)); break;
            case 7: { double u = r.uni(); k = (uint64_t)((long double)M * u * u * u * u); break; }
        }
        if (k > M) k = M;
        v[i] = Item{k, (uint32_t)i};
    }
    if (n && dist == 0 && r.chance(0.5)) v[r.below(n)].key = M;
    std::vector<Item> in = v;
    if (var == 4) for (int i = 0; i < n; ++i) { uint64_t mod = (uint32_t)M + 1u ? (uint64_t)(uint32_t)M + 1 : 0xffffffffull; uint64_t room = (0xffffffffull - in[i].key) / mod; in[i].key += mod * r.below(room + 1); v[i] = in[i]; }
    note(strf("sort n=%d maxkey=%llu variant=%d keys=%d threads=%lld", n, (unsigned long long)M, var, dist, (long long)p.i("thr")));
    setup_run(p);
    g_heapcheck = p.s("fl") == "T";
    bool known = true;
    sim([&] { known = p.i("hrg") ? Hy(p).sort(v, var, M) : G(p).sort(v, var, M); });
    if (!known) harness_error("unknown sort variant");
    std::vector<bool> seen(n);
    auto key = [&](const Item& x) { return var == 4 ? (uint64_t)((uint32_t)x.key % ((uint32_t)M + 1u ? (uint32_t)M + 1u : ~0u)) : x.key; };
    for (int i = 0; i < n; ++i) {
        if (v[i].id >= (uint32_t)n || seen[v[i].id]) violation("not-a-permutation", strf("element %u at position %d is not in the input or occurs twice (n=%d, max key %llu)", v[i].id, i, n, (unsigned long long)M));
        seen[v[i].id] = true;
        if (v[i].key != in[v[i].id].key) violation("not-a-permutation", strf("element %u changed its key", v[i].id));
        if (i && key(v[i - 1]) > key(v[i])) violation("not-sorted", strf("key %llu at %d is followed by %llu (n=%d, max key %llu, variant %d)", (unsigned long long)key(v[i - 1]), i - 1, (unsigned long long)key(v[i]), n, (unsigned long long)M, var));
    }
    sh->nontrivial = n > 131072;
    stat("elements_sorted", n);
}

// ------------------------------------------------------------------ C15
void gen_C15(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    p.set("op", pick(r, {O_SAVEDOT, O_SAVEDOT, O_GENGIRG, O_GENHRG}));
    p.set("size", (int)logu(r, 1, thorough ? 1200 : 500));
    p.set("bits", r.next() >> 1);
    p.set("thr", 1);
    p.set("fs", r.next() >> 1); p.set("fill", 0xa5);
    gen_sched(p, r, false);
    switch (idx % 10) {
        case 0: p.set("cap", r.uni()); break;              // disk full after this part of the content
        case 1: p.set("failw", r.uni()); p.set("errno", pick(r, {5, 28, 27, 122, 32})); p.set("persist", (int)r.below(2)); break;
        case 2: p.set("failo", (int)r.below(2)); p.set("errno", pick(r, {13, 2, 28, 24, 30})); break;
        case 3: p.set("failc", (int)r.below(2)); p.set("errno", pick(r, {5, 28, 122})); break;
        case 4: case 5: p.set("short", logu(r, 0.05, 1)); if (r.chance(0.5)) p.set("eintr", logu(r, 0.02, 0.6)); break;
        case 6: p.set("short", 0.3); p.set("eio", logu(r, 0.005, 0.3)); break;
        case 7: p.set("crash", r.uni()); if (r.chance(0.5)) p.set("short", 0.3); break;
        case 8: p.set("cap", 1 - 0.02 * r.uni()); p.set("short", 0.2); p.set("eintr", 0.1); break;
        case 9: p.set("lastw", 1); p.set("errno", pick(r, {5, 28})); break; // the very last write fails: buffered data at close
    }
    if (r.chance(0.3)) p.set("old", (int)r.below(3000)); // file of this size exists before
    if (p.i("op") == O_SAVEDOT && r.chance(0.4)) p.set("loc", (int)r.range(1, 4)); // the application has set a global locale
    if (r.chance(0.012)) { p.set("fl", "P"); p.set("size", (int)logu(r, 3000, p.i("op") == O_SAVEDOT ? 40000 : 20000)); } // files of megabytes
}
struct Punct : std::numpunct<char> {
    int k; explicit Punct(int k_) : k(k_) {}
    char do_decimal_point() const override { return k == 1 ? '.' : ','; }
    char do_thousands_sep() const override { return k == 1 ? ',' : k == 2 ? '.' : ' '; }
    std::string do_grouping() const override { return k == 4 ? "" : k == 3 ? "\1" : "\3"; }
};
static void put_old(const P& p, const Op& o) {
    if (!p.has("old")) return;
    for (const char* ext : {".dot", ".txt", ".hyp"}) {
        bool w = o.kind == O_SAVEDOT ? !strcmp(ext, ".dot") : (!strcmp(ext, ".dot") && o.want_dot) || (!strcmp(ext, ".txt") && o.want_edge) || (!strcmp(ext, ".hyp") && o.want_coord);
        if (w) { disk.files.push_back({o.base + ext, std::string(p.i("old"), 'x'), true}); disk.bytes += p.i("old"); }
    }
}
static bool guarded(const P& p, const Op& o, Out& out) { // true: the call reported success
    bool ok = false;
    sim([&] {
        try { run_op(p, o, out); ok = out.code == 0; }
        catch (const std::exception& e) { HarnessScope h; out.threw = true; out.ex = e.what(); }
        catch (...) { HarnessScope h; out.threw = true; out.ex = "unknown exception"; }
    });
    HarnessScope h;
    collect_files(out);
    return ok;
}
void run_C15(const P& p) {
    int kind = (int)p.i("op", O_SAVEDOT);
    static Op o; o = make_op(kind, (int)p.i("size", 10), p.u("bits"), p.s("fl") == "T", 1);
    note(describe_op(o));
    static Out good; Out bad;
    setup_run(p);
    disk = Disk();
    struct Loc { std::locale was; explicit Loc(int k) { if (k) was = std::locale::global(std::locale(std::locale::classic(), new Punct(k))); } ~Loc() { std::locale::global(std::locale::classic()); } } loc((int)p.i("loc"));
    if (p.i("loc")) stat("locale_set");
    if (!guarded(p, o, good)) violation("fails-without-fault", "no fault, but the call failed: " + good.ex);
    uint64_t writes = disk.writes, bytes = disk.bytes;
    // the fault-free content is the right one
    if (kind == O_SAVEDOT) {
        Vec w; Mat x; Edges e;
        if (good.files.size() != 1) violation("wrong-content", strf("%zu files written", good.files.size()));
        const std::string& s = good.files.begin()->second;
        if (!parse_dot(s, &w, &x, &e) || w.size() != o.g.w.size()) violation("wrong-content", strf(".dot file does not list the %zu nodes (%zu found)", o.g.w.size(), w.size()));
        for (size_t i = 0; i < w.size(); ++i) {
            if (std::fabs(w[i] - o.g.w[i]) > 0.00501 + 1e-12 * o.g.w[i]) violation("wrong-content", strf("node %zu: weight %.17g written as %g", i, o.g.w[i], w[i]));
            if (x[i].size() != o.g.pos[i].size()) violation("wrong-content", strf("node %zu: %zu coordinates", i, x[i].size()));
            for (size_t d = 0; d < x[i].size(); ++d) if (std::fabs(x[i][d] - o.g.pos[i][d]) > 5.01e-7) violation("wrong-content", strf("node %zu: coordinate %.17g written as %g", i, o.g.pos[i][d], x[i][d]));
        }
        if (sorted_keys(e) != sorted_keys(o.e)) violation("wrong-content", strf(".dot file has %zu edges, the graph %zu, or different ones", e.size(), o.e.size()));
    }
    // the same with faults
    setup_run(p);
    disk = Disk();
    put_old(p, o);
    uint64_t old = disk.bytes;
    if (p.has("cap")) disk.cap = std::max<uint64_t>(old, (uint64_t)(p.d("cap") * bytes));
    if (p.has("failw")) disk.fail_write_at = (int64_t)(p.d("failw") * writes);
    if (p.has("lastw")) disk.fail_write_at = writes ? writes - 1 : 0;
    disk.fail_persist = p.i("persist", 1);
    disk.fail_errno = (int)p.i("errno");
    if (p.has("failo")) disk.fail_open_at = p.i("failo");
    if (p.has("failc")) disk.fail_close_at = p.i("failc");
    if (p.has("crash")) disk.crash_at = (int64_t)(p.d("crash") * writes);
    disk.p_short = p.d("short"); disk.p_eintr = p.d("eintr"); disk.p_eio = p.d("eio");
    if (disk.p_short + disk.p_eintr + disk.p_eio > 0.9) { double k = 0.9 / (disk.p_short + disk.p_eintr + disk.p_eio); disk.p_short *= k; disk.p_eintr *= k; disk.p_eio *= k; }
    auto judge_partial = [&p](const char* when) { // every file: prefix of the right content, or untouched
        for (auto& f : disk.files) {
            if (f.name.find('#') != std::string::npos) continue;
            auto it = good.files.find(f.name);
            if (it == good.files.end()) continue; // another file, for example a temporary one
            if (f.existed && f.data == std::string(p.i("old"), 'x')) continue;
            if (f.data.size() > it->second.size() || memcmp(f.data.data(), it->second.data(), f.data.size()))
                violation("wrong-content", strf("%s, file %s (%zu bytes) is not a prefix of the right content (%zu bytes)", when, f.name.c_str(), f.data.size(), it->second.size()));
        }
    };
    disk.on_crash = [judge_partial] { judge_partial("after the crash"); stat("crashes"); stat("disk_faults"); sh->nontrivial = 1; finish("ok", "crashed", ""); };
    bool crashed = false;
    on_death = [judge_partial](Death d, const std::string& what) {
        if (d == D_SIGNAL || d == D_ASSERT) return;
        if (d == D_EXIT && what == "exit(0)") violation("silent-failure", "the tool left with exit(0) inside main");
        stat("failures_reported"); finish("ok", "died", what);
    };
    bool ok = guarded(p, o, bad);
    on_death = nullptr;
    (void)crashed;
    if (ok) {
        for (auto& f : good.files) {
            auto it = bad.files.find(f.first);
            if (it == bad.files.end()) violation("silent-failure", strf("success was reported but file %s does not exist (%llu faults injected)", f.first.c_str(), (unsigned long long)disk.injected));
            if (it->second != f.second) violation("silent-failure", strf("success was reported but file %s has %zu bytes instead of %zu or different ones (%llu faults injected)", f.first.c_str(), it->second.size(), f.second.size(), (unsigned long long)disk.injected));
        }
        stat("files_complete", good.files.size());
    } else stat("failures_reported");
    stat("disk_faults", disk.injected);
    if (!ok && disk.injected == 0) violation("fails-without-fault", "no fault was injected, but the call failed: " + bad.ex);
    sh->nontrivial = disk.injected > 0;
    sh->evals = 2;
}

// ------------------------------------------------------------------ C16
static const std::vector<std::vector<const char*>> bad_girg = {{"-d", "0"}, {"-d", "6"}, {"-d", "-1"}, {"-d", "100"}, {"-ple", "2"}, {"-ple", "2.0"}, {"-ple", "1.5"}, {"-ple", "3.01"}, {"-ple", "-2.5"}, {"-ple", "nan"},
    {"-alpha", "1"}, {"-alpha", "0.5"}, {"-alpha", "-inf"}, {"-alpha", "nan"}, {"-alpha", "0"}, {"-deg", "0.5"}, {"-deg", "0"}, {"-deg", "-3"}, {"-deg", "N"}, {"-deg", "2N"}, {"-deg", "nan"}, {"-deg", "inf"}, {"-threads", "0"}, {"-threads", "-2"}, {"-n", "1"}, {"-n", "0"}, {"-n", "-7"}};
static const std::vector<std::vector<const char*>> bad_hrg = {{"-alpha", "0.49"}, {"-alpha", "0.5"}, {"-alpha", "1.01"}, {"-alpha", "-1"}, {"-alpha", "nan"}, {"-t", "-0.1"}, {"-t", "1"}, {"-t", "1.5"}, {"-t", "nan"},
    {"-deg", "0.9"}, {"-deg", "0"}, {"-deg", "N"}, {"-deg", "3N"}, {"-deg", "nan"}, {"-deg", "inf"}, {"-threads", "0"}, {"-threads", "-1"}, {"-n", "1"}, {"-n", "0"}, {"-n", "-3"}};
void gen_C16(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 5 == 0 ? "T" : idx % 5 == 1 ? "R" : "P");
    bool hrg = r.chance(0.5);
    p.set("op", hrg ? O_GENHRG : O_GENGIRG);
    p.set("size", r.chance(0.12) && p.s("fl") == "P" ? (int)r.range(10000, 41000) : (int)logu(r, 30, p.s("fl") == "P" ? 1500 : 300));
    p.set("bits", r.next() >> 1);
    EnvOpt o; o.fixed_team = true; o.maxthr = 8;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("k", (int)r.range(2, 3));
    if (r.chance(0.6)) p.set("vary", r.next() >> 1);
    if (idx % 4 == 1 && r.chance(0.5)) { p.set("edge", r.next() >> 1); p.set("size", (int)logu(r, 30, 300)); }
    if (idx % 4 == 3) { auto& b = hrg ? bad_hrg : bad_girg; p.set("bad", (int)(r.below(b.size()))); p.set("size", (int)r.range(30, 200)); }
}
static void out_of_range(const P& p, Op& o) {
    auto& t = o.kind == O_GENHRG ? bad_hrg : bad_girg;
    auto& b = t[p.i("bad") % t.size()];
    std::string val = b[1];
    if (val == "N") val = std::to_string(o.n);
    if (val == "2N" || val == "3N") val = std::to_string(o.n * (val[0] - '0'));
    bool found = false;
    for (size_t i = 1; i + 1 < o.args.size(); ++i) if (o.args[i] == b[0]) { o.args[i + 1] = val; found = true; }
    if (!found) { o.args.push_back(b[0]); o.args.push_back(val); }
    note("refusal: " + describe_op(o));
    static std::string what; what = std::string(b[0]) + " " + val;
    auto none = [] { for (auto& f : disk.files) if (f.name.find('#') == std::string::npos) violation("not-refused", strf("%s is outside the documented range, but file %s was written", what.c_str(), f.name.c_str())); };
    on_death = [none](Death d, const std::string& w) {
        if (d == D_SIGNAL || d == D_ASSERT) return;
        none();
        if (d == D_EXIT && w == "exit(0)") violation("not-refused", what + " is outside the documented range, but the exit code is 0");
        stat("refused"); sh->nontrivial = 1;
        finish("ok", "refused", w);
    };
    Out out; disk = Disk();
    setup_run(p);
    bool ok = guarded(p, o, out);
    on_death = nullptr;
    none();
    if (ok) violation("not-refused", what + " is outside the documented range, but the tool reports success");
    stat("refused"); sh->nontrivial = 1;
}
// other ways to write a command line: documented defaults, any order, explicit zeros, large seeds
static void vary_args(Op& o, Rng& r) {
    std::vector<std::pair<std::string, std::string>> q;
    for (size_t i = 1; i + 1 < o.args.size(); i += 2) q.push_back({o.args[i], o.args[i + 1]});
    bool hrg = o.kind == O_GENHRG;
    std::vector<std::pair<std::string, std::string>> t;
    for (auto& x : q) {
        bool drop = x.first != "-n" && x.first != "-edge" && x.first != "-dot" && x.first != "-coord" && r.chance(x.first == "-file" ? 0.15 : 0.3);
        if ((x.first == "-d" && o.D > 1 && r.chance(0.5)) || (x.first == "-deg" && o.n < 12)) drop = false;
        if (drop) {
            if (x.first == "-file") { o.base = "graph"; disk_prefix = "graph"; }
            if (x.first == "-threads") o.variant = 1;
            if (x.first == "-d") o.D = 1;
            continue;
        }
        if (x.first == "-file" && r.chance(0.5)) {
            static const char* names[] = {"run.1", "graph.txt", ".hidden", "a b", "x.dot.dot", "-n", "dir.1/out", "1", "g", "a,b;c=d", "trailing.", "\xc3\xa4"};
            o.base = x.second = std::string("/simdisk/") + names[r.below(12)];
        }
        if (x.first.size() > 4 && x.first.substr(2) == "seed" && r.chance(0.3)) x.second = std::to_string(r.chance(0.5) ? r.below(2147483000) : r.below(3));
        t.push_back(x);
    }
    if (!hrg && !o.want_dot && r.chance(0.5)) t.push_back({"-dot", "0"});
    if (hrg && !o.want_coord && r.chance(0.5)) t.push_back({"-coord", "0"});
    if (!o.want_edge && r.chance(0.5)) t.push_back({"-edge", "0"});
    if (hrg && r.chance(0.2) && std::none_of(t.begin(), t.end(), [](auto& x) { return x.first == "-nkr"; })) t.push_back({"-nkr", "0"});
    if (!hrg && r.chance(0.3) && std::none_of(t.begin(), t.end(), [](auto& x) { return x.first == "-alpha"; })) t.push_back({"-alpha", "inf"});
    for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]);
    o.args.resize(1);
    for (auto& x : t) { o.args.push_back(x.first); o.args.push_back(x.second); }
}
// ends of the documented ranges, small n
static void set_arg(Op& o, const std::string& k, const std::string& v) {
    for (size_t i = 1; i + 1 < o.args.size(); i += 2) if (o.args[i] == k) { o.args[i + 1] = v; return; }
    o.args.push_back(k); o.args.push_back(v);
}
static void range_ends(Op& o, Rng& r) {
    int n = o.n = r.chance(0.2) ? (int)r.range(2, 4) : (int)logu(r, 2, std::max(3, std::min(o.n, 300)));
    auto f = [](double x) { return strf("%.17g", x); };
    set_arg(o, "-n", std::to_string(n));
    double deg = r.chance(0.4) ? n - 1 : r.chance(0.5) ? std::max(1.0, (n - 1) * r.uni()) : r.chance(0.5) ? 1 : std::max(1.0, n - 1 - 0.02 * r.uni());
    if (o.kind == O_GENGIRG) {
        o.D = r.chance(0.3) ? 5 : (int)r.range(1, 4);
        if (o.D > 3) deg = std::min(n - 1.0, std::max(deg, 0.1 * n + 0.9));
        set_arg(o, "-d", std::to_string(o.D));
        set_arg(o, "-ple", r.chance(0.5) ? "3" : r.chance(0.5) ? "2.0001" : f(2.01 + 0.9 * r.uni()));
        set_arg(o, "-alpha", r.chance(0.3) ? "inf" : r.chance(0.3) ? f(logu(r, 8, 1000)) : r.chance(0.3) ? "1.00001" : r.chance(0.4) ? "1e9" : r.chance(0.5) ? "8.5" : f(1.01 + 7 * r.uni()));
    } else {
        double a = r.chance(0.4) ? 1 : 0.52 + 0.45 * r.uni(), t = r.chance(0.5) ? 0 : r.chance(0.3) ? 0.99 : r.uni();
        if (t > 0 && t < 0.01) t = 0.01;
        double R = 2 * std::log(n * 2 * a * a * (t == 0 ? 1 / M_PI : t / std::sin(M_PI * t)) / (deg * (a - 0.5) * (a - 0.5)));
        if (R > 16) { a = 1; if (t > 0.9) t = 0.9; } // a deep tree: slow
        set_arg(o, "-alpha", f(a)); set_arg(o, "-t", f(t));
        set_arg(o, "-nkr", r.chance(0.6) ? "1" : "0");
        o.a = a; o.b = t;
    }
    set_arg(o, "-deg", f(deg));
}
static double arg(const Op& o, const char* k, double d) { for (size_t i = 1; i + 1 < o.args.size(); ++i) if (o.args[i] == k) return strtod(o.args[i + 1].c_str(), nullptr); return d; }
void run_C16(const P& p) {
    static Op o; o = make_op((int)p.i("op", O_GENGIRG), (int)p.i("size", 30), p.u("bits"), p.s("fl") == "T", (int)p.i("thr", 1));
    if (p.has("edge")) { Rng r(p.u("edge")); range_ends(o, r); }
    if (p.has("vary")) { Rng r(p.u("vary")); vary_args(o, r); }
    if (p.has("bad")) { out_of_range(p, o); return; }
    note(describe_op(o));
    bool hrg = o.kind == O_GENHRG;
    int k = (int)p.i("k", 2), thr = o.variant;
    Out first;
    for (int i = 0; i < k; ++i) {
        setup_run(p, i); disk = Disk();
        Out out;
        if (!guarded(p, o, out)) violation("fails", "valid arguments, but the tool failed: " + out.ex);
        if (i == 0) first = out;
        else { auto s = compare_out(o, first, out); if (!s.empty()) violation("not-reproducible", strf("run %d with the same arguments: ", i) + s); }
    }
    // the same with the library
    setup_run(p, 50);
    Vec w, rad, ang; Mat pos; Edges e; double R = 0, T = 0, alpha = arg(o, "-alpha", hrg ? 0.75 : INFINITY), deg = arg(o, "-deg", 10);
    int ss = (int)arg(o, "-sseed", 1400);
    sim([&] {
        omp_set_num_threads(thr);
        if (hrg) {
            T = arg(o, "-t", 0);
            R = arg(o, "-nkr", 0) == 1 ? Hy(p).calculateRadiusNK(o.n, alpha, T, deg) : Hy(p).calculateRadius(o.n, alpha, T, deg);
            rad = Hy(p).sampleRadii(o.n, alpha, R, (int)arg(o, "-rseed", 12), thr > 1);
            ang = Hy(p).sampleAngles(o.n, (int)arg(o, "-aseed", 130), thr > 1);
            e = Hy(p).generateEdges(rad, ang, T, R, ss);
        } else {
            w = G(p).generateWeights(o.n, arg(o, "-ple", 2.5), (int)arg(o, "-wseed", 12), thr > 1);
            pos = G(p).generatePositions(o.n, (int)arg(o, "-d", 1), (int)arg(o, "-pseed", 130), true);
            G(p).scaleWeights(w, deg, (int)arg(o, "-d", 1), alpha);
            e = G(p).generateEdges(w, pos, alpha, ss);
        }
    });
    auto want = sorted_keys(e);
    auto file = [&](const char* ext) -> const std::string& {
        static std::string none;
        auto it = first.files.find(o.base + ext);
        if (it == first.files.end()) { violation("missing-file", o.base + ext + " was not written"); return none; }
        return it->second;
    };
    size_t nfiles = o.want_dot + o.want_edge + o.want_coord;
    if (first.files.size() != nfiles) violation("missing-file", strf("%zu files written, %zu asked for", first.files.size(), nfiles));
    Edges fe;
    if (o.want_edge) {
        int64_t n = -1, m = -1;
        if (!parse_edges_txt(file(".txt"), &n, &m, &fe)) violation("wrong-content", "the edge list cannot be read");
        if (n != o.n || m != (int64_t)fe.size()) violation("wrong-content", strf("header says n=%lld m=%lld, the arguments say n=%d and %zu edges follow", (long long)n, (long long)m, o.n, fe.size()));
        if (o.n <= 8000) { EdgeSet s(o.n); check_simple(fe, o.n, &s, "edge list"); }
        if (sorted_keys(fe) != want) violation("not-the-library-graph", strf("the edge list has %zu edges, the library generates %zu for these parameters and %d threads", fe.size(), e.size(), thr));
    }
    if (o.want_dot) {
        Vec dw; Mat dp; Edges de;
        if (!parse_dot(file(".dot"), &dw, &dp, &de)) violation("wrong-content", "the .dot file cannot be read");
        if ((int)dw.size() != o.n) violation("wrong-content", strf("%zu nodes in the .dot file, n=%d", dw.size(), o.n));
        for (int i = 0; i < o.n; ++i) {
            if (std::fabs(dw[i] - w[i]) > 0.00501 + 1e-9 * w[i]) violation("wrong-content", strf(".dot: weight of node %d is %g, generated with %g", i, dw[i], w[i]));
            if (dp[i].size() != pos[i].size()) violation("wrong-content", strf(".dot: %zu coordinates", dp[i].size()));
            for (size_t d = 0; d < dp[i].size(); ++d) if (std::fabs(dp[i][d] - pos[i][d]) > 5.01e-7) violation("wrong-content", strf(".dot: coordinate of node %d is %g, generated with %g", i, dp[i][d], pos[i][d]));
        }
        if (sorted_keys(de) != want) violation("not-the-library-graph", strf("the .dot file has %zu edges, the library generates %zu", de.size(), e.size()));
    }
    if (o.want_coord) {
        Vec hr, ha;
        if (!parse_hyp(file(".hyp"), &hr, &ha)) violation("wrong-content", "the coordinate file cannot be read");
        if ((int)hr.size() != o.n) violation("wrong-content", strf("%zu lines in the coordinate file, n=%d", hr.size(), o.n));
        for (int i = 0; i < o.n; ++i) if (std::fabs(hr[i] - rad[i]) > 1.1e-17 || std::fabs(ha[i] - ang[i]) > 1.1e-17) // 17 decimals
            violation("wrong-content", strf("coordinates of node %d are %.17g %.17g, generated with %.17g %.17g", i, hr[i], ha[i], rad[i], ang[i]));
        if (o.want_edge && T == 0 && o.n <= 4000) { // the edges belong to the written coordinates
            HrgIn h; h.R = R; h.T = 0; h.rad = hr; h.ang = ha;
            EdgeSet s(o.n); for (auto& x : fe) s.add(x.first, x.second);
            for (int u = 0; u < o.n; ++u) for (int v = u + 1; v < o.n; ++v) {
                double c = std::cosh(hr[u] - hr[v]) + (1 - std::cos(ha[u] - ha[v])) * std::sinh(hr[u]) * std::sinh(hr[v]);
                bool want_edge = c < std::cosh(R);
                if (want_edge != s.has(u, v)) { auto q = hrg_pair(h, u, v); if (!q.tie && fabsl(q.dist - R) > 1e-9L && q.below != s.has(u, v)) violation("wrong-content", strf("pair (%d,%d): the written coordinates have distance %.15Lg, R=%.15g, edge in the file: %d", u, v, q.dist, R, s.has(u, v))); }
            }
        }
    }
    sh->evals = k + 1;
    sh->nontrivial = e.size() > 3;
    stat("runs_compared", k - 1); stat("edges", e.size()); stat("cli_runs", k);
}

// ------------------------------------------------------------------ C17
void gen_C17(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    p.set("op", (int)(idx % O_NUM == O_SORT ? O_GIRG : idx % O_NUM));
    p.set("size", (int)logu(r, 2, 80));
    p.set("bits", r.next() >> 1);
    EnvOpt o; o.maxthr = 8; o.fixed_team = true; o.allow_one = r.chance(0.3);
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("at", r.uni());
    p.set("persist", r.chance(0.3) ? 1 : 0);
    p.set("tries", (int)r.range(2, thorough ? 8 : 5));
}
void run_C17(const P& p) {
    static Op o; o = make_op((int)p.i("op"), (int)p.i("size", 10), p.u("bits"), p.s("fl") == "T", (int)p.i("thr", 1));
    note(describe_op(o));
    g_heapcheck = p.s("fl") == "T";
    static Out ref;
    setup_run(p); disk = Disk();
    alloc_fail_at = -1; alloc_seen = 0;
    if (!guarded(p, o, ref)) violation("exception", "fails without allocation failure: " + ref.ex);
    int64_t total = alloc_seen;
    if (o.kind == O_HRG_CB || o.kind == O_GIRG_CB) total = alloc_seen;
    uint64_t failed = 0;
    int tries = (int)p.i("tries", 1);
    Rng r(p.u("bits") ^ 0x77);
    for (int t = 0; t < tries; ++t) {
        double x = t == 0 ? p.d("at") : r.uni();
        setup_run(p, 1 + t); disk = Disk();
        Out out;
        alloc_seen = 0; alloc_failed_total += alloc_failed; alloc_failed = 0; alloc_fail_persist = p.i("persist");
        alloc_fail_at = (int64_t)(x * total);
        on_death = [](Death d, const std::string& w) {
            if (d == D_SIGNAL || d == D_ASSERT) return;
            if (d == D_EXIT && w == "exit(0)") violation("wrong-result", "exit(0) after a failed allocation");
            for (auto& f : disk.files) { auto it = ref.files.find(f.name); if (it != ref.files.end() && f.data.size() > it->second.size()) violation("wrong-result", "file " + f.name + " is not a prefix of the right content"); }
            stat("alloc_failures"); stat("ended_process"); sh->nontrivial = 1;
            finish("ok", "died", w);
        };
        bool ok = guarded(p, o, out);
        on_death = nullptr;
        alloc_fail_at = -1;
        failed += alloc_failed;
        if (ok) { auto s = compare_out(o, ref, out); if (!s.empty()) violation("wrong-result", strf("allocation %lld of %lld failed, the call reports success, but: ", (long long)(x * total), (long long)total) + s); }
        else if (!alloc_failed) violation("exception", "no allocation failed, but the call did: " + out.ex);
        else stat("exceptions");
        setup_run(p, 100 + t); disk = Disk();
        Out again;
        if (!guarded(p, o, again)) violation("after-failure", "the repeated call with enough memory failed: " + again.ex);
        auto s = compare_out(o, ref, again);
        if (!s.empty()) violation("after-failure", "the repeated call with enough memory gives another result: " + s);
    }
    stat("alloc_failures", failed);
    sh->evals = tries;
    sh->nontrivial = failed > 0;
}

// ------------------------------------------------------------------ C18
void gen_C18(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 6 == 0 ? "T" : "P");
    EnvOpt o; o.fixed_team = true; o.maxthr = 8; o.allow_one = r.chance(0.2);
    gen_env(p, r, o);
    gen_sched(p, r, true);
    int n = r.chance(0.3) ? (int)r.range(2, 30) : (int)logu(r, 30, p.s("fl") == "T" ? 300 : thorough ? 2500 : 1200);
    p.set("n", n);
    p.set("D", (int)r.range(1, 5));
    p.set("alpha", r.chance(0.4) ? INFINITY : r.chance(0.25) ? 0.3 + 0.65 * r.uni() : r.chance(0.3) ? 1.02 + 0.3 * r.uni() : 1.1 + 6.9 * r.uni());
    p.set("wf", (int)r.below(6));
    p.set("is", r.next() >> 1);
    double top = n - 1;
    p.set("deg", n <= 3 ? 0.3 + 0.3 * r.uni() : r.chance(0.1) ? top - (r.chance(0.4) ? 0.0 : r.chance(0.5) ? 0.03 * r.uni() : 0.1 * top * r.uni()) : r.chance(0.2) ? top * (0.3 + 0.5 * r.uni()) : std::min(0.8 * top, 0.5 + logu(r, 0.6, 60)));
    p.set("k", (int)r.range(3, 7));
    gen_huge(p, r, 0.03);
    if (idx % 64 == 29) { // large
        n = (int)logu(r, 20000, thorough ? 600000 : 250000);
        p.set("fl", "P"); p.set("n", n); p.set("k", 3);
        p.set("deg", r.chance(0.1) ? (n - 1) * (0.05 + 0.9 * r.uni()) : std::min(0.8 * n, 0.5 + logu(r, 0.6, 2000)));
    }
}
static double expected_degree_large(Vec w, int D, double al) { // the same with sums over all smaller weights
    int n = w.size();
    std::sort(w.begin(), w.end(), std::greater<double>());
    std::vector<long double> s1(n + 1, 0), sa(n + 1, 0);
    long double W = 0, vol = std::exp2((long double)D), s = 0;
    for (int i = n; i-- > 0; ) W += w[i];
    for (int i = n; i-- > 0; ) { s1[i] = s1[i + 1] + w[i]; if (!std::isinf(al)) sa[i] = sa[i + 1] + powl(vol / W * w[i] * w[0], al); }
    int i2 = 0; // first partner whose k is below 1
    for (int i = n; i-- > 0; ) {
        long double c = vol * w[i] / W;
        while (i2 < n && c * w[i2] >= 1) ++i2;
        int j = std::max(i2, i + 1); // partners i+1.. (i.e. each pair once); those from j on have k < 1
        s += j - (i + 1);
        if (std::isinf(al)) s += c * s1[j];
        else s += c * s1[j] + (sa[j] * powl((long double)w[i] / w[0], al) - c * s1[j]) / (1 - al);
    }
    return 2 * s / n;
}
static double expected_degree(const Vec& w, int D, double al) {
    int n = w.size();
    if (n > 6000) return expected_degree_large(w, D, al);
    long double W = 0; for (double x : w) W += x;
    double vol = std::exp2(D), s = 0;
    if (std::isinf(al)) { for (int u = 0; u < n; ++u) { double c = vol * w[u] / (double)W; for (int v = 0; v < u; ++v) s += std::min(1.0, c * w[v]); } return 2 * s / n; }
    // k = 2^D w_u w_v / W; probability over the distance d (volume (2d)^D): E = k + (k^al - k)/(1-al) for k < 1
    for (int u = 0; u < n; ++u) { double c = vol * w[u] / (double)W; for (int v = 0; v < u; ++v) { double k = c * w[v]; s += k >= 1 ? 1 : k + (std::pow(k, al) - k) / (1 - al); } }
    return 2 * s / n;
}
void run_C18(const P& p) {
    int n = std::max<int64_t>(2, p.i("n", 10)), D = (int)p.i("D", 1), k = (int)p.i("k", 2);
    double al = p.d("alpha", INFINITY), deg = p.d("deg", 1);
    Rng r(p.u("is"));
    Vec w; int wf = (int)p.i("wf"); double ple = 2.05 + 0.9 * r.uni(), hub = 2 + r.uni() * n / 2, sc = std::exp2(r.uni() * 12 - 6);
    if (r.chance(0.3)) sc = std::exp2(r.uni() * 140 - 70);
    for (int i = 0; i < n; ++i) {
        double u = r.uni(), x = 1;
        switch (wf) { case 0: x = 1; break; case 1: x = 1 + u; break; default: x = std::min(n / 2.0 + 1, std::pow(1 - u, -1 / (ple - 1))); break; case 4: x = u < 0.03 ? hub : 1 + u; break; case 5: x = sc * std::min(n / 2.0 + 1, std::pow(1 - u, -1 / (ple - 1))); break; }
        w.push_back(x);
    }
    deg = std::min(deg, n - 1.0); // all others: the complete graph
    note(strf("scale n=%d D=%d alpha=%g degree=%g weights=%d threads=%lld", n, D, al, deg, wf, (long long)p.i("thr")));
    double f0 = 0; Vec w0;
    for (int i = 0; i < k; ++i) {
        setup_run(p, i);
        Vec v = w; double f = 0;
        sim([&] { f = G(p).scaleWeights(v, deg, D, al); });
        if (i == 0) {
            f0 = f; w0 = v;
            if (v.size() != w.size()) violation("weights", "number of weights changed");
            if (!(f > 0) || std::isinf(f)) violation("factor", strf("factor %.17g", f));
            for (int j = 0; j < n; ++j) if (v[j] != w[j] * f) violation("weights", strf("weight %d was %.17g, is %.17g, the returned factor is %.17g", j, w[j], v[j], f));
            double E = expected_degree(v, D, al);
            if (!(std::fabs(E - deg) <= 0.02 + 1e-3 + 1e-6 * deg)) violation("wrong-degree", strf("desired average degree %.10g, the scaled weights give %.10g (n=%d D=%d alpha=%.10g weights=%d, factor %.10g)", deg, E, n, D, al, wf, f));
        } else if (f != f0 || v != w0) violation("not-reproducible", strf("factor %.17g in run 0 and %.17g in run %d with the same input and %lld threads", f0, f, i, (long long)p.i("thr")));
    }
    sh->evals = k;
    sh->nontrivial = n > 10;
    stat("runs_compared", k - 1); stat("degrees_checked");
}

// ------------------------------------------------------------------ C19
void gen_C19(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("ent", r.next() >> 1);
    EnvOpt o; o.maxthr = 8; o.fixed_team = true; o.allow_one = r.chance(0.3);
    if (idx % 4 == 3) { // distribution and independence with negative seeds
        bool hrg = idx / 4 % 2;
        if (hrg) { gen_hrg(p, r, 30, false, 8, false); p.set("T", 0.2 + 0.7 * r.uni()); p.set("R", 2 + r.uni() * 5); p.set("rf", pick(r, {0, 3, 5})); p.set("af", 0); }
        else { gen_girg(p, r, 30, 2e4, false); p.set("alpha", 1.1 + 2 * r.uni()); p.set("wf", pick(r, {0, 0, 1})); p.set("pf", pick(r, {0, 2})); p.set("D", pick(r, {1, 1, 2})); p.set("tgt", 2 + 5 * r.uni()); }
        p.set("fl", "P"); p.set("hrg", hrg ? 1 : 0); p.set("n", pick(r, {12, 16, 24})); p.set("neg", 1); p.set("N", thorough ? 3000 : 1200); p.set("stride", 1);
        gen_env(p, r, o); for (auto k : {"stall", "cj", "spur"}) p.m.erase(k);
        gen_sched(p, r, false);
        return;
    }
    p.set("fl", idx % 8 == 0 ? "T" : idx % 8 == 1 ? "R" : "P");
    gen_env(p, r, o);
    gen_sched(p, r, true);
    if (r.chance(0.2)) p.set("thr", 1);
    p.set("op", pick(r, {O_GIRG, O_GIRG_CB, O_HRG, O_HRG_CB, O_WEIGHTS, O_POSITIONS, O_RADII, O_ANGLES, O_BOTH}));
    p.set("size", (int)r.range(60, 250));
    p.set("bits", r.next() >> 1);
    p.set("seed", r.chance(0.5) ? -1 : r.chance(0.5) ? -2147483647 : -(int)r.range(2, 100000));
    if (r.chance(0.5)) { p.set("emode", (int)r.range(1, 3)); p.set("ek", r.uni()); }
}
static Op entropy_op(const P& p) {
    Op o = make_op((int)p.i("op"), (int)p.i("size", 60), p.u("bits"), p.s("fl") == "T", 1);
    o.seed = (int)p.i("seed", -1);
    Rng r(p.u("bits") ^ 3);
    if (o.kind == O_GIRG || o.kind == O_GIRG_CB) { // a graph with many undecided pairs
        P q; gen_girg(q, r, 250, 2e4, false); q.set("n", (int)p.i("size", 60)); q.set("alpha", 1.3); q.set("wf", 1); q.set("pf", 0); q.set("tgt", 6.0); q.set("D", 1 + (int)r.below(2));
        o.g = make_girg(q);
    }
    if (o.kind == O_HRG || o.kind == O_HRG_CB) { o.h.T = 0.6; o.h.R = 6; o.h.rad.clear(); o.h.ang.clear(); for (int i = 0; i < p.i("size", 60); ++i) { o.h.rad.push_back(2.5 + 3.3 * r.uni()); o.h.ang.push_back(6.28 * r.uni()); } }
    if (o.kind >= O_WEIGHTS && o.kind <= O_BOTH) o.n = 10000 + (int)p.i("size", 60) * 120;
    return o;
}
void run_C19(const P& p) {
    entropy = Entropy(); entropy.seed = p.u("ent");
    if (p.i("neg")) { stat_case(p, p.i("hrg")); return; }
    static Op o; o = entropy_op(p);
    note(describe_op(o) + strf(" seed=%d threads=%lld entropy failure mode %lld", o.seed, (long long)p.i("thr"), (long long)p.i("emode")));
    Out a, b;
    setup_run(p); uint64_t d0 = entropy.draws, op0 = entropy.opens;
    if (!guarded(p, o, a)) violation("fails", "a call with a negative seed failed: " + a.ex);
    uint64_t draws = entropy.draws - d0, opens = entropy.opens - op0;
    if (!draws) violation("no-entropy", strf("a call with seed %d took nothing from the entropy source", o.seed));
    setup_run(p, 1);
    if (!guarded(p, o, b)) violation("fails", "a call with a negative seed failed: " + b.ex);
    std::string same = compare_out(o, a, b);
    if (same.empty()) violation("not-fresh", strf("two calls with seed %d give the same result", o.seed));
    auto vals = [&](const Out& x) { Vec v = x.v1; for (auto& m : x.m) v.insert(v.end(), m.begin(), m.end()); if (o.kind == O_BOTH) return v; return v; };
    Vec va = vals(a), vb = vals(b);
    size_t eq = 0; for (size_t i = 0; i < va.size() && i < vb.size(); ++i) eq += va[i] == vb[i];
    if (eq > 2) violation("not-fresh", strf("%zu of %zu entries are the same in two calls with seed %d", eq, va.size(), o.seed));
    Vec all = va; all.insert(all.end(), vb.begin(), vb.end());
    if (!all.empty()) distinct(all, strf("entries of two calls with seed %d", o.seed), "shared-stream");
    if (!a.v2.empty()) { Vec c = a.v2; c.insert(c.end(), b.v2.begin(), b.v2.end()); distinct(c, "angles of two calls with a negative seed", "shared-stream"); }
    stat("entropy_draws", draws);
    if (p.has("emode")) {
        setup_run(p, 2);
        entropy = Entropy(); entropy.seed = p.u("ent") ^ 0xabc;
        int mode = (int)p.i("emode");
        entropy.k = (int64_t)(p.d("ek") * (mode == 3 ? opens : draws));
        if (mode == 3 && !opens) mode = 1, entropy.k = 0;
        entropy.mode = mode;
        on_death = [](Death d, const std::string&) { if (d == D_SIGNAL || d == D_ASSERT) return; stat("entropy_failures"); stat("ended_process"); sh->nontrivial = 1; finish("ok", "died", ""); };
        Out c;
        bool ok = guarded(p, o, c);
        on_death = nullptr;
        stat("entropy_failures", entropy.failed);
        if (ok && entropy.failed) violation("silent-failure", strf("the entropy source failed (draw %lld of %llu), but the call reports success", (long long)entropy.k, (unsigned long long)draws));
        if (!ok && !entropy.failed) violation("fails", "the entropy source did not fail, but the call did: " + c.ex);
        entropy.mode = 0;
        setup_run(p, 3);
        Out e;
        if (!guarded(p, o, e)) violation("fails", "after the entropy source recovered, the call fails: " + e.ex);
    }
    sh->evals = 2;
    sh->nontrivial = 1;
}
