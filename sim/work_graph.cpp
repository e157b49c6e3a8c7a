// Properties of edge generation: exactness, simplicity, reproducibility, distribution, callbacks, buffers, concurrent callers.
#include "work.h"
#include <omp.h>
using namespace rt;

static void note(const std::string& s) { snprintf(sh->info, sizeof sh->info, "%s", s.c_str()); }
static std::string girg_desc(const P& p, const GirgIn& g) {
    return strf("GIRG n=%zu D=%d alpha=%g weights=%lld positions=%lld threads=%lld", g.w.size(), g.D, g.alpha, (long long)p.i("wf"), (long long)p.i("pf"), (long long)p.i("thr"));
}
static std::string hrg_desc(const P& p, const HrgIn& h) {
    return strf("HRG n=%zu R=%g T=%g radii=%lld angles=%lld threads=%lld", h.rad.size(), h.R, h.T, (long long)p.i("rf"), (long long)p.i("af"), (long long)p.i("thr"));
}

// ------------------------------------------------------------------ C01
static void exact_girg(const GirgIn& g, const Edges& e) {
    int n = g.w.size();
    if (n <= 6000) {
        EdgeSet s(n);
        check_simple(e, n, &s, "threshold GIRG");
        for (int u = 0; u < n; ++u)
            for (int v = u + 1; v < n; ++v) {
                double m = 0;
                for (int d = 0; d < g.D; ++d) { double x = std::fabs(g.pos[u][d] - g.pos[v][d]); if (x > 0.5) x = 1 - x; if (x > m) m = x; }
                double dd = 1; for (int d = 0; d < g.D; ++d) dd *= m;
                double w = g.w[u] * g.w[v] / g.W;
                bool want = dd < w;
                if (std::fabs(dd - w) < 1e-8 * w) { // close: decide with more precision, skip real ties
                    long double q = girg_ratio(g, u, v);
                    if (fabsl(q - 1) < 1e-11L) { stat("ties_skipped"); continue; }
                    want = q > 1;
                }
                if (want != s.has(u, v))
                    violation(want ? "missing-edge" : "wrong-edge", strf("pair (%d,%d): dist^d=%.17g, w_u w_v/W=%.17g, edge expected: %d, returned: %d (%s n=%d D=%d)", u, v, dd, w, want, !want, "GIRG", n, g.D));
            }
        stat("pairs_checked", (uint64_t)n * (n - 1) / 2);
        return;
    }
    // large: D = 1, candidates by weight class and position window
    auto k = sorted_keys(e);
    for (size_t i = 0; i < k.size(); ++i) {
        int u = k[i] >> 32, v = (int)k[i];
        if (u == v || v >= n) violation("bad-edge", strf("edge (%d,%d)", u, v));
        if (i && k[i] == k[i - 1]) violation("duplicate-edge", strf("edge (%d,%d) twice", u, v));
    }
    double w0 = *std::min_element(g.w.begin(), g.w.end());
    std::map<int, std::vector<std::pair<double, int>>> cls;
    for (int i = 0; i < n; ++i) cls[(int)std::floor(std::log2(g.w[i] / w0) + 1e-9)].push_back({g.pos[i][0], i});
    for (auto& c : cls) std::sort(c.second.begin(), c.second.end());
    uint64_t want = 0, checked = 0;
    for (int u = 0; u < n; ++u)
        for (auto& c : cls) {
            double win = g.w[u] * w0 * std::exp2(c.first + 1) / g.W * 1.0001, x = g.pos[u][0];
            auto scan = [&](double a, double b) {
                for (auto it = std::lower_bound(c.second.begin(), c.second.end(), std::make_pair(a, -1)); it != c.second.end() && it->first <= b; ++it) {
                    int v = it->second;
                    if (v <= u) continue;
                    ++checked;
                    long double q = girg_ratio(g, u, v);
                    bool has = std::binary_search(k.begin(), k.end(), ekey(u, v));
                    if (fabsl(q - 1) < 1e-11L) { if (has) ++want; continue; }
                    if ((q > 1) != has) violation(has ? "wrong-edge" : "missing-edge", strf("pair (%d,%d): ratio %.17Lg, returned: %d (large GIRG n=%d)", u, v, q, has, n));
                    want += has;
                }
            };
            if (win >= 0.5) scan(0, 1);
            else { scan(std::max(0.0, x - win), std::min(1.0, x + win)); if (x - win < 0) scan(1 + x - win, 1); if (x + win > 1) scan(0, x + win - 1); }
        }
    if (want != k.size()) violation("wrong-edge", strf("%zu edges returned, only %llu of them join pairs below the threshold (n=%d)", k.size(), (unsigned long long)want, n));
    stat("pairs_checked", checked);
}
// graphs large enough for rules that only hold from some size on; sparse, so that they stay cheap
static void gen_large(P& p, Rng& r, bool hrg, bool finite) {
    int n = (int)logu(r, 8000, 80000);
    p.set("fl", "P"); p.set("large", 1);
    if (hrg) {
        p.set("n", n); p.set("ah", 0.7 + 0.3 * r.uni()); p.set("rf", 0); p.set("af", pick(r, {0, 0, 0, 1}));
        p.set("R", 2 * std::log((double)n) + r.uni() * 3 - 1);
        if (p.i("af")) p.set("n", (int)r.range(3000, 6000)), p.set("R", 2 * std::log((double)p.i("n")) + 1);
        p.set("T", finite ? 0.1 + 0.6 * r.uni() : 0.0);
    } else {
        int D = pick(r, {1, 1, 2, 3});
        p.set("D", D); p.set("wf", pick(r, {0, 1, 2, 2})); p.set("pf", 0);
        if (D == 3) n = std::min(n, 20000);
        p.set("n", n); p.set("tgt", std::log2((double)n) + (D == 3 ? 0.5 : 2.5) * r.uni());
        if (finite) p.set("alpha", 1.2 + 3 * r.uni()); else p.set("alpha", INFINITY);
    }
    p.m.erase("mgap");
}
void gen_C01(P& p, Rng& r, uint64_t idx, bool thorough) {
    bool big = idx % 40 == 7 || (thorough && idx % 40 == 27);
    p.set("fl", big ? "P" : idx % 3 == 0 ? "T" : idx % 16 == 5 ? "B" : "R");
    gen_girg(p, r, big ? 3000 : thorough ? 500 : 260, p.s("fl") == "T" ? 1e5 : 6e5, true);
    bool deep = !big && idx % 80 == 5; // cell numbers of 18 to 23 bits
    if (deep) { int D = (int)r.range(2, 4); p.set("fl", r.chance(0.7) ? "B" : "P"); p.set("D", D); p.set("n", (int)logu(r, 40, 3000)); p.set("tgt", std::log2((D == 2 ? 2e7 : 6e7) / std::pow(3.0, D)) - 3 * r.uni() * r.uni()); }
    EnvOpt o; if (r.chance(0.05)) o.maxthr = 64;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    if (deep) p.m.erase("mgap");
    p.set("api", (int)r.below(3));
    p.set("prof", r.chance(0.15) ? 1 : 0);
    p.set("pow2s", r.chance(0.5) ? 1 : 0);
    if (big) {
        p.set("n", (int)r.range(131000, 270000)); p.set("D", r.chance(0.8) ? 1 : 2);
        if (p.i("D") == 2) p.set("n", (int)r.range(3000, 6000));
        p.set("tgt", std::log2((double)p.i("n")) - 1 - 3 * r.uni()); p.set("wf", pick(r, {0, 1, 2, 5, 7})); p.set("pf", pick(r, {0, 0, 0, 1}));
        if (p.i("pf") == 1 || p.i("wf") == 7 || p.i("wf") == 5) p.set("n", (int)r.range(3000, 6000));
    }
    gen_huge(p, r, 0.012);
}
void run_C01(const P& p) {
    GirgIn g = make_girg(p);
    note(girg_desc(p, g));
    setup_run(p);
    Edges e;
    sim([&] { e = run_girg(p, g, (int)p.i("seed", 5), (Api)p.i("api"), p.i("prof")); });
    exact_girg(g, e);
    sh->nontrivial = !e.empty() && g.w.size() > 2;
    stat("edges", e.size());
}

// ------------------------------------------------------------------ C02
static void exact_hrg(const HrgIn& h, const Edges& e) {
    int n = h.rad.size();
    EdgeSet s(n);
    check_simple(e, n, &s, "threshold HRG");
    std::vector<double> ch(n), shh(n);
    for (int i = 0; i < n; ++i) { ch[i] = std::cosh(h.rad[i]); shh[i] = std::sinh(h.rad[i]); }
    double cR = std::cosh(h.R);
    for (int u = 0; u < n; ++u)
        for (int v = u + 1; v < n; ++v) {
            double s2 = std::sin((h.ang[u] - h.ang[v]) / 2), a = std::cosh(h.rad[u] - h.rad[v]) + 2 * s2 * s2 * shh[u] * shh[v];
            bool want = a < cR;
            if (std::fabs(a - cR) < 1e-10 * (cR + ch[u] * ch[v])) {
                auto q = hrg_pair(h, u, v);
                if (q.tie) { stat("ties_skipped"); continue; }
                want = q.below;
            }
            if (want != s.has(u, v))
                violation(want ? "missing-edge" : "wrong-edge", strf("pair (%d,%d): radii %.17g %.17g, angles %.17g %.17g, distance %.15Lg, R=%.17g, edge expected: %d, returned: %d (HRG n=%d)",
                          u, v, h.rad[u], h.rad[v], h.ang[u], h.ang[v], hrg_pair(h, u, v).dist, h.R, want, !want, n));
        }
    stat("pairs_checked", (uint64_t)n * (n - 1) / 2);
}
void gen_C02(P& p, Rng& r, uint64_t idx, bool thorough) {
    bool big = idx % 40 == 7;
    p.set("fl", big ? "P" : idx % 3 == 0 ? "T" : "R");
    bool safe = p.s("fl") == "T";
    gen_hrg(p, r, big ? 3000 : thorough ? 600 : 320, true, safe ? 11 : 15, safe);
    EnvOpt o; if (r.chance(0.12)) o.maxthr = 64;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("api", (int)r.below(3));
    p.set("prof", r.chance(0.15) ? 1 : 0);
    if (big) { p.set("n", (int)r.range(3000, 6000)); p.set("R", 2 * std::log((double)p.i("n")) + r.uni() * 4); p.set("rf", pick(r, {0, 1, 2, 3, 6})); p.set("af", pick(r, {0, 0, 1, 4})); }
    if (idx % 80 == 47) { p.set("big", 1); p.set("n", (int)r.range(131000, 160000)); p.set("R", 2 * std::log((double)p.i("n")) + 3); p.set("rf", 0); p.set("af", 0); p.set("ah", 0.7 + 0.3 * r.uni()); }
    gen_huge(p, r, 0.012);
}
void run_C02(const P& p) {
    HrgIn h = make_hrg(p);
    note(hrg_desc(p, h));
    setup_run(p);
    Edges e;
    sim([&] { e = run_hrg(p, h, (int)p.i("seed", 5), (Api)p.i("api"), p.i("prof")); });
    if ((int)h.rad.size() <= 8000) exact_hrg(h, e);
    else { // large: window in angle per radius class
        int n = h.rad.size();
        auto k = sorted_keys(e);
        for (size_t i = 1; i < k.size(); ++i) if (k[i] == k[i - 1]) violation("duplicate-edge", strf("edge (%d,%d) twice", (int)(k[i] >> 32), (int)k[i]));
        std::map<int, std::vector<std::pair<double, int>>> cls;
        for (int i = 0; i < n; ++i) cls[(int)std::floor(h.rad[i])].push_back({h.ang[i], i});
        for (auto& c : cls) std::sort(c.second.begin(), c.second.end());
        const double tau = 2 * 3.14159265358979323846;
        uint64_t want = 0;
        for (int u = 0; u < n; ++u) for (auto& c : cls) {
            double r2 = std::max(1e-9, (double)c.first), r1 = h.rad[u];
            double cs = (std::cosh(r1) * std::cosh(r2) - std::cosh(h.R)) / (std::sinh(r1) * std::sinh(r2)), win;
            // the largest angle at which some radius of the class is within R: the lower end of the class (angles shrink with the radius)
            if (r1 + r2 <= h.R || cs <= -1) win = 4; else if (cs >= 1) win = 0; else win = std::acos(cs) * 1.001 + 1e-9;
            double x = h.ang[u];
            auto scan = [&](double a, double b) {
                for (auto it = std::lower_bound(c.second.begin(), c.second.end(), std::make_pair(a, -1)); it != c.second.end() && it->first <= b; ++it) {
                    int v = it->second; if (v <= u) continue;
                    auto q = hrg_pair(h, u, v);
                    bool has = std::binary_search(k.begin(), k.end(), ekey(u, v));
                    if (q.tie) { want += has; continue; }
                    if (q.below != has) violation(has ? "wrong-edge" : "missing-edge", strf("pair (%d,%d), distance %.15Lg, R=%.17g, returned: %d (large HRG n=%d)", u, v, q.dist, h.R, has, n));
                    want += has;
                }
            };
            if (win >= tau / 2) scan(0, 7);
            else if (win > 0) { scan(std::max(0.0, x - win), std::min(tau, x + win)); if (x - win < 0) scan(tau + x - win, 7); if (x + win > tau) scan(0, x + win - tau); }
        }
        if (want != k.size()) violation("wrong-edge", strf("%zu edges returned, %llu expected (large HRG)", k.size(), (unsigned long long)want));
    }
    sh->nontrivial = !e.empty() && h.rad.size() > 2;
    stat("edges", e.size());
}

// ------------------------------------------------------------------ C03
void gen_C03(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    bool hrg = idx % 2;
    p.set("hrg", hrg ? 1 : 0);
    if (hrg) gen_hrg(p, r, thorough ? 500 : 250, false, 11, p.s("fl") == "T");
    else gen_girg(p, r, thorough ? 400 : 200, p.s("fl") == "T" ? 6e4 : 3e5, false);
    EnvOpt o; if (r.chance(0.08)) o.maxthr = 64;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("api", (int)r.below(3));
    p.set("seed", (int)r.below(1000000));
    gen_huge(p, r, 0.01);
    if (idx % 120 == 53 || idx % 120 == 102) gen_large(p, r, hrg, r.chance(0.8));
}
void run_C03(const P& p) {
    setup_run(p);
    Edges e;
    uint64_t forced = 0, impossible = 0;
    if (p.i("hrg")) {
        HrgIn h = make_hrg(p);
        note(hrg_desc(p, h));
        sim([&] { e = run_hrg(p, h, (int)p.i("seed"), (Api)p.i("api"), false); });
        int n = h.rad.size();
        EdgeSet s(n); check_simple(e, n, &s, "HRG");
        Rng pr(p.u("ss") ^ 77);
        for (int u = 0; u < n; ++u) if (n <= 2500 || pr.chance(40.0 / n)) for (int v = n <= 2500 ? u + 1 : 0; v < n; ++v) {
            if (u == v) continue;
            auto q = hrg_pair(h, u, v);
            if (q.tie) continue;
            bool f, z;
            if (h.T == 0) f = q.below, z = !q.below;
            else { long double x = (q.dist - h.R) / (2 * (long double)h.T); f = x < -43; z = x > 43; }
            if (f) { forced++; if (!s.has(u, v)) violation("forced-pair-missing", strf("pair (%d,%d) at distance %.15Lg (R=%g, T=%g) has probability 1 up to 1e-18 but is not connected", u, v, q.dist, h.R, h.T)); }
            if (z) { impossible++; if (s.has(u, v)) violation("impossible-pair", strf("pair (%d,%d) at distance %.15Lg (R=%g, T=%g) has probability below 1e-18 but is connected", u, v, q.dist, h.R, h.T)); }
        }
    } else {
        GirgIn g = make_girg(p);
        note(girg_desc(p, g));
        sim([&] { e = run_girg(p, g, (int)p.i("seed"), (Api)p.i("api"), false); });
        int n = g.w.size();
        EdgeSet s(n); check_simple(e, n, &s, "GIRG");
        Rng pr(p.u("ss") ^ 77);
        for (int u = 0; u < n; ++u) if (n <= 2500 || pr.chance(100.0 / n)) for (int v = n <= 2500 ? u + 1 : 0; v < n; ++v) {
            if (u == v) continue;
            long double q = girg_ratio(g, u, v);
            bool f, z;
            if (g.alpha == 0) f = true, z = false;
            else if (std::isinf(g.alpha)) f = q > 1 + 1e-11L, z = q < 1 - 1e-11L;
            else { f = q > 1 + 1e-11L; z = q < 1 && logl(q) * g.alpha < -41.5L; }
            if (f) { forced++; if (!s.has(u, v)) violation("forced-pair-missing", strf("pair (%d,%d) has probability 1 (w_u w_v/W over dist^d is %.12Lg, alpha=%g, D=%d, n=%d) but is not connected", u, v, q, g.alpha, g.D, n)); }
            if (z) { impossible++; if (s.has(u, v)) violation("impossible-pair", strf("pair (%d,%d) has probability below 1e-18 (ratio %.12Lg, alpha=%g, D=%d, n=%d) but is connected", u, v, q, g.alpha, g.D, n)); }
        }
    }
    stat("forced_pairs", forced); stat("impossible_pairs", impossible); stat("edges", e.size());
    sh->nontrivial = forced + impossible > 0 && !e.empty();
}

// ------------------------------------------------------------------ C04, C05
static void gen_repro(P& p, Rng& r, uint64_t idx, bool hrg, bool thorough) {
    p.set("fl", idx % 4 == 0 ? "T" : "R");
    bool big = idx % 30 == 11;
    if (hrg) gen_hrg(p, r, big ? 900 : 260, false, 10, p.s("fl") == "T");
    else gen_girg(p, r, big ? 900 : 220, p.s("fl") == "T" ? 4e4 : 1.5e5, false);
    if (!hrg && r.chance(0.8)) { if (p.d("alpha") == 0 || p.d("alpha") > 9) p.set("alpha", 1.05 + 4 * r.uni()); }
    if (hrg && p.d("T") == 0) p.set("T", 0.1 + 0.85 * r.uni());
    EnvOpt o; o.fixed_team = true; o.allow_one = r.chance(0.3); if (r.chance(0.1)) o.maxthr = 64;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("k", (int)r.range(3, thorough ? 8 : 6));
    p.set("seed", r.chance(0.1) ? 0 : r.chance(0.1) ? 2147483647 - (int)logu(r, 1, 1e6) + 1 : (int)r.below(1000000));
    gen_huge(p, r, 0.012);
    if (idx % 100 == 63) { gen_large(p, r, hrg, true); p.set("k", (int)r.range(2, 3)); if (p.i("thr") < 2) p.set("thr", 2 + (int)r.below(7)); }
}
static Edges one_run(const P& p, bool hrg, GirgIn* g, HrgIn* h, int seed, Api api, bool prof) {
    return hrg ? run_hrg(p, *h, seed, api, prof) : run_girg(p, *g, seed, api, prof);
}
static void run_repro(const P& p, bool hrg) {
    GirgIn g; HrgIn h;
    if (hrg) { h = make_hrg(p); note(hrg_desc(p, h)); } else { g = make_girg(p); note(girg_desc(p, g)); }
    int k = (int)p.i("k", 4), seed = (int)p.i("seed");
    std::vector<uint64_t> ref;
    Rng r(p.u("ss") ^ 99);
    for (int i = 0; i < k; ++i) {
        setup_run(p, i);
        if (i == 0) { Sched s; s.policy = 0; set_sched(s); env.spur = env.clockjump = env.yieldskip = 0; }
        g_fill = i == 0 ? 0 : pick(r, {0xff, 0xa5, 0x40, 0x01, 0x3f, 0});
        Api api = (Api)(i == 0 ? p.i("api", 0) : r.below(3));
        bool prof = i && r.chance(0.3), hist = i && r.chance(0.4), late = i && r.chance(0.3);
        int other = (int)r.below(5000);
        uint64_t hs = r.next();
        Edges e;
        sim([&] {
            if (hist) { // something else was generated before in this process
                P q; Rng rr(hs);
                { HarnessScope x; q = p; q.m.erase("keep"); }
                GirgIn g2; HrgIn h2;
                { HarnessScope x; q.set("n", (int)rr.range(2, 40)); q.set("is", rr.next() >> 1); if (rr.chance(0.5)) { q.set("T", 0.5); q.set("alpha", 2.0); } if (hrg) h2 = make_hrg(q); else { q.set("tgt", 5.0); g2 = make_girg(q); } }
                one_run(p, hrg, &g2, &h2, other, (Api)rr.below(3), false);
                if (late) one_run(p, hrg, &g, &h, seed + 1, LIST, false);
            }
            e = one_run(p, hrg, &g, &h, seed, api, prof);
        });
        auto ks = sorted_keys(e);
        if (i == 0) { ref = ks; continue; }
        if (ks != ref) {
            size_t j = 0; while (j < ks.size() && j < ref.size() && ks[j] == ref[j]) ++j;
            uint64_t d = j < ref.size() && (j >= ks.size() || ref[j] < ks[j]) ? ref[j] : ks[j];
            violation("not-reproducible", strf("run %d with the same input, seed %d and threads %lld differs from run 0: %zu instead of %zu edges, first difference at pair (%d,%d); interface %d/%lld, profile %d, history %d",
                      i, seed, (long long)p.i("thr"), ks.size(), ref.size(), (int)(d >> 32), (int)d, (int)api, (long long)p.i("api", 0), prof, hist));
        }
    }
    sh->evals = k;
    sh->nontrivial = ref.size() > 3 && p.i("thr") > 1;
    stat("edges", ref.size());
    stat("runs_compared", k - 1);
}
void gen_C04(P& p, Rng& r, uint64_t idx, bool t) { gen_repro(p, r, idx, false, t); }
void run_C04(const P& p) { run_repro(p, false); }
void gen_C05(P& p, Rng& r, uint64_t idx, bool t) { gen_repro(p, r, idx, true, t); }
void run_C05(const P& p) { run_repro(p, true); }

// ------------------------------------------------------------------ C06, C07: statistics over seeds
static double log_binom_tail(uint64_t n, uint64_t k, double p) { // log of an upper bound for P[X at least as far from np as k] (Chernoff)
    if (p <= 0) return k > 0 ? -1e9 : 0;
    if (p >= 1) return k < n ? -1e9 : 0;
    double q = (double)k / n;
    if (q == p) return 0;
    double kl = 0;
    if (q > 0) kl += q * std::log(q / p);
    if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
    return -kl * (double)n;
}
static void gen_wide(P& p, Rng& r, uint64_t idx, bool hrg, bool thorough);
static void gen_stat(P& p, Rng& r, uint64_t idx, bool hrg, bool thorough) {
    p.set("fl", "P");
    int shape = (int)(idx % 4);
    int n = pick(r, {6, 10, 16, 24, 32, 40});
    if (hrg) {
        gen_hrg(p, r, 40, false, 9, false);
        p.set("T", r.chance(0.25) ? logu(r, 0.002, 0.1) : 0.1 + 0.89 * r.uni());
        p.set("rf", pick(r, {0, 1, 2, 3, 3, 5, 6}));
        p.set("af", pick(r, {0, 0, 1, 3, 4}));
        p.set("R", 1.7 + r.uni() * 7);
        if (shape == 3) p.set("R", 5 + r.uni() * 5);
    } else {
        gen_girg(p, r, 40, 3e4, false);
        p.set("alpha", r.chance(0.15) ? 0.3 + 0.6 * r.uni() : r.chance(0.15) ? 6 + 10 * r.uni() : r.chance(0.1) ? logu(r, 16, 150) : 1.02 + 3.5 * r.uni());
        p.set("wf", (int)r.below(8));
        p.set("pf", pick(r, {0, 0, 0, 1, 4, 6}));
        int D = pick(r, {1, 1, 2, 2, 3, 4, 5}); p.set("D", D);
        double t = 1 + r.uni() * std::min(D <= 2 ? 8.0 : 6.0, 2.5 + 0.8 * std::log2(n));
        p.set("tgt", t);
    }
    p.set("n", n);
    EnvOpt o; o.fixed_team = true; o.maxthr = 8; o.allow_one = true;
    gen_env(p, r, o);
    p.m.erase("stall"); p.m.erase("cj"); p.m.erase("spur");
    gen_sched(p, r, false);
    p.set("N", thorough ? 6000 : 2500);
    if (idx % 5) p.set("tree", r.chance(hrg ? 0.95 : 0.4) ? 1 : 0);
    if (hrg && !p.i("tree")) p.set("N", 600);
    p.set("sbase", (int)r.below(100000));
    p.set("stride", hrg ? pick(r, {1, 1, 2, 7, 1000}) : pick(r, {64, 65, 100, 1000, 4096}));
    if (idx % 7 == 6 || idx % 7 == 3) gen_wide(p, r, idx, hrg, thorough);
}
static void gen_wide(P& p, Rng& r, uint64_t idx, bool hrg, bool thorough) { // larger graphs, where most cell pairs expect few edges
    int n = (int)logu(r, 150, thorough ? 1800 : 900);
    p.set("wide", 1);
    if (hrg) {
        p.set("T", 0.15 + 0.8 * r.uni());
        p.set("R", std::min(14.0, 2 * std::log((double)n) + r.uni() * 5 - 3.5));
        p.set("rf", pick(r, {0, 0, 0, 3, 6}));
        p.set("ah", 0.55 + 0.6 * r.uni());
        p.set("af", pick(r, {0, 0, 0, 1, 3}));
        p.set("sbase", (int)r.below(100000));
    } else {
        int D = pick(r, {1, 2, 3, 3, 4, 5}); p.set("D", D);
        p.set("alpha", r.chance(0.1) ? 0.5 + 0.4 * r.uni() : 1.03 + 2.2 * r.uni() * r.uni());
        p.set("wf", pick(r, {0, 1, 2, 2, 2, 3, 5}));
        p.set("pf", pick(r, {0, 0, 0, 0, 1, 6}));
        bool sparse = r.chance(0.6); // few neighbours: most cells hold one vertex or none
        double top = std::log2((sparse ? 6e6 : 2e6) / std::pow(3.0, D));
        p.set("tgt", std::min(top, std::log2((double)n) + (sparse ? 3 + r.uni() * 5 : r.uni() * 5 - 2)));
        if (sparse) { p.set("sparse", 1); p.set("most", std::max(30.0, 2.5e8 / (std::pow(3.0, D) * std::exp2(p.d("tgt"))))); }
    }
    p.set("n", n);
    p.set("N", (int)std::min(400.0, (thorough ? 150000.0 : 50000.0) * (p.i("sparse") ? 3 : 1) / n));
    if (p.i("sparse")) p.set("N", (int)std::min((double)p.i("N"), p.d("most") * (thorough ? 3 : 1)));
    p.m.erase("tree");
    if (r.chance(0.7)) p.set("tree", 1);
    (void)idx;
}
void wide_case(const P& p, bool hrg) { // sums over classes of pairs only
    GirgIn g; HrgIn h;
    int n;
    if (hrg) { h = make_hrg(p); note(hrg_desc(p, h)); n = h.rad.size(); } else { g = make_girg(p); note(girg_desc(p, g)); n = g.w.size(); }
    int N = (int)p.i("N", 50), sb = (int)p.i("sbase"), stride = (int)p.i("stride", 64);
    // class of a pair: octave of its probability, and of the two weights / of the layers of the two radii
    auto kind = [&](int u) { return hrg ? std::min(15, (int)(h.R - h.rad[u])) : std::min(15, (int)std::log2(g.w[u] / *std::min_element(g.w.begin(), g.w.end()))); };
    std::vector<int> kd(n); for (int u = 0; u < n; ++u) kd[u] = kind(u);
    const int PC = 64, KC = 256;
    struct Cl { double m = 0, v = 0, slack = 0, x = 0; };
    std::vector<Cl> cls((size_t)PC * KC), node(n), pc(PC);
    Cl all;
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
        double q = hrg ? hrg_prob(h, u, v) : girg_prob(g, u, v);
        int b = q <= 0 ? PC - 1 : std::min(PC - 1, (int)-std::log2(q)), k = std::min(kd[u], kd[v]) * 16 + std::max(kd[u], kd[v]);
        double sl = q < 1e-5 ? q : 0; // pairs like this may be left out
        for (Cl* c : {&cls[(size_t)b * KC + k], &node[u], &node[v], &pc[b], &all}) { c->m += q * N; c->v += q * (1 - q) * N; c->slack += sl * N; }
    }
    bool keep = p.i("tree"); void* tree = nullptr; Sink* sink = nullptr;
    double s2 = 0, lag = 0; double last = 0;
    std::vector<char> seen((size_t)n * n);
    for (int i = 0; i < N; ++i) {
        if (i == 0) setup_run(p, 0);
        else if (i % 16 == 0) { set_sched(make_sched(p, i)); gomp_reset(); }
        Edges e;
        int seed = p.i("neg") ? -1 - i % 3 : sb + i * stride;
        sim([&] {
            if (!keep) { e = one_run(p, hrg, &g, &h, seed, LIST, false); return; }
            if (!tree) {
                { HarnessScope x; sink = new Sink(omp_get_max_threads(), false, false); }
                tree = hrg ? Hy(p).treeNew(h.rad, h.ang, h.T, h.R, &sink->cb, false) : G(p).treeNew(g.D, g.w, g.pos, g.alpha, &sink->cb, false);
            }
            { HarnessScope x; sink->edges.clear(); }
            hrg ? Hy(p).treeRun(tree, seed) : G(p).treeRun(tree, seed);
            HarnessScope x; e = sink->edges;
        });
        for (auto& x : e) {
            int u = std::min(x.first, x.second), v = std::max(x.first, x.second);
            if (u < 0 || v >= n || u == v) violation("bad-edge", strf("edge (%d,%d)", x.first, x.second));
            char& c = seen[(size_t)u * n + v];
            if (c) violation("duplicate-edge", strf("edge (%d,%d) twice", u, v));
            c = 1;
            double q = hrg ? hrg_prob(h, u, v) : girg_prob(g, u, v);
            int b = q <= 0 ? PC - 1 : std::min(PC - 1, (int)-std::log2(q)), k = std::min(kd[u], kd[v]) * 16 + std::max(kd[u], kd[v]);
            for (Cl* d : {&cls[(size_t)b * KC + k], &node[u], &node[v], &pc[b], &all}) d->x += 1;
        }
        for (auto& x : e) seen[(size_t)std::min(x.first, x.second) * n + std::max(x.first, x.second)] = 0;
        double d = e.size() - all.m / N;
        s2 += d * d; if (i) lag += d * last; last = d;
    }
    uint64_t tests = 0;
    auto test = [&](const Cl& c, const std::string& where) {
        ++tests;
        double d = c.x > c.m ? c.x - c.m : std::max(0.0, c.m - c.slack - c.x);
        double t = c.v + d / 3 > 0 ? d * d / (2 * (c.v + d / 3)) : 0;
        if (t > 33 && d > 1e-6 * c.m) violation("wrong-probability", strf("%s: observed %.6g, expected %.6g, standard deviation %.4g, %d graphs", where.c_str(), c.x, c.m, std::sqrt(c.v), N));
    };
    test(all, "number of edges over all graphs");
    Cl rare;
    for (int b = PC - 1; b > 0; --b) { rare.m += pc[b].m; rare.v += pc[b].v; rare.slack += pc[b].slack; rare.x += pc[b].x; test(rare, strf("edges among pairs with probability at most %.4g", std::exp2(-b))); }
    for (int b = 0; b < PC; ++b) test(pc[b], strf("edges among pairs with probability between %.4g and %.4g", std::exp2(-b - 1), std::exp2(-b)));
    for (int b = 0; b < PC; ++b) for (int k = 0; k < KC; ++k) if (cls[(size_t)b * KC + k].m > 0) test(cls[(size_t)b * KC + k], strf("edges among pairs with probability between %.4g and %.4g in %s %d and %d", std::exp2(-b - 1), std::exp2(-b), hrg ? "radius layers" : "weight layers", k / 16, k % 16));
    for (int u = 0; u < n; ++u) test(node[u], strf("degree of node %d over all graphs", u));
    double var1 = all.v / N;
    if (var1 > 1) {
        double k4 = var1; // |kurtosis term| of a sum of indicators is at most its variance
        tests += 2;
        if (N >= 40 && s2 / N > var1 * (1 + 12 * std::sqrt((2 + k4 / (var1 * var1)) / N))) violation("dependent-pairs", strf("variance of the number of edges is %.5g, expected %.5g (N=%d)", s2 / N, var1, N));
        if (N >= 40 && std::fabs(lag) > 9 * var1 * std::sqrt(N)) violation("dependent-seeds", strf("numbers of edges of consecutive seeds: lag product %.4g, standard deviation %.4g", lag, var1 * std::sqrt(N)));
    }
    sh->evals = N;
    sh->nontrivial = all.m > 10;
    stat("graphs", N); stat("tests", tests); stat("pairs_measured", (uint64_t)n * (n - 1) / 2);
}
void stat_case(const P& p, bool hrg) {
    if (p.i("wide")) { wide_case(p, hrg); return; }
    GirgIn g; HrgIn h;
    int n;
    if (hrg) { h = make_hrg(p); note(hrg_desc(p, h)); n = h.rad.size(); } else { g = make_girg(p); note(girg_desc(p, g)); n = g.w.size(); }
    int N = (int)p.i("N", 1000), sb = (int)p.i("sbase"), stride = (int)p.i("stride", 64);
    int np = n * (n - 1) / 2;
    std::vector<double> pr(np); std::vector<int> pu(np), pv(np);
    std::vector<int> idx(n * n, -1);
    { int c = 0; for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) { pr[c] = hrg ? hrg_prob(h, u, v) : girg_prob(g, u, v); pu[c] = u; pv[c] = v; idx[u * n + v] = c++; } }
    size_t words = (N + 63) / 64;
    std::vector<std::vector<uint64_t>> bits(np, std::vector<uint64_t>(words));
    std::vector<uint64_t> cnt(np);
    std::vector<double> tot(N);
    bool keep = p.i("tree"); void* tree = nullptr; Sink* sink = nullptr;
    for (int i = 0; i < N; ++i) {
        if (i == 0) setup_run(p, 0);
        else if (i % 16 == 0) { set_sched(make_sched(p, i)); gomp_reset(); }
        Edges e;
        int seed = p.i("neg") ? -1 - i % 3 : sb + i * stride;
        sim([&] {
            if (!keep) { e = one_run(p, hrg, &g, &h, seed, LIST, false); return; }
            // one generator object, sampled again and again
            if (!tree) {
                { HarnessScope x; sink = new Sink(omp_get_max_threads(), false, false); }
                tree = hrg ? Hy(p).treeNew(h.rad, h.ang, h.T, h.R, &sink->cb, false) : G(p).treeNew(g.D, g.w, g.pos, g.alpha, &sink->cb, false);
            }
            { HarnessScope x; sink->edges.clear(); }
            hrg ? Hy(p).treeRun(tree, seed) : G(p).treeRun(tree, seed);
            HarnessScope x; e = sink->edges;
        });
        for (auto& x : e) {
            int u = std::min(x.first, x.second), v = std::max(x.first, x.second);
            if (u < 0 || v >= n || u == v) violation("bad-edge", strf("edge (%d,%d)", x.first, x.second));
            int c = idx[u * n + v];
            uint64_t m = 1ull << (i & 63);
            if (bits[c][i >> 6] & m) violation("duplicate-edge", strf("edge (%d,%d) twice", u, v));
            bits[c][i >> 6] |= m; cnt[c]++; tot[i] += 1;
        }
    }
    auto name = [&](int c) { return strf("pair (%d,%d) with probability %.6g", pu[c], pv[c], pr[c]); };
    const double LIM = -27; // e^-27 = 2e-12 per test, a few thousand tests per case
    uint64_t tests = 0;
    // 1. each pair
    for (int c = 0; c < np; ++c) {
        ++tests;
        double t = log_binom_tail(N, cnt[c], pr[c]);
        // below 1e-6 expected samples per cell pair the generator may leave out pairs: absolute slack
        if (t < LIM && std::fabs((double)cnt[c] / N - pr[c]) > 2e-6) violation("wrong-probability", strf("%s connected in %llu of %d graphs (log tail bound %.1f)", name(c).c_str(), (unsigned long long)cnt[c], N, t));
    }
    // 2. groups of pairs of similar probability: sums
    std::map<int, std::pair<double, double>> grp; std::map<int, double> sum;
    for (int c = 0; c < np; ++c) { if (pr[c] <= 0) continue; int b = (int)std::floor(std::log2(pr[c]) * 2); grp[b].first += pr[c] * N; grp[b].second += pr[c] * (1 - pr[c]) * N; sum[b] += cnt[c]; }
    double tm = 0, tv = 0, ts = 0;
    auto ztest = [&](double x, double m, double v, const char* what, const std::string& where) {
        ++tests;
        double d = std::fabs(x - m);
        // Bernstein
        double t = v + d / 3 > 0 ? d * d / (2 * (v + d / 3)) : 0;
        if (t > -LIM + 3 && d > 3e-6 * N * np) violation(what, strf("%s: observed %.6g, expected %.6g, standard deviation %.4g", where.c_str(), x, m, std::sqrt(v)));
    };
    for (auto& b : grp) { ztest(sum[b.first], b.second.first, b.second.second, "wrong-probability", strf("edges among pairs with probability about %.4g", std::exp2(b.first / 2.0))); tm += b.second.first; tv += b.second.second; ts += sum[b.first]; }
    ztest(ts, tm, tv, "wrong-probability", "number of edges over all graphs");
    // by node: wrong weights or positions of single nodes
    for (int u = 0; u < n; ++u) { double x = 0, m = 0, v = 0; for (int c = 0; c < np; ++c) if (pu[c] == u || pv[c] == u) { x += cnt[c]; m += pr[c] * N; v += pr[c] * (1 - pr[c]) * N; } ztest(x, m, v, "wrong-probability", strf("degree of node %d over all graphs", u)); }
    // 3. independence within a graph: all pairs of pairs
    std::vector<int> act;
    for (int c = 0; c < np; ++c) if (pr[c] * N > 60 && (1 - pr[c]) * N > 60) act.push_back(c);
    uint64_t cov = 0;
    for (size_t a = 0; a < act.size(); ++a)
        for (size_t b = a + 1; b < act.size(); ++b) {
            uint64_t both = 0;
            auto &x = bits[act[a]], &y = bits[act[b]];
            for (size_t w = 0; w < words; ++w) both += __builtin_popcountll(x[w] & y[w]);
            double pa = pr[act[a]], pb = pr[act[b]], m = N * pa * pb;
            // sum of (A-pa)(B-pb): mean 0, variance N pa(1-pa)pb(1-pb)
            double c = both - pa * cnt[act[b]] - pb * cnt[act[a]] + m, var = N * pa * (1 - pa) * pb * (1 - pb);
            ++cov;
            double t = c * c / (2 * (var + std::fabs(c) / 3));
            if (t > 33) violation("dependent-pairs", strf("%s and %s: together in %llu of %d graphs, expected %.1f (covariance %.1f, standard deviation %.1f)", name(act[a]).c_str(), name(act[b]).c_str(), (unsigned long long)both, N, m, c, std::sqrt(var)));
        }
    tests += cov;
    // 4. independence between graphs of different seeds: lagged products per pair
    for (int lag : {1, 2, 3, 4, 5, 7, 8, 16}) {
        if (lag >= N / 4) break;
        double all = 0, allv = 0;
        for (int c : act) {
            double s = 0; const double q = pr[c];
            for (int i = 0; i + lag < N; ++i) {
                double x = (bits[c][i >> 6] >> (i & 63) & 1) - q, y = (bits[c][(i + lag) >> 6] >> ((i + lag) & 63) & 1) - q;
                s += x * y;
            }
            double v = N * q * (1 - q) * q * (1 - q);
            all += s; allv += v;
            ++tests;
            if (s * s / (2 * (v + std::fabs(s) / 3)) > 33) violation("dependent-seeds", strf("%s in the graphs of seeds s and s+%d: lag product %.1f, standard deviation %.1f", name(c).c_str(), lag * stride, s, std::sqrt(v)));
        }
        ++tests;
        if (allv > 0 && all * all / (2 * (allv + std::fabs(all) / 3)) > 33) violation("dependent-seeds", strf("graphs of seeds s and s+%d: summed lag product %.1f, standard deviation %.1f", lag * stride, all, std::sqrt(allv)));
    }
    // 5. variance of the number of edges (independence of all pairs of a graph at once)
    double mean1 = tm / N, var1 = tv / N, s2 = 0, k4 = 0;
    for (int c = 0; c < np; ++c) { double q = pr[c] * (1 - pr[c]); k4 += q * (1 - 6 * q); }
    for (double t : tot) s2 += (t - mean1) * (t - mean1);
    if (var1 > 0.5) {
        double m = N * var1, v = N * (2 * var1 * var1 + std::fabs(k4));
        ++tests;
        // tails of squares are heavier than normal: 12 standard deviations
        if (std::fabs(s2 - m) > 12 * std::sqrt(v)) violation("dependent-pairs", strf("variance of the number of edges is %.5g, expected %.5g (N=%d)", s2 / N, var1, N));
    }
    sh->evals = N;
    sh->nontrivial = act.size() > 2;
    stat("graphs", N); stat("tests", tests); stat("pair_covariances", cov); stat("pairs_measured", np);
}
void gen_C06(P& p, Rng& r, uint64_t idx, bool t) { gen_stat(p, r, idx, false, t); }
void run_C06(const P& p) { stat_case(p, false); }
void gen_C07(P& p, Rng& r, uint64_t idx, bool t) { gen_stat(p, r, idx, true, t); }
void run_C07(const P& p) { stat_case(p, true); }

// ------------------------------------------------------------------ callers inside the application's own parallel regions
struct NestedCall {
    const P* p; bool hrg; const GirgIn* g; const HrgIn* h; int who, outer, seed; Api api; bool contract;
    Edges out[8]; int maxthr[8], team[8]; bool ran[8];
};
static void nested_body(void* v, int tid) {
    NestedCall& c = *(NestedCall*)v;
    if (tid >= 8 || (c.who < c.outer && tid != c.who)) return;
    HrgIn mine;
    { HarnessScope x; if (c.hrg) mine = *c.h; }
    c.maxthr[tid] = omp_get_max_threads();
    c.team[tid] = omp_get_active_level() < omp_get_max_active_levels() ? c.maxthr[tid] : 1;
    Edges e = c.hrg ? run_hrg(*c.p, mine, c.seed + tid, c.api, false, c.contract) : run_girg(*c.p, *c.g, c.seed + tid, c.api, false, c.contract);
    HarnessScope x;
    c.out[tid] = e;
    c.ran[tid] = true;
}
static Edges alone(const P& p, bool hrg, const GirgIn& g, HrgIn h, int seed, int maxthr, int team, uint64_t variant) {
    setup_run(p, variant);
    env.nthreads = {maxthr}; env.teampol = 1; env.teamk = team; env.limit = 0; env.dyn = false; env.maxlevels = 1;
    gomp_reset();
    Edges e;
    sim([&] { e = hrg ? run_hrg(p, h, seed, LIST, false) : run_girg(p, g, seed, LIST, false); });
    return e;
}
static void same_edges(const Edges& a, const Edges& b, const char* cls, const std::string& what) {
    auto x = sorted_keys(a), y = sorted_keys(b);
    if (x == y) return;
    size_t j = 0; while (j < x.size() && j < y.size() && x[j] == y[j]) ++j;
    uint64_t d = j < x.size() && (j >= y.size() || x[j] < y[j]) ? x[j] : y[j];
    violation(cls, strf("%s: %zu and %zu edges, first difference at pair (%d,%d)", what.c_str(), x.size(), y.size(), (int)(d >> 32), (int)d));
}

// ------------------------------------------------------------------ C09
void gen_C09(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    bool hrg = idx % 2;
    p.set("hrg", hrg ? 1 : 0);
    if (hrg) gen_hrg(p, r, 250, false, 10, p.s("fl") == "T"); else gen_girg(p, r, 200, p.s("fl") == "T" ? 4e4 : 1.5e5, false);
    EnvOpt o; o.fixed_team = true; if (r.chance(0.1)) o.maxthr = 64;
    int shape = (int)(idx / 2 % 5);
    if (shape == 4) o.maxthr = 8;
    gen_env(p, r, o);
    gen_sched(p, r, true);
    p.set("seed", (int)r.below(1000000));
    p.set("prof", r.chance(0.1) ? 1 : 0);
    p.set("api", r.chance(0.25) ? (int)REUSE : (int)CB);
    if (shape == 4) { p.set("outer", (int)r.range(2, 5)); p.set("who", (int)r.range(0, 8)); p.set("mlev", (int)r.range(1, 2)); if (r.chance(0.4)) p.set("thr2", (int)r.range(1, 6)); p.m.erase("lim"); p.m.erase("tpol"); p.m.erase("dyn"); }
    if (shape == 3) p.set("setthr", (int)r.range(1, 12)); // omp_set_num_threads by the caller
    (void)thorough;
    gen_huge(p, r, 0.015);
    if (idx % 100 / 2 == 36) gen_large(p, r, hrg, r.chance(0.7));
}
void run_C09(const P& p) {
    bool hrg = p.i("hrg");
    GirgIn g; HrgIn h; int n;
    if (hrg) { h = make_hrg(p); note(hrg_desc(p, h)); n = h.rad.size(); } else { g = make_girg(p); note(girg_desc(p, g)); n = g.w.size(); }
    int seed = (int)p.i("seed");
    Api api = (Api)p.i("api", CB);
    if (p.has("outer")) {
        static NestedCall c; c = NestedCall{&p, hrg, &g, &h, (int)p.i("who"), (int)p.i("outer"), seed, api, true, {}, {}, {}, {}};
        setup_run(p);
        sim([&] { gapi[(int)flavour(p)].nested(c.outer, nested_body, &c); });
        uint64_t tot = 0;
        for (int t = 0; t < c.outer; ++t) if (c.ran[t]) {
            EdgeSet s(n); check_simple(c.out[t], n, &s, "callback inside a parallel region");
            Edges ref = alone(p, hrg, g, h, seed + t, c.maxthr[t], c.team[t], 10 + t);
            same_edges(c.out[t], ref, "callback-edges", strf("callback inside a parallel region (thread %d of %d) and the list of the same call", t, c.outer));
            tot += ref.size();
        }
        sh->nontrivial = tot > 2;
        stat("edges", tot);
        return;
    }
    Edges cb, list;
    auto body = [&](Api a) { if (p.has("setthr")) omp_set_num_threads((int)p.i("setthr")); return hrg ? run_hrg(p, h, seed, a, p.i("prof"), true) : run_girg(p, g, seed, a, p.i("prof"), true); };
    setup_run(p);
    sim([&] { cb = body(api); });
    EdgeSet s(n); check_simple(cb, n, &s, "callback");
    setup_run(p, 1);
    sim([&] { list = body(LIST); });
    same_edges(cb, list, "callback-edges", "callback and list of the same call");
    sh->nontrivial = cb.size() > 2 && (p.i("thr") > 1 || p.i("setthr") > 1);
    stat("edges", cb.size());
}

// ------------------------------------------------------------------ C11
void gen_C11(P& p, Rng& r, uint64_t idx, bool thorough) {
    int shape = (int)(idx % 5);
    bool hrg = idx / 5 % 2;
    if (shape < 2 && idx / 10 % 3) shape = 4;
    p.set("fl", idx % 10 == 2 || (shape == 4 && idx % 4 == 0) || (thorough && idx % 3 == 0) ? "R" : "P");
    p.set("hrg", hrg ? 1 : 0);
    EnvOpt o; o.maxthr = 8; o.fixed_team = true; o.allow_one = false;
    gen_env(p, r, o);
    gen_sched(p, r, p.s("fl") == "R");
    if (r.chance(0.6)) { p.set("stall", 0.02); }
    p.set("is", r.next() >> 1);
    p.set("seed", (int)r.below(1000));
    // 0,1: complete graphs; 2: exactly k blocks of 2^20 edges in one thread; 3: one thread, several blocks;
    // 4: far apart cliques of about one block each, so that several threads flush at the same time
    if (shape == 4) {
        p.set("clusters", (int)r.range(2, p.s("fl") == "R" ? 3 : 5)); p.set("n", (int)r.range(1449, p.s("fl") == "R" ? 1500 : 1750));
        p.set("thr", (int)r.range(2, 6));
        for (auto k : {"tpol", "tk", "lim", "dyn"}) p.m.erase(k);
        if (r.chance(0.6)) { p.set("pol", 1); p.set("sp", 0.2 + 0.4 * r.uni()); } // change threads where they wait for the buffers' lock
        if (p.s("fl") == "R") p.set("mgap", logu(r, 1e4, 3e6));
    } else
    if (shape == 2) { p.set("exact", 1); p.set("thr", 1); p.set("n", r.chance(0.75) ? 1448 : 2048); }
    else if (shape == 3) { p.set("thr", r.chance(0.5) ? 1 : 2); p.set("n", (int)r.range(2060, 2600)); }
    else p.set("n", (int)r.range(1500, 2900));
    p.set("full", hrg ? (int)r.below(2) : (int)r.below(3));
    p.set("D", pick(r, {1, 1, 2, 3}));
}
void run_C11(const P& p) {
    bool hrg = p.i("hrg"), exact = p.i("exact");
    int n = (int)p.i("n", 1500); if (n < 2) n = 2;
    int full = (int)p.i("full");
    int S = (int)p.i("clusters", 1); if (S < 1) S = 1; // node v belongs to clique v % S
    if (S > 1) n *= S;
    Rng r(p.u("is"));
    GirgIn g; HrgIn h;
    uint64_t extra = 0; // degree of the node added to the clique
    if (exact) { uint64_t m = (uint64_t)n * (n - 1) / 2, B = 1 << 20; extra = (m + B - 1) / B * B - m; if (extra > (uint64_t)n) extra = n; }
    if (S > 1) {
        double W = 0;
        if (hrg) {
            h.R = 20; h.T = 0;
            for (int i = 0; i < n; ++i) { h.rad.push_back(17.5 + r.uni()); h.ang.push_back(6.283 * ((i % S) + 0.3) / S + 1e-8 * r.uni()); }
        } else {
            g.D = 1; g.alpha = INFINITY;
            for (int i = 0; i < n; ++i) { g.w.push_back(1 + 0.01 * r.uni()); g.pos.push_back({((i % S) + 0.3) / S + 1e-7 * r.uni()}); W += g.w.back(); }
            g.W = W;
        }
    } else if (hrg) {
        h.R = 10; h.T = 0;
        for (int i = 0; i < n; ++i) {
            bool near = !exact || i < (int)extra;
            h.rad.push_back(exact ? 4.9 : full ? 1e-3 + 4.8 * r.uni() : 4.2 + 0.7 * r.uni());
            double a = exact ? (near ? 0.0 : 3.14159) + 1e-3 * r.uni() : 6.28 * r.uni();
            h.ang.push_back(a);
        }
        if (exact) { h.rad.push_back(6); h.ang.push_back(5e-4); }
    } else if (exact) {
        g.D = 1; g.alpha = INFINITY;
        for (int i = 0; i < n; ++i) { g.w.push_back(0.6 * n); g.pos.push_back({i < (int)extra ? 0.01 * r.uni() : 0.4 + 0.01 * r.uni()}); }
        g.w.push_back(0.2 * n); g.pos.push_back({0.005});
        for (double w : g.w) g.W += w;
    } else {
        g.D = (int)p.i("D", 1);
        g.alpha = full == 0 ? 0.0 : full == 1 ? INFINITY : 2.0;
        for (int i = 0; i < n; ++i) { g.w.push_back((full ? 1.0 * n : 1.0) * (1 + r.uni())); std::vector<double> x(g.D); for (auto& c : x) c = r.uni(); g.pos.push_back(x); }
        if (full == 0) { double W = 0; for (double w : g.w) W += w; double s = W / std::exp2(3 + (int)r.below(4)); for (double& w : g.w) w *= s; }
        for (double w : g.w) g.W += w;
    }
    note(strf("%s n=%d %s%s threads=%lld", hrg ? "HRG" : "GIRG", n, S > 1 ? strf("%d cliques", S).c_str() : exact ? "exact number of blocks" : "complete graph", full ? "" : " (variant 0)", (long long)p.i("thr")));
    int N = hrg ? (int)h.rad.size() : (int)g.w.size();
    uint64_t want = S > 1 ? (uint64_t)S * (n / S) * (n / S - 1) / 2 : (uint64_t)n * (n - 1) / 2 + extra;
    Edges e;
    setup_run(p);
    sim([&] { e = hrg ? run_hrg(p, h, (int)p.i("seed"), LIST, false) : run_girg(p, g, (int)p.i("seed"), LIST, false); });
    EdgeSet s(N);
    check_simple(e, N, &s, "buffered edge list");
    if (e.size() != want) violation("edge-count", strf("the list has %zu edges, the graph has %llu (n=%d, %lld threads)", e.size(), (unsigned long long)want, N, (long long)p.i("thr")));
    for (int u = 0; u < n; ++u) for (int v = u + S; v < n; v += S) if (!s.has(u, v)) violation("missing-edge", strf("pair (%d,%d) of %s is missing", u, v, S > 1 ? "a clique" : "a complete graph"));
    if (p.i("ss") % 3 == 0) { // the callback reports the same
        Edges c;
        setup_run(p, 1);
        sim([&] { c = hrg ? run_hrg(p, h, (int)p.i("seed"), CB, false) : run_girg(p, g, (int)p.i("seed"), CB, false); });
        same_edges(e, c, "callback-edges", "list and callback");
    }
    sh->nontrivial = want > (1 << 20);
    stat("edges", want);
    stat("blocks_flushed", want >> 20);
}

// ------------------------------------------------------------------ C14
struct App { int kind, seed, setthr; GirgIn g; HrgIn h; Edges e; Vec v, v2; Mat m; double x; };
static void make_app(const P& p, int i, App& a, const GirgIn* shared) {
    Rng r(p.u("as") + i * 1000003);
    P q;
    a.kind = (int)r.below(10); a.seed = (int)r.below(100000); a.setthr = r.chance(0.3) ? (int)r.range(1, 6) : 0; a.x = 0;
    double budget = p.s("fl") == "T" ? 1e4 : 3e4;
    if (shared && r.chance(0.7)) { a.g = *shared; }
    else { gen_girg(q, r, 120, budget, false); if (q.d("alpha") == 0) q.set("alpha", 2.0); a.g = make_girg(q); }
    P q2; gen_hrg(q2, r, 140, false, 9, p.s("fl") == "T"); a.h = make_hrg(q2);
    if (p.has("outer") && a.kind > 5) a.kind = (int)r.below(6);
}
static void run_app(const P& p, App& a, const GirgIn* shared) {
    if (a.setthr) omp_set_num_threads(a.setthr);
    switch (a.kind) {
        case 0: case 1: a.e = run_girg(p, shared && shared->w == a.g.w ? *shared : a.g, a.seed, LIST, false); break;
        case 2: a.e = run_girg(p, a.g, a.seed, a.seed % 2 ? CB : REUSE, false, true); break;
        case 3: case 4: a.e = run_hrg(p, a.h, a.seed, LIST, false); break;
        case 5: a.e = run_hrg(p, a.h, a.seed, a.seed % 2 ? CB : REUSE, false, true); break;
        case 6: a.v = G(p).generateWeights(20000 + a.seed % 9000, 2.5, a.seed, true); break;
        case 7: a.m = G(p).generatePositions(20000 + a.seed % 3000, 1, a.seed, true); break;
        case 8: { auto x = Hy(p).sampleBoth(10000 + a.seed % 9000, 0.8, 12, a.seed, true); a.v = x.first; a.v2 = x.second; break; }
        case 9: { HarnessScope hs; a.v.assign(a.g.w.size(), 0); Rng r(a.seed); for (auto& w : a.v) w = 1 + r.uni() * 3; double d = std::max(1.0, a.v.size() * 0.2); if (a.v.size() < 4) break; SutScope ss; a.x = G(p).scaleWeights(a.v, d, a.g.D, a.seed % 2 ? INFINITY : 2.5); break; }
    }
}
struct NestApps { const P* p; std::vector<App>* a; const GirgIn* shared; int maxthr[8], team[8]; };
static void nest_apps(void* v, int tid) {
    NestApps& c = *(NestApps*)v;
    if (tid >= (int)c.a->size() || tid >= 8) return;
    c.maxthr[tid] = (*c.a)[tid].setthr ? (*c.a)[tid].setthr : omp_get_max_threads();
    c.team[tid] = omp_get_active_level() < omp_get_max_active_levels() ? c.maxthr[tid] : 1;
    run_app(*c.p, (*c.a)[tid], c.shared);
}
void gen_C14(P& p, Rng& r, uint64_t idx, bool thorough) {
    p.set("fl", idx % 3 == 0 ? "T" : "R");
    EnvOpt o; o.fixed_team = true; o.maxthr = 6;
    gen_env(p, r, o);
    gen_sched(p, r, true, 6000);
    p.set("apps", (int)r.range(2, thorough ? 5 : 4));
    p.set("as", r.next() >> 1);
    if (r.chance(0.5)) p.set("shared", 1);
    if (idx % 2) { p.set("outer", (int)p.i("apps")); p.set("mlev", (int)r.range(1, 2)); if (r.chance(0.4)) p.set("thr2", (int)r.range(1, 5)); for (auto k : {"lim", "tpol", "dyn"}) p.m.erase(k); }
}
void run_C14(const P& p) {
    int k = (int)p.i("apps", 2); if (k < 1) k = 1; if (k > 8) k = 8;
    GirgIn shared; bool sharing = p.i("shared");
    if (sharing) { P q; Rng r(p.u("as") ^ 77); gen_girg(q, r, 120, 1e4, false); if (q.d("alpha") == 0) q.set("alpha", 2.0); shared = make_girg(q); }
    static std::vector<App> conc; conc.resize(k);
    std::string d;
    static const char* names[] = {"girg", "girg", "girg-callback", "hrg", "hrg", "hrg-callback", "weights", "positions", "radii+angles", "scale"};
    for (int i = 0; i < k; ++i) { make_app(p, i, conc[i], sharing ? &shared : nullptr); d += std::string(i ? "," : "") + names[conc[i].kind]; }
    note(strf("%s callers: %s, threads=%lld", p.has("outer") ? "nested" : "concurrent", d.c_str(), (long long)p.i("thr")));
    std::vector<App> ref = conc;
    std::vector<int> maxthr(k), team(k);
    setup_run(p);
    if (p.has("outer")) {
        static NestApps c; c.p = &p; c.a = &conc; c.shared = sharing ? &shared : nullptr;
        memset(c.maxthr, 0, sizeof c.maxthr);
        sim([&] { G(p).nested(k, nest_apps, &c); });
        for (int i = 0; i < k; ++i) { maxthr[i] = c.maxthr[i]; team[i] = c.team[i]; if (!c.maxthr[i]) harness_error("nested caller did not run"); }
    } else sim([&] {
        std::vector<Thr*> ts;
        { HarnessScope hs; for (int i = 0; i < k; ++i) { App* a = &conc[i]; ts.push_back(spawn([&p, a, &shared, sharing] { SutScope ss; run_app(p, *a, sharing ? &shared : nullptr); })); } }
        for (auto t : ts) rt::join(t);
    });
    uint64_t edges = 0;
    for (int i = 0; i < k; ++i) {
        setup_run(p, 100 + i);
        if (p.has("outer")) { env.nthreads = {maxthr[i]}; env.teampol = 1; env.teamk = team[i]; env.maxlevels = 1; gomp_reset(); }
        sim([&] { run_app(p, ref[i], sharing ? &shared : nullptr); });
        auto &a = conc[i], &b = ref[i];
        std::string w = strf("caller %d of %d (%s) together with others and alone", i, k, names[a.kind]);
        same_edges(a.e, b.e, "influence", w);
        if (a.v != b.v || a.v2 != b.v2 || a.m != b.m || (a.x != b.x && a.kind != 9)) violation("influence", w + ": different values");
        edges += a.e.size();
    }
    sh->nontrivial = edges > 0;
    sh->evals = k;
    stat("edges", edges); stat("concurrent_calls", k);
}
