#include "work.h"
#include <iostream>
#include <omp.h>

using namespace rt;

GirgApi gapi[128];
HyperApi hapi[128];
bool have_flavour[128];

int pick(Rng& r, std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
double logu(Rng& r, double a, double b) { return a * std::pow(b / a, r.uni()); }

void gen_env(P& p, Rng& r, const EnvOpt& o) {
    int thr;
    double x = r.uni();
    if (x < 0.06 && o.allow_one) thr = 1;
    else if (x < 0.30) thr = 2;
    else if (x < 0.45) thr = 3;
    else if (x < 0.60) thr = 4;
    else if (x < 0.90) thr = (int)r.range(2, 8);
    else thr = (int)r.range(2, o.maxthr);
    if (thr > o.maxthr) thr = o.maxthr;
    p.set("thr", thr);
    x = r.uni();
    if (!o.faults || x < 0.55) ;
    else if (x < 0.72) { p.set("tpol", 1); p.set("tk", (int)r.range(1, thr)); }
    else if (x < 0.86 && !o.fixed_team) p.set("tpol", 2);
    else if (x < 0.93) p.set("lim", (int)r.range(1, thr));
    else if (!o.fixed_team) p.set("dyn", 1);
    if (r.chance(0.2)) p.set("mlev", (int)r.range(1, 3));
    if (r.chance(0.6)) p.set("spur", logu(r, 0.002, 0.2));
    if (r.chance(0.3)) p.set("stall", logu(r, 0.001, 0.05));
    if (r.chance(0.3)) p.set("cj", 0.2);
    p.set("fill", pick(r, {0, 0xff, 0xa5, 0x01, 0x7f, 0x80}));
    p.set("fs", r.next() >> 1);
}
void gen_huge(P& p, Rng& r, double prob) {
    if (!r.chance(prob) || p.has("outer") || p.has("apps")) return;
    int thr = (int)r.range(33, r.chance(0.5) ? 80 : 150);
    p.set("thr", thr);
    if (r.chance(0.6)) for (auto k : {"tpol", "tk", "lim", "dyn"}) p.m.erase(k);
    if (p.has("tk") && r.chance(0.7)) p.set("tk", (int)r.range(1, thr));
    if (p.has("lim") && r.chance(0.7)) p.set("lim", (int)r.range(1, thr));
    if (p.has("tgt") && r.chance(0.75)) { // a tree deep enough to have cells for all of them
        p.set("n", (int)r.range(500, 2000)); p.set("D", r.chance(0.7) ? 1 : 2); p.set("pf", 0); p.set("tgt", 9.5 + r.uni() * 2);
    }
}
void gen_sched(P& p, Rng& r, bool mem, uint64_t typical) {
    p.set("pol", (int)r.below(6));
    p.set("sp", pick(r, {2, 10, 30, 60}) / 100.0);
    if (mem && r.chance(0.6)) p.set("mgap", logu(r, 30, 20000));
    p.set("depth", (int)r.range(1, 6));
    p.set("slen", (int64_t)logu(r, 20, (double)typical * 3));
    p.set("qn", (int)r.range(1, 12));
    p.set("ss", r.next() >> 1);
}
Env make_env(const P& p) {
    Env e;
    e.nthreads = {(int)p.i("thr", 1)};
    if (p.has("thr2")) e.nthreads.push_back((int)p.i("thr2", 1));
    e.dyn = p.i("dyn"); e.limit = (int)p.i("lim"); e.maxlevels = (int)p.i("mlev", 1);
    e.teampol = (int)p.i("tpol"); e.teamk = (int)p.i("tk");
    e.spur = p.d("spur"); e.clockjump = p.d("cj"); e.yieldskip = p.d("stall");
    return e;
}
Sched make_sched(const P& p, uint64_t variant) {
    Sched s;
    s.policy = (int)p.i("pol"); s.p = p.d("sp", 0.3); s.memgap = p.d("mgap"); s.depth = (int)p.i("depth", 3);
    s.len = p.u("slen", 2000); s.quantum = (int)p.i("qn", 3);
    uint64_t x = p.u("ss", 1) + variant * 0x1234567;
    s.seed = Rng::splitmix(x);
    return s;
}
void setup_run(const P& p, uint64_t variant) {
    env = make_env(p);
    set_sched(make_sched(p, variant));
    uint64_t x = p.u("fs", 1) + variant * 77777;
    set_fault_seed(Rng::splitmix(x));
    g_fill = (int)p.i("fill", -1);
    gomp_reset();
}

struct NullBuf : std::streambuf {
    std::string text; bool keep = false;
    int overflow(int c) override { if (keep) { HarnessScope h; text.push_back((char)c); } return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if (keep) { HarnessScope h; text.append(s, n); } return n; }
};
static NullBuf* nb() { static NullBuf* b = new NullBuf; return b; }
void quiet_cout() { std::cout.rdbuf(nb()); std::cerr.rdbuf(nb()); std::clog.rdbuf(nb()); }
std::string capture_begin_end(bool begin) { nb()->keep = begin; std::string s; if (begin) nb()->text.clear(); else s = nb()->text; return s; }

// ------------------------------------------------------------------ GIRG inputs
void gen_girg(P& p, Rng& r, int maxn, double budget, bool threshold) {
    int D = pick(r, {1, 1, 2, 2, 3, 4, 5});
    p.set("D", D);
    int n = r.chance(0.12) ? (int)r.range(1, 4) : (int)logu(r, 4, maxn);
    p.set("n", n);
    p.set("wf", (int)r.below(8));
    p.set("pf", pick(r, {0, 0, 0, 1, 2, 3, 4, 5, 6}));
    p.set("is", r.next() >> 1);
    double top = std::log2(budget / std::pow(3.0, D));
    double nat = std::log2((double)n) + 1;
    double t = r.chance(0.6) ? nat + r.uni() * 6 - 4 : r.uni() * std::min(18.0, top);
    if (t > top) t = top * r.uni();
    if (r.chance(0.08)) t = -r.uni() * 6;
    if (r.chance(0.25)) t = std::floor(t); // W/w0^2 an exact power of two
    p.set("tgt", t);
    if (threshold) p.set("alpha", INFINITY);
    else {
        double a;
        switch (r.below(8)) {
            case 0: a = INFINITY; break;
            case 1: a = 0; break;
            case 2: a = 0.2 + r.uni() * 0.7; break;
            case 3: a = 1.0 + r.uni() * 0.2; break;
            case 4: a = 10 + r.uni() * 60; break;
            default: a = 1.05 + r.uni() * 5; break;
        }
        p.set("alpha", a);
    }
}
GirgIn make_girg(const P& p) {
    GirgIn g;
    g.D = (int)p.i("D", 1);
    if (g.D < 1) g.D = 1;
    if (g.D > 5) g.D = 5;
    g.alpha = p.d("alpha", INFINITY);
    int n = (int)p.i("n", 10);
    if (n < 1) n = 1;
    Rng r(p.u("is", 1)), rp(p.u("is", 1) ^ 0x5555);
    int wf = (int)p.i("wf"), pf = (int)p.i("pf");
    double ple = 2.05 + 0.9 * r.uni(), hub = std::pow(2.0, 1 + r.uni() * 9), spread = 1 + r.uni() * 12;
    for (int i = 0; i < n; ++i) {
        double w = 1, u = r.uni();
        switch (wf) {
            case 0: w = 1; break;
            case 1: w = 1 + u; break;
            case 2: w = std::pow(1 - u, -1 / (ple - 1)); if (w > n) w = n; break;
            case 3: w = u < 0.03 ? hub * (1 + r.uni()) : 1 + 0.5 * r.uni(); break;
            case 4: w = std::ldexp(1.0, (int)(u * u * spread)); break;
            case 5: w = std::exp2(u * spread); break;
            case 6: { w = std::ldexp(1.0, (int)(u * u * spread)); int k = (int)r.below(3); if (k == 1) w = std::nextafter(w, 1e300); if (k == 2 && w > 1) w = std::nextafter(w, 0); break; }
            case 7: w = u < 0.5 ? 1 : hub; break;
        }
        g.w.push_back(w);
    }
    double cx[5], sz = std::exp2(-1 - rp.uni() * 8);
    for (auto& c : cx) c = rp.uni();
    int m = 1 << rp.range(1, 6);
    const double last = std::nextafter(1.0, 0.0);
    for (int i = 0; i < n; ++i) {
        std::vector<double> x(g.D);
        for (int d = 0; d < g.D; ++d) {
            double u = rp.uni();
            switch (pf) {
                case 1: u = cx[d] + (u - 0.5) * sz; u -= std::floor(u); break;
                case 2: u = (double)(int)(u * m) / m; break;
                case 3: u = i % 3 ? u : cx[d]; break; // many coincide
                case 4: { int k = (int)rp.below(4); if (k == 0) u = 0; else if (k == 1) u = last; else if (k == 2) u = rp.uni() * 1e-3; else u = 1 - rp.uni() * 1e-3; break; }
                case 5: { u = (double)(int)(u * m) / m; int k = (int)rp.below(3); if (k == 1) u = std::nextafter(u, 0.0); if (k == 2) u = std::nextafter(u, 1.0); break; }
                case 6: if (d) u = x[0]; break; // diagonal
            }
            if (u < 0) u = 0;
            if (u >= 1) u = last;
            x[d] = u;
        }
        g.pos.push_back(x);
    }
    if (p.has("keep")) { // minimisation: only these nodes
        std::istringstream is(p.s("keep")); std::string t; Vec w; Mat q;
        while (std::getline(is, t, ',')) { size_t i = strtoull(t.c_str(), nullptr, 10); if (i < g.w.size()) { w.push_back(g.w[i]); q.push_back(g.pos[i]); } }
        if (!w.empty()) { g.w = w; g.pos = q; }
    }
    if (p.has("tgt")) {
        double W = 0, w0 = g.w[0];
        for (double w : g.w) { W += w; w0 = std::min(w0, w); }
        double s = W / (w0 * w0 * std::exp2(p.d("tgt")));
        if (p.i("wf") == 4 || p.i("wf") == 0) { // keep exact ratios: scale by a power of two when the target is integral
            int e; double f = std::frexp(s, &e);
            if (p.i("pow2s")) s = std::ldexp(f < 0.75 ? 0.5 : 1.0, e);
        }
        for (double& w : g.w) w *= s;
    }
    g.W = 0;
    for (double w : g.w) g.W += w;
    return g;
}
long double girg_ratio(const GirgIn& g, int u, int v) {
    double m = 0;
    long double ml = 0;
    for (int d = 0; d < g.D; ++d) {
        long double x = fabsl((long double)g.pos[u][d] - g.pos[v][d]);
        if (x > 0.5L) x = 1 - x;
        if (x > ml) ml = x;
    }
    (void)m;
    long double dd = 1;
    for (int d = 0; d < g.D; ++d) dd *= ml;
    long double w = (long double)g.w[u] * g.w[v] / g.W;
    if (dd == 0) return INFINITY;
    return w / dd;
}
double girg_prob(const GirgIn& g, int u, int v) {
    long double q = girg_ratio(g, u, v);
    if (std::isinf(g.alpha)) return q > 1 ? 1 : 0;
    if (g.alpha == 0) return 1;
    long double x = powl(q, (long double)g.alpha);
    return x < 1 ? (double)x : 1.0;
}

// ------------------------------------------------------------------ HRG inputs
void gen_hrg(P& p, Rng& r, int maxn, bool threshold, double maxR, bool assertsafe) {
    int n = r.chance(0.12) ? (int)r.range(1, 4) : (int)logu(r, 4, maxn);
    p.set("n", n);
    double nat = 2 * std::log((double)n + 1) + r.uni() * 3 - 2;
    double R = r.chance(0.6) ? nat : 1.6 + r.uni() * (maxR - 1.6);
    if (R < 1.6) R = 1.6 + r.uni();
    if (R > maxR) R = maxR - r.uni();
    if (r.chance(0.15)) R = std::floor(R) < 2 ? 2 : std::floor(R);
    p.set("R", R);
    p.set("rf", (int)r.below(8));
    p.set("af", pick(r, {0, 0, 0, 1, 2, 3, 4, 5}));
    p.set("ah", 0.51 + r.uni() * 1.4);
    p.set("is", r.next() >> 1);
    p.set("T", threshold ? 0.0 : r.chance(0.15) ? 0.0 : r.chance(0.3) ? logu(r, 0.005, 0.1) : 0.05 + 0.94 * r.uni());
    p.set("safe", assertsafe ? 1 : 0);
}
HrgIn make_hrg(const P& p) {
    HrgIn h;
    h.R = p.d("R", 5); h.T = p.d("T");
    int n = (int)p.i("n", 10);
    if (n < 1) n = 1;
    Rng r(p.u("is", 1));
    double ah = p.d("ah", 0.75), R = h.R;
    int rf = (int)p.i("rf"), af = (int)p.i("af");
    bool safe = p.i("safe");
    const double tau = 2 * 3.14159265358979323846;
    double c = 0.3 + 0.6 * r.uni(), ca = r.uni() * tau, sz = std::exp2(-r.uni() * 9);
    int m = 1 << r.range(1, 9);
    for (int i = 0; i < n; ++i) {
        double u = r.uni(), x = std::acosh(1 + u * (std::cosh(ah * R) - 1)) / ah;
        switch (rf) {
            case 3: x = u * R; break;
            case 4: x = u * R * 0.5; break;                    // everybody close to everybody
            case 5: x = R * c; break;                          // one circle
            case 6: x = R - u * 0.9; break;                    // outermost layer
            case 7: { int l = (int)(u * R); x = R - l; int k = (int)r.below(3); if (k == 1) x = std::nextafter(x, 0); if (k == 2) x = std::nextafter(x, 99); break; }
        }
        if (safe) { double f = (R - x) - std::floor(R - x); if (f < 1e-6 || f > 1 - 1e-6) x += 3e-5; }
        if (!(x > 1e-5)) x = 1e-5 + 1e-3 * r.uni();
        if (x >= R) x = safe ? R - 1e-5 : std::nextafter(R, 0);
        double a = r.uni() * tau;
        switch (af) {
            case 1: a = ca + (a / tau - 0.5) * sz; a -= tau * std::floor(a / tau); break;
            case 2: a = (int)(a / tau * m) * (tau / m); break;
            case 3: if (i % 3 == 0) a = ca; break;
            case 4: { int k = (int)r.below(4); a = k == 0 ? 0 : k == 1 ? std::nextafter(tau, 0) : k == 2 ? r.uni() * 1e-3 : tau - r.uni() * 1e-3; break; }
            case 5: { a = (int)(a / tau * m) * (tau / m); int k = (int)r.below(3); if (k == 1) a = std::nextafter(a, 0.0); if (k == 2) a = std::nextafter(a, 9.0); break; }
        }
        if (a < 0) a = 0;
        if (a >= tau) a = std::nextafter(tau, 0);
        h.rad.push_back(x); h.ang.push_back(a);
    }
    if (p.has("keep")) {
        std::istringstream is(p.s("keep")); std::string t; Vec w, q;
        while (std::getline(is, t, ',')) { size_t i = strtoull(t.c_str(), nullptr, 10); if (i < h.rad.size()) { w.push_back(h.rad[i]); q.push_back(h.ang[i]); } }
        if (!w.empty()) { h.rad = w; h.ang = q; }
    }
    return h;
}
HrgPair hrg_pair(const HrgIn& h, int u, int v) {
    long double r1 = h.rad[u], r2 = h.rad[v], da = (long double)h.ang[u] - h.ang[v];
    long double s = sinl(da / 2), sh2 = sinhl(r1) * sinhl(r2);
    long double cd = coshl(r1 - r2) + 2 * s * s * sh2;
    HrgPair q;
    long double cR = coshl((long double)h.R);
    long double scale = sh2 + coshl(r1) * coshl(r2) + cR;
    q.below = cd < cR;
    q.tie = fabsl(cd - cR) < 1e-13L * scale;
    q.dist = cd <= 1 ? 0 : acoshl(cd);
    return q;
}
double hrg_prob(const HrgIn& h, int u, int v) {
    auto q = hrg_pair(h, u, v);
    if (h.T == 0) return q.below;
    return (double)(1 / (1 + expl((q.dist - h.R) / (2 * (long double)h.T))));
}

// ------------------------------------------------------------------ edges
void check_simple(const Edges& e, int n, EdgeSet* out, const char* what) {
    for (auto& x : e) {
        if (x.first < 0 || x.second < 0 || x.first >= n || x.second >= n)
            violation("bad-edge", strf("%s: edge (%d,%d) has an end that is not a node (n=%d)", what, x.first, x.second, n));
        if (x.first == x.second) violation("self-loop", strf("%s: self loop at %d", what, x.first));
        if (!out->add(x.first, x.second)) violation("duplicate-edge", strf("%s: edge (%d,%d) twice", what, x.first, x.second));
    }
}
std::vector<uint64_t> sorted_keys(const Edges& e) {
    std::vector<uint64_t> k; k.reserve(e.size());
    for (auto& x : e) k.push_back(ekey(x.first, x.second));
    std::sort(k.begin(), k.end());
    return k;
}
uint64_t hash_keys(const std::vector<uint64_t>& k) { uint64_t h = k.size(); for (auto x : k) h = mix(h, x); return h; }

Sink::Sink(int maxthr, bool contract, bool yield) : maxthr(maxthr), contract(contract), yield(yield), inflight(1024), per_tid(1024) { cb.fn = hit; cb.ctx = this; }
void Sink::hit(void* self, int u, int v, int tid) {
    Sink* s = (Sink*)self;
    HarnessScope hs;
    if (s->closed) violation("callback-after-return", strf("callback (%d,%d,%d) after the generating call returned", u, v, tid));
    s->calls++;
    if (s->contract) {
        if (tid < 0 || tid >= s->maxthr) violation("callback-index", strf("callback with thread index %d, allowed are 0..%d", tid, s->maxthr - 1));
        if (s->inflight[tid]++) violation("callback-overlap", strf("two callbacks with thread index %d at the same time", tid));
        s->per_tid[tid]++;
    }
    s->edges.emplace_back(u, v);
    sched_point(K_CB);
    if (s->yield && (s->calls & 7) == 3) yield_cpu();
    if (s->contract) s->inflight[tid]--;
}
Edges run_girg(const P& p, const GirgIn& g, int seed, Api api, bool profile, bool contract) {
    auto& A = G(p);
    if (api == LIST) return A.generateEdges(g.w, g.pos, g.alpha, seed);
    Sink* s;
    { HarnessScope hs; s = new Sink(omp_get_max_threads(), contract, contract); }
    void* t = A.treeNew(g.D, g.w, g.pos, g.alpha, &s->cb, profile);
    A.treeRun(t, seed);
    if (api == REUSE) { HarnessScope h; s->edges.clear(); { SutScope ss; A.treeRun(t, seed); } }
    s->closed = true;
    A.treeFree(t);
    return s->edges;
}
Edges run_hrg(const P& p, HrgIn& h, int seed, Api api, bool profile, bool contract) {
    auto& A = Hy(p);
    if (api == LIST) return A.generateEdges(h.rad, h.ang, h.T, h.R, seed);
    Sink* s;
    { HarnessScope hs; s = new Sink(omp_get_max_threads(), contract, contract); }
    void* t = A.treeNew(h.rad, h.ang, h.T, h.R, &s->cb, profile);
    A.treeRun(t, seed);
    if (api == REUSE) { HarnessScope x; s->edges.clear(); { SutScope ss; A.treeRun(t, seed); } }
    s->closed = true;
    A.treeFree(t);
    return s->edges;
}
