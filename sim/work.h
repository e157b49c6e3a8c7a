// Workloads: generated inputs, calls into the libraries, reference models.
#pragma once
#include "rt.h"
#include "sut/api.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using rt::Rng;

// parameters of a case; everything a case does is a function of these (and of the recorded decisions on replay)
struct P {
    std::map<std::string, std::string> m;
    bool has(const char* k) const { return m.count(k); }
    int64_t i(const char* k, int64_t d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
    uint64_t u(const char* k, uint64_t d = 0) const { auto it = m.find(k); return it == m.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
    double d(const char* k, double x = 0) const { auto it = m.find(k); return it == m.end() ? x : strtod(it->second.c_str(), nullptr); }
    std::string s(const char* k, const char* x = "") const { auto it = m.find(k); return it == m.end() ? x : it->second; }
    void set(const char* k, int64_t v) { m[k] = std::to_string(v); }
    void set(const char* k, int v) { m[k] = std::to_string(v); }
    void set(const char* k, uint64_t v) { m[k] = std::to_string(v); }
    void set(const char* k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); m[k] = b; }
    void set(const char* k, const std::string& v) { m[k] = v; }
    void set(const char* k, const char* v) { m[k] = v; }
};

struct Prop {
    const char* id;
    const char* flavours;                          // libraries it needs
    void (*gen)(P&, Rng&, uint64_t index, bool thorough); // choose the parameters of case number index
    void (*run)(const P&);                         // run it (in a child process); reports with rt::violation / rt::finish
};
extern const Prop props[];
extern const int n_props;
const Prop* find_prop(const std::string& id);

extern GirgApi gapi[128];  // by flavour letter
extern HyperApi hapi[128];
extern bool have_flavour[128];
inline char flavour(const P& p, char d = 'R') { auto s = p.s("fl"); char c = s.empty() ? d : s[0]; return have_flavour[(int)c] ? c : d; }
inline GirgApi& G(const P& p) { return gapi[(int)flavour(p)]; }
inline HyperApi& Hy(const P& p) { return hapi[(int)flavour(p)]; }

// ------------------------------------------------------------------ environment and schedule
struct EnvOpt { int maxthr = 16; bool faults = true; bool small = true; bool fixed_team = false; bool allow_one = true; };
void gen_env(P& p, Rng& r, const EnvOpt& o);
void gen_huge(P& p, Rng& r, double prob); // sometimes many more threads than cores (not for nested or concurrent callers)
void gen_sched(P& p, Rng& r, bool mem, uint64_t typical = 2000);
rt::Env make_env(const P& p);
rt::Sched make_sched(const P& p, uint64_t variant = 0);
void setup_run(const P& p, uint64_t variant = 0); // env, schedule, fault streams, fresh OpenMP state of the calling thread
template <typename F> void sim(F f) {
    rt::begin();
    { rt::SutScope s; f(); }
    rt::end();
}
void quiet_cout();                 // std::cout of the libraries goes nowhere
std::string capture_begin_end(bool begin); // capture std::cout

// ------------------------------------------------------------------ inputs
void gen_girg(P& p, Rng& r, int maxn, double budget, bool threshold);
struct GirgIn { int D = 1; double alpha = 0; Vec w; Mat pos; double W = 0; };
GirgIn make_girg(const P& p);
void gen_hrg(P& p, Rng& r, int maxn, bool threshold, double maxR, bool assertsafe);
struct HrgIn { double R = 0, T = 0; Vec rad, ang; };
HrgIn make_hrg(const P& p);

// ------------------------------------------------------------------ reference models
inline uint64_t ekey(int u, int v) { if (u > v) std::swap(u, v); return (uint64_t)(uint32_t)u << 32 | (uint32_t)v; }
// connection probability; tie: too close to a decision to be judged in the arithmetic of the program
long double girg_ratio(const GirgIn& g, int u, int v); // (w_u w_v / W) / dist^D
double girg_prob(const GirgIn& g, int u, int v);
struct HrgPair { bool tie; bool below; long double dist; };
HrgPair hrg_pair(const HrgIn& h, int u, int v);
double hrg_prob(const HrgIn& h, int u, int v);

struct EdgeSet { // n x n bits, for large n the pairs themselves
    int n; std::vector<uint64_t> b; uint64_t count = 0; bool big;
    explicit EdgeSet(int n) : n(n), b(n > 12000 ? 1 << 12 : ((uint64_t)n * n + 63) / 64), big(n > 12000) {}
    static uint64_t key(int u, int v) { if (u > v) std::swap(u, v); return ((uint64_t)u << 32 | (uint32_t)v) + 1; }
    size_t slot(uint64_t k) const { size_t m = b.size() - 1, i = (k * 0x9e3779b97f4a7c15ull) >> 20 & m; while (b[i] && b[i] != k) i = (i + 1) & m; return i; }
    bool has(int u, int v) const { if (big) return b[slot(key(u, v))] != 0; if (u > v) std::swap(u, v); uint64_t i = (uint64_t)u * n + v; return b[i >> 6] >> (i & 63) & 1; }
    bool add(int u, int v) {
        if (big) {
            if (count * 2 >= b.size()) { std::vector<uint64_t> o(b.size() * 4); o.swap(b); for (uint64_t k : o) if (k) b[slot(k)] = k; }
            size_t i = slot(key(u, v));
            if (b[i]) return false;
            b[i] = key(u, v); ++count; return true;
        }
        if (u > v) std::swap(u, v);
        uint64_t i = (uint64_t)u * n + v, m = 1ull << (i & 63);
        if (b[i >> 6] & m) return false;
        b[i >> 6] |= m; ++count; return true;
    }
};
// checks simple graph, fills the set; reports a violation
void check_simple(const Edges& e, int n, EdgeSet* out, const char* what);
std::vector<uint64_t> sorted_keys(const Edges& e);
uint64_t hash_keys(const std::vector<uint64_t>& k);

// ------------------------------------------------------------------ callback interface
struct Sink {
    Edges edges;
    int maxthr = 0;           // allowed thread indices [0,maxthr)
    bool closed = false, contract = false, yield = false;
    std::vector<int> inflight;
    std::vector<uint64_t> per_tid;
    uint64_t calls = 0;
    EdgeCb cb;
    Sink(int maxthr, bool contract = false, bool yield = false);
    static void hit(void* self, int u, int v, int tid);
};
enum Api { LIST, CB, REUSE };
Edges run_girg(const P& p, const GirgIn& g, int seed, Api api, bool profile, bool contract = false);
Edges run_hrg(const P& p, HrgIn& h, int seed, Api api, bool profile, bool contract = false);

int pick(Rng& r, std::initializer_list<int> l);
double logu(Rng& r, double a, double b);

// ------------------------------------------------------------------ one call into the system, of any kind
enum OpKind { O_GIRG, O_GIRG_CB, O_HRG, O_HRG_CB, O_WEIGHTS, O_POSITIONS, O_RADII, O_ANGLES, O_BOTH, O_SCALE_INF, O_SCALE, O_SORT, O_SAVEDOT, O_GENGIRG, O_GENHRG, O_NUM };
extern const char* op_name[];
struct Op {
    int kind = 0, seed = 0, n = 0, D = 1, variant = 0;
    double a = 0, b = 0;
    GirgIn g; HrgIn h; Vec w; Edges e; std::vector<Item> items; uint64_t maxKey = 0;
    std::vector<std::string> args; std::string base; bool want_dot = false, want_edge = false, want_coord = false;
};
struct Out {
    Edges e; Vec v1, v2; Mat m; double x = 0; std::vector<Item> items; int code = 0; bool threw = false; std::string ex; bool sorted_ok = true;
    std::map<std::string, std::string> files;
};
Op make_op(int kind, int size, uint64_t bits, bool assertions, int maxthreads);
void run_op(const P& p, const Op& op, Out& out, bool contract = false); // exceptions propagate
std::string describe_op(const Op& op);
// empty if equal (edges as sets, the rest exactly)
std::string compare_out(const Op& op, const Out& a, const Out& b);
void collect_files(Out& o);
bool parse_edges_txt(const std::string& s, int64_t* n, int64_t* m, Edges* e);
bool parse_dot(const std::string& s, Vec* w, Mat* pos, Edges* e);
bool parse_hyp(const std::string& s, Vec* r, Vec* a);
void stat_case(const P& p, bool hrg); // distribution over seeds (C06, C07, C19)
