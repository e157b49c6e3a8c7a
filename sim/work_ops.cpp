// Calls of every kind into the system, shared by several properties.
#include "work.h"
#include <omp.h>
using namespace rt;

const char* op_name[] = {"girg", "girg-callback", "hrg", "hrg-callback", "weights", "positions", "radii", "angles", "radii+angles", "scale-threshold", "scale", "sort", "saveDot", "gengirg", "genhrg"};

static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.10g", x); return b; }
static std::string num(int x) { return std::to_string(x); }

Op make_op(int kind, int size, uint64_t bits, bool asserts, int maxthreads) {
    Op o; o.kind = kind;
    Rng r(bits);
    o.seed = (int)r.below(1000000);
    if (size < 1) size = 1;
    switch (kind) {
        case O_GIRG: case O_GIRG_CB: case O_SAVEDOT: {
            P q; gen_girg(q, r, std::max(size, 4), asserts ? 3e4 : 1e5, false); q.set("n", size);
            if (r.chance(0.6)) { // a tree whose depth fits the number of points, and gives every thread cells
                double t = std::log2((double)size) + 1 + r.uni() * 4 - 2, top = std::log2((asserts ? 3e4 : 1e5) / std::pow(3.0, (double)q.i("D")));
                q.set("tgt", std::min(t, top));
            }
            o.g = make_girg(q);
            if (kind == O_SAVEDOT) { int m = (int)r.below(size * 4 + 1); for (int i = 0; i < m; ++i) o.e.push_back({(int)r.below(size), (int)r.below(size)}); o.base = "/simdisk/g"; }
            break; }
        case O_HRG: case O_HRG_CB: { P q; gen_hrg(q, r, std::max(size, 4), false, 10, asserts); q.set("n", size); o.h = make_hrg(q); break; }
        case O_WEIGHTS: o.n = r.chance(0.3) ? size : 12000 + size * 120; o.a = 2.05 + 0.9 * r.uni(); break;
        case O_POSITIONS: o.n = r.chance(0.3) ? size : 12000 + size * 80; o.D = (int)r.range(1, 5); break;
        case O_RADII: case O_BOTH: o.n = r.chance(0.3) ? size : 9000 + size * 100; o.a = 0.55 + 0.6 * r.uni(); o.b = 4 + 16 * r.uni(); break;
        case O_ANGLES: o.n = r.chance(0.3) ? size : 9000 + size * 100; break;
        case O_SCALE_INF: case O_SCALE: {
            int n = std::max(size, 8); o.n = n; o.D = (int)r.range(1, 5);
            o.a = kind == O_SCALE_INF ? INFINITY : r.chance(0.2) ? 0.3 + 0.6 * r.uni() : 1.05 + 6.9 * r.uni();
            double ple = 2.1 + 0.8 * r.uni(); int wf = (int)r.below(3);
            for (int i = 0; i < n; ++i) { double u = r.uni(); double w = wf == 0 ? 1 + u : std::pow(1 - u, -1 / (ple - 1)); if (w > n / 2.0) w = n / 2.0; o.w.push_back(w); }
            o.b = 1 + r.uni() * std::min(20.0, 0.4 * n - 1); // desired degree
            break; }
        case O_SORT: {
            int n = r.chance(0.3) ? size : 132000 + size * 400;
            o.variant = pick(r, {0, 0, 1, 3, 4}); int bitsn = (int)r.range(1, o.variant == 1 ? 50 : 31);
            o.maxKey = (1ull << bitsn) - 1 - r.below(r.chance(0.5) ? 1 : (1ull << bitsn) / 2);
            for (int i = 0; i < n; ++i) o.items.push_back(Item{r.below(o.maxKey + 1), (uint32_t)i});
            break; }
        case O_GENGIRG: {
            o.n = std::max(size, 30); o.D = (int)r.range(1, 5); o.base = "/simdisk/girg"; o.want_dot = r.chance(0.5); o.want_edge = !o.want_dot || r.chance(0.7);
            o.a = 2.1 + 0.85 * r.uni(); o.b = r.chance(0.4) ? INFINITY : r.chance(0.2) ? logu(r, 5, 500) : r.chance(0.1) ? 1.01 + 0.2 * r.uni() : 1.2 + 4 * r.uni();
            // small degrees in high dimension cost 3^D cells per cell on a deep level
            if (o.D == 5) o.n = std::min(o.n, 250); else if (o.D == 4) o.n = std::min(o.n, 4000); else if (o.D == 3) o.n = std::min(o.n, 9000);
            double deg = (o.D < 4 ? 1 : o.D == 4 ? 3 : 6) + r.uni() * std::min(14.0, 0.3 * o.n - 6);
            if (o.n < 40) deg = 1 + r.uni() * 0.3 * o.n;
            int thr = (int)r.range(1, std::max(1, maxthreads));
            o.variant = thr;
            o.args = {"gengirg", "-n", num(o.n), "-d", num(o.D), "-ple", num(o.a), "-deg", num(deg), "-wseed", num((int)r.below(1000)), "-pseed", num((int)r.below(1000)), "-sseed", num((int)r.below(1000)), "-threads", num(thr), "-file", o.base};
            if (!std::isinf(o.b)) { o.args.push_back("-alpha"); o.args.push_back(num(o.b)); }
            if (o.want_dot) { o.args.push_back("-dot"); o.args.push_back("1"); }
            if (o.want_edge) { o.args.push_back("-edge"); o.args.push_back("1"); }
            break; }
        case O_GENHRG: {
            o.n = std::max(size, 60); o.base = "/simdisk/hrg"; o.want_edge = r.chance(0.8); o.want_coord = !o.want_edge || r.chance(0.6);
            o.a = 0.6 + 0.39 * r.uni(); o.b = r.chance(0.4) ? 0 : 0.05 + 0.9 * r.uni();
            bool nkr = r.chance(0.3);
            double deg = 2 + r.uni() * std::min(10.0, 0.1 * o.n);
            int thr = (int)r.range(1, std::max(1, maxthreads));
            o.variant = thr;
            o.args = {"genhrg", "-n", num(o.n), "-alpha", num(o.a), "-t", num(o.b), "-deg", num(deg), "-rseed", num((int)r.below(1000)), "-aseed", num((int)r.below(1000)), "-sseed", num((int)r.below(1000)), "-threads", num(thr), "-file", o.base};
            if (nkr) { o.args.push_back("-nkr"); o.args.push_back("1"); }
            if (o.want_edge) { o.args.push_back("-edge"); o.args.push_back("1"); }
            if (o.want_coord) { o.args.push_back("-coord"); o.args.push_back("1"); }
            break; }
    }
    return o;
}
std::string describe_op(const Op& o) {
    std::string s = op_name[o.kind];
    if (!o.args.empty()) for (size_t i = 1; i < o.args.size(); ++i) s += " " + o.args[i];
    else if (!o.g.w.empty()) s += strf(" n=%zu D=%d alpha=%g", o.g.w.size(), o.g.D, o.g.alpha);
    else if (!o.h.rad.empty()) s += strf(" n=%zu R=%g T=%g", o.h.rad.size(), o.h.R, o.h.T);
    else if (!o.items.empty()) s += strf(" n=%zu maxkey=%llu variant=%d", o.items.size(), (unsigned long long)o.maxKey, o.variant);
    else s += strf(" n=%d a=%g b=%g D=%d", o.n, o.a, o.b, o.D);
    return s;
}
static int call_cli(int (*f)(int, char**), const std::vector<std::string>& args) {
    std::vector<char*> av;
    { HarnessScope h; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr); }
    int rc;
    rc = f((int)args.size(), av.data());
    return rc;
}
void run_op(const P& p, const Op& o, Out& out, bool contract) {
    switch (o.kind) {
        case O_GIRG: out.e = run_girg(p, o.g, o.seed, LIST, false); break;
        case O_GIRG_CB: out.e = run_girg(p, o.g, o.seed, CB, false, contract); break;
        case O_HRG: { HrgIn h; { HarnessScope x; h = o.h; } out.e = run_hrg(p, h, o.seed, LIST, false); break; }
        case O_HRG_CB: { HrgIn h; { HarnessScope x; h = o.h; } out.e = run_hrg(p, h, o.seed, CB, false, contract); break; }
        case O_WEIGHTS: out.v1 = G(p).generateWeights(o.n, o.a, o.seed, true); break;
        case O_POSITIONS: out.m = G(p).generatePositions(o.n, o.D, o.seed, true); break;
        case O_RADII: out.v1 = Hy(p).sampleRadii(o.n, o.a, o.b, o.seed, true); break;
        case O_ANGLES: out.v1 = Hy(p).sampleAngles(o.n, o.seed, true); break;
        case O_BOTH: { auto x = Hy(p).sampleBoth(o.n, o.a, o.b, o.seed, true); HarnessScope h; out.v1 = x.first; out.v2 = x.second; break; }
        case O_SCALE_INF: case O_SCALE: { { HarnessScope h; out.v1 = o.w; } out.x = G(p).scaleWeights(out.v1, o.b, o.D, o.a); break; }
        case O_SORT: { { HarnessScope h; out.items = o.items; } G(p).sort(out.items, o.variant, o.maxKey); break; }
        case O_SAVEDOT: G(p).saveDot(o.g.w, o.g.pos, o.e, o.base + ".dot"); { HarnessScope h; collect_files(out); } break;
        case O_GENGIRG: out.code = call_cli(G(p).cli, o.args); { HarnessScope h; collect_files(out); } break;
        case O_GENHRG: out.code = call_cli(Hy(p).cli, o.args); { HarnessScope h; collect_files(out); } break;
    }
}
void collect_files(Out& o) { o.files.clear(); for (auto& f : disk.files) if (f.name.find('#') == std::string::npos) o.files[f.name] = f.data; }

bool parse_edges_txt(const std::string& s, int64_t* n, int64_t* m, Edges* e) {
    const char* p = s.c_str(); char* q;
    auto next = [&](int64_t* v) { *v = strtoll(p, &q, 10); if (q == p) return false; p = q; return true; };
    if (!next(n) || !next(m)) return false;
    int64_t a, b;
    while (next(&a)) { if (!next(&b)) return false; e->push_back({(int)a, (int)b}); }
    while (*p == '\n' || *p == ' ') ++p;
    return !*p && !s.empty() && s.back() == '\n';
}
bool parse_dot(const std::string& s, Vec* w, Mat* pos, Edges* e) {
    size_t i = s.find('{'), end = s.rfind('}');
    if (i == std::string::npos || end == std::string::npos) return false;
    std::istringstream is(s.substr(i + 1, end - i - 1));
    std::string l;
    while (std::getline(is, l)) {
        int a, b; double x; int k = 0;
        if (sscanf(l.c_str(), " %d -- %d", &a, &b) == 2) { e->push_back({a, b}); continue; }
        if (sscanf(l.c_str(), " %d [label=\"%lf\", pos=\"%n", &a, &x, &k) >= 2 && k > 0) {
            if (a != (int)w->size()) return false;
            w->push_back(x);
            std::vector<double> c; const char* q = l.c_str() + k; char* t;
            for (;;) { double y = strtod(q, &t); if (t == q) break; c.push_back(y); q = t; if (*q != ',') break; ++q; }
            pos->push_back(c);
            continue;
        }
        if (l.find_first_not_of(" \t") == std::string::npos || l.find("overlap") != std::string::npos) continue;
        return false;
    }
    return true;
}
bool parse_hyp(const std::string& s, Vec* r, Vec* a) {
    const char* p = s.c_str(); char* q;
    for (;;) {
        double x = strtod(p, &q); if (q == p) break; p = q;
        double y = strtod(p, &q); if (q == p) return false; p = q;
        r->push_back(x); a->push_back(y);
    }
    while (*p == '\n' || *p == ' ') ++p;
    return !*p;
}
static std::string edges_diff(const Edges& a, const Edges& b) {
    auto x = sorted_keys(a), y = sorted_keys(b);
    if (x == y) return "";
    size_t j = 0; while (j < x.size() && j < y.size() && x[j] == y[j]) ++j;
    uint64_t d = j < x.size() && (j >= y.size() || x[j] < y[j]) ? x[j] : y[j];
    return strf("%zu and %zu edges, first difference at pair (%d,%d)", x.size(), y.size(), (int)(d >> 32), (int)d);
}
std::string compare_out(const Op& o, const Out& a, const Out& b) {
    if (a.code != b.code) return strf("return values %d and %d", a.code, b.code);
    std::string s = edges_diff(a.e, b.e);
    if (!s.empty()) return s;
    auto vec = [&](const Vec& x, const Vec& y, const char* n) -> std::string {
        if (x.size() != y.size()) return strf("%s: %zu and %zu entries", n, x.size(), y.size());
        for (size_t i = 0; i < x.size(); ++i) if (memcmp(&x[i], &y[i], 8)) return strf("%s: entry %zu is %.17g and %.17g", n, i, x[i], y[i]);
        return "";
    };
    if (!(s = vec(a.v1, b.v1, op_name[o.kind])).empty()) return s;
    if (!(s = vec(a.v2, b.v2, op_name[o.kind])).empty()) return s;
    if (a.m.size() != b.m.size()) return strf("%zu and %zu entries", a.m.size(), b.m.size());
    for (size_t i = 0; i < a.m.size(); ++i) if (!(s = vec(a.m[i], b.m[i], strf("position %zu", i).c_str())).empty()) return s;
    if (memcmp(&a.x, &b.x, 8)) return strf("return values %.17g and %.17g", a.x, b.x);
    if (a.items.size() != b.items.size()) return "different number of items";
    for (size_t i = 0; i < a.items.size(); ++i) if (a.items[i].key != b.items[i].key) return strf("key at %zu: %llu and %llu", i, (unsigned long long)a.items[i].key, (unsigned long long)b.items[i].key);
    if (a.files.size() != b.files.size()) return strf("%zu and %zu files", a.files.size(), b.files.size());
    for (auto& f : a.files) {
        auto it = b.files.find(f.first);
        if (it == b.files.end()) return "file " + f.first + " missing";
        if (f.second == it->second) continue;
        Edges e1, e2; int64_t n1, m1, n2, m2;
        Vec w1, w2; Mat p1, p2;
        if (f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".txt" && parse_edges_txt(f.second, &n1, &m1, &e1) && parse_edges_txt(it->second, &n2, &m2, &e2)) {
            if (n1 != n2 || m1 != m2) return strf("file %s: headers %lld %lld and %lld %lld", f.first.c_str(), (long long)n1, (long long)m1, (long long)n2, (long long)m2);
            if (!(s = edges_diff(e1, e2)).empty()) return "file " + f.first + ": " + s;
        } else if (f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".dot" && parse_dot(f.second, &w1, &p1, &e1) && parse_dot(it->second, &w2, &p2, &e2)) {
            if (w1 != w2 || p1 != p2) return "file " + f.first + ": different nodes";
            if (!(s = edges_diff(e1, e2)).empty()) return "file " + f.first + ": " + s;
        } else return strf("file %s: different content (%zu and %zu bytes)", f.first.c_str(), f.second.size(), it->second.size());
    }
    return "";
}
