// Driver: property table, zygote that forks one child per case, batches, replay.
#include "work.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <atomic>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace rt;

#define PROP(id) void gen_##id(P&, Rng&, uint64_t, bool); void run_##id(const P&);
PROP(C01) PROP(C02) PROP(C03) PROP(C04) PROP(C05) PROP(C06) PROP(C07) PROP(C08) PROP(C09) PROP(C10) PROP(C11) PROP(C12) PROP(C13) PROP(C14) PROP(C15) PROP(C16) PROP(C17) PROP(C18) PROP(C19) PROP(C21) PROP(C22) PROP(C23) PROP(C24)
#undef PROP
#define E(id, fl) {#id, fl, gen_##id, run_##id}
const Prop props[] = {E(C01, "TRPB"), E(C02, "TRP"), E(C03, "TR"), E(C04, "TR"), E(C05, "TR"), E(C06, "P"), E(C07, "P"), E(C08, "TR"), E(C09, "TR"), E(C10, "TR"),
    E(C11, "RP"), E(C12, "TRP"), E(C13, "TRP"), E(C14, "TR"), E(C15, "TR"), E(C16, "TRP"), E(C17, "TR"), E(C18, "TP"), E(C19, "TRP"), E(C21, "P"), E(C22, "R"), E(C23, "TR"), E(C24, "R")};
#undef E
const int n_props = sizeof props / sizeof props[0];
const Prop* find_prop(const std::string& id) { for (auto& p : props) if (id == p.id) return &p; return nullptr; }

static const char* const all_stats[] = {"ties_skipped", "pairs_checked", "edges", "forced_pairs", "impossible_pairs", "runs_compared", "graphs", "tests", "pair_covariances", "pairs_measured",
    "blocks_flushed", "concurrent_calls", "race_checked_runs", "entries_sampled", "elements_sorted", "crashes", "disk_faults", "locale_set", "failures_reported", "files_complete", "refused", "cli_runs",
    "alloc_failures", "ended_process", "exceptions", "degrees_checked", "entropy_draws", "entropy_failures", "graphs_measured", "accesses_measured", "calls_compared"};

struct Case { P p; bool record = true; std::vector<Dev> devs; std::vector<FaultEv> faults; };
static int fault_kind(const std::string& s) { for (int i = 0; i < F_NUM; ++i) if (s == fault_name[i]) return i; return -1; }
static std::string case_text(const std::string& prop, const P& p, bool record, const char* trace, size_t ntrace) {
    std::string s = "girgs-sim-replay 1\nprop " + prop + "\n";
    for (auto& x : p.m) s += "param " + x.first + " " + x.second + "\n";
    s += strf("record %d\n", record ? 1 : 0);
    if (!record) s.append(trace, ntrace);
    return s;
}
static bool parse_case(const std::string& path, std::string& prop, Case& c) {
    std::ifstream f(path);
    if (!f) return false;
    std::string l; bool head = false;
    while (std::getline(f, l)) {
        std::istringstream is(l); std::string k; is >> k;
        if (k == "girgs-sim-replay") head = true;
        else if (k == "prop") is >> prop;
        else if (k == "param") { std::string a, b; is >> a; std::getline(is, b); c.p.m[a] = b.empty() ? b : b.substr(1); }
        else if (k == "record") { int x; is >> x; c.record = x; }
        else if (k == "dev") { Dev d; is >> d.step >> d.tid; c.devs.push_back(d); }
        else if (k == "fault") { std::string n; FaultEv e; is >> n >> e.idx >> e.val; e.kind = fault_kind(n); if (e.kind < 0) return false; c.faults.push_back(e); }
    }
    return head && !prop.empty();
}

static bool load(const std::string& spec) { // T=dir,R=dir
    std::istringstream is(spec); std::string t;
    while (std::getline(is, t, ',')) {
        if (t.size() < 3 || t[1] != '=') return false;
        int fl = t[0]; std::string d = t.substr(2);
        void* g = dlopen((d + "/libg.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!g) { fprintf(stderr, "%s\n", dlerror()); return false; }
        void* h = dlopen((d + "/libh.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
        auto ga = (void (*)(GirgApi*))dlsym(g, "sut_girgs_api"); auto ha = (void (*)(HyperApi*))dlsym(h, "sut_hyper_api");
        if (!ga || !ha) { fprintf(stderr, "no entry points in %s\n", d.c_str()); return false; }
        ga(&gapi[fl]); ha(&hapi[fl]);
        have_flavour[fl] = true;
    }
    return true;
}
// a case of a property in a child process of its own
static void run_child(const Prop* pr, const Case& c) {
    heap_fresh();
    init_child();
    struct rlimit rl{150, 160}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    int nul = open("/dev/null", O_RDWR);
    if (nul >= 0) { dup2(nul, 0); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2); }
    g_record = c.record; devs = c.devs; faults = c.faults;
    if (g_record) { devs.clear(); faults.clear(); }
    replay_faults();
    step_limit = 800000000ull;
    try { pr->run(c.p); }
    catch (const std::exception& e) { violation("exception", std::string("exception: ") + e.what()); }
    finish("ok", "", "");
}
static bool run_case(const Prop* pr, const Case& c) { // false: interrupted
    sh->done = 0;
    pid_t pid = fork();
    if (pid < 0) { snprintf(sh->verdict, 16, "err"); snprintf(sh->msg, 200, "fork: %s", strerror(errno)); return true; }
    if (pid == 0) { run_child(pr, c); _exit(0); }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (!sh->done) {
        snprintf(sh->verdict, 16, "err"); snprintf(sh->cls, 64, "lost");
        snprintf(sh->msg, sizeof sh->msg, "the case ended without a result (wait status 0x%x)", st);
        sh->ntrace = 0;
    }
    return true;
}
static Case gen_case(const Prop* pr, uint64_t seed, uint64_t idx, bool thorough) {
    Case c;
    uint64_t h = mix(mix(0xabcdef, seed), idx);
    for (const char* q = pr->id; *q; ++q) h = mix(h, *q);
    Rng r(h);
    pr->gen(c.p, r, idx, thorough);
    return c;
}
static void jstr(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch); else if (ch == '\n') fputs("\\n", f); else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch); else fputc(ch, f); }
    fputc('"', f);
}
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static double cpu_children() { struct rusage r; getrusage(RUSAGE_CHILDREN, &r); return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) * 1e-6; }

int main(int argc, char** argv) {
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(per | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("SIM_ASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    unsetenv("SIM_ASLR");
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) { std::string k = argv[i]; a[k.substr(0, 2) == "--" ? k.substr(2) : k] = argv[i + 1]; }
    for (auto s : all_stats) stat_names[n_stat_names++] = s;
    if (a.count("cpu")) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(a["cpu"].c_str()), &s); sched_setaffinity(0, sizeof s, &s); }
    if (!load(a["libs"])) { fprintf(stderr, "cannot load libraries\n"); return 2; }
    objects_clear();
    race_init();
    init_process();
    quiet_cout();
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    FILE* out = a.count("out") ? fopen(a["out"].c_str(), "w") : stdout;
    if (!out) { fprintf(stderr, "cannot write %s\n", a["out"].c_str()); return 2; }
    bool thorough = num("thorough", 0);
    if (mode == "gen") {
        const Prop* pr = find_prop(a["prop"]); if (!pr) return 2;
        Case c = gen_case(pr, num("seed", 1), num("index", 0), thorough);
        fputs(case_text(pr->id, c.p, true, "", 0).c_str(), out);
        fclose(out);
        return 0;
    }
    if (mode == "replay") {
        std::string id; Case c;
        if (!parse_case(a["file"], id, c)) { fprintf(stderr, "cannot read %s\n", a["file"].c_str()); return 2; }
        const Prop* pr = find_prop(id); if (!pr) return 2;
        run_case(pr, c);
        fprintf(out, "{\"verdict\":"); jstr(out, sh->verdict); fprintf(out, ",\"class\":"); jstr(out, sh->cls);
        fprintf(out, ",\"message\":"); jstr(out, sh->msg); fprintf(out, ",\"info\":"); jstr(out, sh->info);
        fprintf(out, ",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"vtime\":%llu,\"nontrivial\":%d,\"trace_lines\":%zu}\n", (unsigned long long)sh->hash, (unsigned long long)sh->steps,
                (unsigned long long)sh->switches, (unsigned long long)sh->vtime, (int)sh->nontrivial, (size_t)std::count(sh->trace, sh->trace + sh->ntrace, '\n'));
        if (a.count("trace") && strcmp(sh->verdict, "ok") && sh->ntrace + 64 < sizeof sh->trace) {
            FILE* t = fopen(a["trace"].c_str(), "w");
            if (t) { fputs(case_text(id, c.p, false, sh->trace, sh->ntrace).c_str(), t); fclose(t); }
        }
        fclose(out);
        return 0;
    }
    if (mode != "batch") { fprintf(stderr, "usage: sim batch|replay|gen ...\n"); return 2; }
    const Prop* pr = find_prop(a["prop"]); if (!pr) { fprintf(stderr, "unknown property\n"); return 2; }
    uint64_t seed = num("seed", 1), start = num("start", 0), stride = num("stride", 1), count = num("count", 1), detail = num("detail", 0);
    double cap = a.count("cap") ? strtod(a["cap"].c_str(), nullptr) : 1e9, t0 = now();
    uint64_t done = 0, evals = 0, nontriv = 0, viol = 0, err = 0, slow_us = 0, slow_idx = 0;
    std::vector<uint64_t> hashes, sched_hashes;
    std::vector<std::string> samples, bad;
    FILE* cases = a.count("cases") ? fopen(a["cases"].c_str(), "w") : nullptr;
    std::string stop = a["stop"];
    // with --queue the workers of a check take case numbers from a shared counter (count is then the number of all cases)
    std::atomic<uint64_t>* queue = nullptr;
    if (a.count("queue")) {
        int fd = open(a["queue"].c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (fd < 0 || ftruncate(fd, 8) != 0) { perror("queue"); return 2; }
        void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
        if (m == MAP_FAILED) { perror("queue"); return 2; }
        queue = (std::atomic<uint64_t>*)m;
    }
    for (uint64_t j = 0; ; ++j) {
        if (now() - t0 > cap || (!stop.empty() && access(stop.c_str(), F_OK) == 0)) break;
        uint64_t n = queue ? queue->fetch_add(1) : j;
        if (n >= count) break;
        uint64_t idx = queue ? n : start + j * stride;
        Case c = gen_case(pr, seed, idx, thorough);
        double t1 = now();
        run_case(pr, c);
        double dt = now() - t1;
        if (dt * 1e6 > slow_us) slow_us = dt * 1e6, slow_idx = idx;
        ++done;
        if (cases) fprintf(cases, "%llu %s %s %016llx %llu %.3f %s\n", (unsigned long long)idx, sh->verdict, sh->cls, (unsigned long long)sh->hash, (unsigned long long)sh->steps, detail ? dt : 0.0, sh->info);
        if (!strcmp(sh->verdict, "ok")) {
            evals += sh->evals ? sh->evals : 1;
            if (sh->nontrivial) {
                ++nontriv;
                uint64_t h = sh->hash; for (auto& x : c.p.m) { for (char q : x.first) h = mix(h, q); for (char q : x.second) h = mix(h, q); }
                hashes.push_back(h);
            }
            sched_hashes.push_back(sh->hash);
            if (samples.size() < 3 && sh->nontrivial) samples.push_back(strf("case %llu: %s; %llu steps, %llu context switches, %.3f ms simulated", (unsigned long long)idx, sh->info, (unsigned long long)sh->steps, (unsigned long long)sh->switches, sh->vtime / 1e6));
        } else {
            bool e = !strcmp(sh->verdict, "err");
            (e ? err : viol)++;
            std::string f = a["bad"] + "." + std::to_string(idx);
            if (a.count("bad")) { FILE* t = fopen(f.c_str(), "w"); if (t) { fputs(case_text(pr->id, c.p, true, "", 0).c_str(), t); fclose(t); } }
            std::string o = strf("%llu\t%s\t%s\t", (unsigned long long)idx, e ? "err" : "viol", sh->cls) + f + "\t" + sh->info + "\t" + sh->msg;
            bad.push_back(o);
            if (!num("keepgoing", 0)) { if (!stop.empty()) { FILE* t = fopen(stop.c_str(), "w"); if (t) fclose(t); } break; }
        }
    }
    if (cases) fclose(cases);
    uint64_t cov = 0; for (auto x : sh->cov) cov += x;
    fprintf(out, "{\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"errors\":%llu,\"wall\":%.2f,\"cpu\":%.2f,\"slowest\":%.2f,\"slowest_index\":%llu,\"sim_runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"vtime_ns\":%llu,\"code_points\":%llu",
            (unsigned long long)done, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)viol, (unsigned long long)err, now() - t0, cpu_children(), slow_us / 1e6, (unsigned long long)slow_idx,
            (unsigned long long)sh->sim_runs, (unsigned long long)sh->total_steps, (unsigned long long)sh->total_switches, (unsigned long long)sh->total_vtime, (unsigned long long)cov);
    fprintf(out, ",\"stats\":{"); { bool f = true; for (int i = 0; i < n_stat_names; ++i) if (sh->stat[i]) { fprintf(out, "%s\"%s\":%llu", f ? "" : ",", stat_names[i], (unsigned long long)sh->stat[i]); f = false; } }
    fprintf(out, "},\"faults\":{"); for (int i = 0; i < F_NUM; ++i) fprintf(out, "%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long)sh->ffired[i]);
    fprintf(out, "},\"fault_points\":{"); for (int i = 0; i < F_NUM; ++i) fprintf(out, "%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long)sh->fopp[i]);
    auto list = [&](const char* k, std::vector<uint64_t>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); fprintf(out, ",\"%s\":[", k); for (size_t i = 0; i < v.size(); ++i) fprintf(out, "%s\"%llx\"", i ? "," : "", (unsigned long long)v[i]); fputc(']', out); };
    fputc('}', out);
    list("hashes", hashes); list("schedules", sched_hashes);
    fprintf(out, ",\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) { if (i) fputc(',', out); jstr(out, samples[i]); }
    fprintf(out, "],\"bad\":["); for (size_t i = 0; i < bad.size(); ++i) { if (i) fputc(',', out); jstr(out, bad[i]); }
    fprintf(out, "]}\n");
    fclose(out);
    return 0;
}
