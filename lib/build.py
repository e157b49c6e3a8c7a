"""Builds the libraries of /repo's working tree for the simulator, and the simulator itself. Standard library only."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
CXX = "g++"

FLAVOURS = {
    # assertions on, memory accesses instrumented (preemption points, race and heap checks)
    "T": "-O1 -g1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -D_GLIBCXX_ASSERTIONS",
    # as released, memory accesses instrumented
    "R": "-O2 -g1 -DNDEBUG -fsanitize=thread --param tsan-instrument-func-entry-exit=0",
    # as released, not instrumented: switches at synchronisation points only (statistics, big inputs)
    "P": "-O2 -g1 -DNDEBUG",
    # as released with the BMI2 code path
    "B": "-O2 -g1 -DNDEBUG -DUSE_BMI2 -mbmi2",
}
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"
SIM_FLAGS = "-std=c++17 -O2 -g1 -fno-omit-frame-pointer"


class BuildError(Exception):
    pass


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def has_bmi2():
    try:
        return " bmi2" in open("/proc/cpuinfo").read()
    except OSError:
        return False


def _repo_files():
    fs = []
    for base in ("source/girgs", "source/hypergirgs", "source/cli"):
        for d, _, names in os.walk(os.path.join(REPO, base)):
            fs += [os.path.join(d, n) for n in names if n.endswith((".h", ".hpp", ".inl", ".cpp", ".in", ".c", ".cc"))]
    fs.append(os.path.join(REPO, "source/version.h.in"))
    return [f for f in fs if os.path.isfile(f)]


def _gen_headers(out):
    g = os.path.join(out, "gen", "girgs")
    h = os.path.join(out, "gen", "hypergirgs")
    os.makedirs(g, exist_ok=True)
    os.makedirs(h, exist_ok=True)
    for d, n, up in ((g, "girgs_api.h", "GIRGS"), (h, "hypergirgs_api.h", "HYPERGIRGS")):
        with open(os.path.join(d, n), "w") as f:
            f.write("#pragma once\n#define %s_API\n#define %s_NO_EXPORT\n#define %s_DEPRECATED\n#define %s_TEMPLATE_API\n" % (up, up, up, up))
    s = open(os.path.join(REPO, "source/version.h.in")).read()
    s = s.replace("${META_PROJECT_ID}", "GIRGS")
    s = re.sub(r"@[A-Z_]*@", "sim", s)
    s = re.sub(r"\$\{[A-Z_]*\}", "sim", s)
    with open(os.path.join(g, "girgs-version.h"), "w") as f:
        f.write(s)


def build(flavours, verbose=False):
    """returns the directory holding sim and the libraries of the wanted flavours"""
    os.makedirs(BUILD, exist_ok=True)
    flavours = [f for f in flavours if f != "B" or has_bmi2()]
    sim_src = sorted(glob.glob(os.path.join(ROOT, "sim", "*.cpp")))
    sim_hdr = sorted(glob.glob(os.path.join(ROOT, "sim", "*.h"))) + [os.path.join(ROOT, "sim/sut/api.h")]
    shim = sorted(glob.glob(os.path.join(ROOT, "sim/sut/*")))
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        simdir = os.path.join(BUILD, "sim-" + _hash(sim_src + sim_hdr, SIM_FLAGS))
        repo_files = _repo_files()
        jobs, links = [], []
        os.makedirs(simdir, exist_ok=True)
        exe = os.path.join(simdir, "sim")
        if not os.path.exists(exe):
            objs = []
            for s in sim_src:
                o = os.path.join(simdir, os.path.basename(s)[:-4] + ".o")
                objs.append(o)
                jobs.append([CXX] + SIM_FLAGS.split() + ["-I" + os.path.join(ROOT, "sim/sut"), "-c", s, "-o", o])
            links.append(([CXX, "-rdynamic"] + objs + ["-o", exe + ".tmp", "-ldl", "-lpthread"], exe))
        libs = {}
        for fl in flavours:
            key = _hash(repo_files + shim, FLAVOURS[fl])
            d = os.path.join(BUILD, "sut-%s-%s" % (fl, key))
            libs[fl] = d
            if os.path.exists(os.path.join(d, "libg.so")) and os.path.exists(os.path.join(d, "libh.so")):
                continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            _gen_headers(d)
            flags = ["-std=c++11", "-fopenmp", "-fPIC", "-fvisibility=hidden", "-w", "-DSYSTEM_LINUX"] + FLAVOURS[fl].split()
            inc = ["-I" + os.path.join(d, "gen"), "-I" + os.path.join(REPO, "source/girgs/include"),
                   "-I" + os.path.join(REPO, "source/hypergirgs/include"), "-I" + os.path.join(ROOT, "sim/sut")]
            for lib, name, cli, mainname in (("g", "girgs", "gengirg", "girgs_cli_main"), ("h", "hypergirgs", "genhrg", "hyper_cli_main")):
                objs = []
                todo = [(s, []) for s in sorted(glob.glob(os.path.join(REPO, "source", name, "source", "**", "*.cpp"), recursive=True))]
                todo += [(s, ["-Dmain=" + mainname]) for s in sorted(glob.glob(os.path.join(REPO, "source/cli", cli, "**", "*.cpp"), recursive=True))]
                todo.append((os.path.join(ROOT, "sim/sut", "girgs_shim.cpp" if lib == "g" else "hyper_shim.cpp"), []))
                if lib == "h":
                    # genhrg links girgs too (version header, bit manipulation); its objects come from the same sources
                    pass
                for i, (s, ex) in enumerate(todo):
                    o = os.path.join(d, "%s_%d_%s.o" % (lib, i, os.path.basename(s)[:-4]))
                    objs.append(o)
                    jobs.append([CXX] + flags + ex + inc + ["-c", s, "-o", o])
                so = os.path.join(d, "lib%s.so" % lib)
                wrap = [] if fl in ("P", "B") else [WRAP]
                links.append(([CXX, "-shared", "-Wl,--version-script=" + os.path.join(ROOT, "sim/sut/export.map")] + wrap + objs + ["-o", so + ".tmp"], so))
        # big ones first
        jobs.sort(key=lambda c: 0 if any("shim" in a or "work" in a for a in c) else 1)
        if jobs:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda c: _run(c, None), jobs))
        for cmd, out in links:
            _run(cmd, None)
            os.rename(out + ".tmp", out)
        # keep the build folder small
        keep = {simdir} | set(libs.values())
        for d in glob.glob(os.path.join(BUILD, "s*-*")):
            if d not in keep and os.path.isdir(d) and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    return {"exe": exe, "libs": libs, "seconds": round(time.time() - t0, 1)}


if __name__ == "__main__":
    r = build(sys.argv[1].split(",") if len(sys.argv) > 1 else list(FLAVOURS))
    print(r)
