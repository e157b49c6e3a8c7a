"""Replaying and minimising of failing cases."""
import json, os, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor


def replay(exe, libs, path, timeout, trace=None):
    fd, out = tempfile.mkstemp(prefix="replay-", dir=os.path.dirname(os.path.dirname(exe)))
    os.close(fd)
    try:
        cmd = [exe, "replay", "--file", path, "--libs", libs, "--out", out]
        if trace:
            cmd += ["--trace", trace]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            return None
        try:
            return json.load(open(out, errors="replace"))
        except ValueError:
            return None
    finally:
        os.unlink(out)


class CaseFile:
    def __init__(self, text):
        self.prop, self.params, self.record, self.devs, self.faults = None, {}, 1, [], []
        for l in text.split("\n"):
            k, _, rest = l.partition(" ")
            if k == "prop":
                self.prop = rest
            elif k == "param":
                a, _, v = rest.partition(" ")
                self.params[a] = v
            elif k == "record":
                self.record = int(rest)
            elif k == "dev":
                self.devs.append(rest)
            elif k == "fault":
                self.faults.append(rest)

    def text(self, comment=None):
        s = "girgs-sim-replay 1\nprop %s\n" % self.prop
        for k in sorted(self.params):
            s += "param %s %s\n" % (k, self.params[k])
        s += "record %d\n" % self.record
        if not self.record:
            s += "".join("dev %s\n" % d for d in self.devs) + "".join("fault %s\n" % f for f in self.faults)
        return s

    def copy(self):
        c = CaseFile("")
        c.prop, c.params, c.record, c.devs, c.faults = self.prop, dict(self.params), self.record, list(self.devs), list(self.faults)
        return c


class Min:
    def __init__(self, exe, libs, cls, deadline, tmp):
        self.exe, self.libs, self.cls, self.deadline, self.tmp, self.n = exe, libs, cls, deadline, tmp, 0
        self.pool = ThreadPoolExecutor(8)
        self.limit = 30.0

    def ok(self, c):
        left = self.deadline - time.time()
        if left <= 0:
            return None
        self.n += 1
        f = os.path.join(self.tmp, "try.%d" % self.n)
        with open(f, "w") as h:
            h.write(c.text())
        r = replay(self.exe, self.libs, f, min(self.limit, left + 1))
        os.unlink(f)
        return r if r and r["verdict"] == "viol" and r["class"] == self.cls else None

    def first(self, cands):
        """first candidate that still fails in the same way"""
        cands = list(cands)
        for i in range(0, len(cands), 8):
            if time.time() > self.deadline:
                return None
            rs = list(self.pool.map(self.ok, cands[i:i + 8]))
            for c, r in zip(cands[i:i + 8], rs):
                if r:
                    return c
        return None


SMALLER = {"n": 1, "size": 1, "thr": 1, "thr2": 1, "k": 1, "apps": 1, "outer": 1, "N": 100, "seed": 0, "sbase": 0, "lim": 1}
OFF = ["stall", "spur", "cj", "prof", "dyn", "tpol", "lim", "mgap", "setthr", "thr2", "fill", "tree", "neg", "short", "eintr", "tk"]


def ints(m, c, name, low):
    """shrink one number by bisection-like steps"""
    while True:
        try:
            v = int(c.params[name])
        except (KeyError, ValueError):
            return c
        if v <= low:
            return c
        cs = []
        for w in sorted({low, low + 1, v // 4, v // 2, v * 3 // 4, v - v // 8, v - 1}):
            if low <= w < v:
                d = c.copy()
                d.params[name] = str(w)
                cs.append(d)
        d = m.first(cs)
        if d is None:
            return c
        c = d


def ddmin(m, items, make):
    """smallest found sublist for which make(sublist) still fails"""
    if not items:
        return items
    if m.first([make([])]):
        return []
    n = 2
    while len(items) >= 2 and time.time() < m.deadline:
        size = max(1, (len(items) + n - 1) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        subs = [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks))]
        if n == 2:
            subs = chunks + subs
        hit = None
        for i in range(0, len(subs), 8):
            if time.time() > m.deadline:
                return items
            rs = list(m.pool.map(lambda s: m.ok(make(s)), subs[i:i + 8]))
            for s, r in zip(subs[i:i + 8], rs):
                if r:
                    hit = s
                    break
            if hit is not None:
                break
        if hit is not None:
            items = hit
            n = max(2, min(n - 1, len(items)))
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(exe, libs, prop, path, res, outdir, budget):
    t0 = time.time()
    os.makedirs(outdir, exist_ok=True)
    start = CaseFile(open(path).read())
    tmp = tempfile.mkdtemp(prefix="min-", dir=os.path.dirname(os.path.dirname(exe)))
    notes = []
    try:
        cls = res["class"]
        m = Min(exe, libs, cls, t0 + budget * 0.55, tmp)
        c = start.copy()
        if res["verdict"] == "viol" and "processor time" not in res["message"]:
            # schedule and environment first: they make the rest cheaper
            if c.params.get("pol") not in (None, "0"):
                d = c.copy()
                d.params["pol"] = "0"
                d.params.pop("mgap", None)
                e = c.copy()
                e.params["pol"] = "0"
                c = m.first([d, e]) or c
            for k in OFF:
                if k in c.params:
                    d = c.copy()
                    del d.params[k]
                    c = m.first([d]) or c
            for k in ("n", "size", "apps", "outer", "k", "thr", "N"):
                if k in c.params:
                    c = ints(m, c, k, SMALLER[k])
            # single nodes of the graph
            if "n" in c.params and ("tgt" in c.params or "rf" in c.params) and "keep" not in c.params and prop in (
                    "C01", "C02", "C03", "C04", "C05", "C08", "C09", "C10"):
                n = int(c.params["n"])
                if n <= 3000:
                    def mk(s, c=c):
                        d = c.copy()
                        d.params["keep"] = ",".join(map(str, s))
                        return d
                    nodes = [str(i) for i in range(n)]
                    if m.ok(mk(nodes)):
                        best = ddmin(m, nodes, lambda s: mk(s) if len(s) >= 2 else mk(s[:1] * 0 or nodes[:2]))
                        if len(best) < n and m.ok(mk(best)):
                            c = mk(best)
            for k in ("thr", "seed", "sbase"):
                if k in c.params:
                    c = ints(m, c, k, SMALLER[k])
            # explicit schedule and fault lists instead of seeds
            m.deadline = t0 + budget
            f = os.path.join(tmp, "c")
            open(f, "w").write(c.text())
            tr = os.path.join(tmp, "trace")
            r = replay(exe, libs, f, 200, tr)
            if r and os.path.exists(tr) and os.path.getsize(tr) < 8 << 20:
                x = CaseFile(open(tr).read())
                a, b = len(x.devs), len(x.faults)
                if m.ok(x):
                    if len(x.devs) + len(x.faults) > 0:
                        dv = ddmin(m, x.devs, lambda s: _with(x, devs=s))
                        x = _with(x, devs=dv)
                        fs = ddmin(m, x.faults, lambda s: _with(x, faults=s))
                        x = _with(x, faults=fs)
                        if dv:
                            dv = ddmin(m, x.devs, lambda s: _with(x, devs=s))
                            x = _with(x, devs=dv)
                    c = x
                    notes.append("schedule: %d of %d context switches needed, faults: %d of %d" % (len(x.devs), a, len(x.faults), b))
        final = os.path.join(outdir, "%s-%s.replay" % (prop, cls))
        for cand in (c, start):
            open(final, "w").write(cand.text())
            r1, r2 = replay(exe, libs, final, 200), replay(exe, libs, final, 200)
            if r1 and r2 and r1["verdict"] == r2["verdict"] and r1["verdict"] in ("viol", "err") and r1["class"] == r2["class"] and r1["message"] == r2["message"] and r1["hash"] == r2["hash"]:
                res = r1
                break
            notes.append("the minimised file did not replay exactly, falling back to the case as found")
        m.pool.shutdown()
        notes.append("minimised with %d runs in %.1f s" % (m.n, time.time() - t0))
        return final, res, "; ".join(notes)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _with(x, devs=None, faults=None):
    d = x.copy()
    if devs is not None:
        d.devs = devs
    if faults is not None:
        d.faults = faults
    return d
