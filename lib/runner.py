"""Run one check: build instrumented DLite, fan the cases out over worker
processes, watch them (sanitizer reports, crashes, hangs), collect the verdicts
of the monitors, match against known findings, write evidence.

usage: runner.py PXX [--tier quick|thorough] [--replay FILE] [--only GROUP[:IDX]] [--jobs N] [-v]
"""
import argparse, hashlib, importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build

HANG_S = 90          # no progress for this long -> the case is re-run alone
HANG2_S = 240        # ... and is a hang if it makes no progress for this long
MAX_CRASHES = 25


def load_check(pid):
    path = os.path.join(VERIF, "checks", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def case_list(mod, tier):
    out = []
    for g, (name, fn, nq, nt) in enumerate(mod.GROUPS):
        for i in range(nq if tier == "quick" else nt):
            out.append((g, i))
    return out


def known_findings():
    """{(property, key): text} of recorded (not repaired) findings."""
    kf = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                kf[m.group(1), m.group(2)] = m.group(3)
    return kf


SAN_RE = [
    (re.compile(r"AddressSanitizer: ([\w-]+)"), "asan"),
    (re.compile(r"runtime error: (.{0,60})"), "ubsan"),
    (re.compile(r"ThreadSanitizer: ([\w -]+)"), "tsan"),
    (re.compile(r"Assertion `(.{0,80})"), "assert"),
    (re.compile(r"Fatal Python error: (.{0,60})"), "pyfatal"),
]


def crash_kind(text, rc):
    for rx, kind in SAN_RE:
        m = rx.search(text)
        if m:
            d = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)).strip()
            return kind + ":" + re.sub(r"[^\w]+", "-", d).strip("-")[:50]
    return "exit:%s" % rc


def crash_excerpt(text):
    keep = [l for l in text.splitlines()
            if re.search(r"runtime error|Sanitizer|Assertion|^\s+#\d+ |Fatal|located|allocated by|freed by", l)]
    return "\n".join(keep[:30])[-4000:] or text[-1500:]


def py_env(mod):
    env = build.clean_env()
    variant = getattr(mod, "VARIANT", "py")
    if variant == "py":
        asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        env["LD_PRELOAD"] = asan
        env["PYTHONPATH"] = os.path.join(build.ROOT, "py", "bindings", "python") + ":" + HERE
        env["PYTHONMALLOC"] = "malloc"
        env["DLITE_USE_BUILD_ROOT"] = "yes"
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                               "max_allocation_size_mb=1500:hard_rss_limit_mb=6000:detect_odr_violation=0:"
                               "handle_abort=2:allow_user_segv_handler=0:quarantine_size_mb=64:"
                               "malloc_context_size=12:strict_string_checks=0:symbolize=1")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    else:
        env["PYTHONPATH"] = HERE
    env["PYTHONHASHSEED"] = "0"
    env.update(getattr(mod, "ENV", {}))
    return env


class Worker:
    def __init__(self, run, wid, cases):
        self.run, self.wid, self.todo = run, wid, cases
        self.proc = None
        self.n = 0

    def start(self, cases):
        self.n += 1
        base = os.path.join(self.run.work, "w%d_%d" % (self.wid, self.n))
        self.base = base
        self.cases = cases
        with open(base + ".cases", "w") as f:
            json.dump(cases, f)
        open(base + ".progress", "w").close()
        self.stderr = open(base + ".err", "wb")
        wd = base + ".d"
        os.makedirs(wd)
        env = dict(self.run.env, VERIF_WORK=wd, TMPDIR=wd)
        self.proc = subprocess.Popen(
            [build.PY, os.path.join(HERE, "worker.py"), self.run.pid, self.run.tier, str(self.run.seed),
             base], cwd=wd, env=env, stdout=self.stderr, stderr=self.stderr, stdin=subprocess.DEVNULL,
            start_new_session=True)
        self.last = None
        self.tlast = time.monotonic()

    def progress(self):
        try:
            with open(self.base + ".progress") as f:
                return f.read().strip()
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()


class Run:
    def __init__(self, pid, tier, seed, jobs, verbose):
        self.pid, self.tier, self.seed, self.jobs, self.verbose = pid, tier, seed, jobs, verbose
        self.mod = load_check(pid)
        self.fails = []          # dicts: group, case, key, detail
        self.events = 0
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self.errors = []
        self.crashes = 0
        self.cases_done = 0

    def prepare(self):
        for v in getattr(self.mod, "BUILD", ["py"]):
            build.ensure(v)
        for variant, src, out, shared in getattr(self.mod, "COMPILE", [("py", "shim.c", "shim.so", True)]):
            build.compile_c(variant, os.path.join(HERE, src), out, shared=shared)
        self.env = py_env(self.mod)
        os.makedirs(os.path.join(VERIF, "_work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=self.pid + "-", dir=os.path.join(VERIF, "_work"))

    def collect(self, w):
        p = w.base + ".out"
        if not os.path.exists(p):
            return
        for line in open(p, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["t"] == "fail":
                self.fails.append(r)
            elif r["t"] == "stat":
                self.events += r["events"]
                self.sigs.update(r["sigs"])
                self.cases_done += r["cases"]
                for s in r["samples"]:
                    if len(self.samples) < 12:
                        self.samples.append(s)
                for k, v in r["notes"].items():
                    self.notes[k] = self.notes.get(k, 0) + v
            elif r["t"] == "error":
                self.errors.append(r["text"])

    def group(self, g):
        return self.mod.GROUPS[g][0]

    def go(self, cases):
        jobs = max(1, min(self.jobs, len(cases)))
        parts = [cases[k::jobs] for k in range(jobs)]
        workers = [Worker(self, k, p) for k, p in enumerate(parts)]
        solo = {}
        for w in workers:
            w.start(w.todo)
        live = list(workers)
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w.proc.poll()
                now = time.monotonic()
                if rc is None:
                    pr = w.progress()
                    if pr != w.last:
                        w.last, w.tlast = pr, now
                    limit = HANG2_S if w.wid in solo else HANG_S
                    if now - w.tlast > limit:
                        w.kill()
                        w.stderr.close()
                        self.collect(w)
                        pos = int(pr) if pr.isdigit() else None
                        if pos is None:
                            self.errors.append("worker made no progress at start")
                            live.remove(w)
                            continue
                        rest = solo[w.wid] if w.wid in solo else w.cases[pos + 1:]
                        if w.wid in solo:
                            g, i = w.cases[pos]
                            self.fails.append(dict(t="fail", group=self.group(g), case=i,
                                                   key="hang", detail="no progress for %d s (twice)" % limit))
                            self.crashes += 1
                            del solo[w.wid]
                            if rest:
                                w.start(rest)
                            else:
                                live.remove(w)
                        else:
                            solo[w.wid] = rest
                            w.start([w.cases[pos]])
                    continue
                w.stderr.close()
                self.collect(w)
                try:
                    os.killpg(w.proc.pid, 9)
                except OSError:
                    pass
                pr = w.progress()
                done = pr == "done"
                rest = []
                if not done:
                    with open(w.base + ".err", errors="replace") as f:
                        text = f.read()
                    if pr.isdigit():
                        pos = int(pr)
                        g, i = w.cases[pos]
                        self.fails.append(dict(t="fail", group=self.group(g), case=i,
                                               key="crash:" + crash_kind(text, rc), detail=crash_excerpt(text)))
                        self.crashes += 1
                        rest = w.cases[pos + 1:]
                    else:
                        self.errors.append("worker died before its first case (rc=%s)\n%s" % (rc, text[-3000:]))
                if w.wid in solo:
                    rest = rest + solo.pop(w.wid)
                shutil.rmtree(w.base + ".d", ignore_errors=True)
                if rest and self.crashes < MAX_CRASHES:
                    w.start(rest)
                else:
                    live.remove(w)

    def finish(self, t0, full=True):
        known = known_findings()
        seen_known, viol = {}, []
        for f in self.fails:
            full_key = f["group"] if f["group"].startswith("kf-") else f["group"] + "/" + f["key"]
            if (self.pid, full_key) in known:
                seen_known.setdefault(full_key, known[self.pid, full_key])
            else:
                viol.append((full_key, f))
        uniq = {}
        for k, f in viol:
            uniq.setdefault(k, f)
        os.makedirs(os.path.join(VERIF, "_replays"), exist_ok=True)
        lines = []
        for k, f in uniq.items():
            name = "%s-%s.json" % (self.pid, hashlib.sha1(k.encode()).hexdigest()[:10])
            path = os.path.join(VERIF, "_replays", name)
            with open(path, "w") as fp:
                json.dump(dict(check=self.pid, tier=self.tier, seed=self.seed, group=f["group"],
                               case=f["case"], key=k, detail=f["detail"]), fp, indent=1)
            lines.append((path, k, f))
        if full:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            samples = [str(s)[:300] for s in self.samples] or ["none"]
            ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration",
                      coverage=dict(evaluations=self.events, distinct_nontrivial=len(self.sigs),
                                    rule=getattr(self.mod, "RULE", "distinct monitored events"),
                                    samples=samples),
                      wall_s=round(time.time() - t0, 2), violations=len(lines))
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fp:
                json.dump(ev, fp, indent=1)
        print("%s tier=%s seed=%s: %d cases, %d monitored events, %d distinct; %.1f s" % (
            self.pid, self.tier, self.seed, self.cases_done, self.events, len(self.sigs), time.time() - t0))
        if self.notes:
            print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(self.notes.items())))
        for k, text in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for path, k, f in lines:
            print("  %s (case %s[%s]):\n%s" % (k, f["group"], f["case"],
                                              "\n".join("    " + l for l in str(f["detail"]).splitlines()[:25])))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if lines:
            return 1
        if self.errors:
            print("ERROR: " + "\n".join(self.errors)[:5000])
            return 3
        if full and (not self.events or len(self.sigs) < 2):
            print("ERROR: nothing was observed (inconclusive)")
            return 4
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    tier = a.tier
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier = r["seed"], r["tier"]
    run = Run(a.pid, tier, seed, a.jobs, a.v)
    try:
        run.prepare()
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    try:
        cases = case_list(run.mod, tier)
        names = [g[0] for g in run.mod.GROUPS]
        if a.replay:
            cases = [(names.index(r["group"]), r["case"])]
        elif a.only:
            g, _, i = a.only.partition(":")
            cases = [(k, j) for k, j in cases if names[k] == g and (not i or j == int(i))]
            if not cases and i:
                cases = [(names.index(g), int(i))]
        run.go(cases)
        return run.finish(t0, full=not (a.replay or a.only))
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
