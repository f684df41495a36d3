"""P25: independent threads do not interfere (ThreadSanitizer build, own driver lib/p25.c)."""
import os, subprocess, re
import build

RULE = "distinct pairs of operation families seen running at the same time, with thread count and initialisation mode"
BUILD = ["py", "tsan"]
COMPILE = [("py", "shim.c", "shim.so", True), ("tsan", "p25.c", "p25", False)]
FAM = ["err", "rng", "uuid4", "uuid", "sha1", "md5", "sha3", "jsmn", "jstore", "quote", "strlst", "url", "pct", "glob", "calc", "tgen", "path", "bson",
       "type", "durl", "meta", "opt", "modes", "hex"]


def run(ctx, rng, families, threads, ops, rounds, init):
    mask = sum(1 << FAM.index(f) for f in families)
    seed = rng.randrange(1, 2**40)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN", "UBSAN", "LSAN", "LD_PRELOAD", "ERR_", "DLITE"))}
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4"
    cmd = [os.path.join(build.ROOT, "tsan", "p25")] + [str(x) for x in (seed, threads, ops, rounds, init, mask)]
    if not os.path.exists(cmd[0]):
        import glob
        cmd[0] = glob.glob(os.path.join(build.ROOT, "tsan*", "**", "p25"), recursive=True)[0]
    try:
        r = subprocess.run(["setarch", "-R"] + cmd, env=env, capture_output=True, text=True, errors="replace", timeout=240, cwd=ctx.work)
    except subprocess.TimeoutExpired:
        ctx.fail("does-not-finish", cmd)
        return
    for rep in re.split(r"={18,}", r.stderr):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]*)", rep)
        if m:
            frames = re.findall(r"#\d+ (\w+) [^\n]*?([\w.-]+\.[ch]):\d+", rep)
            own = [f for f in frames if f[1] != "p25.c"]
            ctx.fail("race:%s:%s" % (m.group(1).strip().replace(" ", "-"), own[0][0] if own else "?"), rep[:3000])
    ctx.check("DONE" in r.stdout, "driver-ended-early", lambda: (r.returncode, r.stdout[-500:], r.stderr[-2000:]))
    for l in r.stdout.splitlines():
        if l.startswith(("BAD", "DUP")):
            ctx.fail("interference", l)
        elif l.startswith("DIFF"):
            ctx.fail("result-differs-from-running-alone", (l, cmd))
        elif l.startswith("PAIR"):
            ctx.sig(*(l.split()[1:] + [threads, init]))
        elif l.startswith("DONE"):
            d = dict(x.split("=") for x in l.split()[1:])
            ctx.events += int(d["events"])
            ctx.sample("events=%(events)s handled=%(handled)s pairs=%(pairs)s uuids=%(uuids)s" % d)


def g_all(ctx, i, rng):
    run(ctx, rng, FAM, rng.choice([2, 3, 4, 8]), 300, rng.choice([2, 4]), rng.choice([0, 1]))


def g_few(ctx, i, rng):
    """A few families, such that the same code runs in all threads at the same time."""
    fam = rng.sample(FAM, rng.choice([1, 2, 3]))
    if i < len(FAM):
        fam = [FAM[i]]
    run(ctx, rng, fam, rng.choice([2, 4, 8]), 200, 3, rng.choice([0, 1]))


GROUPS = [("few", g_few, 72, 600), ("all", g_all, 24, 300)]
