"""Worker process: executes the cases of one check and records what the monitors saw."""
import hashlib, json, os, random, sys, traceback, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# needs a library that the sanitizer runtime refuses to load
sys.modules["minio"] = None


class Ctx:
    def __init__(self, out, group):
        self._out = out
        self.group = group
        self.events = 0
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self.cases = 0
        self.work = os.environ["VERIF_WORK"]

    def begin(self, group, case, seed, tier):
        self.group, self.case, self.seed, self.tier = group, case, seed, tier

    def fail(self, key, detail=""):
        self._out.write(json.dumps(dict(t="fail", group=self.group, case=self.case, key=key,
                                        detail=str(detail)[:4000])) + "\n")
        self._out.flush()

    def check(self, cond, key, detail=""):
        """Monitor: one observed event; violation if not cond."""
        self.events += 1
        if not cond:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(cond)

    def eq(self, got, want, key, detail=""):
        self.events += 1
        if type(got) is float and type(want) is float and got != got and want != want:
            return True
        if got != want:
            self.fail(key, "got %.700r\nwant %.700r\n%s" % (got, want, detail() if callable(detail) else detail))
            return False
        return True

    def sig(self, *a):
        self.sigs.add(int.from_bytes(hashlib.blake2b(repr(a).encode("utf8", "surrogatepass"),
                                                     digest_size=6).digest(), "big"))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:300])

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def flush(self):
        self._out.write(json.dumps(dict(t="stat", events=self.events, sigs=list(self.sigs),
                                        samples=self.samples, notes=self.notes, cases=self.cases)) + "\n")
        self._out.flush()
        self.events, self.cases, self.sigs, self.notes = 0, 0, set(), {}
        self.samples = []


def main():
    pid, tier, seed, base = sys.argv[1:5]
    with open(base + ".cases") as f:
        cases = json.load(f)
    out = open(base + ".out", "a")
    prog = os.open(base + ".progress", os.O_RDWR)

    def progress(s):
        os.pwrite(prog, (s + " " * 12)[:12].encode(), 0)

    from runner import load_check
    try:
        mod = load_check(pid)
        if hasattr(mod, "setup"):
            mod.setup()
    except Exception:
        out.write(json.dumps(dict(t="error", text=traceback.format_exc()[-3000:])) + "\n")
        out.close()
        return 5
    ctx = Ctx(out, None)
    t = time.monotonic()
    try:
        import gc
    except ImportError:
        pass
    for pos, (g, i) in enumerate(cases):
        name, fn = mod.GROUPS[g][:2]
        ctx.begin(name, i, int(seed), tier)
        progress(str(pos))
        rng = random.Random("%s:%s:%s:%s" % (seed, pid, name, i))
        try:
            fn(ctx, i, rng)
        except Exception:
            # The workloads only raise on behaviour they did not expect
            tb = traceback.format_exc()
            last = traceback.extract_tb(sys.exc_info()[2])
            here = [f for f in last if "/checks/" in f.filename] or last
            ctx.fail("exception:%s:%s" % (sys.exc_info()[0].__name__, here[-1].name), tb[-3000:])
        ctx.cases += 1
        if time.monotonic() - t > 1:
            ctx.flush()
            t = time.monotonic()
    ctx.flush()
    if hasattr(mod, "teardown"):
        mod.teardown()
    out.close()
    progress("done")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.exit(main())
