"""P24: errors are reported once, with the right code, and never swallow results."""
import ctypes as c, os, re
from dl import *
from dl import REPO, _BDIR
import gen

RULE = "distinct (clause structure, events, settings, outcome) combinations observed"
COMPILE = [("py", "shim.c", "shim.so", True), ("py", "errscript.c", "errscript.so", True)]
END, ERR, WARN, RAISE, TRY, CLEAR, RERAISE, PEEK, INFO = range(9)
APPEND, WARN_OLD, WARN_NEW, OLD, IGNORE_NEW = range(5)
NAMES = ["Success", "Debug", "Info", "Warning", "Error", "Exception", "Fatal"]
SIZE = 4096
PAD = ("".join(chr(33 + (i * 7) % 90) for i in range(97)) * 120).replace("%", "&")
_lib = None


def setup():
    global _lib, ENUM
    ENUM = {}
    src = open(os.path.join(REPO, "src/dlite-errors.h")).read()
    for n, v in re.findall(r"\b(dlite\w+)\s*=\s*(-?\d+)", src):
        ENUM[int(v)] = n
    assert len(ENUM) > 30
    _lib = c.CDLL(os.path.join(_BDIR, "errscript.so"))
    _lib.errscript.restype = c.c_void_p
    _lib.errscript.argtypes = [c.c_void_p, c.c_char_p, c.c_int, c.c_int, c.c_int, c.c_char_p]


# ---------------------------------------------------------------- model of nested blocks

class Rec:
    def __init__(self, prev):
        self.prev, self.level, self.eval, self.msg = prev, 0, 0, ""
        self.handled = self.reraise = self.state = 0


class Raised(Exception):
    pass


class Model:
    def __init__(self, override, warnmode, level, prefix):
        self.r = Rec(None)
        self.override, self.warnmode, self.prefix = override, warnmode, prefix
        self.level = level or 3
        self.log = []

    def peek(self, i):
        self.log.append(("P", i, self.r.level, self.r.eval, self.r.msg))

    def call(self):
        self.log.append(("H", 0, self.r.level, self.r.eval, self.r.msg))

    def start(self):
        """Text that a new message is added to, or None if it should be ignored."""
        if not self.r.eval:
            return ""
        return {APPEND: self.r.msg + "\n - ", WARN_OLD: "", OLD: "", WARN_NEW: None, IGNORE_NEW: None}[self.override]

    def report(self, level, ev, n):
        r = self.r
        if level < self.level:
            return
        if level == 3 and self.warnmode == 1:
            return
        if level == 3 and self.warnmode == 2:
            level = 4
        t = self.start()
        keep = None
        if ev or not r.eval or self.override in (OLD, WARN_OLD):
            r.eval = ev
        else:
            keep = r.level
        r.level = level
        if t is not None:
            t += self.prefix + ": " if self.prefix else ""
            t += "%s %d: " % (NAMES[level], ev) if ev else "%s: " % NAMES[level]
            r.msg = (t + PAD[:n])[:SIZE - 1]
        if ev and level >= 4 and r.state:
            r.reraise = ev
        if r.prev is None or level == 3:
            self.call()
        if keep is not None and keep > level:
            r.level = keep

    def run(self, block):
        for op in block:
            k = op[0]
            if k == ERR:
                self.report(4, op[1], op[2])
            elif k == WARN:
                self.report(3, 0, op[1])
            elif k == INFO:
                self.report(2, 0, op[1])
            elif k == RAISE:
                self.report(5, op[1], op[2])
                raise Raised()
            elif k == PEEK:
                self.peek(op[1])
            elif k == CLEAR:
                p = self.r.prev
                self.r.__init__(p)
            elif k == RERAISE:
                return True
            else:
                self.block(op)
        return False

    def clause(self, block):
        if self.run(block):
            self.r.reraise = self.r.eval

    def block(self, t):
        _, variant, c1, c2, brk, bl = t
        r = self.r = Rec(self.r)
        try:
            self.run(bl[0])
        except Raised:
            pass
        fall = False
        for k, code in ((1, c1), (2, c2)):
            hit = fall or r.eval == code
            fall = False
            if hit:
                r.handled, r.state = 1, 1
                self.clause(bl[k])
                fall = not brk >> k & 1
        if variant & 1 and r.eval and not r.handled:
            r.handled, r.state = 1, 1
            self.clause(bl[3])
        if variant & 2 and not r.eval:
            r.state = 2
            self.clause(bl[4])
        if variant & 4:
            r.state = 3
            self.clause(bl[5])
        # leave the block
        self.r = o = r.prev
        if r.reraise or (r.eval and not r.handled):
            ev = r.reraise or r.eval
            s = self.start()
            o.level, o.eval = r.level, ev
            if s is not None:
                o.msg = (s + r.msg)[:SIZE - 1]
            if r.level >= 4 and o.state:
                o.reraise = ev
            if r.level == 5 and o.prev:
                raise Raised()
            if not o.prev:
                self.call()


# ---------------------------------------------------------------- script generator

class Gen:
    def __init__(self, rng, long):
        self.rng, self.n, self.long = rng, 0, long

    def len(self):
        r = self.rng
        if self.long and r.random() < .5:
            return r.choice([r.randint(4060, 4110), r.randint(1000, 4000), r.randint(4096, 9000)])
        return r.randint(0, 12)

    def leaf(self, codes):
        r = self.rng
        self.n += 1
        k = r.random()
        if k < .35:
            return (ERR, r.choice(codes), self.len())
        if k < .5:
            return (WARN, self.len())
        if k < .6:
            return (INFO, self.len())
        return (PEEK, self.n)

    def ops(self, depth, codes, raiseok, handler):
        r, out = self.rng, []
        for _ in range(r.randint(0, 3)):
            k = r.random()
            if depth and k < .35:
                out.append(self.block(depth - 1, raiseok, handler))
            elif raiseok and k < .5:
                out.append((RAISE, r.choice(codes), self.len()))
                break
            elif not handler and k < .56:
                out.append((CLEAR,))
            else:
                out.append(self.leaf(codes))
        return out

    def block(self, depth, raiseok, handler):
        """`raiseok`: an exception may leave the block."""
        r = self.rng
        variant, brk = r.randrange(8), r.randrange(64)
        c1, c2 = r.choice([(1, 2), (2, 1), (3, 999), (1, 1), (999, 998), (-7, 2)])
        safe = not raiseok and variant & 1
        inner = raiseok or safe
        # errors of clauses after the try clause have codes that no block catches
        b = [self.ops(depth, [1, 2, 3, -7], inner, False)]
        for k in range(1, 6):
            o = [(PEEK, 1000 + k)] if k < 4 else []
            o += self.ops(depth, [51, 52, -60], False, True)
            if r.random() < .2 and (raiseok or not safe) and k != 4:
                o.append((RERAISE,))
            b.append(o)
        return (TRY, variant, c1, c2, brk, b)


def encode(block):
    code = []

    def emit(ops):
        at, subs = len(code), []
        for op in ops:
            if op[0] == TRY:
                subs.append((len(code) + 5, op[5]))
                code.extend([TRY, op[1], op[2], op[3], op[4]] + [0] * 6)
            elif op[0] in (WARN, INFO):
                code.extend([op[0], 0, op[1]])
            else:
                code.extend(op)
        code.append(END)
        for pos, bl in subs:
            for k, b in enumerate(bl):
                code[pos + k] = emit(b)
        return at
    emit(block)
    return code


def blocks(rng_long):
    def f(ctx, i, rng):
        g = Gen(rng, rng_long)
        prog = []
        for _ in range(rng.randint(1, 3)):
            # A root block takes care of exceptions
            prog.append(g.block(rng.randint(0, 3), False, False))
            prog.append((PEEK, 2000))
            if rng.random() < .5:
                prog.append((CLEAR,))
            elif rng.random() < .4:
                prog.append(g.leaf([1, 2, 51]))
        ov = rng.choice([APPEND, APPEND, OLD, IGNORE_NEW, WARN_OLD, WARN_NEW] if i % 5 else [APPEND])
        wm, lv = rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2, 3, 4])
        prefix = rng.choice(["", "", "prog", "p" * rng.choice([3, 300])])
        m = Model(ov, wm, lv, prefix)
        try:
            m.run(prog)
        except Raised:
            ctx.note("exception at root")
            return
        m.peek(-1)
        code = encode(prog)
        if ov in (WARN_OLD, WARN_NEW):      # these print unconditionally to stderr
            ctx.note("override warnings")
        arr = (c.c_int * len(code))(*code)
        p = _lib.errscript(c.addressof(arr), PAD.encode(), ov, wm, lv, prefix.encode())
        out = take_str(p).decode()
        log, at = [], 0
        while at < len(out):
            h = re.compile(r"(.) (-?\d+) (\d+) (-?\d+) (\d+) ").match(out, at)
            n = int(h.group(5))
            log.append((h.group(1), int(h.group(2)), int(h.group(3)), int(h.group(4)), out[h.end():h.end() + n]))
            at = h.end() + n + 1
        for k in range(max(len(log), len(m.log))):
            a = log[k] if k < len(log) else None
            b = m.log[k] if k < len(m.log) else None
            if not ctx.eq(a, b, "trace", "event %d of script %r override=%d warn=%d level=%d\nbefore: %r" % (
                    k, prog, ov, wm, lv, m.log[max(0, k - 3):k])):
                return
        ctx.sig("blk", ov, wm, lv, tuple((x[0], x[1], x[2], x[3]) for x in m.log)[:6], len(m.log))
        ctx.sample("override=%d %d events: %.150r" % (ov, len(m.log), m.log[:4]))
    return f


# ---------------------------------------------------------------- codes, messages, printing

def codes(ctx, i, rng):
    last = min(ENUM)
    for code in range(0, last, -1):
        name = C.dlite_errname(code)
        name = c.string_at(name).decode()
        want = "DLiteSuccess" if code == 0 else "DLite" + ENUM[code][5:].removesuffix("Error")
        ctx.eq(name, want, "errname")
        d = C.dlite_errdescr(code)
        ctx.check(d and c.string_at(d), "errdescr", code)
        if code:
            for s in (name, name + "Error", name + "Error: text"):
                m = mem.z(s)
                ctx.eq(C.dlite_errcode(m.p), code, "errcode", s)
        ctx.sig("code", code)
    for s in ("", "DLite", "dliteIOError", "IOError", "X" + gen.ident(rng), "DLiteXyz"):
        m = mem.z(s)
        ctx.eq(C.dlite_errcode(m.p), -1, "errcode unknown", s)
    m = mem.z("DLiteError")
    ctx.eq(C.dlite_errcode(m.p), 0, "errcode base")
    ctx.eq(c.string_at(C.dlite_errname(last - rng.randint(0, 50))), b"DLiteUndefined", "errname undefined")
    ctx.eq(c.string_at(C.dlite_errname(rng.randint(1, 99))), b"DLiteOther", "errname other")


def strip(s):
    while True:
        m = re.match(r"(?=[A-Za-z])[A-Za-z0-9]*Error:[ \t]*", s)
        if not m:
            return s
        s = s[m.end():]


def messages(ctx, i, rng):
    """Code and message of the last error(s), in C and as Python exception."""
    import dlite
    C.dlite_errclr()
    old = C.dlite_err_set_override_mode(0)
    f = libc.fopen(b"/dev/null", b"w")
    prev = C.dlite_err_set_stream(f)
    try:
        want, ev = "", 0
        for k in range(rng.randint(1, 4)):
            code = rng.randint(-35, -1)
            n = rng.choice([0, 1, rng.randint(2, 60), rng.randint(2, 60), rng.randint(4000, 4200), 6000])
            text = rng.choice(["", "", "", "ValueError: ", "DLiteKeyError:", "Error: ", "Not an Error: ", "E: "]) + PAD[:n]
            S.s_err(code, text.encode())
            want = (want + ("\n - " if want else "") + "DLite" + ENUM[code][5:] + ": " + text)[:SIZE - 1]
            ev = code
        ctx.eq(C.dlite_errval(), ev, "errval")
        got = c.string_at(C.dlite_errmsg()).decode()
        ctx.eq(got, strip(want), "errmsg")
        cls = getattr(dlite, "DLite" + ENUM[ev][5:])
        ctx.check(issubclass(cls, dlite.DLiteError), "exception class")
        try:
            dlite.errcheck()
            ctx.fail("no exception", ev)
        except Exception as e:
            ctx.check(type(e) is cls, "exception type", lambda: "%r for %d" % (type(e), ev))
            ctx.eq(e.args[0], strip(want), "exception text")
        dlite.errclr()
        ctx.eq((dlite.errval(), dlite.errmsg()), (0, ""), "clear")
        dlite.errcheck()
        ctx.sig("msg", k, ev, len(want) > 4000)
        ctx.sample("%d appended errors, code %d, %d characters" % (k + 1, ev, len(want)))
    finally:
        C.dlite_err_set_stream(prev)
        C.dlite_err_set_override_mode(old)
        libc.fclose(f)


def rd(path):
    with open(path) as f:
        return f.read()


def printing(ctx, i, rng):
    """What is printed under ignore masks, warning patterns and error levels."""
    path = os.path.join(ctx.work, "err%d-%d.txt" % (os.getpid(), i))
    f = libc.fopen(path.encode(), b"w")
    C.dlite_errclr()
    prev = C.dlite_err_set_stream(f)
    mask0 = c.cast(C._dlite_err_mask_get(), c.POINTER(c.c_int64)).contents.value
    ign, want, hide, pattern, level = set(), "", 0, None, 0
    C._dlite_err_mask_set(0)
    lv0 = C.dlite_err_set_level(0)
    C.dlite_set_warnings_hide(0, None)
    try:
        for k in range(rng.randint(5, 40)):
            op = rng.randrange(6)
            if op == 0:
                code, v = rng.randint(-35, -1), rng.choice([0, 1, 5])
                C.dlite_err_ignored_set(code, v)
                (ign.add if v else ign.discard)(code)
                for q in {code, rng.randint(-35, -1), -1}:
                    ctx.eq(C.dlite_err_ignored_get(q), int(q in ign), "ignored", (q, sorted(ign)))
            elif op == 1:
                hide, pattern = rng.randrange(2), rng.choice([None, None, "*alpha*", "*beta", "*[ab]*x*"])
                m = mem.z(pattern or "")
                C.dlite_set_warnings_hide(hide, m.p if pattern else None)
                if pattern:
                    p = c.c_void_p()
                    ctx.eq(C.dlite_get_warnings_hide(c.addressof(p)), hide, "hide")
                    ctx.eq(c.string_at(p.value).decode(), pattern, "pattern")
            elif op == 2 and rng.random() < .4:
                level = rng.choice([0, 3, 4])
                C.dlite_err_set_level(level)
                ctx.eq(C.dlite_err_get_level(), level or 3, "level")
            elif op == 3:
                t = rng.choice(["alpha", "beta", "gamma x", "is b x y", "x alpha beta"])
                C.dlite_errclr()
                m = mem.z(t)
                S.s_warn(m.p)
                ctx.eq(C.dlite_errval(), 0, "warning sets no error")
                if level <= 3:
                    match = {None: True, "*alpha*": "alpha" in t, "*beta": t.endswith("beta"),
                             "*[ab]*x*": bool(re.search("[ab].*x", "Warning: " + t))}[pattern]
                    hidden = (hide and match) if pattern is None or hide else not match
                    if not hidden:
                        want += "** Warning: %s\n" % t
            else:
                code = rng.choice(list(ign) + [rng.randint(-35, -1)])
                C.dlite_errclr()
                S.s_err(code, b"text%d" % k)
                ctx.eq(C.dlite_errval(), code, "errval with mask")
                if code not in ign:
                    want += "** DLite%s: text%d\n" % (ENUM[code][5:], k)
        ctx.eq(C._dlite_err_mask_get() and c.cast(C._dlite_err_mask_get(), c.POINTER(c.c_int64)).contents.value,
               sum(1 << -q for q in ign), "mask")
    finally:
        C.dlite_err_set_stream(prev)
        C._dlite_err_mask_set(mask0)
        C.dlite_set_warnings_hide(0, None)
        C.dlite_err_set_level(lv0)
        C.dlite_errclr()
        libc.fclose(f)
    got = rd(path)
    os.unlink(path)
    ctx.eq(got, want, "printed")
    ctx.sig("print", len(ign), hide, pattern, level)
    ctx.sample("%d lines printed, %d codes ignored, pattern %r" % (got.count("\n"), len(ign), pattern))


def pyctl(ctx, i, rng):
    """errctl, silent and HideDLiteWarnings restore everything and hide exactly what is asked for."""
    import dlite
    path = os.path.join(ctx.work, "ctl%d-%d" % (os.getpid(), i))
    C.dlite_errclr()
    f = libc.fopen((path + "-root").encode(), b"w")
    prev = C.dlite_err_set_stream(f)
    C._dlite_err_mask_set(0)
    files = [(path + "-root", f)]
    want = {path + "-root": ""}
    n = [0]

    def state():
        return (c.cast(C._dlite_err_mask_get(), c.POINTER(c.c_int64)).contents.value, C.dlite_err_get_stream(),
                tuple(dlite.get_warnings_hide()))

    def nest(depth, ign, cur):
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            n[0] += 1
            if k < .4 or depth == 0:
                code = rng.randint(-35, -1)
                C.dlite_errclr()
                S.s_err(code, b"text%d" % n[0])
                if code not in ign and cur:
                    want[cur] += "** DLite%s: text%d\n" % (ENUM[code][5:], n[0])
                continue
            before = state()
            if k < .55:
                with dlite.HideDLiteWarnings(rng.random() < .5, rng.choice([None, "*abc*"])):
                    nest(depth - 1, ign, cur)
            else:
                pick = lambda: rng.sample(range(-35, 0), rng.randint(1, 4))
                names = lambda s: [rng.choice(["DLite" + ENUM[q][5:], getattr(dlite, "DLite" + ENUM[q][5:])]) for q in s]
                h, s = pick(), pick()
                allc = set(range(-35, 0))
                mode = rng.randrange(7)
                kw, new = [
                    (dict(hide=names(h)), ign | set(h)),
                    (dict(hide=True), set(allc)),
                    (dict(hide=names(h), show=names(s)), (ign | set(h)) - set(s)),
                    (dict(show=names(s)), ign - set(s)),
                    (dict(show=True), set()),
                    (dict(show=False), set(allc)),
                    (dict(hide=names(h)[0]), ign | {h[0]}),
                ][mode]
                fn = rng.choice([None, path + "-f%d" % n[0]])
                if fn:
                    want[fn] = ""
                kw["filename"] = fn
                try:
                    with dlite.errctl(**kw):
                        if fn:
                            files.append((fn, C.dlite_err_get_stream()))
                        nest(depth - 1, new, fn)
                        ctx.sig("errctl", mode, fn is None, depth)
                        if rng.random() < .2:
                            raise KeyError("x")
                except KeyError:
                    pass
            ctx.eq(state(), before, "state restored")

    try:
        nest(3, set(), path + "-root")
    finally:
        C.dlite_err_set_stream(prev)
        C._dlite_err_mask_set(0)
        C.dlite_errclr()
        for _, fp in files:
            libc.fclose(fp)
    for fn, _ in files:
        ctx.eq(rd(fn), want[fn], "redirected output")
        os.unlink(fn)


def calls(ctx, i, rng):
    """Python calls: success leaves no error, failure raises the class of the error code."""
    import dlite
    e = gen.rand_entity(rng, maxprops=3)
    meta = gen.py_meta(e) if hasattr(gen, "py_meta") else None
    dims = [rng.randint(1, 3) for _ in e.dims]
    inst = meta(dims)
    name = e.props[0].name
    work = ctx.work
    bad = [
        (lambda: dlite.get_instance(new_uuid(rng)), "missing instance"),
        (lambda: dlite.get_instance("http://x.no/0.1/No%s" % gen.ident(rng)), "missing uri"),
        (lambda: dlite.Instance.from_url("xyzdriver://nofile?mode=r"), "bad driver"),
        (lambda: dlite.Instance.from_url("json://%s/nofile-%d.json?mode=r" % (work, i)), "missing file"),
        (lambda: dlite.Instance.from_json("{\"a\": [1, 2", id="x"), "bad json"),
        (lambda: inst.get_property("no_such_property_"), "missing property"),
        (lambda: inst.set_property("no_such_property_", 1), "set missing property"),
        (lambda: inst.get_property_by_index(99), "property index"),
        (lambda: inst.save("json://%s/nodir/x.json?mode=w" % work), "save in missing folder"),
        (lambda: dlite.Instance.from_metaid("http://x.no/0.1/None%d" % i, [1]), "missing metadata"),
        (lambda: dlite.Instance.from_metaid(meta.uri, [1] * (len(dims) + 1)), "dimension count"),
        (lambda: dlite.Storage("json", work + "/nodir/x.json", "mode=r"), "storage"),
        (lambda: dlite.Storage("json", work + "/x.json", "mode=zz"), "storage mode"),
    ]
    good = [
        (lambda: dlite.get_instance(inst.uuid), "get"), (lambda: inst.get_property(name), "getprop"),
        (lambda: inst.asjson(), "asjson"), (lambda: inst.copy(), "copy"), (lambda: inst.get_hash(), "hash"),
        (lambda: dlite.has_instance("nosuch-instance-%d" % i), "has"), (lambda: meta.asdict(), "asdict"),
    ]
    for _ in range(12):
        if rng.random() < .5:
            f, what = rng.choice(bad)
            dlite.errclr()
            try:
                f()
                ctx.check(False, "no exception", what)
            except dlite.DLiteError as ex:
                ev = dlite.errval()
                if what in ("missing instance", "missing uri"):
                    ctx.eq(type(ex).__name__, "DLiteMissingInstanceError", "exception class", what)
                else:
                    ctx.check(ev != 0, "errval after failure", what)
                    ctx.eq(type(ex).__name__, "DLite" + ENUM[-1 if ev > 0 else ev][5:], "exception class of code", (what, ev))
                    ctx.eq(ex.args[0], dlite.errmsg(), "exception message", what)
                ctx.sig("fail", what, ev)
            except Exception as ex:
                ctx.fail("other exception", "%s: %r" % (what, ex))
        else:
            f, what = rng.choice(good)
            f()
            ctx.eq((C.dlite_errval(), c.string_at(C.dlite_errmsg())), (0, b""), "error left behind", what)
            ctx.sig("ok", what)


GROUPS = [("blocks", blocks(False), 3000, 60000), ("long", blocks(True), 1200, 20000), ("codes", codes, 6, 20),
          ("messages", messages, 300, 4000), ("printing", printing, 300, 4000), ("pyctl", pyctl, 200, 3000),
          ("calls", calls, 60, 800)]
