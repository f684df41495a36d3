"""P29: file paths, glob patterns, path lists, file searches and temporary files follow their rules."""
import ctypes as c, os, re
from dl import *
import gen

RULE = "distinct (function, path form, pattern elements, list size, outcome) observations"
P, Z, I = c.c_void_p, c.c_size_t, c.c_int


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


def taken(p):
    s = c.string_at(p)
    libc.free(P(p))
    return s


# ---------------------------------------------------------------- glob

def rclass(rng):
    """A character class without ']' and its set of bytes."""
    neg = rng.random() < .3
    text, got = b"", set()
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < .4:
            a, b = sorted([rng.choice(b"abcxyz059ABZ\x80\xc3\xe5\xff"), rng.choice(b"abcxyz059ABZ\x80\xc3\xe5\xff")])
            if 93 in (a, b) or a == 93:
                continue
            text += bytes([a, 45, b])
            got |= set(range(a, b + 1))
        else:
            ch = rng.choice(b"abcxyz._ *?[\\\xc3\xff09")
            text += bytes([ch])
            got.add(ch)
    if rng.random() < .15 or not text:
        text += b"-"
        got.add(45)
    if not neg and text[:1] == b"^":
        return rclass(rng)
    got.discard(0)
    return (b"[^" if neg else b"[") + text + b"]", (set(range(1, 256)) - got) if neg else got


def rpattern(rng):
    """A glob pattern, the corresponding regular expression and a string likely to match."""
    pat, rx, s = b"", b"", b""
    stars = 0
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        k = rng.randrange(7)
        lit = rng.choice(b"abcxyz./_-0Z \xc3\xa5\xff{}()+^$|")
        if k == 0 and stars < 4:
            pat += b"*"
            rx += b"(?:.|\n)*"
            s += bytes(rng.choice(b"abcxyz.\xc3") for _ in range(rng.randint(0, 4)))
            stars += 1
        elif k == 1:
            pat += b"?"
            rx += b"(?:.|\n)"
            s += bytes([lit])
        elif k == 2:
            t, got = rclass(rng)
            pat += t
            rx += b"[" + b"".join(b"\\x%02x" % g for g in sorted(got)) + b"]" if got else b"(?!)"
            s += bytes([rng.choice(sorted(got) or [65])])
        elif k == 3:
            lit = rng.choice(b"*?[]\\ab\xe5")
            pat += b"\\" + bytes([lit])
            rx += re.escape(bytes([lit]))
            s += bytes([lit])
        else:
            pat += bytes([lit])
            rx += re.escape(bytes([lit]))
            s += bytes([lit])
    return pat, rx, s


def mutate(rng, s):
    s = bytearray(s)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.randrange(3)
        i = rng.randint(0, len(s))
        if k == 0:
            s[i:i] = bytes([rng.choice(b"abcxyz./*?]\xc3\xff\x80")])
        elif k == 1:
            del s[i:i+1]
        elif s:
            s[min(i, len(s)-1)] = rng.choice(b"abcxyz]-^\xc3\xa6\xfe")
    return bytes(s)


def g_glob(ctx, i, rng):
    f = fn("globmatch", I, P, P)
    for _ in range(150):
        pat, rx, s = rpattern(rng)
        s = mutate(rng, s)
        bad = None
        if rng.random() < .08:                        # unfinished patterns never match
            bad = rng.choice([b"[", b"[a-c", b"[^x", b"\\"])
            if bad == b"\\" or True:
                pat += bad
        want = bad is None and re.fullmatch(rx, s) is not None
        pz, sz = mem.z(pat), mem.z(s)
        r = f(pz.p, sz.p)
        ctx.eq(r == 0, want, "globmatch", (pat, s))
        ctx.sig("glob", want, b"*" in pat, b"?" in pat, b"[^" in pat, b"[" in pat, b"\\" in pat, any(b > 127 for b in s), bad)
    ctx.sample("globmatch(%r, %r) -> %d" % (pat, s, r))


# ---------------------------------------------------------------- path functions

def isalpha(ch):
    return chr(ch).isalpha() and ch < 128


def isabs(p):
    return p[:1] in (b"/", b"\\") if p[:1] and p[:1] in b"/\\" else len(p) >= 2 and isalpha(p[0]) and p[1:2] == b":"


def iswin(p):
    if len(p) > 2 and p[:2] == b"\\\\" and p[2:3] != b"\\":
        return True
    return len(p) >= 2 and isalpha(p[0]) and p[1:2] == b":" and not (len(p) >= 4 and p[2:4] == b"//")


def join(sep, parts):
    out = b""
    for k, p in enumerate(parts):
        if k and isabs(p):
            out = p
        elif k and out and not out.endswith(sep):
            out += sep + p
        else:
            out += p
    return out


def nextpaths(s, seps):
    """The paths in `s` as fu_nextpath() documents them."""
    out, pos = [], 0
    sset = seps if seps is not None else b";:"
    while True:
        while pos < len(s) and s[pos] in sset:
            pos += 1
        p = s[pos:]
        if seps is not None:
            n = next((k for k, ch in enumerate(p) if ch in sset), len(p))
        else:
            skip = 0
            m = re.match(rb"[A-Za-z]+", p)
            if m and p[m.end():m.end()+1] == b":":
                if m.end() == 1:
                    skip = 2
                elif p[m.end():m.end()+3] == b"://" and p[m.end()+3:m.end()+4].isalpha():
                    skip = m.end() + 3
            n = next((k for k, ch in enumerate(p) if ch == 59 or ch == 58 and k >= skip), len(p))
        out.append(p[:n])
        pos += n
        if pos >= len(s):
            return out
        pos += 1


def isurl(p):
    z = mem(p)
    return C.isurln(z.p, len(p)) != 0 if p else False


def squeeze(p, ch):
    return re.sub(re.escape(ch) + b"+", lambda m: ch, p)


def winone(p):
    if not iswin(p) and isurl(p):
        return p
    if re.match(rb"/[a-zA-Z]/", p):
        p = p[1:2].upper() + b":\\" + p[3:]
    return squeeze(p.replace(b"/", b"\\"), b"\\")


def unixone(p):
    if isurl(p):
        return p
    if len(p) > 3 and isalpha(p[0]) and p[1:2] == b":" and p[2:3] in (b"/", b"\\"):
        p = b"/" + p[:1].lower() + b"/" + p[3:]
    elif len(p) > 2 and isalpha(p[0]) and p[1:2] == b":" and p[2:3] not in (b"/", b"\\"):
        p = p[2:]
    return squeeze(p.replace(b"\\", b"/"), b"/")


def rname(rng):
    return rng.choice([b"a", b"bb", b"file.txt", b"x.tar.gz", b".hidden", b"noext", b"end.", b"..", b".", b"sp ace", b"\xc3\xa5", b"n" * 40])


def rpath(rng, seps=b":;|"):
    k = rng.randrange(10)
    if k == 0:
        return rng.choice([b"", b"/", b"//", b"a", b"C:", b"c:x", b"\\", b"."])
    if k == 1:
        return b"%s://%s/%s" % (rng.choice([b"http", b"file", b"ab"]), rng.choice([b"host.org", b"x"]), rname(rng).replace(b" ", b""))
    if k == 2:
        return rng.choice([b"C:\\", b"d:/", b"Z:"]) + rng.choice([b"\\", b"/"]).join(rname(rng) for _ in range(rng.randint(1, 3)))
    sep = rng.choice([b"/", b"/", b"/", b"\\", b"//"])
    p = sep.join(rname(rng) for _ in range(rng.randint(1, 4)))
    return rng.choice([b"", b"/", b"/c/"]) + p + rng.choice([b"", b"", b"/"])


def nosep(p, seps):
    return bytes(ch for ch in p if ch not in seps)


def g_path(ctx, i, rng):
    S1 = {n: fn(n, P, P) for n in ("fu_dirname", "fu_basename", "fu_stem", "fu_lastsep", "fu_fileext", "fu_friendly_dirsep")}
    ia, iw = fn("fu_isabs", I, P), fn("fu_iswinpath", I, P, I)
    for _ in range(60):
        p = rpath(rng)
        z = mem.z(p)
        k = p.rfind(b"/")
        base = p[k+1:]
        ctx.eq(taken(S1["fu_dirname"](z.p)), p[:k] if k > 0 else p[:1] if k == 0 else b"", "dirname", p)
        ctx.eq(taken(S1["fu_basename"](z.p)), base, "basename", p)
        d = base.rfind(b".")
        ctx.eq(taken(S1["fu_stem"](z.p)), base[:d] if d >= 0 and base[d+1:] else base, "stem", p)
        e = S1["fu_fileext"](z.p) - z.p
        ctx.eq(p[e:], base[d+1:] if d >= 0 else b"", "fileext", p)
        ctx.check(0 <= e <= len(p), "fileext-inside", p)
        l = S1["fu_lastsep"](z.p)
        ctx.eq(l - z.p if l else -1, k, "lastsep", p)
        ctx.eq(S1["fu_friendly_dirsep"](z.p), z.p, "friendly")
        ctx.eq(z.str, p, "friendly-unchanged", p)
        ctx.eq(ia(z.p) != 0, isabs(p), "isabs", p)
        ctx.eq(iw(z.p, -1) != 0, iswin(p), "iswinpath", p)
        n = rng.randint(0, len(p))
        zz = mem(p[:n])
        if n:
            ctx.eq(iw(zz.p, n) != 0, iswin(p[:n]), "iswinpath-len", p[:n])
        ctx.sig("path", isabs(p), iswin(p), k > 0, d >= 0, p.endswith(b"/"))
        # join
        parts = [rpath(rng) for _ in range(rng.randint(1, 5))]
        zs = [mem.z(x) for x in parts]
        if rng.random() < .6:
            r = S.s_join(b"/"[0], len(parts), (c.c_char_p * 6)(*parts), 0)
            want = join(b"/", parts)
        else:
            sep = rng.choice([b"/", b"\\", b"|"])
            r = S.s_join(sep[0], len(parts), (c.c_char_p * 6)(*parts), 1)
            want = join(sep, parts)
        ctx.eq(taken(r), want, "join", parts)
        ctx.sig("join", len(parts), [isabs(x) for x in parts].count(True), b"" in parts)
    ctx.sample("fu_join(%s) = %r" % (parts, want))


def rpaths(rng, seps):
    """A list of paths joined with separators, now and then repeated or trailing."""
    s = b""
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        p = rpath(rng)
        if rng.random() < .8:
            p = p if b"://" in p or iswin(p) and seps is None else nosep(p, seps if seps is not None else b";:")
        s += p + bytes([rng.choice(seps or b";:")]) * rng.choice([1, 1, 1, 2, 3])
    if rng.random() < .7:
        s = s.rstrip(seps or b";:")
    if rng.random() < .1:
        s = bytes([rng.choice(seps or b";:")]) + s
    return s


def g_convert(ctx, i, rng):
    npth = fn("fu_nextpath", P, P, P, P)
    conv = {n: fn(n, P, P, P, Z, P) for n in ("fu_winpath", "fu_unixpath", "fu_nativepath")}
    for _ in range(60):
        seps = rng.choice([None, None, None, b":", b";", b"|", b";|", b","])
        s = rpaths(rng, seps)
        z = mem.z(s)
        sp = mem.z(seps) if seps is not None else None
        end = (P * 1)()
        got = []
        while True:
            r = npth(z.p, c.addressof(end), sp.p if sp else None)
            if not r:
                break
            got.append(c.string_at(r, end[0] - r))
            ctx.check(z.p <= r <= end[0] <= z.p + len(s), "nextpath-inside", s)
            if len(got) > len(s) + 2:
                ctx.fail("nextpath-endless", s)
                break
        want = nextpaths(s, seps)
        ctx.eq(got, want, "nextpath", (s, seps))
        name = rng.choice(list(conv))
        if name == "fu_winpath":
            full = b";".join(map(winone, want))
        else:
            sepc = b":" if seps is None or b":" in seps else seps[:1]
            full = sepc.join(map(unixone, want))
        if rng.random() < .5:
            out = taken(conv[name](z.p, None, 0, sp.p if sp else None))
            ctx.eq(out, full, name, (s, seps))
        else:
            size = rng.choice([1, 2, 3, len(full) or 1, len(full) + 1, len(full) + 9, rng.randint(1, len(full) + 2), len(full) or 1])
            d = mem(size)
            r = conv[name](z.p, d.p, size, sp.p if sp else None)
            ctx.eq(r, d.p, name + "-dest")
            ctx.eq(d.str, full[:size-1], name, (s, seps, size))
        errclr()
        ctx.sig("convert", name, seps, len(want), full == s, b"://" in s)
    ctx.eq(npth(None, c.addressof((P * 1)()), None), None, "nextpath-null")
    ctx.sample("%s(%r) = %r" % (name, s, full))


def g_platform(ctx, i, rng):
    ctx.eq(fn("fu_native_platform", I)(), 1, "native")
    nm = fn("fu_platform_name", c.c_char_p, I)
    ctx.eq([nm(k) for k in (0, 1, 2, 3, 4, -1, 99)], [b"Native", b"Unix", b"Windows", b"Apple"] + [b"Unknown"] * 3, "platform-name")
    pf = fn("fu_platform", I, c.c_char_p)
    ctx.eq([pf(x) for x in (b"native", b"UNIX", b"Windows", b"apple", b"Windo", b"")], [0, 1, 2, 3, -1, -1], "platform-number")
    for f, want in (("fu_dirsep", [b"/", b"/", b"\\", b"/"]), ("fu_pathsep", [b":", b":", b";", b":"]), ("fu_linesep", [b"\n", b"\n", b"\r\n", b"\r"])):
        g = fn(f, c.c_char_p, I)
        ctx.eq([g(k) for k in range(4)], want, f)
        ctx.eq((g(4), g(-1)), (None, None), f + "-bad")
    sup = fn("fu_supported_platform", I, I)
    ctx.eq([sup(k) != 0 for k in (0, 1, 2, 3, 4, -1)], [True] * 4 + [False] * 2, "supported")
    errclr()
    ctx.sig("platform")


# ---------------------------------------------------------------- path lists

class FUPaths(c.Structure):
    _fields_ = [("n", Z), ("size", Z), ("paths", c.POINTER(c.c_char_p)), ("platform", I), ("pathsep", c.c_char_p)]


def plain(rng):
    """A path free of separators and of anything the conversions change."""
    k = rng.randrange(8)
    if k == 0:
        return b"http://ex.org/" + gen.ident(rng).encode()
    if k == 1:
        return b"."
    return rng.choice([b"", b"/", b"../"]) + b"/".join(rng.choice([b"a", b"bb", b"c.d", b"xyz"]) for _ in range(rng.randint(1, 3)))


def g_list(ctx, i, rng):
    q = {n: fn(n, I, *a) for n, a in {
        "fu_paths_init": [P, P], "fu_paths_init_sep": [P, P, P], "fu_paths_insert": [P, P, I], "fu_paths_insertn": [P, P, Z, I],
        "fu_paths_append": [P, P], "fu_paths_appendn": [P, P, Z], "fu_paths_extend": [P, P, P],
        "fu_paths_extend_prefix": [P, P, P, P], "fu_paths_remove_index": [P, I], "fu_paths_remove": [P, P], "fu_paths_index": [P, P],
        "fu_paths_set_platform": [P, I], "fu_paths_get_platform": [P]}.items()}
    st, gt, de = fn("fu_paths_string", P, P), fn("fu_paths_get", P, P), fn("fu_paths_deinit", None, P)
    for _ in range(6):
        m, plat = [], 1
        box = mem(c.sizeof(FUPaths))
        ps = FUPaths.from_address(box.p)
        sep0 = b":"

        def conv(p):
            return winone(p) if plat == 2 else unixone(p)

        def insert(p, n):
            p = conv(p)
            if n < -len(m) or n > len(m):
                return -1
            if n < 0:
                n += len(m)
            if p in m:
                j = m.index(p)
                if j == n or n == len(m) and j == n - 1:
                    return j
                del m[j]
                if n > j:
                    n -= 1
            m.insert(n, p)
            return n

        k = rng.randrange(3)
        if k == 0:
            ctx.eq(q["fu_paths_init"](box.p, None), 0, "init")
        else:
            env = rng.choice([b":", b"|"]) if k == 2 else b":"
            start = [nosep(plain(rng), b":|") for _ in range(rng.randint(0, 5))]
            os.environb[b"VP_PATHS"] = env.join(start)
            zn, zs = mem.z("VP_PATHS"), mem.z(env)
            if not start:
                del os.environb[b"VP_PATHS"]
            r = q["fu_paths_init"](box.p, zn.p) if k == 1 else q["fu_paths_init_sep"](box.p, zn.p, zs.p)
            sep0 = env
            for x in start:
                insert(x, len(m))
            ctx.eq(r, len(m), "init-count", start)
            os.environb.pop(b"VP_PATHS", None)
        trace = [list(m)]
        for _ in range(rng.choice([5, 20, 60])):
            op = rng.randrange(10)
            p = rng.choice(m) if m and rng.random() < .3 else plain(rng)
            if rng.random() < .15:
                p = rng.choice([b"C:\\d\\e", b"/c/d/e", b"c:/d", b"\\x\\y", b"a:b"])
            z = mem.z(p)
            n = rng.randint(-len(m) - 2, len(m) + 2)
            trace.append((op, p, n))
            before = list(m)
            if op <= 1:
                want = insert(p, n)
                r = q["fu_paths_insert"](box.p, z.p, n)
            elif op == 2:
                ln = rng.randint(1, len(p))
                part = mem(p[:ln])
                want = insert(p[:ln], n)
                r = q["fu_paths_insertn"](box.p, part.p, ln, n)
            elif op == 3:
                want = insert(p, len(m))
                r = q["fu_paths_append"](box.p, z.p)
            elif op == 4:
                ln = rng.randint(1, len(p))
                part = mem(p[:ln])
                want = insert(p[:ln], len(m))
                r = q["fu_paths_appendn"](box.p, part.p, ln)
            elif op == 5:
                xs = [nosep(plain(rng), b":;,") for _ in range(rng.randint(1, 3))]
                sp = rng.choice([b",", b";", None])
                s = rng.choice([b";", b":"] if sp is None else [sp]).join(xs)
                want = 0
                for x in nextpaths(s, sp):
                    want = insert(x, len(m))
                zz, zs = mem.z(s), mem.z(sp) if sp else None
                if rng.random() < .5:
                    r = q["fu_paths_extend"](box.p, zz.p, zs.p if sp else None)
                else:
                    m[:] = before
                    pre = rng.choice([b"/pre", b"pre/fix"])
                    want = 0
                    for x in nextpaths(s, sp):
                        want = insert(x if isabs(x) else pre + b"/" + x, len(m))
                    zp = mem.z(pre)
                    r = q["fu_paths_extend_prefix"](box.p, zp.p, zz.p, zs.p if sp else None)
            elif op == 6:
                want = 0 if -len(m) <= n < len(m) else -1
                if want == 0:
                    del m[n]
                r = q["fu_paths_remove_index"](box.p, n)
                want, r = want != 0, r != 0
            elif op == 7:
                r = q["fu_paths_remove"](box.p, z.p) != 0
                want = p not in m
                if p in m:
                    m.remove(p)
            elif op == 8:
                r, want = q["fu_paths_index"](box.p, z.p), m.index(p) if p in m else -1
            elif rng.random() < .3:
                new = rng.choice([0, 1, 2, 3, 4, -1])
                r = q["fu_paths_set_platform"](box.p, new)
                want = -1 if new in (4, -1) else plat
                if want >= 0 and (new or 1) != plat:
                    plat = new or 1
                    m[:] = [conv(x) for x in m]
                    sep0 = b";" if plat == 2 else b":"
                ctx.eq(q["fu_paths_get_platform"](box.p), plat, "platform")
            else:
                s = taken(st(box.p))
                r, want = s, (b";" if plat == 2 else sep0).join(m)
            errclr()
            ctx.eq(r, want, "paths-op-%d" % op, trace)
            ctx.eq([ps.paths[j] for j in range(ps.n)], m, "paths-content-%d" % op, trace)
            g = gt(box.p)
            ctx.eq(bool(g), bool(m), "paths-get", trace)
            if g:
                ctx.eq(ps.paths[ps.n], None, "paths-terminated", trace)
            ctx.check(ps.n < ps.size or ps.n == ps.size == 0, "paths-room")
            ctx.sig("list", op, min(len(m), 20), plat, r == -1)
        de(box.p)
        ctx.eq((ps.n, bool(ps.paths)), (0, False), "deinit")
    ctx.sample("%d path list operations, final %r" % (len(trace), m[:3]))


# ---------------------------------------------------------------- file searches

NAMES = [b"a.json", b"b.json", b"aa.json", b"c.txt", b".hid", b"x[1].txt", b"noext", b"d\xc3\xa5.json", b"sp ace.txt", b"B.JSON", b"a?b", b"_"]
PATS = [(b"*", b".*"), (b"*.json", b".*\\.json"), (b"a*", b"a.*"), (b"?.*", b".\\..*"), (b"[a-c]*", b"[a-c].*"), (b"[^a-z]*", b"[^a-z].*"),
        (b"*\\[1]*", b".*\\[1\\].*"), (b"c.txt", b"c\\.txt"), (b"*t", b".*t"), (b"nothing*", b"nothing.*"), (b"*.*n", b".*\\..*n")]


def tree(ctx, rng, tag):
    dirs = []
    for j in range(rng.randint(0, 5)):
        d = os.fsencode(os.path.join(ctx.work, "%s_%d" % (tag, j)))
        os.makedirs(d, exist_ok=True)
        for f in rng.sample(NAMES, rng.randint(0, len(NAMES))):
            if rng.random() < .15:
                os.makedirs(os.path.join(d, f), exist_ok=True)
            else:
                open(os.path.join(d, f), "w").close()
        dirs.append(d)
    return dirs


def matching(d, rx):
    return sorted(f for f in os.listdir(d or b".") if re.fullmatch(rx, f, re.S))


def chunks(got, dirs_expected):
    return got


def g_search(ctx, i, rng):
    init, app, de, rm = fn("fu_paths_init_sep", I, P, P, P), fn("fu_paths_append", I, P, P), fn("fu_paths_deinit", None, P), fn("fu_paths_remove_index", I, P, I)
    sm, nm, em = fn("fu_startmatch", P, P, P), fn("fu_nextmatch", P, P), fn("fu_endmatch", I, P)
    pi, pn, pd = fn("fu_pathsiter_init", P, P, P), fn("fu_pathsiter_next", P, P), fn("fu_pathsiter_deinit", I, P)
    gl, gn, ge = fn("fu_glob", P, P, P), fn("fu_globnext", P, P), fn("fu_globend", I, P)
    old = os.getcwd()
    os.chdir(ctx.work)
    try:
        for k in range(4):
            dirs = tree(ctx, rng, "t%d_%d" % (i, k))
            pat, rx = rng.choice(PATS)
            entries = []                                  # (given path, prefix of results, names) or (url, url, None)
            for d in dirs:
                x = rng.random()
                rel = os.path.relpath(d, os.fsencode(ctx.work))
                if x < .5:
                    entries.append((d, d + b"/", d))
                elif x < .7:
                    entries.append((rel, rel + b"/", d))
                elif x < .8:
                    entries.append((b"./" + rel, rel + b"/", d))
                elif b"/" == d[:1]:
                    entries.append((b"file://" + d, d + b"/", d))
            if rng.random() < .3:
                entries.insert(rng.randint(0, len(entries)), (os.fsencode(ctx.work) + b"/missing", None, None))
            if rng.random() < .3:
                entries.insert(rng.randint(0, len(entries)), (b"http://ex.org/a.json", b"url", None))
            box = mem(c.sizeof(FUPaths))
            zs = mem.z("|")
            init(box.p, None, zs.p)
            for g, _, _ in entries:
                z = mem.z(g)
                app(box.p, z.p)
            pz = mem.z(pat)
            change = rng.random() < .3
            it = sm(pz.p, box.p)
            ctx.check(it, "startmatch", entries)
            got = []
            while True:
                r = nm(it)
                if not r:
                    break
                got.append(c.string_at(r))
                if change and FUPaths.from_address(box.p).n and rng.random() < .3:
                    rm(box.p, 0)
                ctx.check(len(got) < 500, "startmatch-endless")
            ctx.check(nm(it) is None, "nextmatch-after-end")
            ctx.eq(em(it), 0, "endmatch")
            want = []
            for g, pre, d in entries:
                if d is not None:
                    want.append(sorted(pre + f for f in matching(d, rx)))
                elif pre == b"url" and re.fullmatch(rx, g, re.S):
                    want.append([g])
            got = [g for g in got if g.rsplit(b"/", 1)[-1] not in (b".", b"..")]
            pos, split = 0, []
            for w in want:
                split.append(sorted(got[pos:pos+len(w)]))
                pos += len(w)
            ctx.eq((split, got[pos:]), (want, []), "startmatch-files", (pat, [e[0] for e in entries]))
            ctx.sig("search", pat, len(entries), sum(map(len, want)), change)
            de(box.p)
            errclr()
            # mixture of directories and glob patterns
            init(box.p, None, zs.p)
            want, given = [], []
            for d in dirs:
                x = rng.random()
                if x < .5:
                    given.append(d)
                    want.append(sorted(d + b"/" + f for f in matching(d, b".*")))
                elif x < .9:
                    gp, grx = rng.choice(PATS)
                    if b"\\" in gp:                 # a path list turns backslashes into slashes
                        continue
                    given.append(d + b"/" + gp)
                    if os.path.isdir(d + b"/" + gp):
                        given.pop()
                        continue
                    want.append(sorted(d + b"/" + f for f in matching(d, grx)))
                else:
                    given.append(d + b"/nothing/*.x")
            if len(set(given)) != len(given):
                continue
            filt = rng.choice([None, (pat, rx)])
            for g in given:
                z = mem.z(g)
                app(box.p, z.p)
            if filt:
                want = [[w for w in ws if re.fullmatch(rx, w.rsplit(b"/", 1)[1], re.S)] for ws in want]
            it = pi(box.p, pz.p if filt else None)
            ctx.check(it, "pathsiter", given)
            got = []
            while it:
                r = pn(it)
                if not r:
                    break
                got.append(c.string_at(r))
                ctx.check(len(got) < 500, "pathsiter-endless")
            if it:
                ctx.check(pn(it) is None, "pathsiter-after-end")
                ctx.eq(pd(it), 0, "pathsiter-deinit")
            got = [g for g in got if g.rsplit(b"/", 1)[-1] not in (b".", b"..")]
            pos, split = 0, []
            for w in want:
                split.append(sorted(got[pos:pos+len(w)]))
                pos += len(w)
            ctx.eq((split, got[pos:]), (want, []), "pathsiter-files", (given, filt))
            ctx.sig("pathsiter", len(given), bool(filt), sum(map(len, want)))
            de(box.p)
            errclr()
            # single glob, also relative and as file URL
            for d in dirs[:2]:
                gp, grx = rng.choice(PATS)
                rel = os.path.relpath(d, os.fsencode(ctx.work))
                form, pre = rng.choice([(d, d), (rel, rel), (b"./" + rel, rel)])
                z = mem.z(form + b"/" + gp)
                it = gl(z.p, zs.p)
                ctx.check(it, "glob", form)
                got = []
                while it:
                    r = gn(it)
                    if not r:
                        break
                    got.append(c.string_at(r))
                if it:
                    ctx.eq(ge(it), 0, "globend")
                got = sorted(g for g in got if g.rsplit(b"/", 1)[-1] not in (b".", b".."))
                ctx.eq(got, [pre + b"/" + f for f in matching(d, grx)], "glob-files", (form, gp))
            for d in dirs:
                zd = mem.z(d)
                od, nf, cd = fn("fu_opendir", P, P), fn("fu_nextfile", c.c_char_p, P), fn("fu_closedir", I, P)
                h, names = od(zd.p), []
                while True:
                    r = nf(h)
                    if r is None:
                        break
                    names.append(r)
                cd(h)
                ctx.eq(sorted(names), sorted(os.listdir(d) + [b".", b".."]), "opendir")
                for f in os.listdir(d) + [b"missing", b"a.json/x"]:
                    full = os.path.join(d, f)
                    zf = mem.z(full)
                    ctx.eq(fn("fu_exists", I, P)(zf.p) == 0, os.path.exists(full), "exists", full)
                    ctx.eq(fn("fileinfo_exists", I, P)(zf.p) != 0, os.path.exists(full), "fileinfo-exists", full)
                    ctx.eq(fn("fileinfo_isdir", I, P)(zf.p) != 0, os.path.isdir(full), "fileinfo-isdir", full)
                    ctx.eq(fn("fileinfo_isnormal", I, P)(zf.p) != 0, os.path.isfile(full), "fileinfo-isnormal", full)
                    if os.path.exists(full):
                        wd = d + b"/" + rng.choice([b".", b"../" + os.path.basename(d), b"/"]) + b"/" + f
                        zw = mem.z(wd)
                        ctx.eq(taken(fn("fu_realpath", P, P, P)(zw.p, None)), os.path.realpath(wd), "realpath", wd)
    finally:
        os.chdir(old)
    ctx.note("files listed", sum(len(os.listdir(d)) for d in dirs))


def g_tmp(ctx, i, rng):
    tf, tff = fn("tmpfileplus", P, P, P, P, I), fn("tmpfileplus_f", P, P, P, P, Z, I)
    rd = fn("fu_readfile", P, P)
    fdopen, fclose = libc.fopen, libc.fclose
    fdopen.restype, fdopen.argtypes, fclose.argtypes = P, [c.c_char_p, c.c_char_p], [P]
    libc.fputs.argtypes = [c.c_char_p, P]
    libc.rewind.argtypes = [P]
    d = os.fsencode(os.path.join(ctx.work, "tmp%d" % i))
    os.makedirs(d)
    zd = mem.z(d)
    seen = set()
    for k in range(60):
        keep = rng.random() < .6
        pre = rng.choice([None, b"", b"x", b"long.prefix-" * 3])
        zp = mem.z(pre) if pre is not None else None
        out = (P * 1)()
        before = set(os.listdir(d))
        mode = rng.randrange(3)
        if mode == 0:
            fp = tf(zd.p, zp.p if zp else None, c.addressof(out), keep)
            ctx.check(fp, "tmpfile")
            name = taken(out[0])
        elif mode == 1:
            size = rng.choice([1, len(d) + 5, len(d) + 100])
            b = mem(b"\x5a" * size)
            fp = tff(zd.p, zp.p if zp else None, b.p, size, keep)
            need = len(d) + 1 + len(pre if pre is not None else b"tmp.") + 10
            ctx.eq(bool(fp), need < size, "tmpfile_f-room", (need, size))
            if not fp:
                ctx.eq(b.str, b"", "tmpfile_f-name-cleared")
                ctx.eq(set(os.listdir(d)), before, "tmpfile_f-left-behind")
                continue
            name = b.str
        else:
            fp = tf(zd.p, zp.p if zp else None, None, keep) if rng.random() < .5 else tff(zd.p, zp.p if zp else None, None, 0, keep)
            ctx.check(fp, "tmpfile-nameless")
            name, keep = None, False
        if name is not None:
            ctx.check(name not in seen and os.path.dirname(name) == d and
                      os.path.basename(name).startswith(pre if pre is not None else b"tmp."), "tmpfile-name", name)
            seen.add(name)
            ctx.eq(os.path.exists(name), keep, "tmpfile-exists")
            if keep:
                ctx.eq(os.stat(name).st_mode & 0o77, 0, "tmpfile-private")
        libc.fputs(b"hello", fp)
        libc.rewind(fp)
        ctx.eq(taken(rd(fp)), b"hello", "tmpfile-readwrite")
        fclose(fp)
        ctx.eq(set(os.listdir(d)) - before, {os.path.basename(name)} if keep else set(), "tmpfile-kept", (keep, mode))
        ctx.sig("tmp", mode, keep, pre)
    # no place for a temporary file: a prefix in a missing directory fails everywhere
    zp = mem.z("no/such/dir/x")
    b = mem(100)
    ctx.check(tff(zd.p, zp.p, b.p, 100, 1) is None, "tmpfile_f-impossible")
    ctx.eq(b.str, b"", "tmpfile_f-impossible-name")
    out = (P * 1)()
    ctx.check(tf(zd.p, zp.p, c.addressof(out), 1) is None, "tmpfile-impossible")
    # reading whole files
    for n in [0, 1, 4095, 4096, 4097, 8192, 12288, rng.randint(0, 20000)]:
        data = bytes(rng.randint(1, 255) for _ in range(n))
        p = os.path.join(d, b"data")
        with open(p, "wb") as f:
            f.write(data)
        fp = fdopen(p, b"rb")
        ctx.eq(taken(rd(fp)), data, "readfile", n)
        fclose(fp)
        ctx.sig("readfile", n % 4096 == 0, n > 4096)


GROUPS = [("glob", g_glob, 120, 3000), ("path", g_path, 60, 1000), ("convert", g_convert, 80, 1500), ("platform", g_platform, 1, 1),
          ("list", g_list, 80, 1500), ("search", g_search, 40, 500), ("tmp", g_tmp, 8, 60)]
