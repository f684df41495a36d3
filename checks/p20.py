"""P20: URLs, percent-encoding and option strings split and join losslessly."""
import ctypes as c, re
from dl import *
import gen

RULE = "distinct (function, components present, truncation, outcome) calls observed"
PARTS = "scheme authority userinfo host port path query fragment".split()
U, D = r"A-Za-z0-9._~\-", r"!$&'()*+,;="
PCT = r"%[0-9A-Fa-f]{2}"
URL = re.compile(
    r"(?P<scheme>[A-Za-z][A-Za-z0-9+.-]*):"
    r"(?://(?P<authority>(?:(?P<userinfo>(?:[{u}{d}:]|{p})+)@)?(?P<host>\[[vV][0-9A-Fa-f]+\.(?:[{u}{d}:]|{p})*\]|\[[0-9A-Fa-f:.]*\]"
    r"|(?:[{u}{d}]|{p})*)(?::(?P<port>[0-9]*))?)(?=[/?#]|$)|(?!//))"
    r"(?P<path>(?:[{u}{d}/:@]|{p})*)(?:\?(?P<query>(?:[{u}{d}/?:@]|{p})*))?(?:#(?P<fragment>(?:[{u}{d}/?:@]|{p})*))?".format(
        u=U, d=D, p=PCT))


class Comp(c.Structure):
    _fields_ = [f for p in PARTS for f in ((p, c.c_void_p), (p + "_len", c.c_int))]


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


def seg(rng, extra="", n=None):
    s = ""
    for _ in range(rng.randint(0, 6) if n is None else n):
        s += rng.choice(["a", "Z", "9", "-", ".", "_", "~", "!", "$", "&", "'", "(", "*", "+", ",", ";", "=", "%20", "%aF", "%25"]
                        + list(extra))
    return s


def rurl(rng):
    s = rng.choice(["http", "https", "file", "mongodb+srv", "a", "x-y.z", "urn", "hTTP", "Doi"]) + ":"
    if rng.random() < .6:
        s += "//"
        if rng.random() < .3:
            s += seg(rng, ":", rng.randint(1, 5)) + "@"
        s += rng.choice([seg(rng), "example.com", "127.0.0.1", "[::1]", "[2001:db8::a:1]", "[::ffff:1.2.3.4]", "[v1.a:b]",
                         "[vF3.x]", "", "xn--fsqu00a"])
        if rng.random() < .3:
            s += ":" + rng.choice(["", "80", "65535", "0"])
        s += rng.choice(["", "/", "/" + seg(rng, "/:@"), "//" + seg(rng, "/"), "/../."])
    else:
        s += rng.choice(["", "/", seg(rng, "/:@").lstrip("/"), "/" + seg(rng, ":@").lstrip("/")])
    if rng.random() < .4:
        s += "?" + seg(rng, "/?:@")
    if rng.random() < .4:
        s += "#" + seg(rng, "/?:@")
    return s


def mutate(rng, s):
    k = rng.randrange(len(s) + 1)
    return rng.choice([s[:k] + rng.choice(" <>\"{}|\\^`[]%#@:/?\xe5\x01") + s[k:], s[:k] + s[k+1:], s[:k],
                       s[:k] + rng.choice(["%", "%4", "%zz", "//", "[", "]", "@", ":"]) + s[k:]])


def g_split(ctx, i, rng):
    split = fn("urlsplit", c.c_int, c.c_void_p, c.c_void_p)
    nsplit = fn("urlsplitn", c.c_int, c.c_void_p, c.c_int, c.c_void_p)
    isu, isn = fn("isurl", c.c_int, c.c_void_p), fn("isurln", c.c_int, c.c_void_p, c.c_int)
    join = fn("urljoin", c.c_int, c.c_void_p, c.c_long, c.c_void_p)
    for _ in range(100):
        s = rurl(rng)
        if rng.random() < .4:
            s = mutate(rng, s)
        raw = s.encode("latin-1")
        lim = rng.random() < .4
        k = rng.choice([0, len(raw), len(raw) // 2, rng.randint(0, len(raw))]) if lim else len(raw)
        cut = raw[:k].decode("latin-1")
        m = URL.match(cut)
        full = bool(m) and m.end() == k
        total = m.end() if m and (full or not lim) else 0
        src = mem(raw[:k]) if lim else mem.z(raw)
        co = Comp()
        r = nsplit(src.p, k, c.addressof(co)) if lim else split(src.p, c.addressof(co))
        ctx.eq(r, total, "split", (s, k))
        ctx.eq((nsplit(src.p, k, None) if lim else split(src.p, None)), total, "split-null", (s, k))
        win = bool(re.match("[A-Z]:", cut))
        ctx.eq(bool(isn(src.p, k) if lim else isu(src.p)), full and not win, "isurl", (s, k))
        ctx.sig("split", bool(m), full, lim, tuple(p for p in PARTS if m and m.group(p) is not None))
        if not total:
            continue
        for p in PARTS:
            a, n = getattr(co, p), getattr(co, p + "_len")
            want = m.group(p)
            if want is None:
                ctx.eq((a, n), (None, 0), "component-absent", (p, cut))
            else:
                ctx.eq((a or 0) - src.p, m.start(p), "component-start", (p, cut))
                ctx.eq(n, len(want), "component-length", (p, cut))
        cut = cut[:total]
        raw = raw[:total]
        for size in (len(cut) + 1, rng.randint(0, len(cut) + 3), rng.choice([0, 1, 2])):
            d = mem(size)
            r = join(d.p if size else None, size, c.addressof(co))
            ctx.eq(r, len(cut), "join-length", (cut, size))
            if size > len(cut):
                ctx.eq(d.str, cut.encode("latin-1"), "join", cut)
            elif size:
                ctx.check(d.str is not None and raw.startswith(d.str) and len(d.str) >= size - 3, "join-truncated",
                          (cut, size, d.raw))
        # components from elsewhere are encoded where needed
        if not lim and rng.random() < .5:
            q = rbytes(rng)
            qm = mem(q)
            co.query, co.query_len = qm.p, len(q)
            want = (cut.split("?")[0].split("#")[0] if m.group("query") is not None else cut.split("#")[0]) + "?" + \
                re.sub(r"%[0-9A-Fa-f]{2}|[^A-Za-z0-9._~!$&'()*+,;=/:@?-]",
                       lambda z: z.group(0) if len(z.group(0)) == 3 else "%%%02X" % ord(z.group(0)), q.decode("latin-1")) + \
                ("#" + m.group("fragment") if m.group("fragment") is not None else "")
            d = mem(len(want) + 1)
            ctx.eq(join(d.p, d.n, c.addressof(co)), len(want), "join-encoded-length", (cut, q))
            ctx.eq(d.str, want.encode("latin-1"), "join-encoded", (cut, q))


def rbytes(rng):
    n = rng.choice([0, 1, 2, 3, 8, 30])
    return bytes(rng.choice([rng.randint(1, 255), rng.choice(b"abcXYZ09-._~"), rng.choice(b"!$&'()*+,;=:/?#[]@%"),
                             rng.choice(b"%% +\"<>\\^`{|}")]) for _ in range(n))


SUBS = b"!$&'()*+,;="
UNRES = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
CATS = [b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", b"abcdefghijklmnopqrstuvwxyz", b"0123456789", b"-._~", SUBS, b":/?#[]@", b"", b"%"]


def enc(s, keep):
    return b"".join(bytes([x]) if x in keep else b"%%%02X" % x for x in s)


def dec(s):
    return re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s)


def g_pct(ctx, i, rng):
    e, ne = fn("pct_encode", c.c_int, c.c_void_p, c.c_long, c.c_void_p), fn("pct_nencode", c.c_int, c.c_void_p, c.c_long, c.c_void_p, c.c_long)
    xe = fn("pct_xencode", c.c_int, c.c_void_p, c.c_long, c.c_void_p, c.c_long, c.c_int, c.c_char_p)
    de, nd = fn("pct_decode", c.c_int, c.c_void_p, c.c_long, c.c_void_p), fn("pct_ndecode", c.c_int, c.c_void_p, c.c_long, c.c_void_p, c.c_long)
    ue = fn("uri_encode", c.c_size_t, c.c_void_p, c.c_size_t, c.c_void_p)
    ud = fn("uri_decode", c.c_size_t, c.c_void_p, c.c_size_t, c.c_void_p)
    for _ in range(100):
        s = rbytes(rng)
        how = rng.randrange(3)
        n = len(s) if how == 0 else rng.choice([-1, 0, len(s), rng.randint(0, len(s))])
        part = s if n < 0 else s[:n]
        src = mem(part) if n >= 0 and how else mem.z(s)
        cat, acc = 4, b""
        if how == 2:
            cat, acc = rng.choice([0, 1, 2, 3, 4, 5, 7]), rng.choice([None, b"", b":@", b"/:@?", b" ", b"%"])
        want = enc(part, b"".join(CATS[:cat+1]) + (acc or b""))
        size = rng.choice([0, 1, 2, 3, 4, len(want), len(want) + 1, len(want) + 9, rng.randint(0, len(want) + 2)])
        d = mem(size)
        dp = d.p if size else None
        r = [lambda: e(dp, size, src.p), lambda: ne(dp, size, src.p, n), lambda: xe(dp, size, src.p, n, cat, acc)][how]()
        ctx.eq(r, len(want), "encode-length", (s, n, cat, acc))
        if size > len(want):
            ctx.eq(d.str, want, "encode", (s, n, cat, acc))
        elif size:
            got = d.str
            ctx.check(got is not None and want.startswith(got) and len(got) >= size - 5, "encode-truncated", (s, size, d.raw))
            ctx.check(not re.search(rb"%.?\Z", got) or b"%" in (acc or b"") or cat == 7, "partial-encoding", (s, size, got))
        ctx.sig("encode", how, cat, n < 0, (size > len(want)) - (size < len(want)))

        # decode
        t = want if rng.random() < .6 else rbytes(rng) + rng.choice([b"", b"%", b"%4", b"%zz", b"%e5", b"%C3%A6"])
        t = bytes(t)
        lim = rng.random() < .5
        n = rng.randint(0, len(t)) if lim else len(t)
        part = t[:n]
        bad = re.search(rb"%(?![0-9A-Fa-f]{2})", part)
        back = dec(part)
        size = rng.choice([0, 1, 2, len(back), len(back) + 1, len(back) + 5, len(back) + 6])
        d = mem(size)
        src = mem(part) if lim else mem.z(part)
        dp = d.p if size else None
        r = nd(dp, size, src.p, n if lim else -1) if lim or rng.random() < .5 else de(dp, size, src.p)
        if bad:
            ctx.check(r < 0, "decode-invalid", (part, r))
        else:
            ctx.eq(r, len(back), "decode-length", part)
            try:
                back.decode()
                need = len(back)
            except UnicodeDecodeError:
                need = len(back) + 4                           # incomplete code points are not split
            if size > need:
                ctx.eq(d.raw[:len(back)+1], back + b"\0", "decode", part)
            elif size:
                ctx.check(back.startswith(d.str or b"") and b"\0" in d.raw, "decode-truncated", (part, size, d.raw))
        ctx.sig("decode", bool(bad), lim, (size > len(back)) - (size < len(back)))

        # uri_encode/uri_decode on buffers
        s += bytes(rng.choice([0, 0xff, 37]) for _ in range(rng.randint(0, 2)))
        want = enc(s, UNRES)
        src = mem(s)
        ctx.eq(ue(src.p, len(s), None), len(want), "uri-encode-size", s)
        d = mem(len(want) + 1)
        ctx.eq(ue(src.p, len(s), d.p), len(want), "uri-encode-length", s)
        ctx.eq(d.raw, want + b"\0", "uri-encode", s)
        for t in (want, want.lower(), s):
            src, back = mem(t), dec(t)
            ctx.eq(ud(src.p, len(t), None), len(back), "uri-decode-size", t)
            d = mem(len(back) + 1)
            ctx.eq(ud(src.p, len(t), d.p), len(back), "uri-decode-length", t)
            ctx.eq(d.raw, back + b"\0", "uri-decode", t)


class Opt(c.Structure):
    _fields_ = [("c", c.c_int), ("key", c.c_char_p), ("value", c.c_void_p), ("descr", c.c_char_p)]


def g_options(ctx, i, rng):
    parse = fn("dlite_option_parse", c.c_int, c.c_void_p, c.c_void_p, c.c_int)
    for _ in range(80):
        keys = []
        for _ in range(rng.randint(0, 6)):
            k = gen.ident(rng, rng.choice([1, 2, 4, 9]))
            if keys and rng.random() < .5:
                k = rng.choice(keys) + rng.choice(["x", "1", "mode"])
            if k not in keys:
                keys.append(k)
        opts = (Opt * (len(keys) + 1))()
        default = {k: rng.choice([None, b"", b"dflt", k.encode()]) for k in keys}
        keep = [mem.z(v) if v is not None else None for v in default.values()]
        for n, k in enumerate(keys):
            opts[n].c, opts[n].key, opts[n].value = n, k.encode(), keep[n].p if keep[n] else None
        strict = rng.random() < .6
        text, model, error, done = "", dict(default), None, False
        for n in range(rng.randint(0, 6)):
            k = rng.choice(keys) if keys and rng.random() < .85 else gen.ident(rng, 5)
            if rng.random() < .07:
                k = k[:-1] or "q"
            v = rbytes(rng)
            e = enc(v, UNRES if rng.random() < .7 else b"").decode()
            if rng.random() < .15:
                e = rng.choice(["%", "%z1", "a%2", "=", "a=b", "/path:x", "a?b", "[1,2]", "{\"a\":3}"])
                v = dec(e.encode())
            if rng.random() < .05:
                text += k + rng.choice(["", ";"]) + ("" if rng.random() < .5 else "&a=b")
                error = error or dliteValueError_novalue
                done = True
                break
            text += k + "=" + e + rng.choice([";", "&"])
            if k not in keys:
                if strict:
                    error = error or 1
                    done = True
                    break
            else:
                model[k] = v
        if not done and text and rng.random() < .5:
            text = text[:-1]
        if not done and rng.random() < .2:
            text += "#" + rng.choice(["", "frag", "a=b", "%"])
        src = mem.z(text)
        errclr()
        r = parse(src.p, c.addressof(opts), 1 if strict else 0)
        ctx.eq(bool(r), error is not None, "option-error", (text, keys, strict))
        ctx.eq(bool(errval()), error is not None, "option-errval", (text, keys, strict))
        ctx.sig("options", bool(error), strict, len(keys), text.count("%") > 0, "#" in text)
        if error is None:
            for n, k in enumerate(keys):
                got = c.string_at(opts[n].value) if opts[n].value else None
                w = model[k]
                ctx.eq(got, w if w is None else w.split(b"\0")[0], "option-value", (text, k))
        errclr()
    ctx.eq(parse(None, c.addressof(opts), 1), 0, "option-null")


dliteValueError_novalue = 1


def rpart(rng, forbid, n=8):
    out = ""
    for _ in range(rng.randint(1, n)):
        x = rng.choice(list("abcXYZ019._-~/=&;,:?@ %+\\[]é"))
        if x not in forbid:
            out += x
    return out


def g_dliteurl(ctx, i, rng):
    join = fn("dlite_join_url", c.c_void_p, c.c_char_p, c.c_char_p, c.c_char_p, c.c_char_p)
    split = fn("dlite_split_url_winpath", c.c_int, c.c_void_p, c.c_void_p, c.c_void_p, c.c_void_p, c.c_void_p, c.c_int)
    split0 = fn("dlite_split_url", c.c_int, c.c_void_p, c.c_void_p, c.c_void_p, c.c_void_p, c.c_void_p)
    import dlite
    for _ in range(100):
        driver = rng.choice([None, "json", "hdf5", "mongodb+srv", "http", gen.ident(rng, 4)])
        loc = rpart(rng, "?#")
        if driver is None and re.match(r"[^/]*:", loc):
            loc = "/" + loc
        options = rng.choice([None, None, rpart(rng, "#"), "mode=r;a=b"])
        frag = rng.choice([None, None, rpart(rng, "") + "#x", "frag"])
        win = driver is None and rng.random() < .2
        if win:
            loc = rng.choice(["C:\\", "C:/", "d:\\"]) + (loc.lstrip("/") or "x")
        if not loc:
            continue
        e = lambda x: x.encode() if x is not None else None
        url = take_str(join(e(driver), e(loc), e(options), e(frag)))
        want = (driver + "://" if driver is not None else "") + loc + ("?" + options if options is not None else "") + \
            ("#" + frag if frag is not None else "")
        ctx.eq(url, want.encode(), "join-url", want)
        src = mem.z(url)
        ptr = [c.c_void_p(1) for _ in range(4)]
        skip = [rng.random() < .1 for _ in ptr]
        args = [None if skip[n] else c.addressof(p) for n, p in enumerate(ptr)]
        r = split(src.p, *args, 1 if win else 0) if win or rng.random() < .5 else split0(src.p, *args)
        ctx.eq(r, 0, "split-url", want)
        for n, (p, w) in enumerate(zip(ptr, (driver, loc, options, frag))):
            if skip[n]:
                continue
            got = c.string_at(p.value) if p.value else None
            if not w:
                ctx.check(not got, "split-url-absent", (want, n, got))
            else:
                ctx.eq(got, w.encode(), "split-url-part", (want, n))
                ctx.check(src.p <= p.value < src.p + src.n, "split-url-inside", (want, n))
        if not win:
            parts = list(dlite.split_url(want))
            ctx.eq([x or None for x in parts], [driver or None, loc or None, options or None, frag or None], "py-split", want)
            ctx.eq(dlite.join_url(driver, loc, options, frag), want, "py-join", want)
        ctx.sig("dlite-url", driver is None, options is None, frag is None, win)


GROUPS = [("split", g_split, 60, 1500), ("pct", g_pct, 40, 800), ("options", g_options, 50, 1000),
          ("dliteurl", g_dliteurl, 40, 800)]
