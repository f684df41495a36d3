"""P19: string utilities honour their contracts for every text and buffer size."""
import ctypes as c, json, re, struct
from dl import *
import gen

RULE = "distinct (function, flags, size class, character classes, outcome) calls observed"
INITIAL, NOQUOTE, NOESC = 1, 2, 4
UP, LOW, DIG, UNR, SUB, GEN, RES, PCT, CX, SPC, OTH, NUL = range(12)
CATS = [(UP, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"), (LOW, b"abcdefghijklmnopqrstuvwxyz"), (DIG, b"0123456789"), (UNR, b"-._~"),
        (SUB, b"!$&'()*+,;="), (GEN, b":/?#[]@"), (PCT, b"%"), (CX, b"\"\\<>^{}|"), (SPC, b" \f\n\r\t\v"), (NUL, b"\0")]
CAT = [next((k for k, s in CATS if bytes([ch]) in [bytes([x]) for x in s]), OTH) for ch in range(256)]


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


def rtext(rng, n=None):
    """Random bytes without NUL: ASCII, quotes, escapes, blanks, controls, UTF-8 and garbage."""
    out = b""
    n = rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 200]) if n is None else n
    mode = rng.randrange(5)
    while len(out) < n:
        k = rng.random()
        if mode == 0 or k < .4:
            out += bytes([rng.choice(b"abcXYZ019 _-.")])
        elif k < .7:
            out += bytes([rng.choice(b"\"\\/\b\f\n\r\t\x01\x1f\x7f %&=:;<>{}")])
        elif k < .85 or mode < 3:
            out += chr(rng.choice([0xe5, 0x3b1, 0x4e2d, 0x1f600, 0x7ff, 0x800, 0xffff, 0x10000])).encode()
        else:
            out += bytes([rng.randint(1, 255)])
    return out


def cut(rng, n):
    """A destination size around n."""
    return rng.choice([0, 1, 2, 3, n - 1, n, n + 1, n + 2, n + 10, rng.randint(0, n + 5)]) if n else rng.choice([0, 1, 2, 9])


def filled(ctx, name, d, size, want, r, what):
    ctx.eq(r, len(want), name + "-length", what)
    if size > 0:
        ctx.eq(d.str, want[:size-1], name + "-text", (size, what))


def g_quote(ctx, i, rng):
    f = fn("strnquote", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int, c.c_int)
    g = fn("strnunquote", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int, c.c_void_p, c.c_int)
    q = fn("strquote", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p)
    uq = fn("strunquote", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_void_p, c.c_int)
    for _ in range(60):
        s = rtext(rng)
        flags = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])
        lim = rng.random() < .4
        n = rng.choice([0, 1, len(s) // 2, len(s), len(s) + 3]) if lim else -1
        src = mem(s[:n]) if lim and n <= len(s) else mem.z(s)
        body = s[:n] if lim else s
        if not flags & NOESC:
            body = b"".join(ESC.get(ch) or (b"\\u%04x" % ch if ch < 32 else bytes([ch])) for ch in body)
        want = body if flags & NOQUOTE else b'"' + body + b'"'
        size = max(0, cut(rng, len(want)))
        d = mem(size)
        if not lim and not flags and rng.random() < .5:
            r = q(d.p, size, src.p)
        else:
            r = f(d.p if size or rng.random() < .5 else None, size, src.p, n, flags)
        filled(ctx, "quote", d, size, want, r, (s, n, flags))
        ctx.sig("quote", flags, lim, (size > len(want)) - (size < len(want)), size > 0)
        # and back, with something following
        if flags & NOESC and b'"' in s and not flags & NOQUOTE:
            continue
        back = s[:n] if lim else s
        pre = b"" if flags & INITIAL else rng.choice([b"", b" ", b"\t\n "])
        if flags & NOQUOTE and not flags & INITIAL:
            back = back.lstrip(b" \f\n\r\t\v")
            if not flags & NOESC and body[:1] == b"\\":
                back = s[:n] if lim else s                   # escaped blanks are not blanks
        if flags & NOQUOTE and not flags & INITIAL and not flags & NOESC:
            back = unesc(body.lstrip(b" \f\n\r\t\v"))
        tail = b"" if flags & NOQUOTE else rng.choice([b"", b" ", b"x", b'"', b", 3"])
        text = pre + want + tail
        size = max(0, cut(rng, len(back)))
        d = mem(size)
        cons = c.c_int(-7)
        src2 = mem.z(text)
        if rng.random() < .5:
            r = uq(d.p, size, src2.p, c.addressof(cons), flags)
        elif flags & NOQUOTE:
            src2 = mem(text)                                  # no terminator
            r = g(d.p, size, src2.p, len(text), c.addressof(cons), flags)
        else:
            r = g(d.p if size else None, size, src2.p, len(text), c.addressof(cons), flags)
        filled(ctx, "unquote", d, size, back, r, (text, flags))
        ctx.eq(cons.value, len(text) - len(tail), "unquote-consumed", (text, flags))
        ctx.sig("unquote", flags, bool(pre), len(tail), (size > len(back)) - (size < len(back)))


ESC = {34: b'\\"', 92: b"\\\\", 8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t"}
UNESC = {b'"': b'"', b"\\": b"\\", b"/": b"/", b"b": b"\b", b"f": b"\f", b"n": b"\n", b"r": b"\r", b"t": b"\t"}
RX = re.compile(rb"\\(?:([\"\\/bfnrt])|u([dD][89abAB][0-9a-fA-F]{2})\\u([dD][c-fC-F][0-9a-fA-F]{2})|u([0-9a-fA-F]{4}))")


def unesc(s):
    def rep(m):
        if m.group(1):
            return UNESC[m.group(1)]
        if m.group(2):
            return chr(0x10000 + ((int(m.group(2), 16) - 0xd800) << 10) + int(m.group(3), 16) - 0xdc00).encode()
        v = int(m.group(4), 16)
        return m.group(0) if v == 0 or 0xd800 <= v < 0xe000 else chr(v).encode()
    return RX.sub(rep, s)


def g_unquote(ctx, i, rng):
    """Unquoting of arbitrary text: escapes as in JSON, errors for missing quotes."""
    g = fn("strnunquote", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int, c.c_void_p, c.c_int)
    p = fn("strnput_unquote", c.c_int, c.c_void_p, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int, c.c_void_p, c.c_int)
    for _ in range(60):
        parts = [rng.choice([b"a", b"\\n", b"\\\"", b"\\\\", b"\\/", b"\\u00e5", b"\\u0000", b"\\ud83d\\ude00", b"\\ud83d",
                             b"\\ude00", b"\\u4e2D", b"\\u12", b"\\q", b"\\", b" ", b"'", "æ".encode(), b"\\u001f",
                             rtext(rng, 3)]) for _ in range(rng.randint(0, 8))]
        s = b"".join(parts)
        quoted = rng.random() < .6
        if quoted:
            # the first unescaped quote ends the string
            k = 0
            while k < len(s) and s[k:k+1] != b'"':
                m = RX.match(s, k)
                k = m.end() if m and not (m.group(4) and unesc(m.group(0)) == m.group(0)) else k + 1
            if k > len(s):
                k = len(s)
            text = b'"' + s + rng.choice([b'"', b'"', b'" tail', b""])
            j = 1
            while j < len(text) and text[j:j+1] != b'"':
                m = RX.match(text, j)
                j = m.end() if m and unesc(m.group(0)) != m.group(0) else j + 1
            lead = rng.choice([b"", b"  "])
            if j >= len(text):
                want, used = -2, None
            else:
                want, used = unesc_all(text[1:j]), len(lead) + j + 1
            text = lead + text
            if rng.random() < .1:
                text, want = rng.choice([b"", b"x", b" x\"", b"'a'"]), -1
            flags = 0
        else:
            text, want, flags, used = s, unesc_all(s), NOQUOTE | INITIAL, len(s)
        src = mem.z(text)
        cons = c.c_int(-7)
        size = max(0, cut(rng, len(want))) if not isinstance(want, int) else 5
        d = mem(size)
        r = g(d.p, size, src.p, rng.choice([-1, len(text)]) if not quoted else -1, c.addressof(cons), flags)
        if isinstance(want, int):
            ctx.eq(r, want, "unquote-error", text)
            ctx.sig("unquote-error", r)
            continue
        filled(ctx, "unescape", d, size, want, r, text)
        ctx.eq(cons.value, used, "unescape-consumed", text)
        # allocating version keeps what is before `pos`
        old = rtext(rng, rng.choice([0, 3, 9]))
        bp, bs = c.c_void_p(libc.strdup(old) if old else None), c.c_size_t(len(old) + 1 if old else 0)
        pos = rng.randint(0, len(old))
        r = p(c.addressof(bp), c.addressof(bs), pos, src.p, -1, c.addressof(cons), flags)
        ctx.eq(r, len(want), "put-unquote-length", text)
        ctx.check(bs.value >= pos + r + 1, "put-unquote-size", (bs.value, pos, r))
        ctx.eq(take_str(bp.value), old[:pos] + want, "put-unquote", (old, pos, text))
        ctx.sig("unescape", quoted, tuple(sorted(x[:2] for x in parts if x[:1] == b"\\"))[:3])


def unesc_all(s):
    out, j = b"", 0
    while j < len(s):
        m = RX.match(s, j)
        if m and unesc(m.group(0)) != m.group(0):
            out += unesc(m.group(0))
            j = m.end()
        else:
            out += s[j:j+1]
            j += 1
    return out


def g_write(ctx, i, rng):
    """strsetc/strsets/strsetn, strput/strnput, strnput_escape and the allocating printers."""
    sets = fn("strsets", c.c_int, c.c_void_p, c.c_long, c.c_void_p)
    setn = fn("strsetn", c.c_int, c.c_void_p, c.c_long, c.c_void_p, c.c_int)
    put = fn("strput", c.c_int, c.c_void_p, c.c_void_p, c.c_size_t, c.c_void_p)
    nput = fn("strnput", c.c_int, c.c_void_p, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int)
    esc = fn("strnput_escape", c.c_int, c.c_void_p, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int, c.c_int, c.c_char_p)
    for _ in range(40):
        s = gen.text(rng).encode().replace(b"\0", b"") if rng.random() < .7 else rtext(rng)
        n = rng.choice([-1, -1, 0, len(s) // 2, len(s)])
        try:
            s.decode()
            part = (s if n < 0 else s[:n])
            part.decode()
            valid = True
        except UnicodeDecodeError:
            valid = False
        size = max(0, cut(rng, len(part if valid else s)))
        d = mem(size)
        src = mem(s[:n]) if n >= 0 else mem.z(s)
        part = s[:n] if n >= 0 else s
        r = setn(d.p, size, src.p, n) if n >= 0 or rng.random() < .5 else sets(d.p, size, src.p)
        ctx.eq(r, len(part), "sets-length", (s, n))
        if size:
            ctx.check(d.str is not None, "sets-unterminated", (s, size))
            if valid:
                full = part[:size-1]
                while True:
                    try:
                        full.decode()
                        break
                    except UnicodeDecodeError:
                        full = full[:-1]
                ctx.eq(d.str, full, "sets-text", (s, n, size))
        ctx.sig("sets", valid, n >= 0, (size > len(part)) - (size < len(part)))

        # growing buffers
        model, bp, bs = b"", c.c_void_p(None), c.c_size_t(0)
        for _ in range(rng.randint(1, 8)):
            s = rtext(rng)
            pos = rng.choice([len(model), len(model), rng.randint(0, len(model))])
            how = rng.randrange(4)
            if how == 0:
                src = mem.z(s)
                r = put(c.addressof(bp), c.addressof(bs), pos, src.p)
                ctx.eq(r, len(s), "put-length", s)
                model = model[:pos] + s
            elif how == 1:
                n = rng.randint(0, len(s))
                src = mem(s[:n])
                r = nput(c.addressof(bp), c.addressof(bs), pos, src.p, n)
                ctx.eq(r, n, "nput-length", s)
                model = model[:pos] + s[:n]
            else:
                e = rng.choice([b"%", b"_", b"\\x", b""])
                cat = rng.choice([UP, LOW, DIG, UNR, SUB, GEN, PCT, CX, SPC])
                n = rng.choice([-1, 0, len(s) // 2, len(s)])
                src = mem.z(s)
                t = b"".join(bytes([ch]) if CAT[ch] <= cat else e + b"%02X" % ch for ch in (s if n < 0 else s[:n]))
                r = esc(c.addressof(bp), c.addressof(bs), pos, src.p, n, cat, e)
                ctx.eq(r, pos + len(t), "escape-length", (s, n, cat))
                model = model[:pos] + t
            ctx.check(bs.value > len(model), "put-size", (bs.value, len(model)))
            ctx.eq(c.string_at(bp.value), model, "put-text", (how, pos, s))
            ctx.sig("put", how, pos == len(model))
        libc.free(bp)

        # allocating printf family
        model, bp, bs = b"", c.c_void_p(None), c.c_size_t(0)
        pr = getattr(C, "rpl_asnpprintf")
        pr.restype, pr.argtypes = c.c_int, None
        for _ in range(rng.randint(1, 6)):
            s, k = rtext(rng), rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-999, 999)])
            w = rng.choice([0, 3, 12])
            pos = rng.randint(0, len(model))
            src = mem.z(s)
            r = pr(c.c_void_p(c.addressof(bp)), c.c_void_p(c.addressof(bs)), c.c_size_t(pos), c.c_char_p(b"%s|%*d"),
                   c.c_void_p(src.p), c.c_int(w), c.c_int(k))
            t = s + b"|" + str(k).rjust(w).encode()
            ctx.eq(r, len(t), "asnpprintf-length", (s, k))
            model = model[:pos] + t
            ctx.check(bs.value > len(model), "asnpprintf-size", bs.value)
            ctx.eq(c.string_at(bp.value), model, "asnpprintf-text", (pos, s, k))
        libc.free(bp)
        ap = getattr(C, "aprintf")
        ap.restype, ap.argtypes = c.c_void_p, None
        src = mem.z(s)
        ctx.eq(take_str(ap(c.c_char_p(b"<%s %d>"), c.c_void_p(src.p), c.c_int(k))), b"<" + s + b" %d>" % k, "aprintf")
        d = mem(rng.choice([1, 2, len(s) + 1, len(s) + 40]))
        sn = getattr(C, "rpl_snprintf", None) if hasattr(C, "rpl_snprintf") else libc.snprintf
        r = libc.snprintf(c.c_void_p(d.p), c.c_size_t(d.n), c.c_char_p(b"%s"), c.c_void_p(src.p))
        ctx.eq((r, d.str), (len(s), s[:d.n-1]), "snprintf")


def g_hex(ctx, i, rng):
    enc = fn("strhex_encode", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_size_t)
    dec = fn("strhex_decode", c.c_int, c.c_void_p, c.c_size_t, c.c_void_p, c.c_int)
    for _ in range(80):
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 8, 33]))
        h = data.hex().encode()
        size = max(0, cut(rng, len(h)))
        d, src = mem(size), mem(data)
        r = enc(d.p, size, src.p, len(data))
        ctx.eq(r, len(h), "hex-length", data)
        if size:
            # whole bytes only
            ctx.eq(d.str, h[:(size - 1) // 2 * 2], "hex-text", (size, data))
        text = bytes(rng.choice([ch, ch, ord(chr(ch).upper())]) for ch in h)
        bad = rng.random() < .3
        if bad and text:
            k = rng.randrange(len(text))
            text = rng.choice([text[:-1], text[:k] + bytes([rng.choice(b"gGxX /:@`\x80\xff-+ ")]) + text[k+1:]])
        size = rng.choice([0, len(data) // 2, len(data), len(data) + 3])
        d = mem(size)
        lim = rng.random() < .5
        src = mem(text) if lim else mem.z(text)
        r = dec(d.p, size, src.p, len(text) if lim else -1)
        k = 2 * min(size, len(data))
        if len(text) % 2 or not re.fullmatch(rb"[0-9a-fA-F]*", text[:k]):
            ctx.eq(r, -1, "hex-invalid", (text, size))
        else:
            ctx.eq(r, len(text) // 2, "hex-decode-length", text)
            ctx.eq(d.raw, bytes.fromhex(text[:k].decode()) + b"\x5a" * (size - k // 2), "hex-decode", (text, size))
        ctx.sig("hex", bad, lim, size >= len(data), r < 0, len(data) > 0)


def g_utf8(ctx, i, rng):
    enc = fn("utf8encode", c.c_int, c.c_long, c.c_void_p)
    dec = fn("utf8decode", c.c_int, c.c_void_p, c.c_void_p)
    v = c.c_long()
    for _ in range(150):
        x = rng.choice([rng.randint(0, 0x7f), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xffff),
                        rng.randint(0x10000, 0x10ffff), 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff])
        if 0xd800 <= x < 0xe000:
            continue
        want = chr(x).encode()
        d = mem(len(want) + 1)
        ctx.eq(enc(x, d.p), len(want), "utf8-length", x)
        ctx.eq(d.raw, want + b"\0", "utf8-encode", x)
        ctx.eq(enc(x, None), len(want), "utf8-length0", x)
        src = mem(want)
        ctx.eq((dec(src.p, c.addressof(v)), v.value), (len(want), x), "utf8-decode", x)
        k = rng.randrange(len(want))
        bad = rng.choice([want[:k] + (b"a" if k else b""), want[:k] + b"\0", want[1:] if len(want) > 1 else b"\x80", b"\xff", b"\xfe"])
        if bad and bad[0] >= 0x80 or bad[:1] == b"":
            src = mem.z(bad)
            try:
                bad[:1].decode()
            except UnicodeDecodeError:
                ctx.eq(dec(src.p, c.addressof(v)), 0, "utf8-invalid", bad)
        big = rng.choice([0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff])
        d = mem(7)
        n = enc(big, d.p)
        ctx.eq((dec(d.p, c.addressof(v)), v.value), (n, big), "utf8-big", big)
        ctx.eq(enc(0x80000000, d.p), 0, "utf8-toobig")
        ctx.sig("utf8", len(want), k, n)


def g_category(ctx, i, rng):
    f = fn("strcategory", c.c_int, c.c_int)
    for ch in range(256):
        ctx.eq(f(ch), CAT[ch], "category", ch)
        ctx.eq(f(ch - 256 if ch > 127 else ch), CAT[ch], "category-signed", ch)
    fs = [(fn(n, c.c_int, c.c_void_p, c.c_int), g) for n, g in
          [("strcatspn", lambda x, k: x == k), ("strcatcspn", lambda x, k: x != k),
           ("strcatjspn", lambda x, k: x <= k), ("strcatcjspn", lambda x, k: x > k)]]
    for _ in range(100):
        cat = rng.choice([UP, LOW, DIG, UNR, SUB, GEN, PCT, CX, SPC, OTH])
        pool = [ch for ch in range(1, 256) if CAT[ch] == cat] or [1]
        s = bytes(rng.choice(pool) for _ in range(rng.randint(0, 6))) + rtext(rng)
        src = mem.z(s)
        for k, (g, test) in enumerate(fs):
            n = 0
            while n < len(s) and test(CAT[s[n]], cat):
                n += 1
            ctx.eq(g(src.p, cat), n, "span", (k, s, cat))
        ctx.sig("span", cat, n > 0)


def g_strlst(ctx, i, rng):
    ins = fn("strlst_insert", c.c_void_p, c.c_void_p, c.c_void_p, c.c_char_p, c.c_int)
    app = fn("strlst_append", c.c_void_p, c.c_void_p, c.c_void_p, c.c_char_p)
    cnt = fn("strlst_count", c.c_size_t, c.c_void_p)
    get = fn("strlst_get", c.c_char_p, c.c_void_p, c.c_int)
    rem = fn("strlst_remove", c.c_int, c.c_void_p, c.c_int)
    pop = fn("strlst_pop", c.c_void_p, c.c_void_p, c.c_int)
    free = fn("strlst_free", None, c.c_void_p)
    lst, n, model = None, c.c_size_t(0), []
    for _ in range(rng.choice([10, 60, 150])):
        how = rng.choice("aaaiiigrp")
        s = rtext(rng, rng.choice([0, 1, 5, 30]))
        k = rng.choice([0, 1, -1, len(model), -len(model), -len(model) - 1, len(model) + 1, rng.randint(-5, 40)])
        valid = -len(model) <= k < len(model)
        if how == "a":
            lst = app(lst, c.addressof(n), s)
            model.append(s)
        elif how == "i":
            lst = ins(lst, c.addressof(n), s, k)
            j = k + len(model) if k < 0 else k
            model.insert(j if 0 <= j <= len(model) else len(model), s)
        elif lst is None:
            continue
        elif how == "g":
            ctx.eq(get(lst, k), model[k] if valid else None, "strlst-get", (k, len(model)))
        elif how == "r":
            ctx.eq(bool(rem(lst, k)), not valid, "strlst-remove", (k, len(model)))
            if valid:
                del model[k]
        else:
            ctx.eq(take_str(pop(lst, k)), model.pop(k) if valid else None, "strlst-pop", (k, len(model)))
        ctx.check(n.value > len(model), "strlst-size", (n.value, len(model)))
        ctx.eq(cnt(lst), len(model), "strlst-count")
        ctx.eq([get(lst, x) for x in range(len(model) + 1)], model + [None], "strlst", how)
        ctx.sig("strlst", how, valid, len(model) // 32)
    free(lst)


NUM = r"(0|[1-9]\d*)"
SEMVER = re.compile(NUM + r"\." + NUM + r"\." + NUM + r"(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)"
                    r"(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?")


def rident(rng):
    return rng.choice(["0", "1", "2", "10", "99999999999", "a", "b", "1a", "rc1", "alpha", "x-y", "-", "--1", "A", "a0",
                       str(rng.randint(0, 300))])


def rversion(rng):
    v = ".".join(str(rng.choice([0, 1, 2, 9, 10, 11, rng.randint(0, 300), rng.choice([2**31 - 1, 2**31, 2**40])]))
                 for _ in range(3))
    if rng.random() < .6:
        v += "-" + ".".join(rident(rng) for _ in range(rng.randint(1, 4)))
    if rng.random() < .3:
        v += "+" + ".".join(rng.choice(["001", "00", rident(rng)]) for _ in range(rng.randint(1, 3)))
    return v


def key(v):
    m = SEMVER.fullmatch(v)
    pre = [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in m.group(4).split(".")] if m.group(4) else []
    return [int(m.group(k)) for k in (1, 2, 3)], pre


def g_semver(ctx, i, rng):
    chk = fn("strchk_semver", c.c_int, c.c_void_p)
    nchk = fn("strnchk_semver", c.c_int, c.c_void_p, c.c_size_t)
    cmp_ = fn("strcmp_semver", c.c_int, c.c_void_p, c.c_void_p)
    ncmp = fn("strncmp_semver", c.c_int, c.c_void_p, c.c_void_p, c.c_size_t)
    for _ in range(120):
        v = rversion(rng)
        w = rversion(rng)
        if rng.random() < .6:                                  # close relatives
            w = v
            k = rng.randrange(len(w))
            w = rng.choice([w[:k] + rng.choice("0123abz-.+") + w[k+1:], w + rng.choice(["0", ".1", "-a", "+b"]),
                            w[:k] + rng.choice("019a.-") + w[k:], w.split("+")[0], w.split("-")[0]])
        for t in (v, w):
            src = mem.z(t)
            ok = SEMVER.fullmatch(t)
            ctx.eq(chk(src.p), len(t) if ok else -1, "semver-check", t)
            n = rng.randint(0, len(t) + 3)
            ok = SEMVER.fullmatch(t[:n])
            src = mem(t[:n].encode()) if n <= len(t) else src
            ctx.eq(nchk(src.p, n), len(t[:n]) if ok else -1, "semver-ncheck", (t, n))
            ctx.sig("semver", bool(ok), n < len(t), "-" in t, "+" in t)
        a, b = mem.z(v), mem.z(w)
        if SEMVER.fullmatch(v) and SEMVER.fullmatch(w):
            x, y = key(v), key(w)
            if x[0] == y[0] and bool(x[1]) != bool(y[1]):
                continue                                       # see kf-semver-release
            want = (x > y) - (x < y)
            ctx.eq(cmp_(a.p, b.p), want, "semver-order", (v, w))
            ctx.eq(cmp_(b.p, a.p), -want, "semver-order", (w, v))
            ctx.eq(ncmp(a.p, b.p, max(len(v), len(w)) + rng.randint(0, 9)), want, "semver-norder", (v, w))
            ctx.sig("semver-order", want, bool(x[1]), x[0] == y[0])
        else:
            cmp_(a.p, b.p)                                     # undefined but safe
            ncmp(a.p, b.p, rng.randint(0, 20))
            s = rtext(rng)
            x = mem.z(s)
            ctx.eq(chk(x.p), -1, "semver-garbage", s)
            cmp_(x.p, a.p)
            cmp_(a.p, x.p)
        n = rng.randint(0, len(v))
        b = mem.z(v)
        ctx.eq(ncmp(a.p, b.p, n), 0, "semver-prefix", (v, n))


def g_number(ctx, i, rng):
    nat = fn("natoi", c.c_int, c.c_void_p, c.c_int)
    sb = fn("strtob", c.c_int, c.c_void_p, c.c_void_p)
    ab = fn("atob", c.c_int, c.c_void_p)
    up, down = fn("clp2", c.c_size_t, c.c_size_t), fn("flp2", c.c_size_t, c.c_size_t)
    end = c.c_void_p()
    for _ in range(150):
        s = rng.choice(["", " ", "\t\n", "  "]) + rng.choice(["", "-", "+", "-+", "--"]) + \
            rng.choice(["", str(rng.randint(0, 99)), str(rng.randint(0, 2**31 - 1)), "007", "2147483647", "2147483648",
                        "99999999999999999999999"]) + rng.choice(["", "x", " 3", ".5", "\xff"])
        raw = s.encode("latin-1")
        n = rng.choice([0, 1, 2, len(raw), len(raw) + 1, rng.randint(-3, len(raw))])
        src = mem(raw[:max(n, 0)]) if n <= len(raw) else mem.z(raw)
        m = re.match(rb"[ \t\n\v\f\r]*([-+]?)(\d*)", raw[:max(n, 0)])
        x = int(m.group(2) or 0) * (-1 if m.group(1) == b"-" else 1)
        ctx.eq(nat(src.p, n), max(-2**31, min(2**31 - 1, x)), "natoi", (s, n))

        word = rng.choice(["1", "true", ".true.", "yes", "on", "0", "false", ".false.", "no", "off", "", "t", "y", "-1",
                           "tru", "2", "null", ".true", rng.choice("abcfnoty")])
        word = "".join(rng.choice([ch, ch.upper()]) for ch in word)
        s = rng.choice(["", " ", "\t\n"]) + word + rng.choice(["", " ", ", x", "z", "1"])
        src = mem.z(s)
        t = s.lstrip(" \t\n\v\f\r")
        want, used = -1, None
        for val, words in ((1, ["1", "true", ".true.", "yes", "on"]), (0, ["0", "false", ".false.", "no", "off"])):
            for z in words:
                if t.lower().startswith(z) and used is None:
                    want, used = val, len(s) - len(t) + len(z)
        if s == "":
            want, used = 0, 0
        elif used is None:
            used = len(s) - len(t) + (1 if t else 0)
        ctx.eq(sb(src.p, c.addressof(end)), want, "strtob", s)
        ctx.eq((end.value or 0) - src.p, used, "strtob-end", s)
        ctx.eq(ab(src.p), want, "atob", s)
        ctx.sig("bool", want, used == len(s), word.lower()[:2])

        x = rng.choice([1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63,
                        rng.getrandbits(rng.randint(1, 63)) or 1])
        ctx.eq(up(x), 1 << (x - 1).bit_length(), "clp2", x)
        ctx.eq(down(x), 1 << (x.bit_length() - 1), "flp2", x)


def g_kf_release(ctx, i, rng):
    """A pre-release precedes its release (semantic versioning 2.0.0, rule 11.3)."""
    v = "%d.%d.%d" % tuple(rng.randint(0, 30) for _ in range(3))
    ctx.eq(fn("strcmp_semver", c.c_int, c.c_char_p, c.c_char_p)((v + "-rc1").encode(), v.encode()), -1, "pre-release-order", v)


GROUPS = [("quote", g_quote, 40, 800), ("unquote", g_unquote, 40, 800), ("write", g_write, 30, 600), ("hex", g_hex, 20, 300),
          ("utf8", g_utf8, 10, 200), ("category", g_category, 6, 60), ("strlst", g_strlst, 30, 400),
          ("semver", g_semver, 40, 800), ("number", g_number, 20, 400), ("kf-semver-release", g_kf_release, 1, 1)]
