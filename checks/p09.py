"""P09: casts between types and memory layouts."""
import ctypes as c, math, struct
from dl import *
import gen

RULE = "distinct (source type, destination type, layout class, outcome) combinations observed"
NUM = (INT, UINT, FLOAT)
ERR, ANY = ("error",), ("any",)


def setup():
    quiet()


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.inf if v > 0 else -math.inf


def fits(v, dt, sz):
    lo, hi = (-(1 << 8*sz - 1), (1 << 8*sz - 1) - 1) if dt == INT else (0, (1 << 8*sz) - 1)
    return lo <= v <= hi


def cstrtoll(s):
    """int(s, 0) in the manner of strtoll(): value or None."""
    import re
    m = re.match(r"[ \t\n\v\f\r]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)$", s)
    if not m:
        return None
    t = m.group(2)
    v = int(t, 16) if t[:2].lower() == "0x" else int(t, 8) if t[0] == "0" else int(t)
    return -v if m.group(1) == "-" else v


def cstrtod(s):
    import re
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)$", s, re.A)
    if m:
        return float(m.group(1))
    m = re.match(r"[ \t\n\v\f\r]*([+-]?0[xX][0-9a-fA-F]+)$", s)
    return float(int(m.group(1), 16)) if m else None


def expect(v, sdt, ssz, ddt, dsz):
    """Expected value after the cast, ERR for an error, ANY when the outcome is not specified, or a predicate."""
    if sdt in (FIXSTR, STRPTR):
        s = v
        if ddt == STRPTR:
            return s
        if ddt == FIXSTR:
            return (s or "").encode()[:dsz - 1]
        if ddt == BLOB:
            return (s or "").encode()[:dsz].ljust(dsz, b"\0")
        if ddt == BOOL:
            return bool(s)
        if s is None:
            return ERR
        if ddt == FLOAT:
            x = cstrtod(s)
            return ERR if x is None else f32(x) if dsz == 4 else x
        x = cstrtoll(s)
        return ERR if x is None or not fits(x, ddt, dsz) else x
    if ddt in (FIXSTR, STRPTR):
        if sdt == BLOB:
            t = v.hex()
        elif sdt == BOOL:
            t = "true" if v else "false"
        elif sdt in (INT, UINT):
            t = str(v)
        else:
            def pred(got):
                b = got if isinstance(got, bytes) else got.encode()
                if ddt == FIXSTR and len(b) == dsz - 1:
                    return True                         # possibly truncated
                x = cstrtod(b.decode())
                return x is not None and (f32(x) if ssz == 4 else x) == v
            return pred
        return t if ddt == STRPTR else t.encode()[:dsz - 1]
    if ddt == BLOB or (sdt == BLOB and ddt in NUM):
        raw = gen.pack(v, sdt, ssz, [])[:dsz].ljust(dsz, b"\0")
        return raw if ddt == BLOB else ("raw", raw)
    if ddt == BOOL:
        return any(v) if sdt == BLOB else bool(v)
    if sdt in (INT, UINT, BOOL) and ddt in (INT, UINT):
        v = int(v)
        if fits(v, ddt, dsz):
            return v
        return ERR if ddt == UINT and v < 0 else ANY
    if ddt == FLOAT:
        if sdt in (INT, UINT):
            if dsz == 4:                               # direct int -> float32 rounding, without passing through double
                return lambda got: got == v if abs(v) <= 1 << 24 else abs(got - v) <= abs(v) / (1 << 23)
            return float(v)
        return f32(float(v)) if dsz == 4 else float(v)
    if sdt == FLOAT:
        if v != v or math.isinf(v):
            return ANY
        if ddt == UINT and v < 0:
            return ERR
        return int(v) if fits(int(v), ddt, dsz) else ANY
    raise ValueError((sdt, ddt))


NUMTXT = ["0", "-0", "1", "-1", "127", "128", "255", "256", "-128", "-129", "65535", "65536", "32768", "-32769",
          "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
          "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
          "-9223372036854775808", "0x1F", "017", "08", " 42", "42 ", "+7", "--3", "1e3", "1.5", "-2.25e-3", ".5", "5.",
          "3,4", "abc", "", "-", "+", "0x", "12a", "1e", "1e400", "-1e400", "true", " "]


def rand_value(rng, dt, sz):
    if dt in (FIXSTR, STRPTR) and rng.random() < .7:
        k = rng.random()
        t = rng.choice(NUMTXT) if k < .6 else str(gen.randint(rng, 8)) if k < .8 else repr(gen.randfloat(rng, 8, False))
        if dt == FIXSTR and len(t) > sz - 1:
            return str(rng.randint(0, 9))[:sz - 1]
        return t
    if dt == FLOAT and rng.random() < .6:
        v = rng.choice([float(rng.randint(-300, 300)), rng.uniform(-130, 260), rng.uniform(-3e4, 7e4), rng.uniform(0, 4e9),
                        0.0, -0.5, 0.999, 254.99, -128.5])
        return f32(v) if sz == 4 else v
    if dt in (INT, UINT) and rng.random() < .4:
        v = rng.choice([0, 1, 2, 100, 127])
        return -v if dt == INT and rng.random() < .5 else v
    return gen.rand_value(rng, dt, sz, special=False)


def rand_type(rng):
    dt = rng.choice([BLOB, BOOL, INT, INT, UINT, UINT, FLOAT, FLOAT, FIXSTR, STRPTR])
    sz = {BOOL: [1], INT: [1, 2, 4, 8], UINT: [1, 2, 4, 8], FLOAT: [4, 8], STRPTR: [8],
          BLOB: [1, 2, 3, 4, 8, 9, 16, 33], FIXSTR: [2, 3, 5, 8, 12, 24, 41]}[dt]
    return dt, rng.choice(sz)


class Arr:
    """An n-dimensional array in a malloc'ed block of exactly the memory spanned by its layout; the gaps hold a pattern."""

    def __init__(self, rng, dt, sz, dims, layout):
        n = len(dims)
        self.dt, self.sz, self.dims = dt, sz, dims
        order = list(range(n))
        if layout in ("perm", "permpad", "neg"):
            rng.shuffle(order)
        al = 1 if dt in (BLOB, FIXSTR) else sz
        strides, step = [0] * n, -(-sz // al) * al
        for k in reversed(order):
            if layout in ("pad", "permpad", "neg"):
                step += al * rng.choice([0, 0, 1, 2, 3])
            strides[k] = step
            step *= max(1, dims[k])
        base = 0
        if layout == "neg":
            for k in range(n):
                if rng.random() < .5 and dims[k] > 0:
                    strides[k] = -strides[k]
                    base += -strides[k] * (dims[k] - 1)
        total = gen.prod(dims)
        span = sum(abs(s) * (d - 1) for s, d in zip(strides, dims)) + sz if total else 0
        self.strides, self.base, self.span = strides, base, span
        self.fillb = rng.randrange(1, 256)
        self.mem = mem(bytes([self.fillb]) * span) if span else None
        self.off = []
        idx = [0] * n
        for _ in range(total):
            self.off.append(base + sum(s * j for s, j in zip(strides, idx)))
            for k in reversed(range(n)):
                idx[k] += 1
                if idx[k] < dims[k]:
                    break
                idx[k] = 0

    @property
    def p(self):
        return self.mem.p + self.base if self.mem else None

    def put(self, k, raw):
        c.memmove(self.mem.p + self.off[k], raw, len(raw))

    def get(self, k):
        return c.string_at(self.mem.p + self.off[k], self.sz)

    def gaps(self):
        """Bytes outside all elements must still hold the pattern."""
        if not self.mem:
            return True
        b = bytearray(c.string_at(self.mem.p, self.span))
        for o in self.off:
            b[o:o + self.sz] = bytes([self.fillb]) * self.sz
        return b == bytes([self.fillb]) * self.span

    def free_strings(self):
        if self.dt == STRPTR:
            for k in range(len(self.off)):
                q = int.from_bytes(self.get(k), "little")
                if q:
                    libc.free(q)
                self.put(k, b"\0" * 8)


def getval(raw, dt, sz):
    if dt == STRPTR:
        q = int.from_bytes(raw, "little")
        return c.string_at(q).decode("utf8", "surrogateescape") if q else None
    if dt == FIXSTR:
        t = raw.split(b"\0")[0]
        return t if raw[len(t):].strip(b"\0") == b"" else ("badtail", raw)
    return gen.unpack(raw, dt, sz)


def ok_value(raw, dt, sz, want):
    if want is ANY:
        return True
    if isinstance(want, tuple) and want[:1] == ("raw",):
        return raw == want[1]
    got = getval(raw, dt, sz)
    if callable(want):
        return want(got)
    if isinstance(want, float):
        return got == want or (got != got and want != want)
    return got == want and type(got) is type(want)


LAYOUTS = ["C", "C", "null", "pad", "perm", "permpad", "neg"]


def one(ctx, rng, types, values=None, scalar=False):
    (sdt, ssz), (ddt, dsz) = types
    nd = 0 if scalar else rng.choice([1, 1, 2, 2, 3, 4])
    dims = [rng.choice([0, 1, 1, 2, 3, 4, 5]) for _ in range(nd)]
    if 0 in dims and rng.random() < .7:
        dims = [d or 2 for d in dims]
    sl, dl = rng.choice(LAYOUTS), rng.choice(LAYOUTS)
    ddims = list(dims)
    if nd > 1 and rng.random() < .25:
        rng.shuffle(ddims)             # same number of elements in another shape: row-major order is preserved
    src, dst = Arr(rng, sdt, ssz, dims, sl), Arr(rng, ddt, dsz, ddims, dl)
    n, keep = gen.prod(dims), []
    vals = values or [rand_value(rng, sdt, ssz) for _ in range(n)]
    want = [expect(v, sdt, ssz, ddt, dsz) for v in vals]
    if rng.random() < .7 and ERR in want or ANY in want:
        for k in range(n):             # most arrays without failing elements
            if want[k] is ERR or want[k] is ANY:
                for v in (rng.choice([0, 1, 3, 7]), None):
                    if v is None:
                        return
                    vals[k] = {FIXSTR: str(v)[:ssz - 1], STRPTR: str(v), FLOAT: float(v), BOOL: bool(v),
                               BLOB: b"\1" * ssz}.get(sdt, v)
                    want[k] = expect(vals[k], sdt, ssz, ddt, dsz)
                    if want[k] is not ERR and want[k] is not ANY:
                        break
    for k, v in enumerate(vals):
        src.put(k, gen.pack(v, sdt, ssz, keep))
    if ddt == STRPTR:
        for k in range(n):             # half of the elements already own a string
            if rng.random() < .5:
                q = libc.malloc(4)
                c.memmove(q, b"old\0", 4)
                dst.put(k, q.to_bytes(8, "little"))
            else:
                dst.put(k, b"\0" * 8)
    elif ddt == BOOL:
        for k in range(n):
            dst.put(k, b"\1" if rng.random() < .5 else b"\0")
    before = [dst.get(k) for k in range(n)]
    sraw = src.mem.raw if src.mem else b""
    sst = None if sl == "null" else (c.c_int * max(1, nd))(*src.strides)
    dst_ = None if dl == "null" else (c.c_int * max(1, nd))(*dst.strides)
    r = C.dlite_type_ndcast(nd, dst.p, ddt, dsz, szarr(ddims), dst_, src.p, sdt, ssz, szarr(dims), sst, None)
    what = lambda: dict(types=types, dims=dims, ddims=ddims, sstrides=src.strides, dstrides=dst.strides, layouts=(sl, dl),
                        vals=vals[:20])
    bad = next((k for k in range(n) if want[k] is ERR), None)
    if bad is None:
        ctx.check(r == 0, "cast-failed", lambda: (what(), C.dlite_errmsg()))
        for k in range(n):
            ctx.check(ok_value(dst.get(k), ddt, dsz, want[k]), "element",
                      lambda: (what(), k, vals[k], want[k], dst.get(k), getval(dst.get(k), ddt, dsz)))
    else:
        ctx.check(r != 0 and errval() != 0, "accepts-unrepresentable", lambda: (what(), vals[bad]))
        for k in range(bad):
            ctx.check(ok_value(dst.get(k), ddt, dsz, want[k]), "element-before-error", lambda: (what(), k, dst.get(k)))
        for k in range(bad + 1, n):
            ctx.eq(dst.get(k), before[k], "element-after-error", lambda: (what(), k))
        if ddt in NUM:
            ctx.eq(dst.get(bad), before[bad], "failed-element-changed", what)
        errclr()
    ctx.check(dst.gaps(), "writes-outside-elements", what)
    ctx.eq(src.mem.raw if src.mem else b"", sraw, "source-changed", what)
    ctx.sig("nd", types, sl, dl, "ok" if bad is None else "err", dims == ddims)
    dst.free_strings()


def g_pairs(ctx, i, rng):
    """Every pair of types, scalars and arrays."""
    T = [(BOOL, 1), (INT, 1), (INT, 2), (INT, 4), (INT, 8), (UINT, 1), (UINT, 2), (UINT, 4), (UINT, 8), (FLOAT, 4),
         (FLOAT, 8), (STRPTR, 8), (BLOB, rng.choice([1, 2, 5, 8, 17])), (FIXSTR, rng.choice([2, 4, 9, 25])), (FIXSTR, 30)]
    for s in T:
        for d in T:
            one(ctx, rng, (s, d))
            one(ctx, rng, (s, d), scalar=True)


def g_arrays(ctx, i, rng):
    for _ in range(120):
        one(ctx, rng, (rand_type(rng), rand_type(rng)))
    for _ in range(40):                                # same type, different layouts
        t = rand_type(rng)
        one(ctx, rng, (t, t))


def g_text(ctx, i, rng):
    """Every text in the list to every number type and back."""
    for t in NUMTXT + [str(gen.randint(rng, 8, rng.random() < .5)) for _ in range(20)] + \
            [gen.text(rng, 12) for _ in range(10)]:
        for d in ([(INT, s) for s in (1, 2, 4, 8)] + [(UINT, s) for s in (1, 2, 4, 8)] + [(FLOAT, 4), (FLOAT, 8), (BOOL, 1)]):
            for s in ((STRPTR, 8), (FIXSTR, len(t.encode()) + 1 + rng.choice([0, 0, 1, 9]))):
                w = expect(t, s[0], s[1], d[0], d[1])
                keep, a = [], mem(b"\x5a" * d[1])
                b = mem(gen.pack(t, s[0], s[1], keep))
                r = C.dlite_type_copy_cast(a.p, d[0], d[1], b.p, s[0], s[1])
                if w is ERR:
                    ctx.check(r != 0 and errval() != 0, "text-accepted", lambda: (t, s, d, a.raw))
                    ctx.eq(a.raw, b"\x5a" * d[1], "text-failed-changed", lambda: (t, s, d))
                    errclr()
                else:
                    ctx.check(r == 0 and ok_value(a.raw, d[0], d[1], w), "text-cast", lambda: (t, s, d, r, w, a.raw))
                ctx.sig("text", t if t in NUMTXT else len(t), d, w is ERR)
    for sz in (1, 2, 4, 8):                            # integers and floats survive the way through text
        for dt in (INT, UINT, FLOAT):
            if dt == FLOAT and sz < 4:
                continue
            for _ in range(8):
                v = gen.rand_value(rng, dt, sz, special=False)
                a, b, d = mem(gen.pack(v, dt, sz, [])), mem(b"\0" * 8), mem(b"\0" * sz)
                ctx.eq(C.dlite_type_copy_cast(b.p, STRPTR, 8, a.p, dt, sz), 0, "to-text", v)
                ctx.eq(C.dlite_type_copy_cast(d.p, dt, sz, b.p, STRPTR, 8), 0, "from-text", v)
                ctx.eq(gen.unpack(d.raw, dt, sz), v, "via-text", (dt, sz))
                libc.free(int.from_bytes(b.raw, "little"))


def g_rejects(ctx, i, rng):
    """Combinations without a cast, and element counts that differ, are errors that change nothing."""
    for _ in range(60):
        s, d = rand_type(rng), rand_type(rng)
        k = rng.randrange(3)
        if k == 0:
            dims, dd = [rng.randint(1, 4), rng.randint(1, 4)], [rng.randint(1, 4), rng.randint(1, 4)]
            if dims[0] * dims[1] == dd[0] * dd[1]:
                continue
            A, B = Arr(rng, *s, dims, "C"), Arr(rng, *d, dd, "C")
            raw = B.mem.raw
            r = C.dlite_type_ndcast(2, B.p, d[0], d[1], szarr(dd), None, A.p, s[0], s[1], szarr(dims), None, None)
            ctx.check(r != 0 and errval() != 0, "size-mismatch-accepted", lambda: (dims, dd))
            ctx.eq(B.mem.raw, raw, "size-mismatch-changed")
        else:
            o = rng.choice([DIM, PROP, REL, REF])
            osz = {DIM: c.sizeof(gen.Dm), PROP: c.sizeof(gen.Pr), REL: c.sizeof(gen.Tr), REF: 8}[o]
            a, b = mem(b"\0" * osz), mem(b"\x11" * d[1])
            if k == 1:
                r = C.dlite_type_copy_cast(b.p, d[0], d[1], a.p, o, osz)
                ctx.eq(b.raw, b"\x11" * d[1], "invalid-cast-changed", lambda: (o, d))
            else:
                b = mem(gen.pack(rand_value(rng, *d), d[0], d[1], keep := []))
                r = C.dlite_type_copy_cast(a.p, o, osz, b.p, d[0], d[1])
                ctx.eq(a.raw, b"\0" * osz, "invalid-cast-changed", lambda: (o, d))
            ctx.check(r != 0 and errval() != 0, "invalid-cast-accepted", lambda: (o, d, k))
        errclr()
        ctx.sig("reject", k, s[0], d[0])


def g_property(ctx, i, rng):
    """Casting and permuting the properties of instances."""
    e = gen.rand_entity(rng, kinds="niufsSb", maxdims=3, maxprops=6)
    meta = gen.c_meta(e)
    dv = [rng.randint(1, 4) for _ in e.dims]
    inst = gen.c_instance(meta, dv)
    vals = gen.rand_values(rng, e, dv, special=False)
    gen.fill(inst, e, vals)
    for k, p in enumerate(e.props):
        shape = e.shape_of(p, dv)
        n, flat = gen.prod(shape), vals[k] if p.shape else [vals[k]]
        for _ in range(3):
            ddt, dsz = rand_type(rng) if rng.random() < .7 else (p.dtype, p.size)
            want = [expect(v, p.dtype, p.size, ddt, dsz) for v in flat]
            if any(w is ANY for w in want):
                continue
            perm = list(range(len(shape)))
            order = None
            A = Arr(rng, ddt, dsz, shape, rng.choice(["C", "pad", "permpad", "neg"]) if shape else "C")
            if ddt == STRPTR:
                for j in range(n):
                    A.put(j, b"\0" * 8)
            elif ddt == BOOL:
                for j in range(n):
                    A.put(j, b"\0")
            r = C.dlite_instance_cast_property_by_index(inst, k, ddt, dsz, szarr(shape),
                                                        (c.c_int * max(1, len(shape)))(*A.strides), A.p, None)
            if any(w is ERR for w in want):
                ctx.check(r != 0 and errval() != 0, "property-cast-accepted", lambda: (p.tname, ddt, dsz, flat[:9]))
                errclr()
            else:
                ctx.check(r == 0, "property-cast-failed", lambda: (p.tname, ddt, dsz, flat[:9], C.dlite_errmsg()))
                for j in range(n):
                    ctx.check(ok_value(A.get(j), ddt, dsz, want[j]), "property-cast-element",
                              lambda: (p.tname, ddt, dsz, flat[j], want[j], A.get(j)))
            ctx.check(A.gaps(), "property-cast-gaps")
            A.free_strings()
            ctx.sig("prop", p.dtype, p.size, ddt, dsz, len(shape), r)
        # assign from another type and layout
        sdt, ssz = rand_type(rng) if rng.random() < .7 else (p.dtype, p.size)
        new = [rand_value(rng, sdt, ssz) for _ in range(n)]
        want = [expect(v, sdt, ssz, p.dtype, p.size) for v in new]
        if any(w is ANY or w is ERR for w in want):
            continue
        A, keep = Arr(rng, sdt, ssz, shape, rng.choice(["C", "pad", "permpad", "neg"]) if shape else "C"), []
        for j in range(n):
            A.put(j, gen.pack(new[j], sdt, ssz, keep))
        r = C.dlite_instance_assign_casted_property_by_index(inst, k, sdt, ssz, szarr(shape),
                                                             (c.c_int * max(1, len(shape)))(*A.strides), A.p, None)
        ctx.check(r == 0, "assign-failed", lambda: (p.tname, sdt, ssz, new[:9], C.dlite_errmsg()))
        q = C.dlite_instance_get_property_by_index(inst, k)
        for j in range(n):
            ctx.check(ok_value(c.string_at(q + j * p.size, p.size), p.dtype, p.size, want[j]), "assign-element",
                      lambda: (p.tname, sdt, ssz, new[j], want[j], c.string_at(q + j * p.size, p.size)))
        ctx.check(A.gaps(), "assign-source-gaps")
        ctx.sig("assign", p.dtype, p.size, sdt, ssz, len(shape))
        vals[k] = gen.get_prop(inst, k, p)
    for k, p in enumerate(e.props):                    # Fortran order and back
        shape = e.shape_of(p, dv)
        if not shape or p.dtype == STRPTR:
            continue
        q, n = C.dlite_instance_get_property_by_index(inst, k), gen.prod(shape)
        cells = [c.string_at(q + j * p.size, p.size) for j in range(n)]
        for order in b"CF":
            d = mem(n * p.size)
            ctx.eq(C.dlite_instance_copy_property(inst, p.name.encode(), order, d.p), 0, "copy-property", p.name)
            idx, cm = [0] * len(shape), []
            for _ in range(n):                          # row-major walk, position in destination by `order`
                st, pos = 1, 0
                for a in (range(len(shape)) if order == ord("F") else reversed(range(len(shape)))):
                    pos += idx[a] * st
                    st *= shape[a]
                cm.append(pos)
                for a in reversed(range(len(shape))):
                    idx[a] += 1
                    if idx[a] < shape[a]:
                        break
                    idx[a] = 0
            ctx.eq([d.raw[x * p.size:(x + 1) * p.size] for x in cm], cells, "copy-order", lambda: (chr(order), shape))
            c.memset(q, 0, n * p.size)
            ctx.eq(C.dlite_instance_assign_property(inst, p.name.encode(), order, d.p), 0, "assign-property", p.name)
            ctx.eq([c.string_at(q + j * p.size, p.size) for j in range(n)], cells, "assign-order",
                   lambda: (chr(order), shape))
            ctx.sig("order", order, len(shape), p.dtype)
    for k, p in enumerate(e.props):                    # nothing else changed
        ctx.check(gen.same(gen.get_prop(inst, k, p), vals[k]), "other-property-changed", p.name)
    C.dlite_instance_decref(inst)


GROUPS = [("pairs", g_pairs, 12, 300), ("arrays", g_arrays, 24, 900), ("text", g_text, 8, 100),
          ("rejects", g_rejects, 6, 60), ("property", g_property, 60, 2000)]
