"""P08: type names, sizes and text representations."""
import ctypes as c, json, math, struct
from dl import *
import gen

RULE = "distinct (operation, dtype, size, flags, width/precision class, outcome) combinations observed"
RAW, QUOTED, STRIP, UNESC = 1, 2, 4, 16

# independent statement of the type system: name -> (dtype, size, canonical name, alignment, C declaration of x)
TABLE = {
    "bool": (BOOL, 1, "bool", 1, "bool x", "bool x"),
    "int": (INT, 8, "int64", 8, "int64_t x", "long x"), "integer": (INT, 8, "int64", 8, "int64_t x", "long x"),
    "int8": (INT, 1, "int8", 1, "int8_t x", "char x"), "int16": (INT, 2, "int16", 2, "int16_t x", "short x"),
    "int32": (INT, 4, "int32", 4, "int32_t x", "int x"), "int64": (INT, 8, "int64", 8, "int64_t x", "long x"),
    "uint": (UINT, 8, "uint64", 8, "uint64_t x", "unsigned long x"),
    "uint8": (UINT, 1, "uint8", 1, "uint8_t x", "unsigned char x"),
    "uint16": (UINT, 2, "uint16", 2, "uint16_t x", "unsigned short x"),
    "uint32": (UINT, 4, "uint32", 4, "uint32_t x", "unsigned int x"),
    "uint64": (UINT, 8, "uint64", 8, "uint64_t x", "unsigned long x"),
    "float": (FLOAT, 8, "float64", 8, "float64_t x", "double x"),
    "single": (FLOAT, 4, "float32", 4, "float32_t x", "float x"),
    "double": (FLOAT, 8, "float64", 8, "float64_t x", "double x"),
    "float32": (FLOAT, 4, "float32", 4, "float32_t x", "float x"),
    "float64": (FLOAT, 8, "float64", 8, "float64_t x", "double x"),
    "string": (STRPTR, 8, "string", 8, "char *x", "char *x"), "str": (STRPTR, 8, "string", 8, "char *x", "char *x"),
    "ref": (REF, 8, "ref", 8, "DLiteInstance *x", "DLiteInstance *x"),
    "dimension": (DIMENSION, None, "dimension", 8, "DLiteDimension x", "DLiteDimension x"),
    "property": (PROPERTY, None, "property", 8, "DLiteProperty x", "DLiteProperty x"),
    "relation": (RELATION, None, "relation", 8, "DLiteRelation x", "DLiteRelation x"),
}
DTNAMES = {BLOB: "blob", BOOL: "bool", INT: "int", UINT: "uint", FLOAT: "float", FIXSTR: "fixstring",
           STRPTR: "string", REF: "ref", DIMENSION: "dimension", PROPERTY: "property", RELATION: "relation"}
ALLOCATED = {STRPTR, REF, DIMENSION, PROPERTY, RELATION}


def setup():
    quiet()
    for n, k in (("dimension", b"dimension"), ("property", b"property"), ("relation", b"relation")):
        TABLE[n] = (TABLE[n][0], S.s_sizeof(k)) + TABLE[n][2:]


def settype(name):
    dt, sz = c.c_int(-7), c.c_size_t(12345)
    r = C.dlite_type_set_dtype_and_size(name.encode() if isinstance(name, str) else name, c.byref(dt), c.byref(sz))
    return r, dt.value, sz.value


def g_names(ctx, i, rng):
    names = list(TABLE)
    rng.shuffle(names)
    for nm in names:
        dt, sz, canon, al, decl, native = TABLE[nm]
        tail = rng.choice(["", "", "", '"', " ", ",", "]", "}", '",\n'])
        r = settype(nm + tail)
        ctx.eq(r, (0, dt, sz), "type-by-name", nm + tail)
        ctx.sig("name", nm, tail)
        b = buf(32)
        ctx.eq((C.dlite_type_set_typename(dt, sz, b, 32), b.value.decode()), (0, canon), "canonical-name", nm)
        ctx.eq(settype(b.value)[1:], (dt, sz), "canonical-back", nm)
        for n in (1, rng.randint(2, 12)):
            b = buf(n)
            C.dlite_type_set_typename(dt, sz, b, n)
            ctx.eq(b.value.decode(), canon[:n - 1], "canonical-truncated", nm)
        ctx.eq(C.dlite_type_get_alignment(dt, sz), al, "alignment", nm)
        ctx.eq(bool(C.dlite_is_type(nm.encode())), True, "is-type", nm)
        for nref in (0, 1, 3):
            for nat, want in ((0, decl), (1, native)):
                if want is None:
                    continue
                w = want[:-1] + "*" * nref + "foo_1"
                m = len(w)
                for n in {1, m, m + 1, m + 5, rng.randint(1, m)}:
                    b = buf(n)
                    ctx.eq((C.dlite_type_set_cdecl(dt, sz, b"foo_1", nref, b, n, nat), b.value.decode()),
                           (m, w[:n - 1]), "cdecl", (nm, nref, nat, n))
    for dt in range(11):
        ctx.eq(C.dlite_type_get_dtypename(dt).decode(), DTNAMES[dt], "dtypename", dt)
        ctx.eq(C.dlite_type_get_dtype(DTNAMES[dt].encode()), dt, "dtype-by-name", dt)
        en = {BLOB: "Blob", BOOL: "Bool", INT: "Int", UINT: "UInt", FLOAT: "Float", FIXSTR: "FixString",
              STRPTR: "StringPtr", REF: "Ref", DIMENSION: "Dimension", PROPERTY: "Property", RELATION: "Relation"}[dt]
        ctx.eq(C.dlite_type_get_enum_name(dt).decode(), "dlite" + en, "enum-name", dt)
        ctx.eq(bool(C.dlite_type_is_allocated(dt)), dt in ALLOCATED, "is-allocated", dt)
    for dt in (-1, 11, 99):
        ctx.eq(C.dlite_type_get_dtypename(dt), None, "dtypename-invalid", dt)
        ctx.eq(C.dlite_type_get_enum_name(dt), None, "enumname-invalid", dt)
    errclr()
    for _ in range(30):    # sized types
        n = rng.choice([1, 2, 3, 7, 8, 9, 16, 100, 255, 256, 1000, rng.randint(1, 100000)])
        for nm, dt, sz, canon, decl in (("blob%d" % n, BLOB, n, "blob%d" % n, "uint8_t v[%d]" % n),
                                        ("string%d" % n, FIXSTR, n + 1, "string%d" % n, "char v[%d]" % (n + 1)),
                                        ("str%d" % n, FIXSTR, n + 1, "string%d" % n, "char v[%d]" % (n + 1))):
            ctx.eq(settype(nm), (0, dt, sz), "sized-type", nm)
            b = buf(64)
            ctx.eq((C.dlite_type_set_typename(dt, sz, b, 64), b.value.decode()), (0, canon), "sized-canonical", nm)
            ctx.eq(C.dlite_type_get_alignment(dt, sz), 1, "sized-alignment", nm)
            ctx.eq((C.dlite_type_set_cdecl(dt, sz, b"v", 0, b, 64, 0), b.value.decode()), (len(decl), decl), "sized-cdecl")
            ctx.sig("sized", dt, n)
    # names that are no types
    for _ in range(60):
        nm = rng.choice(list(TABLE) + ["blob", "string12", "blob8"])
        k = rng.randrange(7)
        if k == 0:
            bad = nm + rng.choice("abcxyz_") + rng.choice(["", "1"])
        elif k == 1:
            bad = nm + "%d" % rng.choice([3, 7, 12, 65])
            if nm in ("blob", "string", "str", "string12", "blob8"):
                continue
        elif k == 2:
            bad = rng.choice(["", "blob", "1int", "_int", "-", "8", " int"])
        elif k == 3:
            bad = rng.choice(["i", "in", "inte", "f", "fl", "flo", "do", "b", "bo", "s", "st", "u", "r", "re", "d",
                              "p", "rel", "dim", "float6", "uint1", "boo"])
        elif k == 4:
            bad = nm.upper() if nm.upper() != nm else "X"
        elif k == 5:
            bad = gen.ident(rng, 9)
            if bad.strip("0123456789") in TABLE or settype_is(bad):
                continue
        else:
            bad = "string1a"
        if settype_is(bad):
            continue
        r = settype(bad)
        ctx.check(r[0] != 0 and not C.dlite_is_type(bad.encode()), "accepts-invalid-name", lambda: (bad, r))
        ctx.check(errval() != 0, "no-error-code", bad)
        errclr()
        ctx.sig("bad", k, bad[:3])
    # references: metadata URI or UUID are reference types
    for nm in (gen.meta_uri(rng), new_uuid(rng), gen.meta_uri(rng).replace("http", "https")):
        ctx.eq(settype(nm), (0, REF, 8), "ref-type", nm)
        ctx.eq(C.dlite_type_get_dtype(nm.encode()), REF, "ref-dtype", nm)


def settype_is(nm):
    """Model: is nm a valid type name (followed by anything but alphanumerics/underscore)?"""
    import re
    m = re.match(r"([A-Za-z]+)(\d*)(.?)", nm, re.S)
    if not m or (m.group(3) and (m.group(3).isalnum() or m.group(3) == "_")):
        return False
    return m.group(1) + m.group(2) in TABLE or (m.group(1) in ("blob", "string", "str") and m.group(2) != "")


def g_layout(ctx, i, rng):
    for _ in range(80):
        t = TABLE[rng.choice(list(TABLE))] if rng.random() < .7 else (BLOB, rng.randint(1, 40), 0, 1)
        dt, sz, al = t[0], t[1], t[3]
        off, ps = rng.randint(0, 500), rng.randint(0, 64)
        pad = C.dlite_type_padding_at(dt, sz, off)
        ctx.eq(pad, -off % al, "padding", (dt, sz, off))
        mo = C.dlite_type_get_member_offset(off, ps, dt, sz)
        ctx.eq(mo, (off + ps + al - 1) // al * al, "member-offset", (dt, sz, off, ps))
        ctx.sig("layout", dt, sz, off % 16)


def jquote(s, n=None):
    out = '"'
    for ch in s:
        out += {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(
            ch, ch if ord(ch) >= 32 else "\\u%04x" % ord(ch))
    return out + '"'


def expected(v, dt, sz, w, r, flags):
    """Expected text (bytes) of dlite_type_print()."""
    quoted = bool(flags & QUOTED)
    if dt == BLOB:
        t = v.hex()
        return ('"%s"' % t if quoted else t).encode()
    if dt == BOOL:
        s = "true" if v else "false"
        if r >= 0:
            s = s[:r]
        return s.rjust(max(w, 0)).ljust(-w if w < 0 else 0).encode()
    if dt in (INT, UINT):
        w = 8 if w == -1 else w
        s = str(abs(v))
        if r >= 0:
            s = "" if r == 0 and v == 0 else s.zfill(r)
        return (("-" if v < 0 else "") + s).rjust(w).encode()
    if dt == FLOAT:
        w = 12 if w == -1 else w
        r = 6 if r == -1 else r
        if r == -3:
            for r in range(6, 10 if sz == 4 else 18):
                if v != v or (gen.f32(float("%.*g" % (r, v))) if sz == 4 and not math.isinf(v) else float("%.*g" % (r, v))) == v:
                    break
        if v != v:
            s = "-nan" if math.copysign(1, v) < 0 else "nan"
        elif r < 0:
            s = "%g" % v
        else:
            s = "%.*g" % (r, v)
        return s.rjust(w).encode()
    if dt in (FIXSTR, STRPTR):
        if v is None:
            s = "null"
            if r >= 0:
                s = s[:r]
            return s.rjust(w).encode() if w >= 0 else s.ljust(-w).encode()
        b = v.encode("utf8")
        if r > 0:
            b = b[:r]
        s = b.decode("utf8", "surrogateescape")
        return (jquote(s) if quoted else s).encode("utf8", "surrogateescape")


FLAGS = [QUOTED, QUOTED, QUOTED, 0, RAW]


def rand_typed(rng):
    t = gen.rand_type(rng, "niufsSb")
    return t[1], t[2], gen.rand_value(rng, t[1], t[2])


def tostr(x):
    return x


def g_print(ctx, i, rng):
    for _ in range(60):
        dt, sz, v = rand_typed(rng)
        keep = []
        raw = gen.pack(v, dt, sz, keep)
        data = buf(sz)
        data.raw = raw
        flags = rng.choice(FLAGS)
        w = rng.choice([0, 0, -1, 1, 5, 8, 12, 20]) if dt not in (FIXSTR, STRPTR) else rng.choice([0, 0, 8])
        r = rng.choice([-2, -2, -1, -3, 0, 1, 2, 3, 9, 17])
        want = expected(v, dt, sz, w, r, flags)
        m = len(want)
        for n in {0, 1, 2, m - 1 if m else 0, m, m + 1, m + 2, m + 20, rng.randint(0, m + 3)}:
            b = buf(max(n, 1))
            b.raw = b"\xaa" * max(n, 1)
            ret = C.dlite_type_print(b if n else rng.choice([None, b]), n, data, dt, sz, w, r, flags)
            ctx.eq(ret, m, "print-length-%s" % DTNAMES[dt], lambda: (v, w, r, flags, n, want))
            if n:
                ctx.check(b"\0" in b.raw, "print-unterminated-%s" % DTNAMES[dt], lambda: (v, n))
                ctx.eq(b.value, want[:n - 1], "print-text-%s" % DTNAMES[dt], lambda: (v, sz, w, r, flags, n))
            else:
                ctx.check(b.raw == b"\xaa", "print-zero-size", v)
        ctx.check(data.raw == raw, "print-modifies-value", v)
        ctx.sig("print", dt, sz, flags, w, r)
        # dlite_type_aprint(): keeps what precedes the position, grows the buffer
        p = c.c_void_p(None)
        size = c.c_size_t(0)
        ret = C.dlite_type_aprint(c.byref(p), c.byref(size), 0, data, dt, sz, w, r, flags)
        ctx.eq((ret, c.string_at(p.value)), (m, want), "aprint", v)
        ctx.check(size.value >= m + 1, "aprint-size", size.value)
        pos = rng.randint(0, m)
        ret = C.dlite_type_aprint(c.byref(p), c.byref(size), pos, data, dt, sz, w, r, flags)
        ctx.eq((ret, c.string_at(p.value)), (m, want[:pos] + want), "aprint-pos", (v, pos))
        ctx.check(size.value >= pos + m + 1, "aprint-size", size.value)
        libc.free(p)


def readback(dest, dt, sz):
    return gen.unpack(dest.raw, dt, sz)


def g_scan(ctx, i, rng):
    """Printed values scan back to the same value and consume exactly the text."""
    for _ in range(60):
        dt, sz, v = rand_typed(rng)
        if v is None:
            continue
        keep = []
        data = buf(sz)
        data.raw = gen.pack(v, dt, sz, keep)
        flags = rng.choice(FLAGS) if dt in (FIXSTR, STRPTR, BLOB) else rng.choice([0, QUOTED])
        r = rng.choice([-3, 17, -2, -1]) if dt == FLOAT else -2
        w = rng.choice([0, 0, 9]) if dt in (INT, UINT, FLOAT) else 0
        if flags in (0, RAW) and dt in (FIXSTR, STRPTR):
            r = -2
        m = C.dlite_type_print(None, 0, data, dt, sz, w, r, flags)
        b = buf(m + 1)
        C.dlite_type_print(b, m + 1, data, dt, sz, w, r, flags)
        txt = b.value
        want = v
        if dt == FLOAT and r in (-1, -2):
            want = float(txt.decode())
            want = gen.f32(want) if sz == 4 and not math.isinf(want) else want
        if dt == FLOAT and abs(want) < 2.3e-308 and want != 0:
            ctx.note("subnormal")
        quoted = bool(flags & QUOTED) and dt in (FIXSTR, STRPTR, BLOB)
        tail = rng.choice([b"", b", 12", b"]", b" ", b"}\n", b'"'])
        if flags in (0, RAW) and dt in (FIXSTR, STRPTR):
            tail = b""
        src = (c.c_char * (len(txt + tail) + 1)).from_buffer_copy(txt + tail + b"\0")
        dest = buf(sz)
        dest.raw = b"\0" * sz
        if dt == STRPTR and rng.random() < .5:
            dest.raw = libc.strdup(gen.text(rng).encode()).to_bytes(8, "little")
        ln = rng.choice([-1, len(txt)])
        got = C.dlite_type_scan(src, ln, dest, dt, sz, flags)
        ctx.eq(got, len(txt), "scan-consumed-%s" % DTNAMES[dt], lambda: (txt, tail, flags, ln, C.dlite_errmsg()))
        rv = readback(dest, dt, sz)
        ctx.check(gen.same(rv, want) or (rv != rv and want != want), "scan-value-%s" % DTNAMES[dt],
                  lambda: "text %r tail %r flags %d: got %r, want %r" % (txt, tail, flags, rv, want))
        if dt == STRPTR:
            C.dlite_type_clear(dest, dt, sz)
            ctx.check(dest.raw == b"\0" * 8, "clear-string")
        ctx.sig("scan", dt, sz, flags, r, quoted, tail)
    errclr()


def g_scan_limit(ctx, i, rng):
    """Scanning of strings honours the given length: bytes behind it are neither used nor needed."""
    for _ in range(40):
        s = gen.text(rng)
        if '"' in s or "\\" in s:
            continue
        raw = s.encode()
        full = raw + rng.choice([b'"', b"xyz", b'", "b"', b"\\", b"\\n"])
        dt = rng.choice([STRPTR, FIXSTR])
        sz = 8 if dt == STRPTR else rng.choice([len(raw) + 1, len(raw) + 5, max(len(raw) // 2, 1)])
        dest = buf(sz)
        dest.raw = b"\0" * sz
        src = (c.c_char * (len(full) + 1)).from_buffer_copy(full + b"\0")
        flags = rng.choice([0, RAW, UNESC])
        got = C.dlite_type_scan(src, len(raw), dest, dt, sz, flags)
        ctx.eq(got, len(raw), "scanlen-consumed", (full, len(raw), flags))
        want = raw if dt == STRPTR else raw[:sz - 1]
        gotv = (c.string_at(int.from_bytes(dest.raw, "little")) if dt == STRPTR else dest.value)
        ctx.eq(gotv, want, "scanlen-value", (full, len(raw), flags))
        if dt == STRPTR:
            C.dlite_type_clear(dest, dt, sz)
        ctx.sig("limit", dt, flags, len(raw))
    errclr()


def g_scan_json(ctx, i, rng):
    """Escape sequences of JSON strings are decoded."""
    for _ in range(40):
        s = gen.text(rng)
        j = json.dumps(s, ensure_ascii=rng.random() < .5)[1:-1].replace("\x7f", "\\u007f")
        if "\x00" in s:
            continue
        b = j.encode()
        dest = buf(8)
        dest.raw = b"\0" * 8
        src = (c.c_char * (len(b) + 2)).from_buffer_copy(b + b'"\0')
        r = C.dlite_type_scan(src, len(b), dest, STRPTR, 8, UNESC)
        ctx.eq((r, c.string_at(int.from_bytes(dest.raw, "little")).decode("utf8", "surrogateescape")), (len(b), s),
               "json-escapes", j)
        C.dlite_type_clear(dest, STRPTR, 8)
        ctx.sig("json", len(s), "\\u" in j)


BADTEXT = {BOOL: [b"", b"x", b".", b"maybe", b"2"], INT: [b"", b"x", b"-", b"+", b"abc", b"."],
           UINT: [b"", b"x", b"-", b"abc"], FLOAT: [b"", b"x", b".", b"-", b"abc", b"e5"]}


def g_scan_bad(ctx, i, rng):
    for _ in range(40):
        k = rng.randrange(3)
        if k == 0:
            dt = rng.choice([INT, UINT, FLOAT, BOOL])
            sz = rng.choice([1, 2, 4, 8]) if dt in (INT, UINT) else (rng.choice([4, 8]) if dt == FLOAT else 1)
            t = rng.choice(BADTEXT[dt])
            if dt == BOOL and t == b"":
                continue
            fl = 0
        elif k == 1:
            dt, sz = BLOB, rng.randint(1, 6)
            h = bytes(rng.getrandbits(8) for _ in range(sz)).hex()
            fl = rng.choice([0, QUOTED])
            kk = rng.randrange(4)
            if kk == 0:
                h = h[:-1]
            elif kk == 1:
                p = rng.randrange(len(h))
                h = h[:p] + rng.choice("gxz -") + h[p + 1:]
            elif kk == 2:
                h = ""
            t = (('"' + h + '"') if fl else h).encode()
            if kk == 3:
                if not fl:
                    continue
                t = t[:-1] if rng.random() < .5 else t[1:]
        else:
            dt = rng.choice([STRPTR, FIXSTR])
            sz = 8
            fl = QUOTED
            t = rng.choice([b"abc", b'"abc', b"", b'"', b"'abc'", b'"ab\\"'])
        dest = buf(sz)
        dest.raw = b"\0" * sz
        src = (c.c_char * (len(t) + 1)).from_buffer_copy(t + b"\0")
        r = C.dlite_type_scan(src, -1, dest, dt, sz, fl)
        ctx.check(r < 0 and errval() != 0, "accepts-bad-text-%s" % DTNAMES[dt], lambda: (t, r, fl))
        if dt == STRPTR:
            C.dlite_type_clear(dest, dt, sz)
        errclr()
        ctx.sig("badtext", dt, t)


def g_compound(ctx, i, rng):
    """Dimensions, properties and relations print and scan back."""
    for _ in range(10):
        dn, dd = gen.ident(rng), gen.text(rng)
        e = gen.rand_entity(rng, kinds="niufsSb", maxdims=3, maxprops=4, txt=gen.text, units=True)
        m = gen.c_meta(e)
        meta_items = [(DIMENSION, S.m_dim(m, k)) for k in range(len(e.dims))] + \
                     [(PROPERTY, S.m_prop(m, k)) for k in range(len(e.props))]
        for dt, p in meta_items:
            sz = S.s_sizeof(DTNAMES[dt].encode())
            n = C.dlite_type_print(None, 0, p, dt, sz, 0, -2, 0)
            b = buf(n + 1)
            ctx.eq(C.dlite_type_print(b, n + 1, p, dt, sz, 0, -2, 0), n, "compound-print", e.uri)
            ctx.eq(len(b.value), n, "compound-length")
            for k in (1, rng.randint(1, n + 1)):
                b2 = buf(k)
                ctx.eq((C.dlite_type_print(b2, k, p, dt, sz, 0, -2, 0), b2.value), (n, b.value[:k - 1]),
                       "compound-truncated", k)
            try:
                d = json.loads(b.value.decode("utf8"))
            except Exception as ex:
                ctx.fail("compound-not-json", repr((b.value, ex)))
                continue
            dest = buf(sz)
            dest.raw = b"\0" * sz
            r = C.dlite_type_scan(b, rng.choice([-1, n]), dest, dt, sz, 0)
            ctx.eq(r, n, "compound-scan", lambda: (b.value, C.dlite_errmsg()))
            if dt == DIMENSION:
                ctx.eq(d, {"name": S.d_name(p).decode(), "description": (S.d_descr(p) or b"").decode()}, "dimension-json")
                ctx.eq((S.d_name(dest), S.d_descr(dest)), (S.d_name(p), S.d_descr(p)), "dimension-roundtrip")
            else:
                k = [x for x in e.props if x.name == d["name"]][0]
                want = {"name": k.name, "type": k.tname, "ndims": len(k.shape)}
                if k.shape:
                    want["shape"] = k.shape
                if k.unit:
                    want["unit"] = k.unit
                if k.descr:
                    want["description"] = k.descr
                ctx.eq(d, want, "property-json")
                f = lambda q: (S.p_name(q), S.p_type(q), S.p_size(q), S.p_ndims(q),
                               [S.p_shape(q, j) for j in range(S.p_ndims(q))], S.p_unit(q), S.p_descr(q) or None)
                ctx.eq(f(dest), f(p), "property-roundtrip", b.value)
            C.dlite_type_clear(dest, dt, sz)
            ctx.check(dest.raw == b"\0" * sz, "compound-clear")
            dest2 = buf(sz)
            dest2.raw = b"\0" * sz
            ctx.check(C.dlite_type_copy(dest2, p, dt, sz), "compound-copy")
            n2 = C.dlite_type_print(None, 0, dest2, dt, sz, 0, -2, 0)
            b2 = buf(n2 + 1)
            C.dlite_type_print(b2, n2 + 1, dest2, dt, sz, 0, -2, 0)
            ctx.eq(b2.value, b.value, "compound-copy-equal")
            C.dlite_type_clear(dest2, dt, sz)
            ctx.sig("compound", dt, n)
        C.dlite_meta_decref(m)
        C.dlite_meta_decref(m)
        # relations
        t = [gen.text(rng) or "x" for _ in range(3)] + [rng.choice([None, gen.text(rng) or "y"])]
        sz = S.s_sizeof(b"relation")
        rel = buf(sz)
        rel.raw = b"\0" * sz
        C.triple_set(rel, *[x.encode() if x is not None else None for x in t], None)
        n = C.dlite_type_print(None, 0, rel, RELATION, sz, 0, -2, 0)
        b = buf(n + 1)
        C.dlite_type_print(b, n + 1, rel, RELATION, sz, 0, -2, 0)
        ctx.eq(json.loads(b.value.decode()), [x for x in t if x is not None], "relation-json", t)
        dest = buf(sz)
        dest.raw = b"\0" * sz
        ctx.eq(C.dlite_type_scan(b, -1, dest, RELATION, sz, 0), n, "relation-scan", b.value)
        got = [c.string_at(q).decode() if q else None
               for q in (int.from_bytes(dest.raw[8 * k:8 * k + 8], "little") for k in range(4))]
        ctx.eq(got, t, "relation-roundtrip", b.value)
        dest2 = buf(sz)
        dest2.raw = b"\0" * sz
        C.dlite_type_copy(dest2, rel, RELATION, sz)
        got = [c.string_at(q).decode() if q else None
               for q in (int.from_bytes(dest2.raw[8 * k:8 * k + 8], "little") for k in range(4))]
        ctx.eq(got, t, "relation-copy", b.value)
        for x in (rel, dest, dest2):
            C.dlite_type_clear(x, RELATION, sz)
        ctx.sig("relation", len(t), n)


def g_property(ctx, i, rng):
    """Whole properties, also arrays, printed as JSON and scanned back on instances (C and Python)."""
    import dlite
    for _ in range(5):
        e = gen.rand_entity(rng, maxdims=2, maxprops=6)
        m = gen.c_meta(e)
        dims = [rng.randint(0, 4) for _ in e.dims]
        inst = gen.c_instance(m, dims)
        vals = gen.rand_values(rng, e, dims, special=False)
        gen.fill(inst, e, vals)
        other = gen.c_instance(m, dims)
        junk = gen.rand_values(rng, e, dims)
        gen.fill(other, e, junk)
        for k, (p, v) in enumerate(zip(e.props, vals)):
            nm = p.name.encode()
            n = C.dlite_instance_print_property(None, 0, inst, nm, 0, -3, QUOTED)
            b = buf(n + 1)
            ctx.eq(C.dlite_instance_print_property(b, n + 1, inst, nm, 0, -3, QUOTED), n, "prop-print", p.tname)
            ctx.eq(len(b.value), n, "prop-print-length", lambda: (p.tname, v, b.value))
            for q in (1, rng.randint(1, n + 1)):
                b2 = buf(q)
                ctx.eq((C.dlite_instance_print_property(b2, q, inst, nm, 0, -3, QUOTED), b2.value), (n, b.value[:q - 1]),
                       "prop-print-truncated", lambda: (p.tname, v, q))
            ptr_, size = c.c_void_p(None), c.c_size_t(0)
            ctx.eq(C.dlite_instance_aprint_property(c.byref(ptr_), c.byref(size), 0, inst, nm, 0, -3, QUOTED), n, "prop-aprint")
            ctx.eq(c.string_at(ptr_.value), b.value, "prop-aprint-text")
            libc.free(ptr_)
            has_special = p.dtype == FLOAT and any(isinstance(x, float) and (math.isinf(x) or x != x)
                                                   for x in (v if p.shape else [v]))
            if not has_special:
                want = gen.nest(v, e.shape_of(p, dims))
                flat = lambda y: [q for z in y for q in flat(z)] if isinstance(y, list) else [y]
                conv = (lambda x: x.hex() if isinstance(x, bytes) else x)
                j = json.loads(b.value.decode("utf8"))
                if p.dtype == FLOAT and p.size == 4:
                    ok = all(gen.f32(a) == w_ for a, w_ in zip(flat(j), flat(want))) and len(flat(j)) == len(flat(want))
                else:
                    ok = [conv(x) for x in flat(want)] == flat(j)
                shp = lambda y: [len(y)] + shp(y[0]) if isinstance(y, list) and y else ([0] if isinstance(y, list) else [])
                ctx.check(ok and shp(j) == shp(want), "prop-json", lambda: (p.tname, p.shape, b.value, want))
            isnull = None in v if p.shape and p.dtype == STRPTR else v is None
            if isnull and not p.shape:
                continue
            flags = 0 if p.shape else QUOTED
            r = C.dlite_instance_scan_property(b, other, nm, flags)
            ctx.eq(r, n, "prop-scan", lambda: (p.tname, b.value, C.dlite_errmsg()))
            got = gen.get_prop(other, k, p)
            ctx.check(gen.same(got, v), "prop-scan-value", lambda: "%s %r got %r want %r" % (p.tname, b.value, got, v))
            ctx.sig("prop", p.tname, len(p.shape), n > 2)
        C.dlite_instance_decref(other)
        C.dlite_instance_decref(inst)
        C.dlite_meta_decref(m)
        C.dlite_meta_decref(m)


def g_kf_scanlen(ctx, i, rng):
    """Numbers and booleans are scanned beyond the given length."""
    d = buf(8)
    ctx.eq(C.dlite_type_scan(b"1234", 2, d, INT, 8, 0), 2, "int")


def g_kf_longdouble(ctx, i, rng):
    """The canonical name of longdouble (float128) is not a type name and its values do not print."""
    ctx.eq(settype("longdouble"), (0, FLOAT, 16), "longdouble")
    ctx.eq(settype("float128"), (0, FLOAT, 16), "float128")


def g_kf_nonfinite(ctx, i, rng):
    """Arrays with infinite elements cannot be scanned from the text printed for them."""
    e = gen.Entity(gen.meta_uri(rng), ["n"], [gen.Prop("a", "float64", FLOAT, 8, ["n"])])
    m = gen.c_meta(e)
    inst = gen.c_instance(m, [1])
    gen.fill(inst, e, [[math.inf]])
    b = buf(64)
    n = C.dlite_instance_print_property(b, 64, inst, b"a", 0, -3, QUOTED)
    r = C.dlite_instance_scan_property(b, inst, b"a", 0)
    ctx.eq(r, n, "scan", b.value)
    C.dlite_instance_decref(inst)
    C.dlite_meta_decref(m)
    C.dlite_meta_decref(m)
    errclr()


GROUPS = [
    ("names", g_names, 16, 200),
    ("layout", g_layout, 4, 40),
    ("print", g_print, 48, 1000),
    ("scan", g_scan, 48, 1000),
    ("scan-limit", g_scan_limit, 16, 300),
    ("scan-json", g_scan_json, 16, 300),
    ("scan-bad", g_scan_bad, 16, 200),
    ("compound", g_compound, 24, 400),
    ("property", g_property, 32, 600),
    ("kf-scan-length", g_kf_scanlen, 1, 1),
    ("kf-longdouble", g_kf_longdouble, 1, 1),
    ("kf-nonfinite", g_kf_nonfinite, 1, 1),
]
