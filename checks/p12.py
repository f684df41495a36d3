"""P12: BSON serialisation."""
import ctypes as c, gc, hashlib, json, struct
from dl import *
import gen
from gen import same

RULE = "distinct (document kind, element types, buffer size class, outcome) combinations observed"
DBL, STR, DOC, ARR, BIN, BOO, NUL, I32, U64, I64 = 1, 2, 3, 4, 5, 8, 10, 16, 17, 18
ENTITY = "http://onto-ns.com/meta/0.3/EntitySchema"


def setup():
    quiet()


# ---- an independent BSON reader ----------------------------------------------------------------
def decode(b, pos=0, arr=False):
    """[(name, type, value)], end position. Raises on anything that is not well-formed."""
    n, = struct.unpack_from("<i", b, pos)
    end = pos + n
    assert n >= 5 and end <= len(b) and b[end - 1] == 0, ("size", n)
    out, p = [], pos + 4
    while True:
        t = b[p]
        p += 1
        if t == 0:
            break
        z = b.index(b"\0", p)
        name = b[p:z].decode("utf8")
        p = z + 1
        if t == DBL:
            v, = struct.unpack_from("<d", b, p)
            p += 8
        elif t == STR:
            m, = struct.unpack_from("<i", b, p)
            assert m >= 1 and b[p + 4 + m - 1] == 0, "string"
            v = b[p + 4:p + 4 + m - 1].decode("utf8")
            assert "\0" not in v, "NUL in string"
            p += 4 + m
        elif t in (DOC, ARR):
            v, p = decode(b, p, t == ARR)
        elif t == BIN:
            m, = struct.unpack_from("<i", b, p)
            assert m >= 0 and b[p + 4] == 0
            v = b[p + 5:p + 5 + m]
            assert len(v) == m
            p += 5 + m
        elif t == BOO:
            assert b[p] in (0, 1)
            v = bool(b[p])
            p += 1
        elif t == NUL:
            v = None
        elif t == I32:
            v, = struct.unpack_from("<i", b, p)
            p += 4
        elif t in (U64, I64):
            v, = struct.unpack_from("<Q" if t == U64 else "<q", b, p)
            p += 8
        else:
            raise AssertionError("type %d" % t)
        out.append((name, t, v))
        assert p < end, "element outside document"
    assert p == end, ("trailing bytes", p, end)
    if arr:
        assert [x[0] for x in out] == [str(k) for k in range(len(out))], "array keys"
    return out, end


def asdict(doc):
    d = {k: v for k, _, v in doc}
    assert len(d) == len(doc), ("duplicate keys", [k for k, _, _ in doc])
    return d


# ---- the BSON library --------------------------------------------------------------------------
def rand_doc(rng, depth=0):
    out, names = [], set()
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        k = rng.choice([gen.ident(rng), "", gen.plain(rng, 8), "åß" + gen.ident(rng, 2), "a" * 300])
        if k in names:
            continue
        names.add(k)
        t = rng.choice([DBL, STR, BIN, BOO, NUL, I32, U64, I64] + ([DOC, ARR, "bin"] * 2 if depth < 3 else []))
        if t == DBL:
            v = gen.randfloat(rng)
        elif t == STR:
            v = gen.text(rng).replace("\0", "")
        elif t in (BIN, "bin"):
            v = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 7, 100])))
        elif t == BOO:
            v = rng.random() < .5
        elif t == NUL:
            v = None
        elif t == I32:
            v = gen.randint(rng, 4)
        elif t == U64:
            v = gen.randint(rng, 8, False)
        elif t == I64:
            v = gen.randint(rng, 8)
        else:
            v = rand_doc(rng, depth + 1)
            if t == ARR:
                v = [(str(j), x[1], x[2]) for j, x in enumerate(v)]
        out.append((k, t, v))
    return out


def build(p, size, doc, ctx, rng, n=0):
    """Appends the elements of `doc` at BSON document `p`; returns number of bytes used, given `size` bytes of room."""
    def app(m, want):
        nonlocal n
        ctx.eq(m, want, "appended-length", (want, size, n))
        n += m

    for k, t, v in doc:
        kb = k.encode()
        e = 1 + len(kb) + 1
        if t in (DOC, ARR) and rng.random() < .5 and size > 1 << 20:     # as a complete document
            sub = mem(1 << 16)
            C.bson_init_document(sub.p, sub.n)
            m = build(sub.p, 1 << 30, v, ctx, rng, 5)
            app(C.bson_append(p, size - n, t, kb, m, sub.p), e + m)
        elif t in (DOC, ARR):
            sub = c.c_void_p(0)
            app(C.bson_begin_subdoc(p, size - n, kb, c.byref(sub)), e + 4)
            n = build(sub.value, size, v, ctx, rng, n)
            app(C.bson_end_subdoc(p, size - n, t), 1)
        elif t == "bin":
            sub, j = c.c_void_p(0), 0
            app(C.bson_begin_binary(p, size - n, kb, c.byref(sub)), e + 4)
            while j < len(v):
                q = rng.randint(1, len(v) - j)
                a = mem(v[j:j + q])
                app(C.bson_append_binary(sub, size - n, q, a.p), q)
                j += q
            app(C.bson_end_binary(p, size - n), 1)
        else:
            raw = {DBL: lambda: struct.pack("<d", v), STR: lambda: v.encode() + b"\0", BIN: lambda: v or b"\0",
                   BOO: lambda: bytes([v]), NUL: lambda: b"\0", I32: lambda: struct.pack("<i", v),
                   U64: lambda: struct.pack("<Q", v), I64: lambda: struct.pack("<q", v)}[t]()
            a = mem(raw)
            ln = len(v) if t == BIN else len(v.encode()) if t == STR else {DBL: 8, BOO: 1, NUL: 0, I32: 4}.get(t, 8)
            sz = ln if t == BIN or rng.random() < .5 else -1
            app(C.bson_append(p, size - n, t, kb, sz, a.p), e + ln + (5 if t in (STR, BIN) else 0))
    return n


def plainbin(doc):
    return [(k, BIN if t == "bin" else t, plainbin(v) if t in (DOC, ARR) else v) for k, t, v in doc]


def length(doc):
    return 5 + sum(2 + len(k.encode()) + (len(v.encode()) + 5 if t == STR else len(v) + 5 if t in (BIN, "bin") else
                                          length(v) if t in (DOC, ARR) else {BOO: 1, NUL: 0, I32: 4}.get(t, 8))
                   for k, t, v in doc)


def cparse(ctx, p, doc, whole):
    """Walk the document with the library."""
    ctx.eq(C.bson_nelements(p), len(doc), "nelements")
    ctx.eq(C.bson_docsize(p), length(doc), "docsize")
    end, name, data, ds = c.c_void_p(0), c.c_char_p(), c.c_void_p(), c.c_int()
    for k, t, v in doc:
        r = C.bson_parse(p, c.byref(name), c.byref(data), c.byref(ds), c.byref(end))
        ctx.eq((r, name.value.decode()), (t, k), "parse-element")
        if t in (DOC, ARR):
            cparse(ctx, data.value, v, False)
            continue
        raw = c.string_at(data.value, ds.value) if ds.value else b""
        want = {DBL: lambda: struct.pack("<d", v), STR: lambda: v.encode(), BIN: lambda: v, BOO: lambda: bytes([v]),
                NUL: lambda: b"", I32: lambda: struct.pack("<i", v), U64: lambda: struct.pack("<Q", v),
                I64: lambda: struct.pack("<q", v)}[t]()
        ctx.eq(raw, want, "parse-data", (k, t))
    ctx.eq(C.bson_parse(p, None, None, None, c.byref(end)), 0, "parse-end")


SCANS = {DBL: ("bson_scan_double", c.c_double), STR: ("bson_scan_string", c.c_char_p), BOO: ("bson_scan_bool", c.c_bool),
         I32: ("bson_scan_int32", c.c_int32), U64: ("bson_scan_uint64", c.c_uint64), I64: ("bson_scan_int64", c.c_int64)}


def scan(fn, p, k, ec):
    f = getattr(C, fn)
    e = c.c_int(ec)
    old = f.restype
    f.restype = {x[0]: x[1] for x in SCANS.values()}[fn]
    r = f(p, k.encode(), c.byref(e))
    f.restype = old
    return (r.decode() if isinstance(r, bytes) else r), e.value


def g_library(ctx, i, rng):
    doc = rand_doc(rng)
    model = plainbin(doc)
    n = length(model)
    full = mem(n)
    ctx.eq(C.bson_init_document(full.p, n), 5, "init")
    ctx.eq(build(full.p, n, doc, ctx, rng, 5), n, "total-length")
    got, end = decode(full.raw)
    ctx.check(same(got, model) and end == n, "document-content", lambda: (doc, got))
    cparse(ctx, full.p, model, True)
    big = mem(n + (2 << 20))
    C.bson_init_document(big.p, big.n)
    ctx.eq(build(big.p, big.n, doc, ctx, rng, 5), n, "total-length")
    ctx.eq(big.raw[:n], full.raw, "same-bytes-in-larger-buffer")
    for size in {0, 4, 5, n - 1, n} | {rng.randint(0, n) for _ in range(12)}:
        b = mem(bytes([0xa7]) * size) if size else None
        ctx.eq(C.bson_init_document(b.p if b else None, size), 5, "init")
        # with less than 5 bytes there is no document to append to, only lengths are computed
        ctx.eq(build(b.p if b else None, size, doc, ctx, rng, 5), n, "length-small-buffer", (size, n))
        if size == n:
            ctx.eq(b.raw, full.raw, "content")
        elif size >= 5:
            part, _ = decode(b.raw)                 # still a well-formed document with the first elements
            ctx.check(same(part, model[:len(part)]), "prefix", lambda: (size, part))
        else:
            ctx.eq(b.raw if b else b"", b"\xa7" * size, "written-to-tiny-buffer")
        ctx.sig("lib", len(doc), size == n, size < 5, tuple(sorted({str(t) for _, t, _ in doc})))
    for k, t, v in model:
        if [x[0] for x in model].count(k) > 1:
            continue
        if t in SCANS:
            r, e = scan(SCANS[t][0], full.p, k, 0)
            ctx.check(same(r, v) and e == 0, "scan", lambda: (k, t, v, r, e))
        o = rng.choice([x for x in SCANS if x != t])
        r, e = scan(SCANS[o][0], full.p, k, 0)
        ctx.check(not r and e == -5, "scan-other-type", lambda: (k, t, o, r, e))
        d, ds = c.c_void_p(), c.c_int()
        ctx.eq(C.bson_scan(full.p, k.encode(), c.byref(d), c.byref(ds)), t, "scan-type", k)
        errclr()
    miss = "missing" + gen.ident(rng, 8)
    for t in SCANS:
        for ec in (0, 1):
            r, e = scan(SCANS[t][0], full.p, miss, ec)
            ctx.check(not r and e == -14, "scan-missing", lambda: (t, r, e))
            ctx.eq(errval() != 0, ec != 0, "scan-missing-error", t)
            errclr()
    ctx.eq(C.bson_scan(full.p, miss.encode(), None, None), 0, "scan-missing")


# ---- instances ---------------------------------------------------------------------------------
def bson_of(ctx, inst, rng, sizes=True):
    n = c.c_size_t()
    p = C.dlite_bson_from_instance(inst, c.byref(n))
    ctx.check(bool(p), "serialise-failed", lambda: C.dlite_errmsg())
    b = c.string_at(p, n.value)
    libc.free(p)
    ctx.eq(struct.unpack("<i", b[:4])[0], len(b), "docsize-is-size")
    ctx.eq(C.dlite_bson_append_instance(None, 0, inst), len(b) - 5, "size-in-advance")
    if sizes:
        for size in {5, len(b) - 1, len(b), len(b) + 3} | {rng.randint(5, len(b)) for _ in range(8)}:
            m = mem(bytes([0xa7]) * size)
            C.bson_init_document(m.p, size)
            ctx.eq(C.dlite_bson_append_instance(m.p, size - 5, inst), len(b) - 5, "length", (size, len(b)))
            if size >= len(b):
                ctx.eq(m.raw[:len(b)], b, "content")
                ctx.eq(m.raw[len(b):], b"\xa7" * (size - len(b)), "beyond-document")
            else:
                decode(m.raw)
    return b


def load(b):
    m = mem(b)
    return C.dlite_bson_load_instance(m.p)


def h(inst):
    b = buf(S.s_hash_size())
    assert C.dlite_instance_get_hash(inst, b, len(b)) == 0, C.dlite_errmsg()
    return b.raw


def check_doc(ctx, b, e, dv, vals, uuid, uri):
    d = asdict(decode(b)[0])
    ctx.eq((d["uuid"], d.get("uri"), d["meta"], d["byteorder"]), (uuid, uri, e.uri, "LE"), "doc-identity")
    ctx.eq([(k, v) for k, _, v in d["dimensions"]], list(zip(e.dims, dv)), "doc-dimensions")
    pd = asdict(d["properties"])
    ctx.eq(list(pd), [p.name for p in e.props], "doc-properties")
    for p, v in zip(e.props, vals):
        g = pd[p.name]
        if p.shape and p.dtype == STRPTR:
            t = b"".join((x or "").encode() + b"\0" for x in v)
            ctx.eq(g, t, "doc-strings", p.name)
        elif p.shape:
            keep = []
            ctx.eq(g, b"".join(gen.pack(x, p.dtype, p.size, keep) for x in v), "doc-array", p.name)
        else:
            ctx.check(same(g, v), "doc-scalar", lambda: (p.name, p.tname, g, v))


def read(inst, e):
    return gen.read_all(inst, e)


def g_data(ctx, i, rng):
    import dlite
    e = gen.rand_entity(rng, maxprops=9)
    meta = gen.c_meta(e)
    ctx.check(bool(meta), "create-meta", lambda: (C.dlite_errmsg(), e.dims, [(p.name, p.tname, p.shape) for p in e.props]))
    for _ in range(3):
        dv = [rng.choice([0, 1, 2, 3, 5]) for _ in e.dims]
        id = rng.choice([None, new_uuid(rng), "name-" + gen.ident(rng, 10), "http://ex.com/d/" + gen.ident(rng, 12)])
        inst = gen.c_instance(meta, dv, id)
        vals = gen.rand_values(rng, e, dv)
        gen.fill(inst, e, vals)
        u, uri = S.s_uuid(inst).decode(), S.s_uri(inst)
        uri = uri.decode() if uri else None
        b = bson_of(ctx, inst, rng)
        check_doc(ctx, b, e, dv, vals, u, uri)
        hash0 = h(inst)
        again = load(b)                             # it is still alive
        ctx.check(again == inst, "load-of-live-instance", lambda: (again, inst))
        if again:
            C.dlite_instance_decref(again)
        C.dlite_instance_decref(inst)
        ctx.check(not C.dlite_instance_has(u.encode(), 0), "still-alive", u)
        new = load(b)
        ctx.check(bool(new), "load-failed", lambda: (C.dlite_errmsg(), e.uri))
        ctx.eq((S.s_uuid(new).decode(), S.s_refcount(new)), (u, 1), "loaded-identity")
        ctx.eq([S.s_dim(new, k) for k in range(len(dv))], dv, "loaded-dims")
        want = [[x or "" for x in v] if p.shape and p.dtype == STRPTR else v for p, v in zip(e.props, vals)]
        ctx.check(same(read(new, e), want), "loaded-values", lambda: (want, read(new, e), [p.tname for p in e.props]))
        if want == vals:
            ctx.eq(h(new), hash0, "loaded-hash")
        b2 = bson_of(ctx, new, rng, sizes=False)
        ctx.check(b2 == b, "not-stable", lambda: (b, b2))
        C.dlite_instance_decref(new)
        ctx.check(not C.dlite_instance_has(u.encode(), 0), "leaked-reference", u)
        ctx.sig("data", tuple(sorted({(p.tname, len(p.shape)) for p in e.props})), 0 in dv, id is None, uri is None)


def g_python(ctx, i, rng):
    import dlite
    e = gen.rand_entity(rng, maxprops=6)
    meta = gen.py_meta(e)
    dv = [rng.randint(0, 4) for _ in e.dims]
    inst = meta(dimensions=dv, id="pyinst-" + gen.ident(rng, 12))
    vals = gen.rand_values(rng, e, dv)
    gen.fill(gen.ptr(inst), e, vals)
    b, u = bytes(inst.asbson()), inst.uuid
    check_doc(ctx, b, e, dv, vals, u, inst.uri)
    del inst
    gc.collect()
    inst = dlite.Instance.from_bson(b)
    want = [[x or "" for x in v] if p.shape and p.dtype == STRPTR else v for p, v in zip(e.props, vals)]
    ctx.check(same(read(gen.ptr(inst), e), want) and inst.uuid == u, "python-values", lambda: (want,))
    for k in (0, 3, 4, 5, len(b) - 1, rng.randint(0, len(b) - 1)):
        try:
            dlite.Instance.from_bson(b[:k])
            ctx.fail("short-input-accepted", (k, len(b)))
        except dlite.DLiteError:
            ctx.events += 1
    ctx.sig("python", tuple(sorted({(p.tname, len(p.shape)) for p in e.props})))


REFMETA = "http://onto-ns.com/meta/0.1/P12Refs"


def refmeta():
    import dlite
    if C.dlite_instance_has(REFMETA.encode(), 0):
        return dlite.get_instance(REFMETA)
    item = dlite.Instance.create_metadata("http://onto-ns.com/meta/0.1/P12Item", [], [dlite.Property("x", "int")], "")
    return dlite.Instance.create_metadata(
        REFMETA, [dlite.Dimension("n", "")],
        [dlite.Property("one", "ref", item.uri), dlite.Property("many", "ref", item.uri, ["n"]),
         dlite.Property("rel", "relation"), dlite.Property("rels", "relation", shape=["n"])], "")


def g_refs(ctx, i, rng):
    import dlite
    meta = refmeta()
    item = dlite.get_instance("http://onto-ns.com/meta/0.1/P12Item")
    items = [item(dimensions=[], id="item-%d-%s" % (k, gen.ident(rng, 9))) for k in range(3)]
    n = rng.randint(0, 4)
    inst = meta(dimensions=[n], id="refs-" + gen.ident(rng, 12))
    pick = [rng.choice([None] + items) for _ in range(n + 1)]
    if pick[0]:
        inst.one = pick[0]
    p = C.dlite_instance_get_property(gen.ptr(inst), b"many")
    for k in range(n):
        if pick[k + 1]:
            C.dlite_instance_incref(gen.ptr(pick[k + 1]))
            c.memmove(p + 8 * k, gen.ptr(pick[k + 1]).to_bytes(8, "little"), 8)
    rels = [tuple(gen.text(rng).replace("\0", "") or "x" for _ in range(3)) + (rng.choice([None, "xsd:int", "@en"]),)
            for _ in range(n + 1)]
    for k, t in enumerate(rels):
        q = C.dlite_instance_get_property(gen.ptr(inst), b"rels" if k else b"rel")
        r = gen.Tr.from_address(q + c.sizeof(gen.Tr) * max(k - 1, 0))
        for f, v in zip("spod", t):
            if v is not None:
                z = libc.strdup(v.encode())
                c.memmove(c.addressof(r) + getattr(gen.Tr, f).offset, z.to_bytes(8, "little"), 8)
    raw, u = gen.ptr(inst), inst.uuid
    b = bson_of(ctx, raw, rng)
    d = asdict(asdict(decode(b)[0])["properties"])
    ctx.eq(d["one"], pick[0].uuid if pick[0] else None, "doc-ref")
    ctx.eq(d["many"], b"".join((x.uuid.encode() if x else b"").ljust(37, b"\0") for x in pick[1:]), "doc-refs")
    tup = lambda r: tuple(asdict(r).get(k) for k in "spod")
    ctx.eq(tup(d["rel"]), rels[0], "doc-relation")
    ctx.eq([tup(v) for _, _, v in d["rels"]], rels[1:], "doc-relations")
    hash0, counts = h(raw), [x._refcount for x in items]
    del inst
    gc.collect()
    ctx.check(not C.dlite_instance_has(u.encode(), 0), "still-alive", u)
    new = load(b)
    ctx.check(bool(new), "load-failed", lambda: C.dlite_errmsg())
    ctx.eq(h(new), hash0, "loaded-hash")
    ctx.eq([x._refcount for x in items], counts, "loaded-refcounts")
    ctx.eq(bson_of(ctx, new, rng, False), b, "not-stable")
    C.dlite_instance_decref(new)
    ctx.eq([x._refcount for x in items], [cnt - sum(y is x for y in pick) for x, cnt in zip(items, counts)],
           "references-not-released")
    gone = [x for x in pick if x]
    if gone:                                        # a referred instance that cannot be found is an error
        for x in items:
            x = None
        del x
        items = pick = gone = None
        gc.collect()
        ctx.check(not load(b) and errval() != 0, "missing-reference-accepted")
        ctx.check(not C.dlite_instance_has(u.encode(), 0), "half-loaded-instance", u)
        errclr()
    ctx.sig("refs", n, tuple(t[3] for t in rels), gone is None)


def renamed(b, uri, new):
    assert len(uri) == len(new)
    return b.replace(uri.encode(), new.encode()).replace(uuid5(uri).encode(), uuid5(new).encode())


def g_meta(ctx, i, rng):
    """Metadata, loaded under another URI since metadata stay in memory."""
    import dlite
    e = gen.rand_entity(rng, maxprops=8, minprops=0)
    for p in e.props:
        if rng.random() < .15:
            p.tname, p.dtype, p.size, p.ref = "ref", REF, 8, gen.meta_uri(rng)
    m = gen.py_meta(e)
    b = bson_of(ctx, gen.ptr(m), rng)
    d = asdict(decode(b)[0])
    ctx.eq((d["uri"], d["uuid"], d["meta"]), (e.uri, uuid5(e.uri), ENTITY), "meta-doc-identity")
    ctx.eq((d.get("description") or ""), e.descr or "", "meta-doc-description")
    ctx.eq([(k, v or "") for k, _, v in d["dimensions"]], [(k, e.dimdescr.get(k, "")) for k in e.dims], "meta-doc-dims")
    props = [(k, asdict(v)) for k, _, v in d["properties"]]
    want = []
    for p in e.props:
        w = {"type": p.tname}
        if p.ref:
            w["$ref"] = p.ref
        if p.shape:
            w["shape"] = p.shape
        if p.unit:
            w["unit"] = p.unit
        if p.descr:
            w["description"] = p.descr
        want.append((p.name, w))
    for k, w in props:
        if "shape" in w:
            w["shape"] = [x[2] for x in w["shape"]]
    ctx.eq(props, want, "meta-doc-properties")
    uri = e.uri[:-14] + gen.ident(rng, 14)
    new = load(renamed(b, e.uri, uri))
    ctx.check(bool(new), "meta-load-failed", lambda: C.dlite_errmsg())
    m2 = dlite.get_instance(uri)
    ctx.eq(gen.ptr(m2), new, "meta-not-registered")
    j1, j2 = json.loads(m.asjson()), json.loads(m2.asjson())
    for j in (j1, j2):
        for k in ("uri", "uuid", "name", "version", "namespace"):
            j.pop(k, None)
    ctx.eq(j2, j1, "meta-content")
    ctx.eq((m2["name"], m2["version"], m2["namespace"]), tuple((lambda q: (q[2], q[1], q[0]))(uri.rsplit("/", 2))),
           "meta-name")
    dv = [rng.randint(0, 3) for _ in e.dims]        # and it works as metadata
    inst = gen.c_instance(new, dv, None)
    ctx.check(bool(inst), "instance-of-loaded", lambda: C.dlite_errmsg())
    e2 = gen.Entity(uri, e.dims, [p for p in e.props if not p.ref], e.descr)
    vals = gen.rand_values(rng, e2, dv)
    for p, v in zip(e2.props, vals):
        k = C.dlite_meta_get_property_index(new, p.name.encode())
        ctx.eq(gen.set_prop(inst, k, p, v, None), 0, "set")
        ctx.check(same(gen.get_prop(inst, k, p), v), "get", p.name)
    C.dlite_instance_decref(inst)
    C.dlite_instance_decref(new)
    ctx.sig("meta", len(e.dims), tuple(sorted({(p.tname, len(p.shape)) for p in e.props})))


def g_collection(ctx, i, rng):
    import dlite
    meta = refmeta()
    item = dlite.get_instance("http://onto-ns.com/meta/0.1/P12Item")
    items = [item(dimensions=[], id="citem-%d-%s" % (k, gen.ident(rng, 9))) for k in range(rng.randint(0, 4))]
    coll = dlite.Collection(id="coll-" + gen.ident(rng, 12))
    for k, x in enumerate(items):
        coll.add("label%d" % k, x)
    for _ in range(rng.randint(0, 5)):
        coll.add_relation(gen.ident(rng), gen.ident(rng), gen.ident(rng), rng.choice([None, "xsd:int"]))
    key = lambda t: tuple(x or "" for x in t)
    rels, u = sorted(gen.rels(coll), key=key), coll.uuid
    b = bson_of(ctx, gen.ptr(coll), rng)
    d = asdict(asdict(decode(b)[0])["properties"])
    got = sorted((tuple(asdict(v).get(k) for k in "spod") for _, _, v in d["relations"]), key=key)
    ctx.eq([t[:3] + (t[3] or "",) for t in got], rels, "collection-doc")
    del coll
    gc.collect()
    ctx.check(not C.dlite_instance_has(u.encode(), 0), "still-alive", u)
    c2 = dlite.Instance.from_bson(b)
    ctx.check(isinstance(c2, dlite.Collection), "not-a-collection", lambda: type(c2))
    ctx.eq(sorted(gen.rels(c2), key=key), rels, "collection-relations")
    ctx.eq(sorted(c2.get_labels()), sorted("label%d" % k for k in range(len(items))), "collection-labels")
    for k, x in enumerate(items):
        ctx.eq(c2.get("label%d" % k).uuid, x.uuid, "collection-item")
    ctx.sig("coll", len(items), len(rels))


GROUPS = [("library", g_library, 60, 2500), ("data", g_data, 50, 2000), ("python", g_python, 40, 1000),
          ("refs", g_refs, 40, 800), ("meta", g_meta, 40, 1000), ("collection", g_collection, 30, 600)]
