"""P10: JSON serialisation loses nothing and is valid JSON."""
import ctypes as c, itertools, json, os
from dl import *
import gen
from gen import Prop, Entity, same

RULE = "distinct (document kind, flags, member kinds, load path) round trips observed"
SINGLE, URIKEY, UUID, META, ARRAYS, NOPARENT, COMPACT = 1, 2, 4, 8, 16, 32, 64
ENTITY = "http://onto-ns.com/meta/0.3/EntitySchema"
COLL = "http://onto-ns.com/meta/0.1/Collection"


def setup():
    quiet()


def jval(v):
    if isinstance(v, bytes):
        return v.hex()
    return v


def deep(v, single):
    if isinstance(v, list):
        return [deep(x, single) for x in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        v = gen.f32(v) if single else float(v)
        return v or 0.0               # a negative zero written as -0 is read as an integer by json
    return v


def decoded(v):
    """The bytes elements that numpy gives for fixed-size strings as text."""
    if isinstance(v, list):
        return [decoded(x) for x in v]
    return v.decode("utf8") if isinstance(v, bytes) else v


def samej(got, want, dtype, size=8):
    """JSON value equals the model (a float may be written as an integer)."""
    if dtype == FLOAT:
        return same(deep(got, size == 4), deep(want, size == 4))
    return type(got) is type(want) and got == want


def strict(text):
    def bad(x):
        raise ValueError("not valid JSON: " + x)

    def pairs(kv):
        d = dict(kv)
        assert len(d) == len(kv), "duplicate key"
        return d
    return json.loads(text.decode("utf8"), parse_constant=bad, object_pairs_hook=pairs)


def h(inst):
    b = buf(S.s_hash_size())
    r = C.dlite_instance_get_hash(inst, b, len(b))
    assert r == 0, C.dlite_errmsg()
    return b.raw


def jsontext(ctx, inst, indent, flags, rng, where):
    """All ways of printing agree and stay inside their buffers."""
    p = C.dlite_json_aprint(inst, indent, flags)
    if not ctx.check(p, "aprint", lambda: (C.dlite_errmsg(), where)):
        return None
    t = take_str(p)
    for n in {0, 1, 2, len(t), len(t) + 1, len(t) + 2, rng.randint(1, len(t)), rng.randint(1, len(t))}:
        b = (c.c_char * n)() if n else None
        if n:
            c.memset(b, 0x5a, n)
        r = C.dlite_json_sprint(b, n, inst, indent, flags)
        ctx.eq(r, len(t), "sprint-return", (n, where))
        if n:
            ctx.eq(bytes(b.raw), (t[:n-1] + b"\0").ljust(n, b"\x5a") if n > len(t) else t[:n-1] + b"\0",
                   "sprint-content", n)
    # at an offset into an allocated buffer
    size0, pos = rng.choice([0, 1, 5, len(t) // 2, len(t), len(t) + 9]), rng.choice([0, 1, 3, 7, 40])
    q = libc.malloc(size0) if size0 else None
    fillb = bytes(rng.randrange(97, 120) for _ in range(size0))
    if size0:
        c.memmove(q, fillb, size0)
    pp, sz = c.c_void_p(q), c.c_size_t(size0)
    r = C.dlite_json_asprint(c.byref(pp), c.byref(sz), pos, inst, indent, flags)
    ctx.eq(r, len(t), "asprint-return", where)
    ctx.check(sz.value >= pos + len(t) + 1, "asprint-size")
    got = c.string_at(pp.value, pos + len(t) + 1)
    ctx.eq(got, fillb[:pos].ljust(pos, b" ") + t + b"\0", "asprint-content", (size0, pos))
    libc.free(pp)
    if rng.random() < .2:
        fn = os.path.join(ctx.work, "o.json")
        r = C.dlite_json_printfile(fn.encode(), inst, flags)
        want = t if indent == 0 else take_str(C.dlite_json_aprint(inst, 0, flags))
        ctx.eq((r, open(fn, "rb").read()), (len(want), want + b"\n"), "printfile")
    return t


def unwrap(ctx, doc, uuid, uri, flags, where):
    if flags & SINGLE:
        return doc
    key = uri if (flags & URIKEY and uri) else uuid
    if ctx.eq(list(doc), [key], "document-key", where):
        return doc[key]


def load(ctx, rng, t, uuid, uri, metauri, hasid):
    """Load through a randomly chosen reader; hasid: the document itself tells the identity."""
    id = rng.choice([uuid, gen.uuid_case(rng, uuid)] + ([uri] * 2 if uri else []) + ([None] * 2 if hasid else []))
    metaid = rng.choice([None, None, metauri, uuid5(metauri)])
    k = rng.randrange(3)
    bid, bmeta = id.encode() if id else None, metaid.encode() if metaid else None
    if k == 0:
        q = (c.c_char * (len(t) + 1)).from_buffer_copy(t + b"\0")
        p = C.dlite_json_sscan(q, bid, bmeta)
    else:
        fn = os.path.join(ctx.work, "i.json")
        with open(fn, "wb") as f:
            f.write(t)
        if k == 1:
            p = C.dlite_json_scanfile(fn.encode(), bid, bmeta)
        else:
            fp = libc.fopen(fn.encode(), b"r")
            p = C.dlite_json_fscan(fp, bid, bmeta)
            libc.fclose(fp)
    kind = ("uuid" if id == uuid else "uri" if id == uri else "none" if id is None else "UUID", bool(metaid), k)
    return p, kind


def g_data(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=6)
    ekid = gen.rand_entity(rng, maxprops=1, kinds="i", maxdims=0)
    mkid = gen.c_meta(ekid)
    kids = [gen.c_instance(mkid, []) for _ in range(2)]
    refs = []
    if rng.random() < .4:
        refs = [Prop("ref_a", "ref", REF, 8, ref=ekid.uri)]
        if e.dims:
            refs.append(Prop("ref_arr", "ref", REF, 8, [rng.choice(e.dims)], ref=ekid.uri))
    base = Entity(e.uri, e.dims, e.props + refs, e.descr, e.dimdescr)
    if refs:
        import dlite
        py = gen.py_meta(base)
        meta = gen.ptr(py)
        C.dlite_meta_incref(meta)
    else:
        meta = gen.c_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    uri = rng.choice([None, gen.ident(rng, 12), gen.url(rng), gen.text(rng, pools=gen.TEXT_POOLS[1:5]).strip() + gen.ident(rng, 8)])
    if uri and C.dlite_get_uuid(buf(37), uri.encode()) != 2:
        uri = None
    inst = gen.c_instance(meta, dims, uri)
    if not ctx.check(inst, "create", lambda: C.dlite_errmsg()):
        return
    uuid = S.s_uuid(inst).decode()
    vals = gen.rand_values(rng, e, dims, special=False)
    gen.fill(inst, e, vals)
    rvals = []
    for k, p in enumerate(refs):
        n = dims[e.dims.index(p.shape[0])] if p.shape else 1
        rv = [rng.choice([None, 0, 1]) for _ in range(n)]
        a = (c.c_void_p * max(n, 1))(*[kids[x] if x is not None else None for x in rv])
        ctx.eq(C.dlite_instance_set_property_by_index(inst, len(e.props) + k, addr(a)), 0, "set-ref")
        rvals.append([S.s_uuid(kids[x]).decode() if x is not None else None for x in rv] if p.shape else
                     S.s_uuid(kids[rv[0]]).decode() if rv[0] is not None else None)
    snap = rng.random() < .2 and not refs
    if snap:
        ctx.eq(C.dlite_instance_snapshot(inst), 0, "snapshot", lambda: C.dlite_errmsg())
    hash0 = h(inst)
    flags, indent = rng.randrange(128), rng.choice([0, 0, 1, 2, 4, 9])
    where = (flags, indent, uri)
    t = jsontext(ctx, inst, indent, flags, rng, where)
    if t is None:
        return
    try:
        doc = strict(t)
    except (ValueError, AssertionError) as ex:
        return ctx.fail("invalid-json", (ex, t))
    d = unwrap(ctx, doc, uuid, uri, flags, where)
    if d is None:
        return
    want = {"meta", "dimensions", "properties"}
    want |= {"uri"} if uri else set()
    want |= {"uuid"} if flags & UUID else set()
    want |= {"parent"} if snap and not flags & NOPARENT else set()
    ctx.eq(set(d), want, "members", where)
    ctx.eq((d.get("uri"), d["meta"]), (uri, e.uri), "uri-meta")
    if flags & UUID:
        ctx.eq(d["uuid"], uuid, "uuid-member")
    if "parent" in want:
        ctx.eq(d["parent"], {"uuid": S.s_parent_uuid(inst).decode(),
                             "hash": c.string_at(S.s_parent_hash(inst), S.s_hash_size()).hex()}, "parent")
    ctx.eq(d["dimensions"], dict(zip(e.dims, dims)), "dimensions")
    ctx.eq(list(d["properties"]), [p.name for p in base.props], "property-names")
    for p, v in zip(base.props, vals + rvals):
        if p.shape:
            v = gen.nest([jval(x) for x in v], base.shape_of(p, dims))
        ctx.check(samej(d["properties"].get(p.name), jval(v), p.dtype, p.size), "json-value:" + p.tname.rstrip("0123456789"),
                  lambda: (p.tname, p.shape, dims, v, d["properties"].get(p.name)))
    fmt, fl = C.dlite_json_scheck(t, len(t), None, None), c.c_int(-1)
    C.dlite_json_scheck(t, len(t), None, c.byref(fl))
    wantf = (META if "meta" in d else 0) | (UUID if flags & UUID else 0) | (flags & SINGLE)
    if not flags & SINGLE and flags & URIKEY and uri:
        wantf |= URIKEY
    ctx.eq((fmt, fl.value), (0, wantf), "format-check", where)
    # while the instance lives, loading gives the instance itself
    q = C.dlite_json_sscan(t, uuid.encode(), None)
    ctx.eq((q, S.s_refcount(inst)), (inst, 2), "load-live")
    if q:
        C.dlite_instance_decref(q)
    C.dlite_instance_decref(inst)
    ctx.check(not C.dlite_instance_has(uuid.encode(), False), "released")
    errclr()
    hasid = bool(not flags & SINGLE or uri or flags & UUID)
    q, how = load(ctx, rng, t, uuid, uri, e.uri, hasid)
    if ctx.check(q, "load", lambda: (C.dlite_errmsg(), how, where, t)):
        ctx.eq(S.s_uuid(q).decode(), uuid, "load-uuid", (how, where))
        if uri:
            ctx.eq((S.s_uri(q) or b"").decode(), uri, "load-uri", (how, where))
        ctx.eq(S.s_meta(q), meta, "load-meta")
        ctx.eq([S.s_dim(q, k) for k in range(len(dims))], dims, "load-dims")
        got = gen.read_all(q, e)
        for p, g, v in zip(e.props, got, vals):
            ctx.check(same(g, v), "load-value:" + p.tname.rstrip("0123456789"), lambda: (p.tname, g, v))
        for k, (p, v) in enumerate(zip(refs, rvals)):
            a = C.dlite_instance_get_property_by_index(q, len(e.props) + k)
            n = len(v) if p.shape else 1
            a = (c.c_void_p * n).from_address(a) if n and a else []
            g = [S.s_uuid(x).decode() if x else None for x in a]
            ctx.eq(g if p.shape else g[0], v, "load-ref")
        if not snap:
            ctx.eq(h(q), hash0, "load-hash")
            if hasid and (uri is None or S.s_uri(q)):
                t2 = take_str(C.dlite_json_aprint(q, indent, flags))
                ctx.eq(t2, t, "reprint", (how, where))
        # wrong metadata is refused
        r = C.dlite_json_sscan(t, uuid.encode(), ENTITY.encode())
        ctx.check(not r and C.dlite_errval(), "wrong-metaid")
        ctx.eq(S.s_refcount(q), 1, "refcount")
        C.dlite_instance_decref(q)
        errclr()
        r = C.dlite_json_sscan(t, uuid.encode(), ENTITY.encode())
        ctx.check(not r and not C.dlite_instance_has(uuid.encode(), False), "wrong-metaid-kept")
        r = C.dlite_json_sscan(t, new_uuid(rng).encode(), None) if not flags & SINGLE else None
        ctx.check(not r, "other-id-loaded")
    errclr()
    ctx.sig("data", flags, how, "".join(sorted({p.tname[0] for p in base.props})), snap)
    for x in kids:
        ctx.eq(S.s_refcount(x), 1, "kid-refcount")
        C.dlite_instance_decref(x)
    for m in (meta, mkid):
        C.dlite_meta_decref(m)
    errclr()


def g_meta(ctx, i, rng):
    """Metadata documents: every description survives, in both formats."""
    e = gen.rand_entity(rng, txt=lambda r: gen.text(r))
    for p in e.props:
        if rng.random() < .3:
            p.unit = gen.text(rng) or None
    tag = gen.ident(rng, 10)
    e.uri = "http://onto-ns.com/meta/%s/0.1/%s" % (tag, gen.ident(rng, 8))
    if rng.random() < .4:
        e.props.append(Prop("ref_a", "ref", REF, 8, [e.dims[0]] if e.dims else [], ref=gen.meta_uri(rng)))
    how = rng.randrange(2)
    if how or e.props[-1].dtype == REF:
        py = gen.py_meta(e)
        meta = gen.ptr(py)
    else:
        meta = gen.c_meta(e)
        py = None
    flags, indent = rng.randrange(128), rng.choice([0, 0, 2, 3])
    uuid = uuid5(e.uri)
    where = (flags, indent)
    t = jsontext(ctx, meta, indent, flags, rng, where)
    if t is None:
        return
    try:
        doc = strict(t)
    except (ValueError, AssertionError) as ex:
        return ctx.fail("meta-invalid-json", (ex, t))
    d = unwrap(ctx, doc, uuid, e.uri, flags, where)
    if d is None:
        return
    ctx.eq(d["uri"], e.uri, "meta-uri")
    ctx.eq(d.get("uuid"), uuid if flags & UUID else None, "meta-uuid")
    ctx.eq(d.get("meta"), ENTITY if flags & META else None, "meta-meta")
    ctx.eq(d.get("description") or "", e.descr or "", "meta-description")
    if flags & ARRAYS:
        dd = [(x["name"], x.get("description") or "") for x in d["dimensions"]]
        pp = d["properties"]
    else:
        dd = [(k, v) for k, v in d["dimensions"].items()]
        pp = [dict(v, name=k) for k, v in d["properties"].items()]
    ctx.eq(dd, [(x, e.dimdescr.get(x, "")) for x in e.dims], "meta-dimensions")
    sh = "dims" if flags & ARRAYS else "shape"
    for p, x in zip(e.props, pp):
        ctx.eq((x["name"], x["type"], x.get("$ref"), x.get(sh) or [], x.get("unit") or "", x.get("description") or ""),
               (p.name, p.tname, p.ref, p.shape, p.unit or "", p.descr or ""), "meta-property", where)
    ctx.eq(len(pp), len(e.props), "meta-nproperties")
    # load under another URI
    e2 = Entity(e.uri.replace(tag, tag + "x"), e.dims, e.props, e.descr, e.dimdescr)
    uuid2 = uuid5(e2.uri)
    t2 = t.replace(e.uri.encode(), e2.uri.encode()).replace(uuid.encode(), uuid2.encode())
    m, how2 = load(ctx, rng, t2, uuid2, e2.uri, ENTITY, True)
    if ctx.check(m, "meta-load", lambda: (C.dlite_errmsg(), how2, where, t2)):
        ctx.eq((S.s_uuid(m).decode(), S.s_uri(m).decode()), (uuid2, e2.uri), "meta-load-id")
        ctx.eq([(S.d_name(S.m_dim(m, k)).decode(), (S.d_descr(S.m_dim(m, k)) or b"").decode())
                for k in range(S.m_ndim(m))], [(x, e.dimdescr.get(x, "")) for x in e.dims], "meta-load-dims")
        got = []
        for k in range(S.m_nprop(m)):
            p = S.m_prop(m, k)
            got.append((S.p_name(p).decode(), S.p_type(p), S.p_size(p), (S.p_ref(p) or b"").decode() or None,
                        [S.p_shape(p, j).decode() for j in range(S.p_ndims(p))], (S.p_unit(p) or b"").decode(),
                        (S.p_descr(p) or b"").decode()))
        ctx.eq(got, [(p.name, p.dtype, p.size, p.ref, p.shape, p.unit or "", p.descr or "") for p in e.props],
               "meta-load-props")
        t3 = take_str(C.dlite_json_aprint(m, indent, flags))
        if e.descr or not (flags & 0):
            ctx.eq(strict(t3), strict(t2), "meta-reprint", where)
        dims = [rng.randint(0, 2) for _ in e.dims]
        x = gen.c_instance(m, dims)
        if ctx.check(x, "meta-usable", lambda: C.dlite_errmsg()):
            C.dlite_instance_decref(x)
    ctx.sig("meta", flags, how2, bool(e.descr), len(e.dims), "".join(sorted({p.tname[0] for p in e.props})))
    errclr()


def rel_sets(coll):
    n = S.c_nrelations(coll)
    out = []
    a = (c.c_void_p * (n * 6)).from_address(S.c_relations(coll)) if n else []
    st = S.s_sizeof(b"relation") // 8
    for k in range(n):
        out.append(tuple(c.string_at(a2).decode() if a2 else None for a2 in a[k*st:k*st + 4]))
    return out


def g_coll(ctx, i, rng):
    """Collections: labels, instances and relations."""
    e = gen.rand_entity(rng, maxprops=2, maxdims=1)
    meta = gen.c_meta(e)
    id = rng.choice([None, gen.ident(rng, 12), gen.url(rng)])
    if id and C.dlite_get_uuid(buf(37), id.encode()) != 2:
        id = None
    coll = C.dlite_collection_create(id.encode() if id else None)
    uuid = S.s_uuid(coll).decode()
    insts = {}
    for k in range(rng.randint(0, 4)):
        x = gen.c_instance(meta, [1] * len(e.dims))
        lab = "%d%s" % (k, gen.text(rng, 8))
        ctx.eq(C.dlite_collection_add(coll, lab.encode(), x), 0, "add", lambda: C.dlite_errmsg())
        insts[lab] = x
    rels = set()
    for k in range(rng.randint(0, 6)):
        r = tuple(gen.text(rng, 12) or "q" for _ in range(3))
        dt = None
        C.dlite_collection_add_relation(coll, r[0].encode(), r[1].encode(), r[2].encode(), dt)
        rels.add(r)
    flags, indent = rng.randrange(128), rng.choice([0, 2])
    t = jsontext(ctx, coll, indent, flags, rng, flags)
    if t is None:
        return
    try:
        doc = strict(t)
    except (ValueError, AssertionError) as ex:
        return ctx.fail("coll-invalid-json", (ex, t))
    d = unwrap(ctx, doc, uuid, id, flags, flags)
    if d is None:
        return
    want = set(rels)
    for lab, x in insts.items():
        want |= {(lab, "_is-a", "Instance"), (lab, "_has-uuid", S.s_uuid(x).decode()), (lab, "_has-meta", e.uri)}
    got = [tuple(r[:3]) for r in d["properties"]["relations"]]
    ctx.eq(sorted(got), sorted(want), "coll-relations")
    ctx.eq(d["dimensions"], {"nrelations": len(want)}, "coll-dims")
    hash0 = h(coll)
    C.dlite_collection_decref(coll)
    for x in insts.values():
        ctx.eq(S.s_refcount(x), 1, "coll-kept")
    hasid = bool(not flags & SINGLE or id or flags & UUID)
    q, how = load(ctx, rng, t, uuid, id, COLL, hasid)
    if ctx.check(q, "coll-load", lambda: (C.dlite_errmsg(), how, t)):
        ctx.eq(S.s_uuid(q).decode(), uuid, "coll-uuid", how)
        ctx.eq(h(q), hash0, "coll-hash")
        for lab, x in insts.items():
            ctx.eq(C.dlite_collection_get(q, lab.encode()), x, "coll-get", lab)
        for r in rels:
            p = C.dlite_collection_find_first(q, r[0].encode(), r[1].encode(), r[2].encode(), None)
            ctx.check(p, "coll-find", r)
        t2 = take_str(C.dlite_json_aprint(q, indent, flags))
        if hasid:
            try:
                d2 = unwrap(ctx, strict(t2), uuid, id, flags, flags)
                ctx.eq(sorted(map(tuple, d2["properties"]["relations"])),
                       sorted(map(tuple, d["properties"]["relations"])), "coll-reprint")
            except ValueError as ex:
                ctx.fail("coll-reprint-invalid", (ex, t2))
        C.dlite_collection_decref(q)
    ctx.sig("coll", flags, how, len(insts), len(rels))
    for x in insts.values():
        C.dlite_instance_decref(x)
    C.dlite_meta_decref(meta)
    errclr()


def g_multi(ctx, i, rng):
    """Several instances in one text: found individually and by iteration."""
    es = [gen.rand_entity(rng, maxprops=3, maxdims=2) for _ in range(2)]
    metas = [gen.c_meta(e) for e in es]
    items = []
    n = rng.randint(0, 7)
    start = rng.choice([b"{}", b"{ }", b"{\n}", b" {\n\n} ", b"{}\n"])
    size = c.c_size_t(len(start) + 1)
    s = c.c_void_p(libc.malloc(len(start) + 1))
    c.memmove(s.value, start + b"\0", len(start) + 1)
    for k in range(n):
        w = rng.randrange(2)
        e = es[w]
        dims = [rng.randint(0, 2) for _ in e.dims]
        uri = rng.choice([None, gen.ident(rng, 12), gen.url(rng)])
        if uri and C.dlite_get_uuid(buf(37), uri.encode()) != 2:
            uri = None
        x = gen.c_instance(metas[w], dims, uri)
        v = gen.rand_values(rng, e, dims, special=False)
        gen.fill(x, e, v)
        flags = rng.choice([0, UUID, META]) | SINGLE
        before = c.string_at(s.value)
        r = C.dlite_json_append(c.byref(s), c.byref(size), x, flags)
        ctx.check(r >= 0, "append", lambda: C.dlite_errmsg())
        now = c.string_at(s.value)
        ctx.check(size.value > len(now), "append-size", (size.value, len(now)))
        try:
            strict(now)
        except (ValueError, AssertionError) as ex:
            return ctx.fail("append-invalid-json", (ex, before, now))
        items.append((S.s_uuid(x).decode(), uri, w, dims, v, h(x)))
        C.dlite_instance_decref(x)
    t = c.string_at(s.value)
    libc.free(s)
    doc = strict(t)
    ctx.eq(sorted(doc), sorted(x[0] for x in items), "append-keys")
    # iteration, unrestricted and by metadata
    q = (c.c_char * (len(t) + 1)).from_buffer_copy(t + b"\0")
    for k, mid in enumerate([None, es[0].uri, uuid5(es[1].uri), gen.meta_uri(rng)]):
        it = C.dlite_json_iter_create(q, rng.choice([0, -1, len(t)]), mid.encode() if mid else None)
        got = []
        if ctx.check(it, "iter-create", lambda: C.dlite_errmsg()):
            ln = c.c_int()
            C.dlite_json_next.restype = c.c_void_p
            while len(got) < 50:
                p = C.dlite_json_next(it, c.byref(ln))
                if not p:
                    break
                got.append(c.string_at(p, ln.value).decode())
            C.dlite_json_iter_free(it)
        want = [x[0] for x in items if k == 0 or (k == 1 and x[2] == 0) or (k == 2 and x[2] == 1)]
        ctx.eq(got, want, "iter", mid)
    rng.shuffle(items)
    for uuid, uri, w, dims, v, h0 in items:
        same_meta = [x for x in items if x[2] == w]
        id = rng.choice([uuid, uri or uuid, gen.uuid_case(rng, uuid)])
        mid = rng.choice([None, es[w].uri])
        if len(same_meta) == 1 and rng.random() < .5:
            id, mid = None, es[w].uri
        if len(items) == 1 and rng.random() < .5:
            id = None
        p = C.dlite_json_sscan(q, id.encode() if id else None, mid.encode() if mid else None)
        if ctx.check(p, "multi-load", lambda: (C.dlite_errmsg(), id, mid)):
            ctx.eq(S.s_uuid(p).decode(), uuid, "multi-uuid", (id, mid))
            ctx.eq(h(p), h0, "multi-hash")
            ctx.check(same(gen.read_all(p, es[w]), v), "multi-values")
            C.dlite_instance_decref(p)
        p = C.dlite_json_sscan(q, uuid.encode(), es[1-w].uri.encode())
        ctx.check(not p, "multi-wrong-meta")
        errclr()
    if len(items) > 1:
        ctx.check(not C.dlite_json_sscan(q, None, None), "multi-ambiguous")
    ctx.check(not C.dlite_json_sscan(q, new_uuid(rng).encode(), None), "multi-missing")
    errclr()
    # a JSON store with the same text
    js = C.jstore_open()
    ctx.check(C.dlite_jstore_loads(js, q, len(t)) >= 0 or not items, "jstore-loads", lambda: C.dlite_errmsg())
    for k, mid in enumerate([None, es[0].uri, es[1].uri]):
        it = C.dlite_jstore_iter_create(js, mid.encode() if mid else None)
        got = []
        while it and len(got) < 50:
            p = C.dlite_jstore_iter_next(it)
            if not p:
                break
            got.append(p.decode() if isinstance(p, bytes) else c.string_at(p).decode())
        C.dlite_jstore_iter_free(it)
        ctx.eq(sorted(got), sorted(x[0] for x in items if k == 0 or x[2] == k - 1), "jstore-iter")
    for uuid, uri, w, dims, v, h0 in items:
        p = C.dlite_jstore_get(js, rng.choice([uuid, uri or uuid]).encode())
        if ctx.check(p, "jstore-get", lambda: (C.dlite_errmsg(), uuid, uri)):
            ctx.eq((S.s_uuid(p).decode(), h(p)), (uuid, h0), "jstore-value")
            ctx.eq(C.dlite_jstore_remove(js, uuid.encode()), 0, "jstore-remove")
            ctx.check(not C.jstore_get(js, uuid.encode()), "jstore-removed")
            ctx.eq(C.dlite_jstore_add(js, p, 0), 0, "jstore-add")
            C.dlite_instance_decref(p)
            p = C.dlite_jstore_get(js, uuid.encode())
            if ctx.check(p, "jstore-get-again", lambda: C.dlite_errmsg()):
                ctx.eq((S.s_uuid(p).decode(), h(p)), (uuid, h0), "jstore-value-again")
                C.dlite_instance_decref(p)
    C.jstore_close(js)
    errclr()
    ctx.sig("multi", n, len({x[2] for x in items}), bool([x for x in items if x[1]]))
    for m in metas:
        C.dlite_meta_decref(m)
    errclr()


def g_py(ctx, i, rng):
    """The Python methods: asjson/from_json, asdict/from_dict, str()."""
    import dlite
    from dlite.utils import instance_from_dict
    e = gen.rand_entity(rng, maxprops=5, txt=lambda r: gen.text(r))
    py = gen.py_meta(e)
    dims = [rng.randint(0, 3) for _ in e.dims]
    uri = rng.choice([None, gen.ident(rng, 12)])
    inst = dlite.Instance.from_metaid(e.uri, dims, id=uri)
    vals = gen.rand_values(rng, e, dims, special=False)
    # -0.0 becomes an integer 0 when the text passes through Python's json
    vals = [([x or 0.0 for x in v] if p.shape else v or 0.0) if p.dtype == FLOAT else v
            for p, v in zip(e.props, vals)]
    gen.fill(gen.ptr(inst), e, vals)
    uuid, hash0 = inst.uuid, inst.get_hash()
    kw = dict(single=rng.choice([True, False]), urikey=rng.random() < .5, with_uuid=True)
    if rng.random() < .5:
        kw["indent"] = rng.choice([0, 2, 4])
    t = inst.asjson(**kw)
    doc = strict(t.encode())
    key = uri if kw["urikey"] and uri else uuid
    d = doc if kw["single"] else doc.get(key)
    if not ctx.check(d, "py-key", (kw, list(doc))):
        return
    ad = inst.asdict(single=True)
    for p, v in zip(e.props, vals):
        w = gen.nest([jval(x) for x in v], e.shape_of(p, dims)) if p.shape else jval(v)
        ctx.check(samej(d["properties"][p.name], w, p.dtype, p.size), "py-json-value", lambda: (p.name, p.tname, v, t))
        if p.dtype == STRPTR and (v is None or isinstance(v, list)):
            continue
        ctx.check(samej(decoded(ad["properties"][p.name]), w, p.dtype, p.size), "py-asdict-value",
                  lambda: (p.tname, ad["properties"][p.name], w))
    ctx.eq((ad["dimensions"], ad["meta"], ad.get("uuid"), ad.get("uri")),
           (dict(zip(e.dims, dims)), e.uri, None if uri else uuid, uri), "py-asdict")
    ctx.eq((inst.asdict(single=True, uuid=True)["uuid"], list(inst.asdict(single=False))), (uuid, [uuid]), "py-asdict-uuid")
    st = strict(str(inst).encode())
    ctx.eq(st.get(uuid, st)["properties"], d["properties"], "py-str")
    del inst
    ctx.check(not C.dlite_instance_has(uuid.encode(), False), "py-released")
    k = rng.randrange(3)
    if k == 0:
        q = dlite.Instance.from_json(t, id=rng.choice([None, uuid]))
    elif k == 1:
        q = dlite.Instance.from_dict(d, id=uuid)
    else:
        q = dlite.Instance.from_json(json.dumps(d, indent=rng.choice([None, 1, 3])), id=uuid)
    ctx.eq((q.uuid, q.meta.uri, q.get_hash() if k != 1 else hash0), (uuid, e.uri, hash0), "py-load", (k, kw))
    got = gen.read_all(gen.ptr(q), e)
    for p, g, v in zip(e.props, got, vals):
        ctx.check(same(g, v), "py-load-value:%d" % k, lambda: (p.tname, g, v))
    ctx.sig("py", k, tuple(kw), "".join(sorted({p.tname[0] for p in e.props})))
    # metadata
    fm = dict(single=rng.choice([True, False, None]), soft7=rng.random() < .5, urikey=rng.random() < .5)
    t = py.asjson(**fm)
    strict(t.encode())
    md = strict(json.dumps(py.asdict(soft7=fm["soft7"], single=True)).encode())
    ctx.eq((md["uri"], md["meta"]), (e.uri, ENTITY), "py-meta-asdict")
    e2 = e.uri + "x"
    md.update(uri=e2)
    md.pop("uuid", None)
    m2 = dlite.Instance.from_dict(md) if rng.random() < .5 else dlite.Instance.from_json(json.dumps(md), id=e2)
    ctx.eq(m2.uri, e2, "py-meta-uri")
    m = gen.ptr(m2)
    got = [(S.p_name(p).decode(), S.p_type(p), S.p_size(p),
            [S.p_shape(p, j).decode() for j in range(S.p_ndims(p))], (S.p_unit(p) or b"").decode(),
            (S.p_descr(p) or b"").decode()) for p in (S.m_prop(m, k) for k in range(S.m_nprop(m)))]
    ctx.eq(got, [(p.name, p.dtype, p.size, p.shape, p.unit or "", p.descr or "") for p in e.props], "py-meta-props")
    errclr()


GROUPS = [
    ("data", g_data, 320, 6000),
    ("meta", g_meta, 160, 3000),
    ("coll", g_coll, 96, 2000),
    ("multi", g_multi, 96, 2000),
    ("py", g_py, 120, 2000),
]
