"""P03: instances follow the memory layout their metadata prescribes."""
import ctypes as c, json
from dl import *
import gen
from gen import prod, Prop, Entity

RULE = "distinct (metadata source, member kinds, alignment class, rank, rejection kind) layouts observed"
ALIGN = {BOOL: lambda s: 1, INT: lambda s: s, UINT: lambda s: s, FLOAT: lambda s: s, BLOB: lambda s: 1,
         FIXSTR: lambda s: 1}
ENTITY = b"http://onto-ns.com/meta/0.3/EntitySchema"


def setup():
    quiet()


def stored():
    n = c.c_int()
    p = C.dlite_istore_get_uuids(c.byref(n))
    a = (c.c_void_p * (n.value + 1)).from_address(p)
    out = set()
    for i in range(n.value):
        out.add(c.string_at(a[i]).decode())
        libc.free(a[i])
    libc.free(p)
    return out


def layout(ctx, inst, where):
    """Members given by the metadata lie inside the instance, aligned and disjoint."""
    meta = S.s_meta(inst)
    size = C.dlite_instance_size(meta, S.s_dimptr(inst))
    ctx.check(size > 0, "instance-size", where)
    ismeta = bool(C.dlite_instance_is_meta(inst))
    hs = S.m_headersize(meta)
    ctx.check(hs >= S.s_sizeof(b"meta" if ismeta else b"instance"), "headersize", where)
    members = [(0, hs, 8, "header")]
    nd, np = S.m_ndim(meta), S.m_nprop(meta)
    if nd:
        members.append((S.m_dimoffset(meta), 8*nd, 8, "dims"))
    ind = 0
    for i in range(np):
        p = S.m_prop(meta, i)
        dt, sz, nds = S.p_type(p), S.p_size(p), S.p_ndims(p)
        al, n = (8, 8) if nds else (ALIGN.get(dt, lambda s: 8)(sz), sz)
        members.append((S.m_propoffset(meta, i), n, al, "prop%d %s" % (i, S.p_name(p))))
        ctx.eq(S.s_prop(inst, i), inst + S.m_propoffset(meta, i), "prop-address", where)
        ctx.eq(S.m_propdimind(meta, i), ind, "propdimind", where)
        ind += nds
    ctx.eq(S.m_npropdims(meta), ind, "npropdims", where)
    if S.m_nrel(meta):
        members.append((S.m_reloffset(meta), 8*S.m_nrel(meta), 8, "rels"))
    if ind:
        members.append((S.m_propdimsoffset(meta), 8*ind, 8, "propdims"))
    if ismeta:
        n = S.m_nprop(inst)
        members.append((S.m_propdimindsoffset(meta), 8*n, 8, "propdiminds"))
        members.append((S.m_propdimindsoffset(meta) + 8*n, 8*n, 8, "propoffsets"))
        if n:
            p0 = c.cast(inst + S.m_propdimindsoffset(meta), c.POINTER(c.c_size_t))
            ctx.eq([p0[i] for i in range(2*n)],
                   [S.m_propdimind(inst, i) for i in range(n)] + [S.m_propoffset(inst, i) for i in range(n)],
                   "meta-tables", where)
    members.sort()
    for (o, n, al, nm), nxt in zip(members, members[1:] + [(size, 0, 1, "end")]):
        ctx.check(o % al == 0, "alignment", lambda: (where, nm, o, al))
        ctx.check(o + n <= nxt[0], "overlap", lambda: (where, nm, o, n, nxt))
    # the whole allocation can be read (ASan traps if it is smaller)
    c.string_at(inst, size)
    return members


def readback(ctx, meta, e, where):
    ctx.eq(S.m_ndim(meta), len(e.dims), "meta-ndim", where)
    ctx.eq(S.m_nprop(meta), len(e.props), "meta-nprop", where)
    ctx.eq(S.s_uri(meta), e.uri.encode(), "meta-uri", where)
    ctx.eq(S.s_uuid(meta), uuid5(e.uri).encode(), "meta-uuid", where)
    for i, d in enumerate(e.dims):
        q = S.m_dim(meta, i)
        ctx.eq(S.d_name(q).decode(), d, "dim-name", where)
        ctx.eq((S.d_descr(q) or b"").decode(), e.dimdescr.get(d) or "", "dim-descr", where)
        ctx.eq(C.dlite_meta_get_dimension_index(meta, d.encode()), i, "dim-index", where)
        ctx.eq(C.dlite_meta_get_dimension(meta, d.encode()), q, "dim-by-name", where)
        ctx.eq(C.dlite_meta_has_dimension(meta, d.encode()), True, "has-dim", where)
    for i, p in enumerate(e.props):
        q = S.m_prop(meta, i)
        ctx.eq(S.p_name(q).decode(), p.name, "prop-name", where)
        ctx.eq((S.p_type(q), S.p_size(q)), (p.dtype, p.size), "prop-type", (where, p.name, p.tname))
        ctx.eq((S.p_unit(q) or b"").decode(), p.unit or "", "prop-unit", where)
        ctx.eq((S.p_descr(q) or b"").decode(), p.descr or "", "prop-descr", where)
        ctx.eq((S.p_ref(q) or b"").decode(), p.ref or "", "prop-ref", where)
        ctx.eq([S.p_shape(q, j).decode() for j in range(S.p_ndims(q))], p.shape, "prop-shape", where)
        ctx.eq(C.dlite_meta_get_property_index(meta, p.name.encode()), i, "prop-index", where)
        ctx.eq(C.dlite_meta_get_property(meta, p.name.encode()), q, "prop-by-name", where)
        ctx.eq(C.dlite_meta_has_property(meta, p.name.encode()), True, "has-prop", where)
    names = set(e.dims) | {p.name for p in e.props}
    ctx.eq(C.dlite_meta_is_metameta(meta), 0, "is-metameta", where)
    ctx.eq(C.dlite_instance_is_meta(meta) != 0, True, "is-meta", where)
    for bad in ("", "no_such", (e.props[0].name + "_") if e.props else "x"):
        if bad not in names:
            ctx.eq(C.dlite_meta_has_property(meta, bad.encode()), False, "has-unknown-prop", where)
            ctx.eq(C.dlite_meta_has_dimension(meta, bad.encode()), False, "has-unknown-dim", where)
            ctx.check(C.dlite_meta_get_property_index(meta, bad.encode()) < 0, "unknown-prop-index", where)
            ctx.check(not C.dlite_meta_get_dimension(meta, bad.encode()), "unknown-dim", where)
    errclr()


def fresh(ctx, inst, e, dims, where):
    """A new instance has the requested dimensions, shapes and zeroed properties."""
    ctx.eq([S.s_dim(inst, i) for i in range(len(dims))], list(dims), "dims", where)
    ctx.eq(C.dlite_instance_is_data(inst) != 0, True, "is-data", where)
    for i, p in enumerate(e.props):
        shp = e.shape_of(p, dims)
        ctx.eq(S.s_prop_ndim(inst, i), len(shp), "ndim", where)
        ctx.eq([S.s_prop_dim(inst, i, j) for j in range(len(shp))], shp, "shape", (where, p.name, p.shape, dims))
        n = prod(shp) * p.size if p.shape else p.size
        q = C.dlite_instance_get_property_by_index(inst, i)
        if n:
            ctx.check(q and c.string_at(q, n) == b"\0" * n, "zero-init", lambda: (where, p.name, p.tname, shp))
            # writable over its whole extent
            if p.dtype in (INT, UINT, FLOAT, BLOB):
                c.memset(q, 0x41, n)
    for i, p in enumerate(e.props):
        if p.dtype in (INT, UINT, FLOAT, BLOB):
            n = prod(e.shape_of(p, dims)) * p.size
            q = C.dlite_instance_get_property_by_index(inst, i)
            ctx.check(not n or c.string_at(q, n) == b"A" * n, "members-overlap", (where, p.name))
        else:
            n = prod(e.shape_of(p, dims)) * p.size
            q = C.dlite_instance_get_property_by_index(inst, i)
            ctx.check(not n or c.string_at(q, n) == b"\0" * n, "members-overlap", (where, p.name))


EXTRA = [("ref", REF, 8), ("relation", REL, 40), ("dimension", DIM, 16), ("property", PROP, 56)]
XTYPES = None


def xentity(rng):
    global XTYPES
    if XTYPES is None:
        XTYPES = [("ref", REF, 8), ("relation", REL, S.s_sizeof(b"relation")),
                  ("dimension", DIM, S.s_sizeof(b"dimension")), ("property", PROP, S.s_sizeof(b"property"))]
    e = gen.rand_entity(rng, maxdims=4, maxprops=10, txt=lambda r: gen.text(r, pools=gen.TEXT_POOLS[:4]))
    for p in e.props:
        if p.shape and rng.random() < .25:
            d = rng.choice(e.dims)
            k = rng.randint(1, 4)
            p.shape[0] = rng.choice(["%s + %d" % (d, k), "(%s+%d)*2" % (d, k), "%s/%d" % (d, k), "%d*%s+1" % (k, d),
                                     "%s*%s" % (d, d), " %s " % d, "%d" % k, "(%s)" % d, "%d-1" % k])
    if rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            t = rng.choice(XTYPES)
            e.props.insert(rng.randrange(len(e.props) + 1),
                           Prop(gen.ident(rng, 9), t[0], t[1], t[2],
                                [rng.choice(e.dims)] if e.dims and rng.random() < .5 else [],
                                ref="http://onto-ns.com/meta/0.1/Any" if t[0] == "ref" else None))
    return e


def as_dict(e, rng):
    d = {"uri": e.uri} if rng.random() < .5 else dict(
        zip(("namespace", "version", "name"), e.uri.rsplit("/", 2)))
    d["meta"] = ENTITY.decode()
    d["description"] = e.descr
    if rng.random() < .5:
        d["dimensions"] = [{"name": x, "description": e.dimdescr[x]} for x in e.dims]
    else:
        d["dimensions"] = {x: e.dimdescr[x] for x in e.dims}
    shp = rng.choice(["shape", "dims"])

    def pd(p):
        t = dict(type=p.tname, description=p.descr, unit=p.unit, ref=p.ref)
        t[shp] = p.shape or None
        if t["type"] == "ref":
            t["$ref"] = t.pop("ref")
        return {k: v for k, v in t.items() if v is not None}
    if rng.random() < .5:
        d["properties"] = [dict(name=p.name, **pd(p)) for p in e.props]
    else:
        d["properties"] = {p.name: pd(p) for p in e.props}
    if not e.dims and rng.random() < .5:
        del d["dimensions"]
    return d


def make(e, how, rng):
    """New reference to the metadata, built through one of the public ways."""
    import dlite
    if how == 0:
        if any(p.ref for p in e.props):
            how = 1
        else:
            return gen.c_meta(e)
    if how == 1:
        D, P = S.s_sizeof(b"dimension"), S.s_sizeof(b"property")
        dims, props = buf(max(1, D*len(e.dims))), buf(max(1, P*len(e.props)))
        tmp = []
        for i, d in enumerate(e.dims):
            q = C.dlite_dimension_create(d.encode(), e.dimdescr[d].encode())
            c.memmove(addr(dims) + i*D, q, D)
            tmp.append(q)
        for i, p in enumerate(e.props):
            q = C.dlite_property_create(p.name.encode(), p.dtype, p.size, p.unit.encode() if p.unit else None,
                                        p.descr.encode() if p.descr is not None else None)
            if p.ref:
                S.p_set_ref(q, p.ref.encode())
            for s in p.shape:
                C.dlite_property_add_dim(q, s.encode())
            c.memmove(addr(props) + i*P, q, P)
            tmp.append(q)
        m = C.dlite_meta_create(e.uri.encode(), e.descr.encode(), len(e.dims), addr(dims), len(e.props), addr(props))
        for i, q in enumerate(tmp):
            (C.dlite_dimension_free if i < len(e.dims) else C.dlite_property_free)(q)
        return m
    if how == 2:
        o = gen.py_meta(e)
    elif how == 3:
        return C.dlite_json_sscan(json.dumps(as_dict(e, rng), ensure_ascii=rng.random() < .5).encode(), None, None)
    else:
        d = as_dict(e, rng)
        if "uri" not in d:
            d["uri"] = e.uri
        o = dlite.Instance.from_dict(d)
    C.dlite_instance_incref(gen.ptr(o))
    return gen.ptr(o)


SRC = ["metamodel", "meta_create", "Metadata", "json", "from_dict"]


def g_layout(ctx, i, rng):
    import dlite
    e = xentity(rng)
    how = rng.randrange(5)
    before = stored()
    try:
        meta = make(e, how, rng)
    except dlite.DLiteError as ex:
        ctx.fail("meta-refused:" + SRC[how], (repr(ex), [(p.tname, p.shape) for p in e.props]))
        return
    if not ctx.check(meta, "meta-refused:" + SRC[how], lambda: (C.dlite_errmsg(), [(p.tname, p.shape) for p in e.props])):
        return
    errclr()
    ctx.eq(stored() - before, {uuid5(e.uri)}, "stored-meta", SRC[how])
    readback(ctx, meta, e, SRC[how])
    mem = layout(ctx, meta, "metadata " + SRC[how])
    if i < 3:
        ctx.sample("%s: %s" % (SRC[how], [(p.tname, p.shape) for p in e.props]))
    for k in range(3):
        dims = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in e.dims]
        if k == 2:
            for j, d in enumerate(e.dims):
                if not any(d in s for p in e.props for s in p.shape):
                    dims[j] = rng.choice([2**31 - 1, 10**6])
        r0 = S.s_refcount(meta)
        inst = gen.c_instance(meta, dims)
        if not ctx.check(inst, "create", lambda: (SRC[how], C.dlite_errmsg(), e.dims, dims,
                                                  [(p.tname, p.shape) for p in e.props])):
            errclr()
            continue
        ctx.eq(S.s_refcount(meta), r0 + 1, "meta-refcount")
        layout(ctx, inst, SRC[how])
        fresh(ctx, inst, e, dims, SRC[how])
        ctx.eq(C.dlite_instance_decref(inst), 0, "decref")
        ctx.eq(S.s_refcount(meta), r0, "meta-refcount-after")
        for p in e.props:
            ctx.sig(how, p.dtype, p.size if p.dtype in (INT, UINT, FLOAT) else p.size % 8, len(p.shape),
                    prod(e.shape_of(p, dims)) == 0)
    ctx.sig("mem", tuple(m[0] % 8 for m in mem)[:8])
    # the same definition again gives the same metadata
    m2 = make(e, rng.choice([1, 2, 3, 4]), rng)
    ctx.eq(m2, meta, "meta-identity")
    if m2:
        C.dlite_meta_decref(m2)
    while S.s_refcount(meta) > 2:        # the store keeps one
        C.dlite_meta_decref(meta)
    errclr()


def refused(ctx, key, r, before, meta=None, rc=None, detail=""):
    """A refused creation reports an error and leaves nothing behind."""
    ctx.check(not r, "accepted:" + key, detail)
    if not r:
        ctx.check(errval() != 0, "no-error:" + key, detail)
        ctx.eq(stored(), before, "store-changed:" + key, detail)
        if meta:
            ctx.eq(S.s_refcount(meta), rc, "meta-refcount:" + key, detail)
    ctx.sig("refused", key)
    errclr()


def g_reject(ctx, i, rng):
    e = gen.rand_entity(rng, maxdims=3, maxprops=5)
    kinds = ["undef-dim", "negative", "div0", "big-dim", "overflow", "dup-dim", "dup-prop", "unknown-type",
             "no-description", "bad-prop-dim", "syntax", "int-overflow", "bad-uri", "no-props", "other-id"]
    k = kinds[i % len(kinds)]
    before = stored()
    errclr()
    dims = [rng.randint(1, 3) for _ in e.dims]
    d0 = rng.choice(e.dims) if e.dims else None

    def inst_fails(expr, extra_dim=None, nd=None):
        p = Prop("bad_p", "int32", INT, 4, ["1", expr] if rng.random() < .5 else [expr])
        e.props.insert(rng.randrange(len(e.props) + 1), p)
        meta = gen.c_meta(e)
        if not meta:        # refusing the metadata is as good
            refused(ctx, k, None, before)
            return
        b, rc = stored(), S.s_refcount(meta)
        r = gen.c_instance(meta, nd or dims)
        refused(ctx, k, r, b, meta, rc, (expr, e.dims, nd or dims))
        # still usable for what is valid
        C.dlite_meta_decref(meta)

    if k == "undef-dim":
        inst_fails(rng.choice(["nosuch", "nosuch+1", "2*nosuch", (d0 or "q") + "x", "(%s)" % "zz"]))
    elif k == "negative":
        inst_fails(rng.choice(["0-1", "1-3", "%s-10" % (d0 or "2"), "2*(1-4)"]))
    elif k == "div0":
        inst_fails(rng.choice(["1/0", "%s/0" % (d0 or "4"), "3/(2-2)"]))
    elif k == "syntax":
        inst_fails(rng.choice(["1+", "(1", "1)", "*2", "1 2", "#", "a b", "1+*2", ")("]))
    elif k == "int-overflow":
        inst_fails(rng.choice(["2147483647+1", "65536*65536", "99999999999", "2147483647*2"]))
    elif k == "overflow":
        e.props.append(Prop("bad_p", "float64", FLOAT, 8, ["2147483647", "2147483647", "3"]))
        meta = gen.c_meta(e)
        b, rc = stored(), S.s_refcount(meta)
        refused(ctx, k, gen.c_instance(meta, dims), b, meta, rc)
        C.dlite_meta_decref(meta)
    elif k == "big-dim":
        if not e.dims:
            return
        meta = gen.c_meta(e)
        b, rc = stored(), S.s_refcount(meta)
        dims[rng.randrange(len(dims))] = rng.choice([2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1])
        refused(ctx, k, gen.c_instance(meta, dims), b, meta, rc, dims)
        C.dlite_meta_decref(meta)
    elif k == "other-id":
        # an id in use by another entity or with other dimensions
        if not e.dims:
            return
        meta = gen.c_meta(e)
        id = gen.name(rng)
        inst = gen.c_instance(meta, dims, id)
        if not inst:
            ctx.fail("create", C.dlite_errmsg())
            return
        e2 = gen.rand_entity(rng)
        m2 = gen.c_meta(e2)
        b, rc, rc2, ri = stored(), S.s_refcount(meta), S.s_refcount(m2), S.s_refcount(inst)
        refused(ctx, k + "-meta", gen.c_instance(m2, [1]*len(e2.dims), id), b, m2, rc2)
        dims[0] += 1
        refused(ctx, k + "-dims", gen.c_instance(meta, dims, id), b, meta, rc)
        ctx.eq(S.s_refcount(inst), ri, "other-id-refcount")
        C.dlite_instance_decref(inst)
        C.dlite_meta_decref(meta)
        C.dlite_meta_decref(m2)
    else:
        m = C.dlite_metamodel_create(e.uri.encode(), ENTITY)
        if k != "no-description":
            C.dlite_metamodel_add_string(m, b"description", b"d")
        for d in e.dims:
            C.dlite_metamodel_add_dimension(m, d.encode(), None)
        for p in e.props:
            if k != "no-props":
                C.dlite_metamodel_add_property(m, p.name.encode(), p.tname.encode(), None, None)
        errclr()
        if k == "dup-dim":
            if d0:
                refused(ctx, k, C.dlite_metamodel_add_dimension(m, d0.encode(), None) == 0, before)
        elif k == "dup-prop":
            refused(ctx, k, C.dlite_metamodel_add_property(m, rng.choice(e.props).name.encode(), b"int", None, None) == 0,
                    before)
        elif k == "unknown-type":
            t = rng.choice(["integer7", "int9", "strin", "", "float33", "int0", "uint3", "bool8", "xyz", "int32x"])
            refused(ctx, k, C.dlite_metamodel_add_property(m, b"newp", t.encode(), None, None) == 0, before, detail=t)
        elif k == "bad-prop-dim":
            refused(ctx, k, C.dlite_metamodel_add_property_dim(m, b"no_such_prop", b"2") == 0, before)
        elif k in ("no-description", "no-props"):
            refused(ctx, k, C.dlite_meta_create_from_metamodel(m), before)
        elif k == "bad-uri":
            m3 = C.dlite_metamodel_create(rng.choice([b"nouri", b"a/b", b"x"]), ENTITY)
            C.dlite_metamodel_add_string(m3, b"description", b"d")
            C.dlite_metamodel_add_property(m3, b"p", b"int", None, None)
            refused(ctx, k, C.dlite_meta_create_from_metamodel(m3), before)
            C.dlite_metamodel_free(m3)
        C.dlite_metamodel_free(m)
    errclr()


def g_pyreject(ctx, i, rng):
    import dlite
    e = gen.rand_entity(rng, maxdims=3, maxprops=5)
    meta = gen.py_meta(e)
    rc = S.s_refcount(gen.ptr(meta))
    dims = [rng.randint(0, 3) for _ in e.dims]
    named = dict(zip(e.dims, dims))
    bad = [(lambda: meta(dims + [1]), "too-many"), (lambda: dlite.Instance.from_metaid(e.uri + "X", dims), "unknown-meta"),
           (lambda: dlite.Instance.from_metaid(e.uri, dims + [2]), "from_metaid-too-many"),
           (lambda: meta(dims, properties={"no_such_prop": 1}), "unknown-prop"),
           (lambda: dlite.Property("p", "nosuchtype"), "unknown-type"),
           (lambda: dlite.Property("p", "int7"), "bad-size"),
           (lambda: dlite.Metadata("nouri", [], [dlite.Property("p", "int")], "d"), "bad-uri"),
           (lambda: dlite.Instance(), "no-args"),
           (lambda: dlite.Instance.from_json("{}"), "empty-json")]
    if e.dims:
        neg = list(dims)
        neg[rng.randrange(len(neg))] = -rng.randint(1, 5)
        bad += [(lambda: meta(dims[:-1]), "too-few"), (lambda: meta(neg), "negative"),
                (lambda: meta({d: v for d, v in list(named.items())[1:]}), "missing-dim"),
                (lambda: meta(["x"] * len(dims)), "non-int")]
    f, key = bad[i % len(bad)]
    before = stored()
    try:
        r = f()
    except Exception as ex:
        ctx.sig("py-refused", key, type(ex).__name__)
        ctx.events += 1
        del ex
    else:
        ctx.fail("py-accepted:" + key, repr(r))
    dlite.errclr()
    ctx.eq(stored(), before, "py-store-changed:" + key)
    ctx.eq(S.s_refcount(gen.ptr(meta)), rc, "py-meta-refcount:" + key)
    # and the valid ones work
    inst = meta(named if i % 2 else dims)
    fresh(ctx, gen.ptr(inst), e, dims, "python")
    ctx.eq(list(inst.dimensions.items()), list(named.items()), "py-dimensions")
    del inst
    ctx.eq(stored(), before, "py-store")


def g_builtin(ctx, i, rng):
    """The hard-coded schemas and metadata obey the same rules."""
    for id in ("http://onto-ns.com/meta/0.1/BasicMetadataSchema", "http://onto-ns.com/meta/0.3/EntitySchema",
               "http://onto-ns.com/meta/0.1/Collection"):
        m = C.dlite_meta_get(id.encode())
        if not ctx.check(m, "builtin", id):
            continue
        layout(ctx, m, id)
        ctx.eq(S.s_uuid(m).decode(), uuid5(id), "builtin-uuid")
        C.dlite_meta_decref(m)
    coll = C.dlite_collection_create(None)
    layout(ctx, coll, "collection")
    C.dlite_collection_decref(coll)
    # a schema of our own: metadata of metadata
    ctx.sig("builtin")


GROUPS = [("layout", g_layout, 700, 9000), ("reject", g_reject, 450, 4500), ("pyreject", g_pyreject, 280, 2800),
          ("builtin", g_builtin, 1, 1)]
