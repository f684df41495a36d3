"""P05: a copy is equal to its source and independent of it."""
import ctypes as c, gc
try:
    import numpy as np
except ImportError:        # the runner only reads GROUPS
    np = None
from dl import *
import gen
from gen import Prop, Entity, prod, Tr, Dm, Pr, rels

RULE = "distinct (kind of copy, property type, rank, zero-sized, who is changed or released) observations"
P = c.c_void_p


def setup():
    global dlite
    quiet()
    import dlite


def rtext(rng, null=.2):
    return None if rng.random() < null else gen.text(rng).encode()


def rand_rel(rng):
    return Tr(*[rtext(rng) for _ in range(4)], rtext(rng, .4))


def hash_of(inst):
    h = buf(32)
    if C.dlite_instance_get_hash(inst, addr(h), 32):
        return None
    return h.raw


# ---- whole instances -----------------------------------------------------------------------------
class Model:
    """One live instance with its expected content."""

    def __init__(self, ptr, dims, vals):
        self.ptr, self.dims, self.vals = ptr, list(dims), list(vals)


def rel_get(inst, i, p):
    ptr = C.dlite_instance_get_property_by_index(inst, i)
    n = prod(S.s_prop_dim(inst, i, j) for j in range(len(p.shape)))
    return [c.cast(ptr, c.POINTER(Tr))[k].tup() for k in range(n)]


def ref_get(inst, i, p):
    ptr = C.dlite_instance_get_property_by_index(inst, i)
    n = prod(S.s_prop_dim(inst, i, j) for j in range(len(p.shape)))
    return [c.cast(ptr, c.POINTER(P))[k] for k in range(n)]


def get_any(inst, i, p):
    if p.dtype == REL:
        return rel_get(inst, i, p)
    if p.dtype == REF:
        return ref_get(inst, i, p)
    return gen.get_prop(inst, i, p)


def set_any(ctx, rng, m, i, p, shape, targets):
    """Assigns a random value to property i and returns the expected content."""
    if p.dtype == REL:
        n = prod(shape)
        rels = [rand_rel(rng) for _ in range(n)]
        a = (Tr * max(n, 1))(*rels)
        ctx.eq(C.dlite_instance_set_property_by_index(m.ptr, i, addr(a)), 0, "set-relation", C.dlite_errmsg())
        v = [r.tup() for r in rels]
    elif p.dtype == REF:
        n = prod(shape)
        v = [rng.choice(targets + [None]) for _ in range(n)]
        a = (P * max(n, 1))(*v)
        ctx.eq(C.dlite_instance_set_property_by_index(m.ptr, i, addr(a)), 0, "set-ref", C.dlite_errmsg())
    else:
        if p.shape:
            v = [gen.rand_value(rng, p.dtype, p.size) for _ in range(prod(shape))]
        else:
            v = gen.rand_value(rng, p.dtype, p.size)
        ctx.eq(gen.set_prop(m.ptr, i, p, v, None), 0, "set", C.dlite_errmsg())
    m.vals[i] = v


def verify(ctx, e, m, where):
    ctx.eq([S.s_dim(m.ptr, k) for k in range(len(e.dims))], m.dims, "dims:" + where)
    for i, p in enumerate(e.props):
        got = get_any(m.ptr, i, p)
        ctx.check(gen.same(got, m.vals[i]) if p.dtype not in (REL, REF) else got == m.vals[i], "values:" + where,
                  lambda: (p.tname, p.shape, got, m.vals[i]))


def poke(ctx, rng, e, m, targets):
    """In-place modification through the data pointer of the property."""
    i = rng.randrange(len(e.props))
    p = e.props[i]
    if p.dtype not in (INT, UINT, FLOAT, BLOB) or not p.shape or not m.vals[i]:
        return
    ptr = C.dlite_instance_get_property_by_index(m.ptr, i)
    k = rng.randrange(len(m.vals[i]))
    v = gen.rand_value(rng, p.dtype, p.size)
    c.memmove(ptr + k*p.size, gen.pack(v, p.dtype, p.size, []), p.size)
    m.vals[i] = list(m.vals[i])
    m.vals[i][k] = v
    ctx.note("in-place")


def resize(ctx, rng, e, m):
    nd = [rng.choice([0, 1, 2, 3, 4]) if rng.random() < .6 else d for d in m.dims]
    a = (c.c_int * max(1, len(nd)))(*nd)
    ctx.eq(C.dlite_instance_set_dimension_sizes(m.ptr, a), 0, "resize", C.dlite_errmsg())
    m.dims = nd
    for i, p in enumerate(e.props):
        if p.shape:
            n = prod(e.shape_of(p, nd))
            z = (None,)*4 if p.dtype == REL else gen.zero_value(p.dtype, p.size)
            m.vals[i] = (list(m.vals[i]) + [z]*n)[:n]


def copies(ctx, rng, m):
    """Id for a copy and the uuid/uri expected."""
    k = rng.randrange(5)
    if k == 0:
        return None, None, None
    if k == 1:
        return "", None, None
    if k == 2:
        u = new_uuid(rng)
        return gen.uuid_case(rng, u), u, None
    if k == 3:
        n = "copy-" + gen.ident(rng, 14)
        return n, uuid5(n), n
    n = gen.url(rng, gen.ident(rng, 12))
    return n, uuid5(n), n


def g_instance(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=6)
    t = gen.rand_entity(rng, maxprops=2, maxdims=0, kinds="is")
    tmeta = gen.c_meta(t)
    targets = [gen.c_instance(tmeta, []) for _ in range(2)]
    base = [S.s_refcount(x) for x in targets]
    for _ in range(rng.randint(0, 2)):
        nm = gen.ident(rng, 10)
        shape = [rng.choice(e.dims)] * rng.choice([0, 1, 1, 2]) if e.dims else []
        e.props.append(rng.choice([Prop(nm, "relation", REL, 40, shape), Prop(nm, "ref", REF, 8, shape, ref=t.uri)]))
    pm = gen.py_meta(e)
    meta = gen.ptr(pm)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    live = [Model(gen.c_instance(meta, dims, rng.choice([None, "src-" + gen.ident(rng, 14)])), dims, [None]*len(e.props))]
    src = live[0]
    for k, p in enumerate(e.props):
        set_any(ctx, rng, src, k, p, e.shape_of(p, dims), targets)
    if rng.random() < .3:       # the copy of a transaction keeps the parent
        par = gen.c_instance(meta, [1]*len(e.dims))
        C.dlite_instance_freeze(par)
        ctx.eq(C.dlite_instance_set_parent(src.ptr, par), 0, "set-parent")
        C.dlite_instance_decref(par)
    for step in range(rng.randint(3, 12)):
        if not live:
            break
        k = rng.randrange(8)
        m = rng.choice(live)
        if k < 3:
            fz = bool(C.dlite_instance_is_frozen(m.ptr))
            newid, uuid, uri = copies(ctx, rng, m)
            n = C.dlite_instance_copy(m.ptr, newid.encode() if newid is not None else None)
            if not ctx.check(n, "copy-failed", lambda: (newid, C.dlite_errmsg())):
                errclr()
                continue
            q = Model(n, m.dims, m.vals)
            u = S.s_uuid(n).decode()
            ctx.check(n not in [x.ptr for x in live] and u not in [S.s_uuid(x.ptr).decode() for x in live],
                      "own-identity", u)
            if uuid:
                ctx.eq(u, uuid, "copy-uuid", newid)
            ctx.eq(S.s_uri(n), uri.encode() if uri else None, "copy-uri", newid)
            ctx.eq(S.s_meta(n), S.s_meta(m.ptr), "copy-meta")
            ctx.eq(S.s_refcount(n), 1, "copy-refcount")
            ctx.eq(C.dlite_instance_has(u.encode(), False), n, "copy-lookup")
            ctx.eq(S.s_parent(n), S.s_parent(m.ptr), "copy-parent")
            ctx.eq(hash_of(n), hash_of(m.ptr), "copy-hash", lambda: (newid, [(p.tname, p.shape) for p in e.props]))
            ctx.eq(C.dlite_instance_is_frozen(n), 0, "copy-frozen", fz)
            live.append(q)
            verify(ctx, e, q, "copy")
            for a, p in enumerate(e.props):
                ctx.sig("copy", p.tname, len(p.shape), not q.vals[a], type(newid).__name__)
        elif k == 3 and len(live) > 1:
            x = rng.choice(live)
            live.remove(x)
            C.dlite_instance_decref(x.ptr)
            ctx.sig("release", "source" if x is src else "copy")
        elif k == 4 and e.dims and not C.dlite_instance_is_frozen(m.ptr):
            resize(ctx, rng, e, m)
            ctx.sig("resize", "source" if m is src else "copy")
        elif k == 5 and not C.dlite_instance_is_frozen(m.ptr):
            poke(ctx, rng, e, m, targets)
        elif k == 6 and rng.random() < .3:
            C.dlite_instance_freeze(m.ptr)
        elif k == 7 and len(live) > 1:
            # cannot copy to an existing id
            x = rng.choice(live)
            iid = S.s_uri(x.ptr) or S.s_uuid(x.ptr)
            r = S.s_refcount(x.ptr)
            ctx.eq(C.dlite_instance_copy(m.ptr, iid), None, "copied-to-existing", iid)
            ctx.check(errval() != 0, "copied-to-existing-silent", iid)
            errclr()
            ctx.eq(S.s_refcount(x.ptr), r, "copied-to-existing-refcount", iid)
        elif not C.dlite_instance_is_frozen(m.ptr):
            a = rng.randrange(len(e.props))
            set_any(ctx, rng, m, a, e.props[a], e.shape_of(e.props[a], m.dims), targets)
            ctx.sig("change", e.props[a].tname, "source" if m is src else "copy")
        for x in live:
            verify(ctx, e, x, "independent")
        for x, b in zip(targets, base):
            n = sum(v.count(x) for q in live for p, v in zip(e.props, q.vals) if p.dtype == REF)
            ctx.eq(S.s_refcount(x), b + n, "target-refcount")
    rng.shuffle(live)
    while live:
        x = live.pop()
        C.dlite_instance_decref(x.ptr)
        for y in live:
            verify(ctx, e, y, "release")
    for x, b in zip(targets, base):
        ctx.eq(S.s_refcount(x), b, "target-refcount-end")
        C.dlite_instance_decref(x)
    C.dlite_meta_decref(tmeta)
    del pm
    errclr()


# ---- metadata ------------------------------------------------------------------------------------
def g_meta(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=5)
    meta = gen.c_meta(e)
    uri = gen.meta_uri(rng)
    m2 = C.dlite_instance_copy(meta, uri.encode())
    if not ctx.check(m2, "copy-meta", C.dlite_errmsg()):
        return
    ctx.check(C.dlite_instance_is_meta(m2), "copy-not-meta", uri)
    ctx.eq(hash_of(m2), hash_of(meta), "copy-meta-hash")
    ctx.eq(S.s_uri(m2), uri.encode(), "copy-meta-uri")
    order = rng.random() < .5
    dims = [rng.choice([0, 1, 3]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims)

    def use(m, where):
        inst = gen.c_instance(m, dims)
        if ctx.check(inst, "instance-of-" + where, C.dlite_errmsg()):
            gen.fill(inst, e, vals)
            ctx.check(gen.same(gen.read_all(inst, e), vals), "values-of-" + where, uri)
            C.dlite_instance_decref(inst)
    use(m2, "copied-meta")
    a, b = (meta, m2) if order else (m2, meta)
    C.dlite_instance_decref(a)
    use(b, "remaining-meta")
    C.dlite_instance_decref(b)
    ctx.sig("meta", order, len(e.props), len(e.dims))


# ---- single values -------------------------------------------------------------------------------
def owned(obj):
    """Deep copy of a structure with malloc'ed members."""
    o = type(obj)()
    for k, t in obj._fields_:
        v = getattr(obj, k)
        if t is c.c_char_p:
            c.cast(c.byref(o, getattr(type(obj), k).offset), c.POINTER(P))[0] = libc.strdup(v) if v is not None else None
        elif k == "shape":
            if obj.ndims:
                s = libc.malloc(8 * obj.ndims)
                for j in range(obj.ndims):
                    c.cast(s, c.POINTER(P))[j] = libc.strdup(obj.shape[j])
                o.shape = c.cast(s, c.POINTER(c.c_char_p))
        else:
            setattr(o, k, v)
    return o


def rand_struct(rng, dtype, keep):
    if dtype == REL:
        return rand_rel(rng)
    if dtype == DIM:
        return Dm(gen.ident(rng).encode(), rtext(rng))
    nd = rng.choice([0, 0, 1, 2, 3])
    sh = (c.c_char_p * max(nd, 1))(*[gen.ident(rng).encode() for _ in range(nd)])
    keep.append(sh)
    return Pr(gen.ident(rng).encode(), rng.choice([INT, FLOAT, STRPTR, REF]), 8, rtext(rng, .5), nd,
              c.cast(sh, c.POINTER(c.c_char_p)) if nd else None, rtext(rng, .5), rtext(rng, .5))


def g_type(ctx, i, rng):
    keep = []
    for dtype, size in ((DIM, c.sizeof(Dm)), (PROP, c.sizeof(Pr)), (REL, c.sizeof(Tr))):
        d = mem(b"\0" * size)
        cls = {DIM: Dm, PROP: Pr, REL: Tr}[dtype]
        for _ in range(rng.randint(1, 4)):          # copies over earlier values
            x = rand_struct(rng, dtype, keep)
            want = x.tup()
            src = owned(x)
            ctx.eq(C.dlite_type_copy(d.p, addr(src), dtype, size), d.p, "type-copy", dtype)
            ctx.eq(cls.from_address(d.p).tup(), want, "type-copy-value", dtype)
            C.dlite_type_clear(addr(src), dtype, size)                  # release of the source
            ctx.eq(bytes(src), b"\0" * size, "cleared", dtype)
            ctx.eq(cls.from_address(d.p).tup(), want, "type-copy-independent", dtype)
            ctx.eq(C.dlite_type_copy(d.p, d.p, dtype, size), d.p, "self-copy", dtype)
            ctx.eq(cls.from_address(d.p).tup(), want, "self-copy-value", dtype)
            ctx.sig("type", dtype, [v is None for v in want])
        C.dlite_type_clear(d.p, dtype, size)
        ctx.eq(d.raw, b"\0" * size, "cleared-dest", dtype)
    d = mem(b"\0" * 8)
    for _ in range(4):
        s = rtext(rng)
        src = P(libc.strdup(s) if s is not None else None)
        ctx.eq(C.dlite_type_copy(d.p, addr(src), STRPTR, 8), d.p, "type-copy", "string")
        libc.free(src)
        p = P.from_address(d.p).value
        ctx.eq(c.string_at(p) if p else None, s, "string-copy")
    C.dlite_type_clear(d.p, STRPTR, 8)
    for kind in "niufSb":
        n, dtype, size = gen.rand_type(rng, kind)
        v = gen.rand_value(rng, dtype, size)
        src, d = mem(gen.pack(v, dtype, size, keep)), mem(size)
        ctx.eq(C.dlite_type_copy(d.p, src.p, dtype, size), d.p, "type-copy", n)
        ctx.eq(d.raw, src.raw, "type-copy-bytes", n)
        ctx.sig("type", n)


def g_triple(ctx, i, rng):
    d = Tr()
    for _ in range(6):
        x = rand_rel(rng)
        if rng.random() < .5:
            x = Tr(*[v or b"" for v in x.tup()[:3]], rtext(rng), rtext(rng))
        src = owned(x)
        C.triple_copy.restype = P
        r = C.triple_copy(addr(d), addr(src))
        ctx.eq(r, addr(d), "triple-copy", x.tup())
        C.triple_clean(addr(src))
        ctx.eq((d.tup(), d.id), (x.tup(), x.id), "triple-copy-value")
        C.triple_clean(addr(d))
        d = Tr()
        ctx.sig("triple", [v is None for v in x.tup()])


# ---- flat and nested buffers ---------------------------------------------------------------------
def g_nested(ctx, i, rng):
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    shape = [rng.choice([1, 1, 2, 3, 4]) for _ in range(nd)]
    size = rng.choice([1, 2, 3, 4, 8])
    n = prod(shape)
    data = bytes(rng.getrandbits(8) for _ in range(n*size))
    keep = []

    def build(k, fill):
        if k == nd:
            m = mem(size, fill)
            keep.append(m)
            return m.p
        sub = [build(k+1, fill) for _ in range(shape[k])]
        m = mem(b"".join(x.to_bytes(8, "little") for x in sub))
        keep.append(m)
        return m.p

    def read(p, k):
        if k == nd:
            return c.string_at(p, size)
        return b"".join(read(c.cast(p, c.POINTER(P))[j], k+1) for j in range(shape[k]))
    nested = build(0, 0x11)
    src, dst = mem(data), mem(n*size)
    ctx.eq(C.dlite_copy_to_nested(nested, src.p, size, nd, szarr(shape)), 0, "to-nested")
    ctx.eq(read(nested, 0), data, "to-nested-data", (shape, size))
    c.memset(src.p, 0x33, n*size)
    ctx.eq(read(nested, 0), data, "to-nested-independent", (shape, size))
    ctx.eq(C.dlite_copy_to_flat(dst.p, nested, size, nd, szarr(shape)), 0, "to-flat")
    ctx.eq(dst.raw, data, "to-flat-data", (shape, size))
    c.memset(dst.p, 0x44, n*size)
    ctx.eq(read(nested, 0), data, "to-flat-independent", (shape, size))
    ctx.sig("nested", nd, size, [min(s, 2) for s in shape])


# ---- single properties of an instance ------------------------------------------------------------
def g_property(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=5)
    meta = gen.c_meta(e)
    dims = [rng.choice([1, 2, 3]) for _ in e.dims]
    a, b = gen.c_instance(meta, dims), gen.c_instance(meta, dims)
    va = gen.rand_values(rng, e, dims)
    gen.fill(a, e, va)
    for k, p in enumerate(e.props):
        n = prod(e.shape_of(p, dims))
        shape = e.shape_of(p, dims)
        order = rng.choice("CF")
        d = mem(b"\0" * (n*p.size))
        ctx.eq(C.dlite_instance_copy_property(a, p.name.encode(), ord(order), d.p), 0, "copy-property",
               lambda: (p.tname, p.shape, C.dlite_errmsg()))
        # the copy is not affected by changes of the instance, and the other way round
        new = gen.rand_value(rng, p.dtype, p.size) if not p.shape else \
            [gen.rand_value(rng, p.dtype, p.size) for _ in range(n)]
        gen.set_prop(a, k, p, new, None)
        got = [gen.unpack(d.raw[j*p.size:(j+1)*p.size], p.dtype, p.size) for j in range(n)]
        flat = va[k] if p.shape else [va[k]]
        want = list(flat)
        if order == "F" and len(shape) > 1:
            want = []
            for idx in range(n):
                # idx counts in column-major order
                r, off, mul = idx, 0, 1
                ix = []
                for s in shape:
                    ix.append(r % s)
                    r //= s
                for s, x in zip(reversed(shape), reversed(ix)):
                    off += x*mul
                    mul *= s
                want.append(flat[off])
        ctx.check(gen.same(got, want), "copied-property", lambda: (p.tname, p.shape, dims, order, got, want))
        ctx.eq(C.dlite_instance_assign_property(b, p.name.encode(), ord(order), d.p), 0, "assign-property")
        ctx.check(gen.same(gen.get_prop(b, k, p), va[k]), "assigned-property",
                  lambda: (p.tname, p.shape, dims, order))
        if p.dtype == STRPTR:
            for j in range(n):
                C.dlite_type_clear(d.p + j*8, STRPTR, 8)
        else:
            c.memset(d.p, 0x55, n*p.size)
        ctx.check(gen.same(gen.get_prop(a, k, p), new), "source-independent", (p.tname, p.shape, order))
        ctx.check(gen.same(gen.get_prop(b, k, p), va[k]), "assigned-independent", (p.tname, p.shape, order))
        ctx.sig("property", p.tname, len(shape), order)
    C.dlite_instance_decref(a)
    ctx.check(gen.same(gen.read_all(b, e), va), "assigned-after-release", e.uri)
    C.dlite_instance_decref(b)
    C.dlite_meta_decref(meta)


# ---- collections ---------------------------------------------------------------------------------
def g_collection(ctx, i, rng):
    e = gen.rand_entity(rng, maxdims=0, maxprops=2, kinds="is")
    meta = gen.py_meta(e)
    insts = [meta([], id=rng.choice([None, "item-" + gen.ident(rng, 12)])) for _ in range(3)]
    base = [x._refcount for x in insts]
    live = [[dlite.Collection(rng.choice([None, "coll-" + gen.ident(rng, 14)])), set(), {}]]

    def check(where):
        gc.collect()
        for coll, rs, lab in live:
            want = set(rs)
            for k, x in lab.items():
                want |= {(k, "_is-a", "Instance", ""), (k, "_has-uuid", insts[x].uuid, "xsd:anyURI"),
                         (k, "_has-meta", meta.uri, "")}
            ctx.eq(rels(coll), sorted(want), "collection-content:" + where)
            ctx.eq({k: coll.get(k).uuid for k in coll.get_labels()}, {k: insts[x].uuid for k, x in lab.items()},
                   "collection-instances:" + where)
        for k, x in enumerate(insts):
            n = sum(list(l[2].values()).count(k) for l in live)
            ctx.eq(x._refcount, base[k] + n, "collection-item-refcount:" + where)
    for step in range(rng.randint(4, 14)):
        k = rng.randrange(7)
        cur = rng.choice(live)
        coll, rs, lab = cur
        if k == 0 and len(live) < 5:
            newid = rng.choice([None, "ccopy-" + gen.ident(rng, 14)])
            n = coll.copy(newid)
            ctx.check(isinstance(n, dlite.Collection) and n.uuid != coll.uuid, "copied-collection", newid)
            ctx.eq(n.get_hash(), coll.get_hash(), "copied-collection-hash")
            live.append([n, set(rs), dict(lab)])
            del n
            where = "copy"
        elif k == 1 and len(live) > 1:
            live.remove(cur)
            where = "release"
        elif k == 2:
            r = ("s" + gen.ident(rng, 3), "p" + gen.ident(rng, 2), gen.ident(rng, 3), rng.choice(["", "xsd:int"]))
            coll.add_relation(r[0], r[1], r[2], r[3] or None)
            rs.add(r)
            where = "add"
        elif k == 3 and rs:
            r = rng.choice(sorted(rs))
            coll.remove_relations(r[0], r[1], r[2])
            for q in [q for q in rs if q[:3] == r[:3]]:
                rs.remove(q)
            where = "remove"
        elif k == 4 and lab:
            x = rng.choice(sorted(lab))
            coll.remove(x)
            del lab[x]
            where = "remove-instance"
        else:
            x = rng.randrange(3)
            l = "lab" + gen.ident(rng, 6)
            coll.add(l, insts[x])
            lab[l] = x
            where = "add-instance"
        ctx.sig("collection", where, len(live), coll is live[0][0])
        del coll, cur
        check(where)
    live.clear()
    gc.collect()
    ctx.eq([x._refcount for x in insts], base, "collection-item-refcount-end")


# ---- Python --------------------------------------------------------------------------------------
def g_py(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=5, kinds="niufsS")
    meta = gen.py_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    a = meta(dims)
    vals = gen.rand_values(rng, e, dims, null_ok=False)
    pa = gen.ptr(a)
    gen.fill(pa, e, vals)
    b = a.copy(rng.choice([None, "pycopy-" + gen.ident(rng, 12)]))
    ctx.check(b.uuid != a.uuid and b.meta.uri == a.meta.uri and b.get_hash() == a.get_hash(), "py-copy", a.uuid)
    ctx.eq(dict(b.dimensions), dict(a.dimensions), "py-copy-dims")
    pb = gen.ptr(b)
    vb = list(vals)
    va = list(vals)
    for step in range(rng.randint(1, 6)):
        side = rng.random() < .5
        inst, p_, v = (a, pa, va) if side else (b, pb, vb)
        k = rng.randrange(len(e.props))
        p = e.props[k]
        if p.shape and rng.random() < .6 and p.dtype not in (STRPTR, FIXSTR) and v[k]:
            arr = inst[p.name]              # a view of the instance's data
            j = rng.randrange(len(v[k]))
            x = gen.rand_value(rng, p.dtype, p.size)
            arr.flat[j] = x
            v[k] = list(v[k])
            v[k][j] = x
            kind = "view"
            del arr
        else:
            v[k] = [gen.rand_value(rng, p.dtype, p.size, null_ok=False) for _ in v[k]] if p.shape else \
                gen.rand_value(rng, p.dtype, p.size, null_ok=False)
            gen.set_prop(p_, k, p, v[k], None)
            kind = "set"
        ctx.check(gen.same(gen.read_all(pa, e), va) and gen.same(gen.read_all(pb, e), vb), "py-independent",
                  lambda: (p.tname, kind, side))
        ctx.sig("py", p.tname, kind, side)
    if rng.random() < .5:
        del a
        gc.collect()
        ctx.check(gen.same(gen.read_all(pb, e), vb), "py-after-release", e.uri)
    else:
        del b
        gc.collect()
        ctx.check(gen.same(gen.read_all(pa, e), va), "py-after-release", e.uri)


GROUPS = [("instance", g_instance, 300, 6000), ("meta", g_meta, 60, 1000), ("type", g_type, 150, 3000),
          ("triple", g_triple, 60, 1000), ("nested", g_nested, 150, 3000), ("property", g_property, 200, 4000),
          ("collection", g_collection, 100, 2000), ("py", g_py, 150, 3000)]
