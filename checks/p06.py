"""P06: the content hash depends on the content and on all of it."""
import ctypes as c, gc, hashlib, itertools, json, os, subprocess, sys
try:
    import numpy as np
except ImportError:        # the runner only reads GROUPS
    np = None
from dl import *
import gen
from gen import Prop, prod, Tr

RULE = "distinct (how the content came about or what was changed, type, rank, outcome) observations"
P = c.c_void_p


def setup():
    global dlite
    quiet()
    import dlite


def hash_of(inst, n=32):
    h = mem(n)
    r = C.dlite_instance_get_hash(inst, h.p, n)
    assert r == 0, C.dlite_errmsg()
    return h.raw


def entity(rng, kinds="niufsSb", **kw):
    return gen.rand_entity(rng, kinds=kinds, maxprops=5, **kw)


def other_value(rng, p, v):
    """A value different from v (NULL and "" hash alike: known finding kf-null)."""
    while True:
        n = gen.rand_value(rng, p.dtype, p.size, null_ok=bool(v))
        if n is None and v == "" or n == "" and v is None:
            continue
        if p.dtype == FLOAT and n == v:             # also 0.0 and -0.0
            continue
        if not gen.same(n, v) and not (n != n and v != v):
            return n


# ---- the same content in many ways ---------------------------------------------------------------
def g_same(ctx, i, rng):
    e = entity(rng)
    meta = gen.c_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims, special=False)
    a = gen.c_instance(meta, dims, rng.choice([None, "hash-" + gen.ident(rng, 12)]))
    gen.fill(a, e, vals)
    h = hash_of(a)
    h64 = hash_of(a, 64)
    ctx.check(h64[:32] != h, "hash-size", "the longer hash starts with the shorter")
    ctx.eq(hash_of(a), h, "hash-repeat")

    def same(inst, how):
        ok = gen.same(gen.read_all(inst, e), vals)
        ctx.check(ok, "content", lambda: (how, vals, gen.read_all(inst, e)))
        ctx.eq(hash_of(inst), h, "same-content:" + how, lambda: [(p.tname, p.shape) for p in e.props])
        ctx.eq(hash_of(inst, 64), h64, "same-content-64:" + how)
        ctx.eq(C.dlite_instance_verify_hash(inst, C_hash(h), 0), 0, "verify:" + how)
        ctx.sig("same", how, len(e.props), len(e.dims), tuple(sorted(set(p.dtype for p in e.props))))

    # other order, with other values in between and through other dimensions
    b = gen.c_instance(meta, dims)
    if rng.random() < .6 and dims:
        for _ in range(rng.randint(1, 3)):
            d = [rng.choice([0, 1, 2, 3, 5]) for _ in dims]
            C.dlite_instance_set_dimension_sizes(b, (c.c_int * len(d))(*d))
            gen.fill(b, e, gen.rand_values(rng, e, d))
        C.dlite_instance_set_dimension_sizes(b, (c.c_int * len(dims))(*dims))
        how = "resized"
    else:
        for _ in range(rng.randint(0, 2)):
            gen.fill(b, e, gen.rand_values(rng, e, dims))
        how = "overwritten"
    order = list(range(len(e.props)))
    rng.shuffle(order)
    for k in order:
        gen.set_prop(b, k, e.props[k], vals[k], None)
    same(b, how)
    n = C.dlite_instance_copy(a, None)
    same(n, "copy")
    C.dlite_instance_decref(n)
    # through JSON, with and without the same identity
    txt = as_json(a)
    u = S.s_uuid(a).decode()
    if not S.s_uri(a):
        n = C.dlite_json_sscan(txt.replace(u.encode(), new_uuid(rng).encode()), None, None)
        if ctx.check(n, "json-copy", C.dlite_errmsg()):
            same(n, "json-other-id")
            C.dlite_instance_decref(n)
    C.dlite_instance_decref(a)
    n = C.dlite_json_sscan(txt, u.encode(), None)
    if ctx.check(n, "json", lambda: (C.dlite_errmsg(), txt)):
        same(n, "json")
        C.dlite_instance_decref(n)
    C.dlite_instance_decref(b)
    C.dlite_meta_decref(meta)


def C_hash(h):
    global _keep
    _keep = mem(h)
    return _keep.p


def as_json(inst):
    n = C.dlite_json_sprint(None, 0, inst, 0, 0)
    b = mem(n + 1)
    C.dlite_json_sprint(b.p, n + 1, inst, 0, 0)
    return b.str


# ---- every part counts ---------------------------------------------------------------------------
def g_every(ctx, i, rng):
    e = entity(rng)
    meta = gen.c_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims)
    a = gen.c_instance(meta, dims)
    gen.fill(a, e, vals)
    h = hash_of(a)
    seen = {h}
    for k, p in enumerate(e.props):
        idx = list(range(len(vals[k]))) if p.shape else [None]
        rng.shuffle(idx)
        for j in idx[:12]:
            old = vals[k] if j is None else vals[k][j]
            new = other_value(rng, p, old)
            v = new if j is None else vals[k][:j] + [new] + vals[k][j+1:]
            if p.dtype == STRPTR and j is not None:
                if "".join(x or "" for x in v) == "".join(x or "" for x in vals[k]):
                    continue            # known finding kf-concat
            gen.set_prop(a, k, p, v, None)
            g = hash_of(a)
            ctx.check(g != h, "change-unnoticed", lambda: (p.tname, p.shape, j, old, new))
            ctx.check(C.dlite_instance_verify_hash(a, C_hash(h), 0) != 0, "changed-verifies", p.tname)
            errclr()
            gen.set_prop(a, k, p, vals[k], None)
            ctx.eq(hash_of(a), h, "restored", (p.tname, p.shape, j))
            ctx.eq(C.dlite_instance_verify_hash(a, C_hash(h), 0), 0, "restored-verifies", p.tname)
            ctx.sig("element", p.tname, len(p.shape), j if j is None else (j == 0, j == len(idx) - 1))
        # a single bit of the data
        if p.dtype in (INT, UINT, BLOB, FLOAT) and (not p.shape or vals[k]):
            n = p.size * (len(vals[k]) if p.shape else 1)
            ptr = C.dlite_instance_get_property_by_index(a, k)
            for bit in rng.sample(range(8*n), min(4, 8*n)):
                c.c_uint8.from_address(ptr + bit//8).value ^= 1 << bit % 8
                ctx.check(hash_of(a) != h, "bit-unnoticed", (p.tname, p.shape, bit, n))
                c.c_uint8.from_address(ptr + bit//8).value ^= 1 << bit % 8
                ctx.note("bits")
            ctx.eq(hash_of(a), h, "bits-restored", p.tname)
    # a dimension
    for k in range(len(dims)):
        d = list(dims)
        d[k] += 1
        C.dlite_instance_set_dimension_sizes(a, (c.c_int * len(d))(*d))
        ctx.check(hash_of(a) != h, "dimension-unnoticed", (k, dims))
        C.dlite_instance_set_dimension_sizes(a, (c.c_int * len(d))(*dims))
        ctx.eq(hash_of(a), h, "dimension-restored", (k, dims))
    # wrong hashes
    for bit in rng.sample(range(256), 6):
        w = bytearray(h)
        w[bit//8] ^= 1 << bit % 8
        ctx.check(C.dlite_instance_verify_hash(a, C_hash(bytes(w)), 0) != 0, "wrong-hash-verifies", bit)
        errclr()
    # the parent
    b = C.dlite_instance_copy(a, None)
    par = [C.dlite_instance_copy(a, None) for _ in range(2)]
    hs = {h}
    for q in par:
        C.dlite_instance_freeze(q)
        C.dlite_instance_set_parent(b, q)
        hs.add(hash_of(b))
    ctx.eq(len(hs), 3, "parent-unnoticed")
    ctx.eq(hash_of(a), h, "parent-of-copy")
    for q in [b] + par:
        C.dlite_instance_decref(q)
    # other metadata with the same properties
    e2 = gen.Entity(e.uri[:-1] + ("q" if e.uri[-1] != "q" else "r"), e.dims, e.props, e.descr, e.dimdescr)
    meta2 = gen.c_meta(e2)
    o = gen.c_instance(meta2, dims)
    gen.fill(o, e2, vals)
    ctx.check(hash_of(o) != h, "metadata-unnoticed", e.uri)
    C.dlite_instance_decref(o)
    C.dlite_meta_decref(meta2)
    C.dlite_instance_decref(a)
    C.dlite_meta_decref(meta)
    del seen


# ---- fixed-size strings: what follows the terminator is no content --------------------------------
def g_fixstring(ctx, i, rng):
    size = rng.choice([2, 4, 8, 16])
    uri = gen.meta_uri(rng)
    shape = rng.choice([[], ["n"]])
    e = gen.Entity(uri, ["n"], [Prop("s_", "string%d" % (size-1), FIXSTR, size, shape)])
    meta = gen.c_meta(e)
    n = 2 if shape else 1
    v = [gen.fit_utf8(gen.text(rng), size - 1) for _ in range(n)]
    hs = []
    for k in range(3):
        a = gen.c_instance(meta, [2])
        raw = b"".join((x.encode() + b"\0" + (b"" if k == 0 else rng.randbytes(size)))[:size].ljust(size, b"\0")
                       for x in v)
        m = mem(raw)
        C.dlite_instance_set_property_by_index(a, 0, m.p)
        hs.append(hash_of(a))
        C.dlite_instance_decref(a)
    ctx.eq(hs[1:], hs[:1]*2, "fixstring-tail", v)
    a = gen.c_instance(meta, [2])
    gen.fill(a, e, [other_strings(rng, v, size) if shape else other_strings(rng, v, size)[0]])
    ctx.check(hash_of(a) != hs[0], "fixstring", v)
    C.dlite_instance_decref(a)
    C.dlite_meta_decref(meta)
    ctx.sig("fixstring", size, bool(shape), [len(x.encode()) == size - 1 for x in v])


def other_strings(rng, v, size):
    while True:
        k = rng.randrange(len(v))
        n = gen.fit_utf8(gen.text(rng), size - 1)
        if n != v[k]:
            return v[:k] + [n] + v[k+1:]


# ---- relations and references --------------------------------------------------------------------
def g_relref(ctx, i, rng):
    t = gen.rand_entity(rng, maxdims=0, maxprops=1, kinds="i")
    tm = gen.py_meta(t)
    targets = [tm([], id="target-" + gen.ident(rng, 12)) for _ in range(3)]
    e = gen.Entity(gen.meta_uri(rng), ["n"], [Prop("rel", "relation", REL, 40), Prop("rels", "relation", REL, 40, ["n"]),
                                               Prop("one", "ref", REF, 8, ref=t.uri),
                                               Prop("many", "ref", REF, 8, ["n"], ref=t.uri)])
    m = gen.py_meta(e)
    a, b = m([2]), m([2])
    pa, pb = gen.ptr(a), gen.ptr(b)

    def rel():
        return tuple(gen.ident(rng, 6) for _ in range(3)) + (rng.choice([None, gen.ident(rng, 5)]),)
    val = [[rel()], [rel(), rel()], [rng.choice(targets)], [rng.choice(targets), rng.choice(targets + [None])]]

    def put(p, v):
        for k in (0, 1):
            arr = (Tr * 2)(*[Tr(*[x.encode() if x else None for x in r], None) for r in v[k]])
            ctx.eq(C.dlite_instance_set_property_by_index(p, k, addr(arr)), 0, "set-rel")
        for k in (2, 3):
            arr = (P * 2)(*[gen.ptr(x) if x is not None else None for x in v[k]])
            ctx.eq(C.dlite_instance_set_property_by_index(p, k, addr(arr)), 0, "set-ref", C.dlite_errmsg())
    put(pa, val)
    h = hash_of(pa)
    put(pb, [[rel()], [rel(), rel()], [None], [None, None]])
    put(pb, val)
    ctx.eq(hash_of(pb), h, "same-content:relations")
    for k in (0, 1):
        for j in range(len(val[k])):
            for f in range(4):
                r = list(val[k][j])
                r[f] = rng.choice([gen.ident(rng, 7), None]) if f == 3 and r[3] else gen.ident(rng, 7)
                w = [list(x) for x in val]
                w[k][j] = tuple(r)
                put(pb, w)
                ctx.check(hash_of(pb) != h, "relation-unnoticed", (val[k][j], r))
                ctx.sig("relation", k, j, f, r[f] is None)
    for k in (2, 3):
        for j in range(len(val[k])):
            w = [list(x) for x in val]
            w[k][j] = rng.choice([x for x in targets + [None] if x is not val[k][j]])
            put(pb, w)
            ctx.check(hash_of(pb) != h, "reference-unnoticed", (k, j))
            ctx.sig("reference", k, j, w[k][j] is None)
    put(pb, val)
    ctx.eq(hash_of(pb), h, "restored:relations")
    put(pa, [[rel()], [rel(), rel()], [None], [None, None]])
    put(pb, [[rel()], [rel(), rel()], [None], [None, None]])


# ---- metadata ------------------------------------------------------------------------------------
def g_meta(ctx, i, rng):
    """Each detail of metadata counts: a copy of it with one detail changed."""
    e = entity(rng, minprops=1)
    if not e.dims:
        e.dims, e.dimdescr = ["nn"], {"nn": "descr"}
    if rng.random() < .4:
        e.props.append(Prop("ref_p", "ref", REF, 8, ref="http://onto-ns.com/meta/0.1/Aaaa"))
    pm = gen.py_meta(e)
    m = gen.ptr(pm)
    h = hash_of(m)
    n = C.dlite_instance_copy(m, gen.meta_uri(rng).encode())
    ctx.eq(hash_of(n), h, "same-metadata")
    names = ["name", "version", "namespace", "description", "dimensions", "properties"]
    idx = {x: C.dlite_meta_get_property_index(S.s_meta(n), x.encode()) for x in names}

    def arr(cls, name, k):
        """Structures describing the dimensions or properties, as in the metadata."""
        ptr = C.dlite_instance_get_property_by_index(m, idx[name])
        return (cls * k).from_buffer_copy((cls * k).from_address(ptr))

    def put(name, a):
        ctx.eq(C.dlite_instance_set_property_by_index(n, idx[name], addr(a)), 0, "set-meta", C.dlite_errmsg())

    def changed(what, name, a, orig):
        put(name, a)
        ctx.check(hash_of(n) != h, "metadata-change-unnoticed:" + what, lambda: e.uri)
        put(name, orig)
        ctx.eq(hash_of(n), h, "metadata-restored:" + what, lambda: e.uri)
        ctx.sig("meta", what)
    for x in names[:4]:
        old = c.c_char_p.from_address(C.dlite_instance_get_property_by_index(m, idx[x])).value
        changed(x, x, c.c_char_p((old or b"") + b"x"), c.c_char_p(old))
    k = rng.randrange(len(e.dims))
    orig = arr(gen.Dm, "dimensions", len(e.dims))
    for f in ("name", "description"):
        a = arr(gen.Dm, "dimensions", len(e.dims))
        setattr(a[k], f, (getattr(a[k], f) or b"") + b"x")
        changed("dimension." + f, "dimensions", a, orig)
    k = rng.randrange(len(e.props)) if rng.random() < .7 else len(e.props) - 1
    orig = arr(gen.Pr, "properties", len(e.props))

    def prop(what, fun):
        a = arr(gen.Pr, "properties", len(e.props))
        keep = fun(a[k])
        changed("property." + what, "properties", a, orig)
        del keep
    for f in ("name", "unit", "description", "ref"):
        prop(f, lambda q: setattr(q, f, (getattr(q, f) or b"") + b"x"))
    if orig[k].type in (INT, UINT, FLOAT, BLOB, FIXSTR):
        prop("size", lambda q: setattr(q, "size", q.size + 1))
    prop("type", lambda q: setattr(q, "type", INT if q.type != INT else UINT))

    def shape(q, new):
        sh = (c.c_char_p * len(new))(*new)
        q.shape, q.ndims = c.cast(sh, c.POINTER(c.c_char_p)), len(new)
        return sh
    old = [orig[k].shape[j] for j in range(orig[k].ndims)]
    prop("ndims", lambda q: shape(q, old + [b"1"]))
    if old:
        j = rng.randrange(len(old))
        prop("shape", lambda q: shape(q, old[:j] + [old[j] + b"+1"] + old[j+1:]))
    C.dlite_instance_decref(n)


# ---- collections ---------------------------------------------------------------------------------
def g_collection(ctx, i, rng):
    e = gen.rand_entity(rng, maxdims=0, maxprops=3, kinds="if", minprops=1)
    meta = gen.py_meta(e)
    insts = [meta([], id="member-" + gen.ident(rng, 12)) for _ in range(3)]
    vals = []
    for x in insts:
        v = gen.rand_values(rng, e, [])
        gen.fill(gen.ptr(x), e, v)
        vals.append(v)
    rset = {(gen.ident(rng, 5), gen.ident(rng, 4), gen.ident(rng, 6), rng.choice([None, None, "xsd:int", "@en"]))
            for _ in range(rng.randint(1, 7))}
    labs = {"label" + gen.ident(rng, 5): k for k in range(rng.randint(0, 3))}
    # no two relations may differ in the datatype only
    rset = list({r[:3]: r for r in rset}.values())

    def build(order, cid=None, extra=False):
        coll = dlite.Collection(cid)
        ops = [("r", r) for r in rset] + [("i", l) for l in labs]
        order.shuffle(ops)
        junk = ("junk-s", "junk-p", "junk-o")
        for n, (k, v) in enumerate(ops):
            if extra and n % 2 == 0:
                coll.add_relation(*junk)
            if k == "r":
                coll.add_relation(*v)
            else:
                coll.add(v, insts[labs[v]])
            if extra and n % 2 == 0:
                coll.remove_relations(*junk)
        return coll
    a = build(rng, rng.choice([None, "hcoll-" + gen.ident(rng, 12)]))
    h = a.get_hash()
    for how in ("order", "removed", "copy", "json"):
        if how == "copy":
            b = a.copy()
        elif how == "json":
            d = json.loads(a.asjson())
            d = {new_uuid(rng): {k: v for k, v in (d.get(a.uuid) or d).items() if k not in ("uri", "uuid")}}
            b = dlite.instance_cast(dlite.Instance.from_json(json.dumps(d)))
        else:
            b = build(rng, None, how == "removed")
        ctx.eq(b.get_hash(), h, "same-collection:" + how, lambda: rset)
        ctx.sig("collection", how, len(rset), len(labs))
    b = build(rng)
    # each relation
    for r in rset:
        for f in range(5):
            if f == 4:
                b.remove_relations(*r[:3])
                ctx.check(b.get_hash() != h, "removed-relation-unnoticed", lambda: (r, rset))
                b.add_relation(*r)
                continue
            w = list(r)
            w[f] = gen.ident(rng, 8) if f < 3 else ("xsd:double" if w[3] != "xsd:double" else "@no")
            b.remove_relations(*r[:3])
            b.add_relation(*w)
            ctx.check(b.get_hash() != h, "relation-of-collection-unnoticed", lambda: (r, w))
            b.remove_relations(*w[:3])
            b.add_relation(*r)
            ctx.sig("collection-relation", f)
        ctx.eq(b.get_hash(), h, "collection-restored", lambda: r)
    # the members
    for l, k in labs.items():
        x = gen.ptr(insts[k])
        j = rng.randrange(len(e.props))
        gen.set_prop(x, j, e.props[j], other_value(rng, e.props[j], vals[k][j]), None)
        ctx.check(a.get_hash() != h and b.get_hash() != h, "member-unnoticed", l)
        gen.set_prop(x, j, e.props[j], vals[k][j], None)
        ctx.eq((a.get_hash(), b.get_hash()), (h, h), "member-restored", l)
        ctx.sig("collection-member", e.props[j].tname)
        b.remove(l)
        ctx.check(b.get_hash() != h, "removed-member-unnoticed", l)
        b.add(l + "z", insts[k])
        ctx.check(b.get_hash() != h, "label-unnoticed", l)
        b.remove(l + "z")
        b.add(l, insts[k])
        ctx.eq(b.get_hash(), h, "readded-member", l)
    a.add_relation("added-s", "added-p", "added-o")
    ctx.check(a.get_hash() != h, "added-relation-unnoticed")


# ---- Python --------------------------------------------------------------------------------------
def g_py(ctx, i, rng):
    import pickle
    e = entity(rng, kinds="niufsS")
    meta = gen.py_meta(e)
    dims = [rng.choice([1, 2, 3]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims, null_ok=False, special=False)
    a = meta(dims)
    for p, v in zip(e.props, vals):
        a[p.name] = gen.nest(v, e.shape_of(p, dims)) if p.shape else v
    b = meta(dims)
    gen.fill(gen.ptr(b), e, vals)
    h = b.get_hash()
    ctx.eq(a.get_hash(), h, "python-assignment", lambda: [(p.tname, p.shape) for p in e.props])
    ctx.eq(h, hash_of(gen.ptr(b)).hex(), "python-hash")
    a.verify_hash(h)
    ctx.eq(a.copy().get_hash(), h, "python-copy")
    d = a.asdict(single=True, uuid=False)
    d.pop("uri", None)
    d["uuid"] = new_uuid(rng)
    n = dlite.Instance.from_dict(d)
    ctx.eq(n.get_hash(), h, "python-dict", lambda: d)
    del n, b
    gc.collect()
    k = rng.randrange(len(e.props))
    p = e.props[k]
    if p.shape:
        j = rng.randrange(len(vals[k]))
        nv = other_value(rng, p, vals[k][j])
        if p.dtype == STRPTR and (nv is None or len(nv) == len(vals[k][j])):
            nv = (vals[k][j] or "") + "x"
        v = vals[k][:j] + [nv] + vals[k][j+1:]
        a[p.name] = gen.nest(v, e.shape_of(p, dims))
    else:
        nv = other_value(rng, p, vals[k])
        a[p.name] = nv if nv is not None else "changed"
    ctx.check(a.get_hash() != h, "python-change-unnoticed", lambda: (p.tname, p.shape))
    try:
        a.verify_hash(h)
        ctx.fail("python-changed-verifies", p.tname)
    except dlite.DLiteError:
        ctx.events += 1
    ctx.sig("py", p.tname, len(p.shape))


CHILD = """
import sys, dlite, json
for l in sys.stdin:
    d = json.loads(l)
    m = dlite.Instance.from_json(d["meta"])
    i = dlite.Instance.from_json(d["inst"], id=d["id"])
    print("HASH", i.get_hash(), m.get_hash(), flush=True)
"""


def g_process(ctx, i, rng):
    """The same hash in another process."""
    p = subprocess.Popen([sys.executable, "-c", "import sys\nsys.modules['minio']=None\n" + CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         text=True, stderr=subprocess.DEVNULL)
    want, lines, keep = [], [], []
    for _ in range(10):
        e = entity(rng, kinds="niufsS")
        m = gen.py_meta(e)
        dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
        a = m(dims)
        gen.fill(gen.ptr(a), e, gen.rand_values(rng, e, dims, special=False))
        keep += [m, a]
        want.append((a.get_hash(), m.get_hash()))
        lines.append(json.dumps(dict(meta=m.asjson(), inst=a.asjson(), id=a.uuid)))
    out, _ = p.communicate("\n".join(lines) + "\n", timeout=300)
    got = [tuple(l.split()[1:]) for l in out.splitlines() if l.startswith("HASH")]
    ctx.eq(len(got), 10, "other-process", out[-500:])
    for g, w in zip(got, want):
        ctx.eq(g, w, "hash-in-other-process")
    ctx.sig("process")


# ---- the hash function itself --------------------------------------------------------------------
def g_sha3(ctx, i, rng):
    """Chunking must not matter, and the plain SHA3 mode agrees with Python's hashlib."""
    data = rng.randbytes(rng.choice([0, 1, 7, 8, 71, 72, 73, 103, 104, 105, 135, 136, 137, 200, 272, 1000]))
    for bits in (256, 384, 512):
        src = mem(data)
        out = mem(bits // 8)
        C.sha3_HashBuffer(bits, 0, src.p, len(data), out.p, bits // 8)
        ctx.eq(out.raw, hashlib.new("sha3_%d" % bits, data).digest(), "sha3", (bits, len(data)))
        for flags in (0, 1):
            o = mem(bits // 8)
            C.sha3_HashBuffer(bits, flags, src.p, len(data), o.p, bits // 8)
            ctx_ = mem(512)
            C.sha3_Init(ctx_.p, bits)
            C.sha3_SetFlags(ctx_.p, flags)
            pos = 0
            while pos < len(data):
                n = rng.choice([1, 2, 3, 7, 8, 9, 16, 64, 136, 500])
                part = mem(data[pos:pos+n])
                C.sha3_Update(ctx_.p, part.p, part.n)
                pos += n
            C.sha3_Finalize.restype = P
            ctx.eq(c.string_at(C.sha3_Finalize(ctx_.p), bits // 8), o.raw, "sha3-chunks", (bits, flags, len(data)))
        ctx.sig("sha3", bits, len(data) % 8, len(data) // 136)


# ---- known findings ------------------------------------------------------------------------------
def strings(ctx, rng, v):
    e = gen.Entity(gen.meta_uri(rng), ["n"], [Prop("s_", "string", STRPTR, 8, ["n"])])
    meta = gen.c_meta(e)
    hs = []
    for x in v:
        a = gen.c_instance(meta, [len(x)])
        gen.fill(a, e, [x])
        hs.append(hash_of(a))
        C.dlite_instance_decref(a)
    C.dlite_meta_decref(meta)
    return hs


def kf_concat(ctx, i, rng):
    hs = strings(ctx, rng, [["ab", "c"], ["a", "bc"]])
    ctx.check(hs[0] != hs[1], "kf-concat", "the string arrays [ab, c] and [a, bc] have the same hash")


def kf_null(ctx, i, rng):
    hs = strings(ctx, rng, [["a", None], ["a", ""]])
    ctx.check(hs[0] != hs[1], "kf-null", "a null string and an empty string have the same hash")


GROUPS = [("same", g_same, 250, 5000), ("every", g_every, 150, 3000), ("fixstring", g_fixstring, 30, 400),
          ("relref", g_relref, 40, 600), ("meta", g_meta, 60, 1000), ("collection", g_collection, 60, 1200),
          ("py", g_py, 120, 2500), ("process", g_process, 3, 30), ("sha3", g_sha3, 100, 2000),
          ("kf-concat", kf_concat, 1, 1), ("kf-null", kf_null, 1, 1)]
