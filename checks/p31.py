"""P31: memory is conserved over repeated work."""
import collections, ctypes as c, gc, json, os, random, sys
from dl import *
import gen
from gen import Entity, Prop

RULE = "distinct (operation, number of blocks kept per repetition, values class) observations"
N = 6


def setup():
    quiet()
    import dlite, numpy as np
    globals()["dlite"], globals()["np"] = dlite, np
    S.hook_install()
    for f in ("dlite_bson_load_instance", "dlite_json_sscan", "tgen", "dlite_json_iter_create", "dlite_json_next", "dlite_join_meta_uri", "fu_paths_string", "dlite_json_aprint"):
        getattr(C, f).restype = c.c_void_p
    global REFM, RELM
    T = gen.py_meta(Entity("http://onto-ns.com/meta/0.1/P31Target", [], [Prop("a", "int", INT, 4, [])]))
    REFM = dlite.Metadata("http://onto-ns.com/meta/0.1/P31Refs", [dlite.Dimension("n")],
                          [dlite.Property("r", "ref", ref=T.uri), dlite.Property("rs", "ref", ref=T.uri, shape=["n"]), dlite.Property("s", "string")])
    RELM = dlite.Metadata("http://onto-ns.com/meta/0.1/P31Rels", [dlite.Dimension("n")],
                          [dlite.Property("r", "relation"), dlite.Property("rs", "relation", shape=["n"])])
    globals()["T"] = T


def settle():
    KEEP.clear()
    gc.collect()
    sys._clear_type_cache()     # it keeps attribute names alive


def measure(ctx, what, op, detail=""):
    """The deciding monitor: growth of the number of live malloc blocks between N and 3*N repetitions of `op`."""
    def rep(n):
        for _ in range(n):
            op()
            errclr()
        settle()
    rep(4)
    grown = None
    for _ in range(3):
        settle()
        S.hook_begin()
        rep(N)
        first = S.hook_now()
        rep(2 * N)
        n = S.hook_end() - first
        grown = n if grown is None else min(grown, n)
        if grown < N:
            break
    ctx.events += 3 * N
    ctx.sig(what, grown // N, "")
    if grown >= 2 * N:
        b = c.create_string_buffer(12000)
        S.hook_begin()
        rep(N)
        S.hook_pause()
        S.hook_stacks(b, 12000, 3, 0)
        st = b.value.decode("utf8", "replace").splitlines()
        st.sort(key=lambda l: "dlite" not in l)
        fns = st[0].split(" < ") if st else []
        libf = [x for x in fns if x not in ("malloc", "calloc", "realloc", "strdup", "strndup", "__interceptor_malloc", "<null>") and not x.startswith(("Py", "_Py", "__interceptor", "??"))]
        ctx.fail("leak:" + (":".join(libf[:2]) or what.split("/")[0]), "%d blocks during %d repetitions of %s\n%s\n%s" % (grown, 2 * N, what, "\n".join(st), detail() if callable(detail) else detail))
    else:
        ctx.check(True, "conserved")
    ctx.note(what.split("/")[0])


def tryit(f):
    try:
        return f()
    except Exception:
        errclr()


class World:
    """Metadata (kept forever by the store) and reproducible values for one case."""

    def __init__(self, ctx, i, rng, kinds="niufsSb"):
        self.ctx, self.i = ctx, i
        self.e = gen.rand_entity(rng, kinds, maxdims=2, maxprops=5, exprs=rng.random() < .3)
        self.m = gen.py_meta(self.e)
        self.mp = gen.ptr(self.m)
        self.dims = [rng.choice([0, 1, 2, 3]) for _ in self.e.dims]
        self.vals = gen.rand_values(rng, self.e, self.dims, special=False, txt=gen.plain)
        self.vals2 = gen.rand_values(rng, self.e, self.dims, special=False, txt=gen.plain)
        self.id = rng.choice([new_uuid(rng), "http://data.org/" + gen.ident(rng, 10)])

    def new(self, id=None, fill=True):
        inst = self.m(self.dims, id=id or self.id)
        if fill:
            gen.fill(gen.ptr(inst), self.e, self.vals)
        return inst

    def cnew(self):
        p = gen.c_instance(self.mp, self.dims, self.id)
        gen.fill(p, self.e, self.vals)
        return p


KEEP = collections.deque([None] * 40, 40)


def Z(x):
    """NUL-terminated text that lives for a while"""
    KEEP.append(mem.z(x))
    return KEEP[-1].p


def rnd(w):
    return random.Random(w.i)


# ---- instances ---------------------------------------------------------------------------------
def op_create(w):
    p = w.cnew()
    gen.fill(p, w.e, w.vals2)
    gen.read_all(p, w.e)
    C.dlite_instance_decref(p)


def op_pycreate(w):
    inst = w.new()
    for p in w.e.props:
        v = inst[p.name]
        inst[p.name] = v
        str(v)
    inst.dimensions, inst.properties, inst.meta, inst.is_data
    repr(inst), str(inst)
    inst.get_hash()


def op_resize(w):
    p = w.cnew()
    r = rnd(w)
    for _ in range(3):
        if w.e.dims:
            k = r.randrange(len(w.e.dims))
            C.dlite_instance_set_dimension_size_by_index(p, k, r.choice([0, 1, 2, 5, 9]))
    C.dlite_instance_set_dimension_size(p, b"nosuch", 1)
    C.dlite_instance_decref(p)


def op_copy(w):
    inst = w.new()
    a = inst.copy()
    b = inst.copy(newid="http://data.org/copy-of-it")
    tryit(lambda: inst.copy(newid=inst.uuid))
    a == b, a == inst


def op_hash(w):
    p = w.cnew()
    h = buf(32)
    C.dlite_instance_get_hash(p, h, 32)
    C.dlite_instance_verify_hash(p, None, 0)
    C.dlite_instance_freeze(p)
    tryit(lambda: gen.set_prop(p, 0, w.e.props[0], w.vals2[0], []))
    C.dlite_instance_decref(p)


def op_snapshot(w):
    inst = w.new()
    for _ in range(3):
        inst.snapshot()
        gen.fill(gen.ptr(inst), w.e, w.vals2)
    for k in range(5):
        s = tryit(lambda: inst.get_snapshot(k))
        if s is not None:
            s.get_hash()
    q = tryit(lambda: inst.get_parent_uuid())
    inst.freeze()
    s = None


def op_string(w):
    inst = w.new()
    for p in w.e.props:
        s = tryit(lambda: inst.get_property_as_string(p.name))
        if s is not None:
            tryit(lambda: inst.set_property_from_string(p.name, s))
        for bad in ("", "[", "xx", "[[1]]", '["a", "b"', "{}"):
            tryit(lambda: inst.set_property_from_string(p.name, bad))


def op_badset(w):
    inst = w.new()
    for p in w.e.props:
        for v in ("abc", 1, [1, 2, 3, 4, 5, 6], None, {"a": 1}, [["x"]], object(), 1e400, -1, b"x", [None], 2 ** 70, (1, 2, 3, 4, 5, 6, 7)):
            tryit(lambda: setattr(inst, p.name, v))
            tryit(lambda: inst.set_property(p.name, v))
    for k in (-100, 100, "nosuch", None, 1.5):
        tryit(lambda: inst[k])
        tryit(lambda: inst.__setitem__(k, 1))


def op_badcreate(w):
    for args in ([[1] * (len(w.e.dims) + 1)], [[-1] * max(1, len(w.e.dims))], ["abc"], [None], [{"nosuch": 1}]):
        tryit(lambda: w.m(*args))
        tryit(lambda: w.m(*args, id="http://data.org/bad"))
    tryit(lambda: dlite.Instance.from_metaid("http://onto-ns.com/meta/0.1/NoSuchMeta", [1]))
    tryit(lambda: dlite.get_instance("http://onto-ns.com/data/nosuchinstance"))
    tryit(lambda: dlite.Instance.from_metaid(w.m.uri, w.dims, id=w.m.uuid))
    tryit(lambda: w.m(w.dims, properties={"nosuch": 1}))
    x = w.new()
    tryit(lambda: w.m([d + 1 for d in w.dims], id=w.id))


# ---- serialisation -----------------------------------------------------------------------------
def op_json(w):
    inst = w.new()
    r = rnd(w)
    js = inst.asjson(single=r.random() < .5, with_uuid=True, urikey=r.random() < .3, with_arrays=r.random() < .3)
    d = inst.asdict(single=r.random() < .5, soft7=r.random() < .5)
    inst = None
    x = tryit(lambda: dlite.Instance.from_json(js, id=w.id))
    x = None
    x = tryit(lambda: dlite.Instance.from_dict(d, check_storages=False))
    x = None
    w.m.asjson(), w.m.asdict()


def op_badjson(w):
    inst = w.new()
    js = inst.asjson(single=True, with_uuid=True)
    inst = None
    r = rnd(w)
    for _ in range(8):
        k = r.randrange(len(js))
        t = r.choice([js[:k], js[:k] + js[k + 1:], js[:k] + r.choice('"{}[],:1x') + js[k:], js.replace("properties", "props"), js.replace("dimensions", "dims"),
                      js.replace("[", "[["), js.replace(w.m.uri, "http://onto-ns.com/meta/0.1/NoSuch"), js.replace(": ", ": 1"), js.replace('"', "", 1)])
        x = tryit(lambda: dlite.Instance.from_json(t))
        x = None
        p = C.dlite_json_sscan(Z(t), r.choice([None, b"some-other-id"]), r.choice([None, w.m.uri.encode()]))
        if p:
            C.dlite_instance_decref(p)
        js_ = dlite.JStore()
        tryit(lambda: js_.load_json(t))
        for q in tryit(lambda: list(js_.get_ids())) or []:
            x = tryit(lambda: js_.get(q))
            x = None
        z = mem.z(t)
        it = C.dlite_json_iter_create(z.p, len(t), None)
        if it:
            n = c.c_int()
            for _ in range(10):
                if not C.dlite_json_next(c.c_void_p(it), c.byref(n)):
                    break
            C.dlite_json_iter_free(c.c_void_p(it))


def op_bson(w):
    inst = w.new()
    b = bytes(inst.asbson())
    inst = None
    x = dlite.Instance.from_bson(b)
    x = None
    r = rnd(w)
    for _ in range(6):
        t = bytearray(b)
        t[r.randrange(4, len(t) - 1)] ^= 1 << r.randrange(8)
        x = tryit(lambda: dlite.Instance.from_bson(bytes(t)))
        x = None


def op_metajson(w):
    r = rnd(w)
    d = {"uri": "http://onto-ns.com/meta/0.1/P31Bad%d" % w.i, "meta": "http://onto-ns.com/meta/0.3/EntitySchema", "description": "x", "dimensions": {"n": "d"},
         "properties": {"a": {"type": "int", "shape": ["n"], "unit": "m", "description": "d"}, "b": {"type": "string"}, "c": {"type": "ref", "$ref": "http://onto-ns.com/meta/0.1/X"}}}
    k = r.randrange(8)
    if k == 0:
        d["properties"]["a"]["type"] = "nosuchtype"
    elif k == 1:
        del d["properties"]["b"]["type"]
    elif k == 2:
        d["properties"]["a"]["shape"] = [["n"]]
    elif k == 3:
        d["properties"]["a"]["shape"] = ["n+"]
    elif k == 4:
        d["properties"]["b"] = "string"
    elif k == 5:
        d["uri"] = "notauri"
    elif k == 6:
        d["dimensions"] = "n"
    elif k == 7:
        del d["description"]
        d["properties"]["a"]["shape"] = "n"
    t = json.dumps(d)
    x = tryit(lambda: dlite.Instance.from_json(t))
    x = None


def op_print(w):
    p = w.cnew()
    b = buf(4000)
    for fl in (0, 1, 4, 8):
        C.dlite_json_sprint(b, 4000, p, 0, fl)
        s = C.dlite_json_aprint(p, 2, fl)
        if s:
            libc.free(c.c_void_p(s))
    C.dlite_instance_decref(p)


def op_refs(w):
    t = T([], id="http://data.org/p31-target")
    inst = REFM([2], id=w.id)
    inst.r = t
    inst.rs = [t, t]
    inst.rs[0], inst.r
    js = inst.asjson(single=True, with_uuid=True)
    b = bytes(inst.asbson())
    inst.rs = [t, None]
    inst.r = None
    tryit(lambda: setattr(inst, "r", "xx"))
    tryit(lambda: setattr(inst, "rs", [t, "xx"]))
    c2 = inst.copy()
    inst = c2 = None
    x = dlite.Instance.from_json(js)
    x = None
    x = dlite.Instance.from_bson(b)
    x = None
    t = None
    x = tryit(lambda: dlite.Instance.from_json(js))
    x = None
    x = tryit(lambda: dlite.Instance.from_bson(b))
    x = None


def op_rels(w):
    inst = RELM([2], id=w.id)
    inst.r = dlite.Relation("a", "b", "c", "d")
    inst.rs = [["x", "y", "z"], ["u", "v", "w"]]
    inst.r, inst.rs
    tryit(lambda: setattr(inst, "r", ["x"]))
    tryit(lambda: setattr(inst, "rs", [["x", "y", "z"], ["u"]]))
    js = inst.asjson(single=True, with_uuid=True)
    c2 = inst.copy()
    inst = c2 = None
    x = dlite.Instance.from_json(js)
    x.rs = [["x", "y", "z"], ["u", "v", "w", "q"]]


# ---- storages ----------------------------------------------------------------------------------
EXT = {"json": "json", "yaml": "yaml", "hdf5": "h5", "bson": "bson", "pyrdf": "ttl", "rdf": "xml", "csv": "csv"}


def op_storage(drv):
    def op(w):
        fn = os.path.join(w.ctx.work, "s%d.%s" % (w.i, EXT[drv]))
        o = {"rdf": ";store=file"}.get(drv, "")
        if os.path.exists(fn):
            os.remove(fn)
        inst = w.new()
        u = inst.uuid
        tryit(lambda: inst.save(drv, fn, "mode=w" + o))
        inst = None
        x = tryit(lambda: dlite.Instance.from_location(drv, fn, "mode=r" + o, id=w.id))
        x = None
        x = tryit(lambda: dlite.Instance.from_location(drv, fn, "mode=r" + o, id="http://data.org/not-there"))
        x = None

        def it():
            s = dlite.Storage(drv, fn, "mode=r" + o)
            for y in s:
                str(y.uuid)
            s.get_uuids()
            s = None
        tryit(it)

        def load():
            s = dlite.Storage(drv, fn, "mode=r" + o)
            y = s.load(w.id)
            tryit(lambda: s.load("http://data.org/not-there"))
            y = None
        tryit(load)
        with open(fn, "wb") as f:
            f.write(b"{[garbage\0\x01")
        x = tryit(lambda: dlite.Instance.from_location(drv, fn, "mode=r" + o, id=w.id))
        x = None
        tryit(lambda: dlite.Storage(drv, fn + ".missing", "mode=r" + o))
        tryit(lambda: dlite.Storage(drv, fn, "mode=nosuchmode"))
        tryit(lambda: dlite.Storage("nosuchdriver", fn, "mode=r"))
    op.__name__ = "op_storage_" + drv
    return op


def op_url(w):
    fn = os.path.join(w.ctx.work, "u%d.json" % w.i)
    inst = w.new()
    inst.save("json://%s?mode=w" % fn)
    inst = None
    x = dlite.Instance.from_url("json://%s?mode=r#%s" % (fn, w.id))
    x = None
    x = tryit(lambda: dlite.Instance.from_url("json://%s?mode=r#nosuch-id" % fn))
    dlite.storage_path.append(fn)
    x = tryit(lambda: dlite.get_instance(w.id))
    x = None
    x = tryit(lambda: dlite.get_instance("http://data.org/nosuch-thing"))
    dlite.storage_path.remove(fn) if hasattr(dlite.storage_path, "remove") else dlite.storage_path.__delitem__(len(dlite.storage_path) - 1)
    dlite.split_url("json://%s?mode=r#x" % fn), dlite.join_url("json", fn, "mode=r", "x")


def op_bytes(w):
    for drv in ("json", "yaml", "bson", "pyrdf"):
        inst = w.new()
        b = tryit(lambda: bytes(inst.to_bytes(drv)))
        inst = None
        if b:
            x = tryit(lambda: dlite.Instance.from_bytes(drv, b, id=w.id))
            x = None
            x = tryit(lambda: dlite.Instance.from_bytes(drv, b[:len(b) // 2], id=w.id))
            x = None
    inst = w.new()
    tryit(lambda: inst.to_bytes("nosuch"))
    tryit(lambda: inst.to_bytes("hdf5"))


# ---- collections -------------------------------------------------------------------------------
def op_coll(w):
    r = rnd(w)
    coll = dlite.Collection("http://data.org/p31coll")
    inst = w.new()
    coll.add("label", inst)
    tryit(lambda: coll.add("label", inst))
    coll.add("other", inst)
    for k in range(5):
        coll.add_relation("s%d" % (k % 3), "p", "x" + gen.plain(r))
    coll.add_relation("s", "value", "3")
    list(coll.get_relations()), list(coll.get_relations(rettype="T")), list(coll.get_relations(s="s1"))
    list(coll.get_labels()), list(coll.get_instances()), list(coll.get_subjects()), list(coll.get_objects()), list(coll.get_predicates())
    tryit(lambda: coll.value(s="s", p="value"))
    tryit(lambda: coll.value(s="s1", p="p"))
    tryit(lambda: coll.value(s="nosuch", p="p"))
    tryit(lambda: coll.value(s="nosuch", p="p", default="x"))
    coll.get("label"), tryit(lambda: coll.get("nosuch")), coll.get_id(inst.uuid), coll.get_new("other") if hasattr(coll, "get_new") else None
    coll.has("label"), coll.has_id(inst.uuid), "label" in coll, len(coll)
    for x in coll:
        str(x.uuid)
    js = coll.asjson(single=True, with_uuid=True)
    c2 = coll.copy()
    c2.remove("label")
    coll.remove_relations(s="s1")
    coll.remove("other")
    tryit(lambda: coll.remove("nosuch"))
    str(coll), coll.get_hash()
    coll.snapshot()
    coll = c2 = None
    x = tryit(lambda: dlite.Instance.from_json(js))
    x = None
    inst = x = None
    x = tryit(lambda: dlite.Instance.from_json(js))
    x = None


def op_collfile(w):
    fn = os.path.join(w.ctx.work, "c%d.json" % w.i)
    if os.path.exists(fn):
        os.remove(fn)
    coll = dlite.Collection("http://data.org/p31coll2")
    coll.add("label", w.new())
    coll.add_relation("a", "b", "c")
    coll.save("json", fn, "mode=w")
    coll = None
    x = tryit(lambda: dlite.Collection.load("json", fn, "mode=r", id="http://data.org/p31coll2"))
    x = None
    x = tryit(lambda: dlite.get_collection("http://data.org/nosuchcoll"))


def op_triples(w):
    C.triplestore_create.restype = c.c_void_p
    ts = c.c_void_p(C.triplestore_create())
    r = rnd(w)
    for k in range(8):
        C.triplestore_add(ts, Z("s%d" % r.randrange(3)), Z("p"), Z(gen.plain(r)), None)
    C.triplestore_remove(ts, Z("s1"), None, None, None)
    st = M(200)
    C.triplestore_init_state(ts, st.p)
    C.triplestore_find.restype = c.c_void_p
    while C.triplestore_find(st.p, Z("s0"), None, None, None):
        pass
    C.triplestore_deinit_state(st.p)
    C.triplestore_value.restype = c.c_void_p
    C.triplestore_value(ts, Z("s0"), Z("p"), None, None, None, 1)
    C.triplestore_value(ts, Z("nosuch"), Z("p"), None, None, Z("fb"), 1)
    C.triplestore_clear(ts)
    C.triplestore_free(ts)


M = mem


# ---- small services ----------------------------------------------------------------------------
def op_types(w):
    r = rnd(w)
    p = w.cnew()
    for q in w.e.props:
        for dt, sz in ((BOOL, 1), (INT, 4), (UINT, 2), (FLOAT, 8), (FIXSTR, 6), (STRPTR, 8)):
            d = mem(bytes(sz))
            v, = [gen.rand_value(r, q.dtype, q.size, special=False, txt=gen.plain)]
            s = mem(gen.pack(v, q.dtype, q.size, keep := []))
            C.dlite_type_copy_cast(d.p, dt, sz, s.p, q.dtype, q.size)
            C.dlite_type_clear(d.p, dt, sz)
    for t in ("12", "xx", '"a\\u00e9b"', "1.5e3", "true", "[", "", "0x1f", '"unterminated'):
        for dt, sz in ((BLOB, 3), (BOOL, 1), (INT, 4), (UINT, 2), (FLOAT, 8), (FIXSTR, 6), (STRPTR, 8)):
            d = mem(bytes(sz))
            z = mem.z(t)
            C.dlite_type_scan(z.p, -1, d.p, dt, sz, r.choice([0, 1, 2, 4]))
            b, n = c.c_void_p(), c.c_size_t(0)
            C.dlite_type_aprint(c.byref(b), c.byref(n), 0, d.p, dt, sz, -9, -9, r.choice([0, 1, 2]))
            if b.value:
                libc.free(b)
            C.dlite_type_clear(d.p, dt, sz)
    for t in ('["s", "p", "o"]', '["s", "p"]', '{"s": "a", "p": "b", "o": "c", "d": "e"}', '{"s": "a", "p": "b"}', "[]", '["s", "p", "o", "d", "id"]', '["s", 1, [2], "x", {}]'):
        d = mem(bytes(40))
        z = mem.z(t)
        C.dlite_type_scan(z.p, -1, d.p, REL, 40, 0)
        C.dlite_type_clear(d.p, REL, 40)
    for t in ('{"name": "x", "type": "int", "shape": ["n"], "unit": "m"}', '{"name": "x"}', '{"name": "x", "type": "zzz"}', '{"name": "x", "type": "int", "shape": 3}', '{"type": "int"}'):
        d = mem(bytes(64))
        z = mem.z(t)
        C.dlite_type_scan(z.p, -1, d.p, PROP, 64, 0)
        C.dlite_type_clear(d.p, PROP, 64)
    C.dlite_instance_decref(p)


def op_tgen(w):
    for t in ("{a} {b%5.5M} {x={a}}{x}", "{@if:{a}=1}x{@elif:1}y{@else}z{@endif}{@20}e", "{nosuch}", "{a", "{@if:1}x", "{@if:1/0}x{@endif}", "{a%999q}", "{x={nosuch}}", "{@error:bad}", "}", "{@if:{nosuch}}x{@endif}"):
        sb = mem(512)
        C.tgen_subs_init(sb.p)
        for v in (b"a", b"b"):
            C.tgen_subs_set(sb.p, v, b"1", None)
        s2 = mem(512)
        C.tgen_subs_init(s2.p)
        C.tgen_subs_copy(s2.p, sb.p)
        z = mem.z(t)
        r = C.tgen(z.p, s2.p, None)
        if r:
            libc.free(c.c_void_p(r))
        C.tgen_subs_deinit(s2.p)
        C.tgen_subs_deinit(sb.p)


def op_codegen(w):
    C.dlite_codegen.restype = c.c_void_p
    p = w.cnew()
    for t in ("{name} {uuid}\n{list_properties:{prop.name} {prop.type} {list_dims:{dim.name}}\n}", "{list_dimensions:{dim.name}={dim.value}}", "{nosuch}", "{list_properties:{nosuch}}"):
        z = mem.z(t)
        for q in (p, w.mp):
            r = C.dlite_codegen(z.p, q, None)
            if r:
                libc.free(c.c_void_p(r))
    C.dlite_instance_decref(p)


def op_strings(w):
    ps = [c.c_void_p() for _ in range(3)]
    for u in (w.m.uri, "nouri", "http://a/b", ""):
        z = mem.z(u)
        if C.dlite_split_meta_uri(z.p, *[c.byref(q) for q in ps]) == 0:
            for q in ps:
                libc.free(q)
    s = C.dlite_join_meta_uri(b"n", b"0.1", b"http://x")
    libc.free(c.c_void_p(s))
    for t in ("a%20b", "%", "ü"):
        dlite.get_uuid(t), tryit(lambda: dlite.get_uuid_version(t))
    b = mem(80)
    for e in ("1+2*3", "(1", "1/0", "n*m+", "2^3"):
        z = mem.z(e)
        C.infixcalc(z.p, None, 0, b.p, 80)


def op_paths(w):
    P = mem(256)
    C.fu_paths_init(P.p, None)
    C.fu_paths_extend(P.p, b"a:b:/c/d*", None)
    C.fu_paths_insert(P.p, b"first", 0)
    C.fu_paths_append(P.p, (w.ctx.work + "/*").encode())
    C.fu_paths_remove(P.p, b"b")
    C.fu_paths_remove_index(P.p, 0)
    C.fu_paths_remove_index(P.p, 99)
    s = C.fu_paths_string(P.p)
    libc.free(c.c_void_p(s))
    C.fu_startmatch.restype = c.c_void_p
    C.fu_nextmatch.restype = c.c_void_p
    it = c.c_void_p(C.fu_startmatch(b"*.json", P.p))
    while C.fu_nextmatch(it):
        pass
    C.fu_endmatch(it)
    C.fu_glob.restype = c.c_void_p
    C.fu_globnext.restype = c.c_void_p
    it = C.fu_glob((w.ctx.work + "/*").encode(), None)
    if it:
        while C.fu_globnext(c.c_void_p(it)):
            pass
        C.fu_globend(c.c_void_p(it))
    C.fu_paths_deinit(P.p)


def op_objects(w):
    r = dlite.Relation("a", "b", "c")
    r2 = dlite.Relation("a", "b", "c", "d", "e")
    str(r2), repr(r), r == r2, r2.s, r2.d
    r.o = "new"
    p = dlite.Property("x", "float64", shape=["n"], unit="m", description="d")
    str(p), repr(p), p.asdict(), p.shape, p.type
    tryit(lambda: dlite.Property("x", "nosuch"))
    tryit(lambda: dlite.Property("x", "int", shape=3))
    d = dlite.Dimension("n", "descr")
    str(d), repr(d), d.asdict()
    tryit(lambda: dlite.Dimension(3))
    tryit(lambda: dlite.Metadata("notauri", [], [], "x"))
    tryit(lambda: dlite.Metadata("http://onto-ns.com/meta/0.1/P31X", ["x"], [p], "x"))
    tryit(lambda: dlite.Metadata("http://onto-ns.com/meta/0.1/P31X", [d], ["x"], "x"))
    w.m.getprop(w.e.props[0].name), tryit(lambda: w.m.getprop("nosuch")), w.m.propnames(), w.m.dimnames()


def op_metamodel(w):
    C.dlite_metamodel_create.restype = c.c_void_p
    C.dlite_meta_create_from_metamodel.restype = c.c_void_p
    for bad in (0, 1, 2, 3):
        mm = c.c_void_p(C.dlite_metamodel_create(b"http://onto-ns.com/meta/0.1/P31MM", b"http://onto-ns.com/meta/0.3/EntitySchema" if bad != 3 else b"http://onto-ns.com/meta/0.1/Nometa"))
        if not mm.value:
            continue
        C.dlite_metamodel_add_string(mm, b"description", b"d")
        C.dlite_metamodel_set_string(mm, b"description", b"e")
        C.dlite_metamodel_add_string(mm, b"description", b"d")
        C.dlite_metamodel_add_dimension(mm, b"n", b"d")
        C.dlite_metamodel_add_property(mm, b"x", b"int" if bad != 1 else b"nosuch", b"m", b"d")
        C.dlite_metamodel_add_property_dim(mm, b"x", b"n")
        C.dlite_metamodel_add_property_dim(mm, b"nosuch", b"n")
        C.dlite_metamodel_set_dimension_value(mm, b"ndimensions", 1)
        C.dlite_metamodel_set_dimension_value(mm, b"nosuch", 3)
        if bad == 2:
            C.dlite_metamodel_add_property(mm, b"x", b"int", None, None)
        C.dlite_metamodel_missing_value(mm)
        C.dlite_metamodel_free(mm)


def op_transaction(w):
    inst = w.new()
    inst.snapshot()
    gen.fill(gen.ptr(inst), w.e, w.vals2)
    inst.snapshot()
    fn = os.path.join(w.ctx.work, "t%d.json" % w.i)
    s = dlite.Storage("json", fn, "mode=w")
    tryit(lambda: inst.push_snapshot(s, 0))
    tryit(lambda: inst.push_snapshot(s, 5))
    tryit(lambda: inst.pull_snapshot(s, 0))
    tryit(lambda: inst.get_snapshot(1))
    tryit(lambda: inst.get_snapshot(9))
    s = None


def op_errors(w):
    for k in (1, -3, -999, 4):
        S.s_err(k, b"message " * 50)
        errclr()
    tryit(lambda: dlite.err(2, "x"))
    with dlite.silent:
        tryit(lambda: dlite.get_instance("http://data.org/nosuch-one"))
    with dlite.errctl(hide="DLiteMissingInstanceError") if hasattr(dlite, "errctl") else dlite.silent:
        tryit(lambda: dlite.get_instance("http://data.org/nosuch-one"))


def op_jstore(w):
    js = dlite.JStore()
    inst = w.new()
    js.load(inst) if hasattr(js, "load") else None
    tryit(lambda: js.load_json(inst.asjson(single=False)))
    u = inst.uuid
    inst = None
    list(js.get_ids()), len(js)
    for k in list(js.get_ids()):
        x = tryit(lambda: js.get(k))
        x = None
        tryit(lambda: js.get_json(k)), tryit(lambda: js.get_dict(k))
    tryit(lambda: js.get("nosuch-id-here"))
    js2 = dlite.JStore()
    tryit(lambda: js2.update(js))
    tryit(lambda: js.remove(u))


def op_array(w):
    C.dlite_array_create.restype = c.c_void_p
    d = (c.c_double * 24)()
    sh = szarr([2, 3, 4])
    a = c.c_void_p(C.dlite_array_create(d, FLOAT, 8, 3, sh))
    C.dlite_array_slice.restype = C.dlite_array_reshape.restype = C.dlite_array_transpose.restype = C.dlite_array_make_continuous.restype = c.c_void_p
    bad = szarr([5, 5])
    for q in (C.dlite_array_slice(a, None, None, None), C.dlite_array_reshape(a, 1, szarr([24])), C.dlite_array_reshape(a, 2, bad), C.dlite_array_transpose(a)):
        if q:
            C.dlite_array_free(c.c_void_p(q))
    C.dlite_array_free(a)


OPS = [op_create, op_pycreate, op_resize, op_copy, op_hash, op_snapshot, op_string, op_badset, op_badcreate, op_json, op_badjson, op_bson, op_metajson, op_print, op_refs, op_rels,
       op_url, op_bytes, op_coll, op_collfile, op_triples, op_types, op_tgen, op_codegen, op_strings, op_paths, op_objects, op_metamodel, op_transaction, op_errors, op_jstore, op_array]
STOR = [op_storage(d) for d in ("json", "yaml", "hdf5", "bson", "pyrdf", "rdf")]
FEW = {"op_refs", "op_rels", "op_triples", "op_strings", "op_objects", "op_metamodel", "op_errors", "op_array", "op_tgen", "op_paths"}


def g_ops(ctx, i, rng):
    op = OPS[i % len(OPS)]
    w = World(ctx, i, rng)
    measure(ctx, op.__name__[3:], lambda: op(w), lambda: (w.e.uri, [(p.name, p.tname, p.shape) for p in w.e.props], w.dims))


def g_storages(ctx, i, rng):
    op = STOR[i % len(STOR)]
    w = World(ctx, i, rng, "nifsSb" if "bson" in op.__name__ else "niufsSb")
    measure(ctx, op.__name__[3:], lambda: op(w), lambda: ([(p.name, p.tname, p.shape) for p in w.e.props], w.dims))


GROUPS = [("ops", g_ops, 6 * len(OPS), 60 * len(OPS)), ("storages", g_storages, 4 * len(STOR), 40 * len(STOR))]
