"""P02: one live instance per identity, freed exactly when the last reference goes."""
import ctypes as c, gc, json, os
from dl import *
import gen
from gen import Prop, Entity

RULE = "distinct (operation, outcome, reference class of the target) transitions observed"


def setup():
    quiet()


def stored():
    n = c.c_int()
    p = C.dlite_istore_get_uuids(c.byref(n))
    a = (c.c_void_p * (n.value + 1)).from_address(p)
    out = set()
    for i in range(n.value):
        out.add(c.string_at(a[i]).decode())
        libc.free(a[i])
    libc.free(p)
    return out


class Obj:
    def __init__(self, ptr, uuid, e, dims, uri=None):
        self.ptr, self.uuid, self.e, self.dims, self.uri = ptr, uuid, e, dims, uri
        self.refs = 0           # references we hold
        self.kids = {}          # property -> Obj referred to
        self.parent = None
        self.frozen = False


class World:
    """Model of the live instances and their references."""

    def __init__(self, ctx, rng, py=False):
        self.ctx, self.rng = ctx, rng
        self.es, self.metas, self.minst = [], [], []
        base = None
        for k in range(3):
            e = gen.rand_entity(rng, maxdims=2, maxprops=3, kinds="isfS")
            base = base or e.uri
            e.props.append(Prop("ref_a", "ref", REF, 8, ref=base))
            if e.dims:
                e.props.append(Prop("ref_arr", "ref", REF, 8, [e.dims[0]], ref=base))
            if py:
                o = gen.py_meta(e)
                m = gen.ptr(o)
                C.dlite_instance_incref(m)
                del o
            else:
                m = C.dlite_json_sscan(json.dumps(dict(
                    uri=e.uri, meta="http://onto-ns.com/meta/0.3/EntitySchema", description="",
                    dimensions=[dict(name=d) for d in e.dims],
                    properties=[{k2: v for k2, v in {"name": p.name, "type": p.tname, "$ref": p.ref,
                                                     "shape": p.shape}.items() if v} for p in e.props])).encode(),
                    None, None)
            assert m, C.dlite_errmsg()
            self.es.append(e)
            self.metas.append(m)
        errclr()
        self.m0 = [S.s_refcount(m) for m in self.metas]
        self.base = stored()
        self.live = {}
        self.dead = []

    def drop(self, o):
        """One reference less."""
        o.refs -= 1
        self.reap(o)

    def count(self, o):
        n = o.refs
        for x in self.live.values():
            n += sum(1 for k in x.kids.values() if k is o)
            n += x.parent is o
        return n

    def reap(self, o):
        if o.uuid in self.live and self.live[o.uuid] is o and self.count(o) == 0:
            del self.live[o.uuid]
            self.dead.append(o.uuid)
            kids, par = list(o.kids.values()), o.parent
            for k in kids:
                self.reap(k)
            if par is not None:
                self.reap(par)

    def add(self, ptr, e, dims, uri=None):
        uuid = S.s_uuid(ptr).decode()
        o = Obj(ptr, uuid, e, list(dims), uri)
        o.refs = 1
        self.live[uuid] = o
        return o

    def check(self, where):
        ctx = self.ctx
        for o in self.live.values():
            ctx.eq(S.s_refcount(o.ptr), self.count(o), "refcount", (where, o.uuid, o.uri))
            ctx.eq(S.s_uuid(o.ptr).decode(), o.uuid, "uuid-changed", where)
            ctx.eq(C.dlite_instance_has(o.uuid.encode(), False), o.ptr, "lookup", (where, o.uuid))
            if o.uri:
                ctx.eq(C.dlite_instance_has(o.uri.encode(), False), o.ptr, "lookup-by-id", (where, o.uri))
            for k, kid in o.kids.items():
                i, j = k
                q = C.dlite_instance_get_property_by_index(o.ptr, i)
                p = c.cast(q, c.POINTER(c.c_void_p))[j]
                ctx.eq(p, kid.ptr, "reference", where)
        for k, m in enumerate(self.metas):
            n = sum(1 for o in self.live.values() if o.e is self.es[k])
            ctx.eq(S.s_refcount(m), self.m0[k] + n, "meta-refcount", where)
        ctx.eq(stored() - self.base, set(self.live), "store-contents", where)
        ctx.eq(self.base - stored(), set(), "store-lost", where)
        for u in self.dead[-5:]:
            if u not in self.live:
                ctx.check(not C.dlite_instance_has(u.encode(), False), "dead-found", where)
        errclr()


def ref_slots(o):
    out = []
    for i, p in enumerate(o.e.props):
        if p.dtype == REF:
            n = o.e.shape_of(p, o.dims)[0] if p.shape else 1
            out += [(i, j) for j in range(n)]
    return out


def g_history(ctx, i, rng):
    w = World(ctx, rng)
    d = os.path.join(ctx.work, "p02-%d" % i)
    steps = rng.randint(15, 50)
    files = []
    for step in range(steps):
        ops = ["create"] * 3 + ["create-id"] * 2 + ["bad"] * 3
        if w.live:
            ops += ["get"] * 2 + ["has", "incref", "decref", "decref", "decref", "copy", "exists", "exists-bad",
                    "ref", "ref", "resize", "snapshot", "set-parent", "json", "load"]
        op = rng.choice(ops)
        o = rng.choice(list(w.live.values())) if w.live else None
        k = rng.randrange(3)
        e, m = w.es[k], w.metas[k]
        dims = [rng.randint(0, 3) for _ in e.dims]
        info = ""
        if op in ("create", "create-id"):
            id, uri = None, None
            if op == "create-id":
                t = rng.randrange(4)
                if t == 0:
                    id = gen.uuid_case(rng, new_uuid(rng))
                elif t == 1:
                    id = uri = gen.name(rng)
                elif t == 2:
                    id = uri = gen.url(rng)
                else:
                    id = ""
            how = rng.randrange(2)
            if how:
                p = C.dlite_instance_create(m, szarr(dims), id.encode() if id is not None else None)
            else:
                p = C.dlite_instance_create_from_id(e.uri.encode(), szarr(dims), id.encode() if id is not None else None)
            if ctx.check(p, "create", lambda: (id, C.dlite_errmsg())):
                if p in [x.ptr for x in w.live.values()]:
                    pass
                w.add(p, e, dims, uri)
        elif op == "get":
            id = gen.uuid_case(rng, o.uuid) if not o.uri or rng.random() < .5 else o.uri
            f = rng.randrange(3)
            p = (C.dlite_instance_get(id.encode()) if f == 0 else
                 C.dlite_instance_get_casted(id.encode(), None) if f == 1 else C.dlite_meta_get(id.encode()))
            if ctx.eq(p, o.ptr, "get", id):
                o.refs += 1
        elif op == "has":
            ctx.eq(C.dlite_instance_has(o.uuid.encode(), rng.random() < .5), o.ptr, "has")
        elif op == "incref":
            if o.refs:
                o.refs += 1
                ctx.eq(C.dlite_instance_incref(o.ptr), w.count(o), "incref-return")
        elif op == "decref":
            if o.refs:
                n = w.count(o) - 1
                info = n
                r = C.dlite_instance_decref(o.ptr)
                w.drop(o)
                ctx.eq(r, n, "decref-return")
        elif op == "copy":
            id = rng.choice([None, None, gen.name(rng), new_uuid(rng), "exists"])
            if id == "exists":
                x = rng.choice(list(w.live.values()))
                p = C.dlite_instance_copy(o.ptr, x.uuid.encode())
                ctx.check(not p, "copy-to-existing")
                info = "exists"
            else:
                p = C.dlite_instance_copy(o.ptr, id.encode() if id else None)
                if ctx.check(p, "copy", lambda: C.dlite_errmsg()):
                    n = w.add(p, o.e, o.dims, id if id and len(id) != 36 else None)
                    n.kids = dict(o.kids)
                    n.parent = o.parent
        elif op == "exists":
            # creating again with the same metadata and dimensions is a new reference
            id = o.uri or o.uuid
            p = C.dlite_instance_create(S.s_meta(o.ptr), szarr(o.dims), id.encode())
            if ctx.eq(p, o.ptr, "create-existing", C.dlite_errmsg()):
                o.refs += 1
        elif op == "exists-bad":
            id = o.uri or gen.uuid_case(rng, o.uuid)
            if o.dims and rng.random() < .5:
                dd = list(o.dims)
                dd[rng.randrange(len(dd))] += 1
                p = C.dlite_instance_create(S.s_meta(o.ptr), szarr(dd), id.encode())
                info = "dims"
            else:
                k = rng.choice([x for x in range(3) if w.es[x] is not o.e])
                p = C.dlite_instance_create(w.metas[k], szarr([1] * len(w.es[k].dims)), id.encode())
                info = "meta"
            ctx.check(not p, "create-conflicting", (id, info))
        elif op == "ref":
            sl = ref_slots(o)
            if sl and not o.frozen:
                pi, pj = rng.choice(sl)
                tgt = rng.choice(list(w.live.values()) + [None])
                wrong = tgt is not None and tgt.e is not w.es[0]
                if tgt is not None and not wrong and reaches(tgt, o):
                    tgt = None                     # avoid cycles: they are never freed
                n = len([1 for a, b in sl if a == pi])
                b = buf(8 * n)
                arr = c.cast(addr(b), c.POINTER(c.c_void_p))
                kids = {}
                for j in range(n):
                    x = tgt if j == pj else o.kids.get((pi, j))
                    arr[j] = x.ptr if x is not None else None
                    if x is not None:
                        kids[(pi, j)] = x
                old = [x for a, x in o.kids.items() if a[0] == pi]
                r = C.dlite_instance_set_property_by_index(o.ptr, pi, addr(b))
                ctx.eq(r == 0, not wrong, "set-ref", lambda: C.dlite_errmsg())
                if r == 0:
                    o.kids = {a: x for a, x in o.kids.items() if a[0] != pi}
                    o.kids.update(kids)
                    for x in old:
                        w.reap(x)
                info = (tgt is None, bool(old), wrong)
        elif op == "resize":
            if o.dims and not o.frozen:
                dd = [rng.randint(0, 4) for _ in o.dims]
                ctx.eq(C.dlite_instance_set_dimension_sizes(o.ptr, (c.c_int * len(dd))(*dd)), 0, "resize",
                       lambda: C.dlite_errmsg())
                o.dims = dd
                keep = set(ref_slots(o))
                old = [x for a, x in o.kids.items() if a not in keep]
                o.kids = {a: x for a, x in o.kids.items() if a in keep}
                for x in old:
                    w.reap(x)
                info = bool(old)
        elif op == "snapshot":
            if not o.frozen:
                ctx.eq(C.dlite_instance_snapshot(o.ptr), 0, "snapshot", lambda: C.dlite_errmsg())
                p = S.s_parent(o.ptr)
                s = w.add(p, o.e, o.dims, S.s_uri(p).decode())
                s.refs, s.frozen = 0, True
                s.kids = dict(o.kids)
                s.parent = o.parent
                o.parent = s
            else:
                ctx.check(C.dlite_instance_snapshot(o.ptr) != 0, "snapshot-frozen")
        elif op == "set-parent":
            x = rng.choice(list(w.live.values()))
            if x is not o and not o.frozen and not reaches(x, o):
                if rng.random() < .7 and not x.frozen:
                    C.dlite_instance_freeze(x.ptr)
                    x.frozen = True
                r = C.dlite_instance_set_parent(o.ptr, x.ptr)
                ctx.eq(r == 0, x.frozen, "set-parent")
                if r == 0:
                    old, o.parent = o.parent, x
                    if old is not None:
                        w.reap(old)
                info = x.frozen
        elif op == "json":
            # reading a serialised live instance gives a reference to it
            if not o.kids:
                js = C.dlite_json_aprint(o.ptr, 0, 1 | 2 | 4)
                t = take_str(js) if js else None
                if ctx.check(t, "aprint", lambda: C.dlite_errmsg()):
                    p = C.dlite_json_sscan(t, o.uuid.encode() if rng.random() < .5 else None, None)
                    info = bool(p)
                    if p:
                        if ctx.eq(p, o.ptr, "json-other-object"):
                            o.refs += 1
        elif op == "load":
            if not o.kids and not o.parent and o.uri and "#" not in o.uri:
                os.makedirs(d, exist_ok=True)
                fn = os.path.join(d, "f%d.json" % len(files))
                r = C.dlite_instance_save_url(("json://%s?mode=w" % fn).encode(), o.ptr)
                if ctx.eq(r, 0, "save", lambda: C.dlite_errmsg()):
                    files.append((fn, o.uuid, o.e, list(o.dims), o.uri))
        if op == "bad" or (op == "load" and files):
            t = rng.randrange(8) if op == "bad" else 99
            info = t
            if t == 99:
                fn, u, fe, fd, furi = rng.choice(files)
                p = C.dlite_instance_load_url(("json://%s?mode=r#%s" % (fn, u)).encode())
                if ctx.check(p, "load", lambda: (C.dlite_errmsg(), u)):
                    if u in w.live:
                        if ctx.eq(p, w.live[u].ptr, "load-live-other-object"):
                            w.live[u].refs += 1
                        info = "live"
                    else:
                        w.add(p, fe, fd, furi)
                        info = "new"
            else:
                badid = rng.choice([new_uuid(rng), gen.ident(rng, 9), "http://onto-ns.com/x/" + gen.ident(rng, 5)])
                if t == 0:
                    r = C.dlite_instance_get(badid.encode())
                elif t == 1:
                    r = C.dlite_instance_has(badid.encode(), rng.random() < .2)
                elif t == 2:
                    r = C.dlite_instance_create_from_id(badid.encode(), szarr(dims), None)
                elif t == 3:
                    r = C.dlite_instance_load_url(("json://%s/nofile.json?mode=r" % ctx.work).encode())
                elif t == 4:
                    bd = list(dims) or [1]
                    bd[0] = 2**40
                    r = C.dlite_instance_create(m, szarr(bd), badid.encode()) if dims else None
                elif t == 5:
                    r = C.dlite_json_sscan(rng.choice([b"{", b"{}", b"[]", b"", b"{\"a\": 1}", b"nul"]), None, None)
                elif t == 6:
                    u = new_uuid(rng)
                    r = C.dlite_json_sscan(json.dumps({u: dict(meta=e.uri, dimensions=dict(zip(e.dims, dims)),
                                                               properties={e.props[0].name: {"bad": 1}})}).encode(),
                                           u.encode(), None)
                elif t == 7:
                    r = C.dlite_json_sscan(json.dumps({new_uuid(rng): dict(meta=badid, dimensions=[], properties=[])})
                                           .encode(), None, None)
                if t == 6 and r:
                    # tolerated: then it is an ordinary instance
                    w.add(r, e, dims)
                else:
                    ctx.check(not r, "bad-succeeded:%d" % t, (badid,))
        ctx.sig(op, str(info), o.refs if o and o.refs < 3 else 3, bool(o and o.parent), bool(o and o.kids))
        w.check((step, op, info))
    # drop everything: nothing remains
    order = [o for o in w.live.values() for _ in range(o.refs)]
    rng.shuffle(order)
    for o in order:
        n = w.count(o) - 1
        r = C.dlite_instance_decref(o.ptr)
        ctx.eq(r, n, "decref-return")
        w.drop(o)
    ctx.eq(len(w.live), 0, "model")
    w.check("end")
    for m in w.metas:
        C.dlite_meta_decref(m)


def reaches(a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        todo += list(x.kids.values())
        if x.parent is not None:
            todo.append(x.parent)
    return False


# ---- Python wrappers ---------------------------------------------------------------------------
def g_py(ctx, i, rng):
    """References owned by Python objects."""
    import dlite
    w = World(ctx, rng, py=True)
    metas = [dlite.get_instance(e.uri) for e in w.es]
    w.m0 = [S.s_refcount(m) for m in w.metas]
    wraps = []                                   # (Obj, python object)

    def hold(o, py):
        wraps.append((o, py))

    for step in range(rng.randint(10, 35)):
        ops = ["create"] * 3 + ["bad"] * 2
        if wraps:
            ops += ["get", "copy", "del", "del", "del", "ref", "read-ref", "snapshot", "get-snapshot", "misc",
                    "exists", "bytes", "meta"]
        op = rng.choice(ops)
        info = ""
        k = rng.randrange(3)
        e = w.es[k]
        dims = [rng.randint(0, 2) for _ in e.dims]
        if wraps:
            j = rng.randrange(len(wraps))
            o, py = wraps[j]
        else:
            o = py = None
        if op == "create":
            id = rng.choice([None, None, new_uuid(rng), gen.url(rng)])
            how = rng.randrange(2)
            q = metas[k](dims, id=id) if how else dlite.Instance.from_metaid(e.uri, dims, id)
            hold(w.add(gen.ptr(q), e, dims, id if id and len(id) != 36 else None), q)
            del q
        elif op == "exists":
            q = dlite.Instance.from_metaid(o.e.uri, o.dims, o.uri or o.uuid)
            ctx.eq(gen.ptr(q), o.ptr, "py-create-existing")
            o.refs += 1
            hold(o, q)
            del q
        elif op == "get":
            id = o.uri if o.uri and rng.random() < .5 else gen.uuid_case(rng, o.uuid)
            q = dlite.get_instance(id, check_storages=rng.random() < .5)
            ctx.eq(gen.ptr(q), o.ptr, "py-get")
            ctx.eq(dlite.has_instance(id, check_storages=False), True, "py-has")
            o.refs += 1
            hold(o, q)
            del q
        elif op == "copy":
            q = py.copy(newid=rng.choice([None, new_uuid(rng)]))
            n = w.add(gen.ptr(q), o.e, o.dims)
            n.kids, n.parent = dict(o.kids), o.parent
            hold(n, q)
            del q
        elif op == "del":
            wraps.pop(j)
            del py
            gc.collect()
            w.drop(o)
        elif op == "ref":
            # assign a reference to another instance
            sl = ref_slots(o)
            pi = [a for a, b in sl if not o.e.props[a].shape][0]
            x, xp = rng.choice(wraps)
            if not o.frozen and not reaches(x, o):
                old = o.kids.get((pi, 0))
                if x.e is w.es[0]:
                    py[o.e.props[pi].name] = xp
                    o.kids[(pi, 0)] = x
                    if old is not None:
                        w.reap(old)
                info = old is not None
            del xp
        elif op == "read-ref":
            pi = [a for a, p in enumerate(o.e.props) if p.name == "ref_a"][0]
            kid = o.kids.get((pi, 0))
            q = py["ref_a"]
            if kid is None:
                ctx.eq(q, None, "py-unset-ref")
            else:
                ctx.eq(gen.ptr(q), kid.ptr, "py-ref")
                kid.refs += 1
                hold(kid, q)
            info = kid is not None
            del q
        elif op == "snapshot":
            if not o.frozen:
                py.snapshot()
                p = S.s_parent(o.ptr)
                s = w.add(p, o.e, o.dims, S.s_uri(p).decode())
                s.refs, s.frozen = 0, True
                s.kids, s.parent = dict(o.kids), o.parent
                o.parent = s
        elif op == "get-snapshot":
            if o.parent is not None:
                q = py.get_snapshot()
                ctx.eq(gen.ptr(q), o.parent.ptr, "py-get-snapshot")
                o.parent.refs += 1
                hold(o.parent, q)
                del q
                info = "parent"
        elif op == "meta":
            q = py.meta
            ctx.eq(gen.ptr(q), S.s_meta(o.ptr), "py-meta")
            ctx.eq(q.uri, o.e.uri, "py-meta-uri")
            del q
        elif op == "bytes":
            if not o.kids and o.parent is None:
                b = py.to_bytes("json")
                q = dlite.Instance.from_bytes("json", bytes(b), id=o.uuid)
                ctx.eq(gen.ptr(q), o.ptr, "py-from-bytes")
                o.refs += 1
                hold(o, q)
                del q
        elif op == "misc":
            repr(py), str(py), py.get_hash(), py.uuid, py.uri, py.dimensions, py.asdict(), py.is_frozen()
            py.properties if not o.kids else None
            len(py), py.meta.props
        elif op == "bad":
            t = rng.randrange(6)
            info = t
            try:
                if t == 0:
                    dlite.get_instance(new_uuid(rng))
                elif t == 1:
                    dlite.Instance.from_metaid("http://onto-ns.com/meta/0/No" + gen.ident(rng, 4), [1])
                elif t == 2:
                    metas[k](dims + [1])
                elif t == 3:
                    dlite.Instance.from_json('{"a": 1}')
                elif t == 4:
                    metas[k](dims, properties={"nosuch": 1})
                elif wraps:
                    py["ref_a"] = "not an instance"
                    raise ValueError
                else:
                    raise ValueError
            except Exception as ex:
                del ex
            else:
                ctx.fail("py-bad-accepted:%d" % t)
            dlite.errclr()
            gc.collect()
        py = None
        ctx.sig("py", op, str(info), o.refs if o and o.refs < 3 else 3, bool(o and o.parent), bool(o and o.kids))
        w.check(("py", step, op, info))
    while wraps:
        o, py = wraps.pop(rng.randrange(len(wraps)))
        del py
        w.drop(o)
    gc.collect()
    ctx.eq(len(w.live), 0, "model")
    w.check("py-end")
    for m in w.metas:
        C.dlite_meta_decref(m)


GROUPS = [("history", g_history, 400, 5000), ("py", g_py, 250, 3000)]
