"""P18: references between instances keep their targets and survive serialisation."""
import ctypes as c, gc, json, os, shutil, tempfile
from dl import *
import gen
from gen import Entity, Prop

RULE = "distinct (operation, property kind, graph size, cyclic, storage driver, order) observations"
U1, U2 = "http://onto-ns.com/meta/0.1/P18Node", "http://onto-ns.com/meta/0.1/P18Leaf"


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


def setup():
    quiet()
    import dlite, numpy
    global dlite, np, E, M
    np = numpy
    r = lambda name, shape, ref: Prop(name, "ref", REF, 8, shape, ref=ref)
    E = [Entity(U1, ["n", "m"], [Prop("v", "int64", INT, 8, []), r("next", [], U1), r("kids", ["n"], U1), r("other", [], U2),
                                 r("grid", ["n", "m"], U1), r("more", ["m+1"], U2)]),
         Entity(U2, ["k"], [r("back", [], U1), Prop("v", "int64", INT, 8, []), r("arr", ["k"], U2), Prop("s", "string", STRPTR, 8, [])])]
    M = [gen.py_meta(e) for e in E]


class Node:
    def __init__(self, kind, dims, id, uuid, v):
        self.kind, self.dims, self.id, self.uuid, self.v = kind, list(dims), id, uuid, v
        self.slots = {p.name: [None] * gen.prod(E[kind].shape_of(p, dims)) for p in E[kind].props if p.dtype == REF}
        self.py, self.c = [], []

    def ptr(self):
        return gen.ptr(self.py[0]) if self.py else self.c[0]

    def handles(self):
        return len(self.py) + len(self.c)


PROPS = lambda kind: [(i, p) for i, p in enumerate(E[kind].props) if p.dtype == REF]


class Graph:
    def __init__(self, ctx, rng, acyclic=False):
        self.ctx, self.rng, self.nodes, self.log, self.acyclic = ctx, rng, {}, [], acyclic
        self.dead = []

    def show(self, *a):
        return (self.log[-25:],) + a

    def add(self):
        rng = self.rng
        kind = rng.randrange(2)
        dims = [rng.choice([0, 1, 2, 3]) for _ in E[kind].dims]
        k = rng.randrange(3)
        id = [new_uuid(rng), "http://data.org/%s" % gen.ident(rng, 10), "id_%s" % gen.ident(rng, 9)][k]
        n = Node(kind, dims, id, id if k == 0 else uuid5(id), rng.randrange(10**6))
        inst = M[kind](dims, id=id)
        inst.v = n.v
        n.py.append(inst)
        self.nodes[n.uuid] = n
        self.log.append(("add", id[:10], U1[-4:] if kind == 0 else U2[-4:], dims))

    def held(self):
        return [n for n in self.nodes.values() if n.handles()]

    def targets(self, holder, p, n=1):
        """Possible targets for property p of holder (None included)."""
        cand = [x for x in self.nodes.values() if M[x.kind].uri == p.ref]
        if self.acyclic:
            order = list(self.nodes)
            cand = [x for x in cand if order.index(x.uuid) < order.index(holder.uuid)]
        got = []
        for _ in range(n):
            got.append(self.rng.choice(cand).uuid if cand and self.rng.random() < .8 else None)
        return got

    def pyval(self, t):
        """A Python value denoting the target."""
        if t is None:
            return None
        n = self.nodes[t]
        r = self.rng.random()
        if r < .3:
            return t
        return n.py[0] if n.py else dlite.get_instance(t, check_storages=False)

    def assign(self):
        rng, ctx = self.rng, self.ctx
        if not self.held():
            return
        n = rng.choice(self.held())
        i, p = rng.choice(PROPS(n.kind))
        shape = E[n.kind].shape_of(p, n.dims)
        size = gen.prod(shape)
        want = self.targets(n, p, size)
        how = rng.choice(["c", "py", "py", "cassign", "cassignF", "pyprop"])
        if how == "py" and not n.py or how == "pyprop" and not n.py:
            how = "c"
        if how in ("c", "cassign", "cassignF"):
            ptrs = (c.c_void_p * max(size, 1))()
            keep = []
            for k, t in enumerate(want):
                if t is not None:
                    # borrowed pointer of a live node
                    q = C.dlite_instance_get(t.encode())
                    keep.append(q)
                    ptrs[k] = q
            if how == "c":
                r = C.dlite_instance_set_property_by_index(n.ptr(), i, c.addressof(ptrs))
            else:
                src = ptrs
                if how == "cassignF" and len(shape) == 2:
                    src = (c.c_void_p * max(size, 1))()
                    for a in range(shape[0]):
                        for b in range(shape[1]):
                            src[b * shape[0] + a] = ptrs[a * shape[1] + b]
                r = fn("dlite_instance_assign_property", c.c_int, c.c_void_p, c.c_char_p, c.c_int, c.c_void_p)(
                    n.ptr(), p.name.encode(), ord("F" if how == "cassignF" else "C"), c.addressof(src))
            for q in keep:
                C.dlite_instance_decref(q)
            ctx.eq(r, 0, "assign-c:" + how, lambda: self.show(C.dlite_errmsg()))
            errclr()
        else:
            vals = [self.pyval(t) for t in want]
            if not p.shape:
                v = vals[0]
            else:
                v = gen.nest(vals, shape) if len(shape) > 1 else vals
                if size and rng.random() < .3:
                    v = np.array(v, dtype=object)
                    if v.shape != tuple(shape):
                        v = gen.nest(vals, shape)
            try:
                if how == "pyprop":
                    n.py[0].set_property(p.name, v)
                elif rng.random() < .5:
                    setattr(n.py[0], p.name, v)
                else:
                    n.py[0][p.name] = v
            except Exception as ex:
                errclr()
                ctx.fail("assign-python", self.show(p.name, v, str(ex)[-400:]))
            vals = v = None
        n.slots[p.name] = want
        self.log.append(("assign", how, n.id[:10], p.name, [t and t[:4] for t in want]))
        ctx.note("assign " + how)

    def bad(self):
        """Assignments that must be rejected and change nothing."""
        rng, ctx = self.rng, self.ctx
        if not self.held():
            return
        n = rng.choice(self.held())
        i, p = rng.choice(PROPS(n.kind))
        shape = E[n.kind].shape_of(p, n.dims)
        size = gen.prod(shape)
        wrong = [x for x in self.nodes.values() if M[x.kind].uri != p.ref]
        how = rng.choice(["cmeta", "cassignmeta", "object", "unknown", "length"])
        if how in ("cmeta", "cassignmeta"):
            if not wrong or not size:
                return
            ptrs = (c.c_void_p * size)()
            good = self.targets(n, p, size)
            good[rng.randrange(size)] = rng.choice(wrong).uuid
            keep = []
            for k, t in enumerate(good):
                if t:
                    ptrs[k] = C.dlite_instance_get(t.encode())
                    keep.append(ptrs[k])
            if how == "cmeta":
                r = C.dlite_instance_set_property_by_index(n.ptr(), i, c.addressof(ptrs))
            else:
                r = fn("dlite_instance_assign_property", c.c_int, c.c_void_p, c.c_char_p, c.c_int, c.c_void_p)(
                    n.ptr(), p.name.encode(), ord("C"), c.addressof(ptrs))
            for q in keep:
                C.dlite_instance_decref(q)
            errclr()
            ctx.check(r != 0, "other-metadata-accepted", lambda: self.show(p.name))
        elif n.py:
            if how == "length":
                if not p.shape:
                    return
                v = self.targets(n, p, size + rng.choice([1, 2]))
                v = [self.pyval(t) for t in v]
                if len(shape) > 1:
                    v = [v]
            else:
                v = {"object": rng.choice([12, 1.5, b"x", {"a": 1}, object()]), "unknown": rng.choice([new_uuid(rng), "ftp://x.y/" + gen.ident(rng, 6), ""])}[how]
                if p.shape:
                    if not size:
                        return
                    vals = [self.pyval(t) for t in self.targets(n, p, size)]
                    vals[rng.randrange(size)] = v
                    v = gen.nest(vals, shape) if len(shape) > 1 else vals
                    vals = None
                    # documented behaviour of numpy style assignment of arrays is element wise; judged by identity only
                    try:
                        setattr(n.py[0], p.name, v)
                        ctx.fail("invalid-reference-accepted:%s:array" % how, self.show(p.name, str(v)))
                    except Exception:
                        errclr()
                    v = None
                    self.resync(n, p, size)
                    return
            try:
                setattr(n.py[0], p.name, v)
                ok = True
            except Exception:
                errclr()
                ok = False
            ctx.check(not ok, "invalid-reference-accepted:" + how, lambda: self.show(p.name, str(v)))
            v = None
        self.log.append(("bad", how, n.id[:10], p.name))
        ctx.note("rejected " + how)

    def resync(self, n, p, size):
        """After a failing array assignment: what is there now?  (counts must still be right)"""
        i = [k for k, q in enumerate(E[n.kind].props) if q is p][0]
        a = C.dlite_instance_get_property_by_index(n.ptr(), i)
        now = [c.cast(a, c.POINTER(c.c_void_p))[k] for k in range(size)]
        n.slots[p.name] = [S.s_uuid(q).decode() if q else None for q in now]

    def handle(self):
        """New handle or release of one."""
        rng, ctx = self.rng, self.ctx
        held = self.held()
        if not held:
            return
        n = rng.choice(held)
        r = rng.random()
        if r < .25:
            n.py.append(dlite.get_instance(n.uuid, check_storages=False))
        elif r < .35:
            C.dlite_instance_incref(n.ptr())
            n.c.append(n.ptr())
        elif r < .55:
            # through a reference
            for p in [p for i, p in PROPS(n.kind)]:
                ts = [(k, t) for k, t in enumerate(n.slots[p.name]) if t]
                if ts and n.py:
                    k, t = rng.choice(ts)
                    v = n.py[0][p.name]
                    if p.shape:
                        v = np.ravel(v)[k]
                    if ctx.check(v is not None and v.uuid == t, "read-reference", lambda: self.show(p.name)):
                        self.nodes[t].py.append(v)
                    v = None
                    break
        elif n.c and (r < .7 or not n.py):
            C.dlite_instance_decref(n.c.pop())
        else:
            n.py.pop(rng.randrange(len(n.py)))
        n = held = None
        self.log.append(("handle", round(r, 2)))

    def resize(self):
        rng, ctx = self.rng, self.ctx
        if not self.held():
            return
        n = rng.choice(self.held())
        dims = [rng.choice([0, 1, 2, 3, 4]) if rng.random() < .6 else d for d in n.dims]
        r = fn("dlite_instance_set_dimension_sizes", c.c_int, c.c_void_p, c.POINTER(c.c_int))(n.ptr(), (c.c_int * len(dims))(*dims))
        ctx.eq(r, 0, "resize", lambda: self.show())
        errclr()
        for i, p in PROPS(n.kind):
            old, new = E[n.kind].shape_of(p, n.dims), E[n.kind].shape_of(p, dims)
            # how elements are placed is P04's business: read them back, the counts must agree
            a = C.dlite_instance_get_property_by_index(n.ptr(), i)
            if p.shape:
                size = gen.prod(new)
                now = [c.cast(a, c.POINTER(c.c_void_p))[k] for k in range(size)]
                got = [S.s_uuid(q).decode() if q else None for q in now]
                if len(new) == 1:
                    k = min(old[0], new[0])
                    ctx.eq(got, n.slots[p.name][:k] + [None] * (new[0] - k), "resized-references", lambda: self.show(p.name, old, new))
                n.slots[p.name] = got
        n.dims = dims
        self.log.append(("resize", n.id[:10], dims))

    def copy(self):
        rng = self.rng
        if not self.held():
            return
        n = rng.choice(self.held())
        if not n.py:
            return
        inst = n.py[0].copy()
        m = Node(n.kind, n.dims, inst.uuid, inst.uuid, n.v)
        m.slots = {k: list(v) for k, v in n.slots.items()}
        m.py.append(inst)
        self.nodes[m.uuid] = m
        self.log.append(("copy", n.id[:10]))

    # ---- judging ---------------------------------------------------------------------------
    def sweep(self):
        """Nodes without any reference are gone (also recursively)."""
        while True:
            cnt = self.counts()
            dead = [u for u in self.nodes if cnt[u] == 0]
            if not dead:
                return cnt
            for u in dead:
                del self.nodes[u]
                self.dead.append(u)

    def counts(self):
        cnt = {u: n.handles() for u, n in self.nodes.items()}
        for n in self.nodes.values():
            for v in n.slots.values():
                for t in v:
                    if t:
                        cnt[t] += 1
        return cnt

    def verify(self, deep=False):
        ctx = self.ctx
        gc.collect()
        cnt = self.sweep()
        for u, n in self.nodes.items():
            q = C.dlite_instance_get(u.encode()) if dlite.has_instance(u, check_storages=False) else None
            if not ctx.check(q, "target-released-too-early", lambda: self.show(n.id)):
                raise RuntimeError("state lost")
            ctx.eq(S.s_refcount(q) - 1, cnt[u], "reference-count", lambda: self.show(n.id, n.slots))
            if deep or self.rng.random() < .3:
                for i, p in PROPS(n.kind):
                    a = C.dlite_instance_get_property_by_index(q, i)
                    size = len(n.slots[p.name])
                    now = [c.cast(a, c.POINTER(c.c_void_p))[k] for k in range(size)]
                    ctx.eq([S.s_uuid(x).decode() if x else None for x in now], n.slots[p.name], "references", lambda: self.show(n.id, p.name))
                ctx.eq(c.cast(C.dlite_instance_get_property(q, b"v"), c.POINTER(c.c_int64))[0], n.v, "content-of-target")
            C.dlite_instance_decref(q)
        for u in self.dead:
            ctx.check(not dlite.has_instance(u, check_storages=False), "not-released", lambda: self.show(u))
        self.dead = self.dead[-20:]
        errclr()

    def cyclic(self):
        color = {}

        def visit(u):
            color[u] = 1
            for v in self.nodes[u].slots.values():
                for t in v:
                    if t and (color.get(t) == 1 or (t not in color and visit(t))):
                        return True
            color[u] = 2
            return False
        return any(visit(u) for u in list(self.nodes) if u not in color)

    def destroy(self):
        """Break all references, release everything."""
        for n in self.nodes.values():
            n.c.append(C.dlite_instance_get(n.uuid.encode()))
        for n in list(self.nodes.values()):
            q = n.c[-1]
            for i, p in PROPS(n.kind):
                size = len(n.slots[p.name])
                z = (c.c_void_p * max(size, 1))()
                C.dlite_instance_set_property_by_index(q, i, c.addressof(z))
                n.slots[p.name] = [None] * size
        for n in list(self.nodes.values()):
            n.py.clear()
            while n.c:
                C.dlite_instance_decref(n.c.pop())
        n = None
        self.verify()
        self.ctx.eq(len(self.nodes), 0, "all-released")


def g_history(ctx, i, rng):
    g = Graph(ctx, rng)
    for _ in range(rng.choice([2, 4, 6])):
        g.add()
    for k in range(rng.choice([20, 40, 80])):
        r = rng.random()
        (g.add if r < .08 else g.assign if r < .5 else g.handle if r < .7 else g.resize if r < .82 else g.copy if r < .87 else g.bad)()
        g.verify()
    ctx.sig("history", len(g.nodes), g.cyclic())
    g.verify(True)
    g.destroy()


DRV = {"json": "json", "yaml": "yaml", "bson": "bson"}


def g_store(ctx, i, rng):
    """Graphs survive being stored and loaded, in any order."""
    drv = list(DRV)[i % 3]
    g = Graph(ctx, rng, acyclic=rng.random() < .5)
    for _ in range(rng.choice([2, 4, 7, 10])):
        g.add()
    for _ in range(rng.choice([5, 20, 40])):
        g.assign()
    g.verify(True)
    d = tempfile.mkdtemp(dir=ctx.work)
    nodes = list(g.nodes.values())
    ctx.note("cyclic" if g.cyclic() else "acyclic")
    for n in nodes:
        if not n.py:
            n.py.append(dlite.get_instance(n.uuid))
    # one or several files
    nf = rng.choice([1, 1, 2])
    where = {n.uuid: "%s/f%d.%s" % (d, rng.randrange(nf), drv) for n in nodes}
    for loc in sorted(set(where.values())):
        s = dlite.Storage(drv, loc, "mode=w")
        for n in rng.sample(nodes, len(nodes)):
            if where[n.uuid] == loc:
                s.save(n.py[0])
        del s
    saved = {n.uuid: (n.kind, list(n.dims), {k: list(v) for k, v in n.slots.items()}, n.v, n.id) for n in nodes}
    n = nodes = None
    gc.collect()
    g.destroy()
    for u in saved:
        ctx.check(not dlite.has_instance(u, check_storages=False), "left-after-saving")
    g.dead = []
    SP = dlite.storage_path
    while len(SP):
        del SP[0]
    opened = []
    how = rng.choice(["open", "path", "mixed"])
    for k, loc in enumerate(sorted(set(where.values()))):
        if how == "open" or (how == "mixed" and k == 0):
            opened.append((loc, dlite.Storage(drv, loc, "mode=r")))
        else:
            SP.append(loc)
    handles = []
    g.log.append(("stored", drv, how, nf))
    for u in rng.sample(list(saved), rng.randint(1, len(saved))):
        st = dict(opened).get(where[u])
        try:
            inst = st.load(u) if st and rng.random() < .5 else dlite.get_instance(u)
        except Exception as ex:
            errclr()
            ctx.fail("not-loaded:" + drv, g.show(u, saved[u], str(ex)[-500:]))
            return
        st = None
        if u not in g.nodes:
            # everything reachable is loaded too
            todo = [u]
            while todo:
                x = todo.pop()
                if x in g.nodes:
                    continue
                kind, dims, slots, v, id = saved[x]
                m = Node(kind, dims, id, x, v)
                m.slots = {k: list(v) for k, v in slots.items()}
                g.nodes[x] = m
                g.dead = [y for y in g.dead if y != x]
                todo += [t for v in slots.values() for t in v if t]
        g.nodes[u].py.append(inst)
        inst = None
        g.verify(True)
        ctx.eq(list(g.nodes[u].py[0].dimensions.values()), g.nodes[u].dims, "dimensions:" + drv)
        if rng.random() < .3:
            g.handle()
            g.verify()
    opened = st = None
    while len(SP):
        del SP[0]
    ctx.sig("store", drv, how, nf, len(saved), g.acyclic)
    ctx.note("stored " + drv)
    g.verify(True)
    g.destroy()
    shutil.rmtree(d)


def g_dangling(ctx, i, rng):
    """Loading an instance that refers to something unavailable is an error that leaves nothing behind."""
    drv = list(DRV)[i % 3]
    g = Graph(ctx, rng, acyclic=True)
    for _ in range(4):
        g.add()
    for _ in range(20):
        g.assign()
    nodes = list(g.nodes.values())
    d = tempfile.mkdtemp(dir=ctx.work)
    loc = "%s/f.%s" % (d, drv)
    missing = rng.choice(nodes).uuid
    s = dlite.Storage(drv, loc, "mode=w")
    for n in nodes:
        if not n.py:
            n.py.append(dlite.get_instance(n.uuid))
        if n.uuid != missing:
            s.save(n.py[0])
    s = n = None
    if missing and len(nodes) == 1:
        return
    saved = {n.uuid: [t for v in n.slots.values() for t in v if t] for n in nodes}
    nodes = None
    gc.collect()
    g.destroy()

    def needs(u):
        return u == missing or any(needs(t) for t in saved[u])
    s = dlite.Storage(drv, loc, "mode=r")
    for u in rng.sample(list(saved), len(saved)):
        try:
            inst = s.load(u)
        except Exception:
            inst = None
        errclr()
        ctx.eq(inst is not None, not needs(u), "load-with-missing-target:" + drv, lambda: g.show(u == missing))
        inst = None
        gc.collect()
        left = [x for x in saved if dlite.has_instance(x, check_storages=False)]
        ctx.eq(left, [], "left-after-failed-load:" + drv, lambda: g.show(u, missing))
        if left:
            return
    s = None
    ctx.sig("dangling", drv, sum(needs(u) for u in saved))
    shutil.rmtree(d)


GROUPS = [("history", g_history, 200, 5000), ("store", g_store, 150, 3000), ("dangling", g_dangling, 60, 1200)]
