"""P07: snapshots are immutable, ordered and verifiable."""
import ctypes as c, gc, json, os
try:
    import numpy as np
except ImportError:        # the runner only reads GROUPS
    np = None
from dl import *
import gen
from gen import Prop, prod, rels

RULE = "distinct (operation, chain length, place in the chain, outcome) observations"
P = c.c_void_p


def setup():
    global dlite
    quiet()
    import dlite


def hash_of(inst):
    h = mem(32)
    assert C.dlite_instance_get_hash(inst, h.p, 32) == 0
    return h.raw


class Chain:
    """Model of an instance with its ancestors; content of node 0 is the present one."""

    def __init__(self, ptr, e, dims, vals):
        self.ptr, self.e = ptr, e
        self.nodes = [(list(dims), list(vals))]         # newest first
        self.up = []                                    # pointers of the ancestors, newest first

    def verify(self, ctx, where):
        n = len(self.nodes)
        for k in range(n):
            q = C.dlite_instance_get_snapshot(self.ptr, k)
            if not ctx.check(q, "no-snapshot", (where, k, n, C.dlite_errmsg())):
                errclr()
                return
            dims, vals = self.nodes[k]
            if k:
                ctx.eq(q, self.up[k-1], "snapshot-identity", (where, k))
                ctx.check(C.dlite_instance_is_frozen(q), "snapshot-not-frozen", (where, k))
            ctx.eq([S.s_dim(q, j) for j in range(len(dims))], dims, "snapshot-dims", (where, k, n))
            got = gen.read_all(q, self.e)
            ctx.check(gen.same(got, vals), "snapshot-content", lambda: (where, k, n, got, vals))
            ctx.eq(C.dlite_instance_has_parent(q), int(k < n - 1), "has-parent", (where, k, n))
            ctx.eq(S.s_parent_uuid(q), S.s_uuid(self.up[k]) if k < n - 1 else None, "parent-uuid", (where, k, n))
            if k < n - 1:
                ctx.eq(c.string_at(S.s_parent_hash(q), 32), hash_of(self.up[k]), "parent-hash", (where, k, n))
        for bad in (n, n + 3, -1):
            ctx.eq(C.dlite_instance_get_snapshot(self.ptr, bad), None, "too-old-snapshot", (where, bad, n))
            ctx.check(errval() != 0, "too-old-silent", bad)
            errclr()
        ctx.eq(C.dlite_instance_verify_transaction(self.ptr), 0, "verify", lambda: (where, n, C.dlite_errmsg()))
        errclr()


def frozen_ops(ctx, rng, q, e, dims, vals, where):
    """All modifications of a frozen instance are rejected and change nothing."""
    h = hash_of(q)
    k = rng.randrange(len(e.props))
    p = e.props[k]
    new = [gen.rand_value(rng, p.dtype, p.size) for _ in vals[k]] if p.shape else gen.rand_value(rng, p.dtype, p.size)
    other = C.dlite_instance_copy(q, None)
    C.dlite_instance_freeze(other)
    sz = mem(b"\0" * 64)
    ops = dict(
        set=lambda: gen.set_prop(q, k, p, new, None),
        setname=lambda: C.dlite_instance_set_property(q, p.name.encode(),
                                                      C.dlite_instance_get_property_by_index(other, k) or sz.p),
        parent=lambda: C.dlite_instance_set_parent(q, other),
        snapshot=lambda: C.dlite_instance_snapshot(q),
        assign=lambda: C.dlite_instance_assign_property(q, p.name.encode(), ord("C"),
                                                        C.dlite_instance_get_property_by_index(other, k) or sz.p),
        scan=lambda: 0 if C.dlite_instance_scan_property(b"[]" if p.shape else b"1", q, p.name.encode(), 0) > 0 else 1)
    if p.shape:
        # reading in place is not a set operation
        ops.pop("scan")
    if dims:
        j = rng.randrange(len(dims))
        ops["resize"] = lambda: C.dlite_instance_set_dimension_size_by_index(q, j, dims[j] + 1)
        ops["resize-all"] = lambda: C.dlite_instance_set_dimension_sizes(q, (c.c_int * len(dims))(*[d+1 for d in dims]))
        ops["resize-name"] = lambda: C.dlite_instance_set_dimension_size(q, e.dims[j].encode(), 0)
    for name in rng.sample(sorted(ops), min(5, len(ops))):
        if name == "scan":
            continue
        r = ops[name]()
        ctx.check(r != 0, "frozen-accepts:" + name, (where, p.tname, p.shape))
        ctx.check(errval() != 0, "frozen-silent:" + name, where)
        errclr()
        ctx.eq(hash_of(q), h, "frozen-changed:" + name, (where, p.tname))
        ctx.sig("frozen", name, where)
    ctx.check(gen.same(gen.read_all(q, e), vals), "frozen-content", where)
    C.dlite_instance_decref(other)


def tamper(ctx, rng, ch, k):
    """Direct change of the memory of ancestor k; returns an undo function or None."""
    q = ch.up[k-1]
    cand = [j for j, p in enumerate(ch.e.props) if p.dtype in (INT, UINT, FLOAT, BLOB) and
            (not p.shape or ch.nodes[k][1][j])]
    if not cand:
        return None
    j = rng.choice(cand)
    p = ch.e.props[j]
    n = p.size * (len(ch.nodes[k][1][j]) if p.shape else 1)
    a = C.dlite_instance_get_property_by_index(q, j) + rng.randrange(n)
    bit = 1 << rng.randrange(8)
    c.c_uint8.from_address(a).value ^= bit

    def undo():
        c.c_uint8.from_address(a).value ^= bit
    return undo


def g_history(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=4)
    if not any(p.dtype in (INT, FLOAT) and not p.shape for p in e.props):
        e.props.append(Prop("num_b", "int32", INT, 4))
    meta = gen.c_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims)
    iid = rng.choice([None, "trans-" + gen.ident(rng, 12), "http://onto-ns.com/data/" + gen.ident(rng, 12)])
    inst = gen.c_instance(meta, dims, iid)
    gen.fill(inst, e, vals)
    main = Chain(inst, e, dims, vals)
    chains = [main]
    owned = []
    for step in range(rng.randint(5, 18)):
        k = rng.randrange(9)
        ch = rng.choice(chains)
        dims, vals = ch.nodes[0]
        where = "edit"
        if k < 2:
            j = rng.randrange(len(e.props))
            p = e.props[j]
            v = [gen.rand_value(rng, p.dtype, p.size) for _ in vals[j]] if p.shape else \
                gen.rand_value(rng, p.dtype, p.size)
            ctx.eq(gen.set_prop(ch.ptr, j, p, v, None), 0, "edit", C.dlite_errmsg())
            ch.nodes[0] = (dims, vals[:j] + [v] + vals[j+1:])
        elif k == 2 and dims:
            nd = [rng.choice([0, 1, 2, 3]) for _ in dims]
            ctx.eq(C.dlite_instance_set_dimension_sizes(ch.ptr, (c.c_int * len(nd))(*nd)), 0, "resize")
            nv = [(list(v) + [gen.zero_value(p.dtype, p.size)]*500)[:prod(e.shape_of(p, nd))] if p.shape else v
                  for p, v in zip(e.props, vals)]
            ch.nodes[0] = (nd, nv)
            where = "resize"
        elif k in (3, 4, 5):
            r0 = S.s_refcount(ch.ptr)
            ctx.eq(C.dlite_instance_snapshot(ch.ptr), 0, "snapshot", C.dlite_errmsg())
            ctx.eq(S.s_refcount(ch.ptr), r0, "snapshot-refcount")
            par = S.s_parent(ch.ptr)
            ctx.check(par and par not in ch.up, "snapshot-new", len(ch.up))
            ctx.eq(S.s_refcount(par), 1, "snapshot-owned")
            ctx.check(not C.dlite_instance_is_frozen(ch.ptr), "still-editable")
            uri = S.s_uri(par) or b""
            base = (S.s_uri(ch.ptr) or S.s_uuid(ch.ptr)).split(b"#")[0]
            ctx.check(uri.startswith(base + b"#snapshot-") and len(uri) == len(base) + 22, "snapshot-uri", uri)
            ch.nodes.insert(0, (list(dims), list(vals)))
            ch.up.insert(0, par)
            where = "snapshot"
        elif k == 6 and len(chains) < 3:
            # a branch: a copy with an ancestor as parent
            n = C.dlite_instance_copy(ch.ptr, rng.choice([None, b"branch-" + gen.ident(rng, 12).encode()]))
            b = Chain(n, e, *ch.nodes[0])
            b.nodes, b.up = list(ch.nodes), list(ch.up)
            if ch.up and rng.random() < .7:
                j = rng.randrange(len(ch.up))
                r = S.s_refcount(ch.up[j])
                ctx.eq(C.dlite_instance_set_parent(n, ch.up[j]), 0, "set-parent")
                ctx.eq(S.s_refcount(ch.up[j]), r + 1 - (j == 0), "set-parent-refcount", (j, len(ch.up)))
                b.nodes, b.up = [ch.nodes[0]] + ch.nodes[j+1:], ch.up[j:]
            chains.append(b)
            where = "branch"
        elif k == 7 and ch.up:
            j = rng.randrange(len(ch.up))
            undo = tamper(ctx, rng, ch, j + 1)
            if undo:
                ctx.check(C.dlite_instance_verify_transaction(ch.ptr) != 0, "tampering-unnoticed",
                          lambda: (j, len(ch.up)))
                ctx.check(errval() != 0, "tampering-silent")
                errclr()
                # only the direct parent is included without recursion
                r = C.dlite_instance_verify_hash(ch.ptr, None, 0)
                ctx.eq(bool(r), j == 0, "verify-parent-only", (j, len(ch.up)))
                errclr()
                undo()
                ctx.sig("tamper", j, len(ch.up))
            where = "tamper"
        elif k == 8:
            # mutable instances cannot be parents
            m = C.dlite_instance_copy(ch.ptr, None)
            if rng.random() < .5:
                r, r2 = S.s_refcount(m), S.s_parent(ch.ptr)
                ctx.check(C.dlite_instance_set_parent(ch.ptr, m) != 0, "mutable-parent")
                ctx.check(errval() != 0, "mutable-parent-silent")
                errclr()
                ctx.eq((S.s_refcount(m), S.s_parent(ch.ptr)), (r, r2), "mutable-parent-effect")
            else:
                C.dlite_instance_freeze(m)
                frozen_ops(ctx, rng, m, e, *ch.nodes[0], "frozen")
            C.dlite_instance_decref(m)
            where = "reject"
        if ch.up and rng.random() < .3:
            j = rng.randrange(len(ch.up))
            frozen_ops(ctx, rng, ch.up[j], e, *ch.nodes[j+1], "ancestor")
        ctx.sig(where, len(ch.up), len(chains))
        for x in chains:
            x.verify(ctx, where)
    # release: ancestors live as long as something refers to them
    rng.shuffle(chains)
    ids = {S.s_uuid(u).decode(): u for x in chains for u in x.up}
    while chains:
        x = chains.pop()
        C.dlite_instance_decref(x.ptr)
        left = {S.s_uuid(u).decode() for y in chains for u in y.up}
        for u, q in ids.items():
            ctx.eq(C.dlite_instance_has(u.encode(), False), q if u in left else None, "ancestor-lifetime", u in left)
        for y in chains:
            y.verify(ctx, "release")
    C.dlite_meta_decref(meta)
    errclr()


# ---- storages ------------------------------------------------------------------------------------
def g_push(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=3, kinds="niufsS")
    meta = gen.c_meta(e)
    dims = [rng.choice([1, 2]) for _ in e.dims]
    vals = gen.rand_values(rng, e, dims, special=False)
    inst = gen.c_instance(meta, dims, "push-" + gen.ident(rng, 12))
    gen.fill(inst, e, vals)
    ch = Chain(inst, e, dims, vals)
    N = rng.randint(1, 5)
    for _ in range(N):
        C.dlite_instance_snapshot(inst)
        vals = gen.rand_values(rng, e, dims, special=False)
        gen.fill(inst, e, vals)
        ch.up.insert(0, S.s_parent(inst))
        ch.nodes.insert(0, (dims, vals))
    path = os.path.join(ctx.work, "push%d.json" % i)
    s = C.dlite_storage_open(b"json", path.encode(), b"mode=w")
    n = rng.randint(0, N + 1)
    # not supported by the storage: nothing happens
    ctx.check(C.dlite_instance_push_snapshot(inst, s, n) != 0, "push-unsupported", n)
    ctx.eq(C.dlite_instance_pull_snapshot(inst, s, 1), None, "pull-unsupported")
    ctx.check(errval() != 0, "push-unsupported-silent")
    errclr()
    ch.verify(ctx, "unsupported")
    uu = [S.s_uuid(u) for u in ch.up]
    hashes = [hash_of(u) for u in ch.up]
    S.st_set_transaction(s)
    ctx.eq(C.dlite_instance_pull_snapshot(inst, s, N), ch.up[-1], "pull-in-memory")
    ctx.eq(C.dlite_instance_pull_snapshot(inst, s, 0), inst, "pull-0")
    ctx.eq(C.dlite_instance_push_snapshot(inst, s, n), 0, "push", (n, N, C.dlite_errmsg()))
    errclr()
    # ancestors up to n remain in memory, the older ones are in the storage
    for k in range(1, N + 1):
        here = C.dlite_instance_has(uu[k-1], False)
        ctx.eq(here, ch.up[k-1] if k <= n else None, "pushed", (k, n, N))
    for k in range(0, min(n, N) + 1):
        q = C.dlite_instance_get_snapshot(inst, k)
        if ctx.check(q, "kept-snapshot", (k, n, N)):
            ctx.check(gen.same(gen.read_all(q, e), ch.nodes[k][1]), "kept-content", (k, n, N))
    if n < N:
        ctx.check(C.dlite_instance_verify_transaction(inst) != 0, "missing-ancestor-verifies", (n, N))
        ctx.check(errval() != 0, "missing-ancestor-silent")
        errclr()
        ctx.eq(C.dlite_instance_get_snapshot(inst, n + 1), None, "missing-snapshot")
        errclr()
    else:
        ctx.eq(C.dlite_instance_verify_transaction(inst), 0, "verify-kept")
    q = C.dlite_instance_push_snapshot(inst, s, n)
    ctx.eq(q, 0, "push-again")
    C.dlite_storage_close(s)
    d = json.load(open(path)) if os.path.exists(path) else {}
    ctx.eq(sorted(d), sorted(u.decode() for u in uu[n:]), "pushed-to-storage", (n, N))
    for k in range(n + 1, N + 1):
        rec = d.get(uu[k-1].decode(), {})
        par = rec.get("parent")
        ctx.eq(par, {"uuid": uu[k].decode(), "hash": hashes[k].hex()} if k < N else None, "stored-parent", (k, n, N))
    # pulled back
    if n < N:
        s = C.dlite_storage_open(b"json", path.encode(), b"mode=r")
        S.st_set_transaction(s)
        q = C.dlite_instance_pull_snapshot(inst, s, n + 1)
        if ctx.check(q, "pull", (n, N, C.dlite_errmsg())):
            ctx.eq(S.s_uuid(q), uu[n], "pulled-identity")
            ctx.check(gen.same(gen.read_all(q, e), ch.nodes[n+1][1]), "pulled-content", (n, N))
        C.dlite_storage_close(s)
    errclr()
    ctx.sig("push", n, N)
    C.dlite_instance_decref(inst)
    for u in uu:
        ctx.eq(C.dlite_instance_has(u, False), None, "released", n)
    C.dlite_meta_decref(meta)


# ---- the stored parent hash is exact -------------------------------------------------------------
def g_hash(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=3)
    meta = gen.c_meta(e)
    dims = [1] * len(e.dims)
    a = gen.c_instance(meta, dims)
    gen.fill(a, e, gen.rand_values(rng, e, dims))
    n = rng.randint(1, 4)
    for _ in range(n):
        C.dlite_instance_snapshot(a)
    # any change of a stored hash is noticed
    k = rng.randrange(n)
    q = C.dlite_instance_get_snapshot(a, k)
    p = S.s_parent_hash(q) + rng.randrange(32)
    bit = 1 << rng.randrange(8)
    c.c_uint8.from_address(p).value ^= bit
    ctx.check(C.dlite_instance_verify_transaction(a) != 0, "stored-hash-unnoticed", (k, n))
    errclr()
    c.c_uint8.from_address(p).value ^= bit
    ctx.eq(C.dlite_instance_verify_transaction(a), 0, "verify-restored")
    h = mem(hash_of(a))
    for rec in (0, 1):
        ctx.eq(C.dlite_instance_verify_hash(a, h.p, rec), 0, "verify-hash", rec)
    c.c_uint8.from_address(h.p + rng.randrange(32)).value ^= bit
    for rec in (0, 1):
        ctx.check(C.dlite_instance_verify_hash(a, h.p, rec) != 0, "wrong-hash-verifies", rec)
        errclr()
    ctx.sig("hash", k, n)
    C.dlite_instance_decref(a)
    C.dlite_meta_decref(meta)


# ---- Python, including collections ---------------------------------------------------------------
def g_py(ctx, i, rng):
    e = gen.rand_entity(rng, maxprops=4, kinds="niufsS")
    e.props.append(Prop("num_b", "int32", INT, 4))
    meta = gen.py_meta(e)
    dims = [rng.choice([1, 2, 3]) for _ in e.dims]
    a = meta(dims, id=rng.choice([None, "pytr-" + gen.ident(rng, 12)]))
    vals = gen.rand_values(rng, e, dims, null_ok=False)
    gen.fill(gen.ptr(a), e, vals)
    hist = []
    n = rng.randint(1, 6)
    for k in range(n):
        hist.insert(0, (list(vals), a.get_hash()))
        a.snapshot()
        j = rng.randrange(len(e.props))
        p = e.props[j]
        vals[j] = [gen.rand_value(rng, p.dtype, p.size, null_ok=False) for _ in vals[j]] if p.shape else \
            gen.rand_value(rng, p.dtype, p.size, null_ok=False)
        if rng.random() < .5:
            a[p.name] = gen.nest(vals[j], e.shape_of(p, dims)) if p.shape else vals[j]
        else:
            gen.set_prop(gen.ptr(a), j, p, vals[j], None)
        for m in range(k + 2):
            s = a.get_snapshot(m)
            want = vals if m == 0 else hist[m-1][0]
            ctx.check(gen.same(gen.read_all(gen.ptr(s), e), want), "py-snapshot", (m, k))
            ctx.eq(s.is_frozen(), m > 0, "py-frozen", (m, k))
            if m:
                ctx.eq(s.get_hash(), hist[m-1][1], "py-snapshot-hash", (m, k))
        ctx.eq(a._get_parent_uuid(), a.get_snapshot(1).uuid, "py-parent-uuid")
        ctx.eq(a._get_parent_hash(), hist[0][1], "py-parent-hash")
        a.verify_transaction()
    s = a.get_snapshot(rng.randint(1, n))
    want = gen.read_all(gen.ptr(s), e)
    for p in e.props:
        v = s[p.name]
        attempts = [lambda: setattr(s, p.name, getattr(a, p.name)), lambda: s.set_property(p.name, getattr(a, p.name)),
                    lambda: s.__setitem__(p.name, getattr(a, p.name))]
        if p.shape:
            attempts += [lambda: v.__setitem__((0,) * len(p.shape), v.flat[0]),
                         lambda: s.get_property(p.name).__setitem__((0,) * len(p.shape), v.flat[0]),
                         lambda: s.get_property_by_index(e.props.index(p)).__setitem__((0,) * len(p.shape), v.flat[0]),
                         lambda: s.properties[p.name].__setitem__((0,) * len(p.shape), v.flat[0])]
        for x, f in enumerate(attempts):
            try:
                f()
                ctx.fail("py-frozen-accepts", (p.tname, p.shape, x))
            except (dlite.DLiteError, ValueError):
                ctx.events += 1
            errclr()
        ctx.sig("py-frozen", p.tname, len(p.shape))
    if dims:
        for f in (lambda: s.set_dimension_size_by_index(0, 7), lambda: s.set_dimension_sizes([7]*len(dims))):
            try:
                f()
                ctx.fail("py-frozen-resize", dims)
            except dlite.DLiteError:
                ctx.events += 1
            except AttributeError:
                pass
            errclr()
    for f in (s.snapshot, lambda: s.set_parent(a.get_snapshot(1)), lambda: a.set_parent(a), lambda: a.get_snapshot(n+1)):
        try:
            f()
            ctx.fail("py-reject", f)
        except dlite.DLiteError:
            ctx.events += 1
        errclr()
    ctx.check(gen.same(gen.read_all(gen.ptr(s), e), want), "py-frozen-content", e.uri)
    a.verify_transaction()
    # snapshots are independent of the instance
    keep = a.get_snapshot(n)
    del a, s
    gc.collect()
    ctx.check(gen.same(gen.read_all(gen.ptr(keep), e), hist[-1][0]), "py-oldest", n)
    ctx.sig("py", n)


def g_collection(ctx, i, rng):
    e = gen.rand_entity(rng, maxdims=0, maxprops=2, kinds="if")
    meta = gen.py_meta(e)
    insts = [meta([], id="cmember-" + gen.ident(rng, 12)) for _ in range(2)]
    coll = dlite.Collection(rng.choice([None, "tcoll-" + gen.ident(rng, 12)]))
    hist = []
    for k in range(rng.randint(1, 5)):
        for _ in range(rng.randint(0, 3)):
            x = rng.randrange(4)
            if x < 2:
                coll.add_relation("s" + gen.ident(rng, 4), "p", "o" + gen.ident(rng, 3), rng.choice([None, "xsd:int"]))
            elif x == 2:
                coll.add("l" + gen.ident(rng, 5), rng.choice(insts))
            elif len(list(coll.get_labels())):
                coll.remove(rng.choice(sorted(coll.get_labels())))
        hist.insert(0, (rels(coll), coll.get_hash()))
        coll.snapshot()
        coll.add_relation("extra", "n", str(k))
        for m in range(1, k + 2):
            s = dlite.instance_cast(coll.get_snapshot(m))
            ctx.eq(rels(s), hist[m-1][0], "collection-snapshot", (m, k))
            ctx.eq(s.get_hash(), hist[m-1][1], "collection-snapshot-hash", (m, k))
        coll.verify_transaction()
        ctx.sig("collection", k, len(hist[0][0]))
    s = dlite.instance_cast(coll.get_snapshot(rng.randint(1, len(hist))))
    before = rels(s), s.get_hash()
    ops = [lambda: s.add_relation("a", "b", "c"), lambda: s.add("newlabel", insts[0]),
           lambda: s.set_property("relations", [("a", "b", "c", None)])]
    if before[0]:
        ops.append(lambda: s.remove_relations(before[0][0][0], None, None))
    labs = sorted(s.get_labels())
    if labs:
        ops.append(lambda: s.remove(labs[0]))
    rc = [x._refcount for x in insts]
    for k, f in enumerate(ops):
        try:
            f()
            ctx.fail("frozen-collection-accepts", k)
        except dlite.DLiteError:
            ctx.events += 1
        errclr()
        ctx.eq((rels(s), s.get_hash()), before, "frozen-collection-changed", k)
    gc.collect()
    ctx.eq([x._refcount for x in insts], rc, "frozen-collection-refcount")
    coll.verify_transaction()
    # the members take part in the verification
    hv = [k for k, (r, _) in enumerate(hist) if any(x[1] == "_has-uuid" for x in r)]
    if hv:
        uuid = [x[2] for x in hist[hv[0]][0] if x[1] == "_has-uuid"][0]
        m = [x for x in insts if x.uuid == uuid][0]
        num = e.props[0]
        ptr = C.dlite_instance_get_property_by_index(gen.ptr(m), 0)
        c.c_uint8.from_address(ptr).value ^= 1
        try:
            coll.verify_transaction()
            ctx.fail("changed-member-verifies", num.tname)
        except dlite.DLiteError:
            ctx.events += 1
        errclr()
        c.c_uint8.from_address(ptr).value ^= 1
        coll.verify_transaction()


GROUPS = [("history", g_history, 300, 6000), ("push", g_push, 80, 1500), ("hash", g_hash, 80, 1500),
          ("py", g_py, 120, 2500), ("collection", g_collection, 80, 1500)]
