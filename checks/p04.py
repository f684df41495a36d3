"""P04: property values read back exactly as written, also across resizing."""
import ctypes as c, json
from dl import *
import gen
from gen import prod, same

RULE = "distinct (operation, dtype, rank, size-change class, outcome) observed"
INTMAX = 2**31 - 1


def setup():
    quiet()
    S.hook_install()


class Model:
    def __init__(self, e, dims, values):
        self.e, self.dims, self.values = e, list(dims), values
        self.frozen = False

    def shapes(self, k):
        return self.e.shape_of(self.e.props[k], self.dims)

    def resize(self, newdims):
        nd = [o if n < 0 else n for o, n in zip(self.dims, newdims)]
        for k, p in enumerate(self.e.props):
            if p.shape:
                n = prod(self.e.shape_of(p, nd))
                old = self.values[k]
                self.values[k] = old[:n] + [gen.zero_value(p.dtype, p.size)] * (n - len(old))
        self.dims = nd


def compare(ctx, inst, m, where):
    e = m.e
    ok = ctx.eq([S.s_dim(inst, i) for i in range(len(e.dims))], m.dims, "dims", where)
    for k, p in enumerate(e.props):
        ok &= ctx.eq([S.s_prop_dim(inst, k, j) for j in range(len(p.shape))], m.shapes(k), "shape", (where, p.name))
        if not ok:
            return False
        got = gen.get_prop(inst, k, p)
        ok &= ctx.check(same(got, m.values[k]), "value",
                        lambda: "%s\nproperty %s %s %s\ngot  %.800r\nwant %.800r" % (
                            where, p.name, p.tname, p.shape, got, m.values[k]))
    return ok


def access(ctx, inst, m, rng, where):
    """Every public way of reading agrees with the model."""
    e = m.e
    ctx.eq(C.dlite_instance_get_ndimensions(inst), len(e.dims), "ndimensions", where)
    ctx.eq(C.dlite_instance_get_nproperties(inst), len(e.props), "nproperties", where)
    for i, d in enumerate(e.dims):
        ctx.eq(C.dlite_instance_get_dimension_size(inst, d.encode()), m.dims[i], "dimension-size", where)
        ctx.eq(C.dlite_instance_get_dimension_size_by_index(inst, i), m.dims[i], "dimension-size-by-index", where)
        ctx.eq(C.dlite_instance_has_dimension(inst, d.encode()), True, "has-dimension", where)
    for k, p in enumerate(e.props):
        nm = p.name.encode()
        shp = m.shapes(k)
        ctx.eq(C.dlite_instance_has_property(inst, nm), True, "has-property", where)
        a, b = C.dlite_instance_get_property(inst, nm), C.dlite_instance_get_property_by_index(inst, k)
        ctx.eq(a, b, "pointer-by-name", where)
        ctx.eq(C.dlite_instance_get_property_ndims(inst, nm), len(p.shape), "prop-ndims", where)
        ctx.eq(C.dlite_instance_get_property_ndims_by_index(inst, k), len(p.shape), "prop-ndims-by-index", where)
        for j in range(len(p.shape)):
            ctx.eq(C.dlite_instance_get_property_dimssize(inst, nm, j), shp[j], "prop-dimssize", where)
            ctx.eq(C.dlite_instance_get_property_shape_by_index(inst, k, j), shp[j], "prop-shape-by-index", where)
        if p.shape:
            q = C.dlite_instance_get_property_dims_by_index(inst, k)
            ctx.eq(list((c.c_size_t * len(shp)).from_address(q)), shp, "prop-dims-by-index", where)
            libc.free(q)
        if p.dtype != STRPTR:
            n = prod(shp) * p.size
            b = buf(n) if n else buf(1)
            ctx.eq(C.dlite_instance_copy_property(inst, nm, ord("C"), addr(b)), 0, "copy-property", where)
            raw = b.raw[:n]
            got = [gen.unpack(raw[i*p.size:(i+1)*p.size], p.dtype, p.size) for i in range(prod(shp))]
            ctx.check(same(got if p.shape else got[0], m.values[k]), "copy-property-value",
                      lambda: (where, p.name, p.tname, shp, got, m.values[k]))
            if len(shp) == 2 and n:
                b = buf(n)
                ctx.eq(C.dlite_instance_copy_property_by_index(inst, k, ord("F"), addr(b)), 0, "copy-property-F", where)
    errclr()


def do_set(ctx, inst, m, rng):
    e = m.e
    k = rng.randrange(len(e.props))
    p = e.props[k]
    n = prod(m.shapes(k))
    v = ([gen.rand_value(rng, p.dtype, p.size) for _ in range(n)] if p.shape
         else gen.rand_value(rng, p.dtype, p.size))
    how = rng.randrange(4)
    keep = []
    b = b"".join(gen.pack(x, p.dtype, p.size, keep) for x in (v if p.shape else [v]))
    a = buf(max(1, len(b)))
    c.memmove(a, b, len(b))
    if how == 0:
        r = C.dlite_instance_set_property(inst, p.name.encode(), addr(a))
    elif how == 1 and p.dtype != STRPTR:
        r = C.dlite_instance_assign_property(inst, p.name.encode(), ord("C"), addr(a))
    else:
        how = 2
        r = C.dlite_instance_set_property_by_index(inst, k, addr(a))
    ctx.eq(r, 0, "set-property", lambda: (p.name, p.tname, p.shape, C.dlite_errmsg()))
    ctx.sig("set", how, p.dtype, p.size, len(p.shape), n == 0)
    m.values[k] = v
    # the caller's buffers are no longer needed
    for x in keep + [a]:
        c.memset(x, 0x5a, len(x))


def do_cast_set(ctx, inst, m, rng):
    """Assignment with a type cast from another integer/float width."""
    e = m.e
    ks = [k for k, p in enumerate(e.props) if p.dtype in (INT, UINT, FLOAT)]
    if not ks:
        return
    k = rng.choice(ks)
    p = e.props[k]
    n = prod(m.shapes(k))
    vals = [rng.randint(0, 100) for _ in range(n)]
    dt, sz = rng.choice([(INT, 1), (INT, 4), (INT, 8), (UINT, 2), (UINT, 8), (FLOAT, 4), (FLOAT, 8)])
    b = b"".join(gen.pack(float(x) if dt == FLOAT else x, dt, sz, []) for x in vals)
    a = buf(max(1, len(b)))
    c.memmove(a, b, len(b))
    shp = m.shapes(k)
    r = C.dlite_instance_assign_casted_property_by_index(inst, k, dt, sz, szarr(shp) if shp else None, None, addr(a), None)
    ctx.eq(r, 0, "assign-casted", lambda: (p.tname, p.shape, shp, C.dlite_errmsg()))
    new = [float(x) if p.dtype == FLOAT else x for x in vals]
    m.values[k] = new if p.shape else new[0]
    b = buf(max(1, len(b)))
    r = C.dlite_instance_cast_property_by_index(inst, k, dt, sz, szarr(shp) if shp else None, None, addr(b), None)
    ctx.eq(r, 0, "cast-property", lambda: (p.tname, p.shape, shp, C.dlite_errmsg()))
    if n:
        ctx.eq(b.raw[:n*sz], a.raw[:n*sz], "cast-property-value")
    ctx.sig("assign-casted", p.dtype, p.size, dt, sz, len(p.shape))


def do_scan(ctx, inst, m, rng):
    """Printed text of a property scanned into it is the same value; new text sets it."""
    e = m.e
    ks = [k for k, p in enumerate(e.props) if p.dtype in (INT, UINT, BOOL, STRPTR, FIXSTR, BLOB)]
    if not ks:
        return
    k = rng.choice(ks)
    p = e.props[k]
    shp = m.shapes(k)
    if any(x == 0 for x in shp):
        return
    vals = [gen.rand_value(rng, p.dtype, p.size, null_ok=False, txt=gen.plain) for _ in range(prod(shp))]

    def js(v):
        return v.hex() if isinstance(v, bytes) else v
    if shp:
        txt = json.dumps(gen.nest([js(v) for v in vals], shp), ensure_ascii=False)
    else:
        v = js(vals[0])
        txt = v if isinstance(v, str) else json.dumps(v)
    flags = 0
    r = C.dlite_instance_scan_property(txt.encode(), inst, p.name.encode(), flags)
    ctx.eq(r, len(txt.encode()), "scan-property", lambda: (p.tname, p.shape, txt, C.dlite_errmsg()))
    m.values[k] = vals if p.shape else vals[0]
    ctx.sig("scan", p.dtype, len(p.shape))


def do_resize(ctx, inst, m, rng):
    e = m.e
    if not e.dims:
        return
    nd = [rng.choice([-1, -1, 0, 1, 2, 3, 4, 5, 7]) for _ in e.dims]
    how = rng.randrange(3)
    if how:
        i = rng.randrange(len(nd))
        nd = [(abs(v) if j == i else -1) for j, v in enumerate(nd)]
    cls = tuple(sorted((n > o) - (n < o) if n >= 0 else 9 for n, o in zip(nd, m.dims)))
    m0 = [prod(m.shapes(k)) for k in range(len(e.props))]
    if how == 0:
        r = C.dlite_instance_set_dimension_sizes(inst, (c.c_int * len(nd))(*nd))
    elif how == 1:
        r = C.dlite_instance_set_dimension_size(inst, e.dims[i].encode(), nd[i])
    else:
        r = C.dlite_instance_set_dimension_size_by_index(inst, i, nd[i])
    ctx.eq(r, 0, "resize", lambda: (nd, C.dlite_errmsg()))
    m.resize(nd)
    for k, p in enumerate(e.props):
        if p.shape:
            a, b = m0[k], prod(m.shapes(k))
            ctx.sig("resize", how, cls, p.dtype, len(p.shape), (b > a) - (b < a), a == 0, b == 0)


def do_bad(ctx, inst, m, rng):
    """Operations that must fail without effect (compared by the caller)."""
    e = m.e
    n, nd = len(e.props), len(e.dims)
    junk = buf(4096)
    ops = ["set-idx", "set-name", "get-idx", "get-name", "dim-name", "dim-idx", "set-dim-name", "set-dim-idx",
           "shape-idx", "scan-name", "scan-text", "huge", "ndims-idx", "dimssize"]
    op = rng.choice(ops)
    bad = rng.choice([n, n + 1, n + 1000, 2**31])
    name = rng.choice(e.props).name if e.props else "x"
    badname = rng.choice([name + "x", name[:-1] if name[:-1] not in [p.name for p in e.props] else name + "_", "",
                          name.swapcase() if name.swapcase() != name else name + "q"])
    if badname in [p.name for p in e.props]:
        badname = name + "__zz"
    errclr()
    if op == "set-idx":
        r = C.dlite_instance_set_property_by_index(inst, bad, addr(junk)) != 0
    elif op == "set-name":
        r = C.dlite_instance_set_property(inst, badname.encode(), addr(junk)) != 0
    elif op == "get-idx":
        r = C.dlite_instance_get_property_by_index(inst, bad) is None
    elif op == "get-name":
        r = C.dlite_instance_get_property(inst, badname.encode()) is None
        ctx.eq(C.dlite_instance_has_property(inst, badname.encode()), False, "has-unknown-property", badname)
    elif op == "dim-name":
        r = C.dlite_instance_get_dimension_size(inst, b"no such dim") < 0
        ctx.eq(C.dlite_instance_has_dimension(inst, b"no such dim"), False, "has-unknown-dimension")
    elif op == "dim-idx":
        C.dlite_instance_get_dimension_size_by_index(inst, nd + rng.choice([0, 1, 50]))
        r = errval() != 0
    elif op == "set-dim-name":
        r = C.dlite_instance_set_dimension_size(inst, b"no such dim", 2) != 0
    elif op == "set-dim-idx":
        r = C.dlite_instance_set_dimension_size_by_index(inst, nd + rng.choice([0, 1, 50]), 2) != 0
    elif op == "shape-idx":
        k = rng.randrange(n)
        r = C.dlite_instance_get_property_shape_by_index(inst, k, len(e.props[k].shape) + rng.choice([0, 1, 9])) < 0
    elif op == "ndims-idx":
        r = C.dlite_instance_get_property_ndims_by_index(inst, bad) < 0
    elif op == "dimssize":
        C.dlite_instance_get_property_dimssize(inst, badname.encode(), 0)
        r = errval() != 0
    elif op == "scan-name":
        r = C.dlite_instance_scan_property(b"1", inst, badname.encode(), 0) < 0
    elif op == "scan-text":
        ks = [k for k, p in enumerate(e.props) if not p.shape and p.dtype in (INT, UINT, FLOAT, BOOL)]
        if not ks:
            return
        k = rng.choice(ks)
        r = C.dlite_instance_scan_property(b"zyx", inst, e.props[k].name.encode(), 2) < 0
        op += str(e.props[k].dtype)
    elif op == "huge":
        ks = [k for k, p in enumerate(e.props) if any(d in " ".join(p.shape) for d in e.dims)]
        if not nd:
            return
        i = rng.randrange(nd)
        r = C.dlite_instance_set_dimension_size_by_index(inst, i, rng.choice([2**31, 2**32 - 1, 2**32 + 3])) != 0
    ctx.check(r, "no-error:" + op, lambda: (op, bad, badname))
    ctx.check(errval() != 0, "no-error-code:" + op)
    ctx.sig("bad", op)
    errclr()


def do_frozen(ctx, inst, m, rng):
    e = m.e
    C.dlite_instance_freeze(inst)
    ctx.check(C.dlite_instance_is_frozen(inst), "is-frozen")
    k = rng.randrange(len(e.props))
    p = e.props[k]
    n = prod(m.shapes(k)) if p.shape else 1
    b = buf(max(1, n * p.size))
    for op in range(5):
        errclr()
        if op == 0:
            r = C.dlite_instance_set_property_by_index(inst, k, addr(b))
        elif op == 1:
            r = C.dlite_instance_set_property(inst, p.name.encode(), addr(b))
        elif op == 2 and e.dims:
            r = C.dlite_instance_set_dimension_size_by_index(inst, 0, m.dims[0] + 1)
        elif op == 3 and p.dtype != STRPTR:
            r = C.dlite_instance_assign_property(inst, p.name.encode(), ord("C"), addr(b))
        elif op == 4 and p.dtype in (INT, STRPTR) and n:
            t = json.dumps(gen.nest(([7] if p.dtype == INT else ["q"]) * n, m.shapes(k)) if p.shape else
                           7)
            r = C.dlite_instance_scan_property(t.encode(), inst, p.name.encode(), 0)
        else:
            continue
        ctx.check(r != 0 and errval() != 0, "frozen-modified:%d" % op, lambda: (r, p.tname))
        ctx.sig("frozen", op, p.dtype)
    errclr()
    m.frozen = True


def g_history(ctx, i, rng):
    e = gen.rand_entity(rng, kinds="niufsSb" if i % 3 else "sniS", maxprops=8)
    meta = gen.c_meta(e)
    insts = []
    for _ in range(rng.randint(1, 3)):
        dims = [rng.choice([0, 1, 1, 2, 3, 4]) for _ in e.dims]
        inst = gen.c_instance(meta, dims)
        m = Model(e, dims, [[gen.zero_value(p.dtype, p.size)] * prod(e.shape_of(p, dims)) if p.shape
                            else gen.zero_value(p.dtype, p.size) for p in e.props])
        insts.append((inst, m))
        compare(ctx, inst, m, "create")
    if i < 3:
        ctx.sample("%d props, dims %s" % (len(e.props), e.dims))
    ops = [do_set] * 6 + [do_cast_set] + [do_scan] * 2 + [do_resize] * 4 + [do_bad] * 3
    for step in range(rng.randint(10, 40)):
        j = rng.randrange(len(insts))
        inst, m = insts[j]
        op = rng.choice(ops)
        op(ctx, inst, m, rng)
        ok = True
        for k, (a, b) in enumerate(insts):
            ok &= compare(ctx, a, b, (step, op.__name__, "this" if k == j else "other"))
        if not ok:
            break
        if step % 5 == 0:
            access(ctx, inst, m, rng, step)
    inst, m = insts[0]
    if e.props:
        do_frozen(ctx, inst, m, rng)
        compare(ctx, inst, m, "frozen")
    # metadata refuses modification of dimensions
    errclr()
    ctx.check(C.dlite_instance_set_dimension_size_by_index(meta, 0, 5) != 0 and errval(), "meta-resize")
    errclr()
    for inst, m in insts:
        ctx.eq(C.dlite_instance_decref(inst), 0, "decref")
    C.dlite_meta_decref(meta)


def g_nomem(ctx, i, rng):
    """Resizing that cannot be satisfied leaves the instance unchanged."""
    e = gen.rand_entity(rng, kinds="iuf", maxprops=6)
    if not e.dims:
        return
    meta = gen.c_meta(e)
    dims = [rng.randint(1, 3) for _ in e.dims]
    inst = gen.c_instance(meta, dims)
    vals = gen.rand_values(rng, e, dims)
    gen.fill(inst, e, vals)
    m = Model(e, dims, vals)
    k = rng.randrange(len(dims))
    nd = [-1] * len(dims)
    nd[k] = INTMAX
    big = any(prod(e.shape_of(p, [INTMAX if j == k else d for j, d in enumerate(dims)])) * p.size > 2**40
              for p in e.props if p.shape)
    if big:
        r = C.dlite_instance_set_dimension_sizes(inst, (c.c_int * len(nd))(*nd))
        ctx.check(r != 0 and errval(), "nomem-accepted", lambda: (r, e.dims, [(p.name, p.shape) for p in e.props]))
        ctx.sig("nomem", k, len(e.props))
        compare(ctx, inst, m, "nomem")
    errclr()
    C.dlite_instance_decref(inst)
    C.dlite_meta_decref(meta)


# ---- Python ------------------------------------------------------------------------------------
def tonative(v, p):
    """Value as Python reads it."""
    import numpy as np
    if isinstance(v, (bytearray, np.void)):
        return bytes(v)
    if isinstance(v, np.bytes_) or isinstance(v, bytes):
        return bytes(v).decode("utf8", "surrogateescape")
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def py_read(inst, p, how, k):
    if how == 0:
        v = inst[p.name]
    elif how == 1:
        v = inst[k]
    elif how == 2:
        v = inst.get_property(p.name)
    elif how == 3:
        v = inst.get_property_by_index(k - inst.meta["properties"].shape[0])
    elif how == 4:
        v = inst.properties[p.name]
    else:
        v = getattr(inst, p.name)
    return v


def py_values(inst, p, how, k):
    import numpy as np
    v = py_read(inst, p, how, k)
    if p.shape:
        if p.dtype == BLOB:
            raw = v.tobytes()
            return list(v.shape), [raw[j*p.size:(j+1)*p.size] for j in range(v.size)]
        if p.dtype == FIXSTR:
            raw = v.tobytes()
            return list(v.shape), [raw[j*p.size:(j+1)*p.size].split(b"\0")[0].decode("utf8", "surrogateescape")
                                   for j in range(v.size)]
        return list(v.shape), [tonative(x, p) for x in v.flatten()]
    return None, tonative(v, p)


def py_compare(ctx, inst, m, where, how=0):
    ok = ctx.eq(dict(inst.dimensions), dict(zip(m.e.dims, m.dims)), "py-dims", where)
    for k, p in enumerate(m.e.props):
        shp, got = py_values(inst, p, how, k)
        if p.shape:
            ok &= ctx.eq(shp, m.shapes(k), "py-shape", (where, p.name))
        ok &= ctx.check(same(got, m.values[k]), "py-value",
                        lambda: "%s how=%d\nproperty %s %s %s\ngot  %.600r\nwant %.600r" % (
                            where, how, p.name, p.tname, p.shape, got, m.values[k]))
    return ok


RESERVED = set()


def py_entity(rng):
    import dlite
    if not RESERVED:
        RESERVED.update(dir(dlite.Instance))
    while True:
        e = gen.rand_entity(rng, kinds="niufsSb", maxprops=6)
        if not any(x in RESERVED or x.startswith("_") for x in [p.name for p in e.props] + e.dims):
            return e


def py_form(rng, v, p, shp):
    """One of the accepted Python forms of a value."""
    import numpy as np
    if not p.shape:
        if p.dtype == BLOB and rng.random() < .4:
            return v.hex() if rng.random() < .5 else bytearray(v)
        if p.dtype == FLOAT and rng.random() < .3:
            return np.float64(v)
        if p.dtype == INT and rng.random() < .3:
            return np.array(v, dtype=p.tname)[()]
        return v
    lst = gen.nest(v, shp)
    if p.dtype in (INT, UINT, FLOAT, BOOL) and rng.random() < .6:
        a = np.array(v, dtype=p.tname).reshape(shp)
        k = rng.randrange(3)
        if k == 0 and len(shp) > 1:
            return np.asfortranarray(a)
        if k == 1 and a.size:
            big = np.zeros([2*s for s in shp], dtype=p.tname)
            view = big[tuple(slice(None, None, 2) for _ in shp)]
            view[...] = a
            return view
        return a
    if p.dtype == STRPTR and rng.random() < .5:
        a = np.empty(len(v), dtype=object)
        for j, x in enumerate(v):
            a[j] = x
        return a.reshape(shp)
    return tuple(lst) if len(shp) == 1 and rng.random() < .3 else lst


def g_py(ctx, i, rng):
    import dlite, numpy as np
    e = py_entity(rng)
    meta = gen.py_meta(e)
    insts = []
    for _ in range(rng.randint(1, 2)):
        dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
        inst = meta(dims if rng.random() < .5 else dict(zip(e.dims, dims)))
        insts.append((inst, Model(e, dims, [[gen.zero_value(p.dtype, p.size)] * prod(e.shape_of(p, dims)) if p.shape
                                            else gen.zero_value(p.dtype, p.size) for p in e.props])))
        py_compare(ctx, *insts[-1], "create")
    for step in range(rng.randint(8, 25)):
        j = rng.randrange(len(insts))
        inst, m = insts[j]
        k = rng.randrange(len(e.props))
        p = e.props[k]
        op = rng.choice(["set"] * 6 + ["resize"] * 3 + ["bad"] * 4 + ["string"] + ["write"])
        if op == "set":
            shp = m.shapes(k)
            v = ([gen.rand_value(rng, p.dtype, p.size, txt=lambda r: gen.text(r, pools=gen.TEXT_POOLS[:-2]))
                  for _ in range(prod(shp))] if p.shape else gen.rand_value(rng, p.dtype, p.size))
            if p.dtype == FIXSTR and p.shape:
                v = [x.rstrip("\0") for x in v]
            x = py_form(rng, v, p, shp)
            how = rng.randrange(6)
            try:
                if how == 0:
                    inst[p.name] = x
                elif how == 1:
                    inst[k] = x
                elif how == 2:
                    inst.set_property(p.name, x)
                elif how == 3:
                    inst.set_property_by_index(k, x)
                elif how == 4:
                    inst.set_property_by_index(k - len(e.props), x)
                else:
                    setattr(inst, p.name, x)
            except Exception as ex:
                ctx.fail("py-set-refused", (p.tname, p.shape, shp, type(x), repr(x)[:300], repr(ex)[:500]))
                break
            m.values[k] = v
            ctx.sig("py-set", how, p.dtype, p.size, len(p.shape), type(x).__name__, prod(shp) == 0)
        elif op == "write":
            if p.shape and p.dtype in (INT, UINT, FLOAT, BOOL):
                a = inst[p.name]
                if a.size:
                    q = rng.randrange(a.size)
                    v = gen.rand_value(rng, p.dtype, p.size)
                    a.reshape(-1)[q] = v
                    m.values[k] = list(m.values[k])
                    m.values[k][q] = v
                    ctx.sig("py-write-through", p.dtype, p.size)
        elif op == "string":
            if p.dtype in (INT, UINT) and prod(m.shapes(k)):
                v = [gen.rand_value(rng, p.dtype, p.size) for _ in range(prod(m.shapes(k)))]
                inst.set_property_from_string(p.name, json.dumps(gen.nest(v, m.shapes(k)) if p.shape else v[0]))
                m.values[k] = v if p.shape else v[0]
                ctx.eq(json.loads(inst.get_property_as_string(p.name)), gen.nest(v, m.shapes(k)) if p.shape else v[0],
                       "py-as-string")
                ctx.sig("py-string", p.dtype)
        elif op == "resize" and e.dims:
            how = rng.randrange(3)
            nd = [rng.choice([-1, 0, 1, 2, 4]) for _ in e.dims]
            if how == 0:
                inst._set_dimension_sizes([int(x) for x in nd]) if hasattr(inst, "_set_dimension_sizes") else \
                    C.dlite_instance_set_dimension_sizes(gen.ptr(inst), (c.c_int * len(nd))(*nd))
            else:
                q = rng.randrange(len(nd))
                nd = [abs(x) if z == q else -1 for z, x in enumerate(nd)]
                C.dlite_instance_set_dimension_size_by_index(gen.ptr(inst), q, nd[q])
            m.resize(nd)
            ctx.sig("py-resize", how)
        elif op == "bad":
            kind = rng.choice(["key", "attr", "index", "type", "shape", "range", "elem"])
            x, tgt = 1, p.name
            if kind == "key":
                tgt = "no_such_" + p.name
            elif kind == "index":
                tgt = rng.choice([len(e.props) + 1, len(e.props) + 9, -len(e.props) - 1])
            elif kind == "type":
                if p.dtype not in (INT, UINT, FLOAT):
                    continue
                x = rng.choice(["abc", object(), {"a": 1}])
            elif kind == "shape":
                if not p.shape or p.dtype not in (INT, UINT, FLOAT, STRPTR):
                    continue
                shp = m.shapes(k)
                z = rng.randrange(len(shp))
                shp[z] += rng.choice([1, 2]) if rng.random() < .6 or shp[z] == 0 else -1
                if prod(shp) == 0:
                    continue
                z0 = "a" if p.dtype == STRPTR else 1
                x = gen.nest([z0] * prod(shp), shp)
                if rng.random() < .5:
                    x = np.array(x, dtype=object if p.dtype == STRPTR else rng.choice(["int64", "float64", "int8"]))
            elif kind == "range":
                if p.shape or p.dtype not in (INT, UINT):
                    continue
                lo, hi = gen.INTS[p.size] if p.dtype == INT else (0, 2**(8*p.size) - 1)
                x = rng.choice([lo - 1, hi + 1, hi * 2 + 5, 2**70, -2**70])
            elif kind == "elem":
                n = prod(m.shapes(k))
                if not p.shape or n < 2 or p.dtype not in (INT, UINT, FLOAT):
                    continue
                lo, hi = gen.INTS[p.size] if p.dtype == INT else (0, 2**(8*p.size) - 1)
                v = [1] * n
                v[-1] = "zz" if p.dtype == FLOAT or rng.random() < .5 else rng.choice([hi + 1, lo - 1])
                x = gen.nest(v, m.shapes(k))
            try:
                if kind == "attr":
                    getattr(inst, "no_such_" + p.name)
                elif kind == "key" and rng.random() < .5:
                    inst[tgt]
                elif kind == "index" and rng.random() < .5:
                    inst[tgt]
                else:
                    inst[tgt] = x
            except Exception as ex:
                ctx.sig("py-bad", kind, p.dtype, type(ex).__name__)
                ctx.events += 1
            else:
                ctx.fail("py-accepted:" + kind, (p.tname, p.shape, m.shapes(k), tgt, repr(x)[:300]))
            dlite.errclr()
        ok = True
        for q, (a, b) in enumerate(insts):
            ok &= py_compare(ctx, a, b, (step, op, p.name, p.tname, "this" if q == j else "other"),
                             rng.randrange(6))
        if not ok:
            return
    # frozen instances are read only
    inst, m = insts[0]
    inst.freeze()
    k = rng.randrange(len(e.props))
    p = e.props[k]
    shp = m.shapes(k)
    v = [gen.rand_value(rng, p.dtype, p.size) for _ in range(prod(shp))] if p.shape else gen.rand_value(rng, p.dtype, p.size)
    x = gen.nest(v, shp) if p.shape else v
    for q, f in enumerate((lambda: inst.__setitem__(p.name, x), lambda: inst.__setitem__(k, x),
                           lambda: setattr(inst, p.name, x), lambda: inst.set_property(p.name, x),
                           lambda: inst.set_property_by_index(k, x),
                           lambda: inst.set_property_from_string(p.name, "1"))):
        try:
            f()
        except Exception:
            ctx.events += 1
        else:
            ctx.fail("py-frozen-modified:%d" % q, (p.tname, p.shape))
    if p.shape and p.dtype in (INT, UINT, FLOAT, BOOL) and prod(shp):
        try:
            inst[p.name].reshape(-1)[0] = 1
        except Exception:
            ctx.events += 1
        else:
            ctx.fail("py-frozen-view-writable", p.tname)
    dlite.errclr()
    py_compare(ctx, inst, m, "frozen")


GROUPS = [("history", g_history, 500, 6000), ("nomem", g_nomem, 150, 1500), ("py-history", g_py, 400, 5000)]
