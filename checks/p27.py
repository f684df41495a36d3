"""P27: Python views of instances show live data and keep it alive."""
import ctypes as c, gc, json, math, struct
from dl import *
import gen
from gen import Entity, Prop

RULE = "distinct (property type, dimensionality, kind of Python value or view, access path, outcome) observations"
NUM = (BOOL, INT, UINT, FLOAT)


def setup():
    quiet()
    import dlite, numpy
    global dlite, np
    np = numpy


def npdtype(p):
    if p.dtype == FIXSTR:
        return np.dtype("S%d" % p.size)
    if p.dtype == BLOB:
        return np.dtype("V%d" % p.size)
    if p.dtype == STRPTR:
        return np.dtype("O")
    return np.dtype({BOOL: "?", INT: "i%d", UINT: "u%d", FLOAT: "f%d"}[p.dtype] % (() if p.dtype == BOOL else p.size))


def plainv(v, p):
    """Python value as read from a scalar property or array element, in the model's terms."""
    if p.dtype == BLOB:
        return bytes(v)
    if p.dtype == FIXSTR:
        b = bytes(v) if isinstance(v, (bytes, np.bytes_)) else v.encode()
        return b.decode("utf-8")
    if p.dtype == STRPTR:
        return v
    if p.dtype == BOOL:
        return bool(v)
    if p.dtype == FLOAT:
        return float(v)
    return int(v)


def make(ctx, rng, kinds="niufsSb", maxprops=5, special=True):
    e = gen.rand_entity(rng, kinds, maxdims=2, maxprops=maxprops, exprs=rng.random() < .3)
    m = gen.py_meta(e)
    dims = [rng.choice([0, 1, 2, 2, 3, 4]) for _ in e.dims]
    inst = m(dims)
    vals = gen.rand_values(rng, e, dims, special=special, txt=gen.plain)
    gen.fill(gen.ptr(inst), e, vals)
    return e, m, dims, inst, vals


def cread(inst, e):
    return gen.read_all(gen.ptr(inst), e)


def same_model(a, b, p):
    if p.dtype == FIXSTR:
        cut = lambda v: [x.rstrip("\0") for x in v] if isinstance(v, list) else v.rstrip("\0")
        a, b = cut(a), cut(b)
    return gen.same(a, b)


def want_of(p, v, shape):
    """The Python view of the model value: nested list or scalar."""
    return gen.nest(v, shape) if p.shape else v


def pyread(v, p, shape):
    if not p.shape:
        return plainv(v, p)
    assert isinstance(v, np.ndarray)
    out = []
    for x in v.ravel():
        out.append(plainv(x.tobytes() if p.dtype == BLOB else x, p) if p.dtype != STRPTR else x)
    return out


# ---------------------------------------------------------------- reading: type, shape, all access paths
def g_access(ctx, i, rng):
    e, m, dims, inst, vals = make(ctx, rng)
    how = rng.choice(["attr", "item", "index", "neg", "get", "props"])
    names = [p.name for p in e.props]
    ctx.eq(list(inst.properties), names, "property-names")
    ctx.eq(list(inst.dimensions.items()), list(zip(e.dims, dims)), "dimensions")
    ctx.eq(len(inst), len(names), "len")
    for k, d in enumerate(e.dims):
        ctx.check(getattr(inst, d) == dims[k] and inst.get_dimension_size(d) == dims[k] and inst.get_dimension_size_by_index(k) == dims[k],
                  "dimension-access")
    for k, p in enumerate(e.props):
        shape = e.shape_of(p, dims)
        paths = {"attr": lambda: getattr(inst, p.name), "item": lambda: inst[p.name], "index": lambda: inst[k], "neg": lambda: inst[k - len(names)],
                 "get": lambda: inst.get_property(p.name), "getindex": lambda: inst.get_property_by_index(k),
                 "props": lambda: inst.properties[p.name]}
        for path, f in paths.items():
            if path == "attr" and (p.name in dir(dlite.Instance)):
                continue
            v = f()
            if p.shape:
                ctx.check(isinstance(v, np.ndarray) and v.dtype == npdtype(p) and list(v.shape) == shape, "array-type:" + path,
                          lambda: (p.tname, type(v), getattr(v, "dtype", None), getattr(v, "shape", None), shape))
            else:
                t = {BLOB: (bytes, bytearray), BOOL: bool, INT: int, UINT: int, FLOAT: float, FIXSTR: str, STRPTR: (str, type(None))}[p.dtype]
                ctx.check(isinstance(v, t), "scalar-type:" + path, lambda: (p.tname, type(v)))
            ctx.check(same_model(pyread(v, p, shape), vals[k], p), "value:" + path, lambda: (p.tname, shape, v, vals[k]))
            ctx.sig("read", path, p.dtype, p.size if p.dtype in NUM else 0, len(p.shape), gen.prod(shape) == 0)
        ctx.check(p.name in inst, "contains")
    for bad in (len(names), -len(names) - 1, "no_such_prop_", 10**6):
        for f in (lambda: inst[bad], lambda: inst.__setitem__(bad, 1), lambda: inst.get_property(bad) if isinstance(bad, str) else inst.get_property_by_index(bad),
                  lambda: inst.set_property(bad, 1) if isinstance(bad, str) else inst.set_property_by_index(bad, 1),
                  lambda: getattr(inst, bad) if isinstance(bad, str) else inst[bad]):
            try:
                f()
                ok = True
            except Exception:
                ok = False
            errclr()
            ctx.check(not ok, "bad-key-accepted", bad)
    ctx.check("no_such_prop_" not in inst, "contains-missing")
    d = inst.asdict(single=True, uuid=True)
    ctx.eq(list(d["properties"]), names, "asdict-names")
    for p, v in zip(e.props, vals):
        got = d["properties"][p.name]
        if p.dtype in NUM or p.dtype == STRPTR:
            ctx.check(gen.same(flat(got, len(p.shape)) if p.shape else got, v), "asdict-value", lambda: (p.tname, got, v))


def flat(x, nd):
    if nd <= 1:
        return list(x)
    return [y for z in x for y in flat(z, nd - 1)]


# ---------------------------------------------------------------- live views
def g_views(ctx, i, rng):
    """Views show changes, write through and keep the data alive."""
    e, m, dims, inst, vals = make(ctx, rng, maxprops=6)
    uuid = inst.uuid
    m = None
    views = []                       # (property index, kind, array, index function into the flat model)
    for k, p in enumerate(e.props):
        if not p.shape:
            continue
        for _ in range(rng.choice([1, 1, 2])):
            a = rng.choice([lambda: inst[k], lambda: getattr(inst, p.name) if p.name not in dir(dlite.Instance) else inst[k],
                            lambda: inst.get_property(p.name), lambda: inst.properties[p.name]])()
            idx = np.arange(a.size).reshape(a.shape)
            kind = rng.choice(["whole", "whole", "slice", "T", "ravel", "step", "view"])
            if kind == "slice" and a.ndim:
                s = tuple(slice(rng.randint(0, 1), rng.randint(1, 4)) for _ in a.shape)
                a, idx = a[s], idx[s]
            elif kind == "T":
                a, idx = a.T, idx.T
            elif kind == "ravel":
                a, idx = a.reshape(-1), idx.reshape(-1)
            elif kind == "step":
                s = tuple(slice(None, None, rng.choice([1, 2, -1])) for _ in a.shape)
                a, idx = a[s], idx[s]
            elif kind == "view":
                a = a[...]
            views.append([k, kind, a, idx, p.dtype != STRPTR])
            a = None
    held = {"inst": inst}
    extra = dlite.get_instance(uuid) if rng.random() < .3 else None
    inst = None
    # strings are given out as copies: remember what they were
    copies = {id(v): [vals[v[0]][j] for j in v[3].ravel()] for v in views if not v[4]}

    def check(where):
        for v in views:
            k, kind, a, idx, live = v
            p = e.props[k]
            want = [vals[k][j] for j in idx.ravel()] if live else copies[id(v)]
            got = pyread(np.array(a), p, None) if a.size else []
            ctx.check(len(got) == len(want) and same_model(got, want, p), "view:%s:%s" % (where, "live" if live else "copy"),
                      lambda: (p.tname, kind, got, want))
        if held or extra is not None:
            now = cread(held.get("inst") or extra, e)
            for p, w, g in zip(e.props, vals, now):
                ctx.check(same_model(g, w, p), "instance:" + where, lambda: (p.tname, g, w))

    def alive():
        return bool(held) or extra is not None or any(v[4] for v in views)
    for _ in range(rng.choice([4, 10, 20])):
        op = rng.choice(["cset", "pyset", "write", "write", "drop", "dropinst", "junk"])
        if op == "cset" and alive():
            # through C, found by identity
            q = C.dlite_instance_get(uuid.encode())
            k = rng.randrange(len(e.props))
            p = e.props[k]
            shape = e.shape_of(p, dims)
            new = gen.rand_values(rng, e, dims, special=True, txt=gen.plain)[k]
            ctx.eq(gen.set_prop(q, k, p, new, shape), 0, "c-set")
            C.dlite_instance_decref(q)
            vals[k] = new
        elif op == "pyset" and (held or extra is not None):
            t = held.get("inst") or extra
            k = rng.randrange(len(e.props))
            p = e.props[k]
            shape = e.shape_of(p, dims)
            new = gen.rand_values(rng, e, dims, special=True, txt=gen.plain)[k]
            try:
                t[k] = topy(rng, p, new, shape)[0]
                vals[k] = new
            except Exception as ex:
                errclr()
                ctx.fail("python-set", (p.tname, new, shape, str(ex)[-300:]))
            t = None
        elif op == "write" and views:
            v = rng.choice(views)
            k, kind, a, idx, live = v
            if a.size:
                p = e.props[k]
                new = gen.rand_values(rng, e, dims, special=True, txt=gen.plain)[k]
                j = rng.randrange(a.size)
                pos = np.unravel_index(j, a.shape)
                x = new[int(idx[pos])]
                a[pos] = np.void(x) if p.dtype == BLOB else x.encode() if p.dtype == FIXSTR else x
                if live:
                    vals[k] = list(vals[k])
                    vals[k][int(idx[pos])] = x
                else:
                    copies[id(v)][j] = x
        elif op == "drop" and views:
            views.pop(rng.randrange(len(views)))
            v = a = None
        elif op == "dropinst":
            if rng.random() < .5:
                held.clear()
            else:
                extra = None
        elif op == "junk":
            [bytearray(rng.choice([16, 64, 256])) for _ in range(50)]
        v = a = idx = None
        gc.collect()
        ctx.eq(dlite.has_instance(uuid, check_storages=False), alive(), "alive-iff-referred-to", lambda: (op, len(views), bool(held)))
        check(op)
        ctx.sig(op, bool(held), len(views))
        ctx.note(op)
    views.clear()
    held.clear()
    extra = None
    gc.collect()
    ctx.check(not dlite.has_instance(uuid, check_storages=False), "not-released-in-the-end")


# ---------------------------------------------------------------- Python values
def topy(rng, p, v, shape):
    """Some accepted Python form of the model value: (value, description)."""
    if not p.shape:
        forms = [("plain", v)]
        if p.dtype == BLOB:
            forms = [("bytes", v), ("bytearray", bytearray(v)), ("hex", v.hex()), ("memoryview", memoryview(v)), ("ndarray", np.frombuffer(v, "u1"))]
        elif p.dtype == BOOL:
            forms += [("int", int(v)), ("np.bool", np.bool_(v)), ("text", "x" if v else "")]
        elif p.dtype == INT:
            forms += [("np.int", np.int64(v))] if rng.random() < .5 else [("np.intN", np.dtype("i%d" % p.size).type(v))]
        elif p.dtype == FLOAT:
            forms += [("np.float", np.float64(v))]
            if v == v and abs(v) < 2**53 and float(v).is_integer() and (v or math.copysign(1, v) > 0):
                forms.append(("int", int(v)))
        f = rng.choice(forms)
        return f[1], f[0]
    n = gen.prod(shape)
    flatv = list(v)
    if p.dtype == BLOB:
        f = rng.choice(["bytes", "hex", "void"])
        if f == "void":
            a = np.frombuffer(b"".join(flatv), dtype="V%d" % p.size).reshape(shape) if n else np.zeros(shape, "V%d" % p.size)
            return a.copy(), f
        return gen.nest([x.hex() if f == "hex" else x for x in flatv], shape), f
    if p.dtype == FIXSTR:
        asc = all(ord(ch) < 128 for x in flatv for ch in x)
        f = rng.choice(["list", "S", "U"] if asc else ["S"])
        if f == "list":
            return gen.nest(flatv, shape), f
        if f == "U":
            return np.array(flatv, dtype="U%d" % p.size).reshape(shape), f
        return np.array([x.encode() for x in flatv], dtype="S%d" % p.size).reshape(shape), f
    if p.dtype == STRPTR:
        f = rng.choice(["list", "O", "tuple"])
        if f == "O":
            a = np.empty(n, dtype=object)
            a[:] = flatv
            return a.reshape(shape), f
        l = gen.nest(flatv, shape)
        return (tuple(l) if f == "tuple" else l), f
    dt = npdtype(p)
    a = np.array(flatv, dtype=dt).reshape(shape)
    f = rng.choice(["list", "tuple", "array", "F", "step", "neg", "swap", "smaller", "readonly"])
    if f in ("list", "tuple"):
        l = gen.nest(flatv, shape)
        return (tuple(l) if f == "tuple" else l), f
    if f == "F":
        a = np.asfortranarray(a)
    elif f == "step" and a.ndim:
        big = np.zeros([2 * s for s in a.shape], dt)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in a.shape)]
    elif f == "neg" and a.ndim:
        a = a[::-1].copy()[::-1]
    elif f == "swap" and p.dtype != BOOL:
        a = a.astype(dt.newbyteorder())
    elif f == "smaller" and p.dtype == FLOAT and p.size == 8:
        if all(x != x or struct.unpack("f", struct.pack("f", x))[0] == x if abs(x) < 3e38 or x != x else math.isinf(x) for x in flatv):
            a = a.astype("f4")
    elif f == "readonly":
        a.flags.writeable = False
    return a, f


def badpy(rng, p, v, shape):
    """A Python value that cannot be stored: (value, description) or None."""
    n = gen.prod(shape)
    if p.shape:
        k = rng.choice(["longer", "shorter", "deeper", "scalar", "none", "element", "element", "element", "flat"])
        good = gen.nest(list(v), shape)
        if p.dtype in (STRPTR, FIXSTR, BLOB) and k in ("deeper", "scalar", "flat"):
            k = "longer"                    # strings are sequences themselves
        if p.dtype == BOOL and k == "deeper":
            k = "longer"                    # booleans are truth values of any object
        if k == "longer":
            return (good + [good[0] if good else (gen.nest([gen.zero_value(p.dtype, p.size)] * gen.prod(shape[1:]), shape[1:]) if len(shape) > 1 else gen.zero_value(p.dtype, p.size))], k)
        if k == "shorter":
            return (good[:-1], k) if good else None
        if k == "flat":
            return (list(v), k) if len(shape) > 1 and n and shape[0] != n else None
        if k == "deeper":
            return ([[x, x] for x in v], k) if len(shape) == 1 and n else None
        if k == "scalar":
            return rng.choice([5, 1.5, object()]), k
        if k == "none":
            return (None, k)
        b = badelem(rng, p)
        if not n or b is None:
            return None
        x = list(v)
        x[rng.randrange(n)] = b[0]
        return gen.nest(x, shape), "element:" + b[1]
    b = badelem(rng, p)
    return b and (b[0], "scalar:" + b[1])


def badelem(rng, p):
    if p.dtype == BLOB:
        return rng.choice([(b"x" * (p.size + 1), "long"), (b"x" * (p.size - 1), "short"), (5, "int"), (None, "none"), ("zz" * p.size, "nohex"),
                           ("ab" * (p.size + 1), "longhex"), (1.5, "float")])
    if p.dtype == FIXSTR:
        return rng.choice([("x" * p.size, "long"), ("é" * p.size, "utf8"), ("y" * 100, "verylong")])
    if p.dtype in (INT, UINT):
        lo, hi = (-2**(8 * p.size - 1), 2**(8 * p.size - 1) - 1) if p.dtype == INT else (0, 2**(8 * p.size) - 1)
        return rng.choice([(hi + 1, "above"), (lo - 1, "below"), (2**70, "huge"), (-2**70, "neghuge"), ("text", "text"), (None, "none"),
                           (object(), "object"), ({}, "dict")])
    if p.dtype == FLOAT:
        return rng.choice([("text", "text"), (object(), "object"), ({}, "dict"), (1j, "complex")])
    return None


def g_values(ctx, i, rng):
    e, m, dims, inst, vals = make(ctx, rng)
    for _ in range(rng.choice([5, 10, 20])):
        k = rng.randrange(len(e.props))
        p = e.props[k]
        shape = e.shape_of(p, dims)
        new = gen.rand_values(rng, e, dims, special=True, txt=gen.plain)[k]
        path = rng.choice(["item", "index", "neg", "set", "setindex", "attr"])
        if path == "attr" and p.name in dir(dlite.Instance):
            path = "item"
        bad = rng.random() < .45
        if bad:
            x = badpy(rng, p, new, shape)
            if x is None:
                continue
            v, kind = x
        else:
            v, kind = topy(rng, p, new, shape)
        x = None

        def put():
            if path == "item":
                inst[p.name] = v
            elif path == "index":
                inst[k] = v
            elif path == "neg":
                inst[k - len(e.props)] = v
            elif path == "set":
                inst.set_property(p.name, v)
            elif path == "setindex":
                inst.set_property_by_index(k, v)
            else:
                setattr(inst, p.name, v)
        try:
            put()
            ok, why = True, ""
        except Exception as ex:
            ok, why = False, str(ex)[-200:]
        errclr()
        ctx.eq(ok, not bad, ("unacceptable-value-accepted:" if bad else "acceptable-value-rejected:") + kind.split(":")[0],
               lambda: (p.tname, shape, kind, repr(v)[:300], why))
        if ok and not bad:
            vals[k] = new
        now = cread(inst, e)
        for q, w, g in zip(e.props, vals, now):
            ctx.check(same_model(g, w, q), ("changed-by-rejected-value:" if bad else "value-read-back:") + kind.split(":")[0],
                      lambda: (q.tname, q is p, kind, repr(v)[:200], g, w))
        ctx.sig("set", path, p.dtype, len(p.shape), kind, ok)
        ctx.note(("rejected " if bad else "accepted ") + kind)
        vals = [g if bad and not same_model(g, w, q) else w for q, w, g in zip(e.props, vals, now)]


# ---------------------------------------------------------------- structured values
def g_structs(ctx, i, rng):
    """Relations, dimensions and properties obtained from an instance stay valid."""
    kind = rng.choice(["relation", "collection", "meta"])
    keep = []
    if kind == "relation":
        uri = gen.meta_uri(rng)
        m = gen.py_meta(Entity(uri, ["n"], [Prop("r", "relation", REL, 40, []), Prop("rs", "relation", REL, 40, ["n"])]))
        n = rng.choice([1, 2, 4])
        inst = m([n])

        def tr():
            return tuple(gen.plain(rng) or "x" for _ in range(3)) + (rng.choice([None, None, "xsd:int", "@en"]),)
        vals = [tr() for _ in range(n + 1)]
        mk = lambda t: dlite.Relation(t[0], t[1], t[2], t[3]) if t[3] or rng.random() < .5 else list(t[:3])
        inst.r = mk(vals[n])
        inst.rs = [mk(t) for t in vals[:n]]
        for _ in range(rng.choice([1, 3])):
            k = rng.randrange(n + 1)
            r = inst.r if k == n else inst.rs[k]
            keep.append((r, vals[k]))
        if rng.random() < .5:
            vals2 = [tr() for _ in range(n + 1)]
            inst.r = mk(vals2[n])
            inst.rs = [mk(t) for t in vals2[:n]]
            keep.append((inst.r, vals2[n]))
        del inst
        gc.collect()
        [bytearray(40) for _ in range(100)]
        for r, t in keep:
            ctx.eq((r.s, r.p, r.o, r.d), t, "relation-after-release")
    elif kind == "collection":
        coll = dlite.Collection()
        ts = []
        for _ in range(rng.choice([1, 3, 10])):
            t = tuple(gen.ident(rng, 6) for _ in range(3))
            if t not in ts:
                ts.append(t)
                coll.add_relation(*t)
        arr = coll.get_property("relations")
        got = [(r, (r.s, r.p, r.o)) for r in arr]
        ctx.eq(sorted(t for r, t in got), sorted(ts), "collection-relations")
        if rng.random() < .6:
            for _ in range(rng.choice([1, 20, 100])):
                coll.add_relation(gen.ident(rng, 6), "p", gen.ident(rng, 6))
        if rng.random() < .5:
            coll.remove_relations(ts[0][0])
        if rng.random() < .7:
            del coll
        del arr
        gc.collect()
        for r, t in got:
            ctx.eq((r.s, r.p, r.o), t, "collection-relation-after-change")
    else:
        e = gen.rand_entity(rng, "niufsS", maxdims=3, maxprops=4)
        m = gen.py_meta(e)
        inst = m([1] * len(e.dims))
        ds, ps = list(inst.meta["dimensions"]), list(inst.meta["properties"])
        del inst, m
        gc.collect()
        ctx.eq([(d.name) for d in ds], e.dims, "dimensions-after-release")
        for q, p in zip(ps, e.props):
            ctx.check((q.name, q.type, list(q.shape) if q.ndims else [], q.unit) == (p.name, p.tname, [s for s in p.shape], p.unit),
                      "property-after-release", lambda: (q.name, q.type, q.unit, p.name, p.tname, p.shape, p.unit))
    ctx.sig("struct", kind, len(keep))
    ctx.note("struct " + kind)


# ---------------------------------------------------------------- as strings
def g_strings(ctx, i, rng):
    """set_property_from_string(get_property_as_string()) is the identity."""
    e, m, dims, inst, vals = make(ctx, rng, special=False)
    other = m(dims)
    for k, p in enumerate(e.props):
        # scalar strings are printed quoted, but scanned unquoted by default (see kf-strdefault)
        text = p.dtype in (BLOB, FIXSTR, STRPTR) and not p.shape
        fl = rng.choice([1, 2]) if text else 0
        if text and vals[k] is None:
            continue
        s = inst.get_property_as_string(p.name, flags=fl, prec=-3 if p.dtype == FLOAT else -2)
        try:
            other.set_property_from_string(p.name, s, flags=fl)
        except Exception as ex:
            errclr()
            ctx.fail("not-set-from-string", (p.tname, s, str(ex)[-300:]))
            continue
        a, b = cread(inst, e)[k], cread(other, e)[k]
        ctx.check(same_model(a, b, p), "string-round-trip", lambda: (p.tname, fl, s, a, b))
        ctx.sig("string", p.dtype, len(p.shape), fl)
        for bad in ("", "[", '"', "[1, 2", "nul", "{}", "x y"):
            if p.dtype == STRPTR and not p.shape or rng.random() < .5:
                continue
            if p.dtype == FIXSTR and not p.shape:
                continue
            try:
                other.set_property_from_string(p.name, bad)
            except Exception:
                pass
            errclr()
            cread(other, e)


def g_kf_strdefault(ctx, i, rng):
    """Default flags: scalar strings are printed quoted, but not read back unquoted."""
    m = gen.py_meta(Entity(gen.meta_uri(rng), [], [Prop("a", "string", STRPTR, 8, [])]))
    inst, other = m([]), m([])
    inst.a = "abc"
    other.set_property_from_string("a", inst.get_property_as_string("a"))
    ctx.eq(other.a, "abc", "kf-strdefault")


GROUPS = [("access", g_access, 150, 3000), ("views", g_views, 200, 5000), ("values", g_values, 250, 6000), ("structs", g_structs, 60, 1000),
          ("strings", g_strings, 60, 1200), ("kf-strdefault", g_kf_strdefault, 1, 1)]
