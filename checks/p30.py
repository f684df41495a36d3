"""P30: array views index the elements they denote."""
import ctypes as c, os, struct
try:
    import numpy as np
except ImportError:        # the runner only reads GROUPS
    np = None
from dl import *
import gen
from gen import prod

RULE = "distinct (operation, rank, zero-sized, step signs, continuity, outcome) observations"
P, Z, I = c.c_void_p, c.c_size_t, c.c_int
TYPES = [(gen.INT, 1, "b"), (gen.INT, 2, "h"), (gen.INT, 4, "i"), (gen.INT, 8, "q"), (gen.UINT, 1, "B"), (gen.UINT, 4, "I"),
         (gen.FLOAT, 4, "f"), (gen.FLOAT, 8, "d"), (gen.BLOB, 3, "3s"), (gen.FIXSTR, 5, "5s")]


class Arr(c.Structure):
    _fields_ = [("data", P), ("type", I), ("size", Z), ("ndims", I), ("shape", c.POINTER(Z)), ("strides", c.POINTER(I))]


class Iter(c.Structure):
    _fields_ = [("arr", P), ("ind", c.POINTER(I))]


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


class A:
    """A view under test together with the numpy array of element numbers it should denote."""
    def __init__(self, p, ids, base):
        self.p, self.ids, self.base = p, ids, base

    @property
    def s(self):
        return Arr.from_address(self.p)


def ints(xs):
    return (I * max(len(xs), 1))(*xs)


def verify(ctx, a, size, what, elem):
    """Shape, indexing and iteration of the view agree with the model."""
    s = a.s
    ctx.eq((s.ndims, s.size), (a.ids.ndim, size), what + "-rank", a.ids.shape)
    if not ctx.eq([s.shape[k] for k in range(s.ndims)], list(a.ids.shape), what + "-shape", a.ids.shape):
        return False
    f = fn("dlite_array_index", P, P, P)
    want = [int(x) for x in a.ids.ravel()]
    got = []
    for ind in np.ndindex(*a.ids.shape):
        p = f(a.p, ints(ind))
        if not a.base.p <= p <= a.base.p + a.base.n - size:
            ctx.fail(what + "-outside", (ind, p - a.base.p, a.base.n))
            return False
        got.append((p - a.base.p) // size)
    ok = ctx.eq(got, want, what + "-index", a.ids.shape)
    it = Iter()
    ctx.eq(fn("dlite_array_iter_init", I, P, P)(c.addressof(it), a.p), 0, "iter-init")
    nx, got = fn("dlite_array_iter_next", P, P), []
    while True:
        p = nx(c.addressof(it))
        if not p or len(got) > len(want):
            break
        got.append((p - a.base.p) // size)
    ok &= ctx.eq(got, want, what + "-iteration", a.ids.shape)
    ctx.check(nx(c.addressof(it)) is None, "iteration-ends")
    fn("dlite_array_iter_deinit", None, P)(c.addressof(it))
    cont = fn("dlite_array_is_continuous", I, P)(a.p) != 0
    start = got[0] if got else 0
    if want:
        if cont:
            ctx.eq(want, list(range(want[0], want[0] + len(want))), "continuous-sound", what)
        elif want == list(range(want[0], want[0] + len(want))) and min(a.ids.shape or [2]) > 1:
            ctx.fail("continuous-complete", (what, a.ids.shape))
        if a.ids.ndim == 0:
            ctx.check(cont, "continuous-scalar")
    return ok


def rshape(rng, maxn=4):
    nd = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    return [rng.choice([1, 2, 3, 4]) if rng.random() < .93 else 0 for _ in range(nd)]


def pick(ids, lists):
    for ax, l in enumerate(lists):
        ids = np.take(ids, np.array(l, dtype=int), axis=ax)
    return ids


def g_views(ctx, i, rng):
    create, createo = fn("dlite_array_create", P, P, I, Z, I, P), fn("dlite_array_create_order", P, P, I, Z, I, P, I)
    free, slc, resh, tr = fn("dlite_array_free", None, P), fn("dlite_array_slice", P, P, P, P, P), fn("dlite_array_reshape", P, P, I, P), fn("dlite_array_transpose", P, P)
    cont, cmp_, mk, asz = fn("dlite_array_is_continuous", I, P), fn("dlite_array_compare", I, P, P), fn("dlite_array_make_continuous", P, P), fn("dlite_array_size", Z, P)
    for _ in range(20):
        dtype, size, code = rng.choice(TYPES)
        shape = rshape(rng)
        n = prod(shape)
        vals = [struct.pack("<" + code, *(bytes([k & 255, k >> 8 & 255]) + b"xyz",) if code[-1] == "s" else (k % 100,)) for k in range(n)]
        base = mem(b"".join(vals))
        sh = (Z * max(len(shape), 1))(*shape)
        ids = np.arange(n).reshape(shape)
        if rng.random() < .7:
            a = A(create(base.p, dtype, size, len(shape), sh), ids, base)
            ctx.eq(asz(a.p), n * size if n and shape else asz(a.p), "size", shape)
            ctx.check(cont(a.p), "created-continuous", shape)
        else:
            order = rng.choice("CF")
            a = A(createo(base.p, dtype, size, len(shape), sh, ord(order)), ids if order == "C" else ids.T, base)
            bad = createo(base.p, dtype, size, len(shape), sh, ord(rng.choice("AK \0cf")))
            ctx.check(bad is None and errval() != 0, "bad-order")
            errclr()
        verify(ctx, a, size, "create", vals)
        made, bufs = [a], []
        for _ in range(rng.randint(1, 5)):
            a = made[-1]
            cur = list(a.ids.shape)
            op = rng.randrange(6)
            if op <= 2:
                st = [rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 5]) for _ in cur]
                b = [rng.randint(-d - 2, d + 2) for d in cur]
                e = [rng.randint(-d - 2, d + 2) for d in cur]
                if rng.random() < .5:                          # mostly non-empty
                    for k, d in enumerate(cur):
                        x, y = sorted([rng.randint(0, d), rng.randint(0, d)])
                        b[k], e[k] = (x, y) if st[k] > 0 else (y, x)
                hb, he, hs = rng.random() < .7, rng.random() < .7, rng.random() < .7
                if rng.random() < .1 and cur:
                    st[rng.randrange(len(st))] = 0
                    hs = True
                lists = []
                for k, d in enumerate(cur):
                    q = st[k] if hs else 1
                    x = b[k] if hb else (0 if q >= 0 else d)
                    y = e[k] if he else (d if q >= 0 else 0)
                    x, y = (min(max(v + d if v < 0 else v, 0), d) for v in (x, y))
                    lists.append(list(range(x, y, q)) if q > 0 else list(range(x - 1, y - 1, q)) if q < 0 else None)
                r = slc(a.p, ints(b) if hb else None, ints(e) if he else None, ints(st) if hs else None)
                if None in lists:
                    ctx.check(r is None and errval() != 0, "slice-zero-step", st)
                    errclr()
                    ctx.sig("slice-zero-step", len(cur))
                    continue
                ctx.check(r, "slice", (cur, b, e, st))
                if not r:
                    break
                new = A(r, pick(a.ids, lists), a.base)
                what = "slice"
                detail = (hb, he, hs, any(q < 0 for q in st) and hs)
            elif op == 3:
                r = tr(a.p)
                new, what, detail = A(r, a.ids.T, a.base), "transpose", ()
            elif op == 4:
                tot = prod(cur)
                good = rng.random() < .6
                ns, left = [], tot
                if tot == 0:
                    ns = [0] + [rng.randint(1, 3)] * rng.randint(0, 2)
                    rng.shuffle(ns)
                else:
                    while left > 1:
                        f = rng.choice([x for x in range(2, left + 1) if left % x == 0])
                        ns.append(f)
                        left //= f
                    ns += [1] * rng.choice([0, 0, 1])
                    rng.shuffle(ns)
                if not good and tot == 0:
                    ns = [x or 1 for x in ns]
                elif not good:
                    ns = rng.choice([ns + [2], ns + [2 ** 32 + 1], [tot + 1], [tot + 2 ** 32], [2 ** 32, 2 ** 32] + ns, ns[:-1] + [tot + 7]])
                same = prod(ns) == tot and cont(a.p)
                r = resh(a.p, len(ns), (Z * max(len(ns), 1))(*ns))
                ctx.eq(bool(r), bool(same), "reshape-accepted", (cur, ns, cont(a.p)))
                errclr()
                ctx.sig("reshape", bool(same), bool(cont(a.p)), tot == 0)
                if not r or not same:
                    continue
                new, what, detail = A(r, a.ids.reshape(ns), a.base), "reshape", ()
            else:
                before = base.raw
                elems = [c.string_at(fn("dlite_array_index", P, P, P)(a.p, ints(ind)), size) for ind in np.ndindex(*cur)]
                d = mk(a.p)
                ctx.check(d, "make-continuous")
                ctx.eq(a.s.data, d, "make-continuous-data")
                ctx.eq(c.string_at(d, prod(cur) * size), b"".join(elems), "make-continuous-elements", cur)
                ctx.check(cont(a.p), "make-continuous-continuous", cur)
                ctx.eq(base.raw, before, "make-continuous-source")
                nb = mem(c.string_at(d, prod(cur) * size))
                a.s.data = nb.p
                libc.free(P(d))
                a.ids, a.base = np.arange(prod(cur)).reshape(cur), nb
                verify(ctx, a, size, "continuous", None)
                ctx.sig("make-continuous", len(cur), 0 in cur)
                continue
            verify(ctx, new, size, what, None)
            made.append(new)
            ctx.sig(what, len(cur), 0 in new.ids.shape, bool(cont(new.p)), detail)
        # comparison looks at the elements the views denote
        for _ in range(4):
            x, y = rng.choice(made), rng.choice(made)
            ex, ey = ([c.string_at(m.base.p + int(k) * size, size) for k in m.ids.ravel()] for m in (x, y))
            ctx.eq(cmp_(x.p, y.p), int(x.ids.shape == y.ids.shape and ex == ey), "compare", (x.ids.shape, y.ids.shape))
        x = made[-1]
        ex = b"".join(c.string_at(x.base.p + int(k) * size, size) for k in x.ids.ravel())
        cb = mem(ex)
        sh = (Z * max(x.ids.ndim, 1))(*x.ids.shape)
        z = create(cb.p, dtype, size, x.ids.ndim, sh)
        ctx.eq(cmp_(x.p, z), 1, "compare-copy", x.ids.shape)
        if ex:
            k = rng.randrange(len(ex))
            db = mem(ex[:k] + bytes([ex[k] ^ 1]) + ex[k+1:])
            z2 = create(db.p, dtype, size, x.ids.ndim, sh)
            ctx.eq((cmp_(x.p, z2), cmp_(z2, x.p)), (0, 0), "compare-different", x.ids.shape)
            free(z2)
        for t2, s2 in ((dtype + 1, size), (dtype, size + 1)):
            z2 = create(cb.p, t2, s2, 1, sh) if x.ids.ndim == 1 and s2 == size else None
            if z2:
                ctx.eq(cmp_(x.p, z2), 0, "compare-type")
                free(z2)
        free(z)
        for m in made:
            free(m.p)
    ctx.sample("views of shape %s: %s" % (shape, [m.ids.shape for m in made]))


def brackets(nested, depth, width):
    return nested


def g_print(ctx, i, rng):
    """Printing shows every element once, in order, nested as the shape."""
    create, free, pr = fn("dlite_array_create", P, P, I, Z, I, P), fn("dlite_array_free", None, P), fn("dlite_array_printf", I, P, P, I, I)
    tr = fn("dlite_array_transpose", P, P)
    libc.fopen.restype, libc.fopen.argtypes = P, [c.c_char_p, c.c_char_p]
    libc.fclose.argtypes = [P]
    path = os.path.join(ctx.work, "out%d" % i)
    for _ in range(20):
        dtype, size, code = rng.choice([t for t in TYPES if t[2] in "bhiqBIfd"])
        shape = [x or 1 for x in rshape(rng)]
        n = prod(shape)
        vals = [rng.randint(-99, 99) if code in "bhiqfd" else rng.randint(0, 200) for _ in range(n)]
        base = mem(struct.pack("<%d%s" % (n, code), *vals))
        sh = (Z * max(len(shape), 1))(*shape)
        p = create(base.p, dtype, size, len(shape), sh)
        want = np.array(vals).reshape(shape)
        if rng.random() < .4:
            q = tr(p)
            free(p)
            p, want = q, want.T
        fp = libc.fopen(path.encode(), b"w")
        ctx.eq(pr(fp, p, *rng.choice([(-1, -1), (0, -2), (5, -2), (0, -1)])), 0, "printf-status")
        libc.fclose(fp)
        text = open(path).read()
        body = "".join(ch if ch in "[]" else " " + ch if ch == " " else ch for ch in text.replace("\n", " "))
        import re
        tok = re.findall(r"[\[\]]|[^\s\[\]]+", body)
        def parse(k, depth):
            if depth == 0:
                return float(tok[k]), k + 1
            assert tok[k] == "[", tok
            out, k = [], k + 1
            while tok[k] != "]":
                v, k = parse(k, depth - 1)
                out.append(v)
            return out, k + 1
        try:
            got, k = parse(0, want.ndim)
            ctx.eq((got, k), (want.astype(float).tolist(), len(tok)), "printf-content", (text, want.shape))
        except (AssertionError, IndexError, ValueError):
            ctx.fail("printf-structure", (text, want.shape))
        free(p)
        ctx.sig("print", want.ndim, code)


def g_nested(ctx, i, rng):
    """Flat and pointer-to-pointer buffers."""
    flat, nest = fn("dlite_copy_to_flat", I, P, P, Z, Z, P), fn("dlite_copy_to_nested", I, P, P, Z, Z, P)
    for _ in range(30):
        nd = rng.choice([1, 2, 2, 3, 4])
        shape = [rng.randint(1, 4) for _ in range(nd)]
        size = rng.choice([1, 2, 3, 4, 8, 24])
        n = prod(shape)
        vals = [rng.randbytes(size) for _ in range(n)]
        keep, leaves = [], []

        def build(k, data):
            """Pointers all the way down; the last level points to the elements."""
            sub = []
            for _ in range(shape[k]):
                if k == nd - 1:
                    m = mem(next(data))
                    leaves.append(m)
                else:
                    m = build(k + 1, data)
                sub.append(m)
                keep.append(m)
            return mem(struct.pack("<%dQ" % len(sub), *(m.p for m in sub)))
        top = build(0, iter(vals))
        before = [k.raw for k in keep]
        d = mem(n * size)
        sh = (Z * nd)(*shape)
        ctx.eq(flat(d.p, top.p, size, nd, sh), 0, "flat-status")
        ctx.eq(d.raw, b"".join(vals), "flat", (shape, size))
        ctx.eq([k.raw for k in keep], before, "flat-source")
        new = rng.randbytes(n * size)
        src = mem(new)
        ptrs = top.raw
        ctx.eq(nest(top.p, src.p, size, nd, sh), 0, "nested-status")
        ctx.eq(b"".join(l.raw for l in leaves), new, "nested", (shape, size))
        ctx.eq((src.raw, top.raw), (new, ptrs), "nested-source")
        ctx.sig("nested", nd, 1 in shape, size)
    ctx.sample("flat <-> nested of shape %s" % shape)


def g_property(ctx, i, rng):
    """Arrays of properties, and copying and assigning them in either memory order."""
    ga, gi = fn("dlite_instance_get_property_array", P, P, c.c_char_p, I), fn("dlite_instance_get_property_array_by_index", P, P, Z, I)
    cp, cpi = fn("dlite_instance_copy_property", I, P, c.c_char_p, I, P), fn("dlite_instance_copy_property_by_index", I, P, I, I, P)
    asg = fn("dlite_instance_assign_property", I, P, c.c_char_p, I, P)
    free = fn("dlite_array_free", None, P)
    for _ in range(6):
        e = gen.rand_entity(rng, kinds="iufSb", maxdims=3)
        meta = gen.c_meta(e)
        dims = [rng.randint(0, 4) for _ in e.dims]
        try:
            shapes = [e.shape_of(p, dims) for p in e.props]
        except Exception:
            C.dlite_meta_decref(meta)
            continue
        if any(s < 0 for sh in shapes for s in sh):
            C.dlite_meta_decref(meta)
            continue
        inst = gen.c_instance(meta, dims)
        values = gen.rand_values(rng, e, dims)
        gen.fill(inst, e, values)
        for k, p in enumerate(e.props):
            shape = shapes[k]
            n = prod(shape)
            raw = None
            for order in "CF":
                a = ga(inst, p.name.encode(), ord(order)) if rng.random() < .5 else gi(inst, k, ord(order))
                ctx.check(a, "property-array", (p.name, shape))
                s = Arr.from_address(a)
                want = shape if p.shape else [1]
                ctx.eq([s.shape[j] for j in range(s.ndims)], want if order == "C" else want[::-1], "property-array-shape", order)
                ctx.eq((s.size, s.type), (p.size, p.dtype), "property-array-type")
                raw = c.string_at(s.data, n * p.size) if n else b""
                st = [prod(want[j+1:]) * p.size for j in range(len(want))]
                ctx.eq([s.strides[j] for j in range(s.ndims)], st if order == "C" else st[::-1], "property-array-strides", order)
                free(a)
                # copying out
                d = mem(n * p.size)
                r = cp(inst, p.name.encode(), ord(order), d.p) if rng.random() < .5 else cpi(inst, k, ord(order), d.p)
                ctx.eq(r, 0, "copy-property-status", (p.tname, shape))
                el = [raw[j*p.size:(j+1)*p.size] for j in range(n)]
                ids = np.arange(n).reshape(shape)
                perm = [int(x) for x in ids.ravel(order="C" if order == "C" else "F")]
                ctx.eq(d.raw, b"".join(el[j] for j in perm), "copy-property", (p.tname, shape, order))
                # assigning
                vals = gen.rand_values(rng, gen.Entity(e.uri, e.dims, [p]), dims)[0]
                keep = []
                vb = [gen.pack(v, p.dtype, p.size, keep) for v in (vals if p.shape else [vals])]
                src = mem(b"".join(vb[j] for j in perm))
                ctx.eq(asg(inst, p.name.encode(), ord(order), src.p), 0, "assign-property-status", (p.tname, shape))
                values[k] = vals
                got = gen.read_all(inst, e)
                ctx.check(all(gen.same(x, y) for x, y in zip(got, values)), "assign-property",
                          lambda: (p.tname, shape, order, got[k], vals))
                ctx.sig("property", order, len(shape), p.dtype, n == 0)
            bad = ga(inst, p.name.encode(), ord("X"))
            ctx.check(bad is None and errval() != 0, "property-array-order")
            errclr()
        ctx.check(ga(inst, b"no_such_property_x", 67) is None, "property-array-unknown")
        ctx.check(cp(inst, b"no_such_property_x", 67, None) != 0 and asg(inst, b"no_such_property_x", 67, None) != 0, "copy-unknown")
        errclr()
        C.dlite_instance_decref(inst)
        C.dlite_meta_decref(meta)
    ctx.sample("arrays of %s" % [(p.name, p.tname, p.shape) for p in e.props][:3])


GROUPS = [("views", g_views, 500, 20000), ("print", g_print, 30, 600), ("nested", g_nested, 30, 600), ("property", g_property, 250, 6000)]
