"""P17: the triplestore is a set of triples with exact wildcard queries."""
import ctypes as c, hashlib, os
from dl import *
import dl, gen

RULE = "distinct (backend, operation, pattern of given/free terms, number of matches class, store size class) observations"
COMPILE = [("py", "shim.c", "shim.so", True), ("py", "tsbuiltin.c", "tsbuiltin.so", True)]
FN = ("create free set_namespace get_namespace length add add_en add_uri add_triples remove clear find_first init_state "
      "deinit_state reset_state next poll find value").split()
P, Z = c.c_void_p, c.c_size_t


class Triple(c.Structure):
    _fields_ = [("s", P), ("p", P), ("o", P), ("d", P), ("id", P)]


class State(c.Structure):
    _fields_ = [("ts", P), ("pos", Z), ("data", P)]


class Backend:
    def __init__(self, name):
        self.name = name
        lib = Lib([c.PyDLL(os.path.join(dl._BDIR, "tsbuiltin.so"))]) if name == "builtin" else C
        for f in FN:
            g = getattr(lib, "bt_" + f) if name == "builtin" else getattr(C, "triplestore_" + f)
            if name == "builtin":
                ref = getattr(C, "triplestore_" + f)
                g.restype, g.argtypes = ref.restype, ref.argtypes
            setattr(self, f, g)
        if name == "builtin":
            self.get, self.remove_by_id = lib.bt_get, lib.bt_remove_by_id
            self.get.restype, self.get.argtypes = P, [P, P]
            self.remove_by_id.argtypes = [P, P]


def zz(x):
    return None if x is None else mem.z(x)


def p_(m):
    return m.p if m is not None else None


def call(f, ts, *terms):
    """Call with exact-size copies of the terms that are gone afterwards."""
    ms = [zz(x) for x in terms]
    return f(ts, *[p_(m) for m in ms])


def rd(t):
    if not t:
        return None
    t = Triple.from_address(t)
    return tuple(c.string_at(x) if x else None for x in (t.s, t.p, t.o, t.d))


def matches(t, q):
    return all(b is None or a == b for a, b in zip(t[:3], q[:3])) and (q[3] is None or (t[3] or b"") == q[3])


def term(rng):
    r = rng.random()
    if r < .6:
        return ("%s:%s" % (rng.choice(["ex", "http", "urn:x", ""]), gen.ident(rng))).encode() or b"t"
    if r < .8:
        return gen.ident(rng).encode()
    t = gen.text(rng).replace("\0", "").encode("utf8", "surrogateescape")
    return t or b"t"


def literal(rng):
    r = rng.random()
    if r < .3:
        return str(rng.randint(-99, 99)).encode()
    if r < .4:
        return b""
    return gen.text(rng).replace("\0", "").encode("utf8", "surrogateescape")


class World:
    """Small vocabularies so that triples share terms."""
    def __init__(self, rng, rich):
        k = rng.choice([1, 2, 3, 6])
        self.s = [term(rng) for _ in range(k)]
        self.p = [term(rng) for _ in range(rng.choice([1, 2, 3]))]
        self.o = [term(rng) for _ in range(k)] + [literal(rng) for _ in range(2)] + self.s[:1]
        self.o = [x for x in self.o if x]
        self.d = [None, None, b"@en", b"@no", b"xsd:integer", b"http://www.w3.org/2001/XMLSchema#string"]
        if rich and rng.random() < .3:
            self.s += [self.s[0] + b"x", self.s[0][:-1] or b"y"]

    def triple(self, rng):
        d = rng.choice(self.d)
        o = rng.choice(self.o)
        if d and rng.random() < .1:
            o = b""
        return (rng.choice(self.s), rng.choice(self.p), o, d)

    def query(self, rng, model):
        t = rng.choice(sorted(model, key=repr)) if model and rng.random() < .7 else self.triple(rng)
        q = [x if rng.random() < .5 else None for x in t[:3]]
        d = None if rng.random() < .5 else (t[3] or b"") if rng.random() < .7 else (rng.choice(self.d) or b"")
        return tuple(q) + (d,)


def pat(q):
    return "".join("-x"[v is not None] for v in q[:3]) + ("-" if q[3] is None else "i" if q[3] == b"" else "l" if q[3][:1] == b"@" else "t")


def cls(n):
    return min(n, 3) if n < 10 else n.bit_length()


def collect(b, state, q=None, lim=10**6):
    out = []
    ms = [zz(x) for x in q] if q else None
    while len(out) < lim:
        t = rd(b.find(c.addressof(state), *[p_(m) for m in ms]) if q else b.next(c.addressof(state)))
        if t is None:
            break
        out.append(t)
    return out


key = lambda t: tuple(x or b"\xff" if x is None else x for x in t)


def srt(ts):
    return sorted(ts, key=lambda t: [(x is None, x or b"") for x in t])


def snapshot(ctx, b, ts, model, what):
    ctx.eq(b.length(ts), len(model), what + "-length")
    st = State()
    b.init_state(ts, c.addressof(st))
    got = collect(b, st, lim=len(model) + 5)
    b.deinit_state(c.addressof(st))
    ctx.eq(srt(got), srt(model), what + "-content", b.name)


def do_value(ctx, b, ts, model, rng, w):
    q = list(w.query(rng, model))
    t = list(w.triple(rng))
    k = rng.randrange(3)
    q = [None if j == k else (q[j] or t[j]) for j in range(3)] + [q[3]]
    wrong = rng.random() < .06
    if wrong:
        q = [None] * 3 + [None] if rng.random() < .5 else [q[j] or t[j] or b"x" for j in range(3)] + [None]
    fb = literal(rng) if rng.random() < .4 else None
    any_ = rng.random() < .5
    m = [x for x in model if matches(x, q)]
    errclr()
    ms = [zz(x) for x in q + [fb]]
    r = b.value(ts, *[p_(x) for x in ms], int(any_))
    got, ev = (bytes(r) if r is not None else None), errval()
    errclr()
    ctx.sig(b.name, "value", pat(q), cls(len(m)), fb is not None, any_)
    if wrong:
        ctx.check(got is None and ev != 0, "value-criteria", q)
    elif not m:
        if fb is None:
            ctx.check(got is None and ev != 0, "value-missing", (q, got, ev))
        else:
            ctx.eq((got, ev), (fb, 0), "value-fallback", q)
    elif len(m) > 1 and not any_:
        ctx.check(got is None and ev != 0, "value-ambiguous", lambda: (q, m[:3], got))
    else:
        ctx.check(ev == 0 and got in [x[k] for x in m], "value", lambda: (q, m[:3], got, ev))


def g_history(name):
    def run(ctx, i, rng):
        b = Backend(name)
        stores = [[b.create(), set(), None] for _ in range(rng.choice([1, 1, 2]))]
        w = World(rng, name != "builtin")
        steps = rng.choice([30, 100, 300])
        for step in range(steps):
            ent = rng.choice(stores)
            ts, model, _ = ent
            r = rng.random()
            if r < .35:
                t = w.triple(rng)
                if t[3] == b"@en" and rng.random() < .5:
                    n = call(b.add_en, ts, *t[:3])
                elif t[3] is None and rng.random() < .5:
                    n = call(b.add_uri, ts, *t[:3])
                else:
                    n = call(b.add, ts, *t)
                ctx.eq(n, 0, "add-status", t)
                ctx.sig(b.name, "add", t in model, t[3] is None, cls(len(model)))
                model.add(t)
            elif r < .42:
                tl = [w.triple(rng) for _ in range(rng.choice([0, 1, 2, 5, 30, 600 if step < 3 else 5]))]
                if tl and rng.random() < .5:
                    tl += rng.sample(tl, min(3, len(tl)))                 # duplicates within the batch
                if len(tl) > 100:
                    tl = [(t[0] + b"%d" % k,) + t[1:] for k, t in enumerate(tl)]
                ms = [[zz(x) for x in t] for t in tl]
                arr = (Triple * max(len(tl), 1))(*[Triple(*[p_(m) for m in mm], None) for mm in ms])
                ctx.eq(b.add_triples(ts, c.addressof(arr), len(tl)), 0, "add-triples-status")
                ctx.sig(b.name, "add_triples", cls(len(tl)), cls(len(model)))
                model.update(tl)
            elif r < .55:
                q = w.query(rng, model)
                m = [x for x in model if matches(x, q)]
                n = call(b.remove, ts, *q)
                ctx.sig(b.name, "remove", pat(q), cls(len(m)), cls(len(model)))
                ctx.eq(n, len(m), "remove-count", lambda: (b.name, q, srt(model)[:5]))
                model.difference_update(m)
            elif r < .56:
                b.clear(ts)
                model.clear()
                ctx.sig(b.name, "clear")
            elif r < .75:
                q = w.query(rng, model)
                st = State()
                b.init_state(ts, c.addressof(st))
                m = srt(x for x in model if matches(x, q))
                ctx.eq(srt(collect(b, st, q, len(model) + 5)), m, "find", lambda: (b.name, q))
                again = rd(call(lambda *a: b.find(c.addressof(st), *a[1:]), None, *q))
                ctx.check(again is None, "find-ended", q)
                if rng.random() < .3:
                    b.reset_state(c.addressof(st))
                    ctx.eq(srt(collect(b, st, q, len(model) + 5)), m, "find-after-reset", lambda: (b.name, q))
                b.deinit_state(c.addressof(st))
                ctx.sig(b.name, "find", pat(q), cls(len(m)), cls(len(model)))
            elif r < .85:
                q = w.query(rng, model)
                m = [x for x in model if matches(x, q)]
                g = rd(call(b.find_first, ts, *q))
                ctx.check((g in m) if m else g is None, "find-first", lambda: (b.name, q, g, m[:3]))
                ctx.sig(b.name, "find_first", pat(q), cls(len(m)))
                errclr()
            elif r < .93:
                do_value(ctx, b, ts, model, rng, w)
            elif r < .96:
                # interleaved iterators, peeking
                sts = [State() for _ in range(2)]
                outs = [[], []]
                resets = 2
                for s in sts:
                    b.init_state(ts, c.addressof(s))
                alive = [0, 1]
                while alive:
                    k = rng.choice(alive)
                    a = c.addressof(sts[k])
                    pk = rd(b.poll(a)) if rng.random() < .5 else 0
                    t = rd(b.next(a))
                    if pk != 0:
                        ctx.eq(pk, t, "poll")
                    if t is None or len(outs[k]) > len(model):
                        alive.remove(k)
                    else:
                        outs[k].append(t)
                    if k in alive and resets and rng.random() < .05:
                        b.reset_state(a)
                        outs[k] = []
                        resets -= 1
                for k in (0, 1):
                    ctx.eq(srt(outs[k]), srt(model), "iterate", b.name)
                    b.deinit_state(c.addressof(sts[k]))
                ctx.sig(b.name, "iterate2", cls(len(model)))
            elif r < .98:
                # unknown identifiers are unknown whatever was removed before
                g = call(b.find_first, ts, b"urn:no-such-subject", None, None, None)
                ctx.check(g is None, "find-unknown")
                ctx.eq(call(b.remove, ts, None, b"urn:no-such-predicate", None, None), 0, "remove-unknown")
                errclr()
            else:
                ns = rng.choice([None, gen.ident(rng).encode()])
                call(b.set_namespace, ts, ns)
                ctx.eq(b.get_namespace(ts), ns, "namespace")
                call(b.set_namespace, ts, None)
            if step % 25 == 24:
                snapshot(ctx, b, ts, model, "store")
        for ts, model, _ in stores:
            snapshot(ctx, b, ts, model, "final")
            if i % 7 == 0:
                call(b.set_namespace, ts, b"ns")
            b.free(ts)
        errclr()
        ctx.note("store operations", steps)
        ctx.sample("%s: %d steps, %d triples at the end" % (name, steps, len(stores[0][1])))
    return run


def g_iterate_modify(ctx, i, rng):
    """The builtin store may be changed while iterators run."""
    b = Backend("builtin")
    for _ in range(6):
        w = World(rng, False)
        ts, model = b.create(), set()
        for _ in range(rng.choice([1, 5, 40])):
            t = w.triple(rng)
            model.add(t)
            call(b.add, ts, *t)
        its = []
        freed = False
        for step in range(rng.choice([10, 60])):
            r = rng.random()
            if r < .2 and len(its) < 3:
                st = State()
                b.init_state(ts, c.addressof(st))
                its.append([st, set(), set(model), []])     # seen, must-see, log
            elif r < .5 and its:
                k = rng.randrange(len(its))
                st, seen, must, _ = its[k]
                t = rd(b.next(c.addressof(st)))
                if t is None:
                    ctx.check(must <= seen, "iteration-missed", lambda: (srt(must - seen)[:3],))
                    b.deinit_state(c.addressof(st))
                    del its[k]
                    ctx.sig("builtin", "iterate-modify", cls(len(seen)))
                else:
                    ctx.check(t in model, "iterated-removed", lambda: (t, srt(model)[:4]))
                    ctx.check(t not in seen, "iterated-twice", t)
                    seen.add(t)
            elif r < .7:
                t = w.triple(rng)
                if any(t in it[1] for it in its):
                    continue                                 # (re-added triples may show up again)
                call(b.add, ts, *t)
                model.add(t)
            elif r < .85:
                q = w.query(rng, model)
                m = [x for x in model if matches(x, q)]
                ctx.eq(call(b.remove, ts, *q), len(m), "remove-count", q)
                model.difference_update(m)
                for it in its:
                    it[2].difference_update(m)
            elif r < .95:
                q = w.query(rng, model)
                m = [x for x in model if matches(x, q)]
                g = rd(call(b.find_first, ts, *q))
                ctx.check((g in m) if m else g is None, "find-first", lambda: (q, g, m[:3]))
                ctx.eq(b.length(ts), len(model), "length")
        for st, seen, must, _ in its:
            b.deinit_state(c.addressof(st))
        snapshot(ctx, b, ts, model, "modified")
        b.free(ts)
        errclr()


def g_ids(ctx, i, rng):
    """Access by id in the builtin store."""
    b = Backend("builtin")
    gid = C.triple_get_id
    for _ in range(5):
        w = World(rng, False)
        ts, model = b.create(), {}
        for _ in range(rng.choice([3, 20, 60])):
            r = rng.random()
            if r < .6 or not model:
                t = w.triple(rng)
                call(b.add, ts, *t)
                ms = [zz(x) for x in t]
                model[take_str(gid(None, *[p_(m) for m in ms]))] = t
            elif r < .75:
                k = rng.choice(sorted(model))
                ctx.eq(call(b.remove_by_id, ts, k), 0, "remove-by-id")
                del model[k]
                ctx.check(call(b.remove_by_id, ts, k) != 0 and not call(b.get, ts, k), "removed-id-known")
                errclr()
            else:
                q = w.query(rng, model.values())
                call(b.remove, ts, *q)
                model = {k: t for k, t in model.items() if not matches(t, q)}
            for k, t in model.items():
                ctx.eq(rd(call(b.get, ts, k)), t, "get-by-id")
            ctx.sig("builtin", "ids", cls(len(model)))
        b.free(ts)
        errclr()


def g_triple(ctx, i, rng):
    """Triples keep what they were given; copies are independent; ids follow from the content."""
    val = lambda a: tuple(c.string_at(x) if x else None for x in (a.s, a.p, a.o, a.d, a.id))
    for _ in range(30):
        w = World(rng, True)
        t, u = Triple(), Triple()
        a, b = c.addressof(t), c.addressof(u)
        for k in range(rng.randint(1, 4)):
            s, p, o, d = w.triple(rng)
            id = gen.ident(rng).encode() if rng.random() < .4 else None
            ms = [zz(x) for x in (s, p, o, d, id)]
            f = C.triple_reset if k else C.triple_set
            ctx.eq(f(a, *[p_(m) for m in ms]), 0, "triple-set")
            want = id or (hashlib.sha1(s + p + o + (d or b"")).hexdigest().encode())
            ctx.eq(val(t), (s, p, o, d, want), "triple-fields")
            ctx.sig("triple", id is None, d is None, k > 0)
            if not id:
                ns = rng.choice([None, b"", gen.ident(rng).encode() + b"#"])
                m = zz(ns)
                g = take_str(C.triple_get_id(p_(m), *[p_(x) for x in ms[:4]]))
                ctx.eq(g, (ns or b"") + want, "triple-id")
        ctx.eq(C.triple_copy(b, a), b, "triple-copy")
        ctx.eq(val(u), val(t), "triple-copy-fields")
        ctx.check(not {x for x in (t.s, t.p, t.o, t.d, t.id) if x} & {x for x in (u.s, u.p, u.o, u.d, u.id) if x}, "triple-copy-shared")
        old = val(t)
        first, second, other = (a, b, u) if rng.random() < .5 else (b, a, t)
        C.triple_clean(first)
        ctx.eq(val(other), old, "triple-copy-survives")
        C.triple_clean(second)
        ctx.eq((val(t), val(u)), ((None,) * 5,) * 2, "triple-clean")
        s = zz(w.s[0])
        ctx.check(not C.triple_get_id(None, s.p, None, s.p, None), "triple-id-null")
        errclr()


def g_namespace(ctx, i, rng):
    """Default namespaces are prepended to what has no namespace."""
    b = Backend("redland")
    for _ in range(5):
        ts = b.create()
        ns = gen.ident(rng).encode()
        call(b.set_namespace, ts, ns)
        model = set()
        for _ in range(10):
            t = [rng.choice([gen.ident(rng).encode(), b"ex:" + gen.ident(rng).encode()]) for _ in range(3)] + [rng.choice([None, b"@en", b"xsd:int"])]
            ctx.eq(call(b.add, ts, *t), 0, "add-namespaced")
            full = [x if b":" in x or (k == 2 and t[3]) else ns + b":" + x for k, x in enumerate(t[:3])] + [t[3]]
            model.add(tuple(full))
            g = rd(call(b.find_first, ts, *full[:3], None))
            ctx.check(g and g[:3] == tuple(full[:3]), "find-namespaced", (t, full, g))
        snapshot(ctx, b, ts, model, "namespaced")
        ctx.sig("namespace", len(model))
        b.free(ts)
        errclr()


def g_default_ns(ctx, i, rng):
    """The default namespace for triple ids."""
    ctx.eq(C.triple_get_default_namespace(), None, "default-namespace-unset")
    for _ in range(5):
        ns = rng.choice([None, b"", gen.ident(rng).encode(), gen.text(rng).replace("\0", "").encode("utf8", "surrogateescape")])
        m = zz(ns)
        C.triple_set_default_namespace(p_(m))
        del m
        ctx.eq(C.triple_get_default_namespace(), ns, "default-namespace")
        g = take_str(C.triple_get_id(None, b"a", b"b", b"c", None))
        ctx.eq(g, (ns or b"") + hashlib.sha1(b"abc").hexdigest().encode(), "id-in-default-namespace")
        ctx.sig("default-namespace", ns is None)
    C.triple_set_default_namespace(None)


def kf_idcollision(ctx, i, rng):
    """Ids of triples whose concatenated terms agree."""
    b = Backend("builtin")
    ts = b.create()
    call(b.add, ts, b"ab", b"c", b"d", None)
    call(b.add, ts, b"a", b"bc", b"d", None)
    ctx.eq(b.length(ts), 2, "builtin-id-collision")
    b.free(ts)


def setup():
    quiet()


GROUPS = [("redland", g_history("redland"), 60, 2000), ("builtin", g_history("builtin"), 60, 2000),
          ("modify", g_iterate_modify, 30, 1000), ("ids", g_ids, 20, 500), ("triple", g_triple, 20, 300),
          ("namespace", g_namespace, 10, 100), ("defaultns", g_default_ns, 4, 20), ("kf-idcollision", kf_idcollision, 1, 1)]
