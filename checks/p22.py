"""P22: in-memory containers behave as the maps they represent."""
import ctypes as c, json, os, subprocess, sys, textwrap
from dl import *
import gen

RULE = "distinct (container, operation, outcome, fill level) transitions observed"


class MapIter(c.Structure):
    _fields_ = [("bucketidx", c.c_uint), ("node", c.c_void_p)]


class MapBase(c.Structure):
    _fields_ = [("buckets", c.c_void_p), ("nbuckets", c.c_uint), ("nnodes", c.c_uint)]


class JIter(c.Structure):
    _fields_ = [("js", c.c_void_p), ("miter", MapIter)]


def fn(name, res, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = res, list(args)
    return f


def setup():
    quiet()
    S.hook_install()
    vp = c.c_void_p
    fn("map_iter_", MapIter)
    fn("map_next_", c.c_char_p, vp, vp)
    fn("map_get_", vp, vp, c.c_char_p)
    fn("map_set_", c.c_int, vp, c.c_char_p, vp, c.c_int)
    fn("map_remove_", None, vp, c.c_char_p)
    fn("map_deinit_", None, vp)
    fn("jstore_iter_init", c.c_int, vp, vp)
    fn("jstore_iter_next", c.c_char_p, vp)
    fn("jstore_get", c.c_char_p, vp, c.c_char_p)


def h32(s):
    h = 5381
    for b in s:
        h = ((h << 5) + h) & 0xffffffff
        h ^= b if b < 128 else (b - 256) & 0xffffffff
    return h


_coll = None


def colliding():
    """Groups of different keys with the same 32-bit hash."""
    global _coll
    if _coll is None:
        d = {}
        for a in range(33, 127):
            for b in range(33, 127):
                d.setdefault(h32(bytes([a, b])), []).append(bytes([a, b]))
        _coll = [g for g in d.values() if len(g) > 1]
    return _coll


def keypool(rng, quoted=False):
    n = rng.choice([1, 2, 3, 5, 17, 64, 200, 1000])
    style = rng.choice("short collide text seq prefix".split())
    out = []
    if style == "collide":
        for g in rng.sample(colliding(), min(n, 40)):
            out += g
        for k in list(out)[:20]:               # same pairs behind a common prefix also collide
            out.append(b"x" * 5 + k)
    for i in range(n):
        if style == "short":
            out.append(bytes(rng.randint(97, 122) for _ in range(rng.randint(0, 2))))
        elif style == "seq":
            out.append(b"key%d" % i)
        elif style == "prefix":
            out.append(b"a" * (i % 300))
        elif style == "text":
            out.append(gen.text(rng).replace("\0", "").encode("utf8", "surrogateescape"))
    if quoted:
        # keys of the JSON store are the characters between the quotes
        asc = rng.random() < .5
        out = [json.dumps(k.decode("utf8", "replace"), ensure_ascii=asc)[1:-1].encode() for k in out]
    return list(dict.fromkeys(out)), style


# ---- string map --------------------------------------------------------------------------------
def g_map(ctx, i, rng):
    vs = rng.choice([1, 4, 8, 8, 16, 24, 33])
    keys, style = keypool(rng)
    m = MapBase()
    pm = c.addressof(m)
    model = {}
    S.hook_begin()
    prem = rng.choice([.05, .3, .5])
    for step in range(rng.choice([30, 200, 800])):
        k = rng.choice(keys)
        r = rng.random()
        full = len(model).bit_length()
        if r < prem:
            C.map_remove_(pm, k)
            ctx.sig("map", "remove", k in model, full)
            model.pop(k, None)
            ctx.check(not C.map_get_(pm, k), "removed-still-there", k)
        elif r < .75:
            v = rng.randbytes(vs)
            b = (c.c_char * vs).from_buffer_copy(v)
            kb = (c.c_char * (len(k) + 1)).from_buffer_copy(k + b"\0")
            n = C.map_set_(pm, c.cast(kb, c.c_char_p), c.addressof(b), vs)
            ctx.eq(n, 0, "set", k)
            c.memset(kb, 0x41, len(k) + 1)          # the map has its own copies
            c.memset(b, 0x41, vs)
            del kb, b
            ctx.sig("map", "set", k in model, full)
            model[k] = v
        else:
            p = C.map_get_(pm, k)
            ctx.sig("map", "get", k in model, full)
            ctx.eq(c.string_at(p, vs) if p else None, model.get(k), "get", k)
        ctx.eq(m.nnodes, len(model), "count")
        if rng.random() < .02 or step % 100 == 99:
            check_map(ctx, pm, model, vs)
    check_map(ctx, pm, model, vs)
    for k in keys:
        p = C.map_get_(pm, k)
        ctx.eq(c.string_at(p, vs) if p else None, model.get(k), "get-all", k)
    C.map_deinit_(pm)
    ctx.note("map operations", step)
    S.hook_end()


def check_map(ctx, pm, model, vs):
    it = C.map_iter_()
    seen = []
    while True:
        k = C.map_next_(pm, c.addressof(it))
        if k is None:
            break
        seen.append(k)
        if len(seen) > len(model) + 5:
            break
    ctx.eq(sorted(seen), sorted(model), "iteration")
    ctx.sig("map", "iter", len(model).bit_length())


# ---- JSON store ----------------------------------------------------------------------------------
def jvalue(rng, depth=2):
    r = rng.random()
    if depth and r < .25:
        return {gen.ident(rng, 3): jvalue(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    if depth and r < .45:
        return [jvalue(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([None, True, False, rng.randint(-9, 10**9), rng.uniform(-1, 1), "", gen.text(rng).replace("\0", "")])


def jtext(rng):
    return json.dumps(jvalue(rng), ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1])).encode("utf8", "replace")


def jobject(rng, keys):
    """Text of an object and the expected {key: text of value}."""
    ks = rng.sample(keys, min(len(keys), rng.randint(0, 6)))
    d = {k: jtext(rng) for k in ks}
    w = lambda: rng.choice([b"", b"", b" ", b"\n  ", b"\t"])
    t = w() + b"{" + b",".join(w() + b'"' + k + b'"' + w() + b":" + w() + v + w() for k, v in d.items()) + w() + b"}" + w()
    return t, d


def jcontent(ctx, js, model, key):
    ctx.eq(C.jstore_count(js), len(model), key + "-count")
    it = JIter()
    C.jstore_iter_init(js, c.addressof(it))
    seen = []
    while len(seen) <= len(model) + 5:
        k = C.jstore_iter_next(c.addressof(it))
        if k is None:
            break
        seen.append(k)
        ctx.eq(C.jstore_get(js, k), model.get(k), key + "-iter-value", k)
    C.jstore_iter_deinit(c.addressof(it))
    ctx.eq(sorted(seen), sorted(model), key + "-iteration")
    single = C.jstore_get_single_key(js)
    ctx.eq(single, list(model)[0] if len(model) == 1 else None, key + "-single")


def g_jstore(ctx, i, rng):
    keys, style = keypool(rng, quoted=True)
    fname = os.path.join(ctx.work, "js%d.json" % i).encode()
    S.hook_begin()
    js, model, labels = C.jstore_open(), {}, {}
    for step in range(rng.choice([10, 60, 200])):
        k = rng.choice(keys)
        op = rng.choice("add add addn steal get remove label getlabel update string file tofile tostring bad updatefile".split())
        ctx.sig("jstore", op, k in model, len(model).bit_length())
        if op == "add":
            v = jtext(rng)
            ctx.eq(C.jstore_add(js, k, v), 0, "add")
            model[k] = v
        elif op == "addn":
            v = jtext(rng)
            kb = (c.c_char * max(1, len(k))).from_buffer_copy(k or b"\0")       # not NUL-terminated
            vb = (c.c_char * len(v)).from_buffer_copy(v)
            ctx.eq(C.jstore_addn(js, c.cast(kb, c.c_char_p), len(k), c.cast(vb, c.c_char_p), len(v)), 0, "addn")
            model[k] = v
        elif op == "steal":
            v = jtext(rng)
            ctx.eq(C.jstore_addstolen(js, k, c.cast(libc.strdup(v), c.c_char_p)), 0, "addstolen")
            model[k] = v
        elif op == "get":
            ctx.eq(C.jstore_get(js, k), model.get(k), "get", k)
        elif op == "remove":
            ctx.eq(C.jstore_remove(js, k) == 0, k in model, "remove", k)
            model.pop(k, None)
        elif op == "label":
            if rng.random() < .5:
                l = gen.ident(rng, rng.choice([1, 9])).encode()
                ctx.eq(C.jstore_set_label(js, k, l), 0, "label")
            else:
                l = gen.ident(rng, 6).encode()
                n = rng.randint(0, len(l))
                lb = (c.c_char * max(1, n)).from_buffer_copy(l[:n] or b"\0")
                ctx.eq(C.jstore_set_labeln(js, k, c.cast(lb, c.c_char_p), n), 0, "labeln")
                l = l[:n]
            labels[k] = l
        elif op == "getlabel":
            ctx.eq(C.jstore_get_label(js, k), labels.get(k), "getlabel", k)
        elif op == "update":
            o, om = C.jstore_open(), {}
            for q in rng.sample(keys, min(len(keys), 5)):
                om[q] = jtext(rng)
                C.jstore_add(o, q, om[q])
            if rng.random() < .2:
                ctx.eq(C.jstore_update(js, js), 0, "self-update")
            ctx.eq(C.jstore_update(js, o), 0, "update")
            model.update(om)
            jcontent(ctx, o, om, "other")
            C.jstore_close(o)
        elif op in ("string", "file"):
            t, d = jobject(rng, keys)
            if op == "string":
                tb = (c.c_char * len(t)).from_buffer_copy(t)
                ctx.eq(C.jstore_update_from_string(js, c.cast(tb, c.c_char_p), len(t)), 0, "update-string", t)
            else:
                with open(fname, "wb") as f:
                    f.write(t)
                ctx.eq(C.jstore_update_from_file(js, fname), 0, "update-file", t)
            model.update(d)
            for q in d:
                ctx.eq(C.jstore_get(js, q), d[q], "from-text", t)
        elif op == "bad":
            t = rng.choice([b"[1, 2]", b"3", b'"x"', b'{"a": ', b"{", b"", b'{"a" 1}'])
            ctx.check(C.jstore_update_from_string(js, t, len(t)) != 0, "bad-accepted", t)
            errclr()
        elif op in ("tostring", "tofile"):
            if op == "tostring":
                t = take_str(C.jstore_to_string(js))
            else:
                ctx.eq(C.jstore_to_file(js, fname), 0, "to-file")
                t = open(fname, "rb").read()
            check_text(ctx, t, model, op)
            o = C.jstore_open()
            ctx.eq(C.jstore_update_from_string(o, t, len(t)), 0, "reread", t)
            jcontent(ctx, o, model, "reread")
            C.jstore_close(o)
        elif op == "updatefile":
            t, d = jobject(rng, keys)
            with open(fname, "wb") as f:
                f.write(t)
            ctx.eq(C.jstore_update_file(js, fname), 0, "update_file")
            check_text(ctx, open(fname, "rb").read(), {**d, **model}, op)
        if rng.random() < .1:
            jcontent(ctx, js, model, "content")
    jcontent(ctx, js, model, "content")
    for k in keys:
        ctx.eq(C.jstore_get(js, k), model.get(k), "get-all", k)
        ctx.eq(C.jstore_get_label(js, k), labels.get(k), "label-all", k)
    C.jstore_close(js)
    S.hook_end()


def check_text(ctx, t, model, op):
    try:
        d = json.loads(t.decode("utf8", "surrogateescape"))
    except ValueError as e:
        return ctx.fail("invalid-json:" + op, "%s\n%r" % (e, t))
    want = {json.loads('"%s"' % k.decode("utf8", "surrogateescape")): json.loads(v.decode("utf8", "surrogateescape"))
            for k, v in model.items()}
    ctx.eq(d, want, "text:" + op)


def g_jleak(ctx, i, rng):
    """Everything stored is freed exactly once: no block of the store survives its closing."""
    keys, style = keypool(rng, quoted=True)
    keys = keys[:50]
    plan = []
    for _ in range(60):
        plan.append((rng.choice("add steal remove label string bad update tostr".split()), rng.choice(keys), jtext(rng),
                     jobject(rng, keys)[0]))

    def run():
        js = C.jstore_open()
        for op, k, v, t in plan:
            if op == "add":
                C.jstore_add(js, k, v)
            elif op == "steal":
                C.jstore_addstolen(js, k, c.cast(libc.strdup(v), c.c_char_p))
            elif op == "remove":
                C.jstore_remove(js, k)
            elif op == "label":
                C.jstore_set_label(js, k, k)
            elif op == "string":
                C.jstore_update_from_string(js, t, len(t))
            elif op == "bad":
                C.jstore_update_from_string(js, b"[1, {}]", 7)
                errclr()
            elif op == "tostr":
                libc.free(C.jstore_to_string(js))
            else:
                o = C.jstore_open()
                C.jstore_add(o, k, v)
                C.jstore_update(js, o)
                C.jstore_close(o)
        C.jstore_close(js)
    run()
    best = None
    for _ in range(3):
        S.hook_begin()
        for _ in range(4):
            run()
        n = S.hook_end()
        best = n if best is None else min(best, n)
    ctx.check(best < 4, "leak", "%d blocks after 4 repetitions of %r" % (best, plan))
    ctx.sig("jleak", style, best)


# ---- sessions ----------------------------------------------------------------------------------
FREE = c.CFUNCTYPE(None, c.c_void_p)


def g_session(ctx, i, rng):
    for n, r, a in [("session_create", c.c_void_p, [c.c_char_p]), ("session_get", c.c_void_p, [c.c_char_p]),
                    ("session_get_id", c.c_char_p, [c.c_void_p]), ("session_free", None, [c.c_void_p]),
                    ("session_add_state", c.c_int, [c.c_void_p, c.c_char_p, c.c_void_p, c.c_void_p]),
                    ("session_remove_state", c.c_int, [c.c_void_p, c.c_char_p]),
                    ("session_get_state", c.c_void_p, [c.c_void_p, c.c_char_p])]:
        fn(n, r, *a)
    freed = []
    cur = [None]

    def on_free(p):
        freed.append(p)
        if cur[0] and rng.random() < .3:           # documented: refused while freeing
            ctx.check(C.session_add_state(cur[0], b"late", 1, None) != 0, "add-while-freeing")
            errclr()
    cb = FREE(on_free)
    default = C.session_get_default()
    live, gone = {}, set()
    nid = 0
    sid = lambda: b"s%d-%d" % (i, rng.randint(0, 12))
    for step in range(120):
        op = rng.choice("create get add add add state remove free default".split())
        s = sid()
        name = b"st%d" % rng.randint(0, 40)
        ctx.sig("session", op, s in live, len(live), len(live.get(s, (0, {}))[1]).bit_length())
        if op == "create":
            p = C.session_create(s)
            if s in live:
                ctx.check(not p and errval() != 0, "duplicate-session", s)
            else:
                ctx.check(p, "create", s)
                live[s] = (p, {})
        elif op == "get":
            p = C.session_get(s)
            ctx.eq(p, live[s][0] if s in live else None, "get-session", s)
            if p:
                ctx.eq(C.session_get_id(p), s, "session-id")
        elif op == "default":
            ctx.eq(C.session_get_default(), default, "default-session")
        elif s in live:
            p, st = live[s]
            if op == "add":
                nid += 1
                counted = rng.random() < .7
                r = C.session_add_state(p, name, nid, c.cast(cb, c.c_void_p) if counted else None)
                ctx.eq(r == 0, name not in st, "add-state", name)
                if r == 0:
                    st[name] = (nid, counted)
            elif op == "state":
                ctx.eq(C.session_get_state(p, name), st[name][0] if name in st else None, "get-state", name)
            elif op == "remove":
                del freed[:]
                r = C.session_remove_state(p, name)
                ctx.eq(r == 0, name in st, "remove-state", name)
                want = [st[name][0]] if name in st and st[name][1] else []
                ctx.eq(freed, want, "state-freed", name)
                st.pop(name, None)
            elif op == "free" and rng.random() < .5:
                del freed[:]
                cur[0] = p
                C.session_free(p)
                cur[0] = None
                ctx.eq(sorted(freed), sorted(v for v, cnt in st.values() if cnt), "freed-states", s)
                del live[s]
        errclr()
        for s, (p, st) in live.items():
            ctx.eq(C.session_get(s), p, "other-session", s)
            for name, (v, cnt) in st.items():
                ctx.eq(C.session_get_state(p, name), v, "other-state", name)
    for s, (p, st) in live.items():
        del freed[:]
        C.session_free(p)
        ctx.eq(sorted(freed), sorted(v for v, cnt in st.values() if cnt), "freed-states", s)
        ctx.check(not C.session_get(s), "freed-session-found", s)
    errclr()


DEFAULT = r'''
import ctypes as c, sys, json
u = c.CDLL(sys.argv[1]); plan = json.loads(sys.argv[2])
for n in "create get get_default get_state".split():
    getattr(u, "session_" + n).restype = c.c_void_p
P = c.c_void_p
u.err_set_stream.argtypes = [P]; u.err_set_stream(None)
CB = c.CFUNCTYPE(None, c.c_void_p)
freed = []
cb = CB(lambda p: freed.append(p))
nid = 0
live, default = {}, None
def ok(b, *a):
    if not b: print("BAD", *a); sys.exit(1)
for op, k in plan:
    name = b"d%d" % k
    if op == "create" and name not in live:
        live[name] = (u.session_create(name), {})
    elif op == "set" and name in live:
        r = u.session_set_default(P(live[name][0]))
        ok((r == 0) == (default is None or default == name), "set_default", k, r)
        if r == 0: default = name
    elif op == "get":
        p = u.session_get_default()
        if default is None:
            default = b":default-session:"
            live[default] = (p, {})
        ok(p == live[default][0], "default is another session")
    elif op == "add" and default:
        p = u.session_get_default()
        nid += 1
        key = b"k%d" % nid
        ok(u.session_add_state(P(p), key, P(nid), cb) == 0, "add")
        live[default][1][key] = nid
    elif op == "free":
        n = default if k % 2 and default else name
        if n in live:
            del freed[:]
            u.session_free(P(live[n][0]))
            ok(sorted(freed) == sorted(live[n][1].values()), "freed", freed, live[n])
            del live[n]
            if n == default: default = None
    for n, (p, st) in live.items():
        ok(u.session_get(n) == p, "session", n)
        for key, v in st.items():
            ok(u.session_get_state(P(p), key) == v, "state", n, key)
for n, (p, st) in list(live.items()):
    del freed[:]
    u.session_free(P(p))
    ok(sorted(freed) == sorted(st.values()), "finally freed", freed, st)
print("OK")
'''


def g_default(ctx, i, rng):
    """Default session in a fresh process."""
    plan = [(rng.choice("create set get add add add free".split()), rng.randint(0, 3)) for _ in range(80)]
    from dl import _BDIR
    lib = os.path.join(_BDIR, "src", "utils", "libdlite-utils.so")
    r = subprocess.run([sys.executable, "-c", DEFAULT, lib, json.dumps(plan)], capture_output=True, timeout=60)
    ctx.events += len(plan)
    ctx.check(r.returncode == 0 and b"OK" in r.stdout, "default-session",
              lambda: r.stdout.decode()[-500:] + r.stderr.decode()[-2000:])
    ctx.sig("default", tuple(plan[:6]))


# ---- instance store --------------------------------------------------------------------------------
def store_ids(st):
    out = (c.c_char_p * 64)()
    n = S.store_ids(c.c_void_p(st), out, 64) if False else None
    f = S.store_ids
    f.argtypes = [c.c_void_p, c.c_void_p, c.c_int]
    n = f(st, c.addressof(out), 64)
    return [out[k].decode() for k in range(min(n, 64))]


def g_store(ctx, i, rng):
    e = gen.rand_entity(rng, maxdims=1, maxprops=2, kinds="iS")
    meta = gen.c_meta(e)
    insts, own = [], {}
    for k in range(rng.choice([1, 3, 8, 20])):
        uri = "http://store.org/%s" % gen.ident(rng, 12) if rng.random() < .5 else None
        p = gen.c_instance(meta, [2] * len(e.dims), uri)
        ctx.check(p, "create")
        insts.append((p, S.s_uuid(p).decode(), uri))
        own[p] = 1
    st = C.dlite_store_create()
    model = {}
    for step in range(rng.choice([10, 60, 150])):
        p, uuid, uri = rng.choice(insts)
        id = (uri if uri and rng.random() < .5 else rng.choice([uuid, uuid.upper()])).encode()
        op = rng.choice("add addnew pop popall remove get unknown".split())
        ctx.sig("store", op, min(model.get(uuid, 0), 3), len(model).bit_length())
        if op == "add":
            ctx.eq(C.dlite_store_add(st, p), 0, "add")
            model[uuid] = model.get(uuid, 0) + 1
        elif op == "addnew":
            C.dlite_instance_incref(p)
            ctx.eq(C.dlite_store_add_new(st, p), 0, "add_new")
            model[uuid] = model.get(uuid, 0) + 1
        elif op in ("pop", "popall"):
            q = (C.dlite_store_pop if op == "pop" else C.dlite_store_pop_all)(st, id)
            ctx.eq(q, p if uuid in model else None, op, id)
            if uuid in model:
                model[uuid] = model[uuid] - 1 if op == "pop" else 0
                if not model[uuid]:
                    del model[uuid]
                ctx.eq(S.s_refcount(p), own[p] + model.get(uuid, 0) + 1, op + "-reference", id)
                C.dlite_instance_decref(p)
        elif op == "remove":
            ctx.eq(C.dlite_store_remove(st, id) == 0, uuid in model, "remove", id)
            if uuid in model:
                model[uuid] -= 1
                if not model[uuid]:
                    del model[uuid]
        elif op == "get":
            ctx.eq(C.dlite_store_get(st, id), p if uuid in model else None, "get", id)
        else:
            ctx.check(not C.dlite_store_get(st, b"nosuch-%d" % step), "unknown")
            ctx.check(C.dlite_store_remove(st, b"nosuch-%d" % step) != 0, "remove-unknown")
        errclr()
        ctx.eq(sorted(store_ids(st)), sorted(model), "iteration")
        for p, uuid, uri in insts:
            ctx.eq(S.s_refcount(p), own[p] + model.get(uuid, 0), "refcount", (op, uuid))
    C.dlite_store_free(st)
    for p, uuid, uri in insts:
        ctx.eq(S.s_refcount(p), 1, "refcount-after-free", uuid)
        C.dlite_instance_decref(p)
    C.dlite_meta_decref(meta)


def g_store_io(ctx, i, rng):
    """A store saved and loaded holds the same instances."""
    e = gen.rand_entity(rng, maxdims=2, maxprops=3, kinds="iufsS")
    meta = gen.c_meta(e)
    st, want = C.dlite_store_create(), {}
    for k in range(rng.randint(1, 6)):
        dims = [rng.randint(0, 3) for _ in e.dims]
        p = gen.c_instance(meta, dims, None)
        vals = gen.rand_values(rng, e, dims, special=False)
        gen.fill(p, e, vals)
        want[S.s_uuid(p).decode()] = gen.read_all(p, e)
        ctx.eq(C.dlite_store_add_new(st, p), 0, "add_new")
    f = os.path.join(ctx.work, "st%d.json" % i).encode()
    s = C.dlite_storage_open(b"json", f, b"mode=w")
    ctx.eq(C.dlite_store_save(s, st), 0, "save")
    C.dlite_storage_close(s)
    C.dlite_store_free(st)
    for u in want:
        ctx.check(not C.dlite_instance_has(u.encode(), False), "not-freed", u)
    s = C.dlite_storage_open(b"json", f, b"mode=r")
    if not ctx.check(s, "open", lambda: (C.dlite_errmsg(), open(f).read()[-1500:])):
        return
    st = C.dlite_store_load(s)
    C.dlite_storage_close(s)
    if ctx.check(st, "load", C.dlite_errmsg()):
        ctx.eq(sorted(store_ids(st)), sorted(want), "loaded-ids")
        for u, v in want.items():
            p = C.dlite_store_get(st, u.encode())
            ctx.check(p and gen.same(gen.read_all(p, e), v), "loaded-values", u)
            ctx.eq(S.s_refcount(p), 1, "loaded-refcount")
        C.dlite_store_free(st)
        for u in want:
            ctx.check(not C.dlite_instance_has(u.encode(), False), "loaded-not-freed", u)
    errclr()
    C.dlite_meta_decref(meta)
    ctx.sig("store-io", len(want), len(e.props))


GROUPS = [("map", g_map, 60, 1500), ("jstore", g_jstore, 60, 1500), ("jleak", g_jleak, 10, 100),
          ("session", g_session, 20, 300), ("default-session", g_default, 16, 150), ("store", g_store, 30, 500),
          ("store-io", g_store_io, 16, 200)]
