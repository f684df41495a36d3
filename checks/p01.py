"""P01: identifiers and UUIDs."""
import ctypes as c, os, re, subprocess, uuid as U
import build
from dl import *
import gen

RULE = "distinct (id class, namespacing, length bucket, result class) combinations observed"
NS = "http://onto-ns.com/data"
UUID_RX = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$")
RANDOM, HASH, COPY = 0, 1, 2


def setup():
    quiet()


def make_id(rng):
    k = rng.randrange(8)
    u = new_uuid(rng)
    if k == 0:
        return "uuid", gen.uuid_case(rng, u), u
    if k == 1:
        u = str(U.UUID(int=rng.getrandbits(128)))
        return "uuid", gen.uuid_case(rng, u), u
    if k == 2:
        return "uri/uuid", gen.url(rng, gen.uuid_case(rng, u)), u
    if k in (3, 4):
        return "uri", (gen.url(rng) if k == 3 else gen.meta_uri(rng)), None
    if k == 5:   # nearly a uuid
        s = list(u)
        j = rng.randrange(36)
        s[j] = rng.choice("gz_-0") if s[j] != "-" else rng.choice("0a_")
        s = "".join(s)
        return ("name", s, None) if not UUID_RX.match(s.lower()) else ("uuid", s, s.lower())
    if k == 6:   # uuid embedded in a name
        return "name", rng.choice([u + "x", "x" + u, u[:-1], u + u, u[:35]]), None
    return "name", gen.name(rng), None


def model(kind, s, u, namespaced):
    b = s.encode()
    if kind in ("uuid", "uri/uuid"):
        return COPY, u.lower()
    if kind == "uri":
        return HASH, uuid5(b)
    return HASH, uuid5((NS + "/").encode() + b if namespaced else b)


def norm_model(kind, s, ns):
    if kind in ("uri", "uri/uuid"):
        return s
    ns = ns or NS
    return ns + ("" if ns[-1] in "/#" else "/") + s


def g_table(ctx, i, rng):
    for _ in range(40):
        kind, s, u = make_id(rng)
        b = s.encode()
        for namespaced in (0, 1):
            C.dlite_behavior_set(b"namespacedID", namespaced)
            out = buf(37)
            t = C.dlite_get_uuid(out, b)
            want = model(kind, s, u, namespaced)
            ctx.eq((t, out.value.decode("latin1")), want, "uuid-" + kind, lambda: "id=%r namespacedID=%d" % (s, namespaced))
            ctx.check(UUID_RX.match(out.value.decode("latin1")), "uuid-form", s)
            # explicit length: bytes behind the given length must not influence the result
            tail = rng.choice([b"", b"x", b"/", b"abc-def", b"0", b"-"])
            full = b + tail
            cb = (c.c_char * (len(full) + 1)).from_buffer_copy(full + b"\0")
            out2 = buf(37)
            t2 = C.dlite_get_uuidn(out2, cb, len(b))
            ctx.eq((t2, out2.value), (t, out.value), "uuidn-" + kind, lambda: "id=%r tail=%r" % (s, tail))
            ctx.sig(kind, namespaced, min(len(b) // 16, 20), t)
        ctx.eq(C.dlite_idtype(b), want[0], "idtype-" + kind, s)
        ctx.eq(C.dlite_isuuid(b) != 0 and len(b) == 36, kind == "uuid", "isuuid", s)
        ctx.sample("%s -> %s" % (s[:100], out.value.decode()))
        # determinism
        out3 = buf(37)
        C.dlite_get_uuid(out3, b)
        ctx.eq(out3.value, out.value, "uuid-deterministic", s)
    errclr()


def g_normalise(ctx, i, rng):
    C.dlite_behavior_set(b"namespacedID", 1)
    for _ in range(30):
        kind, s, u = make_id(rng)
        b = s.encode()
        ns = rng.choice([None, None, gen.meta_uri(rng), gen.meta_uri(rng) + "/", gen.meta_uri(rng) + "#"])
        want = norm_model(kind, s, ns).encode()
        for n in {0, 1, rng.randint(1, len(want) + 5), len(want), len(want) + 1, len(want) + 9}:
            out = buf(n) if n else None
            r = C.dlite_normalise_id(out, n, b, ns.encode() if ns else None)
            ctx.eq(r, len(want), "normalise-return", lambda: "id=%r n=%d" % (s, n))
            if n:
                ctx.eq(out.raw.split(b"\0")[0] + (b"\0" if b"\0" in out.raw else b""), want[:n - 1] + b"\0",
                       "normalise-text-" + kind, lambda: "id=%r ns=%r n=%d" % (s, ns, n))
        cb = (c.c_char * (len(b) + 4)).from_buffer_copy(b + b"zzz\0")
        out = buf(len(want) + 1)
        r = C.dlite_normalise_idn(out, len(want) + 1, cb, len(b), ns.encode() if ns else None)
        ctx.eq((r, out.value), (len(want), want), "normalise-n", s)
        ctx.sig("norm", kind, ns is None, len(b) // 16)
        # the normalised form and the id denote the same UUID (with the default namespace)
        if ns is None and (re.fullmatch(r"[\w.~/-]+", s, re.A) and
                           not UUID_RX.match(s[-36:].lower())) or ns is None and kind in ("uri", "uri/uuid"):
            o1, o2 = buf(37), buf(37)
            C.dlite_get_uuid(o1, b)
            C.dlite_get_uuid(o2, want)
            ctx.eq(o2.value, o1.value, "normalised-same-uuid", s)
            ctx.note("normalised_ids_compared")
            o3 = buf(len(want) + 1)
            C.dlite_normalise_id(o3, len(want) + 1, want, None)
            ctx.eq(o3.value, want, "normalise-idempotent", s)
    out = buf(4)
    ctx.eq((C.dlite_normalise_id(out, 4, None, None), out.value), (0, b""), "normalise-null")
    errclr()


def g_random(ctx, i, rng):
    seen = set()
    for k in range(400):
        out = buf(37)
        arg = rng.choice([None, b""])
        t = C.dlite_get_uuid(out, arg) if k % 2 else C.dlite_get_uuidn(out, rng.choice([None, b"abc"]), 0)
        v = out.value.decode()
        ctx.eq(t, RANDOM, "random-type")
        ctx.check(UUID_RX.match(v) and v[14] == "4" and v[19] in "89ab", "random-form", v)
        ctx.check(v not in seen, "random-unique", v)
        seen.add(v)
        ctx.sig("rnd", v[:2])


def g_instance(ctx, i, rng):
    """The identity rule as seen on live instances, from C and from Python."""
    import dlite
    for _ in range(6):
        ns = rng.randrange(2)
        C.dlite_behavior_set(b"namespacedID", ns)
        e = gen.rand_entity(rng, kinds="if", maxdims=1, maxprops=2)
        m = gen.py_meta(e)
        ctx.eq(m.uuid, uuid5(e.uri), "meta-uuid", e.uri)
        ctx.eq(m.uri, e.uri, "meta-uri")
        for _ in range(5):
            kind, s, u = make_id(rng)
            inst = m(dimensions=[2] * len(e.dims), id=s)
            want = model(kind, s, u, ns)[1]
            ctx.eq(inst.uuid, want, "instance-uuid-" + kind, s)
            ctx.eq(dlite.get_uuid(s), want, "py-get-uuid", s)
            if kind == "uri":
                ctx.eq(inst.uri, s, "instance-uri", s)
            if kind in ("uri", "uri/uuid"):
                ctx.eq(dlite.normalise_id(s), s, "py-normalise", s)
            else:
                ctx.eq(dlite.normalise_id(s), NS + "/" + s, "py-normalise", s)
            ctx.eq(dlite.get_idtype(s), ["Random", "Hash", "Copy"][model(kind, s, u, ns)[0]], "py-idtype", s)
            ctx.check(dlite.has_instance(inst.uuid), "has-by-uuid", s)
            ctx.check(dlite.has_instance(s), "has-by-id", s)
            ctx.sig("inst", kind, ns)
            del inst
        r = m(dimensions=[1] * len(e.dims))
        ctx.check(UUID_RX.match(r.uuid) and r.uuid[14] == "4", "random-instance", r.uuid)


def g_metauri(ctx, i, rng):
    for _ in range(40):
        nm, ver, ns = gen.ident(rng), "%d.%d%s" % (rng.randint(0, 30), rng.randint(0, 30), rng.choice(["", ".1", "-a"])), \
            rng.choice([gen.url(rng), "http://onto-ns.com/meta", "http://ex.com/" + gen.ident(rng), gen.ident(rng)])
        j = take_str(C.dlite_join_meta_uri(nm.encode(), ver.encode(), ns.encode()))
        ctx.eq(j, ("%s/%s/%s" % (ns, ver, nm)).encode(), "join-meta-uri")
        a, b2, d = c.c_void_p(), c.c_void_p(), c.c_void_p()
        sel = [rng.random() < .8 for _ in range(3)]
        r = C.dlite_split_meta_uri(j, c.byref(a) if sel[0] else None, c.byref(b2) if sel[1] else None,
                                   c.byref(d) if sel[2] else None)
        ctx.eq(r, 0, "split-return", j)
        got = [take_str(x.value) for x in (a, b2, d)]
        ctx.eq(got, [v.encode() if q else None for v, q in zip((nm, ver, ns), sel)], "split-meta-uri", j)
        ctx.sig("meta", len(nm), tuple(sel))
    for bad in (b"abc", b"x", b"a/b"):
        a = c.c_void_p()
        ctx.check(C.dlite_split_meta_uri(bad, c.byref(a), None, None) != 0, "split-invalid", bad)
        errclr()


def g_tool(ctx, i, rng):
    exe = os.path.join(build.ROOT, "py", "tools", "dlite-getuuid")
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    kind, s, u = make_id(rng)
    if s.startswith("-"):
        s = "n" + s
        kind, u = "name", None
    ns = rng.randrange(2)
    env["DLITE_BEHAVIOR_namespacedID"] = str(ns)
    p = subprocess.run([exe, s], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ctx.eq((p.returncode, p.stdout.decode().strip()), (0, model(kind, s, u, ns)[1]), "tool", s)
    ctx.sig("tool", kind, ns)
    if i == 0:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        ctx.check(UUID_RX.match(p.stdout.decode().strip()), "tool-random", p.stdout)


def g_kf_trailing(ctx, i, rng):
    """Documented: an optional final hash or slash is stripped off."""
    u = "b7ffeb70-5ffe-43de-91e0-941244d21d68"
    for s in ("http://onto-ns.com/meta/0.1/Collection/" + u + "#", "http://onto-ns.com/meta/0.1/Collection/" + u + "/"):
        out = buf(37)
        C.dlite_get_uuid(out, s.encode())
        ctx.eq(out.value.decode(), u, "trailing", s)


def g_kf_nonurl(ctx, i, rng):
    """A name with characters that are not allowed in a URL and its normalised form get different UUIDs."""
    C.dlite_behavior_set(b"namespacedID", 1)
    for s in ("rv\u00dfx", "a b"):
        o1, o2, o3 = buf(37), buf(37), buf(200)
        C.dlite_get_uuid(o1, s.encode())
        C.dlite_normalise_id(o3, 200, s.encode(), None)
        C.dlite_get_uuid(o2, o3.value)
        ctx.eq(o2.value, o1.value, "normalised", s)


GROUPS = [
    ("table", g_table, 48, 600),
    ("normalise", g_normalise, 32, 400),
    ("random", g_random, 8, 40),
    ("instance", g_instance, 24, 200),
    ("metauri", g_metauri, 8, 80),
    ("tool", g_tool, 16, 100),
    ("kf-trailing", g_kf_trailing, 1, 1),
    ("kf-normalised-nonurl-name", g_kf_nonurl, 1, 1),
]
