"""P11: malformed input is a clean error and never corrupts memory."""
import ctypes as c, copy, gc, json, os, random, re, struct, sys, traceback
from dl import *
import gen
from gen import Entity, Prop

RULE = "distinct (input kind, mutation, reader, outcome) observations"
ENTITY = "http://onto-ns.com/meta/0.3/EntitySchema"


def setup():
    quiet()
    import dlite
    global dlite, canaries
    for f in ("dlite_json_sscan", "dlite_bson_load_instance", "dlite_json_iter_create", "dlite_json_next", "tgen"):
        getattr(C, f).restype = c.c_void_p
    rng = random.Random(4)
    canaries = []
    for _ in range(3):
        e = gen.rand_entity(rng, "niufsSb", maxdims=2, maxprops=5, exprs=False)
        m = gen.py_meta(e)
        inst = m([2] * len(e.dims))
        vals = gen.rand_values(rng, e, [2] * len(e.dims), special=False, txt=gen.plain)
        gen.fill(gen.ptr(inst), e, vals)
        canaries.append((e, m, inst, vals, inst.asjson()))


# ---------------------------------------------------------------- mutations
NUMS = [0, -1, 1, 2, 3, 7, 255, 256, 65536, 10**6, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**63 - 1, 2**63, -2**63, 2**64, 10**30]
TOK = ["{", "}", "[", "]", ",", ":", '"', "\\", "\\u", "\\uD800", "null", "true", "nan", "-", ".", "e", "1e999", "\0", "\n", " ", "/", "#", "\xff", "é", "0x", "'",
       "$ref", "uri", "uuid", "meta", "dimensions", "properties", "relations", "dims", "shape", "type", "name", "unit", "description", "namespace", "version", "{a}", "{@", "@if:", "{{", "}}", "{@endif}", "'", "'a'"]
TYPES = ["int", "int7", "int32", "int64", "uint8", "uint0", "float", "float16", "float64", "double", "string", "string0", "string1", "string10", "string-1",
         "string99999999999999999999", "blob", "blob0", "blob3", "blob2147483648", "bool", "bool2", "ref", "instance", "relation", "dimension", "property", "", "x", "int32x",
         "longdouble", "char", "str", "list"]


def mut_text(rng, s, other=""):
    """Mutate text (str); returns (text, description)."""
    ks = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        n = len(s)
        k = rng.choice(["del", "dup", "tok", "tok", "flip", "trunc", "splice", "num", "swap", "delquote", "delbrace"])
        i = rng.randrange(n + 1)
        j = min(n, i + rng.choice([1, 1, 2, 5, 20, 100]))
        if k == "del":
            s = s[:i] + s[j:]
        elif k == "dup":
            s = s[:j] + s[i:j] + s[j:]
        elif k == "tok":
            s = s[:i] + rng.choice(TOK) + s[i + rng.choice([0, 1]):]
        elif k == "flip" and n:
            i %= n
            s = s[:i] + chr(rng.choice([ord(s[i]) ^ (1 << rng.randrange(7)), rng.randrange(1, 256)])) + s[i + 1:]
        elif k == "trunc":
            s = s[:i]
        elif k == "splice" and other:
            a = rng.randrange(len(other))
            s = s[:i] + other[a:a + rng.choice([1, 10, 100, 1000])] + s[j:]
        elif k == "num":
            ms = list(re.finditer(r"-?\d+(\.\d+)?", s))
            if ms:
                m = rng.choice(ms)
                s = s[:m.start()] + str(rng.choice(NUMS)) + s[m.end():]
        elif k == "swap":
            a, b = rng.randrange(n + 1), rng.randrange(n + 1)
            a, b = min(a, b), max(a, b)
            s = s[:a] + s[b:] + s[a:b] if rng.random() < .3 else s[:a] + s[a:b][::-1] + s[b:]
        elif k in ("delquote", "delbrace"):
            ps = [x for x, ch in enumerate(s) if ch in ('"' if k == "delquote" else "[]{},:")]
            if ps:
                x = rng.choice(ps)
                s = s[:x] + s[x + 1:]
        ks.append(k)
    return s, "+".join(sorted(set(ks)))


def nodes(obj, path=()):
    yield path
    if isinstance(obj, dict):
        for k in obj:
            yield from nodes(obj[k], path + (k,))
    elif isinstance(obj, list):
        for k in range(len(obj)):
            yield from nodes(obj[k], path + (k,))


def at(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def junk(rng, old, root):
    r = rng.random()
    if r < .25:
        return rng.choice(NUMS)
    if r < .4 and isinstance(old, str):
        return rng.choice(TYPES)
    return copy.deepcopy(rng.choice([None, True, False, -1, 1.5, 1e308, "", "x", "n", "n+", "n*m", "9" * 30, "a" * 3000, [], {}, [[]], [None], {"a": 1}, [1, "x", None],
                                     "http://onto-ns.com/meta/0.3/EntitySchema", "http://onto-ns.com/meta/0.3/BasicMetadataSchema",
                                     "http://onto-ns.com/meta/0.1/Collection", "00000000-0000-0000-0000-000000000000", "%s%n", [old], {"x": old}, "\ud83d\ude00", "é"]))


def mut_struct(rng, obj):
    """Mutate parsed JSON; returns (object, description)."""
    obj = copy.deepcopy(obj)
    ks = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ps = [p for p in nodes(obj) if p]
        if not ps:
            break
        p = rng.choice(ps)
        par = at(obj, p[:-1])
        k = rng.choice(["set", "set", "set", "del", "rename", "copy", "extra", "reorder", "wrap"])
        if k == "set":
            par[p[-1]] = junk(rng, par[p[-1]], obj)
        elif k == "del":
            del par[p[-1]]
        elif k == "rename" and isinstance(par, dict):
            v = par.pop(p[-1])
            par[rng.choice(["", "x", "dims", "shape", "type", "$ref", "ref", "name", "uri", "uuid", "meta", "properties", "dimensions", "relations", "description"])] = v
        elif k == "copy":
            q = rng.choice(ps)
            try:
                par[p[-1]] = copy.deepcopy(at(obj, q))
            except (KeyError, IndexError):
                pass
        elif k == "extra":
            if isinstance(par, dict):
                par[rng.choice(["x", "uri", "uuid", "meta", "type", "shape", "$ref", "relations", "dimensions", "properties"])] = junk(rng, "", obj)
            else:
                par.insert(rng.randrange(len(par) + 1), copy.deepcopy(rng.choice(par)) if rng.random() < .5 else junk(rng, "", obj))
        elif k == "reorder" and isinstance(par, dict):
            items = list(par.items())
            rng.shuffle(items)
            par.clear()
            par.update(items)
        elif k == "wrap":
            par[p[-1]] = [par[p[-1]]]
        ks.append(k)
    return obj, "+".join(sorted(set(ks)))


# ---------------------------------------------------------------- the monitors
_keep = []


def Z(t):
    """Address of an exact-size, zero-terminated block."""
    m = mem.z(t)
    _keep.append(m)
    del _keep[:-16]
    return m.p


def M(n):
    m = mem(n)
    _keep.append(m)
    del _keep[:-16]
    return m.p


notutf8 = [False]       # has the current case read metadata that isn't UTF-8?


def live():
    return set(dlite.istore_get_uuids())


def is_meta(u):
    q = dlite.get_instance(u, check_storages=False)
    return q.is_meta


class Watch:
    """Live set, reference counts and canaries around one attempt."""

    modules = 0

    def __init__(self, ctx):
        gc.collect()
        if len(sys.modules) != Watch.modules:       # imported by plugins
            Watch.modules = len(sys.modules)
            gc.freeze()
        self.ctx = ctx
        self.before = live()
        self.refs = [(inst._refcount, m._refcount) for e, m, inst, vals, js in canaries]

    def verify(self, ok, what, detail):
        ctx = self.ctx
        gc.collect()
        new = live() - self.before
        data = [u for u in new if not is_meta(u)]
        ctx.check(not data, "instance-left-behind:" + what, lambda: (ok, detail(), data))
        ctx.check(not (self.before - live()), "instance-lost:" + what, detail)
        gc.collect()
        for (e, m, inst, vals, js), (r, mr) in zip(canaries, self.refs):
            ctx.check(inst._refcount == r and m._refcount == mr, "reference-count:" + what, lambda: (inst._refcount, r, m._refcount, mr, detail()))
            ctx.check(inst.asjson() == js, "live-instance-changed:" + what, detail)
        return new


def consistent(ctx, inst, what, detail):
    """The instance is complete and self-consistent."""
    ctx.check(len(inst.uuid) == 36, "uuid:" + what, detail)
    m = inst.meta
    ctx.check(m is not None and m.is_meta, "meta:" + what, detail)
    dims = list(inst.dimensions.values())
    ctx.check(len(dims) == m.ndimensions and all(d >= 0 for d in dims), "dims:" + what, lambda: (dims, detail()))
    if max(dims, default=0) > 50:
        ctx.note("large")
        return
    for k in range(m.nproperties):
        try:
            v = dlite.Instance.get_property_by_index(inst, k)
        except Exception as e:
            # a text cut at the size of its fixed-size string may end with half a UTF-8 sequence
            if "fixstring" in str(e) or "utf-8" in str(e):
                return ctx.note("cut text")
            raise
        p = m["properties"][k]
        if p.ndims and not inst.is_meta and hasattr(v, "shape") and hasattr(v, "dtype"):
            shape = [int(x) for x in inst.get_property_dims_by_index(k)] if hasattr(inst, "get_property_dims_by_index") else list(v.shape)
            ctx.check(list(v.shape) == shape, "shape:" + what, lambda: (p.name, v.shape, shape, detail()))
        str(v)
    inst.asjson()
    inst.asdict()
    if inst.is_meta:
        try:
            x = inst([1] * inst.ndimensions) if inst.meta.uri == ENTITY else None
        except Exception:
            errclr()
            x = None
        if x is not None:
            ctx.note("instance of mutated metadata")
            for k in range(x.meta.nproperties):
                str(dlite.Instance.get_property_by_index(x, k))
            x.asjson()
            d = {kk: 2 for kk in x.dimensions}
            try:
                x2 = inst(d)
                x2.asjson()
                del x2
            except Exception:
                errclr()
        del x


def attempt(ctx, what, f, detail, mut):
    w = Watch(ctx)
    inst, why = None, ""
    try:
        inst = f()
    except (dlite.DLiteError, ValueError, TypeError, KeyError, AttributeError, IndexError, OverflowError, OSError, MemoryError, RuntimeError) as ex:
        why = type(ex).__name__
    except Exception as ex:
        why = type(ex).__name__
    errclr()
    ok = inst is not None
    if ok:
        try:
            consistent(ctx, inst, what, detail)
        except MemoryError:
            errclr()
        except dlite.DLiteError as ex:
            errclr()
            # Python cannot show strings that aren't UTF-8
            if "error converting" not in str(ex) or not (what.startswith("bson") or notutf8[0]):
                ctx.fail("inconsistent:%s:%s" % (what, type(ex).__name__), (str(ex)[-400:], traceback.format_exc()[-1200:], detail()))
        except UnicodeDecodeError:
            errclr()                    # Python cannot show strings that aren't UTF-8
        except Exception as ex:
            errclr()
            ctx.fail("inconsistent:%s:%s" % (what, type(ex).__name__), (str(ex)[-400:], traceback.format_exc()[-1200:], detail()))
    inst = None
    w.verify(ok, what, detail)
    ctx.sig(what, mut, ok, why)
    ctx.note("%s %s" % (what, "accepted" if ok else "rejected"))
    return ok


# ---------------------------------------------------------------- documents
def data_inst(rng):
    e = gen.rand_entity(rng, rng.choice(["niufsSb", "sS", "nif"]), maxdims=2, maxprops=4, exprs=rng.random() < .3)
    m = gen.py_meta(e)
    dims = [rng.choice([0, 1, 2, 3]) for _ in e.dims]
    inst = m(dims, id=new_uuid(rng))
    vals = gen.rand_values(rng, e, dims, special=False, txt=gen.plain)
    gen.fill(gen.ptr(inst), e, vals)
    return e, m, inst


def document(rng):
    """(kind, valid JSON document that can be loaded; its instance is not live)."""
    kind = rng.choice(["data", "data", "data", "coll", "meta", "meta", "meta5", "multi", "ref", "rel"])
    if kind in ("data", "multi"):
        e, m, inst = data_inst(rng)
        js = inst.asjson(single=rng.random() < .7, with_uuid=True, with_meta=rng.random() < .3, with_arrays=rng.random() < .3, urikey=rng.random() < .2)
        if kind == "multi":
            d = json.loads(inst.asjson(single=False))
            e2, m2, i2 = data_inst(rng)
            d.update(json.loads(i2.asjson(single=False)))
            js = json.dumps(d)
            i2 = None
        inst = None
    elif kind == "coll":
        coll = dlite.Collection(new_uuid(rng))
        for _ in range(rng.choice([0, 1, 4])):
            coll.add_relation(gen.plain(rng) or "s", gen.plain(rng) or "p", gen.plain(rng) or "o")
        js = coll.asjson(single=True, with_uuid=True)
        coll = None
    elif kind in ("ref", "rel"):
        e0, m0, i0 = data_inst(rng)
        uri = gen.meta_uri(rng)
        if kind == "ref":
            m = gen.py_meta(Entity(uri, ["n"], [Prop("r", "ref", REF, 8, [], None, None, m0.uri) if 0 else Prop("x", "int", INT, 4, []), Prop("s", "string", STRPTR, 8, ["n"])]))
        else:
            m = gen.py_meta(Entity(uri, ["n"], [Prop("r", "relation", REL, 40, []), Prop("rs", "relation", REL, 40, ["n"])]))
        inst = m([2], id=new_uuid(rng))
        if kind == "rel":
            inst.r = dlite.Relation("a", "b", "c", "d")
            inst.rs = [["x", "y", "z"], ["u", "v", "w"]]
        js = inst.asjson(single=True, with_uuid=True)
        inst = i0 = None
    else:
        uri = gen.meta_uri(rng)
        ds = {gen.ident(rng, 3): "d" for _ in range(rng.choice([0, 1, 2]))}
        props = {}
        for k in range(rng.choice([1, 2, 4])):
            p = {"type": rng.choice(["int32", "float64", "string", "string10", "blob4", "bool", "uint8", "relation"]), "description": "p"}
            if ds and rng.random() < .6:
                p["shape"] = [rng.choice(list(ds) + [list(ds)[0] + "+1"]) for _ in range(rng.choice([1, 2]))]
            if rng.random() < .3:
                p["unit"] = "m"
            props[gen.ident(rng, 4)] = p
        d = {"uri": uri, "meta": ENTITY, "description": "doc", "dimensions": ds, "properties": props}
        if kind == "meta5":
            d["dimensions"] = [dict(name=k, description=v) for k, v in ds.items()]
            d["properties"] = [dict(v, name=k) for k, v in props.items()]
        if rng.random() < .3:
            ns, ver, nm = uri.rsplit("/", 2)
            del d["uri"]
            d.update(namespace=ns, version=ver, name=nm)
        js = json.dumps(d)
    gc.collect()
    return kind, js


def deeper(s):
    """Nesting depth (a very deep nesting is not generated)."""
    d = m = 0
    for ch in s:
        if ch in "[{":
            d += 1
            m = max(m, d)
        elif ch in "]}":
            d -= 1
    return m > 60


def g_json(ctx, i, rng):
    notutf8[0] = False
    kind, js = document(rng)
    other = canaries[i % 3][4]
    for _ in range(rng.choice([10, 20, 30])):
        if rng.random() < .6:
            obj, mut = mut_struct(rng, json.loads(js))
            text = json.dumps(obj, ensure_ascii=rng.random() < .5)
            if rng.random() < .2:
                text, m2 = mut_text(rng, text, other)
                mut += "+" + m2
        else:
            text, mut = mut_text(rng, js, other)
            obj = None
        if deeper(text):
            continue
        raw = text.encode("utf8", "surrogatepass").replace(b"\0", b"\\u0000" if rng.random() < .5 else b"")
        reader = rng.choice(["sscan", "sscan", "sscan", "from_json", "file", "dict", "check", "jstore", "iter"])
        detail = lambda: (kind, mut, reader, raw[:3000])
        try:
            txt = raw.decode("utf8")
        except UnicodeDecodeError:
            reader = "sscan"
            notutf8[0] = True
        id = rng.choice([None, None, None, "some-id-%d" % i, "http://ex.com/none", ""])
        if reader == "sscan":
            b = Z(raw)
            metaid = rng.choice([None, None, None, ENTITY, canaries[0][1].uri, "nosuch"])

            def f():
                p = C.dlite_json_sscan(b, id and id.encode(), metaid and metaid.encode())
                if not p:
                    ctx.check(errval() != 0 or True, "no-error")
                    return None
                inst = dlite._from_uuid_ptr(p) if hasattr(dlite, "_from_uuid_ptr") else None
                if inst is None:
                    u = S.s_uuid(p)
                    u = u.decode() if isinstance(u, bytes) else u
                    inst = dlite.get_instance(u, check_storages=False)
                    C.dlite_instance_decref(p)
                return inst
        elif reader == "from_json":
            f = lambda: dlite.Instance.from_json(txt, id=id)
        elif reader == "dict":
            if obj is None:
                try:
                    obj = json.loads(txt)
                except Exception:
                    continue
            f = lambda: dlite.Instance.from_dict(obj, check_storages=False)
        elif reader == "file":
            fn = os.path.join(ctx.work, "m%d.json" % i)
            open(fn, "wb").write(raw)
            f = lambda: dlite.Instance.from_location("json", fn, id=id, options="mode=r")
        elif reader == "check":
            b = Z(raw)

            def f():
                C.dlite_json_scheck(b, len(raw), id and id.encode(), None)
        elif reader == "iter":
            b = Z(raw)

            def f():
                C.dlite_json_iter_create.restype = c.c_void_p
                C.dlite_json_next.restype = c.c_void_p
                it = C.dlite_json_iter_create(b, len(raw), rng.choice([None, ENTITY.encode()]))
                if it:
                    n = c.c_int()
                    for _ in range(1000):
                        if not C.dlite_json_next(c.c_void_p(it), c.byref(n)):
                            break
                    C.dlite_json_iter_free(c.c_void_p(it))
        else:
            b = Z(raw)

            def f():
                from dlite.utils import DictStore
                js_ = dlite.JStore()
                js_.load_json(txt)
                for k in js_.get_ids():
                    js_.get(k)
        attempt(ctx, "json-" + reader, f, detail, kind + ":" + mut)
    # the library still works
    e, m, inst, vals, cjs = canaries[i % 3]
    x = dlite.Instance.from_json(json.dumps({"meta": m.uri, "dimensions": json.loads(inst.asjson(single=True))["dimensions"],
                                             "properties": json.loads(inst.asjson(single=True))["properties"]}))
    ctx.check(x is not None and len(x) == len(inst), "valid-input-after-errors")


def mut_bson(rng, b):
    b = bytearray(b)
    ks = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        n = len(b)
        k = rng.choice(["flip", "byte", "int", "del", "dup", "trunc", "zero", "type"])
        i = rng.randrange(4, n) if n > 5 else 4
        if n <= 5:
            break
        if k == "flip":
            b[i] ^= 1 << rng.randrange(8)
        elif k == "byte":
            b[i] = rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 16, 17, 18, 127, 128, 255])
        elif k == "int" and i + 4 <= n:
            old, = struct.unpack_from("<i", b, i)
            new = rng.choice([0, -1, 1, old + 1 if abs(old) < 2**30 else 5, old - 1 if abs(old) < 2**30 else 4, n, n * 2, 2**31 - 1, -2**31, 1000])
            struct.pack_into("<i", b, i, new)
        elif k == "del":
            del b[i:i + rng.choice([1, 2, 4, 8, 20])]
        elif k == "dup":
            b[i:i] = b[i:i + rng.choice([1, 4, 8, 20])]
        elif k == "trunc":
            del b[i:]
        elif k == "zero":
            for j in range(i, min(n, i + rng.choice([1, 4, 8]))):
                b[j] = 0
        elif k == "type":
            ps = [j for j in range(4, n - 2) if b[j] in (1, 2, 3, 4, 5, 8, 16, 17, 18) and 97 <= b[j + 1] < 123]
            if ps:
                b[rng.choice(ps)] = rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 17, 18, 0, 99])
        ks.append(k)
    if len(b) < 5:
        b = b.ljust(5, b"\0")
    # the size of the document is the only thing a reader can know about the buffer
    if rng.random() < .9:
        struct.pack_into("<i", b, 0, len(b))
    else:
        struct.pack_into("<i", b, 0, rng.choice([0, 4, -1, 5, max(5, len(b) - 1)]))
        ks.append("size")
    return bytes(b), "+".join(sorted(set(ks)))


def g_bson(ctx, i, rng):
    if rng.random() < .3:
        kind, js = "meta", None
        e = gen.rand_entity(rng, "niufsSb", maxdims=2, maxprops=4)
        # metadata that isn't in the store: change the uri after serialising
        m = gen.py_meta(e)
        doc = bytes(m.asbson())
        new = e.uri[:-2] + "".join(rng.choice("QXZ") for _ in range(2))
        doc = doc.replace(e.uri.encode(), new.encode())
        doc = doc.replace(m.uuid.encode(), uuid5(new).encode() if isinstance(uuid5(new), str) else uuid5(new))
    else:
        kind = "data"
        e, m, inst = data_inst(rng)
        doc = bytes(inst.asbson())
        inst = None
        gc.collect()
    for _ in range(rng.choice([10, 20, 30])):
        raw, mut = mut_bson(rng, doc)
        reader = rng.choice(["load", "load", "from_bson"])
        detail = lambda: (kind, mut, reader, raw)
        if reader == "load":
            n, = struct.unpack_from("<i", raw)
            if n > len(raw):
                continue
            b = M(raw)

            def f():
                p = C.dlite_bson_load_instance(b)
                if not p:
                    return None
                u = S.s_uuid(p)
                u = u.decode() if isinstance(u, bytes) else u
                inst = dlite.get_instance(u, check_storages=False)
                C.dlite_instance_decref(p)
                return inst
        else:
            f = lambda: dlite.Instance.from_bson(raw)
        attempt(ctx, "bson-" + reader, f, detail, kind + ":" + mut)


def g_files(ctx, i, rng):
    """Storage files of the Python plugins and hdf5."""
    driver = rng.choice(["yaml", "yaml", "csv", "rdf", "pyrdf", "bson", "hdf5"])
    ext = {"yaml": "yaml", "csv": "csv", "rdf": "ttl", "pyrdf": "ttl", "bson": "bson", "hdf5": "h5"}[driver]
    fn = os.path.join(ctx.work, "f%d.%s" % (i, ext))
    if driver == "csv":
        import numpy as np
        e = Entity(gen.meta_uri(rng), ["rows"], [Prop("a", "int64", INT, 8, ["rows"]), Prop("b", "float64", FLOAT, 8, ["rows"]), Prop("c", "string", STRPTR, 8, ["rows"])])
        m = gen.py_meta(e)
        inst = m([3], id=new_uuid(rng))
        inst.a = [1, 2, 3]
        inst.b = [.5, 1.5, 2.5]
        inst.c = ["x", "y", "z"]
    else:
        e, m, inst = data_inst(rng)
    opts = {"yaml": "mode=w", "csv": "", "rdf": "store=file", "pyrdf": "mode=w", "bson": "mode=w", "hdf5": "mode=w"}[driver]
    if driver == "rdf":
        return
    uuid = inst.uuid
    try:
        inst.save(driver, fn, opts)
    except Exception:
        errclr()
        return
    inst = None
    gc.collect()
    if not os.path.exists(fn):
        return
    raw0 = open(fn, "rb").read()
    for _ in range(rng.choice([5, 10])):
        if driver == "hdf5":
            raw, mut = raw0[:rng.randrange(len(raw0))], "trunc"          # the library's own format: only truncated files
            if rng.random() < .3:
                raw, mut = rng.choice([b"", b"\x89HDF", b"garbage" * 100]), "garbage"
        elif driver == "bson":
            raw, mut = mut_bson(rng, raw0)
        else:
            t, mut = mut_text(rng, raw0.decode("utf8", "replace"))
            raw = t.encode("utf8", "replace")
        open(fn, "wb").write(raw)
        o = {"csv": "meta=" + m.uri}.get(driver, "mode=r")
        id = rng.choice([None, uuid, "nosuch-id-x"])
        detail = lambda: (driver, mut, id, raw[:2000])
        attempt(ctx, "file-" + driver, lambda: dlite.Instance.from_location(driver, fn, o, id=id), detail, mut)


def rand_str(rng, alphabet, maxlen=40):
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(maxlen)))


def g_strings(ctx, i, rng):
    """Small languages: type names, URLs, options, ids, templates, expressions; in exact-size blocks."""
    P = c.c_void_p
    for _ in range(60):
        k = rng.choice(["type", "url", "opt", "id", "uri", "tmpl", "expr", "jstore", "paths", "semver", "scan", "unquote", "pct"])
        if k == "type":
            t = rng.choice(TYPES) + rng.choice(["", "", "1", "-", "9" * rng.randrange(25), " ", "\n"])
            dt, sz = c.c_int(), c.c_size_t()
            r = C.dlite_type_set_dtype_and_size(Z(t), c.byref(dt), c.byref(sz))
            if r == 0:
                b = buf(32)
                ctx.check(0 <= dt.value <= 11, "type-code", (t, dt.value))
        elif k in ("url", "opt", "id", "uri"):
            t = mut_text(rng, rng.choice(["json://a/b.json?mode=r;x=1#frag", "C:\\a\\b.json", "http://a.b/0.1/X", "mode=w;k=v&z=%20", "//", "json:", ":", "?", "#", "a%2", "%", "a=%zz"]))[0]
            t = t.replace("\0", "")
            if k == "url":
                b = Z(t)
                ps = [P() for _ in range(4)]
                C.dlite_split_url(b, *[c.byref(p) for p in ps])
            elif k == "uri":
                ps = [P() for _ in range(3)]
                C.dlite_split_meta_uri(Z(t), *[c.byref(p) for p in ps])
                for p in ps:
                    if p.value:
                        libc.free(p)
            elif k == "id":
                C.dlite_get_uuid(M(37), Z(t))
            else:
                class O(c.Structure):
                    _fields_ = [("c", c.c_int), ("key", c.c_char_p), ("value", c.c_char_p), ("descr", c.c_char_p)]
                arr = (O * 3)(O(109, b"mode", b"r", b""), O(107, b"k", None, b""), O(0, None, None, None))
                C.dlite_option_parse(Z(t), arr, rng.choice([0, 1]))
        elif k == "tmpl":
            t = mut_text(rng, rng.choice(["{a} {b%5.5} {c:x{a}y} {@if:{a}>1}x{@elif:1}y{@else}z{@endif} {@10}", "{{}} \\{ \\n {@include:/dev/null}", "{a%-10.3M}{b:}{c:{c:{a}}}",
                                              "{a}{@if:0}{b}{@endif}\n{@20}end", "{@if:'{a}'='b'}x{@endif}", '{@if:"{a}" != "b"}x{@elif:"x"}y{@endif}{x=a{b}}{x}', "{@if:-1}q{@endif}{: note {a}}{a?}{nn?}"]))[0].replace("\0", "").replace("include", "incl")
            try:
                t.encode()
            except UnicodeEncodeError:
                continue
            if re.search(r"@[-+]?\w{5}|%[-0]*\d{5}", t):
                continue                # would be padded to a very large column
            b = buf(512)
            C.tgen_subs_init(b)
            for v in ("a", "b", "c"):
                C.tgen_subs_set(b, v.encode(), b"1", None)
            C.tgen.restype = c.c_void_p
            r = C.tgen(Z(t), b, None)
            if r:
                libc.free(c.c_void_p(r))
            C.tgen_subs_deinit(b)
        elif k == "expr":
            t = mut_text(rng, rng.choice(["n+1", "(n*m)/2-3%4", "2^n", "((n))", "-n+-m", "n*(m+(1-2))"]))[0].replace("\0", "")
            b = M(80)
            C.infixcalc(Z(t), None, 0, b, 80)
        elif k == "jstore":
            t = mut_text(rng, rng.choice(['{"a": {"b": [1, 2]}, "c": "x\\u00e9"}', '{"a": 1}', "[]", "{}"]))[0].replace("\0", "")
            try:
                js = dlite.JStore()
                js.load_json(t)
                js.get_json() if hasattr(js, "get_json") else None
            except Exception:
                pass
        elif k == "semver":
            t = rand_str(rng, "0123456789.-+abc", 20)
            C.strchk_semver(Z(t))
            C.strcmp_semver(Z(t), Z(rand_str(rng, "0123456789.-+abc", 20)))
        elif k == "scan":
            t = rand_str(rng, "0123456789.-+abcxe\"\\ nulltruefals[]{},:", 30)
            if rng.random() < .3:
                t = mut_text(rng, rng.choice(['["s", "p", "o"]', '{"s": "a", "p": "b", "o": "c"}', '{"name": "x", "type": "int", "shape": ["n"], "unit": "m"}', '{"name": "n", "description": "d"}', ""]))[0].replace("\0", "")
                for dt, sz in ((DIM, 16), (PROP, 72), (REL, 40)):
                    d = Z(bytes(sz))
                    C.dlite_type_scan(Z(t), rng.choice([-1, len(t.encode())]), d, dt, sz, 0)
                    C.dlite_type_clear(d, dt, sz)
            for dt, sz in ((BLOB, 3), (BOOL, 1), (INT, 4), (UINT, 8), (FLOAT, 8), (FIXSTR, 5), (STRPTR, 8)):
                d = Z(bytes(sz))
                C.dlite_type_scan(Z(t), -1, d, dt, sz, rng.choice([0, 1, 2, 4, 16]))
                if dt == STRPTR:
                    p = c.cast(d, c.POINTER(c.c_void_p))[0]
                    if p:
                        libc.free(c.c_void_p(p))
        elif k == "unquote":
            t = rand_str(rng, "\"\\nu0dD8 a", 30)
            n = c.c_int()
            C.strunquote(M(10), 10, Z(t), c.byref(n), rng.choice([0, 1, 2, 4, 8]))
        elif k == "pct":
            t = rand_str(rng, "%0123456789abcdefxyz ", 30)
            C.pct_decode(M(10), 10, Z(t))
        else:
            t = rand_str(rng, ":;|/\\ab.", 20)
        errclr()
        ctx.events += 1
        ctx.sig(k, len(t) % 8)
    for e, m, inst, vals, js in canaries:
        ctx.check(inst.asjson() == js, "live-instance-changed:strings")


GROUPS = [("json", g_json, 1000, 20000), ("bson", g_bson, 500, 10000), ("files", g_files, 100, 2000), ("strings", g_strings, 400, 8000)]
