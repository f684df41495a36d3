"""P16: a collection holds exactly the labelled instances and relations added."""
import gc, json, os, subprocess, sys
from dl import *
import gen

RULE = "distinct (operation, outcome, number of labels class, pattern) observations"
META = "http://onto-ns.com/meta/0.1/Collection"
dlite = None


def setup():
    global dlite
    import dlite as d
    dlite = d
    quiet()


def ent():
    uri = "http://onto-ns.com/meta/0.1/P16Item"
    if C.dlite_instance_has(uri.encode(), False):
        return dlite.get_instance(uri)
    return dlite.Instance.create_metadata(uri, [dlite.Dimension("N", "number")],
                                          [dlite.Property("a", "int"), dlite.Property("b", "string", shape=["N"])], "P16 item")


class Coll:
    def __init__(self, obj):
        self.o, self.labels, self.rels = obj, {}, set()

    def all(self, insts):
        out = set(self.rels)
        for l, u in self.labels.items():
            out |= {(l, "_is-a", "Instance", None), (l, "_has-uuid", u, "xsd:anyURI"), (l, "_has-meta", insts[u]["meta"], None)}
        return out


def label(rng):
    r = rng.random()
    if r < .6:
        return gen.ident(rng)
    t = "".join(ch for ch in gen.text(rng) if ch != "\0" and not 0xd800 <= ord(ch) < 0xe000)
    return t or "x"


def key(t):
    return [(x is None, x or "") for x in t]


def srt(x):
    return sorted(x, key=key)


def match(t, q):
    return all(b is None or a == b for a, b in zip(t[:3], q)) and (q[3] is None or (t[3] or "") == q[3])


def attempt(f):
    try:
        r = f()
        return True, r
    except Exception as e:           # noqa
        errclr()
        return False, e


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.insts = {}                                   # uuid -> dict(obj or None, meta, vals)
        self.colls = []
        E = ent()
        self.E = E
        for k in range(rng.choice([1, 3, 6])):
            n = rng.randint(0, 3)
            id = new_uuid(rng) if rng.random() < .5 else "inst-%d-%s" % (k, new_uuid(rng)[:13])
            o = E(dimensions={"N": n}, id=id)
            o.a, o.b = rng.randint(-99, 99), ["s%d" % rng.randint(0, 9) for _ in range(n)]
            self.insts[o.uuid] = dict(obj=o, meta=o.meta.uri, id=id, vals=(o.a, list(o.b)), isc=False)
        for k in range(rng.choice([1, 1, 2, 3])):
            self.colls.append(Coll(dlite.Collection("coll-%d-%s" % (k, new_uuid(rng)[:13]))))
        if len(self.colls) > 1:                               # a collection as member
            c = self.colls[-1]
            self.insts[c.o.uuid] = dict(obj=None, meta=META, id=c.o.uri, vals=None, isc=True, coll=c)
        self.vocab = [label(rng) for _ in range(rng.choice([1, 2, 4, 9]))]
        self.preds = [gen.ident(rng) + "-p" for _ in range(2)]

    def members(self, u):
        return sum(list(c.labels.values()).count(u) for c in self.colls)

    def triple(self):
        rng = self.rng
        d = rng.choice([None, None, "@en", "xsd:int"])
        o = rng.choice(self.vocab + ["42"])
        return (rng.choice(self.vocab), rng.choice(self.preds), o, d)

    def pick(self):
        return self.rng.choice(sorted(self.insts))


def check_refs(ctx, w, what):
    for u, d in w.insts.items():
        if d["isc"]:
            continue
        want = w.members(u) + (d["obj"] is not None)
        if want:
            p = C.dlite_instance_get(u.encode())
            ctx.check(p, what + "-alive", (u, want))
            if p:
                ctx.eq(S.s_refcount(p) - 1, want, what + "-refcount", u)
                C.dlite_instance_decref(p)
        else:
            ctx.check(not C.dlite_instance_has(u.encode(), False), what + "-released", u)
    errclr()


def check_coll(ctx, w, c, what):
    o = c.o
    ctx.eq(len(o), len(c.labels), what + "-len")
    ctx.eq(sorted(o.get_labels()), sorted(c.labels), what + "-labels")
    want = srt(c.all(w.insts))
    ctx.eq(srt(o.get_relations(rettype="T")), want, what + "-relations")
    ctx.eq(sorted(x.uuid for x in o), sorted(c.labels.values()), what + "-instances")
    for l in list(c.labels)[:4]:
        u = c.labels[l]
        i = o.get(l)
        ctx.eq((i.uuid, i.meta.uri), (u, w.insts[u]["meta"]), what + "-get")
        ctx.eq(type(i).__name__, "Collection" if w.insts[u]["isc"] else "Instance", what + "-get-type")
        if not w.insts[u]["isc"]:
            ctx.eq((i.a, list(i.b)), w.insts[u]["vals"], what + "-values")
        del i


def check_export(ctx, w, c, what):
    want = srt(c.all(w.insts))
    o = c.o
    ctx.eq(dict(o.dimensions), {"nrelations": len(want)}, what + "-nrelations")
    d = o.asdict()
    d = dict(d.get(o.uuid, d), uuid=d.get("uuid", o.uuid))
    rel = [tuple(r) + (None,) * (4 - len(r)) for r in d["properties"]["relations"]]
    ctx.eq(srt(rel), want, what + "-asdict")
    ctx.eq((d["uuid"], d["meta"], d["dimensions"]), (o.uuid, META, {"nrelations": len(want)}), what + "-asdict-head")
    j = json.loads(o.asjson(single=True)) if o.asjson else None
    rel = [tuple(r) + (None,) * (4 - len(r)) for r in j["properties"]["relations"]]
    ctx.eq(srt(rel), want, what + "-asjson")
    rel = [(r.s, r.p, r.o, r.d) for r in o.get_property("relations")]
    ctx.eq(srt(rel), want, what + "-property")
    rel = [tuple(r) + (None,) * (4 - len(r)) for r in o.properties["relations"]]
    ctx.eq(srt(rel), want, what + "-properties")


def do_query(ctx, w, c):
    rng = w.rng
    allr = srt(c.all(w.insts))
    t = rng.choice(allr) if allr and rng.random() < .7 else w.triple()
    q = [x if rng.random() < .5 else None for x in t[:3]] + [None if rng.random() < .6 else (t[3] or "")]
    m = [x for x in allr if match(x, q)]
    o = c.o
    k = rng.randrange(7)
    ctx.sig("query", k, "".join("-x"[x is not None] for x in q), min(len(m), 3))
    if k == 0:
        ctx.eq(srt(o.get_relations(*q, rettype="T")), m, "get_relations", q)
    elif k == 1:
        r = list(o.get_relations(*q, rettype="R"))
        ctx.eq(srt((x.s, x.p, x.o, x.d) for x in r), m, "get_relations-R", q)
    elif k == 2:
        for j, rt in enumerate("spod"):
            ctx.eq(sorted((x or "") for x in o.get_relations(*q, rettype=rt)), sorted((x[j] or "") for x in m), "get_relations-" + rt, q)
        ctx.eq(srt(o.get_relations(*q)), srt(x[:3] for x in m), "get_relations-t", q)
    elif k == 3:
        r = o.get_first_relation(*q)
        ctx.check((r.s, r.p, r.o, r.d) in m if m else r is None, "get_first_relation", q)
    elif k == 4:
        ctx.eq(sorted(o.get_subjects(q[1], q[2], q[3])), sorted(x[0] for x in allr if match(x, [None] + q[1:])), "get_subjects", q)
        ctx.eq(sorted(o.get_predicates(q[0], q[2], q[3])), sorted(x[1] for x in allr if match(x, [q[0], None] + q[2:])), "get_predicates", q)
        ctx.eq(sorted(o.get_objects(q[0], q[1], q[3])), sorted(x[2] for x in allr if match(x, q[:2] + [None, q[3]])), "get_objects", q)
    else:
        j = rng.randrange(3)
        q = [None if n == j else t[n] for n in range(3)] + [q[3]]
        m = [x for x in allr if match(x, q)]
        default = rng.choice([None, "fallback value"])
        any_ = rng.random() < .5
        ok, r = attempt(lambda: o.value(q[0], q[1], q[2], q[3], default, any_))
        if not m:
            ctx.check((ok and r == default) if default else not ok, "value-missing", (q, r))
        elif len(m) > 1 and not any_:
            ctx.check(not ok, "value-ambiguous", (q, m[:3], r))
        else:
            ctx.check(ok and r in [x[j] for x in m], "value", (q, m[:3], r))


def step(ctx, w):
    rng = w.rng
    c = rng.choice(w.colls)
    o = c.o
    r = rng.random()
    nl = min(len(c.labels), 4)
    if not w.insts and (r < .25 or .75 <= r < .9):
        return
    if r < .25:
        u = w.pick()
        d = w.insts[u]
        if d["isc"] and (d["coll"] is c or d["coll"] not in w.colls):
            return
        obj = d["coll"].o if d["isc"] else d["obj"]
        if obj is None:
            return
        l = rng.choice(w.vocab)
        force = rng.random() < .3
        f = (lambda: o.add(l, obj, force=True)) if force else rng.choice([lambda: o.add(l, obj), lambda: o.__setitem__(l, obj)])
        ok, e = attempt(f)
        had = l in c.labels
        ctx.sig("add", had, force, c.labels.get(l) == u, nl)
        ctx.eq(ok, force or not had, "add-accepted", (l, had, force, repr(e)))
        if force or not had:
            c.labels[l] = u
    elif r < .4:
        l = rng.choice(sorted(c.labels)) if c.labels and rng.random() < .8 else rng.choice(w.vocab + ["", "no such"])
        ok, e = attempt(rng.choice([lambda: o.remove(l), lambda: o.__delitem__(l)]))
        ctx.sig("remove", l in c.labels, nl)
        ctx.eq(ok, l in c.labels, "remove-accepted", (l, repr(e)))
        c.labels.pop(l, None)
    elif r < .55:
        t = w.triple()
        ok, e = attempt(lambda: o.add_relation(*t))
        ctx.check(ok, "add_relation", (t, repr(e)))
        ctx.sig("add_relation", t in c.rels, nl)
        c.rels.add(t)
    elif r < .62:
        t = rng.choice(srt(c.rels)) if c.rels and rng.random() < .7 else w.triple()
        q = [t[0] if rng.random() < .5 else None, t[1], t[2] if rng.random() < .5 else None, None if rng.random() < .6 else (t[3] or "")]
        ok, e = attempt(lambda: o.remove_relations(*q))
        ctx.check(ok, "remove_relations", (q, repr(e)))
        m = {x for x in c.rels if match(x, q)}
        ctx.sig("remove_relations", "".join("-x"[x is not None] for x in q), min(len(m), 3))
        c.rels -= m
    elif r < .75:
        do_query(ctx, w, c)
    elif r < .85:
        l = rng.choice(w.vocab + ["no such"])
        ctx.eq((o.has(l), l in o), (l in c.labels,) * 2, "has", l)
        u = w.pick()
        for id in (u, w.insts[u]["id"], u.upper()):
            ctx.eq(o.has_id(id), u in c.labels.values(), "has_id", (id, w.insts[u]))
        g = o.get_id(w.insts[u]["id"])
        ctx.eq(g.uuid if g is not None else None, u if u in c.labels.values() else None, "get_id")
        del g
        ok, g = attempt(lambda: rng.choice([o.get, o.__getitem__])(l))
        ctx.eq(ok, l in c.labels, "get-accepted", l)
        if ok:
            ctx.eq(g.uuid, c.labels[l], "get")
        del g
        ctx.sig("lookup", ok, u in c.labels.values(), nl)
        errclr()
    elif r < .9:
        u = w.pick()
        d = w.insts[u]
        if not d["isc"]:
            if d["obj"] is not None:
                if w.members(u) or rng.random() < .3:
                    d["obj"] = None                          # only collections keep it alive now
                    ctx.sig("drop-instance", bool(w.members(u)))
            elif w.members(u):
                d["obj"] = dlite.get_instance(u)
            else:
                del w.insts[u]
    elif r < .93 and len(w.colls) < 5:
        ok, e = attempt(lambda: o.copy())
        ctx.check(ok, "copy", repr(e))
        n = Coll(e)
        del e
        n.labels, n.rels = dict(c.labels), set(c.rels)
        ctx.check(n.o.uuid != o.uuid, "copy-identity")
        w.colls.append(n)
        ctx.sig("copy", nl)
    elif r < .95 and len(w.colls) > 1:
        # (a collection that is a member elsewhere lives on)
        del o
        mem_ = [u for u, d in w.insts.items() if d["isc"] and d["coll"] is c]
        if mem_ and w.members(mem_[0]):
            return
        for u in mem_:
            del w.insts[u]
        w.colls.remove(c)
        c.o = None
        ctx.sig("drop-collection", nl, bool(mem_))
    elif r < .97:
        # iterators outlive other references to their collection
        cp = o.copy()
        want = sorted(c.labels.values())
        it = rng.choice([lambda: iter(cp), lambda: cp.get_instances()])()
        rel = cp.get_relations(rettype="T")
        part = [x.uuid for x, _ in zip(it, range(rng.choice([0, 1])))]
        k = len(part)
        del cp
        if len(c.labels) and k <= 1:
            got = srt(rel)
            ctx.eq(got, srt(c.all(w.insts)), "iterator-survives")
        del it, rel
        ctx.sig("iterator", nl)
    else:
        metaid = rng.choice([w.E.uri, META, "http://onto-ns.com/meta/0.1/None"])
        if rng.random() < .5 and metaid == w.E.uri:
            metaid = w.E
        got = sorted(x.uuid for x in o.get_instances(metaid))
        uri = getattr(metaid, "uri", metaid)
        ctx.eq(got, sorted(u for u in c.labels.values() if w.insts[u]["meta"] == uri), "get_instances")
        ctx.sig("get_instances", uri == META, min(len(got), 2))


def g_history(ctx, i, rng):
    w = World(ctx, rng)
    n = rng.choice([20, 60, 150])
    for k in range(n):
        step(ctx, w)
        if k % 10 == 9:
            gc.collect()
            for c in w.colls:
                check_coll(ctx, w, c, "state")
            check_refs(ctx, w, "state")
    for c in w.colls:
        check_coll(ctx, w, c, "final")
        check_export(ctx, w, c, "final")
    gc.collect()
    check_refs(ctx, w, "final")
    ctx.note("collection operations", n)
    ctx.sample("collections with %s labels, %s relations" % ([len(c.labels) for c in w.colls], [len(c.rels) for c in w.colls]))
    # releasing the collections releases what only they kept
    for d in w.insts.values():
        d["coll"] = None
    for c in w.colls:
        c.o = None
        c.labels, c.rels = {}, set()
    gc.collect()
    w.insts = {u: d for u, d in w.insts.items() if not d["isc"]}
    check_refs(ctx, w, "collections-gone")


LOAD = """
import json, sys
import dlite
c = dlite.Collection.load("json", sys.argv[1], "mode=r", id=sys.argv[2], lazy=sys.argv[3] == "1")
out = dict(uuid=c.uuid, uri=c.uri, rels=[list(t) for t in c.get_relations(rettype="T")], n=len(c),
           insts={l: [c.get(l).uuid, c.get(l).meta.uri] for l in c.get_labels()}, hash=c.get_hash())
for l in c.get_labels():
    i = c.get(l)
    out["insts"][l].append(i._refcount - 1)
    if i.meta.uri.endswith("P16Item"):
        out["insts"][l] += [int(i.a), list(i.b)]
print(json.dumps(out))
"""


def g_io(ctx, i, rng):
    w = World(ctx, rng)
    for _ in range(40):
        step(ctx, w)
    path = os.path.join(ctx.work, "coll%d.json" % i)
    c = rng.choice(w.colls)
    # add the metadata so that other processes can read the instances
    with dlite.Storage("json", path, "mode=w") as s:
        w.E.save(s)
    want = srt(c.all(w.insts))
    h = c.o.get_hash()
    kind = rng.randrange(3)
    if kind == 0:
        with dlite.Storage("json", path, "mode=a") as s:
            c.o.save(s)
    elif kind == 1:
        c.o.save("json", path, "mode=a")
    else:
        c.o.save("json://%s?mode=a" % path)
    lazy = rng.random() < .5
    ctx.sig("io", kind, lazy, min(len(c.labels), 4), any(w.insts[u]["isc"] for u in c.labels.values()))
    # load again in this process: the same collection
    again = dlite.Collection.load("json", path, "mode=r", id=c.o.uuid, lazy=lazy)
    ctx.eq((again.uuid, srt(again.get_relations(rettype="T"))), (c.o.uuid, want), "load-existing")
    del again
    gc.collect()
    check_refs(ctx, w, "saved")
    # another process
    if i % 2 == 0:
        env = dict(os.environ)
        p = subprocess.run([sys.executable, "-c", LOAD, path, c.o.uuid if rng.random() < .5 else (c.o.uri or c.o.uuid), str(int(lazy))],
                           capture_output=True, text=True, env=env, timeout=240)
        if not ctx.check(p.returncode == 0, "load-process", p.stderr[-1500:]):
            return
        d = json.loads(p.stdout)
        ctx.eq((d["uuid"], d["uri"], d["n"]), (c.o.uuid, c.o.uri, len(c.labels)), "loaded-head")
        ctx.eq(srt(tuple(t) for t in d["rels"]), want, "loaded-relations")
        ctx.eq(d["hash"], h, "loaded-hash")
        for l, u in c.labels.items():
            g = d["insts"].get(l)
            ctx.eq(g and g[:2], [u, w.insts[u]["meta"]], "loaded-label", l)
            if g and not w.insts[u]["isc"]:
                ctx.eq((g[3], g[4]), w.insts[u]["vals"], "loaded-values", l)
                ctx.check(g[2] >= list(c.labels.values()).count(u), "loaded-kept", (l, g))
    # and after everything is gone from memory
    uri, uuid, labels, insts = c.o.uri, c.o.uuid, dict(c.labels), {u: dict(d) for u, d in w.insts.items()}
    nested = any(insts[u]["isc"] for u in labels.values())
    for d in list(w.insts.values()) + list(insts.values()):
        d["obj"] = d["coll"] = None
    for x in w.colls:
        x.o = None
    w.colls, w.insts = [], {}
    gc.collect()
    for u in set(labels.values()):
        ctx.check(not C.dlite_instance_has(u.encode(), False), "instance-gone", u)
    ok, l2 = attempt(lambda: dlite.Collection.load("json", path, "mode=r", id=uuid, lazy=lazy))
    if ctx.check(ok, "reload", repr(l2)):
        ctx.eq(srt(l2.get_relations(rettype="T")), want, "reloaded-relations")
        if not nested:
            for u in set(labels.values()):
                p = C.dlite_instance_get(u.encode())
                if ctx.check(p, "reloaded-alive", u):
                    ctx.eq(S.s_refcount(p) - 1, list(labels.values()).count(u), "reloaded-refcount", (u, lazy))
                    C.dlite_instance_decref(p)
        for l, u in labels.items():
            g = l2.get(l)
            ctx.eq(g.uuid, u, "reloaded-get")
            if not insts[u]["isc"]:
                ctx.eq((g.a, list(g.b)), insts[u]["vals"], "reloaded-values")
            del g
    del l2
    gc.collect()
    for u in set(labels.values()):
        ctx.check(not C.dlite_instance_has(u.encode(), False), "reloaded-released", (u, lazy))
    # another instance is no collection
    if i % 3 == 0:
        ok, e = attempt(lambda: dlite.Collection.load("json", path, "mode=r", id=w.E.uri, lazy=lazy))
        ctx.check(not ok, "load-noncollection", repr(e))
    os.remove(path)
    errclr()


def g_capi(ctx, i, rng):
    """Borrowed and new references of the C functions."""
    E = ent()
    for _ in range(5):
        insts = [C.dlite_instance_create(C.dlite_meta_get(E.uri.encode()), szarr([1]), None) for _ in range(3)]
        coll = C.dlite_collection_create(None)
        refs = {p: 1 for p in insts}
        labels = {}
        base = {p: S.s_uuid(p) for p in insts}
        for _ in range(rng.choice([10, 40])):
            l = b"l%d" % rng.randrange(5)
            p = rng.choice(insts)
            r = rng.randrange(8)
            if r == 0:
                ok = C.dlite_collection_add(coll, l, p) == 0
                ctx.eq(ok, l not in labels, "c-add")
                if ok:
                    labels[l] = p
                    refs[p] += 1
            elif r == 1:
                C.dlite_instance_incref(p)
                ok = C.dlite_collection_add_new(coll, l, p) == 0
                ctx.eq(ok, l not in labels, "c-add-new")
                if ok:
                    labels[l] = p
                    refs[p] += 1
                else:
                    C.dlite_instance_decref(p)
            elif r == 2:
                ok = C.dlite_collection_remove(coll, l) == 0
                ctx.eq(ok, l in labels, "c-remove")
                if l in labels:
                    refs[labels.pop(l)] -= 1
            elif r == 3:
                g = C.dlite_collection_get(coll, l)
                ctx.eq(g or None, labels.get(l), "c-get")
            elif r == 4:
                g = C.dlite_collection_get_new(coll, l, None)
                ctx.eq(g or None, labels.get(l), "c-get-new")
                if g:
                    C.dlite_instance_decref(g)
            elif r == 5:
                g = C.dlite_collection_get_id(coll, base[p])
                ctx.eq(g or None, p if p in labels.values() else None, "c-get-id")
            elif r == 6:
                st = (c_state * 1)()
                C.dlite_collection_init_state(coll, st)
                new = rng.random() < .5
                f = C.dlite_collection_next_new if new else C.dlite_collection_next
                f.restype, f.argtypes = c.c_void_p, [c.c_void_p, c.c_void_p]
                got = []
                while True:
                    g = f(coll, st)
                    if not g:
                        break
                    got.append(g)
                    if new:
                        C.dlite_instance_decref(g)
                C.dlite_collection_deinit_state(st)
                ctx.eq(sorted(got), sorted(labels.values()), "c-next")
            else:
                ctx.eq(C.dlite_collection_count(coll), len(labels), "c-count")
                ctx.eq(C.dlite_collection_has(coll, l), int(l in labels), "c-has")
                ctx.eq(C.dlite_collection_has_id(coll, base[p]), int(p in labels.values()), "c-has-id")
            ctx.sig("c", r, l in labels, len(labels))
            errclr()
            for p in insts:
                ctx.eq(S.s_refcount(p), refs[p], "c-refcount", r)
        f = C.dlite_collection_from_instance
        f.restype, f.argtypes = c.c_void_p, [c.c_void_p]
        ctx.eq(f(coll), coll, "from-instance")
        ctx.check(not f(insts[0]), "from-noncollection")
        errclr()
        C.dlite_collection_decref(coll)
        for p in insts:
            ctx.eq(S.s_refcount(p), 1, "c-released")
            C.dlite_instance_decref(p)


import ctypes as c                                  # noqa
c_state = c.c_char * 64

GROUPS = [("history", g_history, 60, 2000), ("io", g_io, 24, 400), ("capi", g_capi, 20, 400)]
