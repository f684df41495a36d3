"""P13: storage round trip."""
import gc, math, os, pickle, shutil, subprocess, sys, tempfile
from dl import *
import gen

RULE = "distinct (driver, options, way of saving, way of loading, element types, values class, outcome) combinations observed"


def setup():
    quiet()
    import dlite
    global dlite


# ---- what the formats document -----------------------------------------------------------------
DRIVERS = {
    # name: (extension, kinds, values generator options, write options, read options)
    "json": ("json", "niufsSb", dict(special=False), ["mode=w", "mode=w;with-uuid=true", "mode=w;single=false",
                                                      "mode=w;with-meta=true", "mode=w;arrays=true", "mode=w;uri-key=true", ""],
             ["mode=r", "", "mode=a"]),
    "hdf5": ("h5", "niufsSb", dict(special=True), ["mode=w", "mode=append", ""], ["mode=r", "mode=rw", ""]),
    "yaml": ("yaml", "niufsSb", dict(special=False), ["mode=w", "mode=w;soft7=false", "mode=w;with_uuid=true",
                                                      "mode=w;with_meta=true", "mode=w;urikey=true", "mode=w;single=false"],
             ["mode=r", "mode=a", ""]),
    "bson": ("bson", "nifsSb", dict(special=False), ["mode=w", "mode=w;soft7=false"], ["mode=r", "mode=a", ""]),
    "pyrdf": ("ttl", "niufsSb", dict(special=False), ["mode=w", "mode=w;format=turtle", "mode=w;base_uri=http://ex.com/d"],
              ["mode=r", "mode=r;format=turtle"]),
    "rdf": ("xml", "niufsSb", dict(special=False, txt=gen.plain), ["mode=w;store=file"], ["mode=r;store=file"]),
}


def norm(v):
    """Without negative zeros, which Python's json module turns into integers."""
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return 0.0 if isinstance(v, float) and v == 0 else v


def bare(o):
    """Metadata dict without order of properties (RDF knows none) and empty values."""
    if isinstance(o, dict):
        if isinstance(o.get("properties"), list):
            o = dict(o, properties={p["name"]: p for p in o["properties"]})
        if isinstance(o.get("dimensions"), list):
            o = dict(o, dimensions={p["name"]: p.get("description") for p in o["dimensions"]})
        return {k: bare(v) for k, v in o.items() if v not in (None, "", [], {}) and k not in ("uuid",)}
    return [bare(x) for x in o] if isinstance(o, list) else o


def rand_id(rng):
    return rng.choice([None, None, new_uuid(rng), "http://data.org/%s" % gen.ident(rng, 10), "id_%s" % gen.ident(rng, 9)])


class Job:
    """One data instance to be stored."""

    def __init__(self, rng, drv, meta=None, **kw):
        ext, kinds, vopts, wopts, ropts = DRIVERS[drv]
        self.drv = drv
        if meta:
            self.e, self.meta = meta
        else:
            self.e = gen.rand_entity(rng, kinds, **kw)
            if drv == "bson":
                for p in self.e.props:
                    if p.dtype == UINT:
                        p.dtype, p.tname = INT, p.tname[1:]
            self.meta = gen.py_meta(self.e)
        self.dims = [rng.choice([0, 1, 1, 2, 2, 3, 4]) for _ in self.e.dims]
        self.values = gen.rand_values(rng, self.e, self.dims, **vopts)
        if drv in ("yaml", "bson"):
            self.values = [norm(v) for v in self.values]
        self.id = rand_id(rng)
        if drv == "pyrdf" and self.id and self.id.startswith("id_"):
            self.id = None                          # not a valid subject
        inst = self.meta(self.dims, id=self.id) if self.id else self.meta(self.dims)
        gen.fill(gen.ptr(inst), self.e, self.values)
        self.uuid, self.uri, self.hash = inst.uuid, inst.uri, inst.get_hash()
        self.inst = inst
        self.metahash = self.meta.get_hash()
        self.metadict = self.meta.asdict()
        self.loadid = self.id if self.id and rng.random() < .5 else self.uuid

    def drop(self, ctx):
        self.inst = None
        gc.collect()
        ctx.check(not dlite.has_instance(self.uuid, check_storages=False), "still-in-memory")

    def compare(self, ctx, got, detail):
        if not ctx.check(isinstance(got, dict), "not-loaded:%s" % self.drv, (got, detail)):
            return
        ctx.eq(got["uuid"], self.uuid, "uuid:" + self.drv, detail)
        if got["uri"] is not None:
            if self.drv == "hdf5" and got["uri"].endswith("/" + self.uuid):
                pass                                # does not store the uri
            elif self.uri and self.drv != "pyrdf":
                ctx.eq(got["uri"], self.uri, "uri:" + self.drv, detail)
            elif self.drv != "pyrdf":
                ctx.check(uuid5(got["uri"]) == self.uuid or got["uri"].endswith("/" + self.uuid), "uri-of-uuid:" + self.drv, detail)
        ctx.eq(got["meta"], self.e.uri, "meta:" + self.drv, detail)
        ctx.eq(got["dims"], self.dims, "dimensions:" + self.drv, detail)
        bad = [(p.name, p.tname, p.shape, w, g) for p, w, g in zip(self.e.props, self.values, got["values"])
               if not gen.same(w, g)]
        ctx.check(not bad, "values:" + self.drv, lambda: "%s\n%s" % (bad[:2], detail))
        if got["hash"] or self.drv != "pyrdf":
            ctx.eq(got["hash"], self.hash, "hash:" + self.drv, detail)
        if "rdf" not in self.drv:
            ctx.eq(got["metahash"], self.metahash, "metadata-hash:" + self.drv, detail)
            ctx.eq(got["metadict"], self.metadict, "metadata:" + self.drv, detail)
        else:
            ctx.eq(bare(got["metadict"]), bare(self.metadict), "metadata:" + self.drv, detail)


def describe(inst, job):
    return dict(uuid=inst.uuid, uri=inst.uri, meta=inst.meta.uri, hash=inst.get_hash(),
                dims=list(inst.dimensions.values()), values=gen.read_all(gen.ptr(inst), job.e),
                metahash=inst.meta.get_hash(), metadict=inst.meta.asdict())


def save(rng, drv, jobs, loc):
    """Saves the instances to `loc` in one of the possible ways; returns description."""
    ext, kinds, vopts, wopts, ropts = DRIVERS[drv]
    opts = rng.choice(wopts)
    if drv == "json" and len(jobs) > 1:
        opts = rng.choice([o for o in wopts if o])
    if drv == "hdf5" and os.path.exists(loc):
        opts = "mode=append"
    how = rng.choice(["storage", "storage", "save", "url", "storageobj"]) if len(jobs) == 1 else \
        rng.choice(["storage", "storageobj"])
    if how == "storage":
        with dlite.Storage(drv, loc, opts) as s:
            for j in jobs:
                s.save(j.inst)
    elif how == "storageobj":
        s = dlite.Storage("%s://%s?%s" % (drv, loc, opts))
        for j in jobs:
            j.inst.save(s)
        del s
    elif how == "save":
        jobs[0].inst.save(drv, loc, opts)
    else:
        jobs[0].inst.save("%s://%s?%s" % (drv, loc, opts))
    return how, opts


def how_to_load(rng, job, loc, alone):
    drv = job.drv
    opts = rng.choice(DRIVERS[drv][4])
    how = rng.choice(["storage", "location", "url"] + (["protocol"] if drv in ("json", "yaml") else []))
    if drv == "pyrdf" and how == "protocol":
        opts = "mode=r;format=turtle"
    id = job.loadid
    if drv == "bson":
        id = job.uuid
    if alone and drv in ("json", "hdf5") and how != "storage" and rng.random() < .3:
        id = None
    return how, drv, loc, opts, id


def load(h):
    how, drv, loc, opts, id = h
    if how == "storage":
        with dlite.Storage(drv, loc, opts) as s:
            return s.load(id)
    if how == "location":
        return dlite.Instance.from_location(drv, loc, opts, id)
    if how == "protocol":
        return dlite.Instance.load("file", drv, loc, "mode=r", id=None)
    return dlite.Instance.from_url("%s://%s?%s%s" % (drv, loc, opts, "#" + id if id else ""))


def g_inproc(ctx, i, rng):
    drv = list(DRIVERS)[i % len(DRIVERS)]
    n = rng.choice([1, 1, 2, 3, 5])
    jobs = []
    for k in range(n):
        meta = (jobs[-1].e, jobs[-1].meta) if jobs and rng.random() < .4 else None
        jobs.append(Job(rng, drv, meta))
    d = tempfile.mkdtemp(dir=ctx.work)
    loc = "%s/f.%s" % (d, DRIVERS[drv][0])
    h = save(rng, drv, jobs, loc)
    for j in jobs:
        j.drop(ctx)
    order = jobs[:]
    rng.shuffle(order)
    for j in order:
        hl = how_to_load(rng, j, loc, n == 1)
        if hl[0] == "protocol" and n > 1:
            hl = ("storage",) + hl[1:]
        keep = None
        inst = load(hl)
        detail = (h, hl, n, j.id)
        j.compare(ctx, describe(inst, j), detail)
        ctx.eq(inst._refcount, 1, "loaded-refcount:" + drv, detail)
        ctx.sig(drv, h, hl[0], hl[3], hl[4] == j.uuid, n, sorted({p.tname for p in j.e.props})[:3], len(j.dims))
        del inst
        gc.collect()
        ctx.check(not dlite.has_instance(j.uuid, check_storages=False), "loaded-not-released:" + drv, detail)
        ctx.note("in-process " + drv)
    shutil.rmtree(d)


# ---- another process ---------------------------------------------------------------------------
def run_child(ctx, spec, d):
    pickle.dump(spec, open(d + "/spec.pkl", "wb"))
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "p13child.py"),
                        d + "/spec.pkl", d + "/out.pkl"], cwd=d, capture_output=True, timeout=120)
    if not ctx.check(os.path.exists(d + "/out.pkl"), "child-failed", lambda: r.stderr.decode("utf8", "replace")[-3500:]):
        return None
    return pickle.load(open(d + "/out.pkl", "rb"))


def g_process(ctx, i, rng):
    d = tempfile.mkdtemp(dir=ctx.work)
    files, paths, todo = [], [], []
    for k in range(6):
        drv = rng.choice(list(DRIVERS)) if k > 3 else ["json", "hdf5", "yaml", "pyrdf", "bson", "rdf"][(i + k) % 6]
        n = rng.choice([1, 1, 2, 3])
        jobs = []
        for _ in range(n):
            meta = (jobs[-1].e, jobs[-1].meta) if jobs and rng.random() < .4 else None
            jobs.append(Job(rng, drv, meta))
        loc = "%s/f%d.%s" % (d, k, DRIVERS[drv][0])
        h = save(rng, drv, jobs, loc)
        for j in jobs:
            m = "%s/m%d.json" % (d, len(paths))
            if drv != "pyrdf" and os.path.exists(m) is False:
                j.meta.save("json", m, "mode=w")
                paths.append(m)
        alone = n == 1
        for j in jobs:
            hl = how_to_load(rng, j, loc, alone)
            if hl[0] == "protocol":
                hl = (hl[0] if alone else "storage",) + hl[1:3] + ("mode=r", None if alone else j.loadid)
            elif rng.random() < .25 and drv != "bson":
                hl = ("path", drv, loc, DRIVERS[drv][4][0], j.loadid)
            todo.append((j, h, hl, n))
    # serialised in memory
    for k in range(3):
        drv = rng.choice(["json", "yaml", "pyrdf"])
        j = Job(rng, drv)
        loc = "%s/b%d" % (d, k)
        if drv == "pyrdf":
            b = j.inst.to_bytes(drv)
        else:
            b = j.inst.to_bytes(drv, options=rng.choice([None, "with_uuid=true" if drv == "yaml" else "with-uuid=true"]) if j.uri else
                                ("with_uuid=true" if drv == "yaml" else "with-uuid=true"))
        with open(loc, "wb") as f:
            f.write(b)
        m = "%s/m%d.json" % (d, len(paths))
        j.meta.save("json", m, "mode=w")
        paths.append(m)
        todo.append((j, "bytes", ("bytes", drv, loc, None, j.loadid if drv == "pyrdf" or rng.random() < .5 else None), 1))
    # pickled
    j = Job(rng, "yaml")
    with open(d + "/pk", "wb") as f:
        pickle.dump(j.inst, f)
    m = "%s/m%d.json" % (d, len(paths))
    j.meta.save("json", m, "mode=w")
    paths.append(m)
    todo.append((j, "pickle", ("pickle", "", d + "/pk", None, None), 1))
    todo = [(j, h, hl, n) for j, h, hl, n in todo]
    rng.shuffle(todo)
    out = run_child(ctx, dict(paths=paths, jobs=[dict(how=hl, entity=j.e) for j, h, hl, n in todo]), d)
    if out:
        for (j, h, hl, n), got in zip(todo, out):
            j.compare(ctx, got, (h, hl, n, j.id))
            ctx.sig("process", j.drv, h, hl[0], hl[3], hl[4] == j.uuid, n, isinstance(got, dict))
            ctx.note("other process " + (hl[0] if hl[0] in ("bytes", "pickle", "path") else j.drv))
    shutil.rmtree(d)


def g_meta(ctx, i, rng):
    """Metadata stored by each driver, loaded by a process that never saw it."""
    d = tempfile.mkdtemp(dir=ctx.work)
    todo = []
    for k in range(8):
        drv = ["json", "yaml", "bson", "pyrdf"][(i + k) % 4]
        e = gen.rand_entity(rng, "niufsSb" if drv != "bson" else "nifsSb")
        meta = gen.py_meta(e)
        loc = "%s/f%d.%s" % (d, k, DRIVERS[drv][0])
        opts = rng.choice(DRIVERS[drv][3])
        if drv == "json" and rng.random() < .3:
            opts = "mode=w;single=true"
        with dlite.Storage(drv, loc, opts) as s:
            s.save(meta)
        hl = (rng.choice(["storage", "location", "url"]), drv, loc, "mode=r", e.uri if drv not in ("bson",) and rng.random() < .6 else meta.uuid)
        if drv == "pyrdf":
            hl = hl[:4] + (e.uri,)
        todo.append((drv, meta.asdict(), meta.get_hash(), meta.uuid, opts, hl))
    out = run_child(ctx, dict(paths=[], jobs=[dict(how=t[-1], entity=None) for t in todo]), d)
    if out:
        for (drv, dct, h, uuid, opts, hl), got in zip(todo, out):
            detail = (drv, opts, hl)
            if not ctx.check(isinstance(got, dict), "metadata-not-loaded:" + drv, (got, detail)):
                continue
            ctx.eq(got["uuid"], uuid, "metadata-uuid:" + drv, detail)
            if drv == "pyrdf":
                ctx.eq(bare(got["dict"]), bare(dct), "metadata-content:" + drv, detail)
            else:
                ctx.eq(*(bare(got["dict"]), bare(dct)) if drv == "bson" else (got["dict"], dct), "metadata-content:" + drv, detail)
                ctx.eq(got["hash"], h, "metadata-hash:" + drv, detail)
            ctx.sig("meta", drv, opts, hl[0], hl[4] == uuid, len(str(dct)) // 100)
            ctx.note("metadata " + drv)
    shutil.rmtree(d)


def g_collection(ctx, i, rng):
    d = tempfile.mkdtemp(dir=ctx.work)
    todo, paths = [], []
    for k in range(4):
        drv = rng.choice(["json", "yaml", "json", "yaml", "bson"])
        coll = dlite.Collection() if rng.random() < .5 else dlite.Collection("coll_%s" % gen.ident(rng, 9))
        metas = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            j = Job(rng, drv)
            coll.add(gen.ident(rng, 6) + str(len(metas)), j.inst)
            metas[j.e.uri] = j.meta
        for _ in range(rng.choice([0, 1, 3])):
            coll.add_relation(gen.ident(rng, 5), gen.ident(rng, 4), rng.choice([gen.ident(rng, 5), gen.plain(rng, 9) + "x"]),
                              *rng.choice([(), ("@en",), ("xsd:string",)]))
        loc = "%s/c%d.%s" % (d, k, drv)
        opts = rng.choice(["mode=w", "mode=w;" + ("soft7=false" if drv != "json" else "with-uuid=true")])
        coll.save(drv, loc, opts)
        for m in metas.values():
            p = "%s/m%d.json" % (d, len(paths))
            m.save("json", p, "mode=w")
            paths.append(p)
        want = dict(uuid=coll.uuid, rels=gen.rels(coll), hash=coll.get_hash(),
                    insts=sorted((lab, coll.get(lab).uuid, coll.get(lab).get_hash()) for lab in coll.get_labels()))
        lazy = rng.random() < .5
        # the instances must be available when a lazily loaded collection is asked for them
        if lazy:
            paths.append("%s://%s?mode=r" % (drv, loc))
        todo.append((drv, want, opts, dict(how=("collection", drv, loc, "mode=r", coll.uuid), entity="collection", lazy=lazy)))
        del coll
    out = run_child(ctx, dict(paths=paths, jobs=[t[-1] for t in todo]), d)
    if out:
        for (drv, want, opts, job), got in zip(todo, out):
            detail = (drv, opts, job["lazy"])
            if ctx.check(isinstance(got, dict), "collection-not-loaded:" + drv, (got, detail)):
                for key in want:
                    ctx.eq(got[key], want[key], "collection-%s:%s" % (key, drv), detail)
            ctx.sig("coll", drv, opts, job["lazy"], len(want["rels"]), len(want["insts"]))
            ctx.note("collection " + drv)
    shutil.rmtree(d)


# ---- tables and blobs --------------------------------------------------------------------------
def word(rng):
    return "w" + "".join(rng.choice(gen.ALNUM + " _-,;'\"\n") for _ in range(rng.randint(0, 9))) + "z"


def g_csv(ctx, i, rng):
    props, names = [], set()
    for _ in range(rng.randint(1, 6)):
        n = gen.ident(rng, rng.choice([2, 4, 7]))
        if n in names:
            continue
        names.add(n)
        t = rng.choice([("int64", INT, 8), ("int16", INT, 2), ("uint32", UINT, 4), ("float64", FLOAT, 8), ("string", STRPTR, 8),
                        ("string31", FIXSTR, 32), ("bool", BOOL, 1), ("int8", INT, 1), ("uint64", UINT, 8)])
        props.append(gen.Prop(n, t[0], t[1], t[2], ["rows"], unit=rng.choice([None, "m"])))
    e = gen.Entity(gen.meta_uri(rng), ["rows"], props, "table", {"rows": "Number of rows."})
    meta = gen.py_meta(e)
    rows = rng.choice([1, 1, 2, 5, 20])
    vals = [[gen.rand_value(rng, p.dtype, p.size, special=False, null_ok=False, txt=word) for _ in range(rows)] for p in props]
    for p, v in zip(props, vals):
        if p.dtype == FIXSTR:                       # truncated words may look like something else
            v[:] = [x if x.endswith("z") else "wz" for x in v]
    inst = meta([rows])
    gen.fill(gen.ptr(inst), e, vals)
    d = tempfile.mkdtemp(dir=ctx.work)
    loc = d + "/" + rng.choice(["t.csv", "t.dat"])
    fmt = "" if loc.endswith("csv") else ";format=csv"
    opts = rng.choice(["mode=w", "mode=w;pandas_opts=%s" % "%22index%22:False"]) + fmt
    sep = rng.choice(["", ",%22sep%22:%22|%22"])
    ro = "mode=r;infer=false;meta=%s;pandas_opts=%%22float_precision%%22:%%22round_trip%%22,%%22keep_default_na%%22:False" % e.uri + fmt
    inst.save("csv", loc, opts)
    id = rand_id(rng)
    back = dlite.Instance.from_location("csv", loc, ro + (";id=" + id if id else ""))
    got = gen.read_all(gen.ptr(back), e)
    bad = [(p.name, p.tname, w, g) for p, w, g in zip(props, vals, got) if not gen.same(w, g)]
    ctx.check(not bad, "csv-values", lambda: (opts, bad[:2], open(loc).read()[:500]))
    ctx.eq(list(back.dimensions.values()), [rows], "csv-rows")
    ctx.eq(back.meta.uri, e.uri, "csv-meta")
    if id:
        ctx.eq(back.uuid, uuid5(id) if len(id) != 36 else id, "csv-id", id)
    ctx.sig("csv", opts, rows, sorted(p.tname for p in props), bool(id))
    # inferred metadata
    back = dlite.Instance.from_location("csv", loc, "mode=r;pandas_opts=%22float_precision%22:%22round_trip%22,%22keep_default_na%22:False" + fmt)
    ctx.eq([p.name for p in back.meta["properties"]], [p.name for p in props], "csv-inferred-names")
    for p, w in zip(props, vals):
        g = back[p.name].tolist()
        ctx.check(g == w, "csv-inferred-values", lambda: (p.name, p.tname, w, g))
    del back
    shutil.rmtree(d)
    ctx.note("csv")


def g_blob(ctx, i, rng):
    import numpy as np
    d = tempfile.mkdtemp(dir=ctx.work)
    metaid = "http://onto-ns.com/meta/0.1/Blob"
    if not dlite.has_instance(metaid, check_storages=False):
        dlite.Instance.from_location("json", REPO + "/storages/python/python-storage-plugins/blob.json", "mode=r")._incref()
    meta = dlite.get_instance(metaid)
    b = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 300, 5000])))
    inst = meta([len(b)])
    inst.content = np.frombuffer(b, dtype="uint8")
    loc = d + "/f.bin"
    inst.save("blob", loc, None)
    ctx.eq(open(loc, "rb").read(), b, "blob-file")
    with dlite.Storage("blob", loc, None) as s:
        back = s.load(None) if rng.random() < .5 else s.load("any_id_%d" % i)
    ctx.eq(back.content.tobytes(), b, "blob-content")
    ctx.eq(list(back.dimensions.values()), [len(b)], "blob-size")
    ctx.sig("blob", len(b))
    shutil.rmtree(d)


GROUPS = [("inproc", g_inproc, 420, 6000), ("process", g_process, 24, 500), ("meta", g_meta, 10, 200),
          ("collection", g_collection, 12, 250), ("csv", g_csv, 80, 1200), ("blob", g_blob, 20, 150)]
