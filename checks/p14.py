"""P14: a storage is a persistent map from identity to latest content."""
import gc, hashlib, os, shutil, tempfile
from dl import *
import gen

RULE = "distinct (driver, sequence of open modes, operations and outcomes, stored instances) observed"


def setup():
    quiet()
    import dlite
    global dlite
    dlite.errctl.set_hide(True) if hasattr(dlite.errctl, "set_hide") else None


# driver: extension, kinds, generator options, modes, features
#   modes: name of the option -> ("r" | "a" | "w", may create the file)
DRV = {
    "json": dict(ext="json", kinds="niufsSb", kw=dict(special=False), meta=True, lists=True, delete=False,
                 modes={"mode=r": "r", "mode=a": "a", "mode=w": "w", "": "", "mode=a;with-uuid=true": "a", "mode=w;uri-key=true": "w",
                        "mode=a;uri-key=true": "a", "mode=w;with-uuid=true;arrays=true": "w"}),
    "yaml": dict(ext="yaml", kinds="niufsSb", kw=dict(special=False), meta=True, lists=True, delete=True,
                 modes={"mode=r": "r", "mode=a": "a", "mode=w": "w", "": "a", "mode=w;soft7=false": "w", "mode=a;with_uuid=true": "a",
                        "mode=a;urikey=true": "a", "mode=w;single=false": "w", "mode=w;urikey=true": "w"}),
    "bson": dict(ext="bson", kinds="nifsSb", kw=dict(special=False), meta=True, lists=True, delete=False,
                 modes={"mode=r": "r", "mode=a": "a", "mode=w": "w", "": "a", "mode=a;soft7=false": "a"}),
    "hdf5": dict(ext="h5", kinds="niufsSb", kw=dict(special=True), meta=False, lists=True, delete=False,
                 modes={"mode=r": "r", "mode=append": "a", "mode=w": "w", "": "a", "mode=rw": "rw"}),
    "pyrdf": dict(ext="ttl", kinds="niufsSb", kw=dict(special=False), meta=False, lists=True, delete=False,
                  modes={"mode=r": "r", "mode=a": "a", "mode=w": "w", "": "a", "mode=a;include_meta=false": "a"}),
}


class Known:
    """One identity and the versions of its content."""

    def __init__(self, rng, meta, drv):
        self.meta = meta
        k = rng.randrange(3 if drv != "pyrdf" else 2)
        self.id = [new_uuid(rng), "http://data.org/%s" % gen.ident(rng, 10), "id_%s" % gen.ident(rng, 9)][k]
        self.uuid = self.id if k == 0 else (uuid5(self.id))

    def make(self, rng, drv, bad=False):
        e, m = self.meta
        dims = [rng.choice([0, 1, 1, 2, 3]) for _ in e.dims]
        values = gen.rand_values(rng, e, dims, **DRV[drv]["kw"])
        values = [norm(v) for v in values]
        inst = m(dims, id=self.id)
        gen.fill(gen.ptr(inst), e, values)
        return inst, (e, dims, values)


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return 0.0 if isinstance(v, float) and v == 0 else v


class Driver:
    def __init__(self, ctx, rng, drv, d):
        self.ctx, self.rng, self.drv, self.o = ctx, rng, drv, DRV[drv]
        self.loc = "%s/s.%s" % (d, self.o["ext"])
        self.metas = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            e = gen.rand_entity(rng, self.o["kinds"], maxdims=2, maxprops=4)
            self.metas.append((e, gen.py_meta(e)))
        self.pool = [Known(rng, rng.choice(self.metas), drv) for _ in range(rng.choice([2, 4, 6]))]
        self.disk = {}                      # uuid -> content, what the file holds
        self.exists = False
        self.log = []

    def is_meta(self, uuid):
        return uuid in {m.uuid for e, m in self.metas}

    def open(self, opt):
        if self.rng.random() < .5:
            return dlite.Storage(self.drv, self.loc, opt)
        return dlite.Storage("%s://%s%s" % (self.drv, self.loc, "?" + opt if opt else ""))

    def digest(self):
        return hashlib.sha1(open(self.loc, "rb").read()).digest() if os.path.exists(self.loc) else None

    def show(self, *a):
        return (self.drv, self.log[-40:]) + a

    # ---- judging ---------------------------------------------------------------------------
    def verify_load(self, s, k, want):
        ctx = self.ctx
        id = self.rng.choice([k.id, k.uuid])
        if self.drv in ("bson",) or (self.drv == "pyrdf" and k.id != k.uuid):
            id = k.uuid if self.drv == "bson" else k.id
        try:
            inst = s.load(id)
        except Exception as ex:
            errclr()
            ctx.check(want is None, "stored-instance-not-loaded:" + self.drv, lambda: self.show(k.id, str(ex)[-300:]))
            return
        if not ctx.check(want is not None, "missing-instance-loaded:" + self.drv, lambda: self.show(k.id)):
            return
        e, dims, values = want
        ctx.eq(inst.uuid, k.uuid, "uuid:" + self.drv)
        ctx.eq(list(inst.dimensions.values()), dims, "loaded-dimensions:" + self.drv, lambda: self.show(k.id))
        got = gen.read_all(gen.ptr(inst), e)
        bad = [(p.name, p.tname, p.shape, w, g) for p, w, g in zip(e.props, values, got) if not gen.same(w, g)]
        ctx.check(not bad, "loaded-values:" + self.drv, lambda: self.show(k.id, bad[:2]))
        ctx.eq(inst._refcount, 1, "loaded-refcount:" + self.drv)
        del inst
        gc.collect()
        ctx.check(not dlite.has_instance(k.uuid, check_storages=False), "loaded-not-released:" + self.drv, lambda: self.show(k.id))

    def verify_list(self, s, want):
        """`want`: uuid -> content."""
        ctx, rng = self.ctx, self.rng
        got = list(s.get_uuids() or [])
        meta = {u for u in got if self.is_meta(u)}
        if self.drv == "pyrdf":             # metadata are stored along with data
            got = [u for u in got if u not in meta]
            want = {u: v for u, v in want.items() if not self.is_meta(u)}
        ctx.eq(sorted(got), sorted(want), "listing:" + self.drv, lambda: self.show())
        if self.drv == "hdf5":
            return
        e, m = rng.choice(self.metas)
        exp = sorted(u for u, v in want.items() if v is not None and v[0] is e)
        ctx.eq(sorted(s.get_uuids(e.uri) or []), exp, "restricted-listing:" + self.drv, lambda: self.show(e.uri))
        if rng.random() < .4:
            it = s.instances(e.uri)
            seen = []
            for inst in it:
                ctx.eq(inst.meta.uri, e.uri, "iterated-metadata:" + self.drv)
                seen.append(inst.uuid)
                k = [k for k in self.pool if k.uuid == inst.uuid]
                if k and want.get(inst.uuid):
                    g = gen.read_all(gen.ptr(inst), e)
                    ctx.check(all(gen.same(a, b) for a, b in zip(want[inst.uuid][2], g)), "iterated-values:" + self.drv, lambda: self.show(g))
                u = inst.uuid
                del inst
                gc.collect()
                ctx.check(not dlite.has_instance(u, check_storages=False), "iterated-not-released:" + self.drv, lambda: self.show(u))
            ctx.eq(sorted(seen), exp, "iteration:" + self.drv, lambda: self.show(e.uri))

    def verify_all(self):
        """Fresh read-only session."""
        if not self.exists:
            return
        before = self.digest()
        with self.open("mode=r") as s:
            self.verify_list(s, self.disk)
            ks = self.pool[:]
            self.rng.shuffle(ks)
            for k in ks:
                self.verify_load(s, k, self.disk.get(k.uuid))
            for e, m in self.metas:
                if m.uuid in self.disk:
                    self.ctx.eq(s.load(m.uuid).get_hash(), m.get_hash(), "stored-metadata:" + self.drv)
        del s
        self.ctx.eq(self.digest(), before, "reading-changed-the-file:" + self.drv, lambda: self.show())

    # ---- one session -----------------------------------------------------------------------
    def session(self):
        ctx, rng, drv = self.ctx, self.rng, self.drv
        opt = rng.choice(list(self.o["modes"]))
        mode = self.o["modes"][opt]
        if mode == "":                      # json: read if single, append if multi, write if there is no file
            mode = ("a" if self.exists else "w")
            if self.single_meta():
                mode = "r"
        before = self.digest()
        self.log.append(("open", opt, "exists" if self.exists else "new"))
        must_fail = not self.exists and (mode in ("r", "rw") or (mode == "a" and drv in ("json", "yaml")))
        may_fail = must_fail
        try:
            s = self.open(opt)
        except Exception as ex:
            errclr()
            ctx.check(may_fail, "open-failed:" + drv, lambda: self.show(str(ex)[-300:]))
            ctx.check(self.exists or mode == "a" or not os.path.exists(self.loc), "failed-open-creates-file:" + drv, lambda: self.show())
            ctx.eq(self.digest() if self.exists else before, before, "failed-open-changed-the-file:" + drv, lambda: self.show())
            if not self.exists and os.path.exists(self.loc):
                os.unlink(self.loc)
            return
        if not ctx.check(not must_fail, "open-of-missing-file:" + drv, lambda: self.show()):
            return
        ctx.eq(bool(s.writable), mode in ("a", "w", "rw"), "writable-flag:" + drv, lambda: self.show())
        cur = dict(self.disk) if mode in ("a", "r", "rw") else {}
        dirty = False
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            op = rng.choice(["save", "save", "save", "load", "list", "missing", "delete", "meta", "savebad"])
            k = rng.choice(self.pool)
            if mode == "r" and op in ("save", "delete") and drv in ("yaml", "bson", "pyrdf"):
                continue                    # see g_kf_readonly
            if op == "save":
                inst, content = k.make(rng, drv)
                self.log.append(("save", k.id[:14], content[1]))
                try:
                    if rng.random() < .7:
                        s.save(inst)
                    else:
                        inst.save(s)
                    ok = True
                except Exception as ex:
                    ok, why = False, str(ex)
                    errclr()
                del inst
                gc.collect()
                ctx.eq(ok, mode in ("a", "w", "rw"), "save-outcome:" + drv, lambda: self.show(mode, "" if ok else why[-300:]))
                if ok:
                    cur[k.uuid] = content
                    dirty = True
                ctx.check(not dlite.has_instance(k.uuid, check_storages=False), "saved-not-released:" + drv, lambda: self.show(k.id))
            elif op == "load" and mode in ("a", "r", "rw"):
                self.log.append(("load", k.id[:14]))
                self.verify_load(s, k, cur.get(k.uuid))
            elif op == "list" and mode in ("a", "r", "rw"):
                self.log.append(("list",))
                self.verify_list(s, cur)
            elif op == "missing" and mode in ("a", "r", "rw"):
                id = rng.choice([new_uuid(rng), "http://nowhere.org/" + gen.ident(rng, 8)])
                try:
                    got = s.load(id)
                except Exception:
                    errclr()
                    got = None
                ctx.check(got is None, "unknown-instance-loaded:" + drv, lambda: self.show(id))
            elif op == "delete":
                id = rng.choice([k.id, k.uuid])
                self.log.append(("delete", k.id[:14]))
                try:
                    s.delete(id)
                    ok = True
                except Exception:
                    errclr()
                    ok = False
                if not self.o["delete"]:
                    ctx.check(not ok, "delete-unsupported:" + drv, lambda: self.show())
                elif ok:
                    ctx.check(mode in ("a", "w"), "deleted-from-read-only:" + drv, lambda: self.show(id))
                    dirty = dirty or k.uuid in cur
                    cur.pop(k.uuid, None)
                else:
                    ctx.check(k.uuid not in cur or mode == "r", "delete-failed:" + drv, lambda: self.show(id))
            elif op == "meta" and self.o["meta"] and mode in ("a", "w"):
                e, m = rng.choice(self.metas)
                self.log.append(("save-meta", e.uri))
                try:
                    s.save(m)
                    ok = True
                except Exception as ex:
                    errclr()
                    ok = False
                if ok and drv == "json" and mode == "w" and not dirty:
                    # a single metadata is written in single-entity format; nothing can be added in this session
                    cur[m.uuid] = None
                    dirty = "single"
                    self.log.append(("single",))
                    break
                ctx.check(ok, "metadata-not-saved:" + drv, lambda: self.show())
                cur[m.uuid] = None
                dirty = True
            elif op == "savebad":
                # not storable in this format; must leave everything else alone
                bad = self.unstorable()
                if bad is not None:
                    self.log.append(("save-unstorable",))
                    try:
                        s.save(bad)
                        ok = True
                    except Exception:
                        errclr()
                        ok = False
                    ctx.check(not ok, "unstorable-saved:" + drv, lambda: self.show())
                    ctx.note("unstorable " + drv)
            ctx.note("%s %s" % (op, drv))
        how = rng.choice(["with", "del", "flush"])
        if how == "flush" and drv == "yaml":
            s.flush()
        if how == "with":
            with s:
                pass
        del s
        gc.collect()
        self.log.append(("close",))
        if mode == "r" or (not dirty and mode in ("a", "rw") and self.exists and drv in ("json", "yaml", "bson")):
            if mode == "r":
                ctx.eq(self.digest(), before, "read-session-changed-the-file:" + drv, lambda: self.show())
        elif mode == "w" and not dirty and drv in ("json", "yaml"):
            # Nothing was written.  Whether the existing content survives is not specified.
            if os.path.exists(self.loc):
                os.unlink(self.loc)
            self.exists, cur = False, {}
        else:
            self.exists = os.path.exists(self.loc)
        if drv == "json" and mode == "a" and not self.exists:
            pass
        if drv == "bson" and self.exists and not cur:
            # an empty bson document cannot be opened again
            os.unlink(self.loc)
            self.exists = False
        if not self.exists:
            cur = {}
        if dirty or not self.exists:
            self.lastsingle = dirty == "single"
        self.disk = cur

    def single_meta(self):
        return self.drv == "json" and self.log[-2:] and len(self.disk) == 1 and list(self.disk.values())[0] is None and self.lastsingle

    lastsingle = False

    def unstorable(self):
        if self.drv == "bson":
            uri = "http://onto-ns.com/meta/0.1/P14Big"
            m = gen.py_meta(gen.Entity(uri, [], [gen.Prop("x", "uint64", UINT, 8, [])], "d", {})) \
                if not dlite.has_instance(uri, check_storages=False) else dlite.get_instance(uri)
            inst = m([])
            inst.x = 2**63 + self.rng.randrange(100)
            return None if self.drv == "bson" else inst
        if self.drv == "hdf5":
            return self.rng.choice(self.metas)[1]
        return None


def g_history(ctx, i, rng):
    drv = list(DRV)[i % len(DRV)]
    d = tempfile.mkdtemp(dir=ctx.work)
    D = Driver(ctx, rng, drv, d)
    for _ in range(rng.choice([2, 3, 4, 6])):
        D.session()
        D.verify_all()
    ctx.sig(drv, [x[:2] if x[0] == "open" else x[0] for x in D.log][:14], len(D.disk))
    D = None
    shutil.rmtree(d)


def g_kf_readonly(ctx, i, rng):
    """Errors of save() in Python storages are not reported, in particular when the storage is read-only."""
    drv = ["yaml", "bson", "pyrdf"][i]
    d = tempfile.mkdtemp(dir=ctx.work)
    D = Driver(ctx, rng, drv, d)
    k = D.pool[0]
    inst, content = k.make(rng, drv)
    with D.open("mode=w") as s:
        s.save(inst)
    before = D.digest()
    s = D.open("mode=r")
    try:
        s.save(inst)
        ok = True
    except Exception:
        errclr()
        ok = False
    del s
    ctx.check(not ok, "save-to-read-only-not-reported:" + drv)
    ctx.eq(D.digest(), before, "save-to-read-only-changed-the-file:" + drv)
    shutil.rmtree(d)


GROUPS = [("kf-readonly", g_kf_readonly, 3, 3), ("history", g_history, 400, 8000)]
