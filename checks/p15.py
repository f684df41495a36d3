"""P15: instances are found wherever the search configuration says."""
import ctypes as c, fnmatch, gc, json, os, shutil, subprocess, sys, tempfile
from dl import *
import gen

RULE = "distinct (search list shape, open storages, lookup kind, place where the instance was found) observations"
KINDS = ("json", "yaml", "bson", "hdf5")            # drivers, also file extensions


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


def setup():
    quiet()
    import dlite
    global dlite, M, SP
    e = gen.Entity("http://onto-ns.com/meta/0.1/P15Data", ["n"],
                   [gen.Prop("v", "int64", INT, 8, []), gen.Prop("a", "int32", INT, 4, ["n"]), gen.Prop("s", "string", STRPTR, 8, [])])
    M = gen.py_meta(e)
    SP = dlite.storage_path
    while len(SP):
        del SP[0]
    SP.append("/default/never")


VERS = [0]


def make(id):
    VERS[0] += 1
    v = VERS[0]
    inst = M([v % 4], id=id)
    inst.v, inst.a, inst.s = v, [v + k for k in range(v % 4)], "version %d" % v
    return inst, v


class File:
    def __init__(self, drv, path):
        self.drv, self.path, self.ids = drv, path, {}


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.root = tempfile.mkdtemp(dir=ctx.work)
        self.log = []
        self.files = {}
        self.known = []                       # identities
        self.open = []                        # [storage, File, view, mode]
        self.mem = {}                         # uuid -> (instance, version)
        self.list = []
        dirs = [self.root + "/" + d for d in ("da", "db", "da/sub")]
        for d in dirs:
            os.mkdir(d)
        self.dirs = dirs
        for _ in range(rng.choice([2, 4, 6, 10])):
            drv = rng.choice(KINDS)
            ext = drv if rng.random() < .85 else rng.choice(["dat", "h5", "x.y"])
            p = "%s/%s.%s" % (rng.choice(dirs), rng.choice(["a", "b", "c"]) + gen.ident(rng, 3), ext)
            self.files.setdefault(p, File(drv, p))
        for _ in range(rng.choice([2, 4, 8])):
            k = rng.randrange(3)
            id = [new_uuid(rng), "ftp://data.org/%s" % gen.ident(rng, 10), "id_%s" % gen.ident(rng, 9)][k]
            self.known.append((id, id if k == 0 else uuid5(id)))
        for f in list(self.files.values()):
            todo = [x for x in self.known if rng.random() < .4]
            if not todo and rng.random() < .8:
                todo = [rng.choice(self.known)]
            if not todo:
                del self.files[f.path]
                continue
            s = dlite.Storage(f.drv, f.path, "mode=w")
            for id, u in todo:
                inst, v = make(id)
                s.save(inst)
                f.ids[u] = v
                del inst
            del s
            gc.collect()
        # things that are no storages
        if rng.random() < .7:
            open(dirs[0] + "/notes.txt", "w").write("nothing here\n")
        if rng.random() < .3:
            open(dirs[1] + "/plain", "w").write("{}\n")
        if rng.random() < .5:
            for ext, junk in (("json", rng.choice(["", "{", "[1, 2]", "not json", '{"a": 1}'])), ("yaml", rng.choice(["", "a: [", "- 1", "x"])),
                              ("hdf5", "\x89HDF nothing"), ("bson", rng.choice(["", "\x05"]))):
                if rng.random() < .4:
                    open("%s/junk.%s" % (rng.choice(dirs), ext), "w").write(junk)

    def show(self, *a):
        return (self.log[-30:], self.list, [(o[1].path[-14:], o[3]) for o in self.open]) + a

    # ---- the search list -------------------------------------------------------------------
    def entry(self):
        """A random path list entry."""
        rng = self.rng
        k = rng.choice(["file", "file", "glob", "glob", "dir", "url", "url", "urlglob", "rel", "missing", "glob"])
        f = rng.choice(list(self.files.values())) if self.files else File("json", self.root + "/none.json")
        d = rng.choice(self.dirs)
        if k == "file":
            return f.path
        if k == "rel":
            return os.path.relpath(f.path)
        if k == "url":
            return "%s://%s%s" % (f.drv, f.path, rng.choice(["", "?mode=r"]))
        if k == "urlglob":
            return "%s://%s/%s" % (f.drv, d, rng.choice(["*.", "a*.", "*b*."]) + f.drv)
        if k == "glob":
            return d + "/" + rng.choice(["*", "*.*", "*.json", "*.yaml", "a*.json", "b*", "c???.json", "[ab]*.json", "*.bson", "*.hdf5", "?*.y*ml"])
        if k == "dir":
            return d
        return rng.choice([d + "/missing.json", self.root + "/nodir/*.json", self.root + "/nodir", "nodrv://x/y", "json:///nowhere/x.json"])

    def expand(self, entry):
        """Files the entry refers to (with a usable driver)."""
        drv = None
        if "://" in entry:
            drv, entry = entry.split("://", 1)
            entry = entry.split("?mode", 1)[0]
        entry = os.path.abspath(entry)
        got = []
        for f in self.files.values():
            if drv is None:
                if f.path.rsplit(".", 1)[1] != f.drv:
                    continue
                if os.path.dirname(f.path) == entry or (os.path.dirname(f.path) == os.path.dirname(entry) and
                                                        fnmatch.fnmatchcase(os.path.basename(f.path), os.path.basename(entry))):
                    got.append(f)
            elif f.path == entry and drv == f.drv:
                got.append(f)
            elif os.path.dirname(f.path) == os.path.dirname(entry) and "*" in entry and f.path.endswith("." + f.drv) and \
                    fnmatch.fnmatchcase(os.path.basename(f.path), os.path.basename(entry)):
                got.append(f)
        return got

    def edit_list(self):
        ctx, rng, L = self.ctx, self.rng, self.list
        op = rng.choice(["append", "append", "append", "insert", "insert", "set", "del", "extend", "cappend", "cinsert", "cdel", "bad"])
        e = self.entry()
        n = len(L)

        def put(i, e):                      # a path occurs once in the list; adding it again moves it
            if e in L:
                k = L.index(e)
                if k == i or (i == n and k == n - 1):
                    return
                del L[k]
                if i > k:
                    i -= 1
            L.insert(i, e)
        if op == "append":
            SP.append(e)
            put(n, e)
        elif op == "cappend":
            fn("dlite_storage_paths_append", c.c_int, c.c_char_p)(e.encode())
            put(n, e)
        elif op in ("insert", "cinsert"):
            i = rng.randint(-n, n)
            if op == "insert":
                SP.insert(i, e)
            else:
                fn("dlite_storage_paths_insert", c.c_int, c.c_int, c.c_char_p)(i, e.encode())
            put(i + n if i < 0 else i, e)
        elif op == "set" and n:
            i = rng.randint(-n, n - 1)
            if e in L:
                return
            SP[i] = e
            L[i] = e
        elif op in ("del", "cdel") and n:
            i = rng.randint(-n, n - 1)
            if op == "del":
                del SP[i]
            else:
                fn("dlite_storage_paths_remove_index", c.c_int, c.c_int)(i)
            del L[i]
        elif op == "extend":
            es = [self.entry() for _ in range(rng.randint(1, 3))]
            SP.extend("|".join(es), "|")
            for e in es:
                n = len(L)
                put(n, e)
        elif op == "bad":
            for f in (lambda: SP.__delitem__(n), lambda: SP.insert(n + 1, e), lambda: SP.__delitem__(-n - 1), lambda: SP.__setitem__(n, e)):
                try:
                    f()
                    ok = True
                except Exception:
                    ok = False
                errclr()
                ctx.check(not ok, "list-operation-out-of-range", lambda: self.show())
        errclr()
        self.log.append((op, e.replace(self.root, "")))
        self.verify_list()

    def verify_list(self):
        ctx = self.ctx
        ctx.eq(SP.aslist(), self.list, "search-list", lambda: self.show())
        p = fn("dlite_storage_paths_get", c.POINTER(c.c_char_p))()
        got = []
        while p and p[len(got)] is not None:
            got.append(p[len(got)].decode())
        ctx.eq(got, self.list, "search-list-c")
        ctx.eq(len(SP), len(self.list), "search-list-length")

    # ---- open storages ---------------------------------------------------------------------
    def open_storage(self):
        rng, ctx = self.rng, self.ctx
        if not self.files:
            return
        f = rng.choice(list(self.files.values()))
        busy = [o for o in self.open if o[1] is f]
        mode = rng.choice(["r", "r", "a"])
        if busy and (mode == "a" or busy[0][3] == "a"):
            return
        opt = "mode=append" if mode == "a" and f.drv == "hdf5" else "mode=" + mode
        s = dlite.Storage(f.drv, f.path, opt)
        self.open.append([s, f, dict(f.ids), mode])
        self.log.append(("open", f.path.replace(self.root, ""), opt))

    def save(self):
        rng, ctx = self.rng, self.ctx
        cand = [o for o in self.open if o[3] == "a"]
        if not cand:
            return
        o = rng.choice(cand)
        id, u = rng.choice(self.known)
        if u in self.mem:
            return
        inst, v = make(id)
        o[0].save(inst)
        o[2][u] = v
        del inst
        gc.collect()
        self.log.append(("save", id[:12], o[1].path.replace(self.root, "")))

    def close_storage(self):
        if not self.open:
            return
        s, f, view, mode = self.open.pop(self.rng.randrange(len(self.open)))
        if mode == "a":
            f.ids = view
        self.log.append(("close", f.path.replace(self.root, "")))
        del s
        gc.collect()

    # ---- lookups ---------------------------------------------------------------------------
    def places(self, u, id):
        """-> (where, set of acceptable versions)."""
        if u in self.mem:
            return "memory", {self.mem[u][1]}
        usable = lambda f: f.drv != "bson" or id == u           # bson documents only know UUIDs
        v = {o[2][u] for o in self.open if u in o[2] and usable(o[1])}
        if v:
            return "open", v
        for e in self.list:
            v = {f.ids[u] for f in self.expand(e) if u in f.ids and usable(f) and not self.locked(f)}
            if v:
                return "path", v
        return None, set()

    def locked(self, f):
        return False

    def lookup(self):
        ctx, rng = self.ctx, self.rng
        id, u = rng.choice(self.known) if rng.random() < .85 else ("ftp://nowhere.org/" + gen.ident(rng, 8),) * 2
        if u == id and "://" in u:
            u = uuid5(id)
        if rng.random() < .4 or any(o[1].drv == "bson" for o in self.open):
            id = u
        kind = rng.choice(["get", "get", "get", "has", "nostorages", "hasnot", "c"])
        where, vers = self.places(u, id)
        if id != u and any(f.drv == "bson" and u in f.ids for f in self.files.values()):
            return
        inst = None
        if kind in ("get", "nostorages"):
            if kind == "nostorages" and where != "memory":
                where, vers = None, set()
            try:
                inst = dlite.get_instance(id) if kind == "get" else dlite.get_instance(id, check_storages=False)
            except Exception as ex:
                why = str(ex)
                errclr()
                ctx.check(where is None, "instance-not-found:%s" % where, lambda: self.show(id, vers, why[-400:]))
            else:
                ctx.check(inst is not None, "none-returned")
        elif kind == "c":
            p = C.dlite_instance_get(id.encode())
            ctx.eq(errval() if p else 0, 0, "error-set-although-found", lambda: self.show(id, C.dlite_errmsg()))
            errclr()
            ctx.check(bool(p) == (where is not None), "c-lookup:%s" % where, lambda: self.show(id, vers))
            if p:
                inst = dlite.get_instance(id, check_storages=False)
                C.dlite_instance_decref(p)
        else:
            got = dlite.has_instance(id, check_storages=kind == "has")
            errclr()
            want = (where if kind == "has" else where == "memory" or None) is not None
            ctx.eq(got, want, "has-instance:%s:%s" % (kind, where), lambda: self.show(id))
        self.log.append((kind, id[:12], where))
        ctx.sig(kind, where, len(self.list), len(self.open), len(vers), id == u)
        ctx.note("%s %s" % (kind, where))
        if inst is not None:
            if ctx.check(where is not None, "found-although-nowhere", lambda: self.show(id, inst.v)):
                ctx.eq(inst.uuid, u, "uuid-of-found")
                v = inst.v
                if ctx.check(v in vers, "found-elsewhere:%s" % where, lambda: self.show(id, v, vers)):
                    ctx.check(list(inst.a) == [v + k for k in range(v % 4)] and inst.s == "version %d" % v, "content-of-found",
                              lambda: self.show(id, v, list(inst.a), inst.s))
                ctx.eq(inst._refcount, 2 if where == "memory" else 1, "refcount-of-found:%s:%s" % (kind, where), lambda: self.show(id))
                if u not in self.mem and rng.random() < .3:
                    self.mem[u] = (inst, v)
        inst = None
        gc.collect()
        ctx.eq(dlite.has_instance(u, check_storages=False), u in self.mem, "left-in-memory:" + kind, lambda: self.show(id))

    def drop(self):
        if self.mem:
            u = self.rng.choice(list(self.mem))
            del self.mem[u]
            gc.collect()
            self.ctx.check(not dlite.has_instance(u, check_storages=False), "dropped-still-in-memory")

    def remove_file(self):
        if len(self.files) > 1:
            f = self.rng.choice(list(self.files.values()))
            if not any(o[1] is f for o in self.open):
                os.unlink(f.path)
                del self.files[f.path]
                self.log.append(("unlink", f.path.replace(self.root, "")))

    def run(self, n):
        rng = self.rng
        while len(SP):
            del SP[0]
        for _ in range(rng.choice([0, 1, 2, 4])):
            self.edit_list()
        for _ in range(n):
            r = rng.random()
            if r < .5:
                self.lookup()
            elif r < .65:
                self.edit_list()
            elif r < .75:
                self.open_storage()
            elif r < .82:
                self.close_storage()
            elif r < .9:
                self.save()
            elif r < .97:
                self.drop()
            else:
                self.remove_file()
        while self.open:
            self.close_storage()
        for id, u in self.known:
            for _ in range(1):
                self.lookup()
        self.mem.clear()
        gc.collect()
        while len(SP):
            del SP[0]
        shutil.rmtree(self.root)


def g_history(ctx, i, rng):
    World(ctx, rng).run(rng.choice([10, 20, 40]))


# ---------------------------------------------------------------- metadata on the search path
def metafile(rng, d, uri, drv):
    obj = {"uri": uri, "description": "found", "dimensions": {"n": "n"},
           "properties": {"x": {"type": "int64", "shape": ["n"], "description": "x"}, "t": {"type": "string", "description": "t"}}}
    if rng.random() < .5:
        obj["meta"] = "http://onto-ns.com/meta/0.3/EntitySchema"
    p = "%s/%s.%s" % (d, gen.ident(rng, 6), drv)
    with open(p, "w") as f:
        f.write(json.dumps(obj, indent=1))              # also valid YAML
    return p


def g_metadata(ctx, i, rng):
    """Metadata found on the search path, also on behalf of an instance that is loaded."""
    d = tempfile.mkdtemp(dir=ctx.work)
    os.mkdir(d + "/m")
    uri = "http://meta.org/0.1/P15_%s" % gen.ident(rng, 8)
    uri = uri.replace("http:", "ftp:")
    drv = rng.choice(["json", "json", "yaml"])
    mp = metafile(rng, d + "/m", uri, drv)
    ids = [new_uuid(rng) for _ in range(3)]
    data = {u: {"meta": uri, "dimensions": {"n": k}, "properties": {"x": list(range(k)), "t": "t%d" % k}} for k, u in enumerate(ids)}
    ddrv = rng.choice(["json", "yaml"])
    dp = "%s/data.%s" % (d, ddrv)
    with open(dp, "w") as f:
        f.write(json.dumps(data, indent=1))
    while len(SP):
        del SP[0]
    how = rng.choice(["path", "open"])
    if how == "path":
        SP.append(dp)
    else:
        s = dlite.Storage(ddrv, dp, "mode=r")
    u = rng.choice(ids)
    for _ in range(2):                       # the metadata cannot be found yet
        try:
            got = dlite.get_instance(u)
        except Exception:
            got = None
            errclr()
        ctx.check(got is None, "loaded-without-metadata", lambda: (how, got))
        ctx.check(not dlite.has_instance(u), "has-without-metadata", how)
        errclr()
    ctx.check(not dlite.has_instance(uri, check_storages=False), "metadata-appeared")
    e = rng.choice([mp, d + "/m", d + "/m/*", d + "/m/*." + drv, "%s://%s" % (drv, mp), "%s://%s?mode=r" % (drv, mp)])
    order = rng.choice(["before", "after"])
    SP.insert(0 if order == "before" else len(SP), e)
    for k in rng.sample(range(3), 3):
        try:
            inst = dlite.get_instance(ids[k])
        except Exception as ex:
            errclr()
            ctx.fail("not-loaded-with-metadata-on-path", (how, e, drv, ddrv, str(ex)[-500:]))
            break
        ctx.check(inst.meta.uri == uri and inst.n == k and list(inst.x) == list(range(k)) and inst.t == "t%d" % k, "loaded-with-metadata-on-path",
                  lambda: (how, e, str(inst)))
        del inst
        gc.collect()
        ctx.check(not dlite.has_instance(ids[k], check_storages=False), "left-in-memory-with-metadata")
    m = dlite.get_instance(uri)
    ctx.check(m.is_meta and m.description == "found", "metadata-content")
    ctx.sig("meta", how, order, drv, ddrv, e.replace(d, "").replace(os.path.basename(mp), ""))
    while len(SP):
        del SP[0]
    shutil.rmtree(d)


# ---------------------------------------------------------------- the registry of open storages
def g_registry(ctx, i, rng):
    """Many storages opened and closed in any order; also through the C API."""
    d = tempfile.mkdtemp(dir=ctx.work)
    n = rng.choice([1, 3, 10, 33, 40, 70])
    ids, paths = [], []
    for k in range(n):
        id = new_uuid(rng)
        inst, v = make(id)
        p = "%s/f%d.json" % (d, k)
        inst.save("json", p, "mode=w")
        ids.append((id, v))
        paths.append(p)
        del inst
    gc.collect()
    while len(SP):
        del SP[0]
    op = fn("dlite_storage_open", c.c_void_p, c.c_char_p, c.c_char_p, c.c_char_p)
    cl = fn("dlite_storage_close", c.c_int, c.c_void_p)
    add, rem = fn("dlite_storage_hotlist_add", c.c_int, c.c_void_p), fn("dlite_storage_hotlist_remove", c.c_int, c.c_void_p)
    opened, hot = {}, set()

    def listed():
        it = (c.c_size_t * 8)()
        fn("dlite_storage_hotlist_iter_init", c.c_int, c.c_void_p)(c.addressof(it))
        nx = fn("dlite_storage_hotlist_iter_next", c.c_void_p, c.c_void_p)
        got = []
        while len(got) < 1000:
            p = nx(c.addressof(it))
            if not p:
                break
            got.append(p)
        fn("dlite_storage_hotlist_iter_deinit", c.c_int, c.c_void_p)(c.addressof(it))
        return got
    for step in range(rng.choice([10, 60, 200])):
        k = rng.randrange(n)
        r = rng.random()
        if k not in opened and (r < .6 or step < n):
            opened[k] = op(b"json", paths[k].encode(), b"mode=r")
            ctx.check(opened[k], "open", paths[k])
            hot.add(k)
        elif k in opened and r < .35:
            cl(opened.pop(k))
            hot.discard(k)
        elif k in opened and r < .5:
            ctx.eq(rem(opened[k]), 0 if k in hot else 1, "unregister")
            hot.discard(k)
        elif k in opened and r < .65 and k not in hot:
            ctx.eq(add(opened[k]), 0, "register")
            hot.add(k)
        elif r > .995:
            fn("dlite_storage_hotlist_clear", c.c_int)()
            hot.clear()
        if step % 7 == 0 or n < 4:
            ctx.eq(sorted(listed()), sorted(opened[k] for k in hot), "registered-storages", lambda: (n, len(opened), len(hot)))
        id, v = ids[k]
        p = C.dlite_instance_get(id.encode())
        errclr()
        ctx.check(bool(p) == (k in hot), "found-in-registered-storage", lambda: (k, k in opened, k in hot, len(hot)))
        if p:
            C.dlite_instance_decref(p)
        ctx.check(not dlite.has_instance(id, check_storages=False), "left-in-memory")
    for k in rng.sample(sorted(opened), len(opened)):
        cl(opened.pop(k))
        hot.discard(k)
        ctx.eq(len(listed()), len(hot), "registered-after-closing")
    errclr()
    ctx.sig("registry", n)
    shutil.rmtree(d)


# ---------------------------------------------------------------- environment variable
CHILD = """
import sys
sys.modules['minio']=None
import dlite, json
out = [dlite.storage_path.aslist()]
for u in sys.argv[1:]:
    try: out.append(dlite.get_instance(u).v)
    except Exception: out.append(None)
print("RESULT" + json.dumps(out))
"""


def g_environment(ctx, i, rng):
    """DLITE_STORAGES initialises the search list."""
    w = World(ctx, rng)
    es = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        e = w.entry()
        if e not in es:
            es.append(e)
    if rng.random() < .4:
        d = w.root + "/m"
        os.mkdir(d)
    # make the metadata available as well
    mp = w.root + "/P15Data.json"
    M.save("json", mp, "mode=w")
    es.insert(rng.randrange(len(es) + 1), mp)
    env = dict(os.environ, DLITE_STORAGES="|".join(es))
    us = [u for id, u in w.known] + [new_uuid(rng)]
    r = subprocess.run([sys.executable, "-c", CHILD] + us, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT")]
    if not ctx.check(r.returncode == 0 and line, "child-failed", lambda: (es, r.stderr[-1500:])):
        return
    out = json.loads(line[0][6:])
    ctx.eq(out[0][:len(es)], es, "search-list-from-environment")
    w.list = es
    for u, v in zip(us, out[1:]):
        where, vers = w.places(u, u)
        ctx.check(v in vers if where else v is None, "lookup-from-environment", lambda: (es, u, v, where, vers))
        ctx.sig("env", where, len(es))
    shutil.rmtree(w.root)


GROUPS = [("history", g_history, 260, 6000), ("metadata", g_metadata, 60, 1200), ("registry", g_registry, 40, 600),
          ("environment", g_environment, 12, 100)]
