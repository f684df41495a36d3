"""P28: mappings find the cheapest route and compute it faithfully."""
import ctypes as c, os, shutil, textwrap
from dl import *
from dl import _BDIR
import gen

RULE = "distinct (mapping graph shape, number of routes, cost relation, route kind, outcome) observations"
COMPILE = [("py", "shim.c", "shim.so", True), ("py", "p28plugin.c", "p28plugin.so", True)]


class Row(c.Structure):
    _fields_ = [("name", c.c_char_p), ("out", c.c_char_p), ("nin", c.c_int), ("inp", c.POINTER(c.c_char_p)), ("cost", c.c_int),
                ("mode", c.c_int), ("aux", c.c_char_p)]


class Table(c.Structure):
    _fields_ = [("n", c.c_int), ("calls", c.c_int), ("live", c.c_int), ("rows", c.POINTER(Row))]


class Plug:
    def __init__(self, name, out, inp, cost):
        self.name, self.out, self.inp, self.cost = name, out, inp, cost
        self.mode, self.aux, self.auxtrace = 0, None, None

    def __repr__(self):
        return "%s: %s -> %s cost %d mode %d" % (self.name, [u[-12:] for u in self.inp], self.out[-12:], self.cost, self.mode)


seq = 0


def setup():
    quiet()
    global dlite
    import dlite
    S.map_cost.restype = c.c_int
    S.map_ninput.restype = c.c_int
    C.dlite_mapping_create.restype = c.c_void_p
    C.dlite_mapping_create.argtypes = [c.c_char_p, c.POINTER(c.c_char_p), c.c_int]
    for n in ("dlite_mapping_map", "dlite_mapping"):
        f = getattr(C, n)
        f.restype = c.c_void_p
        f.argtypes = [c.c_void_p if n.endswith("map") else c.c_char_p, c.c_void_p, c.c_int]
    C.dlite_mapping_free.argtypes = [c.c_void_p]
    C.dlite_mapping_free.restype = None
    C.dlite_mapping_string.argtypes = [c.c_void_p]
    C.dlite_mapping_string.restype = c.c_void_p


# ---------------------------------------------------------------- graphs and oracle
def rand_graph(rng, maxplug=18):
    """Random metadata URIs and mapping plugins between them."""
    global seq
    seq += 1
    tag = "%x%04x%d" % (os.getpid(), rng.randrange(65536), seq)
    n = rng.randint(2, 9)
    uris = ["http://onto-ns.com/meta/%s/%d.%d/M%d%s" % (gen.ident(rng), rng.randint(0, 3), rng.randint(0, 9), k, tag) for k in range(n)]
    for u in uris:
        dlite.Instance.create_metadata(u, [], [dlite.Property("trace", "string"), dlite.Property("n", "int64")], "mapping node")
    kind = rng.randrange(4)
    npl = rng.randint(0, 3 * n) if kind < 3 else rng.choice([15, 16, 17, 18])
    npl = min(npl, maxplug)
    cmax = rng.choice([0, 1, 5, 30, 10 ** 6])
    plugs = []
    for k in range(npl):
        o = rng.randrange(n)
        if kind == 0 and o:                # layered: only forward edges
            src = [u for u in uris[:o]]
        else:
            src = [u for u in uris if rng.random() < .9 or True]
        nin = min(len(src), rng.choice([1, 1, 1, 2, 2, 3]))
        plugs.append(Plug("p%d_%s_%s" % (k, gen.ident(rng)[:8], tag), uris[o], rng.sample(src, nin), rng.randint(0, cmax)))
    return tag, uris, plugs


def best(plugs, inputs):
    """Minimal total cost of each URI that can be reached from `inputs` (a set of URIs)."""
    cost = {u: 0 for u in inputs}
    for _ in range(len(plugs) + 2):
        for p in plugs:
            if all(u in cost for u in p.inp):
                t = p.cost + sum(cost[u] for u in p.inp)
                if t < cost.get(p.out, 1 << 60):
                    cost[p.out] = t
    return cost


def chk_tree(ctx, m, byname, inputs, seen, d=0):
    """Validates a mapping tree; returns its (total cost, trace, failing?, lines of its drawing)."""
    name, out = S.map_name(m).decode(), S.map_output(m).decode()
    p = byname.get(name)
    if not ctx.check(p is not None and d < 40, "tree-unknown-plugin", name):
        return None
    ctx.eq(out, p.out, "tree-output")
    ctx.check(out not in inputs, "tree-recreates-input", out)
    if not ctx.eq(S.map_ninput(m), len(p.inp), "tree-ninput"):
        return None
    seen[name] = seen.get(name, 0) + 1
    total, tr, bad, lines = p.cost, [], p.mode in (1, 2), [out]
    for k, u in enumerate(p.inp):
        sub, iu = S.map_input_map(m, k), S.map_input_uri(m, k)
        ctx.check(bool(sub) != bool(iu), "tree-input-kind")
        if iu:
            ctx.eq(iu.decode(), u, "tree-input-uri")
            ctx.check(u in inputs, "tree-leaf-is-not-an-input", u)
            tr.append(inputs.get(u, "?"))
            lines += ["+-- " + u]
        elif sub:
            ctx.eq(S.map_output(sub).decode(), u, "tree-submap-output")
            r = chk_tree(ctx, sub, byname, inputs, seen, d + 1)
            if r is None:
                return None
            total += r[0]
            tr.append(r[1])
            bad = bad or r[2]
            lines += ["+-- " + r[3][0]] + ["|   " + x for x in r[3][1:]]
    ctx.eq(S.map_cost(m), total, "tree-node-cost")
    trace = p.auxtrace if p.mode == 3 else "%s(%s)" % (name, ",".join(tr))
    return total, trace, bad, lines


def valid_trace(trace, out, byname, inputs):
    """Parses a trace as a derivation of `out`; returns its total cost or None."""
    inv = {t: u for u, t in inputs.items()}

    def expr(s):
        for t, u in inv.items():
            if s.startswith(t) and s[len(t):len(t) + 1] in ("", ",", ")"):
                return u, 0, s[len(t):]
        name, _, s = s.partition("(")
        p = byname[name]
        cost = p.cost
        for k, u in enumerate(p.inp):
            if k:
                assert s[0] == ","
                s = s[1:]
            got, cst, s = expr(s)
            assert got == u
            cost += cst
        assert s[0] == ")"
        return p.out, cost, s[1:]
    try:
        u, cost, rest = expr(trace)
        return cost if u == out and rest == "" else None
    except (KeyError, AssertionError, IndexError):
        return None


def mkinst(rng, uri, k):
    inst = dlite.Instance.from_metaid(uri, [], id=new_uuid(rng))
    inst.trace = "in%d" % k
    inst.n = rng.randint(-2**63, 2**63 - 1)
    return inst


def snapshot(insts):
    return [(x.trace, x.n, x.uuid, x.meta.uri, S.s_refcount(gen.ptr(x))) for x in insts]


# ---------------------------------------------------------------- C plugins
class Libs:
    """Copies of the plugin library offering the given lists of plugins, in a new directory on the search path."""

    def __init__(self, ctx, lists):
        global seq
        seq += 1
        self.dir = os.path.join(ctx.work, "m%d_%d" % (os.getpid(), seq))
        os.makedirs(self.dir)
        self.tables, self.keep = [], []
        for k, plugs in enumerate(lists):
            rows = (Row * max(1, len(plugs)))()
            for r, p in zip(rows, plugs):
                inp = (c.c_char_p * len(p.inp))(*[u.encode() for u in p.inp])
                self.keep.append(inp)
                r.name, r.out, r.nin, r.inp, r.cost, r.mode = p.name.encode(), p.out.encode(), len(p.inp), inp, p.cost, p.mode
                r.aux = p.aux.encode() if p.aux else None
            t = Table(len(plugs), 0, 0, rows)
            self.keep.append(rows)
            self.tables.append(t)
            shutil.copy(os.path.join(_BDIR, "p28plugin.so"), os.path.join(self.dir, "lib%d.so" % k))
        self.arr = (c.POINTER(Table) * len(lists))(*[c.pointer(t) for t in self.tables])
        os.environ["P28_TABLE"] = "%x" % c.addressof(self.arr)
        C.dlite_mapping_plugin_path_insert(0, self.dir.encode())

    calls = property(lambda self: sum(t.calls for t in self.tables))
    live = property(lambda self: sum(t.live for t in self.tables))

    def close(self):
        C.dlite_mapping_plugin_unload(None)
        C.dlite_mapping_plugin_path_remove_index(0)
        os.environ.pop("P28_TABLE", None)
        shutil.rmtree(self.dir)


def plugin_names():
    it = buf(512)
    C.dlite_mapping_plugin_init_iter.argtypes = C.dlite_mapping_plugin_next.argtypes = [c.c_void_p]
    C.dlite_mapping_plugin_next.restype = c.c_void_p
    C.dlite_mapping_plugin_init_iter(it)
    out = []
    while True:
        p = C.dlite_mapping_plugin_next(it)
        if not p:
            return out
        out.append(c.cast(p, c.POINTER(c.c_char_p))[0].decode())


def run_c(ctx, rng, out, insts, plugs, kind):
    byname = {p.name: p for p in plugs}
    inputs = {x.meta.uri: x.trace for x in insts}
    cost = best(plugs, set(inputs))
    uris = [x.meta.uri.encode() for x in insts]
    arr = (c.c_char_p * max(1, len(uris)))(*uris)
    bout = out.encode()
    errclr()
    m = C.dlite_mapping_create(bout, arr, len(uris))
    ctx.eq(bool(m), out in cost, "route-exists", lambda: "%s from %s: %r" % (out, list(inputs), plugs))
    if not m:
        arr2 = (c.c_void_p * max(1, len(insts)))(*[gen.ptr(x) for x in insts])
        before, ids = snapshot(insts), set(dlite.istore_get_uuids())
        r = C.dlite_mapping(bout, arr2, len(insts))
        ctx.check(not r, "result-without-route")
        ctx.eq(snapshot(insts), before, "inputs-changed")
        ctx.eq(set(dlite.istore_get_uuids()) ^ ids, set(), "instances-leaked")
        ctx.sig(kind, "none", len(plugs), len(insts))
        return
    parr = (c.c_void_p * max(1, len(insts)))(*[gen.ptr(x) for x in insts])
    before, ids = snapshot(insts), set(dlite.istore_get_uuids())
    bad, trace = False, None
    if out in inputs:
        ctx.check(S.map_name(m) is None, "trivial-name")
        ctx.eq(S.map_output(m).decode(), out, "trivial-output")
        ctx.eq(S.map_cost(m), 0, "trivial-cost")
        lines = [out]
        trace = inputs[out]
        seen = {}
    else:
        seen = {}
        r = chk_tree(ctx, m, byname, inputs, seen)
        if r is None:
            return
        total, trace, bad, lines = r
        ctx.eq(total, cost[out], "cheapest-cost", lambda: repr(plugs))
    s = take_str(C.dlite_mapping_string(m))
    ctx.eq((s or b"").decode(), "".join(l + "\n" for l in lines), "mapping-string")
    for route in ("map", "mapping"):
        order = list(range(len(insts)))
        rng.shuffle(order)
        arr2 = (c.c_void_p * max(1, len(insts)))(*[gen.ptr(insts[k]) for k in order])
        errclr()
        r = C.dlite_mapping_map(m, arr2, len(insts)) if route == "map" else C.dlite_mapping(bout, arr2, len(insts))
        ctx.eq(bool(r), not bad, "map-outcome:" + route, trace)
        if bad:
            ctx.check(errval() != 0, "failing-mapper-error")
        if r:
            ctx.eq(dlite.get_instance(S.s_uuid(r).decode()).meta.uri, out, "result-metadata")
            p = C.dlite_instance_get_property(r, b"trace")
            ctx.eq(c.cast(p, c.POINTER(c.c_char_p))[0].decode(), trace, "result-value:" + route)
            known = S.s_uuid(r).decode() in ids
            ctx.eq(S.s_refcount(r), 1 + (0 if not known else next((b[4] for b in before if b[2] == S.s_uuid(r).decode()), 1)),
                   "result-refcount")
            ctx.eq(known, out in inputs or any(byname[n].mode == 3 and byname[n].out == out for n in seen), "result-is-new")
            C.dlite_instance_decref(r)
        ctx.eq(snapshot(insts), before, "inputs-changed")
        ctx.eq(set(dlite.istore_get_uuids()) ^ ids, set(), "instances-leaked-or-freed")
    C.dlite_mapping_free(m)
    ctx.sig(kind, "bad" if bad else "ok", len(plugs), len(insts), sum(seen.values()), len(seen), len(lines))


def c_route(ctx, i, rng):
    tag, uris, plugs = rand_graph(rng)
    n = rng.randint(0 if rng.random() < .05 else 1, min(4, len(uris)))
    insts = [mkinst(rng, u, k) for k, u in enumerate(rng.sample(uris, n))]
    extra = []
    if rng.random() < .35:
        for p in plugs:
            if rng.random() < .25:
                p.mode = rng.choice([1, 2, 3])
                if p.mode == 2:
                    p.aux = rng.choice([u for u in uris if u != p.out])
                elif p.mode == 3:
                    e = mkinst(rng, p.out, 0)
                    p.auxtrace = e.trace = "old%d" % len(extra)
                    p.aux = e.uuid
                    extra.append(e)
    nlib = rng.choice([1, 1, 2, 3])
    lists = [[] for _ in range(nlib)]
    for p in plugs:
        lists[rng.randrange(nlib)].append(p)
        if rng.random() < .15:              # the same plugin offered by another library
            k = rng.randrange(nlib)
            if p not in lists[k]:
                lists[k].append(p)
    for l in lists:
        rng.shuffle(l)
    libs = Libs(ctx, lists)
    try:
        names = plugin_names()
        ctx.eq(len(names), len(set(names)), "plugin-listed-twice")
        ctx.eq(sorted(n for n in names if n.endswith(tag)), sorted(p.name for p in plugs), "plugins-loaded")
        ctx.eq(libs.live, len(plugs), "plugins-live")
        for out in uris:
            run_c(ctx, rng, out, insts, plugs, "c")
        # duplicated inputs are ambiguous
        if insts:
            u = insts[0].meta.uri.encode()
            arr = (c.c_char_p * 2)(u, u)
            errclr()
            ctx.check(not C.dlite_mapping_create(uris[0].encode(), arr, 2) and errval(), "duplicate-inputs-accepted")
            e = mkinst(rng, insts[0].meta.uri, 9)
            ps = [x for x in insts] + [e]
            before = snapshot(ps)
            parr = (c.c_void_p * len(ps))(*[gen.ptr(x) for x in ps])
            errclr()
            ctx.check(not C.dlite_mapping(uris[0].encode(), parr, len(ps)) and errval(), "duplicate-instances-accepted")
            ctx.eq(snapshot(ps), before, "duplicate-inputs-refcount")
        # without some of the plugins
        gone = [p for p in plugs if rng.random() < .3]
        for p in gone:
            ctx.eq(C.dlite_mapping_plugin_unload(p.name.encode()), 0, "unload")
        if gone:
            left = [p for p in plugs if p not in gone]
            ctx.eq(sorted(n for n in plugin_names() if n.endswith(tag)), sorted(p.name for p in left), "plugins-after-unload")
            for out in rng.sample(uris, min(3, len(uris))):
                run_c(ctx, rng, out, insts, left, "c-unloaded")
        errclr()
    finally:
        libs.close()
    ctx.eq(libs.live, 0, "plugins-not-freed")
    ctx.eq([x for x in plugin_names() if x.endswith(tag)], [], "plugins-after-unload-all")
    if i < 2:
        ctx.sample("%d metadata, %d mappings in %d libraries" % (len(uris), len(plugs), nlib))


# ---------------------------------------------------------------- Python plugins
def write_plugins(ctx, rng, plugs):
    global seq
    seq += 1
    d = os.path.join(ctx.work, "py%d_%d" % (os.getpid(), seq))
    os.makedirs(d)
    nfile = rng.randint(1, 3)
    files = [["import dlite"] for _ in range(nfile)]
    for p in plugs:
        cost = "    cost = %d\n" % p.cost if p.cost != 25 or rng.random() < .5 else ""
        body = {0: "r = dlite.Instance.from_metaid(self.output_uri, [])\n"
                   "r.trace = '%s(' + ','.join(i.trace for i in instances) + ')'\n"
                   "assert [i.meta.uri for i in instances] == list(self.input_uris)\nreturn r" % p.name,
                1: "raise ValueError('mapper fails')",
                2: "return dlite.Instance.from_metaid('%s', [])" % p.aux,
                3: "return dlite.get_instance('%s')" % p.aux,
                4: "return None"}[p.mode]
        files[rng.randrange(nfile)].append(
            "class %s(dlite.DLiteMappingBase):\n    name = %r\n    output_uri = %r\n    input_uris = %r\n%s    def map(self, instances):\n%s\n"
            % (p.name, p.name, p.out, rng.choice([list, tuple])(p.inp), cost, textwrap.indent(body, " " * 8)))
    for k, f in enumerate(files):
        with open(os.path.join(d, "plug%d_%d.py" % (seq, k)), "w") as fp:
            fp.write("\n".join(f))
    return d


def py_route(ctx, i, rng):
    tag, uris, plugs = rand_graph(rng, 10)
    for p in plugs:
        if rng.random() < .2:
            p.cost = 25
    insts = [mkinst(rng, u, k) for k, u in enumerate(rng.sample(uris, rng.randint(1, min(3, len(uris)))))]
    extra = []
    if rng.random() < .4:
        for p in plugs:
            if rng.random() < .25:
                p.mode = rng.choice([1, 2, 3, 4])
                if p.mode == 2:
                    p.aux = rng.choice([u for u in uris if u != p.out])
                elif p.mode == 3:
                    e = mkinst(rng, p.out, 0)
                    p.auxtrace = e.trace = "old%d" % len(extra)
                    p.aux = e.uuid
                    extra.append(e)
    d = write_plugins(ctx, rng, plugs)
    modes = any(p.mode for p in plugs)
    dlite.python_mapping_plugin_path.insert(0, d)
    try:
        names = plugin_names()
        ctx.eq(len(names), len(set(names)), "py-plugin-listed-twice")
        ctx.eq(sorted(n for n in names if n.endswith(tag)), sorted(p.name for p in plugs), "py-plugins-loaded")
        byname = {p.name: p for p in plugs}
        inputs = {x.meta.uri: x.trace for x in insts}
        cost = best(plugs, set(inputs))
        for out in uris:
            before, ids = snapshot(insts), set(dlite.istore_get_uuids())
            try:
                r, e = dlite.mapping(out, rng.sample(insts, len(insts))), None
            except dlite.DLiteError as ex:
                r, e = None, ex
            if out not in cost:
                ctx.check(r is None and e is not None, "py-result-without-route", out)
            elif not modes:
                if ctx.check(r is not None, "py-no-result", "%r %r" % (e, plugs)):
                    ctx.eq(r.meta.uri, out, "py-result-metadata")
                    ctx.eq(valid_trace(r.trace, out, byname, inputs), cost[out], "py-cheapest", lambda: "%s %r" % (r.trace, plugs))
            elif r is not None:
                ctx.eq(r.meta.uri, out, "py-result-metadata")
            ctx.check((r is None) == (e is not None), "py-error-reported")
            if r is not None:
                ctx.eq(S.s_refcount(gen.ptr(r)), 1 + next((b[4] for b in before if b[2] == r.uuid), sum(x.uuid == r.uuid for x in extra)),
                       "py-result-refcount")
            ctx.sig("py", r is None, out in inputs, len(plugs), len(insts), modes, r is not None and r.trace.count("("))
            del r
            ctx.eq(snapshot(insts), before, "py-inputs-changed")
            ctx.eq(set(dlite.istore_get_uuids()) - ids if not modes else set(), set(), "py-instances-leaked")
        # one input: the places where instances are converted on access
        x = rng.choice(insts)
        one = {x.meta.uri: x.trace}
        cost = best(plugs, set(one))
        coll = dlite.Collection(id=new_uuid(rng))
        coll.add("lab", x)
        path = os.path.join(d, "x.json")
        other = mkinst(rng, x.meta.uri, 0)          # only stored, not in memory
        other.save("json", path, "mode=w")
        ouuid, oone = other.uuid, {x.meta.uri: other.trace}
        del other
        for out in rng.sample(uris, min(4, len(uris))):
            for where in ("get", "get_nocheck", "coll", "load-existing", "load-new", "url"):
                before, ids = snapshot([x]), set(dlite.istore_get_uuids())
                try:
                    if where == "get":
                        r = dlite.get_instance(x.uuid, metaid=out)
                    elif where == "get_nocheck":
                        r = dlite.get_instance(x.uuid, out, False)
                    elif where == "coll":
                        r = coll.get("lab", out)
                    elif where == "load-existing":
                        s = dlite.Storage("json", path, "mode=r")
                        r = dlite.Instance.from_storage(s, id=x.uuid, metaid=out)
                    elif where == "load-new":
                        s = dlite.Storage("json", path, "mode=r")
                        r = dlite.Instance.from_storage(s, id=ouuid, metaid=out)
                    else:
                        r = dlite.Instance.from_url("json://%s?mode=r#%s" % (path, ouuid), metaid=out)
                    e = None
                except dlite.DLiteError as ex:
                    r, e = None, ex
                s = None
                if out not in cost:
                    ctx.check(r is None, "result-without-route:" + where)
                elif not modes:
                    if ctx.check(r is not None, "no-result:" + where, repr(e)):
                        ctx.eq(r.meta.uri, out, "result-metadata:" + where)
                        ctx.eq(valid_trace(r.trace, out, byname, one if where[:2] in ("ge", "co") or where == "load-existing" else oone), cost[out], "cheapest:" + where, lambda: r.trace)
                elif r is not None:
                    ctx.eq(r.meta.uri, out, "result-metadata:" + where)
                ctx.check((r is None) == (e is not None), "error-reported:" + where)
                ctx.sig(where, r is None, out == x.meta.uri, modes)
                del r
                ctx.eq(snapshot([x]), before, "inputs-changed:" + where)
                ctx.eq(set(dlite.istore_get_uuids()) - ids if not modes else set(), set(), "instances-leaked:" + where)
        del coll
    finally:
        dlite.mapping_plugin_unload(None)
        del dlite.python_mapping_plugin_path[0]
        dlite.errclr()
        shutil.rmtree(d)
    if i < 2:
        ctx.sample("%d Python mappings between %d metadata" % (len(plugs), len(uris)))


GROUPS = [("c_route", c_route, 1600, 20000), ("py_route", py_route, 400, 2400)]
