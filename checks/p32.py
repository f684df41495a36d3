"""P32: Python data-model helpers keep the described content."""
import csv, io, json, math, os, shutil, tempfile, warnings, zipfile
from urllib.parse import quote, unquote
from dl import *
import gen
from gen import Entity, Prop

RULE = "distinct (helper, form of the content, route, outcome) observations"


def setup():
    quiet()
    global dlite, np, O, T, U, DM, Q, PR, pint, pydantic
    import dlite, numpy as np, pint, pydantic
    import dlite.options as O, dlite.table as T, dlite.utils as U, dlite.datamodel as DM, dlite.quantity as Q, dlite.protocol as PR
    warnings.simplefilter("ignore")


def raised(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


def canon(p):
    return {BLOB: "blob%d" % p.size, BOOL: "bool", INT: "int%d" % (8 * p.size), UINT: "uint%d" % (8 * p.size),
            FLOAT: "float%d" % (8 * p.size), FIXSTR: "string%d" % (p.size - 1), STRPTR: "string", REF: "ref"}[p.dtype]


def chk_meta(ctx, m, e, key, dimdescr=None):
    """Metadata `m` holds exactly the description in entity `e`."""
    dd = e.dimdescr if dimdescr is None else dimdescr
    ctx.eq(m.uri, e.uri, key + ":uri")
    ctx.eq(m.description or "", e.descr or "", key + ":description")
    ctx.eq([(d.name, d.description or "") for d in m.properties["dimensions"]], [(d, dd.get(d) or "") for d in e.dims], key + ":dimensions")
    got = [(p.name, p.type, p.ref, [str(s) for s in p.shape] if p.ndims else [], p.unit or "", p.description or "") for p in m.properties["properties"]]
    want = [(p.name, canon(p), p.ref, list(p.shape), p.unit or "", p.descr or "") for p in e.props]
    ctx.eq(got, want, key + ":properties")
    ctx.check(dlite.get_instance(e.uri).uuid == m.uuid == dlite.get_uuid(e.uri), key + ":identity")


# ---------------------------------------------------------------- options
def rand_json(rng, d=0):
    k = rng.randrange(8 if d < 3 else 6)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.randint(-10**12, 10**12)
    if k == 2:
        return gen.randfloat(rng, 8, False)
    if k < 6:
        return gen.text(rng)
    if k == 6:
        return [rand_json(rng, d + 1) for _ in range(rng.randint(0, 4))]
    return {gen.text(rng): rand_json(rng, d + 1) for _ in range(rng.randint(0, 4))}


def g_options(ctx, i, rng):
    d = {}
    for _ in range(rng.randint(0, 6)):
        k = gen.text(rng) if rng.random() < .5 else gen.ident(rng)
        if not k or (k.startswith("__") and k.endswith("__")):
            continue
        v = rand_json(rng) if rng.random() < .5 else rng.choice(["", "%%", "%%1", "a;b&c=d", "%41", "a+b", "=", gen.text(rng), gen.text(rng)])
        d[k] = v
    sep = rng.choice(";&")
    q = O.make_query(d, sep=sep)
    ctx.eq(O.parse_query(q), d, "options-roundtrip", q)
    ctx.eq(O.make_query(O.parse_query(q), sep=sep), q, "query-roundtrip")
    # the documented form, built and decoded independently of DLite
    ok = "~._-"
    enc = lambda s: quote(s, safe=ok)
    ref = sep.join(enc(k) + "=" + (enc(v) if isinstance(v, str) else "%%" + enc(json.dumps(v))) for k, v in d.items())
    ctx.eq(q, ref, "query-form")
    for tok in (q.split(sep) if d else []):
        k, v = tok.split("=", 1)
        ctx.eq(d[unquote(k)], json.loads(unquote(v[2:])) if v.startswith("%%") else unquote(v), "query-decodes")
    low = "".join(rng.choice(";&") if ch in ";&" else ch for ch in q)
    ctx.eq(O.parse_query(low), d, "mixed-separators")
    defaults = {rng.choice(list(d) + ["zz", "mode"]): rand_json(rng) for _ in range(rng.randint(0, 3))}
    opts = O.Options(q if rng.random() < .5 else dict(d), O.make_query(defaults) if rng.random() < .5 else dict(defaults))
    want = {**defaults, **d}
    ctx.eq(dict(opts), want, "options-defaults")
    for k in want:
        if k not in dir(dict):
            ctx.eq(getattr(opts, k), want[k], "options-attr")
    ctx.check(isinstance(raised(getattr, opts, "no_such_option_"), KeyError), "options-missing")
    ctx.eq(O.parse_query(str(opts)), want, "options-str")
    opts.new_key = 7
    ctx.eq(O.parse_query(str(opts)), {**want, "new_key": 7}, "options-set")
    if i % 10 == 0:
        ctx.eq(O.parse_query(""), {}, "options-empty")
        ctx.eq(O.parse_query("a;b=1"), {"a": None, "b": "1"}, "options-novalue")
        ctx.eq(dict(O.Options(None)), {}, "options-none")
    ctx.sig("options", len(d), sep, tuple(sorted({type(v).__name__ for v in d.values()})))


# ---------------------------------------------------------------- DataModel
def g_builder(ctx, i, rng):
    e = gen.rand_entity(rng, "niufsSb", maxdims=3, maxprops=6, exprs=rng.random() < .4)
    fault = rng.choice(["none"] * 4 + ["missing", "unused", "both"])
    if fault in ("missing", "both"):
        e.props.append(Prop("miss_" + gen.ident(rng), "float64", FLOAT, 8, shape=rng.choice([["NoSuch"], ["NoSuch+1"], ["NoSuch", "Other"]])))
    used = set()
    import re
    for p in e.props:
        for s in p.shape:
            used |= set(re.findall(r"[A-Za-z_]\w*", s))
    if fault not in ("unused", "both"):
        e.dims = [d for d in e.dims if d in used]
    else:
        e.dims = [d for d in e.dims if d in used] + ["Unused_"]
    e.dimdescr = {d: gen.plain(rng) for d in e.dims}
    m = DM.DataModel(e.uri, description=e.descr, schema=rng.choice([None, dlite.ENTITY_SCHEMA]))
    steps = [("d", d) for d in e.dims] + [("p", p) for p in e.props]
    if rng.random() < .5:                             # any interleaving keeping the order within each kind
        ds, ps, steps = list(e.dims), list(e.props), []
        while ds or ps:
            steps.append(("d", ds.pop(0)) if ds and (not ps or rng.random() < .5) else ("p", ps.pop(0)))
    for kind, x in steps:
        if kind == "d":
            m.add_dimension(x, e.dimdescr[x])
            if rng.random() < .3:
                ctx.check(isinstance(raised(m.add_dimension, x, "again"), KeyError), "duplicate-dimension")
        else:
            kw = dict(unit=x.unit, description=x.descr)
            kw["dims" if rng.random() < .2 else "shape"] = x.shape or None
            m.add_property(x.name, x.tname, **kw)
            if rng.random() < .3:
                ctx.check(isinstance(raised(m.add_property, x.name, "int"), KeyError), "duplicate-property")
    ctx.eq(m.get_missing_dimensions(), used - set(e.dims), "missing-dimensions")
    ctx.eq(m.get_unused_dimensions(), set(e.dims) - used, "unused-dimensions")
    if fault == "none":
        m.validate()
        chk_meta(ctx, m.get(), e, "datamodel")
    else:
        want = DM.UnusedDimensionError if fault == "unused" else DM.MissingDimensionError
        ctx.check(isinstance(raised(m.get), want), "datamodel-validated", fault)
        ctx.check(not dlite.has_instance(dlite.get_uuid(e.uri), check_storages=False), "invalid-not-created")
    if i % 9 == 0:
        ctx.check(isinstance(raised(DM.DataModel, e.uri, schema=3.5), TypeError), "schema-type")
    ctx.sig("datamodel", fault, len(e.dims), len(e.props), tuple(sorted({len(p.shape) for p in e.props})))


# ---------------------------------------------------------------- tables
def clean(rng, sniff=False):
    if sniff:
        return gen.ident(rng)
    s = gen.text(rng, pools=[gen.ALNUM, gen.ALNUM + " _-.,;:", "ab\"\\/'", "æøåéß→日本語ab ", "%$&<>#?=+ab"]).strip()
    return s


def rand_table(ctx, rng, sniff=False):
    """(table, entities): header, rows and what they describe."""
    dmap, pmap = dict(T.DEFAULT_DATAMODEL_MAPPINGS), dict(T.DEFAULT_PROPERTY_MAPPINGS)
    if rng.random() < .3 and not sniff:
        pmap.update(name="Name (x)", type="Type (y)", unit="u+", shape="[]shape", description="d.*")
        dmap.update(uri="URI", description="Descr?")
    base = "http://onto-ns.com/meta/%s/0.%d/" % (gen.ident(rng, 8), rng.randint(0, 9)) if rng.random() < .5 else None
    nm = rng.randint(1, 4)
    np_ = rng.randint(1, 4)
    brackets = ["[%s]" % b for b in rng.sample(["1", "2", "3", "x", "length", "a b"][:4 if sniff else 6], np_)]
    if rng.random() < .3:
        brackets[0] = ""
    cols = ["uri", "description"] if rng.random() < .9 else ["uri"]
    pcols = ["name", "type"] + [c for c in ("unit", "shape", "description") if rng.random() < .8]
    head = [(dmap[c], c, None) for c in cols] + [(pmap[c] + b, c, b) for b in brackets for c in pcols]
    extra = [("extra%d" % k, None, None) for k in range(rng.randint(0, 2))]
    head += extra
    if rng.random() < .6:
        # property order follows the type columns
        rng.shuffle(head)
    order = [b for h, c, b in head if c == "type"]
    ents, rows = [], []
    for k in range(nm):
        nme = gen.ident(rng, 12)
        uri = (base or "http://onto-ns.com/meta/0.1/") + nme
        cells = {"uri": nme if base and rng.random() < .8 else uri}
        descr = clean(rng, sniff)
        cells["description"] = descr
        props, dims = [], []
        for b in order:
            if rng.random() < .15 and props:
                continue
            t = gen.rand_type(rng, "iufs")
            p = Prop("p%d%s" % (len(props), gen.ident(rng, 5)), t[0], t[1], t[2])
            cells["p:name" + b], cells["p:type" + b] = p.name, p.tname
            p.unit = (gen.ident(rng, 2) if sniff else rng.choice(["m", "m/s", "kg*m^2", ""])) if "unit" in pcols else None
            p.descr = clean(rng, sniff) if "description" in pcols else None
            cells["p:unit" + b], cells["p:description" + b] = p.unit, p.descr
            if "shape" in pcols and rng.random() < .6 and not sniff:
                shape = [rng.choice(["N", "M", "K_1"]) for _ in range(rng.randint(1, 3))]
                p.shape = shape
                s = rng.choice([",", ", ", " , "]).join(shape)
                cells["p:shape" + b] = rng.choice([s, "[%s]" % s])
                for x in shape:
                    if x not in dims:
                        dims.append(x)
            props.append(p)
        if not props:
            p = Prop("only", "int32", INT, 4)
            cells["p:name" + order[0]], cells["p:type" + order[0]] = "only", "int32"
            props.append(p)
        pad = (lambda s: s) if sniff else (lambda s: rng.choice(["", " "]) + s + rng.choice(["", " ", "  "]))
        row = []
        for h, c, b in head:
            v = cells.get(c if b is None else "p:" + c + b) if c else clean(rng, sniff)
            row.append(pad(v) if v else ("" if sniff or b is None else rng.choice(["", None])))
        rows.append(row)
        ents.append(Entity(uri, dims, props, descr if "description" in cols else "", {d: d + " dimension" for d in dims}))
    return [[h for h, c, b in head]] + rows, ents, base, dict(datamodel_mappings=dmap, property_mappings=pmap)


def g_table(ctx, i, rng):
    how = rng.choice(["list", "list", "csv-kw", "csv-dialect", "iter"])
    table, ents, base, maps = rand_table(ctx, rng)
    if how == "list":
        if rng.random() < .3:
            table[0] = [" %s " % h for h in table[0]]
        t = T.DMTable(table if rng.random() < .5 else tuple(map(tuple, table)), baseuri=base, **maps)
    else:
        buf = io.StringIO()
        fmt = dict(delimiter=rng.choice(",;\t|"), quotechar=rng.choice("\"'"))
        csv.writer(buf, lineterminator="\n", **fmt).writerows([["" if v is None else v for v in r] for r in table])
        s = buf.getvalue()
        if how == "csv-dialect":
            class dia(csv.excel):
                delimiter, quotechar = fmt["delimiter"], fmt["quotechar"]
            fmt = dict(dialect=dia)
        if how == "iter":
            lines = s.splitlines(keepends=rng.random() < .5) if not any(ch in s for ch in "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") else s.split("\n")
            t = T.DMTable.from_csv(lines, baseuri=base, **maps, **fmt)
        else:
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "t.csv")
                enc = rng.choice(["utf-8", "utf-16"])
                open(f, "w", encoding=enc, newline="").write(s)
                t = T.DMTable.from_csv(f, encoding=enc, baseuri=base, **maps, **fmt)
    ms = t.get_datamodels()
    ctx.eq([m.uri for m in ms], [e.uri for e in ents], "table-models", table)
    for m, e in zip(ms, ents):
        chk_meta(ctx, m, e, "table")
    ctx.sig("table", how, len(ents), len(table[0]), base is None)


def g_sniff(ctx, i, rng):
    """Plain tables written as csv are recognised whatever the delimiter and line terminator."""
    table, ents, base, maps = rand_table(ctx, rng, sniff=True)
    delim, eol = rng.choice(",;\t"), rng.choice(["\n", "\r\n"])
    s = eol.join(delim.join(r) for r in table) + eol
    how = rng.choice(["file", "stringio", "lines"])
    if how == "file":
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "t.csv")
            open(f, "w", newline="").write(s)
            t = T.DMTable.from_csv(f, baseuri=base, **maps)
    else:
        t = T.DMTable.from_csv(io.StringIO(s) if how == "stringio" else s.splitlines(), baseuri=base, **maps)
    ms = t.get_datamodels()
    ctx.eq([m.uri for m in ms], [e.uri for e in ents], "sniffed-models", s)
    for m, e in zip(ms, ents):
        chk_meta(ctx, m, e, "sniffed")
    # the fallback sniffer on quoted content
    q, dl = rng.choice("\"'"), rng.choice(",;\t")
    n = rng.randint(2, 6)
    rows = [[gen.ident(rng, rng.randint(1, 8)) for _ in range(n)] for _ in range(rng.randint(2, 6))]
    txt = eol.join(dl.join(v if not k or rng.random() < .7 else q + v + q for k, v in enumerate(r)) for r in rows) + eol
    dia = T.csvsniff(txt)
    ctx.eq(list(csv.reader(io.StringIO(txt, newline=""), dialect=dia)), rows, "csvsniff", txt)
    ctx.sig("sniff", how, delim, eol, len(ents), n)


def g_tablebad(ctx, i, rng):
    table, ents, base, maps = rand_table(ctx, rng)
    if base is None:
        k = table[0].index(maps["datamodel_mappings"]["uri"])
        table[1] = list(table[1])
        table[1][k] = "nonamespace"
        ctx.check(isinstance(raised(T.DMTable, table, **maps), ValueError), "table-namespace")
        ctx.sig("tablebad", "namespace")
    else:
        k = next(j for j, h in enumerate(table[0]) if h.startswith(maps["property_mappings"]["type"]) and table[1][j])
        table[1] = list(table[1])
        table[1][k] = "nosuchtype"
        err = raised(lambda: T.DMTable(table, baseuri=base, **maps).get_datamodels())
        ctx.check(isinstance(err, dlite.DLiteError), "table-type", lambda: repr(err))
        ctx.sig("tablebad", "type")


# ---------------------------------------------------------------- dictionaries, dataclasses
def g_dicts(ctx, i, rng):
    e = gen.rand_entity(rng, "niufsS", maxdims=3, maxprops=5, exprs=False)
    d = {"uri": e.uri, "description": e.descr, "dimensions": {x: e.dimdescr[x] for x in e.dims}, "properties": {}}
    for p in e.props:
        d["properties"][p.name] = {k: v for k, v in (("type", p.tname), ("shape", list(p.shape)), ("unit", p.unit), ("description", p.descr)) if v}
    soft5 = {"uri": e.uri, "description": e.descr, "meta": dlite.ENTITY_SCHEMA,
             "dimensions": [{"name": k, "description": v} for k, v in d["dimensions"].items()],
             "properties": [{"name": k, **v} for k, v in d["properties"].items()]}
    how = rng.choice(["dict", "json", "dataclass", "instance", "soft5", "store7", "store5", "pydantic"])
    if how == "dict":
        m = U.to_metadata(d)
    elif how == "json":
        m = U.to_metadata(json.dumps(d))
    elif how == "soft5":
        m = U.to_metadata(soft5)
    elif how == "instance":
        m = U.to_metadata(gen.py_meta(e))
    elif how == "dataclass":
        E = U.get_dataclass_entity_schema()
        P = E.__annotations__["properties"].__args__[1]
        m = U.to_metadata(E(uri=e.uri, description=e.descr, dimensions=d["dimensions"],
                            properties={p.name: P(type=p.tname, shape=list(p.shape), unit=p.unit or "", description=p.descr or "") for p in e.props}))
    elif how == "pydantic":
        m = U.to_metadata(d)
    else:
        ds = U.DictStore()
        src = d if how == "store7" else soft5
        if rng.random() < .3:
            src = {dlite.get_uuid(e.uri): src}
        ds.add(src)
        ctx.eq(list(ds), [dlite.get_uuid(e.uri)], "dictstore-id")
        s = ds[dlite.get_uuid(e.uri)]
        ctx.eq(s["dimensions"], d["dimensions"], "dictstore-dimensions")
        ctx.eq(s["properties"], d["properties"], "dictstore-properties")
        ctx.check(s.get("uri") == e.uri and s.get("description") == e.descr, "dictstore-rest", lambda: s)
        m = U.instance_from_dict(dict(s))
    chk_meta(ctx, m, e, "dict:" + how)
    # data instances in a DictStore
    dims = [rng.randint(0, 3) for _ in e.dims]
    u = new_uuid(rng)
    inst = m(dims, id=u)
    vals = gen.rand_values(rng, e, dims, special=False, txt=gen.plain)
    gen.fill(gen.ptr(inst), e, vals)
    want = gen.read_all(gen.ptr(inst), e)
    ds = U.DictStore()
    dd = inst.asdict(single=True)
    k = rng.randrange(4)
    if k == 0:
        ds.add(dd)
    elif k == 1:
        dd.pop("uuid")
        ds.add(dd, id=u)
    elif k == 2:
        ds.add(inst.asdict(single=False))
    else:
        ds = U.DictStore(dd)
        bad = raised(ds.add, dd, id=new_uuid(rng))
        ctx.check(isinstance(bad, dlite.DLiteInconsistentDataError), "dictstore-inconsistent", lambda: repr(bad))
    ctx.eq(list(ds), [u], "dictstore-inst-id")
    s = dict(ds[u])
    ctx.eq(s.get("meta"), e.uri, "dictstore-meta")
    del inst
    ctx.check(not dlite.has_instance(u, check_storages=False), "dict-instance-gone")
    if not ctx.check(s.get("meta") == e.uri, "dictstore-meta"):
        return
    r = U.instance_from_dict(s, id=u) if "uuid" in s else U.instance_from_dict({u: s})
    ctx.check(r.uuid == u, "dict-instance-id")
    ctx.check(gen.same(gen.read_all(gen.ptr(r), e), want), "dict-instance-values", lambda: (gen.read_all(gen.ptr(r), e), want))
    ctx.check(isinstance(raised(U.to_metadata, r), TypeError), "to-metadata-data")
    ctx.check(isinstance(raised(U.to_metadata, 3.4), TypeError), "to-metadata-type")
    ctx.sig("dict", how, k, len(e.dims), len(e.props))


# ---------------------------------------------------------------- infer_dimensions
def g_infer(ctx, i, rng):
    e = gen.rand_entity(rng, "niufs", maxdims=3, maxprops=6, exprs=rng.random() < .4)
    m = gen.py_meta(e)
    dims = [rng.choice([1, 2, 3, 4]) for _ in e.dims]
    env = dict(zip(e.dims, dims))
    values, known = {}, {}
    for p in e.props:
        if rng.random() < .75:
            shape = e.shape_of(p, dims)
            values[p.name] = np.zeros(shape, dtype=object if p.dtype == STRPTR else float) if p.shape else 0
            if rng.random() < .5 and p.shape:
                values[p.name] = values[p.name].tolist()
            if not gen.prod(shape) and isinstance(values[p.name], list):
                values[p.name] = np.zeros(shape)
            for s, n in zip(p.shape, shape):
                if s in env:
                    known[s] = n
    act = rng.choice(["none", "none", "extra", "ndims", "conflict"])
    arrays = [p for p in e.props if p.shape and p.name in values]
    want = None if set(known) == set(e.dims) else U.CannotInferDimensionError
    kw = {}
    if act == "extra":
        values["no_such_prop_"] = 1
        if rng.random() < .5:
            kw["strict"] = False
        else:
            want = U.CannotInferDimensionError
    elif act == "ndims" and arrays:
        p = rng.choice(arrays)
        values[p.name] = np.zeros([1] * (len(p.shape) + 1))
        want = (U.InvalidNumberOfDimensionsError, U.CannotInferDimensionError)
    elif act == "conflict":
        cnt = [(p, k) for p in arrays for k, s in enumerate(p.shape) if s in env and sum(s2 == s for q in arrays for s2 in q.shape) > 1]
        if cnt:
            p, k = rng.choice(cnt)
            shape = e.shape_of(p, dims)
            shape[k] += 1
            values[p.name] = np.zeros(shape)
            want = U.CannotInferDimensionError
    f = lambda: U.infer_dimensions(m if rng.random() < .5 else e.uri, values, **kw)
    if want is None:
        ctx.eq(f(), env, "infer-dimensions", lambda: (e.dims, [(p.name, p.shape) for p in e.props]))
    else:
        err = raised(f)
        ctx.check(isinstance(err, want), "infer-rejects", lambda: (act, repr(err), env, known))
    ctx.sig("infer", act, want is None, len(e.dims), len(values))


# ---------------------------------------------------------------- referred instances
def g_referred(ctx, i, rng):
    uri = "http://onto-ns.com/meta/0.1/RefNode%d" % rng.randrange(10**9)
    d = rng.randrange(3)
    shape = [[], ["N"], ["N", "M"]][d]
    m = dlite.Metadata(uri, [dlite.Dimension(x, "") for x in (["N", "M"][:d])],
                       [dlite.Property("r", type="ref", ref=uri, shape=shape or None), dlite.Property("x", type="int")], "d")
    n = rng.randint(1, 7)
    sz = [rng.randint(1, 3) for _ in range(d)]
    nodes = [m(sz, id=new_uuid(rng)) for _ in range(n)]
    edges = {k: [] for k in range(n)}
    tot = gen.prod(sz) if d else 1
    for k in range(n):
        vals = [rng.choice([None] + list(range(n))) for _ in range(tot)]
        edges[k] = [v for v in vals if v is not None]
        flat = [None if v is None else nodes[v] for v in vals]
        if d == 0:
            if flat[0] is not None:
                nodes[k]["r"] = flat[0]
        else:
            a = np.empty(tot, dtype=object)
            a[:] = flat
            nodes[k]["r"] = a.reshape(sz)
    reach = set()

    def walk(k):
        if k not in reach:
            reach.add(k)
            for j in edges[k]:
                walk(j)
    if rng.random() < .4:
        coll = dlite.Collection(id=new_uuid(rng))
        start = rng.sample(range(n), rng.randint(0, n))
        for k in start:
            coll.add("n%d" % k, nodes[k])
            walk(k)
        root, want = coll, {coll.uuid} | {nodes[k].uuid for k in reach}
    else:
        walk(0)
        root, want = nodes[0], {nodes[k].uuid for k in reach}
    ctx.eq({x.uuid for x in U.get_referred_instances(root)}, want, "referred")
    got = {x.uuid for x in U.get_referred_instances(root, include_meta=True)}
    metas = set()
    if root.uuid in {x.uuid for x in nodes} or reach:
        metas |= {m.uuid}
    ctx.check(want | metas <= got, "referred-meta")
    extra = [dlite.get_instance(x) for x in got - want]
    ctx.check(all(x.is_meta for x in extra), "referred-only-meta")
    for x in nodes:                                      # break the cycles
        a = np.empty(tot, dtype=object)
        x["r"] = a.reshape(sz) if d else None
    ctx.sig("referred", d, n, len(reach), isinstance(root, dlite.Collection))


# ---------------------------------------------------------------- pydantic
def g_pydantic(ctx, i, rng):
    simple = {"bool": (bool, BOOL, 1), "int": (int, INT, 8), "float": (float, FLOAT, 8), "str": (str, STRPTR, 8)}
    from typing import List, Optional
    fields, e, vals = {}, Entity(None, [], [], "", {}), {}
    sub = None
    ns, ver = "http://onto-ns.com/meta/%s" % gen.ident(rng, 8), "0.%d" % rng.randint(0, 9)
    name = "M" + gen.ident(rng, 10)
    if rng.random() < .3:
        sub = pydantic.create_model("Sub" + gen.ident(rng, 9), x=(float, ...), s=(str, ...))
        subm = U.pydantic_to_metadata(sub, default_namespace=ns, default_version=ver)
        ctx.eq(subm.uri, "%s/%s/%s" % (ns, ver, sub.__name__), "pydantic-uri")
    size = {}
    for k in range(rng.randint(1, 5)):
        fn = "f%d%s" % (k, gen.ident(rng, 4))
        t = rng.choice(list(simple))
        pt, dt, sz = simple[t]
        kw = {}
        p = Prop(fn, "", dt, sz)
        if rng.random() < .5:
            p.descr = kw["description"] = gen.plain(rng).strip() or "d"
        js = {}
        if rng.random() < .5:
            p.unit = js["unit"] = rng.choice(["m", "s", "kg"])
        kind = rng.choice(["scalar", "list", "list2", "optional"] + (["sub", "sublist"] if sub else []))
        mk = {"bool": lambda: rng.random() < .5, "int": lambda: rng.randint(-2**40, 2**40), "float": lambda: gen.randfloat(rng, 8, False),
              "str": lambda: gen.plain(rng)}[t]
        if kind == "scalar":
            ty, v = pt, mk()
        elif kind == "optional":
            ty, v = Optional[pt], mk()
        elif kind == "list":
            dim = rng.choice(["n" + fn, "N"])
            p.shape = [dim]
            if dim == "N":
                js["shape"] = ["N"]
            n = size.setdefault(dim, rng.randint(1, 4))
            ty, v = List[pt], [mk() for _ in range(n)]
        elif kind == "list2":
            p.shape = js["shape"] = ["N", "M"]
            n, q = size.setdefault("N", rng.randint(1, 4)), size.setdefault("M", rng.randint(1, 3))
            ty, v = List[List[pt]], [[mk() for _ in range(q)] for _ in range(n)]
        elif kind == "sub":
            p.dtype, p.ref = REF, subm.uri
            p.unit = p.descr = None
            js, kw = {}, {}
            ty, v = sub, {"x": gen.randfloat(rng, 8, False), "s": gen.plain(rng)}
        else:
            p.dtype, p.ref, p.shape = REF, subm.uri, ["n" + fn]
            n = size.setdefault("n" + fn, rng.randint(1, 3))
            ty, v = List[sub], [{"x": gen.randfloat(rng, 8, False), "s": gen.plain(rng)} for _ in range(n)]
        if kind == "sublist":
            # item metadata are looked up in the default namespace, avoid unless that is the one used
            if (ns, ver) != ("http://onto-ns.com/meta", "0.1"):
                continue
        if kind == "list2":
            # the items of nested lists carry no scalar type
            continue
        if js:
            kw["json_schema_extra"] = js
        fields[fn] = (ty, pydantic.Field(**kw) if kw else ...)
        vals[fn] = v
        for x in p.shape:
            if x not in e.dims:
                e.dims.append(x)
                e.dimdescr[x] = "Number of %s." % x
        e.props.append(p)
    if not fields:
        return
    Model = pydantic.create_model(name, **fields)
    if rng.random() < .3:
        e.uri = "http://onto-ns.com/meta/0.2/X" + name
        m = U.pydantic_to_metadata(Model, uri=e.uri)
        if any(p.ref for p in e.props):
            return                                       # refers to the default namespace
    else:
        e.uri = "%s/%s/%s" % (ns, ver, name)
        m = U.pydantic_to_metadata(Model, default_namespace=ns, default_version=ver)
    chk_meta(ctx, m, e, "pydantic")
    inst = U.pydantic_to_instance(e.uri, Model(**vals) if rng.random() < .7 else dict(vals))
    for p in e.props:
        v, w = inst[p.name], vals[p.name]
        if p.dtype == REF:
            ctx.check(v.meta.uri == p.ref and v["x"] == w["x"] and v["s"] == w["s"], "pydantic-ref-value")
        elif p.shape:
            ctx.eq([x for x in v.tolist()], w, "pydantic-array-value")
        else:
            ctx.eq(v, w, "pydantic-value")
    for bad in ({"anyOf": [{"type": "integer"}, {"type": "string"}]}, {"anyOf": [{"type": "null"}]}, {"anyOf": [{"$ref": "#/x"}]}):
        err = raised(U.pydantic_to_property, "x", bad)
        ctx.check(isinstance(err, (dlite.DLiteValueError, ValueError)), "pydantic-rejects", lambda: repr(err))
    ctx.sig("pydantic", len(e.props), len(e.dims), tuple(sorted({(p.dtype, len(p.shape)) for p in e.props})))


# ---------------------------------------------------------------- quantities
UNITS = {"length": ["m", "cm", "km", "inch"], "time": ["s", "h", "day"], "energy": ["J", "eV", "kJ"], "angle": ["radian", "degree"],
         "mass": ["kg", "g"], "speed": ["m/s", "km/h"], "ratio": ["percent", "%"], "none": [""]}


def close(a, b):
    return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=0))


def g_quantity(ctx, i, rng):
    reg = pint.get_application_registry()
    n = rng.randint(0, 4)
    kinds = {}
    props = []
    for k in range(rng.randint(1, 5)):
        q = rng.choice(list(UNITS))
        u = rng.choice(UNITS[q])
        fn = "q%d" % k
        kinds[fn] = (q, u)
        props.append(dlite.Property(fn, type=rng.choice(["float64", "double", "float"]) if rng.random() < .9 else "float32", shape=["N"] if rng.random() < .4 else None, unit=u or None))
    props.append(dlite.Property("txt", type="string", unit="m"))
    m = dlite.Metadata("http://onto-ns.com/meta/0.1/Quant%d" % rng.randrange(10**9), [dlite.Dimension("N", "")], props, "d")
    a, b = m([n]), m([n])
    names = list(kinds)
    arr = {p.name: bool(p.ndims) for p in m.properties["properties"]}
    single = {p.name: p.type == "float32" for p in m.properties["properties"]}
    for inst in (a, b):
        for fn in names:
            inst[fn] = [rng.uniform(.5, 99) for _ in range(n)] if arr[fn] else rng.uniform(.5, 99)
    norm = lambda u: reg.Unit(u.replace("%", "percent"))
    ha, hb = a.q, b.q                                     # both views at the same time
    ctx.eq(ha.names(), names, "q-names")
    ctx.eq([u or "" for u in ha.units()], [kinds[fn][1] for fn in names], "q-units")
    for h, inst in ((ha, a), (hb, b)):
        for fn in names:
            for q in (h[fn], getattr(h, fn), h.get(fn), dict(h.items())[fn], inst.get_quantity(fn), h.to_dict()[fn]):
                ctx.check(close(q.m, inst[fn]) and q.u == norm(kinds[fn][1]), "q-read", lambda: (fn, kinds[fn], q, inst[fn]))
    if len(names) > 1:
        ctx.eq([str(x) for x in ha.get(*names)], [str(x) for x in ha.values()], "q-get")
    for _ in range(6):
        fn = rng.choice(names)
        q, u = kinds[fn]
        v = [rng.uniform(.5, 99) for _ in range(n)] if arr[fn] else rng.uniform(.5, 99)
        other = rng.choice(UNITS[q])
        before = {k: np.array(b[k]) for k in names}
        route = rng.choice(["item", "attr", "tuple", "update", "set", "plain", "str"])
        Qt = reg.Quantity(np.array(v) if arr[fn] else v, other.replace("%", "percent"))
        want = Qt.to(u.replace("%", "percent") or "").m
        if route == "plain":
            ha[fn] = v
            want = v
        elif route == "str" and not arr[fn]:
            ha[fn] = "%r %s" % (v, other)
            if not other:
                want = v
        elif route == "attr":
            setattr(ha, fn, Qt)
        elif route == "tuple":
            ha[fn] = (v, other.replace("%", "percent"))
        elif route == "update":
            ha.update(**{fn: Qt})
        elif route == "set":
            a.set_quantity(fn, v, other.replace("%", "percent"))
        else:
            ha[fn] = Qt
        tol = 1e-6 if single[fn] else 1e-9
        ctx.check(np.allclose(np.asarray(a[fn], float), np.asarray(want, float), rtol=tol, atol=0), "q-set", lambda: (route, fn, kinds[fn], other, v, a[fn], want))
        got = ha[fn].to(other.replace("%", "percent") or "").m
        if route != "plain":
            ctx.check(np.allclose(np.asarray(got, float), np.asarray(v, float), rtol=tol, atol=0), "q-back", lambda: (route, fn, kinds[fn], other, v, got))
        ctx.check(all(np.array_equal(before[k], np.array(b[k])) for k in names), "q-other-instance")
        bad = rng.choice([x for x in ("m", "s", "J", "kg", "K") if not norm(x).is_compatible_with(norm(u))])
        old = np.array(a[fn])
        err = raised(lambda: ha.__setitem__(fn, reg.Quantity(np.array(v) if arr[fn] else v, bad)))
        ctx.check(isinstance(err, pint.DimensionalityError) and np.array_equal(old, np.array(a[fn])), "q-dimensionality", lambda: (u, bad, repr(err)))
        ctx.sig("quantity", q, u, other, route, arr[fn])
    ctx.check(isinstance(raised(lambda: ha["txt"]), TypeError), "q-text")
    ctx.check(isinstance(raised(lambda: ha["nosuch"]), (ValueError, KeyError, dlite.DLiteError)), "q-missing")
    d = ha.to_dict(names=names[:2], value_type="magnitude")
    ctx.check(list(d) == names[:2] and all(close(d[k], a[k]) for k in d), "q-todict")


# ---------------------------------------------------------------- factory
def g_factory(ctx, i, rng):
    e = gen.rand_entity(rng, "niufs", maxdims=2, maxprops=5, exprs=False)
    used = {s for p in e.props for s in p.shape}
    e.dims = [d for d in e.dims if d in used]
    names = [p.name for p in e.props]
    if len({"dlite_" in x for x in names}) > 1 or any(x in dir(object) or x.startswith("_") for x in names):
        return
    m = gen.py_meta(e)
    dims = [rng.randint(1, 4) for _ in e.dims]
    u = new_uuid(rng)

    class K:
        def __init__(self, **kw):
            self.__dict__.update(kw)
    inst = m(dims, id=u)
    vals = gen.rand_values(rng, e, dims, special=False, txt=gen.plain, null_ok=False)
    gen.fill(gen.ptr(inst), e, vals)
    py = {p.name: (inst[p.name].tolist() if p.shape else inst[p.name]) for p in e.props}
    same = lambda x: all(np.array_equal(np.asarray(getattr(x, k)), np.asarray(py[k])) for k in py)
    via = rng.choice(["class", "object", "instance", "load"])
    if via == "class":
        Ex = dlite.classfactory(K, meta=m)
        u2 = new_uuid(rng)
        o = Ex(**py, instanceid=u2)
        ctx.check(o.dlite_inst.uuid == u2 and isinstance(o, K), "factory-id")
    elif via == "object":
        src = K(**py)
        o = dlite.objectfactory(src, meta=m, deepcopy=rng.random() < .5)
        ctx.check(type(src) is K and not hasattr(src, "dlite_inst"), "factory-source")
    elif via == "instance":
        o = dlite.instancefactory(K, inst)
        ctx.check(o.dlite_inst.uuid == u, "factory-instance")
    else:
        Ex = dlite.classfactory(K, meta=m)
        blank = {p.name: (np.zeros([1] * len(p.shape), dtype=object if p.dtype == STRPTR else None).tolist() if p.shape else (
            "" if p.dtype == STRPTR else 0)) for p in e.props}
        if any(p.dtype == STRPTR and p.shape for p in e.props):
            return
        o = Ex(**blank)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "x.json")
            inst.save("json", f, "mode=w")
            s = dlite.Storage("json", f, "mode=r")
            o.dlite_load(s, u)
    ctx.check(same(o), "factory-values:" + via, lambda: (py, o.__dict__))
    if via in ("class", "object", "instance"):
        di = o.dlite_inst
        ctx.eq(list(di.dimensions.values()), dims, "factory-dimensions")
        ctx.check(gen.same(gen.read_all(gen.ptr(di), e), gen.read_all(gen.ptr(inst), e)), "factory-instance-values:" + via)
    if e.props and any(p.shape for p in e.props):
        p = next(p for p in e.props if p.shape)
        badv = dict(py)
        badv[p.name] = 3
        ctx.check(raised(lambda: dlite.classfactory(K, meta=m)(**badv)) is not None, "factory-rejects")
    ctx.check(isinstance(raised(dlite.classfactory, K), TypeError), "factory-nometa")
    ctx.check(isinstance(raised(dlite.classfactory, K, meta=inst), TypeError), "factory-datameta")
    ctx.sig("factory", via, len(e.dims), len(e.props))


# ---------------------------------------------------------------- protocols
def tree(rng, d):
    """Random directory tree below `d`; returns {relative name: bytes}."""
    out = {}
    for _ in range(rng.randint(0, 8)):
        parts = [gen.ident(rng, rng.randint(1, 6)) for _ in range(rng.randint(1, 3))]
        name = "/".join(parts) + rng.choice(["", ".json", ".txt", ".bak", ".æ"])
        p = os.path.join(d, name)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.isdir(p):
                continue
            out[name] = rng.choice([b"", bytes(rng.randrange(256) for _ in range(rng.randint(1, 300))), b"abc\r\n" * 50])
            open(p, "wb").write(out[name])
        except (FileExistsError, NotADirectoryError):
            out.pop(name, None)
    return out


def read_tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def g_protocol(ctx, i, rng):
    import re
    tmp = tempfile.mkdtemp()
    try:
        src, dst = os.path.join(tmp, "src"), os.path.join(tmp, "dst")
        os.mkdir(src)
        t = tree(rng, src)
        inc = rng.choice([None, None, r".*\.json$", r"[a-m]", r".*/"])
        exc = rng.choice([None, None, r".*\.bak$", r".*a"])
        comp = rng.choice(["none", "deflated", "bzip2", "lzma"])
        lvl = rng.choice([None, 1, 5, 9])
        sel = lambda names, inc, exc: {k for k in names if (not inc or re.match(inc, k)) and not (exc and re.match(exc, k))}
        want = {k: t[k] for k in sel(t, inc, exc)}
        via = rng.choice(["func", "plugin", "plugin"])
        scheme = rng.choice(["", "file://"])
        if via == "func":
            data = PR.load_path(rng.choice([str, __import__("pathlib").Path])(src), include=inc, exclude=exc, compression=comp, compresslevel=lvl)
        else:
            opts = {k: v for k, v in dict(mode="r", include=inc, exclude=exc, compression=comp, compresslevel=lvl).items() if v is not None}
            if rng.random() < .5:
                opts = O.make_query({k: str(v) for k, v in opts.items()})
            with PR.Protocol("file", scheme + src, opts) as pr:
                data = pr.load()
                ctx.eq(sorted(pr.query()), sorted(want), "protocol-query")
                ctx.check(isinstance(raised(pr.save, b"x"), dlite.DLiteIOError), "protocol-readonly")
            ctx.check(isinstance(raised(pr.load), dlite.DLiteIOError), "protocol-closed")
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            ctx.eq({k: z.read(k) for k in z.namelist()}, want, "load-path")
            types = {"none": 0, "deflated": 8, "bzip2": 12, "lzma": 14}
            ctx.check(all(x.compress_type == types[comp] for x in z.infolist()), "load-compression")
        ctx.check(PR.is_archive(data), "is-archive")
        ctx.eq(sorted(PR.archive_names(data)), sorted(want), "archive-names")
        for k in want:
            ctx.eq(PR.archive_extract(data, k), want[k], "archive-extract")
        cont = rng.choice([b"bytes", "text→"])
        d2 = PR.archive_add(data, "zz_added.bin", cont)
        ctx.eq({k: PR.archive_extract(d2, k) for k in PR.archive_names(d2)}, {**want, "zz_added.bin": cont if isinstance(cont, bytes) else cont.encode()}, "archive-add")
        # save it, possibly on top of existing files
        pre = {}
        if rng.random() < .6:
            os.mkdir(dst)
            for k in list(want)[:3] + ["other.txt"]:
                p = os.path.join(dst, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(b"old")
                pre[k] = b"old"
        inc2, exc2 = rng.choice([None, None, r"[a-p]"]), rng.choice([None, None, r".*\.txt$"])
        over = rng.random() < .5
        if rng.random() < .5:
            PR.save_path(data, dst, overwrite=over, include=inc2, exclude=exc2)
        else:
            opts = {k: v for k, v in dict(mode="w" if over else "a", include=inc2, exclude=exc2).items() if v}
            with PR.Protocol("file", dst, O.make_query(opts) if rng.random() < .5 else opts) as pr:
                pr.save(data)
                ctx.check(isinstance(raised(pr.load), dlite.DLiteIOError), "protocol-writeonly")
        res = dict(pre)
        for k in sel(want, inc2, exc2):
            if over or k not in pre:
                res[k] = want[k]
        ctx.eq(read_tree(dst) if os.path.isdir(dst) else {}, res, "save-path")
        # plain files
        f = os.path.join(tmp, "a", "b", "f" + gen.ident(rng))
        blob = bytes(rng.randrange(256) for _ in range(rng.randint(0, 300)))
        blob2 = b"second" + blob
        with PR.Protocol("file", scheme + f) as pr:          # default mode: write, since nothing is there
            pr.save(blob)
        ctx.eq(open(f, "rb").read(), blob, "file-save")
        with PR.Protocol("file", scheme + f) as pr:          # default mode: read, since it exists
            ctx.eq(pr.load(), blob, "file-load")
            ctx.eq(pr.query(), os.path.basename(f), "file-query")
            ctx.check(isinstance(raised(pr.save, blob2), dlite.DLiteIOError), "file-not-overwritten")
        ctx.eq(open(f, "rb").read(), blob, "file-kept")
        mode = rng.choice(["w", "rw", "a", "ra"])
        with PR.Protocol("file", f, "mode=" + mode) as pr:
            pr.save(blob2)
            if "r" in mode:
                ctx.eq(pr.load(), blob2 if "w" in mode else blob, "file-reload")
        ctx.eq(open(f, "rb").read(), blob2 if "w" in mode else blob, "file-mode:" + mode)
        # members of a directory
        os.makedirs(dst, exist_ok=True)
        u = new_uuid(rng)
        before = read_tree(dst)
        with PR.Protocol("file", dst, "mode=rw") as pr:
            pr.save(blob, uuid=u)
            ctx.eq(pr.load(uuid=u), blob, "member-load")
            ctx.eq(read_tree(dst), {**before, u: blob}, "member-saved")
            pr.delete(uuid=u)
            ctx.eq(read_tree(dst), before, "member-deleted")
            ctx.check(isinstance(raised(pr.delete, uuid=new_uuid(rng)), dlite.DLiteIOError), "member-missing")
            ctx.eq(read_tree(dst), before, "missing-member-untouched")
            ctx.check(raised(pr.load, uuid=u) is not None, "member-gone")
        ctx.check(raised(PR.load_path, os.path.join(tmp, "nosuch")) is not None, "load-missing")
        ctx.check(isinstance(raised(PR.Protocol, "nosuchprotocol", tmp), dlite.DLiteProtocolError), "no-protocol")
        ctx.sig("protocol", via, comp, lvl, inc, exc, over, mode, len(want) > 0, bool(pre))
    finally:
        shutil.rmtree(tmp)


def g_saveload(ctx, i, rng):
    """Instances saved and loaded through a protocol plugin keep their content."""
    e = gen.rand_entity(rng, "niufsS", maxdims=2, maxprops=5, exprs=False)
    m = gen.py_meta(e)
    dims = [rng.randint(0, 3) for _ in e.dims]
    u = new_uuid(rng)
    inst = m(dims, id=u)
    gen.fill(gen.ptr(inst), e, gen.rand_values(rng, e, dims, special=False, txt=gen.plain))
    want = gen.read_all(gen.ptr(inst), e)
    drv = rng.choice(["json", "json", "yaml"])
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, "x." + drv)
        sv = rng.choice(["args", "kw", "url", "url-driver", "storage", "driver"])
        if sv == "args":
            inst.save("file", drv, f, "mode=w")
        elif sv == "kw":
            inst.save("file", drv, location=f, options=rng.choice(["mode=w", {"mode": "w"}]))
        elif sv == "url":
            inst.save("file+%s://%s?mode=w" % (drv, f))
        elif sv == "url-driver":
            inst.save("file://%s?driver=%s;mode=w" % (f, drv))
        elif sv == "driver":
            inst.save(drv, f, "mode=w")
        else:
            with dlite.Storage(drv, f, "mode=w") as s:
                inst.save(s)
        del inst
        ctx.check(not dlite.has_instance(u, check_storages=False), "saveload-gone")
        ld = rng.choice(["load", "url", "url-driver", "location"])
        if ld == "load":
            r = dlite.Instance.load("file", drv, f, options=rng.choice([None, "mode=r"]), id=u)
        elif ld == "url":
            r = dlite.Instance.from_url("file+%s://%s?mode=r#%s" % (drv, f, u))
        elif ld == "url-driver":
            r = dlite.Instance.from_url("file://%s?driver=%s;mode=r#%s" % (f, drv, u))
        else:
            r = dlite.Instance.from_location(drv, f, options="mode=r", id=u)
        ctx.check(r.uuid == u and r.meta.uri == e.uri, "saveload-id")
        got = gen.read_all(gen.ptr(r), e)
        ctx.check(got == want, "saveload:%s:%s:%s" % (drv, sv, ld), lambda: (got, want))
        ctx.sig("saveload", drv, sv, ld)
    finally:
        shutil.rmtree(tmp)


GROUPS = [
    ("options", g_options, 300, 6000),
    ("builder", g_builder, 250, 5000),
    ("table", g_table, 250, 5000),
    ("sniff", g_sniff, 150, 3000),
    ("tablebad", g_tablebad, 60, 1000),
    ("dicts", g_dicts, 250, 5000),
    ("infer", g_infer, 250, 5000),
    ("referred", g_referred, 200, 4000),
    ("pydantic", g_pydantic, 200, 4000),
    ("quantity", g_quantity, 100, 2000),
    ("factory", g_factory, 200, 4000),
    ("protocol", g_protocol, 150, 3000),
    ("saveload", g_saveload, 150, 3000),
]
