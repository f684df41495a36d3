"""Loads what another process stored: p13child.py SPEC OUT (pickle files)."""
import os, pickle, sys
sys.modules["minio"] = None
from dl import *
import gen


def main():
    import dlite
    quiet()
    spec = pickle.load(open(sys.argv[1], "rb"))
    for p in spec["paths"]:
        dlite.storage_path.append(p)
    out = []
    for job in spec["jobs"]:
        try:
            out.append(load(dlite, job))
        except Exception as ex:
            out.append(("error", "%s: %s" % (type(ex).__name__, ex)))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)
        f.flush()
        os.fsync(f.fileno())
    os._exit(0)


def load(dlite, job):
    how, drv, loc, opts, id = job["how"]
    if how == "storage":
        with dlite.Storage(drv, loc, opts) as s:
            inst = s.load(id)
    elif how == "location":
        inst = dlite.Instance.from_location(drv, loc, opts, id)
    elif how == "url":
        inst = dlite.Instance.from_url("%s://%s?%s%s" % (drv, loc, opts, "#" + id if id else ""))
    elif how == "protocol":
        inst = dlite.Instance.load("file", drv, loc, opts, id=id)
    elif how == "bytes":
        inst = dlite.Instance.from_bytes(drv, open(loc, "rb").read(), id=id, options=opts)
    elif how == "path":
        dlite.storage_path.append("%s://%s?%s" % (drv, loc, opts))
        inst = dlite.get_instance(id)
    elif how == "pickle":
        inst = pickle.load(open(loc, "rb"))
    elif how == "collection":
        inst = dlite.Collection.load(drv, loc, opts, id=id, lazy=job["lazy"])
    return describe(inst, job["entity"])


def describe(inst, e):
    import dlite
    d = dict(uuid=inst.uuid, uri=inst.uri, meta=inst.meta.uri, hash=inst.get_hash())
    if inst.is_meta:
        d["dict"] = inst.asdict()
    elif isinstance(e, gen.Entity):
        # RDF does not record the order of dimensions and properties
        names = [p.name for p in inst.meta["properties"]]
        dims = inst.dimensions
        d["dims"] = [dims[n] for n in e.dims]
        d["values"] = [gen.get_prop(gen.ptr(inst), names.index(p.name), p) for p in e.props]
        if names != [p.name for p in e.props] or list(dims) != list(e.dims):
            d["hash"] = None
        d["metahash"] = inst.meta.get_hash()
        d["metadict"] = inst.meta.asdict()
    elif e == "collection":
        inst = inst if isinstance(inst, dlite.Collection) else dlite.instance_cast(inst, dlite.Collection)
        d["rels"] = gen.rels(inst)
        d["insts"] = sorted((lab, inst.get(lab).uuid, inst.get(lab).get_hash()) for lab in inst.get_labels())
    return d


if __name__ == "__main__":
    main()
