"""Random-input generators and value codecs shared by the checks."""
import ctypes as c, keyword, math, struct, string
from dl import *

ALNUM = string.ascii_letters + string.digits


def ident(rng, n=None):
    n = n or rng.randint(1, 12)
    while True:
        s = rng.choice(string.ascii_letters + "_") + "".join(rng.choice(ALNUM + "_") for _ in range(n - 1))
        if not keyword.iskeyword(s):                # shape expressions are also evaluated by Python
            return s


def name(rng):
    """A plain instance name: neither UUID nor URL."""
    k = rng.randrange(6)
    if k == 0:
        return ident(rng, rng.choice([1, 2, 35, 36, 37, 60]))
    if k == 1:
        return "".join(rng.choice(ALNUM + "_-. ") for _ in range(rng.randint(1, 50))).strip() or "x"
    if k == 2:
        return ident(rng) + rng.choice("æøåßñ→日") + ident(rng)
    if k == 3:
        return ident(rng, rng.choice([228, 229, 230, 231, 232, 233, 255, 256, 257, 300, 1000]))
    if k == 4:
        return ident(rng) + "/" + ident(rng)
    return ident(rng) + rng.choice(["-", ".", "_", " ", "+", "@"]) + ident(rng)


def url(rng, tail=None):
    scheme = rng.choice(["http", "https", "file", "ftp", "mongodb+srv", "x-y.z"])
    host = rng.choice(["onto-ns.com", "localhost", "ex.com", "192.168.0.39", "a.b-c.org"])
    if rng.random() < .2:
        host += ":%d" % rng.randint(1, 65535)
    path = "".join("/" + ident(rng, rng.randint(1, 9)) for _ in range(rng.randint(1, 4)))
    if tail is not None:
        path += "/" + tail
    return scheme + "://" + host + path


def meta_uri(rng):
    return "http://onto-ns.com/meta/%s/%d.%d/%s" % (ident(rng, 8), rng.randint(0, 9), rng.randint(0, 20),
                                                     ident(rng, 14))


def uuid_case(rng, u):
    k = rng.randrange(3)
    if k == 0:
        return u
    if k == 1:
        return u.upper()
    return "".join(ch.upper() if rng.random() < .5 else ch for ch in u)


TEXT_POOLS = [
    ALNUM, ALNUM + " _-.,;:", "ab\"\\/\b\f\n\r\t'", "æøåéß→日本語😀ab ", "{}[]\":,\\ \n", "\x01\x02\x1f\x7fab",
    "%$&<>#?=+ab", " ",
]


def text(rng, maxlen=30, pools=None):
    p = rng.choice(pools or TEXT_POOLS)
    return "".join(rng.choice(p) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, maxlen])))


def plain(rng, maxlen=20):
    return "".join(rng.choice(ALNUM + " _-.,") for _ in range(rng.randint(0, maxlen)))


INTS = {1: (-128, 127), 2: (-2**15, 2**15-1), 4: (-2**31, 2**31-1), 8: (-2**63, 2**63-1)}


def randint(rng, size, signed=True):
    lo, hi = INTS[size] if signed else (0, 2**(8*size) - 1)
    k = rng.randrange(6)
    if k == 0:
        return lo
    if k == 1:
        return hi
    if k == 2:
        return rng.choice([0, 1, hi - 1, max(lo, -1)])
    if k == 3:
        return rng.randint(lo, hi)
    b = rng.randint(1, 8*size - 2)
    v = rng.getrandbits(b)
    return -v if signed and rng.random() < .5 else v


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def randfloat(rng, size=8, special=True):
    k = rng.randrange(8)
    if k == 0:
        v = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1/3, 1e-5, 123456.789, 2.5])
    elif k == 1:
        v = rng.uniform(-1, 1)
    elif k == 2:
        v = rng.uniform(-1e6, 1e6)
    elif k == 3:
        v = math.ldexp(rng.uniform(.5, 1), rng.randint(-100, 100))
    elif k == 4 and special:
        v = rng.choice([float("inf"), float("-inf"), float("nan")])
    elif k == 5:
        v = float(rng.randint(-1000, 1000))
    elif k == 6 and size == 8:
        v = rng.choice([1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 9007199254740993.0])
    elif k == 6:
        v = rng.choice([3.4028234663852886e38, 1.1754943508222875e-38])
    else:
        v = rng.gauss(0, 1)
    return f32(v) if size == 4 else v


# (type name, dtype, size)
SCALAR_TYPES = ([("bool", BOOL, 1)] +
                [("int%d" % (8*s), INT, s) for s in (1, 2, 4, 8)] +
                [("uint%d" % (8*s), UINT, s) for s in (1, 2, 4, 8)] +
                [("float32", FLOAT, 4), ("float64", FLOAT, 8)])


def rand_type(rng, kinds="bniufsSb"):
    """Random (typename, dtype, size). kinds: letters n=bool i=int u=uint f=float s=string S=fixstring b=blob"""
    k = rng.choice(kinds)
    if k == "n":
        return ("bool", BOOL, 1)
    if k == "i":
        s = rng.choice([1, 2, 4, 8])
        return ("int%d" % (8*s), INT, s)
    if k == "u":
        s = rng.choice([1, 2, 4, 8])
        return ("uint%d" % (8*s), UINT, s)
    if k == "f":
        s = rng.choice([4, 8])
        return ("float%d" % (8*s), FLOAT, s)
    if k == "s":
        return ("string", STRPTR, 8)
    if k == "S":
        n = rng.choice([1, 2, 3, 7, 8, 15, 31, 63])
        return ("string%d" % n, FIXSTR, n + 1)
    n = rng.choice([1, 2, 3, 4, 7, 8, 16, 33])
    return ("blob%d" % n, BLOB, n)


def fit_utf8(s, nbytes):
    b = s.encode("utf8")[:nbytes]
    while True:
        try:
            return b.decode("utf8")
        except UnicodeDecodeError:
            b = b[:-1]


def rand_value(rng, dtype, size, null_ok=True, special=True, txt=text):
    """Random scalar value of the given type as Python object (str, int, float, bool, bytes or None)."""
    if dtype == BOOL:
        return rng.random() < .5
    if dtype == INT:
        return randint(rng, size)
    if dtype == UINT:
        return randint(rng, size, signed=False)
    if dtype == FLOAT:
        return randfloat(rng, size, special)
    if dtype == FIXSTR:
        return fit_utf8(txt(rng), size - 1)
    if dtype == STRPTR:
        if null_ok and rng.random() < .15:
            return None
        return txt(rng)
    if dtype == BLOB:
        return bytes(rng.getrandbits(8) for _ in range(size))
    raise ValueError(dtype)


def zero_value(dtype, size):
    return {BOOL: False, INT: 0, UINT: 0, FLOAT: 0.0, FIXSTR: "", STRPTR: None, BLOB: b"\0" * size,
            REF: None}[dtype]


def pack(v, dtype, size, keep):
    """Bytes of one element; `keep` collects objects that must stay alive."""
    if dtype == BOOL:
        return bytes([1 if v else 0])
    if dtype == INT:
        return int(v).to_bytes(size, "little", signed=True)
    if dtype == UINT:
        return int(v).to_bytes(size, "little")
    if dtype == FLOAT:
        if size == 4:
            return struct.pack("<f", v)
        if size == 8:
            return struct.pack("<d", v)
        b = buf(size)
        S.ld_set(c.addressof(b), v)
        return b.raw
    if dtype == FIXSTR:
        return v.encode("utf8").ljust(size, b"\0")
    if dtype == BLOB:
        return v
    if dtype == STRPTR:
        if v is None:
            return b"\0" * 8
        s = v.encode("utf8")
        b = (c.c_char * (len(s) + 1)).from_buffer_copy(s + b"\0")
        keep.append(b)
        return c.addressof(b).to_bytes(8, "little")
    raise ValueError(dtype)


def unpack(b, dtype, size):
    if dtype == BOOL:
        return bool(b[0]) if b[0] in (0, 1) else ("badbool", b[0])
    if dtype == INT:
        return int.from_bytes(b, "little", signed=True)
    if dtype == UINT:
        return int.from_bytes(b, "little")
    if dtype == FLOAT:
        return struct.unpack("<f" if size == 4 else "<d", b)[0]
    if dtype == FIXSTR:
        return b.split(b"\0", 1)[0].decode("utf8", "surrogateescape")
    if dtype == BLOB:
        return bytes(b)
    if dtype == STRPTR:
        p = int.from_bytes(b, "little")
        return c.string_at(p).decode("utf8", "surrogateescape") if p else None
    raise ValueError(dtype)


def same(a, b):
    """Value equality with NaN == NaN and -0.0 != 0.0."""
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return a != a and b != b
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


# ---- instance access through the C API ---------------------------------------------------------
class Prop:
    def __init__(self, name, tname, dtype, size, shape=(), unit=None, descr=None, ref=None):
        self.name, self.tname, self.dtype, self.size = name, tname, dtype, size
        self.shape, self.unit, self.descr, self.ref = list(shape), unit, descr, ref


class Entity:
    """Executable description of an entity: dims and props, kept next to the DLite one."""

    def __init__(self, uri, dims, props, descr="", dimdescr=None):
        self.uri, self.dims, self.props, self.descr = uri, dims, props, descr
        self.dimdescr = dimdescr or {}

    def shape_of(self, p, dimvals):
        env = dict(zip(self.dims, dimvals))
        return [int(eval(e.replace("/", "//"), {}, env)) for e in p.shape]


def rand_entity(rng, kinds="niufsSb", maxdims=3, maxprops=7, exprs=True, uri=None, minprops=1, units=True, txt=plain):
    nd = rng.randint(0, maxdims)
    dims = []
    while len(dims) < nd:
        d = ident(rng, 4)
        if d not in dims:
            dims.append(d)
    props, names = [], set(dims)
    for _ in range(rng.randint(minprops, maxprops)):
        n = ident(rng, rng.choice([3, 5, 8]))
        if n in names:
            continue
        names.add(n)
        t = rand_type(rng, kinds)
        shape = []
        if dims and rng.random() < .55:
            nsh = rng.choice([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5])
            for _ in range(nsh):
                d = rng.choice(dims)
                if nsh > 3:
                    pass
                elif exprs and rng.random() < .3:
                    d = rng.choice(["%s+1", "2*%s", "%s*%s" % (d, "%s"), "1+%s", "(%s+2)*2"]).replace("%s", d)
                elif exprs and rng.random() < .1:
                    d = str(rng.randint(1, 3))
                shape.append(d)
        props.append(Prop(n, t[0], t[1], t[2], shape,
                          unit=rng.choice([None, None, "m", "kg/m^3"]) if units else None,
                          descr=txt(rng) if units and rng.random() < .5 else None))
    return Entity(uri or meta_uri(rng), dims, props, descr=txt(rng) if rng.random() < .7 else "desc",
                  dimdescr={d: txt(rng) for d in dims})


def c_meta(e):
    """Create the metadata through the C API; returns pointer (new reference)."""
    m = C.dlite_metamodel_create(e.uri.encode(), b"http://onto-ns.com/meta/0.3/EntitySchema")
    assert m, C.dlite_errmsg()
    if e.descr is not None:
        C.dlite_metamodel_add_string(m, b"description", e.descr.encode())
    keep = []
    for d in e.dims:
        C.dlite_metamodel_add_dimension(m, d.encode(), e.dimdescr.get(d, "").encode())
    for p in e.props:
        r = C.dlite_metamodel_add_property(m, p.name.encode(), p.tname.encode(),
                                           p.unit.encode() if p.unit else None,
                                           p.descr.encode() if p.descr is not None else None)
        assert r == 0, (r, C.dlite_errmsg())
        for s in p.shape:
            C.dlite_metamodel_add_property_dim(m, p.name.encode(), s.encode())
    meta = C.dlite_meta_create_from_metamodel(m)
    C.dlite_metamodel_free(m)
    return meta


def py_meta(e):
    import dlite
    return dlite.Metadata(e.uri, [dlite.Dimension(d, e.dimdescr.get(d, "")) for d in e.dims],
                          [dlite.Property(p.name, type=p.tname, ref=p.ref, shape=p.shape or None, unit=p.unit,
                                          description=p.descr) for p in e.props], e.descr)


def set_prop(inst, i, p, values, shape):
    """values: flat list (arrays) or scalar."""
    keep = []
    if p.shape:
        b = b"".join(pack(v, p.dtype, p.size, keep) for v in values)
    else:
        b = pack(values, p.dtype, p.size, keep)
    a = (c.c_char * max(len(b), 1)).from_buffer_copy(b or b"\0")
    return C.dlite_instance_set_property_by_index(inst, i, c.addressof(a))


def get_prop(inst, i, p):
    """Read property i back through the C API: scalar or flat list."""
    ptr = C.dlite_instance_get_property_by_index(inst, i)
    if not p.shape:
        if not ptr:
            return ("NULL",)
        return unpack(c.string_at(ptr, p.size), p.dtype, p.size)
    n = prod(S.s_prop_dim(inst, i, j) for j in range(len(p.shape)))
    if not n:
        return []
    raw = c.string_at(ptr, n * p.size)
    return [unpack(raw[k*p.size:(k+1)*p.size], p.dtype, p.size) for k in range(n)]


def rand_values(rng, e, dimvals, **kw):
    out = []
    for p in e.props:
        if p.shape:
            out.append([rand_value(rng, p.dtype, p.size, **kw) for _ in range(prod(e.shape_of(p, dimvals)))])
        else:
            out.append(rand_value(rng, p.dtype, p.size, **kw))
    return out


def c_instance(meta, dimvals, id=None):
    return C.dlite_instance_create(meta, szarr(dimvals), id.encode() if isinstance(id, str) else id)


def fill(inst, e, values):
    for i, (p, v) in enumerate(zip(e.props, values)):
        r = set_prop(inst, i, p, v, None)
        assert r == 0, (r, C.dlite_errmsg(), p.name, p.tname)


def read_all(inst, e):
    return [get_prop(inst, i, p) for i, p in enumerate(e.props)]


def nest(flat, shape):
    if not shape:
        return flat
    if len(shape) == 1:
        return list(flat)
    n = prod(shape[1:])
    return [nest(flat[k*n:(k+1)*n], shape[1:]) for k in range(shape[0])]


def ptr(pyinst):
    """C pointer behind a Python instance."""
    return int(pyinst.this)


# ---- C structures of values
class Tr(c.Structure):
    _fields_ = [(k, c.c_char_p) for k in ("s", "p", "o", "d", "id")]

    def tup(self):
        return (self.s, self.p, self.o, self.d)


class Dm(c.Structure):
    _fields_ = [("name", c.c_char_p), ("description", c.c_char_p)]

    def tup(self):
        return (self.name, self.description)


class Pr(c.Structure):
    _fields_ = [("name", c.c_char_p), ("type", c.c_int), ("size", c.c_size_t), ("ref", c.c_char_p), ("ndims", c.c_int),
                ("shape", c.POINTER(c.c_char_p)), ("unit", c.c_char_p), ("description", c.c_char_p)]

    def tup(self):
        return (self.name, self.type, self.size, self.ref, [self.shape[i] for i in range(self.ndims)], self.unit,
                self.description)


def rels(coll):
    return sorted((r.s, r.p, r.o, r.d or "") for r in coll.get_relations(rettype="R"))
