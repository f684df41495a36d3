"""ctypes access to the instrumented DLite libraries, with prototypes read from /repo's headers."""
import ctypes, hashlib, os, re, sys, uuid as _uuid

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
_BDIR = os.path.join(os.path.dirname(HERE), "_build", "py")

HEADERS = ["src/dlite-entity.h", "src/dlite-type.h", "src/dlite-type-cast.h", "src/dlite-collection.h",
           "src/dlite-storage.h", "src/dlite-store.h", "src/dlite-arrays.h", "src/dlite-datamodel.h",
           "src/dlite-misc.h", "src/dlite-json.h", "src/dlite-bson.h", "src/triplestore.h", "src/triple.h",
           "src/dlite-mapping.h", "src/dlite-mapping-plugins.h", "src/dlite-storage-plugins.h",
           "src/dlite-errors.h", "src/dlite-behavior.h",
           "src/dlite-codegen.h", "src/dlite-macros.h", "src/pathshash.h", "src/dlite-schemas.h",
           "src/utils/bson.h", "src/utils/clp2.h", "src/utils/err.h", "src/utils/fileutils.h",
           "src/utils/globmatch.h", "src/utils/infixcalc.h", "src/utils/jsmnx.h", "src/utils/jstore.h",
           "src/utils/map.h", "src/utils/md5.h", "src/utils/rng.h", "src/utils/session.h", "src/utils/sha1.h",
           "src/utils/sha3.h", "src/utils/strtob.h", "src/utils/strutils.h", "src/utils/tgen.h",
           "src/utils/tmpfileplus.h", "src/utils/unicode.h", "src/utils/uri_encode.h", "src/utils/urlsplit.h",
           "src/utils/uuid.h", "src/utils/uuid4.h", "src/utils/fileinfo.h", "src/utils/execprocess.h",
           "src/utils/plugin.h", "src/utils/compat.h"]

c = ctypes
SCALARS = [("unsigned long long", c.c_ulonglong), ("long long", c.c_longlong), ("unsigned long", c.c_ulong),
           ("uint64_t", c.c_uint64), ("int64_t", c.c_int64), ("uint32_t", c.c_uint32), ("int32_t", c.c_int32),
           ("uint16_t", c.c_uint16), ("int16_t", c.c_int16), ("uint8_t", c.c_uint8), ("int8_t", c.c_int8),
           ("unsigned char", c.c_ubyte), ("unsigned short", c.c_ushort), ("unsigned int", c.c_uint), ("unsigned", c.c_uint), ("size_t", c.c_size_t),
           ("long", c.c_long), ("short", c.c_short), ("double", c.c_double), ("float", c.c_float),
           ("bool", c.c_bool), ("char", c.c_char), ("DLiteErrMask", c.c_int64), ("int", c.c_int)]
STRUCTS = ("map_iter_t", "DLiteStoreIter")


def _ctype(t):
    t = t.strip()
    if "*" in t or "[" in t or "(" in t:
        return c.c_void_p
    t = re.sub(r"\b(const|extern|static|struct|enum|inline)\b", "", t).strip()
    if t == "void":
        return None
    for name, ct in SCALARS:
        if re.search(r"\b%s\b" % name, t):
            return ct
    if t.split()[0] in ("DLiteInit", "DLiteTypeCast", "sqlite", "va_list", "ErrHandler", "TGenFun", "JStore",
                        "InfixCalcVariable") or t.split()[0].endswith("Fun"):
        return c.c_void_p
    return c.c_int                                    # enums


def _split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch in "([" and 1 or 0
        depth -= ch in ")]" and 1 or 0
        cur += ch
    return out + [cur]


def prototypes():
    protos = {}
    rx = re.compile(r"(?:^|[;}\n])\s*((?:[A-Za-z_]\w*[\s\*]+)+?\**)\s*\b([a-zA-Z_]\w*)\s*\(((?:[^()]|\([^()]*\))*)\)\s*"
                    r"(?:__attribute__\s*\(\(.*?\)\)\s*)?;", re.S)
    for h in HEADERS:
        try:
            txt = open(os.path.join(REPO, h), errors="replace").read()
        except OSError:
            continue
        txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
        txt = re.sub(r"//[^\n]*", " ", txt)
        txt = re.sub(r"\\\n", " ", txt)
        txt = re.sub(r"(?m)^\s*#.*$", "", txt)
        for m in rx.finditer(txt):
            ret, name, args = m.groups()
            if "typedef" in ret or ret.split()[0] in ("return", "else", "do"):
                continue
            if "..." in args or "va_list" in args or any(s in args + ret for s in STRUCTS if not re.search(s + r"\s*\*", args + ret)):
                continue
            al = [a for a in _split_args(re.sub(r"\s+", " ", args).strip()) if a.strip() and a.strip() != "void"]
            protos[name] = (ret.strip(), al)
    return protos


class Lib:
    def __init__(self, libs):
        self._libs = libs
        self._protos = prototypes()

    def __getattr__(self, name):
        for lib in self._libs:
            try:
                f = getattr(lib, name)
            except AttributeError:
                continue
            break
        else:
            raise AttributeError(name)
        if name in self._protos:
            ret, args = self._protos[name]
            if "*" in ret and re.search(r"\bconst\b", ret) and re.search(r"\bchar\b", ret) and ret.count("*") == 1:
                f.restype = c.c_char_p
            else:
                f.restype = _ctype(ret)
            f.argtypes = [_ctype(a) for a in args]
        setattr(self, name, f)
        return f


# The libraries are only loaded in workers (which run with the sanitizer runtime preloaded)
if "libasan" in os.environ.get("LD_PRELOAD", ""):
    _utils = c.PyDLL(os.path.join(_BDIR, "src", "utils", "libdlite-utils.so"), mode=c.RTLD_GLOBAL)
    _dlite = c.PyDLL(os.path.join(_BDIR, "src", "libdlite.so"), mode=c.RTLD_GLOBAL)
    C = Lib([_dlite, _utils])
    _shim = c.PyDLL(os.path.join(_BDIR, "shim.so"))
else:
    C = _shim = None


class Shim:
    PTR = ("s_meta s_parent s_parent_hash s_dimptr s_prop s_rels s_descr s_dimdescr m_prop m_dim m_rel "
           "s_join c_rstore c_relations a_data map_input_map tg_subs tg_copy tg_case").split()
    STR = ("s_uuid s_uri s_parent_uuid p_name p_ref p_shape p_unit p_descr d_name d_descr map_name map_output "
           "map_input_uri").split()
    SIZE = ("s_instance_size s_ndim s_nprop s_dim s_prop_dim s_prop_dimptr p_size m_ndim m_nprop m_nrel m_headersize "
            "m_dimoffset m_propoffset m_reloffset m_propdimsoffset m_propdimindsoffset m_npropdims m_propdimind "
            "c_nrelations a_shape a_size").split()

    def __getattr__(self, name):
        f = getattr(_shim, name)
        if name in self.PTR:
            f.restype = c.c_void_p
        elif name in self.STR:
            f.restype = c.c_char_p
        elif name in self.SIZE:
            f.restype = c.c_size_t
        elif name == "ld_get":
            f.restype = c.c_double
        elif name.startswith("hook_"):
            f.restype = c.c_long
        if name == "ld_set":
            f.argtypes = [c.c_void_p, c.c_double]
        elif name == "s_err":
            f.argtypes = [c.c_int, c.c_char_p]
        elif name in ("hook_begin", "hook_end", "hook_pause", "hook_resume", "hook_install", "hook_count", "hook_now",
                      "s_hash_size"):
            f.argtypes = []
        elif name == "p_set_ref":
            f.argtypes = [c.c_void_p, c.c_char_p]
        elif name == "s_sizeof":
            f.argtypes = [c.c_char_p]
        elif name in ("s_dim", "s_prop", "s_prop_ndim", "s_prop_dimptr", "s_descr", "s_dimdescr", "m_prop", "m_dim",
                      "m_rel", "m_propoffset", "m_propdimind"):
            f.argtypes = [c.c_void_p, c.c_size_t]
        elif name == "s_prop_dim":
            f.argtypes = [c.c_void_p, c.c_size_t, c.c_size_t]
        elif name in ("p_shape", "a_shape", "a_stride", "map_input_map", "map_input_uri"):
            f.argtypes = [c.c_void_p, c.c_int]
        else:
            f.argtypes = [c.c_void_p]
        setattr(self, name, f)
        return f


S = Shim()
libc = c.CDLL(None)
libc.free.argtypes = [c.c_void_p]
libc.free.restype = None
libc.malloc.argtypes = [c.c_size_t]
libc.malloc.restype = c.c_void_p
libc.strdup.argtypes = [c.c_char_p]
libc.strdup.restype = c.c_void_p
libc.calloc.argtypes = [c.c_size_t, c.c_size_t]
libc.calloc.restype = c.c_void_p
libc.fopen.restype = c.c_void_p
libc.fopen.argtypes = [c.c_char_p, c.c_char_p]
libc.fclose.argtypes = [c.c_void_p]
libc.fdopen.restype = c.c_void_p

# DLiteType
BLOB, BOOL, INT, UINT, FLOAT, FIXSTR, STRPTR, REF, DIM, PROP, REL = range(11)
DIMENSION, PROPERTY, RELATION = DIM, PROP, REL


def errclr():
    C.dlite_errclr()


def errval():
    return C.dlite_errval()


def take_str(p):
    """Copy a malloc'ed C string and free it."""
    if not p:
        return None
    s = c.string_at(p)
    libc.free(p)
    return s


def quiet():
    C.dlite_err_set_stream(None)


def buf(n):
    """Exact-size heap buffer (so the red zone follows directly)."""
    return (c.c_char * n)()


def szarr(vals):
    return (c.c_size_t * max(1, len(vals)))(*vals) if len(vals) else (c.c_size_t * 1)()


def addr(a):
    return c.addressof(a)


def new_uuid(rng):
    return str(_uuid.UUID(int=rng.getrandbits(128), version=4))


def uuid5(name):
    """Version 5 UUID of `name` in the DNS namespace, computed independently."""
    b = name.encode() if isinstance(name, str) else name
    h = bytearray(hashlib.sha1(_uuid.NAMESPACE_DNS.bytes + b).digest()[:16])
    h[6] = (h[6] & 0x0f) | 0x50
    h[8] = (h[8] & 0x3f) | 0x80
    return str(_uuid.UUID(bytes=bytes(h)))


class mem:
    """Exact-size malloc'ed block (freed with the object); `mem(b"..")`, `mem(n)` or `mem.z(b"..")` for a C string."""
    __slots__ = ("p", "n")

    def __init__(self, data, fill=0x5a):
        self.n = data if isinstance(data, int) else len(data)
        self.p = libc.malloc(self.n)
        if isinstance(data, int):
            c.memset(self.p, fill, self.n)
        else:
            c.memmove(self.p, bytes(data), self.n)

    @classmethod
    def z(cls, s):
        return cls((s.encode() if isinstance(s, str) else s) + b"\0")

    @property
    def raw(self):
        return c.string_at(self.p, self.n)

    @property
    def str(self):
        r = self.raw
        k = r.find(b"\0")
        return None if k < 0 else r[:k]

    def __del__(self):
        libc.free(self.p)
