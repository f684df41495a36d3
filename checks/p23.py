"""P23: template expansion and code generation produce what the template says."""
import ctypes as c, os, re, subprocess
from dl import *
import dl, gen, build

RULE = "distinct (directives used, nesting, formats, error kind, generated declaration kinds) observed"
MODES = "scCTuUmMiI"
SPC = " \f\n\r\t\v"
SEP = SPC + "_-"
UNDEF = "nosuch"
LOOP = c.CFUNCTYPE(c.c_int, c.c_void_p, c.c_void_p, c.c_int, c.c_void_p, c.c_void_p)
PLAIN = "abcXYZ019 _.,;:+*/<>|&()[]#~^$@!?=%'\"-\n\t"


def eq(ctx, key, want, got, detail=""):
    return ctx.eq(got, want, key, detail)


def chk(ctx, key, cond, detail=""):
    return ctx.check(cond, key, detail)


def setup():
    S.tg_subs.argtypes = S.tg_copy.argtypes = S.tg_free.argtypes = [c.c_void_p]
    S.tg_fmt.argtypes = [c.c_void_p, c.c_char_p, c.c_int, c.c_char_p]
    S.tg_case.argtypes = [c.c_char_p, c.c_void_p, c.c_int, c.c_int]
    for n in "tgen tgen_convert_case dlite_codegen dlite_codegen_template_file tgen_readfile dlite_option_subs tgen_append".split():
        getattr(C, n)
    C.tgen.restype = C.dlite_codegen.restype = C.tgen_convert_case.restype = C.tgen_readfile.restype = c.c_void_p
    C.tgen.argtypes = [c.c_char_p, c.c_void_p, c.c_void_p]
    C.tgen_subs_set.argtypes = [c.c_void_p, c.c_char_p, c.c_char_p, c.c_void_p]
    C.tgen_append.argtypes = [c.c_void_p, c.c_void_p, c.c_int, c.c_void_p, c.c_void_p]
    quiet()


# ---- case conversion
def islow(ch): return "a" <= ch <= "z"
def isup(ch): return "A" <= ch <= "Z"
def isalnum(ch): return ch.isascii() and (ch.isalnum())


def convert(s, mode):
    """Independent model of the documented case conversions (ASCII); None means error."""
    low = lambda t: "".join(chr(ord(x) + 32) if isup(x) else x for x in t)
    up = lambda t: "".join(chr(ord(x) - 32) if islow(x) else x for x in t)
    if mode == "s":
        return s
    if mode == "c":
        return low(s)
    if mode == "C":
        return up(s)
    if mode == "T":
        return up(s[:1]) + low(s[1:])
    if mode in "uU":
        t = s.strip(SPC)
        t = t.lstrip("".join(set(SEP)))
        # a separator run ends a word; so does the position before an uppercase letter
        out = re.sub("[%s]+" % re.escape(SEP), "_", t)
        out = re.sub(r"(?<=[^_])(?=[A-Z])", "_", out)
        return low(out) if mode == "u" else up(out)
    if mode in "mM":
        t = s.lstrip(SPC)
        out, prev = "", None
        for ch in t:
            if out == "" and prev is None:
                out = up(ch) if mode == "M" else low(ch)
            elif ch in SEP:
                pass
            elif prev in SEP or not (islow(prev) or isup(prev)):
                out += up(ch)
            else:
                out += ch
            prev = ch
        return out
    t = s.strip(SPC)
    if not t:
        return "" if mode == "i" else None
    out = ""
    for k, ch in enumerate(t):
        if ch == "_" or (isalnum(ch) and (k or not ch.isdigit())):
            out += ch
        elif mode == "i" or (k and (ch == "-" or ch in SPC)):
            out += "_"
        else:
            return None
    return out


def cases(ctx, i, rng):
    for _ in range(60):
        pool = rng.choice(["aBc", "abC dE_f-G", "aA1 .+-_", " \t_-", "aZ_", "AVery mixed_Sentense", "n+-Atoms  "])
        s = "".join(rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 30, 600])))
        mode = rng.choice(MODES + "xlS")
        n = rng.choice([-1, -1, len(s), rng.randint(0, len(s))])
        m = mem.z(s) if n < 0 else mem(s.encode())
        if 0 <= n < len(s):
            m = mem.z(s)                    # a prefix of a longer text
        elif n == len(s):
            m = mem.z(s)
        part = s if n < 0 else s[:n]
        want = convert(part, mode) if mode in MODES else None
        got = take_str(C.tgen_convert_case(m.p, n, ord(mode)))
        errclr()
        eq(ctx, "case", None if want is None else want.encode(), got, "convert_case(%r, %d, %s)" % (s, n, mode))
        pre = rng.choice(["", "x", "Foo bar ", "A_"])
        got = take_str(S.tg_case(pre.encode(), m.p, n, ord(mode)))
        errclr()
        eq(ctx, "case-append", None if want is None else (pre + want).encode(), got, "append_case(%r + %r, %d, %s)" % (pre, s, n, mode))
        ctx.sig("case", mode, min(len(part), 4), want is None, any(x in SEP for x in part), any(isup(x) for x in part))


# ---- templates: an AST with its text and its meaning
class Env(dict):
    parent = None


class Out:
    def __init__(self):
        self.s = ""

    def col(self):
        return len(self.s) - (self.s.rfind("\n") + 1)


ESC = {"\\a": "\a", "\\b": "\b", "\\f": "\f", "\\n": "\n", "\\r": "\r", "\\t": "\t", "\\v": "\v", "\\\\": "\\", "\\.": "",
       "\\\n": "", "\\x": "x", "\\\"": '"', "\\ ": " ", "\\'": "'", "\\0": "0"}


class Gen:
    def __init__(self, rng, loops):
        self.rng, self.loops, self.kinds, self.nif = rng, loops, set(), 0

    def text(self, quoted=False, esc=True, lits=True):
        r, raw, out = self.rng, "", ""
        for _ in range(r.choice([0, 1, 2, 4, 8, 30])):
            k = r.random()
            if k < .1 and esc:
                e = r.choice(list(ESC))
                if e == "\\x" and raw.endswith("\\"):
                    continue
                raw += e
                out += ESC[e]
                self.kinds.add("esc")
            elif k < .16 and lits:
                raw += "{{"
                out += "{"
                self.kinds.add("lit{")
            elif k < .22 and lits:
                raw += "\\.}}\\."
                out += "}"
                self.kinds.add("lit}")
            else:
                ch = r.choice("abcXYZ 09.,") if quoted else r.choice(PLAIN)
                raw += ch
                out += ch
        return ("t", raw, out)

    def fmt(self):
        r = self.rng
        f = "%" + r.choice(["", "", "-"]) + r.choice(["", "", "5", "12", "1"]) + r.choice(["", "", "", ".3", ".0", ".10"]) + r.choice("scCuUmMiT")
        return f

    def nodes(self, depth, scope, inif=False, plain=False):
        r, out = self.rng, []
        for _ in range(r.choice([1, 2, 3, 5, 8]) if depth else r.choice([1, 2])):
            k = r.random()
            if k < .3:
                out.append(self.text(quoted=plain, esc=not plain, lits=not plain))
            elif k < .5:
                out.append(("v", r.choice(sorted(scope)), None, r.random() < .1 and not plain))
                self.kinds.add("var")
            elif k < .6:
                out.append(("v", r.choice(sorted(scope)), self.fmt(), r.random() < .1 and not plain))
                self.kinds.add("fmt")
            elif k < .66:
                out.append(("q", r.choice(sorted(scope) + [UNDEF, "new0", "new1", "loop0"])))
                self.kinds.add("?")
            elif k < .7 and not plain:
                out.append(("c", r.choice(["a comment", "x", "with {braces} inside", "{x}", "@endif", "1+1", ""])))
                self.kinds.add("comment")
            elif k < .75 and not plain:
                out.append(("@", r.choice([0, 1, 2, 5, 10, 20, 40, 80])))
                self.kinds.add("align")
            elif k < .8 and depth:
                v = r.choice(["new0", "new1", r.choice(sorted(scope))])
                if re.match(r"[A-Za-z_]\w*$", v):
                    out.append(("a", v, self.nodes(0, scope, inif, True)))
                    self.kinds.add("assign")
            elif k < .84:
                out.append(("e", self.arith(scope)))
                self.kinds.add("eval")
            elif k < .92 and depth and not inif:
                out.append(self.cond(depth, scope))
            elif depth and self.loops:
                name = r.choice(sorted(self.loops))
                # within the subtemplate of a function conditionals are allowed again
                out.append(("l", name, self.nodes(depth - 1, scope if self.loops[name] is None else scope | {"i", "v", ",", ", "}, False)))
                self.kinds.add("loop" + ("-in-if" if inif else ""))
        return out

    def arith(self, scope):
        r = self.rng
        a, b = r.choice(["{n}", "3", "{k}", "{q?}".replace("q", r.choice(sorted(scope)))]), r.choice(["{n}", "2", "{k}", "7"])
        return (a, r.choice("+-*=!<>|&"), b)

    def cond(self, depth, scope):
        r, br = self.rng, []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(4)
            q = r.choice("\"'")
            if k == 0:
                cd = ("ar", self.arith(scope))
            elif k == 1:
                cd = ("s1", q, r.choice([("t", "", ""), self.text(True, False, False), ("v", r.choice(sorted(scope)), None, False)]))
            else:
                x = r.choice([self.text(True, False, False), ("v", r.choice(sorted(scope)), None, False)])
                y = r.choice([x, ("v", r.choice(sorted(scope)), None, False), self.text(True, False, False)])
                cd = ("s2", q, x, r.choice("=!"), y, r.choice(["", " "]), r.choice(["", "  "]))
            self.kinds.add("cond-" + cd[0])
            br.append((cd, self.nodes(depth - 1, scope, True)))
        el = self.nodes(depth - 1, scope, True) if r.random() < .5 else None
        self.kinds.add("if%d%s" % (len(br), "e" if el is not None else ""))
        return ("if", br, el)

    # text of the template
    def raw(self, nodes):
        s = ""
        for n in nodes:
            t = self.raw1(n)
            s += t
        return s

    def raw1(self, n):
        k = n[0]
        if k == "t":
            return n[1]
        if k == "v":
            return "{" + n[1] + (n[2] or "") + (":ignored {template}\\." if n[3] else "") + "}"
        if k == "q":
            return "{" + n[1] + "?}"
        if k == "c":
            return "{: " + n[1] + ("\\." if n[1].endswith("}") else "") + "}"
        if k == "@":
            return "{@%d}" % n[1]
        if k == "a":
            b = self.raw(n[2])
            return "{" + n[1] + "=" + b + ("\\." if b.endswith("}") else "") + "}"
        if k == "e":
            return "{@eval:" + "".join(n[1]) + " }"
        if k == "l":
            b = self.raw(n[2])
            return "{" + n[1] + ":" + b + ("\\." if b.endswith("}") else "") + "}"
        br, el = n[1], n[2]
        s = ""
        for j, (cd, body) in enumerate(br):
            s += "{@%s:%s}" % ("elif" if j else "if", self.rawcond(cd)) + self.raw(body)
        if el is not None:
            s += "{@else}" + self.raw(el)
        return s + "{@endif}"

    def rawcond(self, cd):
        if cd[0] == "ar":
            return " " + "".join(cd[1]) + " "
        if cd[0] == "s1":
            return cd[1] + self.raw1(cd[2]) + cd[1]
        return cd[1] + self.raw1(cd[2]) + cd[1] + cd[5] + cd[3] + cd[6] + cd[1] + self.raw1(cd[4]) + cd[1]

    # meaning
    def run(self, nodes, env, out):
        for n in nodes:
            k = n[0]
            if k == "t":
                out.s += n[2]
            elif k == "v":
                v = env[n[1]]
                out.s += fmt_value(v, n[2]) if n[2] else v
            elif k == "q":
                out.s += "1" if n[1] in env or n[1] in self.loops else "0"
            elif k == "@":
                out.s += " " * max(0, n[1] - out.col())
            elif k == "a":
                o = Out()
                self.run(n[2], env, o)
                e = env
                while e is not None:
                    e[n[1]] = o.s
                    e = e.parent
            elif k == "e":
                out.s += str(self.calc(n[1], env))
            elif k == "l":
                vals = self.loops[n[1]]
                if vals is None:                        # plain copy
                    self.run(n[2], env, out)
                    continue
                e = Env(env)
                e.parent = env
                for j, v in enumerate(vals):
                    last = j == len(vals) - 1
                    e.update({"i": str(j), "v": v, ",": "" if last else ",", ", ": "" if last else ", "})
                    self.run(n[2], e, out)
            elif k == "if":
                for cd, body in n[1]:
                    if self.test(cd, env):
                        self.run(body, env, out)
                        break
                else:
                    if n[2] is not None:
                        self.run(n[2], env, out)

    def calc(self, e, env):
        def num(t):
            m = re.match(r"\{(.*?)(\??)\}$", t)
            if not m:
                return int(t)
            return int(m[1] in env or m[1] in self.loops) if m[2] else int(env[m[1]])
        a, b = num(e[0]), num(e[2])
        return {"+": a + b, "-": a - b, "*": a * b, "=": int(a == b), "!": int(a != b), "<": int(a < b), ">": int(a > b),
                "|": int(bool(a) or bool(b)), "&": int(bool(a) and bool(b))}[e[1]]

    def test(self, cd, env):
        if cd[0] == "ar":
            return self.calc(cd[1], env) != 0
        s = lambda n: n[2] if n[0] == "t" else env[n[1]]
        if cd[0] == "s1":
            return s(cd[2]) != ""
        return (s(cd[2]) == s(cd[4])) == (cd[3] == "=")


def fmt_value(v, fmt):
    m = re.match(r"%(-?)(\d*)(?:\.(\d+))?(.)$", fmt)
    v = convert(v, m[4])
    if m[3] is not None:
        v = v[:int(m[3])]
    w = int(m[2] or 0)
    return v.ljust(w) if m[1] else v.rjust(w)


class Subs:
    """Substitutions on the C side with loop functions that run in their own scope."""

    def __init__(self, rng, env, loops):
        self.p = S.tg_subs(None)
        self.keep = []
        for k, v in env.items():
            w = rng.randrange(4)
            if w == 0:
                r = S.tg_fmt(self.p, k.encode(), -1, v.encode())
            elif w == 1:
                r = S.tg_fmt(self.p, (k + "zz").encode(), len(k), v.encode())
            else:
                if w == 2:                              # override an earlier value
                    C.tgen_subs_set(self.p, k.encode(), b"old", None)
                r = C.tgen_subs_set(self.p, k.encode(), v.encode(), None)
            assert r == 0
        for k, vals in loops.items():
            f = self.loop(vals)
            self.keep.append(f)
            C.tgen_subs_set(self.p, k.encode(), None, c.cast(f, c.c_void_p))

    def loop(self, vals):
        def run(s, templ, n, subs, ctx):
            if vals is None:
                return C.tgen_append(s, templ, n, subs, ctx)
            q = S.tg_copy(subs)
            try:
                for j, v in enumerate(vals):
                    last = j == len(vals) - 1
                    for k, x in (("i", str(j)), ("v", v), (",", "" if last else ","), (", ", "" if last else ", ")):
                        C.tgen_subs_set(q, k.encode(), x.encode(), None)
                    r = C.tgen_append(s, templ, n, q, ctx)
                    if r:
                        return r
                return 0
            finally:
                S.tg_free(q)
        return LOOP(run)

    def free(self):
        S.tg_free(self.p)


def rand_env(rng):
    env = Env()
    for k in ("n", "k"):
        env[k] = str(rng.choice([0, 1, 2, 3, 10, 99]))
    for k in ("x", "var", "long_name", "dim.name", "_u", "A", "with space", "x-y", "empty"):
        if rng.random() < .7:
            env[k] = "".join(rng.choice("abcXYZ 019_.,-+") for _ in range(rng.choice([0, 1, 3, 8, 30, 63, 64, 65, 200])))
    env["empty"] = ""
    # "n" and "k" are numbers; they may be reassigned by templates only through generated assignments (never)
    return env


def templates(ctx, i, rng):
    env = rand_env(rng)
    loops = {"loop0": [], "loop1": ["one"], "loop3": ["A b", "", "c_D"], "cp": None}
    g = Gen(rng, loops)
    scope = set(env) - {"n", "k"}
    nodes = g.nodes(rng.choice([1, 2, 3]), scope)
    raw, out = g.raw(nodes), Out()
    subs = Subs(rng, env, loops)
    e = Env(env)
    g.run(nodes, e, out)
    errclr()
    got = take_str(C.tgen(raw.encode(), subs.p, None))
    msg = C.dlite_errmsg() if got is None else b""
    errclr()
    chk(ctx, "expand", got == out.s.encode(), "template %r with %r gives %r instead of %r (%s)" % (
            raw[:700], {k: env[k] for k in env}, got and got[:700], out.s[:700], msg))
    # assigned variables are kept
    for k in ("new0", "new1") + tuple(scope):
        sub = take_str(C.tgen(("{%s?}" % k).encode(), subs.p, None))
        eq(ctx, "defined", b"1" if k in e else b"0", sub, "is %s defined after %r" % (k, raw[:3000]))
        if k in e:
            eq(ctx, "value", e[k].encode(), take_str(C.tgen(("{%s}" % k).encode(), subs.p, None)), "value of %s after %r" % (k, raw[:3000]))
    subs.free()
    for k in g.kinds:
        ctx.sig("tmpl", k, min(len(raw) // 50, 5))


ERRS = ["{nosuch}", "a{nosuch%s}", "{x", "{", "x}", "}y", "{x%q}", "{x%5}", "{x%-}", "{x%.s}", "{x%12345678901s}", "{@if:1}yes", "{@if:{nosuch}}a{@endif}",
        "{@if:1+}a{@endif}", "{@if:}a", "{@error:failed}", "{loop1}", "{x?y}", "{@12x}", "{@x}", "{loop3:{nosuch}}", "{@else}", "{@endif}", "{?y}", "{?}", "{}x", "{}",
        "{cp:{x}", "{@eval:1+}", "{@eval:1/0}", "{@eval:2", "{y={nosuch}\\.}", "{y=1", "{: comment", "{@if:'a}b{@endif}", "{@if:1/0}b{@endif}",
        "{x{y}}", "{loop3:{@error:inner}\\.}", "{nosuch:templ}", "{x%u", "{@if:0}a{@elif:1+}b{@endif}", "{@if:0}a{@elif:1}{nosuch}{@endif}"]


def errors(ctx, i, rng):
    env = rand_env(rng)
    env["x"] = "value"
    env["fixed"] = "value"
    loops = {"loop1": ["one"], "loop3": ["a", "b", "c"], "cp": None}
    subs = Subs(rng, env, loops)
    for _ in range(25):
        g = Gen(rng, loops)
        scope = {"x", "empty"}
        pre = g.raw(g.nodes(1, scope)) if rng.random() < .4 else ""
        if rng.random() < .2:
            pre += "\n" * rng.randint(1, 5)
        bad = rng.choice(ERRS)
        t = pre + bad
        errclr()
        got = take_str(C.tgen(t.encode(), subs.p, None))
        chk(ctx, "error:" + bad, got is None and errval() != 0, "template %r gives %r (error %d)" % (t, got, errval()))
        if bad == "{@error:failed}":
            chk(ctx, "error-message", b"failed" in (C.dlite_errmsg() or b""), "message %r of %r" % (C.dlite_errmsg(), t))
        errclr()
        # text that is not reached never fails
        if rng.random() < .3:
            got = take_str(C.tgen(b"{@if:0}{nosuch}{@error:no}{@elif:1+1}ok{@else}{nosuch}{@endif}", subs.p, None))
            eq(ctx, "unreached", b"ok", got)
        eq(ctx, "still-usable", b"value", take_str(C.tgen(b"{fixed}", subs.p, None)), "after %r" % t)
        ctx.sig("err", bad, bool(pre))
    subs.free()


# ---- code generation
KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while bool true false unix linux err errx
warn warnx fail asm typeof alignas alignof nullptr and or not xor main NULL EOF I stdin stdout stderr errno signal assert""".split())
ENUM = {BLOB: "dliteBlob", BOOL: "dliteBool", INT: "dliteInt", UINT: "dliteUInt", FLOAT: "dliteFloat", FIXSTR: "dliteFixString",
        STRPTR: "dliteStringPtr", REF: "dliteRef"}
DTYPE = {BLOB: "blob", BOOL: "bool", INT: "int", UINT: "uint", FLOAT: "float", FIXSTR: "fixstring", STRPTR: "string", REF: "ref"}
NATIVE = {(INT, 1): "signed char", (INT, 2): "short", (INT, 4): "int", (INT, 8): "long", (FLOAT, 4): "float", (FLOAT, 8): "double"}


def words(rng, n=None):
    return " ".join("".join(rng.choice("abcdefgXYZ.,:;-()æø+=<>#%&!?'") for _ in range(rng.randint(1, 9))) for _ in range(
        rng.choice([1, 2, 5, 12]) if n is None else n))


def cg_entity(rng, mindims=0, refs=False):
    while True:
        e = gen.rand_entity(rng, kinds="niufsSb", maxdims=4, maxprops=8, txt=words, minprops=1)
        nm = "E" + gen.ident(rng, rng.randint(2, 9))
        if rng.random() < .2:
            e.props[0].name = gen.ident(rng, rng.choice([30, 50, 70, 120]))
        if refs and rng.random() < .3:
            e.props.append(gen.Prop("refprop", "ref", REF, 8, [], ref="http://onto-ns.com/meta/0.1/Other"))
        names = e.dims + [p.name for p in e.props]
        if len(set(names)) == len(names) and len(e.dims) >= mindims and not (set(names) | {nm, nm.lower()}) & KEYWORDS \
                and not any(n.startswith(("_", "DLITE", "dlite")) for n in names):
            e.name = nm
            e.uri = "http://onto-ns.com/meta/0.1/" + nm
            return e


def is_new(e):
    return not dl_has(e.uri)


def dl_has(uri):
    import dlite
    return dlite.has_instance(uri, check_storages=False)


def codegen(t, p, opts=None):
    errclr()
    return take_str(C.dlite_codegen(t.encode(), p, opts.encode() if opts else None))


META = ("{isdata}{ismeta}{ismetameta}|{uuid}|{uri}|{_uuid}|{_uri}|{name}|{version}|{namespace}|{descr}|{meta.uri}|{meta.name}|"
        "{_ndimensions}|{_nproperties}|{_nrelations}|{_npropdims}\n"
        "{list_dimensions:{dim.i}:{dim.name}:{dim.descr}{,}\n}|\n"
        "{list_properties:{prop.i}:{prop.name}:{prop.type}:{prop.typename}:{prop.dtype}:{prop.cdecl}:{prop.ref}:{prop.unit}:{prop.descr}:"
        "{prop.size}:{prop.ndims}:{prop.isallocated}:{prop.dimind}:[{prop.shape:{dim.i}={dim.name}{, }\\.}]{, }\n}")


def cdecl(p, native):
    ptr = "*" if p.shape else ""
    if p.dtype in (BLOB, FIXSTR):
        b = "uint8_t" if p.dtype == BLOB else "char"
        return "%s (*%s)[%d]" % (b, p.name, p.size) if ptr else "%s %s[%d]" % (b, p.name, p.size)
    if p.dtype == STRPTR:
        return "char *%s%s" % (ptr, p.name)
    if p.dtype == REF:
        return "DLiteInstance *%s%s" % (ptr, p.name)
    if p.dtype == BOOL:
        return "bool %s%s" % (ptr, p.name)
    return "%s%d_t %s%s" % ({INT: "int", UINT: "uint", FLOAT: "float"}[p.dtype], p.size * 8, ptr, p.name)


def describe(e, uuid):
    npd = sum(len(p.shape) for p in e.props)
    o = "010|%s|%s|%s|%s|%s|0.1|http://onto-ns.com/meta|%s|http://onto-ns.com/meta/0.3/EntitySchema|EntitySchema|%d|%d|0|%d\n" % (
        uuid, e.uri, uuid, e.uri, e.name, e.descr or "", len(e.dims), len(e.props), npd)
    for j, d in enumerate(e.dims):
        o += "%d:%s:%s%s\n" % (j, d, e.dimdescr.get(d, ""), "," if j < len(e.dims) - 1 else "")
    o += "|\n"
    k = 0
    for j, p in enumerate(e.props):
        o += "%d:%s:%s:%s:%s:%s:%s:%s:%s:%d:%d:%d:%d:[%s]%s\n" % (
            j, p.name, DTYPE[p.dtype], p.tname, ENUM[p.dtype], cdecl(p, False), p.ref or "NULL", p.unit or "", p.descr or "", p.size,
            len(p.shape), p.dtype in (STRPTR, REF), k, ", ".join("%d=%s" % x for x in enumerate(p.shape)), ", " if j < len(e.props) - 1 else "")
        k += len(p.shape)
    return o


def subs(ctx, i, rng):
    """The variables describe the instance."""
    import dlite
    while True:
        e = cg_entity(rng, refs=True)
        if not dl_has(e.uri):
            break
    if rng.random() < .3:
        for d in e.dims:
            e.dimdescr.pop(d, None) if rng.random() < .5 else None
    meta = gen.py_meta(e) if e.descr is not None and rng.random() < .5 or any(p.ref for p in e.props) and e.descr is not None else None
    if meta is None:
        e.props = [p for p in e.props if not p.ref]
        m = gen.c_meta(e)
        chk(ctx, "create", bool(m), "creating %s" % e.uri)
        if not m:
            return
    else:
        m = gen.ptr(meta)
    C.dlite_codegen_set_native_typenames(0)
    eq(ctx, "meta", describe(e, uuid5(e.uri)).encode(), codegen(META, m), "variables of %s" % e.uri)
    # an instance
    dims = [rng.randint(0, 3) for _ in e.dims]
    try:
        shapes = [e.shape_of(p, dims) for p in e.props]
    except ZeroDivisionError:
        return
    id = rng.choice([None, gen.new_id(rng) if hasattr(gen, "new_id") else new_uuid(rng), "http://ex.org/" + gen.ident(rng, 12)])
    inst = gen.c_instance(m, dims, id)
    if inst:
        u = C.dlite_instance_get_uuid
        u.restype = c.c_char_p
        uuid = C.dlite_instance_get_uuid(inst).decode()
        uri = id if id and id.startswith("http") else ""
        n = ",".join(str(x) for s in shapes for x in s)
        opts = rng.choice([None, "", "a=1", "a=1;b=two words", "a=x#ignored", "a=%s;b=;c=3" % ("y" * rng.choice([10, 63, 64, 65, 300])), "uuid=mine"])
        kv = dict(x.split("=", 1) for x in (opts or "").split("#")[0].split(";") if x)
        t = "{isdata}{ismeta}{ismetameta}|{uuid}|{uri}|{_uuid}|{_uri}|{meta.uuid}|{meta.uri}|{meta.name}|{meta.version}|{meta.namespace}|{meta.descr}|{list_propdims:{propdim.n}{,}\\.}"
        want = "100|%s|%s|%s|%s|%s|%s|%s|0.1|http://onto-ns.com/meta|%s|%s" % (kv.get("uuid", uuid), uri, uuid, uri, uuid5(e.uri), e.uri, e.name,
                                                                               e.descr or "", n)
        for k, v in kv.items():
            t += "|{%s}" % k
            want += "|" + v
        eq(ctx, "data", want.encode(), codegen(t, inst, opts), "variables of an instance of %s, options %r" % (e.uri, opts))
        for bad in rng.sample(["{list_dimensions:x}", "{list_properties:{prop.name}}", "{list_relations:x}", "{name}", "{nosuch}"], 2):
            eq(ctx, "data-error", None, codegen(bad, inst))
            errclr()
        eq(ctx, "bad-option", None, codegen("x", inst, rng.choice(["novalue", "a=1;b", "a=1;b#c", "a;b=2"])))
        errclr()
        C.dlite_instance_decref(inst)
    ctx.sig("subs", len(e.dims), len(e.props), e.descr is None, meta is None, any(p.ref for p in e.props))
    if meta is None:
        C.dlite_meta_decref(m)


ACC = """
#define HAVE_DLITE
#include "dlite.h"
#include "%(hdr)s"
#include <stddef.h>
size_t acc_n = %(n)d;
size_t acc_off[] = {%(off)s};
size_t acc_siz[] = {%(siz)s};
size_t acc_total = sizeof(%(M)s);
%(fn)s
"""
CBASE = {BOOL: "bool", STRPTR: "char *", REF: "DLiteInstance *"}


def ctype(p):
    return CBASE.get(p.dtype) or "%s%d_t" % ({INT: "int", UINT: "uint", FLOAT: "float"}[p.dtype], p.size * 8)


def compiled(ctx, i, rng):
    """Generated C code compiles and describes the same metadata."""
    while True:
        e = cg_entity(rng, mindims=1, refs=True)
        if not dl_has(e.uri):
            break
    if rng.random() < .3:
        e.descr = "long description " * rng.choice([1, 4, 20])
    meta = gen.py_meta(e)
    m = gen.ptr(meta)
    d = os.path.join(ctx.work, "c%d" % i)
    os.makedirs(d)
    u, M = convert(e.name, "u"), convert(e.name, "M")
    native = rng.random() < .4
    C.dlite_codegen_set_native_typenames(int(native))
    for templ, fn in (("c-header", u + ".h"), ("c-meta-header", u + "_schema.h"), ("c-source", u + ".c")):
        f = take_str(C.dlite_codegen_template_file(templ.encode()))
        chk(ctx, "template-file", bool(f), "template %s not found" % templ)
        t = take_str(C.tgen_readfile(f))
        errclr()
        out = take_str(C.dlite_codegen(t, m, None))
        chk(ctx, "generate:" + templ, out is not None, "generating %s for %s: %s" % (templ, e.uri, C.dlite_errmsg()))
        if out is None:
            return
        with open(os.path.join(d, fn), "wb") as fp:
            fp.write(out)
    C.dlite_codegen_set_native_typenames(0)
    fields = e.dims + [p.name for p in e.props]
    fns = ""
    for p in e.props:
        # typed access through the generated struct
        if p.dtype in (BLOB, FIXSTR):
            fns += "void *get_%s(%s *x, size_t i) { return %s; }\n" % (p.name, M, "x->%s[i]" % p.name if p.shape else "x->" + p.name)
            fns += "size_t es_%s(%s *x) { return sizeof(%s); }\n" % (p.name, M, "x->%s[0]" % p.name if p.shape else "x->" + p.name)
        else:
            fns += "void *get_%s(%s *x, size_t i) { %s *r = %sx->%s%s; return r; }\n" % (
                p.name, M, ctype(p) if not (native and p.dtype in (INT, UINT, FLOAT)) else "void", "&" , p.name, "[i]" if p.shape else "")
            fns += "size_t es_%s(%s *x) { return sizeof(%s); }\n" % (p.name, M, "x->%s[0]" % p.name if p.shape else "x->" + p.name)
    with open(os.path.join(d, "acc.c"), "w") as fp:
        fp.write(ACC % dict(hdr=u + ".h", n=len(fields), M=M, off=", ".join("offsetof(%s, %s)" % (M, f) for f in fields),
                            siz=", ".join("sizeof(((%s *)0)->%s)" % (M, f) for f in fields), fn=fns))
    so = os.path.join(d, u + ".so")
    inc = []
    for x in build.INC:
        inc += ["-I" + os.path.join(dl._BDIR, x), "-I" + os.path.join(dl.REPO, x)]
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-DHAVE_CONFIG_H", "-DHAVE_DLITE", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
                        "-I" + d] + inc + [os.path.join(d, u + ".c"), os.path.join(d, "acc.c"), "-o", so], capture_output=True, text=True, env=env)
    chk(ctx, "compile", r.returncode == 0, "generated code for %s does not compile: %s" % (e.uri, r.stderr[:1500]))
    if r.returncode:
        return
    lib = c.PyDLL(so)
    n = len(fields)
    off = list((c.c_size_t * n).in_dll(lib, "acc_off"))
    siz = list((c.c_size_t * n).in_dll(lib, "acc_siz"))
    # layout of the generated structure = layout of instances
    first = S.m_dimoffset(m)
    eq(ctx, "dim-offsets", [first + 8 * k for k in range(len(e.dims))], off[:len(e.dims)], "dimension offsets of " + e.uri)
    po = [S.m_propoffset(m, k) for k in range(len(e.props))]
    eq(ctx, "prop-offsets", po, off[len(e.dims):], "property offsets of %s: %s" % (e.uri, [(p.name, p.tname, p.shape) for p in e.props]))
    eq(ctx, "prop-sizes", [8 if p.shape else p.size for p in e.props], siz[len(e.dims):], "property sizes of " + e.uri)
    # the hard-coded metadata describes the same entity
    g = getattr(lib, "get_" + u)
    g.restype = c.c_void_p
    g.argtypes = []
    h = g()
    chk(ctx, "get", bool(h), "get_%s() returned NULL" % u)
    if not h:
        return
    want = describe(e, uuid5(e.uri))
    eq(ctx, "same-meta", want.encode(), codegen(META, h), "compiled metadata of " + e.uri)
    eq(ctx, "layout", [S.m_ndim(m), S.m_nprop(m), S.m_dimoffset(m), S.m_propdimsoffset(m), S.m_reloffset(m), po],
           [S.m_ndim(h), S.m_nprop(h), S.m_dimoffset(h), S.m_propdimsoffset(h), S.m_reloffset(h), [S.m_propoffset(h, k) for k in range(len(e.props))]],
           "layout of compiled metadata " + e.uri)
    # instances of either metadata can be accessed with the struct
    dims = [rng.randint(1, 3) for _ in e.dims]
    for mm in (m, h):
        inst = gen.c_instance(mm, dims, new_uuid(rng))
        chk(ctx, "instance", bool(inst), "instance of %s: %s" % (e.uri, C.dlite_errmsg()))
        if not inst:
            continue
        vals = []
        for k, p in enumerate(e.props):
            if p.dtype == REF:
                vals.append(None)
                continue
            ns = gen.prod(e.shape_of(p, dims)) if p.shape else 1
            v = [gen.rand_value(rng, p.dtype, p.size, special=False) for _ in range(ns)]
            vals.append(v)
            if not p.shape or ns:
                r = gen.set_prop(inst, k, p, v if p.shape else v[0], None)
                eq(ctx, "set", 0, r, "setting %s of %s" % (p.name, e.uri))
        dv = [c.c_size_t.from_address(inst + off[k]).value for k in range(len(dims))]
        eq(ctx, "dims", dims, dv, "dimension members of " + e.uri)
        for k, p in enumerate(e.props):
            if vals[k] is None:
                continue
            f, es = getattr(lib, "get_" + p.name), getattr(lib, "es_" + p.name)
            f.restype, f.argtypes, es.restype, es.argtypes = c.c_void_p, [c.c_void_p, c.c_size_t], c.c_size_t, [c.c_void_p]
            eq(ctx, "elem-size", p.size, es(inst), "element size of %s %s" % (p.name, p.tname))
            got = [gen.unpack(c.string_at(f(inst, j), p.size), p.dtype, p.size) for j in range(len(vals[k]))]
            chk(ctx, "members", gen.same(got, vals[k]), "%s %s %s through the generated struct: %r instead of %r" % (
                p.name, p.tname, p.shape, got, vals[k]))
            ctx.sig("member", p.tname if p.dtype not in (BLOB, FIXSTR) else DTYPE[p.dtype], bool(p.shape), native, mm is m)
        C.dlite_instance_decref(inst)


def api(ctx, i, rng):
    """Search paths and generation for metadata of metadata."""
    d = ctx.work
    path = C.dlite_codegen_path_get
    path.restype = c.c_void_p
    name = "t" + new_uuid(rng)[:12]
    with open(os.path.join(d, name + ".txt"), "w") as f:
        f.write("<{uri}>")
    errclr()
    eq(ctx, "not-found", None, take_str(C.dlite_codegen_template_file(name.encode())))
    errclr()
    C.fu_paths_append.argtypes = [c.c_void_p, c.c_char_p]
    C.fu_paths_append(path(), d.encode())
    f = take_str(C.dlite_codegen_template_file(name.encode()))
    chk(ctx, "found", f is not None and os.path.samefile(f, os.path.join(d, name + ".txt")), "template file %r" % f)
    C.dlite_codegen_path_free()
    errclr()
    eq(ctx, "freed", None, take_str(C.dlite_codegen_template_file(name.encode())), "after resetting the paths")
    errclr()
    chk(ctx, "again", take_str(C.dlite_codegen_template_file(b"c-header")) is not None, "shipped templates after resetting the paths")
    for uri in ("http://onto-ns.com/meta/0.3/EntitySchema", "http://onto-ns.com/meta/0.1/BasicMetadataSchema"):
        m = C.dlite_meta_get(uri.encode())
        out = codegen("{isdata}{ismeta}{ismetameta} {uri} {meta.uri} {list_dimensions:{dim.name}{,}\\.} {list_properties:{prop.name}/{prop.ndims}{,}\\.}"
                      " {list_meta_properties:{prop.name}{,}\\.}", m)
        want = "011 %s http://onto-ns.com/meta/0.1/BasicMetadataSchema " % uri
        n = [S.m_ndim(m), S.m_nprop(m)]
        want += ",".join(c.cast(S.m_dim(m, k), c.POINTER(gen.Dm))[0].name.decode() for k in range(n[0])) + " "
        want += ",".join("%s/%d" % ((lambda p: (p.name.decode(), p.ndims))(c.cast(S.m_prop(m, k), c.POINTER(gen.Pr))[0])) for k in range(n[1]))
        want += " " + ",".join(c.cast(S.m_prop(C.dlite_meta_get(b"http://onto-ns.com/meta/0.1/BasicMetadataSchema"), k), c.POINTER(gen.Pr))[0].name.decode()
                               for k in range(S.m_nprop(C.dlite_meta_get(b"http://onto-ns.com/meta/0.1/BasicMetadataSchema"))))
        eq(ctx, "metameta", want.encode(), out, "variables of " + uri)
        eq(ctx, "wrong-template", None, codegen(open(os.path.join(dl.REPO, "tools/templates/c-header.txt")).read(), m))
        errclr()
        ctx.sig("metameta", uri)


def kf_quotes(ctx, i, rng):
    """Descriptions with double quotes are written unescaped into string literals of generated C sources."""
    e = gen.Entity("http://onto-ns.com/meta/0.1/KfQuotes", ["n"], [gen.Prop("p", "int32", INT, 4, [], descr='the "quoted" word')], "d", {"n": "d"})
    meta = gen.py_meta(e)
    t = take_str(C.tgen_readfile(take_str(C.dlite_codegen_template_file(b"c-source"))))
    out = take_str(C.dlite_codegen(t, gen.ptr(meta), None)).decode()
    lits = re.findall(r'"(?:[^"\\\n]|\\.)*"', out)
    ctx.check('"the \\"quoted\\" word"' in lits, "unescaped", "string literals of the generated source: %r" % lits[:20])


GROUPS = [("kf-quotes", kf_quotes, 1, 1), ("cases", cases, 300, 1000), ("templates", templates, 8000, 120000), ("errors", errors, 60, 800), ("subs", subs, 150, 2500),
          ("compiled", compiled, 80, 800), ("api", api, 4, 8)]
