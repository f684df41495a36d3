"""P21: dimension expressions evaluate to their arithmetic value."""
import ctypes as c, re
from dl import *
import gen

RULE = "distinct (operators, nesting, outcome, buffer class) evaluations observed"
PREC = {"|": 1, "&": 2, "=": 3, "!": 4, ">": 5, "<": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "^": 8}
INT_MIN, INT_MAX = -2**31, 2**31 - 1


class Var(c.Structure):
    _fields_ = [("name", c.c_char_p), ("value", c.c_int)]


class Err(Exception):
    pass


def apply(op, a, b):
    if op == "|":
        return int(bool(a) or bool(b))
    if op == "&":
        return int(bool(a) and bool(b))
    if op in "=!><":
        return int({"=": a == b, "!": a != b, ">": a > b, "<": a < b}[op])
    if op in "/%":
        if b == 0:
            raise Err("division by zero")
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)      # truncation as in C
        v = q if op == "/" else a - q * b
    elif op == "^":
        if b < 0:
            raise Err("negative exponent")
        if abs(a) > 1 and b > 31:
            raise Err("overflow")
        v = a ** min(b, 62 + b % 2) if abs(a) <= 1 else a ** b
    else:
        v = {"+": a + b, "-": a - b, "*": a * b}[op]
    if not INT_MIN <= v <= INT_MAX:
        raise Err("overflow")
    return v


def value(t, env):
    if t[0] == "n":
        return t[2]
    if t[0] == "v":
        return env[t[1]]
    return apply(t[1], value(t[2], env), value(t[3], env))


def tree(rng, depth, names, ops):
    if depth == 0 or rng.random() < .2:
        if names and rng.random() < .4:
            return ("v", rng.choice(names))
        v = rng.choice([0, 1, 2, 3, 5, 7, 10, 17, 100, rng.randint(0, 1000), rng.choice([INT_MAX, 65536, 46341, 46340])])
        f = rng.choice(["%d"] * 5 + ["0x%x", "0x%X", "0%o"])
        return ("n", f % v, v)
    op = rng.choice(ops)
    return ("o", op, tree(rng, depth - 1, names, ops), tree(rng, depth - 1, names, ops))


def ops_of(t):
    return {t[1]} | ops_of(t[2]) | ops_of(t[3]) if t[0] == "o" else set()


def show(t, rng, extra=.1):
    """Text of the expression with only the parentheses it needs (and some more)."""
    if t[0] != "o":
        s = t[1]
    else:
        op, p = t[1], PREC[t[1]]

        def sub(x, right):
            s = show(x, rng, extra)
            if x[0] == "o":
                q = PREC[x[1]]
                # chains of powers and of = and ! are always made explicit
                if q < p or (q == p and (right or op == "^")) or ({op, x[1]} == {"=", "!"}):
                    return par(s, rng)
            return s
        s = sub(t[2], False) + sp(rng) + op + sp(rng) + sub(t[3], True)
    return par(s, rng) if rng.random() < extra else s


def sp(rng):
    return rng.choice(["", "", "", " ", "  ", "\t", "\n"])


def par(s, rng):
    return "(" + sp(rng) + s + sp(rng) + ")"


def call(ctx, rng, text, env, names):
    """Run in exact-size buffers; returns (value, error or None)."""
    vs = (Var * max(1, len(env)))()
    keep = []
    order = list(env)
    rng.shuffle(order)
    for k, n in enumerate(order):
        b = n.encode()
        q = (c.c_char * (len(b) + 1)).from_buffer_copy(b + b"\0")
        keep.append(q)
        vs[k].name, vs[k].value = c.cast(q, c.c_char_p), env[n]
    raw = text.encode() + b"\0"
    ex = (c.c_char * len(raw)).from_buffer_copy(raw)
    out = []
    full = None
    for n in (256, None, rng.choice([0, 1, 2, 5, 20])):
        e = buf(n) if n else None
        if n:
            c.memset(e, 0x5a, n)
        r = C.infixcalc(c.cast(ex, c.c_char_p), c.byref(vs) if env else None, len(env), e, n or 0)
        out.append(r)
        if n:
            ctx.check(b"\0" in e.raw, "error-unterminated", n)
            if n == 256:
                full = e.value
            else:
                ctx.eq(e.value, full[:n-1], "error-text", n)
    ctx.eq(out[1:], [out[0]] * 2, "result-depends-on-buffer", text)
    return out[0], full or None


def g_eval(ctx, i, rng):
    for _ in range(60):
        names = []
        for _ in range(rng.randint(0, 4)):
            n = gen.ident(rng, rng.choice([1, 2, 3, 8]))
            names.append(n if rng.random() < .7 or not names else rng.choice(names) + rng.choice("a_1"))
        env = {n: rng.choice([0, 1, 2, 3, 4, 7, -1, -5, rng.randint(-50, 50), INT_MAX, INT_MIN + 1]) for n in names}
        ops = rng.choice(["+-*/", "+-*/%", "+-*/%^", "|&=!><", "|&=!><+-*/%^", "+*", "^*", "=!"])
        t = tree(rng, rng.choice([0, 1, 1, 2, 3, 4, 6]), names, ops)
        text = rng.choice(["", " ", "\t "]) + show(t, rng) + rng.choice(["", " "])
        try:
            want = value(t, env)
        except Err as ex:
            want = str(ex)
        r, err = call(ctx, rng, text, env, names)
        if isinstance(want, str):
            ctx.check(err is not None and r == INT_MIN, "no-error:" + want, (text, env, r))
        else:
            ctx.check(err is None, "spurious-error", (text, env, err))
            ctx.eq(r, want, "value", (text, env))
        ctx.sig(tuple(sorted(ops_of(t))), "(" in text, want if isinstance(want, str) else (want > 0) - (want < 0))
        used = set(re.findall(r"[A-Za-z_]\w*", re.sub(r"\b0[xX][0-9a-fA-F]+", "0", text)))
        for n in set(names) | {gen.ident(rng, 1)}:
            ctx.eq(bool(C.infixcalc_depend(text.encode(), n.encode())), n in used, "depend", (text, n))


def g_long(ctx, i, rng):
    """Long and deep expressions (the stacks grow)."""
    n = rng.choice([63, 64, 65, 127, 128, 129, 200, 1000, 5000])
    k = rng.randrange(4)
    if k == 0:
        vals = [rng.randint(0, 1000) for _ in range(n)]
        text, want = "+".join(map(str, vals)), sum(vals)
    elif k == 1:
        text, want = "(" * n + "7" + ")" * n, 7
    elif k == 2:
        text, want = "(1+" * n + "1" + ")" * n, n + 1
    else:
        vals = [rng.randint(0, 9) for _ in range(n)]
        text, want = "-".join(map(str, vals)), vals[0] - sum(vals[1:])
    r, err = call(ctx, rng, text, {}, [])
    ctx.eq((r, err), (want, None), "long", (k, n))
    r, err = call(ctx, rng, text + "+", {}, [])
    ctx.check(err and r == INT_MIN, "long-error", (k, n))
    ctx.sig("long", k, n)


def g_bad(ctx, i, rng):
    """Malformed expressions are errors."""
    for _ in range(60):
        names = [gen.ident(rng, 3) for _ in range(2)]
        env = {n: rng.randint(0, 9) for n in names}
        t = tree(rng, rng.randint(0, 3), names, "+-*")
        text = show(t, rng)
        toks = re.findall(r"[A-Za-z_]\w*|\d\w*|[^\s\w]", text)
        k = rng.randrange(9)
        if k == 0:                                   # one parenthesis too many
            toks.insert(rng.randint(0, len(toks)), rng.choice("()"))
        elif k == 1:                                 # operator too many or too few
            j = rng.randrange(len(toks))
            if re.match(r"\w", toks[j]):
                del toks[j]
            else:
                toks.insert(rng.choice([0, len(toks)]), rng.choice("+-*/%^<>=!&|"))
        elif k == 2:                                 # operand too many
            toks.insert(rng.randint(0, len(toks)), "1")
        elif k == 3:                                 # unknown variable
            toks = toks + ["+", names[0] + rng.choice("_xY0")] if rng.random() < .5 else [names[0][:-1] + "$", "*"] + toks
        elif k == 4:                                 # bad character
            toks.insert(rng.randint(0, len(toks)), rng.choice(["#", "$", "@", "~", "\\", "\x01", "\x7f", "?", ":", ",", ";",
                                                               "[", "]", "{", "}", "'", "\"", ".", "`"]))
        elif k == 5:
            toks = rng.choice([[], ["("], [")"], ["(", ")"], ["+"], [" "], ["-", "1"], ["(", "-", "1", ")"]])
        elif k == 6:                                 # number out of range
            toks = toks + ["+", rng.choice(["2147483648", "99999999999999999999", "0x80000000", "0xfffffffffffffffffff"])]
        elif k == 7:
            toks = toks + ["/", "(", names[0], "-", names[0], ")"]
        else:
            toks = toks + ["%", "0"]
        bad = " ".join(toks)
        if k == 2 and rng.random() < .5 and "(" not in bad:
            bad = bad.replace("1 ", "1\t")
        r, err = call(ctx, rng, bad, env, names)
        ctx.check(err and r == INT_MIN, "malformed-accepted:%d" % k, (bad, env, r))
        ctx.sig("bad", k, len(toks))


def g_fuzz(ctx, i, rng):
    """Arbitrary text: no memory errors, and an error leaves a message."""
    for _ in range(100):
        text = "".join(rng.choice("0123456789abx_()+-*/%^<>=!&| \t.") for _ in range(rng.randint(0, 40)))
        env = {"a": 3, "b": -2, "x": 0}
        r, err = call(ctx, rng, text, env, list(env))
        if err:
            ctx.eq(r, INT_MIN, "error-value", text)
        ctx.sig("fuzz", bool(err), len(text) // 8)


def g_shape(ctx, i, rng):
    """Shape expressions of metadata give the shapes of its instances."""
    nd = rng.randint(1, 3)
    dims = []
    while len(dims) < nd:
        d = gen.ident(rng, rng.choice([1, 2, 4]))
        if d not in dims:
            dims.append(d)
    trees = []
    for _ in range(rng.randint(1, 4)):
        while True:
            t = tree(rng, rng.randint(1, 3), dims, "+-*/%<>=")
            text = show(t, rng)
            if any(re.search(r"\b%s\b" % d, text) for d in dims):
                break
        trees.append((t, text))
    e = gen.Entity(gen.meta_uri(rng), dims, [gen.Prop("p%d_" % k, "int8", INT, 1, [tx]) for k, (t, tx) in
                                             enumerate(trees)])
    meta = gen.c_meta(e)
    if not ctx.check(meta, "shape-meta", lambda: (C.dlite_errmsg(), [t[1] for t in trees])):
        return
    for _ in range(4):
        vals = [rng.randint(0, 6) for _ in dims]
        env = dict(zip(dims, vals))
        try:
            want = [value(t, env) for t, _ in trees]
            if max(want) > 10**6:
                continue
            if min(want) < 0:
                want = None
        except Err:
            want = None
        inst = gen.c_instance(meta, vals)
        ctx.eq(bool(inst), want is not None, "shape-create", lambda: (vals, [t[1] for t in trees], C.dlite_errmsg()))
        if inst and want is not None:
            ctx.eq([S.s_prop_dim(inst, k, 0) for k in range(len(trees))], want, "shape", (vals, [t[1] for t in trees]))
        if inst:
            C.dlite_instance_decref(inst)
        ctx.sig("shape", want is None, len(trees))
    errclr()
    C.dlite_meta_decref(meta)
    errclr()


GROUPS = [
    ("eval", g_eval, 160, 4000),
    ("long", g_long, 48, 400),
    ("bad", g_bad, 80, 2000),
    ("fuzz", g_fuzz, 64, 2000),
    ("shape", g_shape, 160, 3000),
]


def setup():
    quiet()
