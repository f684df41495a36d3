"""P26: digests, random generators and random UUIDs follow their specifications."""
import ctypes as c, hashlib, os, resource, struct, uuid as U
from dl import *
import gen

RULE = "distinct (algorithm, block position classes, seed classes, outcome) observations"
M32, M64 = (1 << 32) - 1, (1 << 64) - 1


def fn(name, restype, *args):
    f = getattr(C, name)
    f.restype, f.argtypes = restype, list(args)
    return f


P, Z, U32, U64, I, D = c.c_void_p, c.c_size_t, c.c_uint32, c.c_uint64, c.c_int, c.c_double


def rotl(x, n):
    return ((x << n) | (x >> (64 - n))) & M64 if n else x


def keccak_f(A):
    R = 1
    for _ in range(24):
        Cc = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        Dd = [Cc[(x + 4) % 5] ^ rotl(Cc[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ Dd[x] for y in range(5)] for x in range(5)]
        x, y = 1, 0
        cur = A[x][y]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x][y] = A[x][y], rotl(cur, (t + 1) * (t + 2) // 2 % 64)
        for y in range(5):
            T = [A[x][y] for x in range(5)]
            for x in range(5):
                A[x][y] = T[x] ^ (~T[(x + 1) % 5] & M64 & T[(x + 2) % 5])
        for j in range(7):
            R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
            if R & 2:
                A[0][0] ^= 1 << ((1 << j) - 1)
    return A


def keccak(data, bits, suffix):
    rate = 200 - bits // 4
    A = [[0] * 5 for _ in range(5)]
    data = bytearray(data + bytes([suffix]))
    data += bytes(-len(data) % rate)
    data[-1] |= 0x80
    for k in range(0, len(data), rate):
        for j in range(rate // 8):
            A[j % 5][j // 5] ^= int.from_bytes(data[k + 8 * j:k + 8 * j + 8], "little")
        A = keccak_f(A)
    out = b"".join(A[j % 5][j // 5].to_bytes(8, "little") for j in range(25))
    return out[:bits // 8]


def splits(rng, n):
    """Cut points of n bytes, often at block boundaries of the digests."""
    k = rng.choice([0, 0, 1, 2, 3, 8, 30])
    if k == 30 and n < 600:
        return list(range(1, n + 1))                 # byte by byte
    c0 = [rng.choice([rng.randint(0, n), rng.choice([1, 7, 8, 9, 55, 56, 63, 64, 65, 72, 104, 119, 120, 128, 136, 144])])
          for _ in range(k)]
    return sorted(min(x, n) for x in c0)


LENS = [0, 1, 2, 7, 8, 9, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137,
        143, 144, 145, 200, 255, 256, 271, 272, 273, 1000, 4096]


def data(rng):
    n = rng.choice(LENS) if rng.random() < .7 else rng.randint(0, 700)
    k = rng.randrange(4)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    return rng.randbytes(n)


def feed(update, ctx, d, cuts):
    a = 0
    for b in cuts + [len(d)]:
        part = mem(d[a:b])
        update(ctx, part.p, b - a)
        a = b


def g_digest(ctx, i, rng):
    mi, mu, mf = fn("MD5Init", None, P), fn("MD5Update", None, P, P, c.c_ulong), fn("MD5Final", None, P, P)
    si, su, sf = fn("SHA1Init", None, P), fn("SHA1Update", None, P, P, U32), fn("SHA1Final", None, P, P)
    s1 = fn("SHA1", None, P, P, U32)
    for _ in range(25):
        d = data(rng)
        cuts = splits(rng, len(d))
        st, out = mem(512), mem(16)
        mi(st.p)
        feed(mu, st.p, d, cuts)
        mf(out.p, st.p)
        ctx.eq(out.raw, hashlib.md5(d).digest(), "md5", (len(d), cuts))
        st, out = mem(512), mem(20)
        si(st.p)
        feed(su, st.p, d, cuts)
        sf(out.p, st.p)
        ctx.eq(out.raw, hashlib.sha1(d).digest(), "sha1", (len(d), cuts))
        src, out = mem(d), mem(21)
        s1(out.p, src.p, len(d))
        ctx.eq(out.raw[:20], hashlib.sha1(d).digest(), "sha1-call", len(d))
        ctx.eq(src.raw, d, "sha1-input", len(d))
        ctx.sig("md", len(d) % 64, min(len(d) // 64, 3), len(cuts))
    ctx.sample("md5/sha1 of %d bytes cut at %s" % (len(d), cuts[:5]))


def g_sha3(ctx, i, rng):
    init, upd, fin = fn("sha3_Init", I, P, c.c_uint), fn("sha3_Update", None, P, P, Z), fn("sha3_Finalize", P, P)
    inits = {b: fn("sha3_Init%d" % b, None, P) for b in (256, 384, 512)}
    flag = fn("sha3_SetFlags", I, P, I)
    one = fn("sha3_HashBuffer", I, c.c_uint, I, P, c.c_uint, P, c.c_uint)
    for _ in range(12):
        d = data(rng)
        bits = rng.choice([256, 384, 512])
        kk = rng.random() < .3
        cuts = splits(rng, len(d))
        want = keccak(d, bits, 1) if kk else hashlib.new("sha3_%d" % bits, d).digest()
        st = mem(8 + 200 + 12 + 4)
        if rng.random() < .5:
            ctx.eq(init(st.p, bits), 0, "sha3-init", bits)
        else:
            inits[bits](st.p)
        if kk:
            ctx.eq(flag(st.p, 1), 1, "sha3-flags")
        elif rng.random() < .3:
            flag(st.p, 0)
        feed(upd, st.p, d, cuts)
        h = fin(st.p)
        ctx.eq(c.string_at(h, bits // 8), want, "keccak" if kk else "sha3", (bits, len(d), cuts))
        n = rng.choice([0, 1, 20, bits // 8 - 1, bits // 8, bits // 8 + 1, 100])
        out, src = mem(b"\xa5" * n), mem(d)
        ctx.eq(one(bits, int(kk), src.p, len(d), out.p, n), 0, "hashbuffer-status", bits)
        ctx.eq(out.raw, want[:n] + b"\xa5" * (n - bits // 8), "hashbuffer", (bits, n, len(d)))
        bad = rng.choice([0, 1, 128, 224, 255, 257, 320, 1024, 512 + 8])
        ctx.check(one(bad, 0, src.p, len(d), out.p, n) != 0 and init(st.p, bad) != 0, "sha3-bad-size", bad)
        rate = 200 - bits // 4
        ctx.sig("sha3", bits, kk, len(d) % rate, len(cuts))
    ctx.sample("sha3/%d of %d bytes in %d parts" % (bits, len(d), len(cuts) + 1))


def g_pathshash(ctx, i, rng):
    ph = fn("pathshash", I, P, I, P, P)
    init, app, deinit = fn("fu_paths_init", I, P, P), fn("fu_paths_append", I, P, P), fn("fu_paths_deinit", None, P)
    sm, nm, em = fn("fu_startmatch", P, P, P), fn("fu_nextmatch", P, P), fn("fu_endmatch", I, P)
    for k in range(4):
        paths = mem(bytes(64))
        init(paths.p, None)
        want = []
        pat = rng.choice([b"*", b"*.json", b"a*", b"?.json", b"[ab]*"])
        import fnmatch
        for j in range(rng.choice([0, 1, 2, 3])):
            dd = os.path.join(ctx.work, "ph%d_%d_%d" % (i, k, j))
            os.makedirs(dd, exist_ok=True)
            for _ in range(rng.randint(0, 6)):
                open(os.path.join(dd, rng.choice("abc") + rng.choice(["", "x", "yy"]) + rng.choice(["", ".json", ".txt"])), "w").close()
            dz = mem.z(dd)
            app(paths.p, dz.p)
            want.append(sorted(dd + "/" + f for f in os.listdir(dd) if fnmatch.fnmatchcase(f, pat.decode())))
        pz = mem.z(pat)
        it, got = sm(pz.p, paths.p), []
        ctx.check(it or not want, "startmatch")
        while it:
            s = nm(it)
            if not s:
                break
            got.append(c.string_at(s).decode())
        if it:
            em(it)
        order = [sorted(g for g in got if g.rsplit("/", 1)[0] == w[0].rsplit("/", 1)[0] and g.rsplit("/", 1)[1] not in (".", "..")) for w in want if w]
        ctx.eq(order, [w for w in want if w], "matched-files", pat)
        for n in (32, 48, 64):
            out = mem(n)
            if not it and not want:
                continue
            ctx.eq(ph(out.p, n, paths.p, pz.p), 0, "pathshash-status", n)
            ctx.eq(out.raw, hashlib.new("sha3_%d" % (8 * n), "".join(got).encode()).digest(), "pathshash", (n, pat))
        bad = rng.choice([0, 1, 20, 31, 65])
        b64 = mem(64)
        ctx.check(ph(b64.p, bad, paths.p, pz.p) != 0, "pathshash-bad-size", bad)
        errclr()
        deinit(paths.p)
        ctx.sig("pathshash", len(want), sum(map(len, want)), pat)


# ---------------------------------------------------------------- random generators

SCONST = [0x37e1c9b5e1a2b843, 0x56e9d7a3d6234c87, 0xc361be549a24e8c7, 0xd25b9768a1582d7b, 0x18b2547d3de29b67, 0xc1752836875c29ad,
          0x4e85ba61e814cd25, 0x17489dc6729386c1, 0x7c1563ad89c2a65d, 0xcdb798e4ed82c675, 0xd98b72e4b4e682c1, 0xdacb7524e4b3927d,
          0x53a8e9d7d1b5c827, 0xe28459db142e98a7, 0x72c1b3461e4569db, 0x1864e2d745e3b169, 0x6a2c143bdec97213, 0xb5e1d923d741a985,
          0xb4875e967bc63d19, 0x92b64d5a82db4697, 0x7cae812d896eb1a5, 0xb53827d41769542d, 0x6d89b42c68a31db5, 0x75e26d434e2986d5,
          0x7c82643d293cb865, 0x64c3bd82e8637a95, 0x2895c34d9dc83e61, 0xa7d58c34dea35721, 0x3dbc5e687c8e61d5, 0xb468a235e6d2b193]


def msws(st):
    x, w, s = st
    w = (w + s) & M64
    x = (x * x + w) & M64
    xx = x
    x = (x >> 32 | x << 32) & M64
    return (x, w, s), xx


def digits_ok(s):
    """Odd last digit, first eight and second eight hexadecimal digits: none repeats within its half (Widynski 2022)."""
    h = "%016x" % s
    return s & 1 and "0" not in h[:15] and len(set(h[:8])) == 8 and len(set(h[8:])) == 8


def seeds(rng):
    return rng.choice([1, 2, 3, 4, 99999999, 100000000, 100000001, 2 ** 32 - 1, 2 ** 32, 2 ** 63, M64,
                       rng.getrandbits(64) | 1, rng.getrandbits(64) | 2, rng.getrandbits(32) | 1, rng.randint(1, 1000)])


def g_mwc(ctx, i, rng):
    sr, rr = fn("srand_mwc_r", I, P, U32), fn("rand_mwc_r", U32, P)
    s0, r0 = fn("srand_mwc", I, U32), fn("rand_mwc", U32)
    for _ in range(20):
        seed = seeds(rng) & M32 or 1
        st, st2 = mem(8), mem(8)
        ctx.eq((sr(st.p, seed), sr(st2.p, seed), s0(seed)), (0, 0, 0), "mwc-seed", seed)
        up, lo = struct.unpack("II", st.raw)
        ctx.check(up and lo, "mwc-nonzero-state", seed)
        ctx.eq(st2.raw, st.raw, "mwc-same-state", seed)
        a, b, d = [], [], []
        want = []
        for _ in range(50):
            lo = (18000 * (lo & 0xffff) + (lo >> 16)) & M32
            up = (36969 * (up & 0xffff) + (up >> 16)) & M32
            want.append(((up << 16) + lo) & M32)
            a.append(rr(st.p)), d.append(r0())
        for _ in range(50):
            b.append(rr(st2.p))
        ctx.eq((a, b, d), (want, want, want), "mwc-sequence", seed)
        ctx.sig("mwc", seed.bit_length(), seed & 1)
    first = set()
    for _ in range(6):
        ctx.eq(sr(st.p, 0), 0, "mwc-auto-seed")
        first.add(tuple(rr(st.p) for _ in range(4)))
        ctx.eq(s0(0), 0, "mwc-auto-seed")
        first.add(tuple(r0() for _ in range(4)))
    ctx.check(len(first) >= 11, "mwc-auto-seed-distinct", first)


def g_msws(ctx, i, rng):
    s32, r32, d32 = fn("srand_msws32_r", I, P, U64), fn("rand_msws32_r", U32, P), fn("drand_msws32_r", D, P)
    s64, r64, d64 = fn("srand_msws64_r", I, P, U64), fn("rand_msws64_r", U64, P), fn("drand_msws64_r", D, P)
    g = {n: fn(n, t, *a) for n, t, a in [("srand_msws32", I, [U64]), ("rand_msws32", U32, []), ("drand_msws32", D, []),
                                         ("srand_msws64", I, [U64]), ("rand_msws64", U64, []), ("drand_msws64", D, [])]}
    for _ in range(12):
        seed = seeds(rng)
        a, b = mem(24), mem(48)
        ctx.eq((s32(a.p, seed), g["srand_msws32"](seed), s64(b.p, seed), g["srand_msws64"](seed)), (0,) * 4, "msws-seed", seed)
        x = struct.unpack("3Q", a.raw)
        y = struct.unpack("6Q", b.raw)
        ctx.check(x[0] == x[1] == x[2] and y[0] == y[1] == y[2] and y[3] == y[4] == y[5], "msws-initial-state", seed)
        ctx.check(digits_ok(x[2]) and digits_ok(y[2]) and digits_ok(y[5]), "msws-constant", (seed, [hex(v) for v in (x[2], y[2], y[5])]))
        ctx.check(y[2] != y[5], "msws64-two-constants", seed)
        p, q, r = x, y[:3], y[3:]
        for k in range(40):
            p, v = msws(p)
            v = p[0] & M32
            if k % 3:
                ctx.eq((r32(a.p), g["rand_msws32"]()), (v, v), "msws32-sequence", (seed, k))
            else:
                ctx.eq((d32(a.p), g["drand_msws32"]()), (v / 2. ** 32,) * 2, "msws32-double", (seed, k))
            q, xx = msws(q)
            r, _ = msws(r)
            v = xx ^ r[0]
            if k % 3:
                ctx.eq((r64(b.p), g["rand_msws64"]()), (v, v), "msws64-sequence", (seed, k))
            else:
                ctx.eq((d64(b.p), g["drand_msws64"]()), ((v >> 11) / 2. ** 53,) * 2, "msws64-double", (seed, k))
        ctx.sig("msws", seed.bit_length(), seed & 3)
    # different seeds give different streams; seed zero gives a fresh one
    got = set()
    for k in range(12):
        ctx.eq((s32(a.p, 0), s64(b.p, 0)), (0, 0), "msws-auto-seed")
        ctx.check(digits_ok(struct.unpack("3Q", a.raw)[2]), "msws-auto-constant")
        got.add(r32(a.p) << 32 | r32(a.p))
        got.add(r64(b.p))
    ctx.eq(len(got), 24, "msws-auto-seed-distinct")
    got = set()
    n0 = rng.randint(1, 2 ** 40)
    for k in range(100):
        s64(b.p, n0 + k)
        got.add(r64(b.p))
    ctx.eq(len(got), 100, "msws64-seeds-distinct", n0)


def stats(ctx, words, bits, what):
    """Monobit, per-bit balance and repetition with bounds a true random source exceeds less than once in 1e9 runs."""
    n = len(words)
    ones = sum(bin(w).count("1") for w in words)
    ctx.check(abs(ones - n * bits / 2) < 3.5 * (n * bits) ** .5, what + "-monobit", ones / (n * bits))
    for b in range(bits):
        k = sum(w >> b & 1 for w in words)
        ctx.check(abs(k - n / 2) < 3.7 * n ** .5, what + "-bit-bias", (b, k / n))
    if bits == 64:
        ctx.eq(len(set(words)), n, what + "-repeats")
    else:
        ctx.check(len(set(words)) >= n - 6 - n * n / 2 ** 32, what + "-repeats", n - len(set(words)))
    serial = sum(bin(words[k] ^ words[k + 1]).count("1") for k in range(n - 1))
    ctx.check(abs(serial - (n - 1) * bits / 2) < 3.5 * (n * bits) ** .5, what + "-serial", serial)


def g_stat(ctx, i, rng):
    n = 4000 if ctx.tier == "quick" else 20000
    g = fn("srand_msws64", I, U64), fn("rand_msws64", U64), fn("srand_msws32", I, U64), fn("rand_msws32", U32), \
        fn("srand_mwc", I, U32), fn("rand_mwc", U32)
    seed = rng.choice([0, seeds(rng)])
    g[0](seed), g[2](seed), g[4](seed & M32)
    stats(ctx, [g[1]() for _ in range(n)], 64, "msws64")
    stats(ctx, [g[3]() for _ in range(n)], 32, "msws32")
    stats(ctx, [g[5]() for _ in range(n)], 32, "mwc")
    rs = fn("random_seed", I, P, Z)
    w = []
    for _ in range(n // 8):
        b = mem(64)
        ctx.eq(rs(b.p, 64), 0, "random_seed")
        w += struct.unpack("8Q", b.raw)
    stats(ctx, w, 64, "random_seed")
    d = fn("drand_msws64", D)
    v = [d() for _ in range(n)]
    ctx.check(all(0 <= x < 1 for x in v), "drand-range")
    ctx.check(abs(sum(v) / n - .5) < 6.2 * (1 / 12 / n) ** .5, "drand-mean", sum(v) / n)
    ctx.note("random words examined", 4 * n)
    ctx.sig("stat", seed)


def g_seed(ctx, i, rng):
    """random_seed fills exactly the requested bytes, also without a usable /dev/urandom."""
    rs = fn("random_seed", I, P, Z)
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64, 1000]:
        for fallback in (0, 1):
            seen = bytearray(n)
            for _ in range(6):
                b = mem(n)
                if fallback:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
                try:
                    r = rs(b.p, n)
                finally:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
                ctx.eq(r, 0, "random_seed-status", (n, fallback))
                raw = b.raw
                for k in range(n):
                    seen[k] |= raw[k]
                if n >= 64:
                    ctx.check(len(set(raw)) > 20, "random_seed-bytes", (n, fallback))
                    ctx.check(len(set(raw[4 * k:4 * k + 4] for k in range(n // 4))) >= n // 4 - 1, "random_seed-repeats", (n, fallback))
            if n >= (64 if fallback else 8):
                ctx.check(seen.count(0) <= (1 if not fallback else n // 8), "random_seed-filled", (n, fallback, bytes(seen)))
            ctx.sig("seed", n, fallback)


# ---------------------------------------------------------------- UUIDs

class UU(c.Structure):
    _fields_ = [("b", c.c_uint8 * 16)]


def native(h):
    b = U.UUID(h).bytes
    return struct.pack("=IHH", *struct.unpack(">IHH", b[:8])) + b[8:]


def g_uuid(ctx, i, rng):
    fs, ts, cmp_, isu = fn("uuid_from_string", I, P, P, Z), fn("uuid_as_string", None, P, P), fn("uuid_compare", I, P, P), fn("isuuid", I, P)
    gen4, rnd = fn("uuid4_generate", I, P), fn("uuid_create_random", I, P)
    v3, v5 = fn("uuid_create_md5_from_name", None, P, UU, P, I), fn("uuid_create_sha1_from_name", None, P, UU, P, I)
    spaces = {n: c.string_at(c.addressof(c.c_char.in_dll(C, "NameSpace_" + n)), 16) for n in ("DNS", "URL", "OID", "X500")}
    for n, b in spaces.items():
        ctx.eq(b, native(str(getattr(U, "NAMESPACE_" + n))), "namespace-" + n)
    last = None
    for _ in range(40):
        u = str(U.UUID(int=rng.choice([0, 2 ** 128 - 1, rng.getrandbits(128), 1 << rng.randrange(128)])))
        s = gen.uuid_case(rng, u)
        tail = rng.choice([b"", b"x", b"/abc"])
        z, b, o = mem.z(s.encode() + tail), mem(16), mem(37)
        ctx.eq(fs(b.p, z.p, 36), 0, "from_string", s)
        ctx.eq(b.raw, native(u), "from_string-value", s)
        ctx.eq(fs(None, z.p, 36), 0, "from_string-null", s)
        ctx.check(isu(z.p), "isuuid", s)
        ts(b.p, o.p)
        ctx.eq(o.raw, u.encode() + b"\0", "as_string", s)
        if last:
            ctx.eq(cmp_(b.p, last[1].p), (u > last[0]) - (u < last[0]), "compare", (u, last[0]))
        ctx.eq(cmp_(b.p, b.p), 0, "compare-equal", u)
        if last is None or rng.random() < .5:
            last = u, b
        else:                                        # a neighbour differing in one digit
            k = rng.choice([j for j in range(36) if u[j] != "-"])
            w = u[:k] + rng.choice("0123456789abcdef") + u[k+1:]
            b2 = mem(native(w))
            ctx.eq(cmp_(b.p, b2.p), (u > w) - (u < w), "compare-near", (u, w))
        # nearly UUIDs
        m = list(s)
        k = rng.randrange(36)
        m[k] = rng.choice("gG-_ x0") if rng.random() < .8 else "\xff"
        t = "".join(m)
        t = rng.choice([t, s[:rng.randint(0, 35)], s.replace("-", "", 1), s.replace("-", "_"), "{" + s, " " + s])
        good = len(t) >= 36 and all((ch == "-") if j in (8, 13, 18, 23) else ch in "0123456789abcdefABCDEF" for j, ch in enumerate(t[:36]))
        tz = mem.z(t.encode("latin1"))
        ctx.eq(isu(tz.p) != 0, good, "isuuid-near", t)
        n = rng.choice([36, 36, 0, 35, 37, len(t)])
        b3 = mem(b"\x5a" * 16)
        r = fs(b3.p, tz.p, n)
        ctx.eq(r == 0, good and n == 36, "from_string-near", (t, n))
        if r:
            ctx.eq(b3.raw, b"\x5a" * 16, "from_string-untouched", t)
        ctx.sig("uuid", good, n == 36, len(t) - 36 if abs(len(t) - 36) < 3 else 9)
        # name based
        name = gen.text(rng).encode() if rng.random() < .6 else rng.randbytes(rng.choice([0, 1, 40, 47, 48, 49, 103, 111, 112, 200]))
        sp = rng.choice(list(spaces)) if rng.random() < .6 else None
        ns = getattr(U, "NAMESPACE_" + sp) if sp else U.UUID(int=rng.getrandbits(128))
        nb = UU.from_buffer_copy(native(str(ns)))
        nm, b5 = mem(name), mem(16)
        for f, v, h in ((v3, 3, hashlib.md5), (v5, 5, hashlib.sha1)):
            f(b5.p, nb, nm.p, len(name))
            want = U.UUID(bytes=h(ns.bytes + name).digest()[:16], version=v)
            ctx.eq(b5.raw, native(str(want)), "uuid-v%d" % v, (ns, name))
    seen = set()
    for _ in range(600):
        o = mem(37)
        ctx.eq(gen4(o.p), 0, "uuid4-status")
        t = o.raw
        w = t[:36].decode()
        ctx.check(t[36:] == b"\0" and U.UUID(w).version == 4 and U.UUID(w).variant == U.RFC_4122 and w == w.lower(), "uuid4-form", t)
        seen.add(w)
        b = mem(16)
        ctx.eq(rnd(b.p), 0, "uuid-random-status")
        ts(b.p, o.p)
        w = o.raw[:36].decode()
        ctx.check(U.UUID(w).version == 4 and U.UUID(w).variant == U.RFC_4122, "uuid-random-form", w)
        seen.add(w)
    ctx.eq(len(seen), 1200, "uuid4-distinct")
    free = [k for k in range(36) if k not in (8, 13, 14, 18, 23)]
    for k in free:
        digs = {w[k] for w in seen}
        ctx.eq(len(digs), 4 if k == 19 else 16, "uuid4-digit-range", k)
    ctx.note("random UUIDs examined", 1200)


def g_process(ctx, i, rng):
    """Fresh processes draw different UUIDs."""
    import subprocess, sys
    code = "import dlite; print('U', dlite.get_uuid(), dlite.get_uuid())"
    seen = []
    for _ in range(3):
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=100)
        ctx.eq(r.returncode, 0, "process", r.stderr[-300:])
        seen += [l.split()[1:] for l in r.stdout.splitlines() if l.startswith("U ")][0]
    ctx.eq(len(set(seen)), 6, "uuid4-across-processes", seen)


GROUPS = [("digest", g_digest, 60, 1500), ("sha3", g_sha3, 60, 1500), ("pathshash", g_pathshash, 30, 300), ("mwc", g_mwc, 20, 200),
          ("msws", g_msws, 40, 600), ("stat", g_stat, 8, 60), ("seed", g_seed, 4, 40), ("uuid", g_uuid, 40, 600), ("process", g_process, 2, 6)]
