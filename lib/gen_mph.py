"""Scripts for minimal perfect hash tables (C16, C17)."""
from vf import Job
from gen_codec import rng_for, unique, rbytes, key, key_forms, TAILS

COLLIDING = [[[120, 86, 52, 18, 254, 202, 173, 11]], [[32, 181, 19, 29, 254, 202, 252, 207]]]
FORMS = ["c", "d", "t", "cd", "cdkm", "m", "k", "cdt"]


def pool(rng, style):
    """A generator of keys."""
    if style == 0:
        return lambda: [rbytes(rng, rng.choice([1, 2, 3, 4, 5, 8]))]
    if style == 1:
        return lambda: key(rng)
    if style == 2:                              # few sub keys, many permutations
        return lambda: [[rng.randrange(3)] for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    if style == 3:                              # repeated sub keys
        def rep():
            s = rbytes(rng, rng.choice([1, 2, 3]))
            return [list(s) for _ in range(rng.choice([2, 2, 3, 4]))]
        return rep
    if style == 4:
        return lambda: [[ord(c) for c in str(rng.randrange(100000))]]
    return lambda: [[0] * rng.choice(range(0, 40))] if rng.random() < .7 else [[0] * rng.choice([0, 1, 1])] * rng.randrange(0, 6)


def near(rng, ks):
    """A key near one of a list."""
    k = [list(s) for s in rng.choice(ks)] if ks else []
    x = rng.randrange(6)
    if x == 0:
        k.append([rng.randrange(256)])
    elif x == 1 and k:
        k.pop()
    elif x == 2 and any(k):
        i = rng.choice([i for i in range(len(k)) if k[i]])
        k[i][rng.randrange(len(k[i]))] ^= 1
    elif x == 3 and len(k) > 1:
        k.reverse()
    elif x == 4 and k:
        i = rng.randrange(len(k))
        k[i] = k[i] + [0]
    else:
        k = key(rng)
    return k


def script(rng, ks, mode, serial, most=60):
    ops = [{"op": "build", "x": ks, "flag": mode, "str": rng.choice(FORMS), "n": rng.randrange(4)}]
    n = 0
    if serial:
        ops.append({"op": "enc", "s": 0})
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append({"op": "parse", "b": rng.choice(TAILS)})
            n += 1
            if rng.random() < .5:
                ops.append({"op": "enc", "s": rng.randrange(n + 1)})
    asked = list(ks) if len(ks) <= most else rng.sample(ks, most)
    asked = [(k, s) for k in asked for s in ([rng.randrange(n + 1)] if n == 0 or len(ks) > 20 else range(n + 1))]
    for _ in range(min(12, 4 + len(ks))):
        k = near(rng, ks)
        asked += [(k, s) for s in range(n + 1)]
    rng.shuffle(asked)
    for k, s in asked:
        f = [x for x in key_forms(k) if x not in "sn"]
        ops.append({"op": "lookup", "bb": k, "str": rng.choice(f), "s": s})
    return {"cfg": {}, "ops": ops}


def cases(ck, serial):
    rng = rng_for(ck, "mph%d" % serial)
    out = []
    for mode, ks in unique(ck.emits["MC_MphTable"]):
        out.append(script(rng, ks, mode, serial))
    sizes = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40]
    for _ in range(160 if not ck.thorough else 2500):
        n = rng.choice(sizes)
        gen = pool(rng, rng.randrange(6))
        ks, tries = [], 0
        while len(ks) < n and tries < 40 * n:
            k = gen()
            tries += 1
            if k not in ks:
                ks.append(k)
        out.append(script(rng, ks, rng.random() < .5, serial))
    for n in ([128, 257, 500] if not ck.thorough else [100, 128, 257, 500, 1000, 1024, 1025, 3000]):
        gen, seen, ks = pool(rng, rng.choice([0, 4])), set(), []
        while len(ks) < n:
            k = gen()
            if str(k) not in seen:
                seen.add(str(k))
                ks.append(k)
        out.append(script(rng, ks, rng.random() < .5, serial))
    for n in [2 ** 16, 70000] + ([2 ** 15, 2 ** 17, 2 ** 18, 65535, 65537] if ck.thorough else []):
        for mode in (True, False):             # step odd: the keys are distinct
            out.append({"cfg": {}, "ops": [{"op": "big", "n": n, "flag": mode, "v": rng.randrange(1 << 30),
                                            "k": rng.choice([1, 1, 3, 65537, 2654435761 % (1 << 31) | 1])}]})
    return out


def build(ck):
    jobs = [Job("Trace_MPH", "mph", cases(ck, False), oplimit=15)]
    hang = [{"cfg": {}, "ops": [{"op": "build", "x": COLLIDING, "flag": True, "str": "c"}]}]
    return jobs + [Job("Trace_MPH", "mph", hang, oplimit=3, shards=1)]


def serial(ck):
    return [Job("Trace_MPH", "mph", cases(ck, True), oplimit=15)]


def murmur(b, seed):
    """Only to make tables that hold keys; what is right is up to the specification."""
    M = 0xffffffff

    def rot(x, r):
        return ((x << r) | (x >> (32 - r))) & M

    def sc(k):
        return rot(k * 0xcc9e2d51 & M, 15) * 0x1b873593 & M

    h, n = seed, len(b) // 4 * 4
    for i in range(0, n, 4):
        h = (rot(h ^ sc(int.from_bytes(b[i:i + 4], "little")), 13) * 5 + 0xe6546b64) & M
    if b[n:]:
        h ^= sc(int.from_bytes(b[n:], "little"))
    return stir(h ^ len(b))


def stir(h):
    M = 0xffffffff
    h = (h ^ h >> 16) * 0x85ebca6b & M
    h = (h ^ h >> 13) * 0xc2b2ae35 & M
    return h ^ h >> 16


def key_hash(k, seed):
    if not k:
        return murmur(b"", seed) ^ 0xffffffff
    if len(k) == 1:
        return murmur(bytes(k[0]), seed)
    h = 0
    for s in k:
        h = (h * 16777619 & 0xffffffff) ^ murmur(bytes(s), seed)
    return stir(h)


def uv(n):
    out = []
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return out + [n]


def word(x):
    return [x >> 16, x & 65535]


def sized(ws):
    return list(len(ws).to_bytes(4, "big")) + [b for w in ws for b in w.to_bytes(4, "big")]


def tables(ck):
    """Layouts of tables and tries (C35)."""
    rng = rng_for(ck, "layout")
    cases, trie = [], []

    def some_seed():
        return rng.choice([0, 1, 18, 32, 65535, 65536, 1 << 31, (1 << 32) - 1, rng.randrange(1 << 32), rng.randrange(1 << 32)])

    def find(k):
        f = [x for x in key_forms(k) if x not in "sn"]
        return {"op": "find", "bb": k, "str": rng.choice(f)}
    for bykey, ks, b in unique(ck.emits["MC_MphLayout"]):
        ops = [{"op": "load", "b": b + rng.choice(TAILS)}]
        for k in ks + [near(rng, ks) for _ in range(3)]:
            ops.append(find(k))
        ops.append({"op": "load", "b": b[:rng.randrange(len(b))]})
        cases.append({"cfg": {}, "ops": ops})
    for _ in range(200 if not ck.thorough else 3000):      # tables with any seeds and indices
        gen = pool(rng, rng.randrange(6))
        ks = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
            k = gen()
            if k not in ks:
                ks.append(k)
        n0, n1 = (rng.choice([1, 1, 2, 4, 16, 300 if rng.random() < .1 else 8]) for _ in range(2))
        l0 = [some_seed() for _ in range(n0)]
        l1 = [rng.choice([0, len(ks), 65536, (1 << 32) - 1]) if rng.random() < .1 else rng.randrange(len(ks) or 1)
              for _ in range(n1)]
        for i, k in enumerate(ks):                          # put most of them where they belong
            if rng.random() < .8:
                l1[key_hash(k, l0[key_hash(k, 0) & (n0 - 1)]) & (n1 - 1)] = i
        b = sized(l0) + list((n0 - 1).to_bytes(4, "big")) + sized(l1) + list((n1 - 1).to_bytes(4, "big"))
        if rng.random() < .5:
            b = [1] + b + list(len(ks).to_bytes(4, "big")) + [x for k in ks for x in uv(len(k)) + [y for s in k for y in uv(len(s)) + s]]
        else:
            seed = some_seed()
            b = [0] + b + list(seed.to_bytes(4, "big")) + sized([key_hash(k, seed) for k in ks])
        ops = [{"op": "load", "b": b + rng.choice(TAILS)}]
        for k in ks + [near(rng, ks) for _ in range(3)]:
            ops.append(find(k))
        if rng.random() < .3:
            ops.append({"op": "load", "b": b[:rng.randrange(len(b))]})
        cases.append({"cfg": {}, "ops": ops})
    for _ in range(80 if not ck.thorough else 1000):        # tables of the code
        gen, ks = pool(rng, rng.choice([0, 1, 2, 4, 5])), []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 17, 33, 64])):
            k = gen()
            if k not in ks:
                ks.append(k)
        ops = [{"op": "make", "x": ks, "flag": rng.random() < .5, "str": rng.choice(FORMS)}]
        for k in rng.sample(ks, min(4, len(ks))) + [near(rng, ks) for _ in range(3)]:
            ops.append(find(k))
        cases.append({"cfg": {}, "ops": ops})
    for _ in range(10 if not ck.thorough else 100):         # hashes
        ops = []
        for _ in range(40):
            if rng.random() < .5:
                ops.append({"op": "murmur", "l": word(some_seed()),
                            "b": rbytes(rng, rng.choice(list(range(20)) + [63, 64, 65, 100]))})
            else:
                k = key(rng)
                f = [x for x in key_forms(k) if x not in "sn"]
                ops.append({"op": "khash", "l": word(some_seed()), "bb": k, "str": rng.choice(f)})
        cases.append({"cfg": {}, "ops": ops})
    return [Job("Trace_MphLayout", "layout", cases)]
