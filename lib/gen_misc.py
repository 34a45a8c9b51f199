"""Scripts for consensus times and ids, base58, random ranges, variable-length
items and conversions (C14, C15, C25, C26, C27, C28)."""
from vf import Job
from gen_codec import rng_for, unique, rbytes, chunk, TAILS
from gen_slices import limbs

FIELDS = [(0, 1, 2), (0, 1, 0xffffffff), (0x7fffffff, 0x80000000, 0x80000001), (0, 0x80000000, 0xffffffff),
          (0xffff, 0x10000, 0x10001), (1, 0x100, 0x1000000), (0xfffffffd, 0xfffffffe, 0xffffffff),
          (5, 0x80000005, 0xff000005), (0, 0x7fffffff, 0xffffffff)]
EDGE = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def pack(lists, cfg=None, per=300):
    return chunk(lists, per, cfg)


# -- C14 ---------------------------------------------------------------------
def times(ck, layout=False):
    rng = rng_for(ck, "times")
    lists = []

    def cmp(a, b):
        lists.append([{"op": "tcmp", "ll": a, "x": b, "str": rng.choice("cd"), "str2": rng.choice("cd")}])

    def field():
        return limbs(rng.choice([rng.choice(EDGE), rng.randrange(1 << 32), rng.randrange(4)]), 32)
    if not layout:
        for a, b in unique(ck.emits["MC_Times"]):
            for _ in range(2 if not ck.thorough else 20):
                m = [rng.choice(FIELDS) for _ in range(3)]
                f = lambda t: [limbs(m[i][x[0]], 32) for i, x in enumerate(t)]
                cmp(f(a), f(b))
        for _ in range(2500 if not ck.thorough else 50000):
            n = rng.choice([1, 3, 3])
            a = [field() for _ in range(n)]
            b = list(a)
            for i in range(n):
                if rng.random() < .5:
                    b[i] = field()
            if rng.random() < .05:
                b = [field() for _ in range(4 - n)]
            cmp(a, b)
    seen = [[limbs(x, 32)] for x in EDGE] + [[limbs(x, 32), limbs(y, 32), limbs(z, 32)]
                                             for x in (0, 1, 0x80000000, 0xffffffff) for y in (0, 258, 0xffffffff) for z in (0, 3, 0x80000000)]
    for _ in range(250 if not ck.thorough else 4000):
        seen.append([field() for _ in range(rng.choice([1, 3]))])
    for t in seen:
        o = [{"op": "tenc", "ll": t}]
        for tail in rng.sample(TAILS, 3):
            o.append({"op": "tdec", "ll": t, "n": -1, "b": tail})
        for n in range(5 if len(t) == 1 else 13):
            o.append({"op": "tdec", "ll": t, "n": n, "b": []})
        lists.append(o)
    for m in range(256):
        for n in ((0, 12) if m not in (0, 1, 2, 3) else range(0, 20)):
            lists.append([{"op": "tbad", "b": [m] + rbytes(rng, n)}])
    lists.append([{"op": "tbad", "b": []}])
    rng.shuffle(lists)
    return [Job("Trace_Times", "times", pack(lists, {"layout": layout}))]


# -- C15 ---------------------------------------------------------------------
def ids(ck):
    rng = rng_for(ck, "ids")
    lists = []
    for m in range(256):
        need = 1 + 32 * sum((m >> b) & 1 for b in (7, 6, 5, 4)) + 64 * ((m >> 3) & 1)
        sizes = set([1, 2, 32, 33, 34, need - 1, need, need + 1, need + 32, 193, 225] +
                    [rng.randrange(1, 230) for _ in range(2 if not ck.thorough else 30)])
        if ck.thorough:
            sizes |= set(range(1, 230))
        for n in sorted(x for x in sizes if x > 0):
            b = [m] + [rng.randrange(256) for _ in range(n - 1)]
            o = [{"op": "idnew", "b": b}]
            if n >= need and m and m % 8 == 0:      # accepted: copy, overwrite, look again
                for k in range(rng.choice([1, 2, 3])):
                    o.append({"op": "idcopy", "flag": k > 0})
                    if rng.random() < .7:
                        o.append({"op": "idscribble", "n": rng.choice([255, 1, 128])})
                    o.append({"op": "idread", "flag": True})
            lists.append(o)
    lists.append([{"op": "idnew", "b": []}])
    rng.shuffle(lists)
    return [Job("Trace_Id", "ids", pack(lists))]


# -- C25 ---------------------------------------------------------------------
ALPHABET = [ord(c) for c in "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"]


def base58(ck):
    rng = rng_for(ck, "b58")
    lists = []
    for kind, x in unique(ck.emits["MC_B58"]):
        lists.append([{"op": "b58enc" if kind == "bytes" else "b58dec", "b": x}])
    for n in list(range(0, 70)) + ([80, 100, 128, 200, 255, 256] if not ck.thorough else list(range(70, 300, 3))):
        for style in range(4 if n < 70 else 1):
            z = rng.choice([0, 0, 1, 2, n, n // 2])
            b = [0] * min(z, n) + [rng.randrange(256) for _ in range(max(0, n - z))]
            if style == 1:
                b = [255] * n
            elif style == 2:
                b = [1] + [0] * (n - 1) if n else []
            lists.append([{"op": "b58enc", "b": b}])
    for c in range(256):                         # every character alone and inside
        lists.append([{"op": "b58dec", "b": [c]}, {"op": "b58dec", "b": [rng.choice(ALPHABET), c]},
                      {"op": "b58dec", "b": [c] + [rng.choice(ALPHABET) for _ in range(3)]},
                      {"op": "b58dec", "b": [rng.choice(ALPHABET) for _ in range(9)] + [c] + [ALPHABET[0]] * 3}])
    for _ in range(300 if not ck.thorough else 4000):
        n = rng.choice([1, 2, 3, 5, 10, 20, 45])
        t = [ALPHABET[0]] * rng.choice([0, 0, 1, 3]) + [rng.choice(ALPHABET) for _ in range(n)]
        if rng.random() < .1:
            t[rng.randrange(len(t))] = rng.choice([48, 73, 79, 108, 32, 10, 0, 127, 128, 255, 195])
        lists.append([{"op": "b58dec", "b": t}])
    rng.shuffle(lists)
    return [Job("Trace_B58", "b58", pack(lists))]


# -- C26 ---------------------------------------------------------------------
RBITS = {"int8": 8, "uint8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32, "int64": 64, "uint64": 64}


def rands(ck):
    rng = rng_for(ck, "rand")
    lists = []
    vectors = unique(ck.emits["MC_Rand"])
    for kind, bits in RBITS.items():
        top, half = (1 << bits) - 1, 1 << (bits - 1)

        def draw(lo, hi, n):
            lists.append([{"op": "draw", "kind": kind, "l": limbs(lo, bits), "l2": limbs(hi, bits), "n": n}])
        for n in ([3000000] if bits == 16 else [12000] if bits == 8 else []) + [300] * 5 + [7000] * (bits > 16):
            lists.append([{"op": "any", "kind": kind, "n": n}])
        # the ranges of the model, around zero, the middle and the ends
        for _ in range(60 if not ck.thorough else 600):
            s, lo, hi = rng.choice(vectors)
            base = rng.choice([half, half, 16, top - 32])
            if s != kind.startswith("int") and rng.random() < .5:
                continue
            draw((base + lo) & top, (base + hi) & top, 2000) if 0 <= base + lo < base + hi <= top else None
        for lo, hi in ((0, top), (0, 1), (top - 1, top), (half - 1, half), (half, half + 1), (half - 1, half + 1), (0, half),
                       (half, top), (0, half + 1), (1, top), (half - 1, top), (0, 2), (0, top - 1), (half // 2, half + half // 2 + 1)):
            draw(lo, hi, 12000 if bits == 8 else 8000 if hi - lo > half else 300)
        for _ in range(30 if not ck.thorough else 400):
            a, b = rng.randrange(top + 1), rng.randrange(top + 1)
            if a == b:
                continue
            draw(min(a, b), max(a, b), 250 if bits > 8 else 12000)
        for _ in range(20 if not ck.thorough else 200):
            n = rng.choice([1, 2, 3, 5, 7, 16, 100])
            a = rng.choice([rng.randrange(top + 1), half - n // 2, half - n, 0, top - n])
            if a + n <= top:
                draw(a, a + n, 2000 if n < 50 else 6000)
    rng.shuffle(lists)
    return [Job("Trace_Rand", "rand", pack(lists, per=40))]


# -- C27 ---------------------------------------------------------------------
def varnum(rng):
    if rng.random() < .5:                        # boundaries of the encoded lengths, signed and unsigned
        k = rng.choice([0, 6, 7, 13, 14, 20, 21, 27, 28, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63])
        x = (1 << k) + rng.choice([-2, -1, 0, 1])
        if rng.random() < .4:
            x = -x
    else:
        x = rng.choice([rng.randrange(1 << 64), rng.randrange(256), 0, -1, 1 << 63, (1 << 63) - 1, (1 << 64) - 1])
    return limbs(x % (1 << 64), 64)


def varints(ck, layout=False):
    rng = rng_for(ck, "varints")
    lists = []

    def item():
        k = rng.choice(["int", "uint", "int", "uint", "char", "smv", "nil"])
        if k in ("int", "uint"):
            return {"Kind": k, "L": varnum(rng), "B": []}
        if k == "nil":
            return {"Kind": k, "L": [], "B": []}
        n = rng.choice([0, 1, 2, 5, 20] + ([126, 127, 128, 129, 300] if rng.random() < .2 else []))
        return {"Kind": k, "L": [], "B": rbytes(rng, n)}

    def seq(items, tails):
        lists.append([{"op": "vseq", "x": items}] + [{"op": "vdec", "b": t} for t in tails])
    nums = unique(ck.emits["MC_Varint"]) if "MC_Varint" in ck.emits else []
    for x in nums:
        seq([{"Kind": "uint", "L": x, "B": []}, {"Kind": "int", "L": x, "B": []}], [rng.choice(TAILS)])
    for _ in range(1500 if not ck.thorough else 20000):
        seq([item() for _ in range(rng.choice([1, 1, 2, 3, 6]))], rng.sample(TAILS, 2))
    for n in ([16383, 16384, 65535, 65536] + ([262144] if ck.thorough else [])):
        for k in ("char", "smv"):
            seq([{"Kind": k, "L": [], "B": rbytes(rng, n)}, {"Kind": "int", "L": varnum(rng), "B": []}], [[1]])
    for k in range(7, 25):                       # around the lengths of the length
        for n in ((1 << k) - 1, 1 << k, (1 << k) + 1, rng.randrange(1 << k, 2 << k)):
            lists.append([{"op": "vbig", "n": n, "i": rng.randrange(256), "kind": rng.choice(["char", "smv"]), "b": rng.choice(TAILS)}])
    for _ in range(700 if not ck.thorough else 10000):     # bytes in the layout, complete or not
        n = rng.choice([1, 1, 2, 3, 5, 9, 10])
        b = [rng.choice([128, 129, 255, 128 + rng.randrange(128)]) for _ in range(n - 1)] + [rng.choice([1, 2, 3, rng.randrange(1, 128)])]
        kind = rng.choice(["int", "uint", "char", "smv"])
        if kind in ("char", "smv"):
            m = rng.choice([0, 1, 2, 3, 127, 128, 200])
            b = [m] if m < 128 else [m - 128 + 128, 1]
            b = b + rbytes(rng, max(0, m - rng.choice([0, 0, 0, 1, 2, m])))
        if rng.random() < .2:
            b = b[:rng.randrange(len(b))]
        if b and not (len(b) == 10 and kind in ("int", "uint") and b[9] > 1):
            lists.append([{"op": "vone", "kind": kind, "b": b + (rng.choice(TAILS) if kind in ("int", "uint") and b[-1] < 128 else [])}])
    rng.shuffle(lists)
    return [Job("Trace_Varint", "varints", pack(lists, {"layout": layout}, 120))]


# -- C28 ---------------------------------------------------------------------
def convs(ck):
    rng = rng_for(ck, "conv")
    lists = []

    def conv(kind, x, bits):
        lists.append([{"op": "conv", "kind": kind, "l": limbs(x & ((1 << bits) - 1), bits),
                       "b": rng.choice(TAILS) if kind == "time" else []}])
    W = {"int64": 64, "int32": 32, "uint32": 32, "time": 64, "big": 256}
    pairs = unique(ck.emits["MC_Conv"])
    for kind, bits in W.items():
        for a in pairs:
            x = (a[0] << 16) | a[1]
            conv(kind, x, bits)
            if bits > 32:
                conv(kind, (x << rng.choice([16, 32, bits - 32])) | rng.choice([0, x]), bits)
        for k in range(bits):
            for d in (-1, 0, 1):
                conv(kind, (1 << k) + d, bits)
            conv(kind, -(1 << k), bits)
        for _ in range(300 if not ck.thorough else 5000):
            conv(kind, rng.randrange(1 << rng.randrange(1, bits + 1)), bits)
    for n in list(range(0, 13)) * 6:
        lists.append([{"op": "btime", "b": rbytes(rng, n)}])
    rng.shuffle(lists)
    return [Job("Trace_Conv", "conv", pack(lists))]
