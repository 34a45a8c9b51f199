"""Scripts that decode damaged, truncated and arbitrary bytes (C18)."""
from vf import Job
import gen_codec as g
import gen_trie
from gen_codec import rng_for, unique, rbytes, uv, chunk
from gen_layout import enc_key, enc_val, enc_rec

KINDS = ["key", "val", "sval", "rec", "sch", "time", "id", "mph", "trie", "uv", "sv", "vc"]
STEER = [0, 1, 2, 3, 4, 16, 17, 32, 34, 64, 65, 66, 68, 100, 127, 128, 129, 192, 223, 239, 254, 255]
HUGE = [[255] * 9 + [1], [255] * 4 + [15], [255] * 4 + [7], [128] * 4 + [8], [255, 255, 3], [255, 127],
        [128] * 9 + [1], [255] * 8 + [127], [254] + [255] * 8 + [1], [240] + [255] * 8 + [1], [255] * 10,
        [128] * 12, [128] * 9 + [2], [255] * 3 + [127]]


def make_key(rng, big):
    return {"op": "rmake", "kind": "key", "bb": g.key(rng, big)}


def make(rng, kind, big=0):
    """A call that encodes a valid object of a kind."""
    o = {"op": "rmake", "kind": kind, "i": rng.randrange(1 << 20)}
    if kind == "key":
        o["bb"] = g.key(rng, big)
    elif kind == "val":
        o["x"] = g.timed(g.value(rng, rng.choice([0, 1, 2, 3]), big))
    elif kind == "rec":
        o["x"] = g.timed_rec(g.record(rng, rng.choice([0, 1, 2]), big))
    elif kind == "sch":
        part = lambda: [rng.random() < .7, []]
        s = [part(), part(), part()]
        for i in (0, 1):
            if s[i][0]:
                s[i][1] = rbytes(rng, rng.choice([0, 1, 2, 5, 130] if big else [0, 1, 2, 5]))
        if s[2][0]:
            s[2][1] = [rbytes(rng, rng.choice([0, 1, 3])) for _ in range(rng.choice([0, 1, 2, 5] + ([130] if big else [])))]
        o["b"] = g.enc_scheme(s)
    elif kind == "mph":
        ks = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9] + ([40] if big else []))):
            k = g.key(rng, 0)
            if k not in ks:
                ks.append(k)
        o["x"], o["flag"] = ks, rng.random() < .5
    elif kind == "trie":
        o["x"] = [[k, gen_trie.small_value(rng)] for k in
                  gen_trie.pool(rng, rng.randrange(5), rng.choice([1, 2, 4, 8] + ([30] if big else [])))]
    else:
        o["kind"], o["str"] = "raw", kind
        o["b"] = {"time": lambda: rbytes(rng, 32), "id": lambda: rbytes(rng, rng.choice([9, 40, 80])),
                  "sval": lambda: (lambda b: uv(len(b)) + b)(rbytes(rng, rng.choice([0, 1, 127, 128]))),
                  "vc": lambda: (lambda b: uv(len(b)) + b)(rbytes(rng, rng.choice([0, 1, 127, 128]))),
                  "uv": lambda: rbytes(rng, 10), "sv": lambda: rbytes(rng, 10)}[kind]()
    return o


def edit(rng):
    """Edits of an encoding of unknown length."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        k = rng.choice([0, 0, 0, 1, 2, 3, 3, 4, 5])
        p = rng.choice([rng.randrange(4), rng.randrange(12), rng.randrange(1 << 16)])
        out.append([p, k, rng.choice(STEER + [rng.randrange(256)])])
    return out


def overlong(rng):
    """A huge varint laid over a position."""
    p = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(12), rng.randrange(1 << 16)])
    h = rng.choice(HUGE)
    return [[p, 2, 0]] + [[p, 1, b] for b in reversed(h)]


def damaged(ck, rng):
    lists = []
    kinds = ["key", "val", "rec", "sch", "mph", "trie", "val", "rec", "trie"] + ["time", "id", "sval"]
    for i in range(420 if not ck.thorough else 6000):
        o = [make(rng, kinds[i % len(kinds)], 1 if i % 4 == 0 else 0)]
        n = 70 if i % 3 else 12                 # every truncation of the small ones
        o += [{"op": "rcut", "m": m} for m in range(n)]
        o += [{"op": "rcut", "m": rng.randrange(400)} for _ in range(10)]
        o += [{"op": "redit", "ll": edit(rng), "b": rng.choice(g.TAILS)} for _ in range(14 if not ck.thorough else 40)]
        o += [{"op": "redit", "ll": overlong(rng), "b": rng.choice(g.TAILS)} for _ in range(5)]
        lists.append(o)
    return chunk(lists, 200)


def every_byte(ck, rng):
    """Every value of every one of the first bytes of an encoding."""
    lists = []
    for kind in ("key", "val", "rec", "sch", "mph", "trie", "id"):
        for _ in range(1 if not ck.thorough else 8):
            o = [make(rng, kind)]
            for p in range(6 if not ck.thorough else 30):
                for b in (range(256) if p == 0 or ck.thorough else STEER):
                    o.append({"op": "redit", "ll": [[p, 0, b]]})
            lists.append(o)
    # every single bit, of the numbers in the middle and at the end too
    for kind, n, times in (("key", 12, 2), ("val", 40, 3), ("rec", 60, 3), ("sch", 20, 3), ("mph", 90, 8), ("trie", 40, 3), ("id", 9, 1)):
        for k in range(times if not ck.thorough else 8 * times):
            first = make(rng, kind)
            if kind == "mph":
                first["flag"] = k % 4 == 3
            lists.append([first] + [{"op": "redit", "ll": [[p, 3, b]]} for p in range(n) for b in range(8)])
    return chunk(lists, 300)


def rdec(kind, b):
    return {"op": "rdec", "kind": kind, "b": b}


def constructed(ck, rng):
    """Length and count fields that announce far more than there is."""
    out = []
    pad = lambda: rng.choice([[], [0], [1] * 10, [0] * 60, [255] * 30, rbytes(rng, 20), [0] * 700])
    for h in HUGE:
        for p in (pad() for _ in range(2 if not ck.thorough else 10)):
            for kind in KINDS:
                out.append(rdec(kind, h + p))
                out.append(rdec(kind, [1] + h + p))
                out.append(rdec(kind, [2, 1, 7] + h + p))
            for m in (64, 96, 112, 118, 16, 32, 80):
                out.append(rdec("rec", [m] + h + p))
            for m in (128, 64, 32, 224, 160, 96, 192):
                out.append(rdec("sch", [m] + h + p))
                out.append(rdec("sch", [m, 1, 65] + h + p))
                out.append(rdec("sch", [m] + [0] + h + p))
            for m in (0, 1, 255):
                for n in ([0, 0, 0, 1], [0, 0, 255, 255], [1, 0, 0, 0], [127, 255, 255, 255], [255, 255, 255, 255]):
                    out.append(rdec("mph", [m] + n + p))
                    out.append(rdec("mph", n + n + [m] + p))
                    out.append(rdec("trie", [m] + n + p))
    # nested lists that announce many elements
    for count in ([1], [255], [255, 255], [128, 0]):
        for size in ([0], [1], [5], [255], [16, 0], [255, 255]):
            for kind in (64, 16):
                b = [len(count) * kind + len(size)] + count + size
                for p in ([], [0] * 5, [0] * 255, [0] * 4096, b * 40, [2] * 300):
                    out.append(rdec("val", b + p))
                    if rng.random() < .3:
                        out.append(rdec("rec", [32] + b + p))
                        out.append(rdec("trie", [0, 32] + b + p))
    # nesting deeper than any sensible object
    for kind in (0x41, 0x51, 0x42, 0x11, 0x12):
        for n in (50, 500, 2000):
            for unit in ([kind, 1, 200], [kind, 1, 255, 255], [kind, 1, 16, 0], [kind, 1, 0, 200, 32]):
                out.append(rdec("val", (unit * n)[:8000]))
                out.append(rdec("rec", [32] + (unit * n)[:4000]))
    for n in (20, 200, 1500):       # well-formed nests
        b = [0]
        for i in range(n):
            k = len(b)
            b = ([0x41, 1, k] if k < 256 else [0x42, 1, k >> 8, k & 255]) + b
        out.append(rdec("val", b))
    for n in (100, 1000, 4000):     # keys of many sub keys, empty ones too
        out.append(rdec("key", uv(n) + [0] * n))
        out.append(rdec("key", uv(n) + [1, 1] * n))
        out.append(rdec("key", uv(n) + [1, 1] * (n - 1)))
        out.append(rdec("sch", [32] + uv(n) + [0] * n))
    return out


def arbitrary(ck, rng):
    out = []
    for s in unique(ck.emits["MC_Robust"]):
        kinds = KINDS if ck.thorough else rng.sample(KINDS, 4)
        if len(s) < 3:
            kinds = KINDS
        out += [rdec(k, s) for k in kinds]
    for _ in range(2500 if not ck.thorough else 60000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 10, 16, 31, 32, 33, 50, 100, 300])
        b = [rng.choice(STEER + [rng.randrange(256)] * 4) for _ in range(n)]
        out.append(rdec(rng.choice(KINDS), b))
    # wrong kinds for valid encodings
    for _ in range(500 if not ck.thorough else 8000):
        b = rng.choice([lambda: enc_key(g.key(rng)), lambda: enc_val(g.value(rng, 2)), lambda: enc_rec(g.record(rng, 1))])()
        out.append(rdec(rng.choice(KINDS), b + rng.choice(g.TAILS)))
        out.append(rdec("trie", enc_key(g.key(rng)) + b))
    return out


def robust(ck):
    rng = rng_for(ck, "robust")
    cases = damaged(ck, rng) + every_byte(ck, rng)
    cases += chunk([[o] for o in constructed(ck, rng) + arbitrary(ck, rng)], 300)
    return [Job("Trace_Robust", "robust", cases, oplimit=15)]
