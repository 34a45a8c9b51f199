"""Scripts for the sorted map and set."""
import math
import random
from vf import Job

POOL_BYTES = sorted([b"", b"\0", b"\0\0", b"\0\1", b"\1", b"\1\0", b"\1\0\0", b"\1\1", b"a", b"a\0",
                     b"aa", b"ab", b"b", b"\x7f", b"\x7f\xff", b"\x80", b"\x80\0", b"\xff", b"\xff\0",
                     b"\xff\xff", b"\xff\xff\xff", b"abc", b"abcd", b"abd", b"\xfe\xff", b"zz", b"z",
                     b"m", b"mm", b"n", b"q", b"qa"])
NKIND = {"probe": 1000, "int64": 1000, "uint16": 1000,
         "bytes": len(POOL_BYTES), "key": len(POOL_BYTES)}


def cfg(kind, set_):
    c = {"kind": kind, "set": set_}
    if kind in ("bytes", "key"):
        c["bb"] = [list(x) for x in POOL_BYTES]
    return c


def walk(rng, slot, n, style):
    """n entries expected: calls on iterator slot until past the end."""
    ops = []
    steps = n + rng.choice([0, 1, 2])
    for _ in range(steps):
        if style == "plain":
            ops += [{"op": "has", "i": slot}, {"op": "next", "i": slot}]
        elif style == "next":
            ops.append({"op": "next", "i": slot})
        elif style == "peeky":
            for _ in range(rng.randrange(3)):
                ops.append({"op": rng.choice(["peek", "has"]), "i": slot})
            ops.append({"op": "next", "i": slot})
    ops += [{"op": "has", "i": slot}, {"op": "peek", "i": slot}, {"op": "next", "i": slot},
            {"op": "has", "i": slot}, {"op": "next", "i": slot}]
    return ops


def questions(rng, ops, ask, share=.3):
    """Asks now and then while something is iterated; asking is no change."""
    out = []
    for o in ops:
        out.append(o)
        if o["op"] in ("iter", "range", "open", "has", "peek", "next") and rng.random() < share:
            out += [ask() for _ in range(rng.choice([1, 1, 2, 5]))]
    return out


def asker(rng, set_, keys):
    keys = list(keys)
    return lambda: {"op": "size"} if rng.random() < .1 else {"op": "exist" if set_ else "get", "k": rng.choice(keys)}


def mutate(o):
    return {"op": o[0], "k": o[1], "v": o[2]} if o[0] == "put" else {"op": "rem", "k": o[1]}


def replay_emitted(ck, want, set_=False):
    """One case per transition of the model: the history, then observations."""
    hs = ck.emits["MC_AVL"]
    rng = random.Random(ck.seed * 7919 + 1)
    limit = {"quick": 2200, "thorough": 10 ** 9}[ck.tier]
    if len(hs) > limit:
        hs = rng.sample(hs, limit)
    cases = []
    for h in hs:
        ops = [mutate(o) for o in h]
        keys = set()
        for o in h:
            (keys.add if o[0] == "put" else keys.discard)(o[1])
        if set_:
            for o in ops:
                if o["op"] == "put":
                    o["v"] = o["k"]
        top = max((o[1] for o in h), default=1) + 1
        if want == "map":
            ops.append({"op": "size"})
            for k in range(0, top + 1):
                ops.append({"op": "exist" if set_ else "get", "k": k})
        elif want == "iter":
            ops.append({"op": "iter", "i": 0})
            ops += walk(rng, 0, len(keys), rng.choice(["plain", "next", "peeky"]))
        elif want == "range":
            for i in range(4):
                s, e = sorted([rng.randrange(0, top + 2), rng.randrange(0, top + 2)])
                s, e = rng.choice([(s, e)] * 4 + [(-1, e), (s, -1)])
                ops.append({"op": "range", "i": i, "s": s, "e": e})
                n = len([k for k in keys if (s == -1 or k >= s) and (e == -1 or k < e)])
                ops += walk(rng, i, n, rng.choice(["plain", "next", "peeky"]))
        elif want == "cost":
            for k in range(0, top + 1):
                ops.append({"op": "exist" if set_ else "get", "k": k})
        cases.append({"cfg": cfg("probe", set_), "ops": ops})
    return cases


def random_case(rng, want, kind, set_, nops, nkeys, vals=5):
    nk = min(nkeys, NKIND[kind])
    base = rng.randrange(0, NKIND[kind] - nk + 1)
    style = rng.choice(["mix", "grow", "shrink", "asc", "desc", "zig"])
    present = set()
    ops = []
    seq = list(range(nk))
    if style == "desc":
        seq.reverse()
    elif style == "zig":
        seq = [seq[i // 2] if i % 2 == 0 else seq[-1 - i // 2] for i in range(nk)]
    elif style != "asc":
        rng.shuffle(seq)
    pos = 0

    def put(k):
        v = k if set_ else rng.choice([rng.randrange(vals), rng.randrange(vals), k, -1 if rng.random() < .1 else 0])
        ops.append({"op": "put", "k": k, "v": v})
        present.add(k)

    def rem(k):
        ops.append({"op": "rem", "k": k})
        present.discard(k)
    if style in ("asc", "desc", "zig", "shrink"):
        for k in seq:
            put(base + k)
    for _ in range(nops):
        x = rng.random()
        k = base + rng.randrange(nk)
        if style == "shrink":
            pput, prem = 0.1, 0.6
        elif style == "grow":
            pput, prem = 0.6, 0.1
        else:
            pput, prem = 0.35, 0.3
        if x < pput:
            put(k)
        elif x < pput + prem:
            if present and rng.random() < .7:
                k = rng.choice(sorted(present))
            rem(k)
        elif want in ("map", "cost"):
            if x > 0.95:
                ops.append({"op": "size"})
            else:
                ops.append({"op": "exist" if set_ else "get", "k": k})
        elif rng.random() < 0.35:
            observe(rng, want, ops, sorted(present), base, nk)
    if want in ("map", "cost"):
        ops.append({"op": "size"})
        for k in range(nk):
            ops.append({"op": "exist" if set_ else "get", "k": base + k})
    else:
        observe(rng, want, ops, sorted(present), base, nk)
    return {"cfg": cfg(kind, set_), "ops": ops}


def observe(rng, want, ops, present, base, nk):
    if want == "iter":
        if rng.random() < 0.3:     # two iterators interleaved
            ops += [{"op": "iter", "i": 0}, {"op": "iter", "i": 1}]
            for _ in range(2 * len(present) + 3):
                ops.append({"op": rng.choice(["has", "peek", "next", "next"]), "i": rng.randrange(2)})
        else:
            ops.append({"op": "iter", "i": 2})
            ops += walk(rng, 2, len(present), rng.choice(["plain", "next", "peeky"]))
    else:
        a = base + rng.randrange(nk)
        b = base + rng.randrange(nk)
        s, e = min(a, b), max(a, b)
        s, e = rng.choice([(s, e)] * 5 + [(-1, e), (s, -1), (s, s), (-1, -1)])
        ops.append({"op": "range", "i": 0, "s": s, "e": e})
        n = len([k for k in present if (s == -1 or k >= s) and (e == -1 or k < e)])
        ops += walk(rng, 0, n, rng.choice(["plain", "next", "peeky"]))


def bulk(rng, set_, size):
    """Histories of thousands of keys: filled, dropped and looked through."""
    def step():
        while True:
            j = rng.choice([1, -1, rng.randrange(1, min(size, (1 << 31) // size - 10))])
            if math.gcd(abs(j), size) == 1:
                return j
    ops = []
    for r in range(3):
        ops.append({"op": "fill", "n": size if r == 0 else rng.randrange(size), "i": rng.randrange(size), "j": step(),
                    "m": size, "s": rng.randrange(251), "set": set_})
        if r == 0:
            ops.append({"op": "census", "m": size})
        ops.append({"op": "drop", "n": rng.choice([size // 2, size - 1, rng.randrange(size)]), "i": rng.randrange(size),
                    "j": step(), "m": size})
        ops.append({"op": "census", "m": size})
    ops += [{"op": "drop", "n": size, "i": 0, "j": 1, "m": size}, {"op": "census", "m": size},
            {"op": "fill", "n": 5, "i": 0, "j": 1, "m": size, "s": 7, "set": set_}, {"op": "census", "m": size}]
    return ops


def bulk_ranges(rng, set_, size):
    """Ranges of maps of thousands of keys."""
    j = rng.choice([x for x in (1, 7, 31, size - 1, 2 * size // 3) if math.gcd(x, size) == 1])
    ops = [{"op": "fill", "n": size, "i": rng.randrange(size), "j": j, "m": size, "s": rng.randrange(251), "set": set_}]
    off, n, step = rng.randrange(size), rng.randrange(size // 2, size - 20), rng.choice([1, j, size - 1])
    gone = {(off + i * step) % size for i in range(n)}
    there = [k for k in range(size) if k not in gone]
    for part in (range(size), there):
        part = list(part)
        for _ in range(12):
            a = rng.randrange(len(part))
            b = min(len(part) - 1, a + rng.choice([0, 1, 2, 5, 40]))
            s, e = part[a] + rng.choice([0, 0, 1]), part[b] + rng.choice([0, 1])
            x = rng.randrange(8)
            if x == 0:
                s, e = -1, part[min(30, len(part) - 1)]
            elif x == 1:
                s, e = part[max(0, len(part) - 30)], -1
            elif x == 2:
                s, e = size, -1
            if e != -1 and s > e:
                s, e = e, s
            ops.append({"op": "range", "i": 0, "s": s, "e": e})
            m = len([k for k in part if (s == -1 or k >= s) and (e == -1 or k < e)])
            ops += walk(rng, 0, m, rng.choice(["plain", "next", "peeky"]))
        if part is not there:
            ops.append({"op": "drop", "n": n, "i": off, "j": step, "m": size})
    return ops


def jobs(want):
    def make(ck):
        rng = random.Random(ck.seed * 1000003 + hash_str(want))
        cases = replay_emitted(ck, want, False)
        if want != "cost":
            extra = replay_emitted(ck, want, True)
            cases += rng.sample(extra, min(len(extra), 400 if not ck.thorough else 10 ** 9))
        kinds = ["probe"] if want == "cost" else ["probe", "probe", "int64", "uint16", "bytes", "key"]
        n = 260 if not ck.thorough else 3000
        for i in range(n):
            kind = kinds[i % len(kinds)]
            big = i % 20 == 0
            nk = rng.choice([120, 200]) if big else rng.choice([3, 5, 8, 12, 20, 32])
            if ck.thorough and i % 200 == 0:
                nk = 600
            cases.append(random_case(rng, want, kind, rng.random() < .4,
                                     rng.choice([20, 40, 80]) if not big else 250, nk))
        if want == "range":
            for size in (1999, 30011) if not ck.thorough else (1999, 4096, 30011, 70001):
                for set_ in (False, True):
                    cases.append({"cfg": cfg(rng.choice(["probe", "int64"]), set_), "ops": bulk_ranges(rng, set_, size)})
        if want != "range":
            for size in ((1999, 66001) if not ck.thorough else (1999, 4096, 30011, 66001, 140000)):
                for set_ in (False, True):
                    cases.append({"cfg": cfg("probe" if want == "cost" or rng.random() < .5 else "int64", set_),
                                  "ops": bulk(rng, set_, size)})
        if want == "cost":
            for n in (300,) if not ck.thorough else (300, 900):
                for order in ("asc", "desc", "zig"):
                    seq = list(range(n))
                    if order == "desc":
                        seq.reverse()
                    if order == "zig":
                        seq = [seq[i // 2] if i % 2 == 0 else seq[-1 - i // 2] for i in range(n)]
                    ops = [{"op": "put", "k": k, "v": 0} for k in seq]
                    ops += [{"op": "get", "k": k} for k in rng.sample(range(n), min(n, 150))]
                    half = seq[: n * 2 // 3] if rng.random() < .5 else seq[n // 3:]
                    ops += [{"op": "rem", "k": k} for k in half]
                    ops += [{"op": "get", "k": k} for k in rng.sample(range(n), min(n, 150))]
                    cases.append({"cfg": cfg("probe", False), "ops": ops})
        if want in ("iter", "range"):
            for c in cases:
                if len(c["ops"]) < 3000 and rng.random() < .4:
                    c["ops"] = questions(rng, c["ops"], asker(rng, c["cfg"]["set"], sorted({o["k"] for o in c["ops"] if "k" in o} | {0, 1})),
                                         rng.choice([.1, .3]))
        return [Job("Trace_SortedMap", "sorted", cases)]
    return make


def hash_str(s):
    h = 0
    for c in s:
        h = h * 131 + ord(c)
    return h
