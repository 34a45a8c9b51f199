"""Scripts for slice comparison (C07) and hashing (C08)."""
import random
from vf import Job
from gen_sorted import hash_str

BITS = {"byte": 8, "int8": 8, "int16": 16, "uint16": 16, "int32": 32, "uint32": 32,
        "int64": 64, "uint64": 64, "int": 64, "comp": 16, "comp2": 16, "compn": 16}


WRAPS = ["byte", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "comp"]


def limbs(x, bits):
    n = max(1, bits // 16)
    return [(x >> (16 * (n - 1 - i))) & 0xffff for i in range(n)]


def triples(bits):
    top = (1 << bits) - 1
    half = 1 << (bits - 1)
    return [(0, 1, 2), (0, half, top), (half - 1, half, half + 1), (0, 1, top), (half - 2, half - 1, half),
            (half, half + 1, top), (top - 2, top - 1, top), (1, 255 & top, 256 & top if bits > 8 else 254)]


def elem(rng, kind):
    bits = BITS[kind]
    top = (1 << bits) - 1
    if kind == "compn":
        return [] if rng.random() < .4 else [1] + elem(rng, "comp")
    if kind in ("comp", "comp2"):
        return [rng.choice([0, 1, 2, 65535]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    x = rng.choice([rng.randrange(top + 1), rng.choice([0, 1, top, top - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1]),
                    rng.randrange(4), 1 << rng.randrange(bits)])
    return limbs(x & top, bits)


def slices(ck):
    rng = random.Random(ck.seed * 1000003 + hash_str("slices"))
    seen, pairs = set(), []
    for p in ck.emits["MC_Slices"]:
        s = str(p)
        if s not in seen:
            seen.add(s)
            pairs.append(p)
    cases = []
    for kind, bits in BITS.items():
        ops = []
        for a, b in pairs:
            ts = triples(bits)
            for t in (ts if ck.thorough else [rng.choice(ts)]):
                t = sorted(set(t)) if len(set(t)) == 3 else [0, 1, 2]
                if kind == "compn":
                    t = rng.choice([[[], [1], [1, 0]], [[], [1, 0], [1, 1]], [[1], [1, 1], [1, 1, 2]]])
                    m = lambda l: [t[x[0]] for x in l]
                elif kind in ("comp", "comp2"):
                    t = rng.choice([[[], [0], [0, 0]], [[1], [1, 2], [2]], [[0], [255], [65535]]])
                    m = lambda l: [t[x[0]] for x in l]
                else:
                    m = lambda l: [limbs(t[x[0]], bits) for x in l]
                ops.append({"op": "cmp", "kind": kind, "ll": m(a[1]), "set": a[0], "x": m(b[1]), "flag": b[0]})
        for _ in range(600 if not ck.thorough else 6000):
            a = [elem(rng, kind) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 40]))]
            style = rng.randrange(5)
            b = list(a)
            if style == 0:
                b = [elem(rng, kind) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
            elif style == 1 and b:
                b[rng.randrange(len(b))] = elem(rng, kind)
            elif style == 2:
                b = b[:rng.randrange(len(b) + 1)]
            elif style == 3:
                b = b + [elem(rng, kind)]
            if rng.random() < .5:
                a, b = b, a
            ops.append({"op": "cmp", "kind": kind, "ll": a, "set": False, "x": b, "flag": False})
        if kind == "compn":
            for o in ops:
                o["n"] = rng.randrange(25)
        if kind in WRAPS:
            for _ in range(20 if not ck.thorough else 200):
                a = [elem(rng, kind) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
                ops.append({"op": "cnil", "kind": kind, "ll": a, "set": not a and rng.random() < .5, "n": rng.randrange(5)})
            for k2 in WRAPS:
                for _ in range(6 if k2 != kind else 60):
                    a = [elem(rng, kind) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
                    b = list(a) if rng.random() < .6 and BITS[k2] == BITS[kind] and "comp" not in (kind, k2) or k2 == kind and rng.random() < .5 \
                        else [elem(rng, k2) for _ in range(len(a))]
                    ops.append({"op": "ceq", "kind": kind, "ll": a, "set": not a and rng.random() < .5, "str": k2, "x": b,
                                "flag": not b and rng.random() < .5, "n": rng.choice([0, 1])})
        for i in range(0, len(ops), 400):
            cases.append({"ops": ops[i:i + 400]})
    return [Job("Trace_Slices", "slices", cases)]


KEYFORMS = ["c", "d", "t", "k", "m"]


def hashes(ck):
    rng = random.Random(ck.seed * 1000003 + hash_str("hashes"))
    cases = []
    kinds = ["byte", "int16", "uint16", "int32", "uint32", "int64", "uint64", "slice", "key", "key", "slicen"]
    pools = {}
    for i in range(240 if not ck.thorough else 4000):
        kind = kinds[i % len(kinds)]
        pool = []
        for _ in range(rng.choice([3, 8, 16])):
            n = rng.choice([0, 1, 2, 3, 4, 7, 15, 16, 17, 33])
            if kind == "key":
                n = rng.choice([0, 1, 2, 3, 4])
                c = [[rng.choice([0, 1, 2, 254, 255]) for _ in range(rng.choice([1, 1, 2, 3, 5, 130 if ck.thorough else 9]))]
                     for _ in range(n)]
                if rng.random() < .3:
                    pool += [c[:1] + [[]] + c[1:], [[]] + c, [[]], [], [[], []]]
            elif kind == "slicen":
                c = [rng.choice([[], [0], [1], [65535]]) for _ in range(n)]
            elif kind == "slice":
                c = [[rng.choice([0, 1, 2, 65535])] for _ in range(n)]
            else:
                c = [elem(rng, kind) for _ in range(n)]
            pool.append(c)
            # near relatives: order, repetition, split and joined elements, prefixes
            if len(c) > 1:
                d = list(c)
                x, y = rng.sample(range(len(c)), 2)
                d[x], d[y] = d[y], d[x]
                pool.append(d)
                pool.append(c + [c[0]] if rng.random() < .5 else c + [c[-1], c[-1]])
                pool.append(c[:-1])
                if kind == "key":
                    pool.append([c[0] + c[1]] + c[2:])
                    if len(c[0]) > 1:
                        pool.append([c[0][:1], c[0][1:]] + c[1:])
                    pool.append([c[0][:1], c[0][1:] + c[1]] + c[2:] if len(c[0]) > 1 else [c[0] + c[1][:1]] + ([c[1][1:]] if len(c[1]) > 1 else []) + c[2:])
        ops = []

        def form(kind, c):
            if kind == "key":
                return rng.choice(["c", "d", "t", "k", "m"] + (["e"] if not c else []) + (["s", "n"] if len(c) == 1 else []))
            return "c"
        pools.setdefault(kind, []).extend(pool[:6])
        for _ in range(rng.choice([10, 25, 40])):
            c = rng.choice(pool)
            ops.append({"op": "hash", "kind": kind, "ll": c, "set": kind != "key" and not c and rng.random() < .5,
                        "n": rng.choice([0, 1, 0x1234, 0x7fffffff]), "str": form(kind, c)})
        for _ in range(rng.choice([5, 10])):
            c = rng.choice(pool)
            k2 = kind if rng.random() < .7 else rng.choice(list(pools))
            d = (c if rng.random() < .4 else rng.choice(pool)) if k2 == kind else rng.choice(pools[k2])
            if BITS.get(kind) and BITS.get(kind) == BITS.get(k2) and rng.random() < .5:
                d = c                   # the same bytes, another type
            ops.append({"op": "heq", "kind": kind, "ll": c, "set": kind != "key" and not c and rng.random() < .4, "str": form(kind, c),
                        "str2": k2, "x": d, "flag": k2 != "key" and not d and rng.random() < .4, "y": form(k2, d),
                        "i": rng.choice([0, 1, 77, 0x7fffffff]), "n": rng.randrange(3), "j": rng.randrange(3)})
        for _ in range(3):
            c = rng.choice(pool)
            ops.append({"op": "hnil", "kind": kind, "ll": c, "set": kind != "key" and not c and rng.random() < .4, "str": form(kind, c),
                        "n": rng.randrange(3)})
        cases.append({"ops": ops})
    return [Job("Trace_Hashing", "hashes", cases)]
