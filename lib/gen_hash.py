"""Scripts for the hash map and set."""
import random
from vf import Job
from gen_sorted import POOL_BYTES, hash_str, bulk, questions, asker

HV = [0, 0, 10, 12, 3, 5, 36, 7]        # as in MC_Hash (keys from 1)


def config(rng, model=False):
    c = {"kind": "given", "set": rng.random() < .4, "l": HV}
    if model:
        c.update({"flag": True, "n": rng.choice([10, 10, 0, -3]), "f": 0.5, "f2": 1.2})
        return c
    c["kind"] = rng.choice(["given", "given", "given", "int64", "bytes", "key"])
    if c["kind"] in ("bytes", "key"):
        c["bb"] = [list(x) for x in POOL_BYTES]
    if rng.random() < .8:
        c.update({"flag": True,
                  "n": rng.choice([-5, 0, 1, 9, 10, 11, 13, 16, 20, 37, 100]),
                  "f": rng.choice([0.5, 0.5, 0.6, 0.75, 0.9, 1.0, 0.01, 7.5, -1.0]),
                  "f2": rng.choice([1.2, 1.2, 1.3, 1.5, 2.0, 3.0, 5.0, 0.3, 99.0, -2.0])})
    m = rng.choice([1, 2, 3, 10, 12, 50, 1 << 20])
    c["l"] = [rng.choice([rng.randrange(m), rng.randrange(m) * 10, rng.randrange(m) * 12 + 10,
                          (1 << 32) - 1 - rng.randrange(m)]) for _ in range(rng.choice([7, 23, 64]))]
    return c


def walk(rng, slot, n):
    if rng.random() < .15:                       # two iterators at the same time
        ops = [{"op": "iter", "i": 0}, {"op": "iter", "i": 1}]
        for _ in range(2 * n + 4):
            ops.append({"op": rng.choice(["has", "peek", "next", "next"]), "i": rng.randrange(2)})
        return ops
    ops = [{"op": "iter", "i": slot}]
    style = rng.choice(["plain", "next", "peeky"])
    for _ in range(n + rng.randrange(3)):
        if style == "plain":
            ops += [{"op": "has", "i": slot}, {"op": "next", "i": slot}]
        elif style == "next":
            ops.append({"op": "next", "i": slot})
        else:
            for _ in range(rng.randrange(3)):
                ops.append({"op": rng.choice(["peek", "has"]), "i": slot})
            ops.append({"op": "next", "i": slot})
    for o in ("has", "peek", "next", "has", "next"):
        ops.append({"op": o, "i": slot})
    return ops


def finish(rng, ops, cfg, keys, present, want):
    if want == "map":
        ops.append({"op": "size"})
        for k in keys:
            ops.append({"op": "exist" if cfg["set"] else "get", "k": k})
    else:
        ops += walk(rng, 0, len(present))


def jobs(want):
    def make(ck):
        rng = random.Random(ck.seed * 1000003 + hash_str("hash" + want))
        hs = ck.emits["MC_Hash"]
        lim = 10 ** 9 if ck.thorough else 2500 if want == "map" else 900
        if len(hs) > lim:
            hs = rng.sample(hs, lim)
        cases = []
        for h in hs:
            c = config(rng, True)
            ops, present = [], set()
            for o in h:
                if o[0] == "put":
                    ops.append({"op": "put", "k": o[1], "v": o[2] if c["set"] else o[2] + 10})
                    present.add(o[1])
                else:
                    ops.append({"op": "rem", "k": o[1]})
                    present.discard(o[1])
            finish(rng, ops, c, range(0, 8), present, want)
            cases.append({"cfg": c, "ops": ops})
        for i in range(250 if not ck.thorough else 4000):
            c = config(rng)
            nk = rng.choice([4, 8, 16, 30] + ([120, 300] if i % 10 == 0 else []))
            if "bb" in c:
                nk = min(nk, len(POOL_BYTES))
            ops, present = [], set()

            def put(k):
                ops.append({"op": "put", "k": k, "v": k if c["set"] else rng.choice([k, 0, 1, 2, 3, -1])})
                present.add(k)

            def rem(k):
                ops.append({"op": "rem", "k": k})
                present.discard(k)
            for phase in range(rng.choice([1, 2, 3, 4])):
                style = rng.choice(["mix", "fill", "drain"])
                if style == "fill":
                    for k in rng.sample(range(nk), nk):
                        put(k)
                elif style == "drain":
                    for k in rng.sample(range(nk), nk):
                        rem(k)
                        if rng.random() < .1:
                            finish(rng, ops, c, rng.sample(range(nk), min(nk, 5)), present, want)
                else:
                    for _ in range(rng.choice([10, 40])):
                        k = rng.randrange(nk)
                        x = rng.random()
                        if x < .4:
                            put(k)
                        elif x < .7:
                            rem(k)
                        elif want == "map":
                            ops.append({"op": "exist" if c["set"] else "get", "k": k})
                        elif rng.random() < .3:
                            ops += walk(rng, rng.randrange(2), len(present))
            finish(rng, ops, c, range(nk), present, want)
            cases.append({"cfg": c, "ops": ops})
        for size in ((1999, 66001) if not ck.thorough else (1999, 4096, 30011, 66001, 140000)):
            for set_ in (False, True):
                c = config(rng)
                while c["kind"] not in ("given", "int64"):
                    c = config(rng)
                c["set"] = set_
                c["l"] = rng.sample(range(1 << 31), 4999)
                cases.append({"cfg": c, "ops": bulk(rng, set_, size)})
        if want == "iter":
            for c in cases:
                if len(c["ops"]) < 3000 and rng.random() < .4:
                    c["ops"] = questions(rng, c["ops"], asker(rng, c["cfg"]["set"], sorted({o["k"] for o in c["ops"] if "k" in o} | {0, 1})),
                                         rng.choice([.1, .3]))
        return [Job("Trace_HashMap", "hash", cases)]
    return make
