"""Scripts for the key store (C21) and for signatures (C22)."""
from vf import Job
from gen_codec import rng_for, unique

N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
P = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff


def b32(x):
    return list(x.to_bytes(32, "big"))


def private(rng):
    x = rng.random()
    if x < .3:                                 # leading zero bytes
        return b32(rng.randrange(1, 1 << rng.choice([1, 8, 100, 200, 240, 248])))
    if x < .4:
        return b32(N - rng.choice([1, 2, 3, rng.randrange(1, 1 << 40)]))
    return b32(rng.randrange(1, N))


def secret(rng, usable=True):
    n = rng.choice([16, 16, 24, 32]) if usable else rng.choice([0, 1, 6, 15, 17, 23, 31, 33, 48, 64])
    x = rng.random()
    if x < .2:
        return [0] * n
    if x < .4:                                 # a padded passphrase
        return (list(b"poodle") + [0] * 64)[:n]
    return [rng.randrange(256) for _ in range(n)]


HARMS = ["cut", "cut", "char", "char", "other", "drop", "insert", "append", "swap", "zero", "blank"]


class Places:
    """Classes and ids of a case; ids are its own, some begin like others."""
    def __init__(self, rng, case, n):
        base = "c%d-" % case
        names = [base, base + "0", base + "_id", base + ".x", base + "ff" * 32]
        self.all = [(c, i) for c in range(1, 6) for i in names]
        if n == 2:
            a = rng.choice(self.all)
            b = rng.choice([(a[0], rng.choice([x for x in names if x != a[1]])),
                            (rng.choice([c for c in range(1, 6) if c != a[0]]), a[1])])
            self.all = [a, b]
        else:
            self.all = rng.sample(self.all, n)


def loads(rng, ops, places, secrets):
    for c, i in places:
        at = {"i": c, "str": i}
        ops.append(dict(at, op="loadpub"))
        for s in secrets:
            ops.append(dict(at, op="loadpriv", c=s))
        if rng.random() < .5:
            ops.append(dict(at, op="exist"))


def store(ck):
    rng = rng_for(ck, "store")
    cases = []

    def harm(at, public):
        return dict(at, op="harm", flag=public, kind=rng.choice(HARMS), n=rng.randrange(200), j=rng.randrange(16))
    hists = unique(ck.emits["MC_KeyStore"])
    if ck.thorough and len(hists) > 12000:
        hists = rng.sample(hists, 12000)
    for h in hists:                            # behaviours of the model
        pl = Places(rng, len(cases), 2).all
        ks = [private(rng), private(rng)]
        n = rng.choice([16, 24, 32])
        s1 = secret(rng)
        s2 = list(s1)
        s2[rng.randrange(len(s2))] ^= rng.choice([1, 128, 255])
        secs = [s1, s2 if rng.random() < .6 else secret(rng), secret(rng, False)]
        if secs[1] == s1:
            secs[1] = [x ^ 1 for x in s1]
        ops = []
        for st in h:
            at = {"i": pl[st[1] - 1][0], "str": pl[st[1] - 1][1]}
            if st[0] == "save":
                ops.append(dict(at, op="save", b=ks[st[2] - 1], c=secs[st[3] - 1]))
            elif st[0] == "crash":             # the step that was under way
                k = rng.choice([0, 1, 2, 7, 8, 63, 64, 65, 71, rng.randrange(150)])
                n, m = [(k, -1), (-2, -1), (-2, k)][st[4] - 1]
                ops.append(dict(at, op="crash", b=ks[st[2] - 1], c=secs[st[3] - 1], n=n, m=m))
            elif st[0] == "harm":
                ops.append(harm(at, st[2] == 1))
            elif st[0] == "block":
                ops.append(dict(at, op="block", kind=["pub", "priv", "both", "free"][st[2] - 1]))
            else:
                ops.append(dict(at, op="rm", flag=st[2] == 1))
        loads(rng, ops, pl, secs)
        cases.append({"cfg": {}, "ops": ops})
    for _ in range(60 if not ck.thorough else 1500):        # longer histories over several places
        pl = Places(rng, len(cases), rng.choice([2, 3, 6])).all
        secs = [secret(rng) for _ in range(3)] + [secret(rng, False)]
        ops = []
        block = {}                             # how places are blocked
        for _ in range(rng.choice([6, 12, 25])):
            c, i = rng.choice(pl)
            at = {"i": c, "str": i}
            x = rng.random()
            if x < .08 or (c, i) in block and x < .25:
                kind = rng.choice(["pub", "priv", "both"]) if (c, i) not in block else "free"
                if kind == "free":
                    del block[c, i]
                else:
                    block[c, i] = kind
                ops.append(dict(at, op="block", kind=kind))
                loads(rng, ops, [(c, i)], rng.sample(secs, 2))
            elif (c, i) in block or x < .45:
                ops.append(dict(at, op="save", b=private(rng), c=rng.choice(secs)))
            elif x < .57:
                s = rng.choice(secs[:3])
                ops.append(dict(at, op="crash", b=private(rng), c=s, n=rng.choice([-1, -2, rng.randrange(150)]),
                                m=rng.choice([-1, -2, rng.randrange(80)])))
            elif x < .75:
                ops.append(harm(at, rng.random() < .5))
            elif x < .8:
                ops.append(dict(at, op="rm", flag=rng.random() < .5))
            else:
                loads(rng, ops, [(c, i)], rng.sample(secs, 2))
        loads(rng, ops, pl, secs)
        cases.append({"cfg": {}, "ops": ops})
    for c in range(1, 6):                      # every cut, every position altered, for every class
        at = {"i": c, "str": "c%d" % len(cases)}
        s = secret(rng)
        ops = []
        step = 1 if ck.thorough else 3
        for pub in (True, False):
            size = 72 if pub else 128
            for kind in ("cut", "char", "other", "drop", "swap"):
                for n in range(rng.randrange(step), size, step):
                    ops.append(dict(at, op="save", b=private(rng), c=s))
                    ops.append(dict(at, op="harm", flag=pub, kind=kind, n=n, j=rng.randrange(16)))
                    ops.append(dict(at, op="loadpub"))
                    ops.append(dict(at, op="loadpriv", c=s))
        cases.append({"cfg": {}, "ops": ops})
    for k in range(4 if not ck.thorough else 40):           # wrong secrets, one bit or one byte apart
        at = {"i": 1 + k % 5, "str": "c%d" % len(cases)}
        s = secret(rng)
        ops = [dict(at, op="save", b=private(rng), c=s)]
        for i in range(len(s)):
            t = list(s)
            t[i] ^= 1 << rng.randrange(8)
            ops.append(dict(at, op="loadpriv", c=t))
        for n in range(0, 40):
            t = (s + [0] * 40)[:n]
            if t != s:
                ops.append(dict(at, op="loadpriv", c=t))
        ops.append(dict(at, op="loadpriv", c=s))
        cases.append({"cfg": {}, "ops": ops})
    return [Job("Trace_KeyStore", "store", cases)]


ALTER = ["swap", "r+", "r-", "s+", "s-", "r0", "s0", "rs0", "rnil", "snil", "nil", "rneg", "sneg", "rN", "sN", "rbit", "sbit"]


def digest(rng):
    x = rng.random()
    if x < .1:
        return [0] * 32
    if x < .2:
        return [255] * 32
    if x < .3:
        return [0] * 31 + [rng.randrange(256)]
    return [rng.randrange(256) for _ in range(32)]


def signatures(ck):
    rng = rng_for(ck, "sign")
    cases = []
    for _ in range(60 if not ck.thorough else 1500):
        ops, sigs, keys = [], {}, []
        for k in range(rng.choice([1, 2, 3])):
            ops.append({"op": "gen", "s": k})
            keys.append(k)
        digests = [digest(rng) for _ in range(3)]
        near = list(digests[0])
        i = rng.randrange(32)
        near[i] ^= 1 << rng.randrange(8)
        digests.append(near)

        def verify(n):
            k, d = sigs[n]
            x = rng.random()
            kind = "none"
            if x < .4:
                pass
            elif x < .55:
                d = rng.choice(digests)
            elif x < .7:
                k = rng.choice(keys)
            else:
                kind = rng.choice(ALTER)
            ops.append({"op": "verify", "s": k, "b": d, "n": n, "kind": kind, "i": rng.randrange(256),
                        "str": rng.choice(["x", "x", "xs", "own"])})
        for n in range(rng.choice([3, 5, 8])):
            if rng.random() < .5:
                ops.append({"op": "reload", "s": rng.choice(keys), "flag": rng.random() < .5})
            k = rng.choice(keys)
            d = rng.choice(digests)
            ops.append({"op": "sign", "s": k, "b": d, "n": n})
            sigs[n] = (k, d)
            for f in ("x", "own"):
                ops.append({"op": "verify", "s": k, "b": d, "n": n, "kind": "none", "i": 0, "str": f})
            for _ in range(rng.choice([3, 6])):
                verify(rng.choice(sorted(sigs)))
            if rng.random() < .5:              # no key at all
                c = rng.choice([[], [0], [0] * 32, [255] * 32, b32(P), b32(P - 1), b32(P + 5), [rng.randrange(256) for _ in range(32)],
                                [rng.randrange(256) for _ in range(31)], [1] + [0] * 32, b32(rng.randrange(20))])
                ops.append({"op": "stray", "b": d, "c": c, "n": n, "flag": rng.random() < .3})
        cases.append({"cfg": {}, "ops": ops})
    return [Job("Trace_Signing", "sign", cases)]
