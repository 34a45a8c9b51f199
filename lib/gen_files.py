"""Scripts for the texts of key files (C31), digests (C32), minima, maxima,
choice and nil tests (C33)."""
import zlib
from vf import Job
from gen_codec import rng_for, unique, chunk
from gen_crypt import private, secret, P, N
from gen_misc import RBITS
from gen_slices import limbs

G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
CLASS = ["node", "cluster", "universe", "service", "federation"]


def add(p, q):
    if p is None or q is None:
        return p or q
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        m = (3 * p[0] * p[0] - 3) * pow(2 * p[1], -1, P)
    else:
        m = (q[1] - p[1]) * pow(q[0] - p[0], -1, P)
    x = (m * m - p[0] - q[0]) % P
    return x, (m * (p[0] - x) - p[1]) % P


def x_of(d):
    """X of the public key of the private key d, as bytes."""
    n, p, r = int.from_bytes(bytes(d), "big"), G, None
    while n:
        if n & 1:
            r = add(r, p)
        p = add(p, p)
        n >>= 1
    return r[0].to_bytes(32, "big")


def signed(b):
    return b + zlib.crc32(b).to_bytes(4, "big")


def text(b):
    return [ord(c) for c in b.hex().upper()]


def keyfiles(ck):
    rng = rng_for(ck, "keyfiles")
    cases = []
    made = unique(ck.emits["MC_KeyFiles"])
    for k, (sec, nonce, d, priv) in enumerate(made):        # files of the specification
        i = 1 + k % 5
        at = {"i": i, "str": "k%d" % k}
        pub = text(signed(x_of(d)))
        put = dict(at, op="fput", x=CLASS[i - 1], y=CLASS[i - 1] + "_id")

        def look(p, t, ops):
            ops += [dict(put, b=p, c=t), dict(at, op="loadpub"), dict(at, op="loadpriv", c=sec)]

        def lower(t):
            return [c + 32 if 65 <= c <= 70 and rng.random() < .7 else c for c in t]
        ops = []
        look(pub, priv, ops)
        look(lower(pub), lower(priv), ops)
        other = list(sec)
        other[rng.randrange(len(other))] ^= 1 << rng.randrange(8)
        ops.append(dict(at, op="loadpriv", c=other))
        ops.append(dict(at, op="loadpriv", c=secret(rng, False)))
        raw, rawpub = bytes.fromhex("".join(map(chr, priv))), bytes.fromhex("".join(map(chr, pub)))
        for _ in range(3 if not ck.thorough else 8):        # altered, some with the check sum of what they hold
            b, p = bytearray(raw), bytearray(rawpub)
            for f in (b, p):
                how = rng.choice(["bit", "byte", "cut", "more", "turn"])
                if how == "bit":
                    f[rng.randrange(len(f))] ^= 1 << rng.randrange(8)
                elif how == "byte":
                    f[rng.randrange(len(f))] = rng.randrange(256)
                elif how == "cut":
                    del f[rng.randrange(len(f)):]
                elif how == "more":
                    f.extend(rng.randrange(256) for _ in range(rng.choice([1, 2, 4])))
                else:                          # its check sum the other way round
                    f[-4:] = f[-4:][::-1]
            if rng.random() < .6:
                b = bytearray(signed(bytes(b[:-4]))) if len(b) > 4 else b
            look(text(bytes(p)), text(bytes(b)), ops)
        look(pub, priv, ops)
        cases.append({"cfg": {}, "ops": ops})
    for k in range(50 if not ck.thorough else 800):         # saved ones, saved again with the same keys and secret
        at = {"i": 1 + k % 5, "str": "s%d" % k}
        ops = []
        keys = [(private(rng), secret(rng)) for _ in range(rng.choice([1, 2]))]
        for _ in range(rng.choice([2, 4, 6])):
            d, s = rng.choice(keys)
            if rng.random() < .1:
                s = secret(rng, False)
            ops += [dict(at, op="fsave", b=d, c=s), dict(at, op="loadpub"), dict(at, op="loadpriv", c=s)]
        cases.append({"cfg": {}, "ops": ops})
    for k in range(10 if not ck.thorough else 60):          # many saves: a bit of the nonce stays the same with 2^-72
        at = {"i": 1 + k % 5, "str": "m%d" % k, "b": private(rng), "c": secret(rng)}
        ops = [dict(at, op="fmany", n=80), dict(at, op="loadpub"), dict(at, op="loadpriv")]
        if k % 2:
            ops = [dict(at, op="fsave")] + ops + [dict(at, op="fsave")]
        cases.append({"cfg": {}, "ops": ops})
    rng.shuffle(cases)
    return [Job("Trace_KeyFiles", "keyfiles", cases)]


def digests(ck):
    rng = rng_for(ck, "digests")
    lists = []
    sizes = list(range(0, 140)) + [183, 184, 191, 192, 247, 248, 256, 311, 312, 511, 512, 1000]
    if ck.thorough:
        sizes = list(range(0, 1030)) + [4096, 8191]
    for n in sizes:
        for op in ("sha256", "sha256d", "md5"):
            if op == "sha256d" and n % 4 and n > 10:
                continue
            x = rng.random()
            b = [0] * n if x < .1 else [255] * n if x < .2 else [rng.randrange(256) for _ in range(n)]
            lists.append([{"op": op, "b": b}])
    # long ones: records have up to 64 KB
    longs = [4095, 4096, 8192, 16385, 32768, 65535, 65536, 65537] + [rng.randrange(2000, 70000) for _ in range(2)]
    if ck.thorough:
        longs += [131072, 131073, 200000] + [rng.randrange(2000, 140000) for _ in range(20)]
    for n in longs:
        for op in ("sha256", "md5", "pad"):
            lists.append([{"op": op, "n": n, "i": rng.randrange(256), "j": rng.choice([0, 1, 37, rng.randrange(256)])}])
    for n in range(0, 50):
        for _ in range(3):
            lists.append([{"op": "pad", "b": [rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)]}])
    for _ in range(100 if not ck.thorough else 2000):       # passphrases
        b = [rng.randrange(32, 127) for _ in range(rng.randrange(8, 40))]
        lists.append([{"op": rng.choice(["sha256", "sha256d", "md5", "pad"]), "b": b}])
    rng.shuffle(lists)
    return [Job("Trace_Digests", "digests", chunk(lists, 20))]


NILS = ["nil", "nil pointer", "nil pointer to pointer", "nil map", "nil slice", "nil bytes", "nil channel", "nil object",
        "nil interface", "nil object as interface", "nil pointer to array", "nil raw", "pointer", "pointer to nil", "map",
        "slice", "bytes", "channel", "object", "function", "function value", "array", "empty array", "array of pointers",
        "named array", "pointer to array", "int", "string", "bool", "float", "struct", "struct pointer", "curve", "raw"]


def small(ck):
    rng = rng_for(ck, "small")
    lists = [[{"op": "isnil", "kind": k}] for k in NILS]
    for k, a, b in unique(ck.emits["MC_Small"]):
        lists.append([{"op": "minmax", "kind": k, "l": a, "l2": b}])
    bits = dict(RBITS, int=64, uint=64)
    for k, w in bits.items():
        for _ in range(200 if not ck.thorough else 4000):
            a = rng.randrange(1 << w)
            b = rng.choice([rng.randrange(1 << w), a, (a + rng.choice([1, -1, 1 << (w - 1), 1 << (w // 2)])) % (1 << w),
                            a ^ (1 << rng.randrange(w))])
            lists.append([{"op": "minmax", "kind": k, "l": limbs(a, w), "l2": limbs(b, w)}])
    for f in (True, False):
        for _ in range(10):
            lists.append([{"op": "ternary", "flag": f, "i": rng.randrange(100), "j": rng.randrange(100)}])
    rng.shuffle(lists)
    return [Job("Trace_Small", "small", chunk(lists, 300))]


# -- C34 ---------------------------------------------------------------------
def passphrase(rng, usable=True):
    n = rng.choice([8, 8, 9, 12, 15, 16, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40] if usable else [0, 1, 5, 7])
    return [rng.randrange(33, 127) if rng.random() < .9 else rng.randrange(128, 256) for _ in range(n)]


def pad16(p):
    return (p + [0] * 16)[:16]


def near(rng, p):
    """A passphrase like p, but another, maybe only after its 16th byte."""
    q = list(p)
    x = rng.random()
    if x < .3 or len(p) < 9:
        q[rng.randrange(len(q))] ^= 1
    elif x < .6:
        q.append(65)
    else:
        q.pop()
    return q


def keygen(ck):
    rng = rng_for(ck, "keygen")
    cases = []
    hists = [h for h in unique(ck.emits["MC_KeyGen"]) if h]
    full = max(len(h) for h in hists)
    hists = [h for h in hists if len(h) == full]
    def lively(h):                             # all passphrases good, and something that is not a run
        return (all(st[0] != "run" or st[4][0] == st[4][1] and len(st[4][0]) > 7 for st in h) and
                any(st[0] == "run" for st in h[1:]) and any(st[0] != "run" for st in h[:-1]))
    some = [h for h in hists if lively(h)]
    k = 150 if not ck.thorough else 2000
    hists = rng.sample(some, min(len(some), k)) + rng.sample(hists, min(len(hists), k))

    def looks(ops, n, passes):
        for j in range(1, n + 1):
            for p in passes:
                ops.append({"op": "gload", "n": j, "c": pad16(p)})
                if rng.random() < .5:
                    ops.append({"op": "promptload", "n": j, "b": p})
    for h in hists:                            # histories of the model
        p = passphrase(rng)
        q = near(rng, p)
        if len(q) < 8:
            q = p + [66]
        short = passphrase(rng, False)
        cls = rng.sample(range(1, 6), 2)
        alias = rng.choice(["a", "alias", "my-node", "A.b"])
        ops = []
        for st in h:
            c = cls[st[1] - 1]
            if st[0] == "run":
                pair = {65: p, 66: q}
                b, d = (short, short) if len(st[4][0]) < 8 else (pair[st[4][0][0]], pair[st[4][1][0]])
                a = {"": "", "a": alias, "k1": "@1"}[st[2]]
                ops.append({"op": "pkeygen", "i": c, "str": a, "flag": st[3], "b": b, "c": d, "str2": st[5]})
            elif st[0] == "remove":
                ops.append({"op": "gremove", "n": int(st[2][1])})
            else:
                ops.append({"op": "gother", "i": c, "str": alias})
        looks(ops, 3, [p, q])
        cases.append({"cfg": {}, "ops": ops})
    for _ in range(25 if not ck.thorough else 400):         # longer ones
        ops, passes, names = [], [passphrase(rng) for _ in range(3)], ["a", "b", "", "@1", "@2"]
        for _ in range(rng.choice([5, 8, 12])):
            x = rng.random()
            c = rng.choice([1, 1, 2, 5])
            if x < .7:
                b = rng.choice(passes + [passphrase(rng, False)])
                d = b if rng.random() < .85 else rng.choice([near(rng, b) if b else [65], rng.choice(passes)])
                ops.append({"op": "pkeygen", "i": c, "str": rng.choice(names), "flag": rng.random() < .4, "b": b, "c": d,
                            "str2": rng.choice(["y", "Y", "n", "N", "", "yes", "no", "x"])})
            elif x < .8:
                ops.append({"op": "gremove", "n": rng.randrange(1, 4)})
            elif x < .85:
                ops.append({"op": "gother", "i": c, "str": rng.choice(["a", "b"])})
            else:
                looks(ops, rng.randrange(1, 4), [rng.choice(passes)])
        looks(ops, 4, passes)
        cases.append({"cfg": {}, "ops": ops})
    for k in range(60 if not ck.thorough else 600):         # prompts of the library
        ops = []
        i = 1 + k % 5
        for n in range(2):
            p = passphrase(rng, rng.random() < .85)
            at = {"i": i, "str": "p%d" % n, "b": private(rng), "c": p}
            ops.append(dict(at, op="promptsave"))
            for d in (p, near(rng, p) if p else [65] * 8, passphrase(rng)):
                ops.append(dict(at, op="promptback", d=d))
        cases.append({"cfg": {}, "ops": ops})
    p = passphrase(rng)
    for x in ([], ["-class", "nodes"], ["-class", "Node"], ["-class", ""], ["-alias", "a"], ["-force"], ["-class", "key", "-alias", "a", "-force"]):
        cases.append({"cfg": {}, "ops": [{"op": "pkeygen", "i": 1, "str": "a", "flag": False, "b": p, "c": p, "str2": "n"},
                                         {"op": "usage", "x": x, "b": p, "c": p}]})
    for c in cases:                            # all typed at once, before it asks
        ahead = rng.random() < .4
        for o in c["ops"]:
            if o["op"] == "pkeygen" and ahead and rng.random() < .8:
                o["set"] = True
    return [Job("Trace_KeyGen", "keygen", cases, shards=1)]
