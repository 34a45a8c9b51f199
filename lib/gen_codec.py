"""Scripts for keys, values, records and schemes (C09, C10, C11, C12, C13, C30)."""
import random
from vf import Job
from gen_sorted import hash_str

TAILS = [[], [0], [1], [255], [1, 1], [255, 255, 255], [64, 1], [0] * 70, [128] * 9]


def rng_for(ck, name):
    return random.Random(ck.seed * 1000003 + hash_str(name))


def unique(items):
    seen, out = set(), []
    for x in items:
        s = str(x)
        if s not in seen:
            seen.add(s)
            out.append(x)
    return out


def emitted(ck, kind):
    return unique([x[1] for x in ck.emits["MC_Codec"] if x[0] == kind])


def rbytes(rng, n):
    if n > 64:
        return [(i * 31 + rng.randrange(2)) & 255 for i in range(n)]
    return [rng.choice([0, 1, 2, 64, 127, 128, 254, 255, rng.randrange(256)]) for _ in range(n)]


def subkey(rng, big=0):
    n = rng.choice([1, 1, 1, 2, 3, 5, 8, 127, 128, 129] if big else [1, 1, 2, 3, 4])
    return rbytes(rng, n)


def key(rng, big=0, odd=.08):
    k = [subkey(rng, big) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 9] + ([130] if big > 1 else [])))]
    while k and rng.random() < odd:             # empty sub keys, as foreign bytes may have them
        k[rng.randrange(len(k))] = []
    return k


def uvlen(n):
    return 1 if n < 128 else 2 if n < 16384 else 3


def keylen(k):
    return uvlen(len(k)) + sum(uvlen(len(s)) + len(s) for s in k)


def key_of_len(rng, total):
    """A key whose encoding takes about total bytes."""
    k = []
    while keylen(k) < total:
        room = total - keylen(k)
        n = rng.choice([1, 2, 100, 127, 128, 300, 1000, 4090])
        n = min(n, max(1, room - (1 if room < 129 else 2)))
        k.append(rbytes(rng, n))
        if keylen(k) > total:
            break
    return k


def prim(rng, big=0):
    n = rng.choice([0, 1, 1, 2, 3, 4, 7] + ([127, 128, 254, 255, 256, 257, 300] if big else []))
    return ["p", rbytes(rng, n)] if n else rng.choice([["n", []], ["p", []]])


def value(rng, depth, big=0):
    x = rng.random()
    if depth == 0 or x < .4:
        return prim(rng, big)
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    if x < .75:
        return ["a", [value(rng, depth - 1, big) for _ in range(n)]]
    return ["l", [record(rng, depth - 1, big) for _ in range(n)]]


def timeb(rng):
    if rng.random() < .3:
        return []
    return rng.choice([[0] * 8, [0] * 7 + [1], [127] + [255] * 7, [128] + [0] * 7, [255] * 8,
                       rbytes(rng, 8), rbytes(rng, 8)])


def sig(rng):
    if rng.random() < .4:
        return []
    s = [rng.randrange(256) for _ in range(64)]
    x = rng.random()
    if x < .3:                      # leading zeros
        for i in range(rng.choice([1, 2, 5, 31])):
            s[i] = 0
    if x < .2:
        for i in range(rng.choice([1, 3, 32])):
            s[32 + i] = 0
    elif x > .9:
        s = [255] * 64
    return s


def record(rng, depth, big=0):
    v = value(rng, depth, big) if rng.random() < .7 else ["n", []]
    s = value(rng, min(depth, 1), 0) if rng.random() < .4 else ["n", []]
    return [key(rng, big) if rng.random() < .7 else [], v, s, timeb(rng), sig(rng)]


def timed(v):
    """The value without the signatures of records without a time (an encoding
    drops them)."""
    if v[0] == "a":
        return ["a", [timed(x) for x in v[1]]]
    if v[0] == "l":
        return ["l", [timed_rec(r) for r in v[1]]]
    return v


def timed_rec(r):
    return [r[0], timed(r[1]), timed(r[2]), r[3], r[4] if r[3] else []]


def paths(rng, kind, item, n):
    """Random paths into an item, some leading nowhere."""
    out = []
    for _ in range(n):
        p, k, x = [], kind, item
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            if rng.random() < .12:
                p.append([rng.randrange(4), rng.choice([0, 1, 2, 255, 256, 65535])])
                break
            if k == "val" and x[0] in ("a", "l"):
                m = len(x[1])
                i = rng.randrange(m + 1) if rng.random() < .2 or m == 0 else rng.randrange(m)
                p.append([0 if x[0] == "a" else 1, i])
                if i >= m:
                    break
                k, x = ("val" if x[0] == "a" else "rec"), x[1][i]
            elif k == "rec":
                st = rng.choice([2, 2, 3])
                p.append([st, 0])
                x, k = x[st - 1], "val"
            else:
                if rng.random() < .3:
                    p.append([rng.randrange(4), 0])
                break
        out.append(p)
    return out


def item_ops(rng, kind, item, n):
    ops = [{"op": "enc", "kind": kind, "x": item, "i": rng.randrange(1 << 20)},
           {"op": "dec", "kind": kind, "b": rng.choice(TAILS)}]
    for p in paths(rng, kind, item, n):
        ops.append({"op": "at", "ll": p})
    ops.append({"op": "read"})
    if rng.random() < .3:
        ops += [{"op": "dec", "kind": kind, "b": rng.choice(TAILS)}, {"op": "read"}]
    return ops


def chunk(ops_lists, size, cfg=None):
    """Groups independent lists of calls into cases."""
    cases, cur = [], []
    for o in ops_lists:
        cur += o
        if len(cur) >= size:
            cases.append({"cfg": dict(cfg or {}), "ops": cur})
            cur = []
    if cur:
        cases.append({"cfg": dict(cfg or {}), "ops": cur})
    return cases


# -- C09 ---------------------------------------------------------------------
def key_forms(k):
    size = keylen(k)
    f = ["c"] + (["d", "t", "k", "m"] if size <= 4096 else [])
    if not k:
        f.append("e")
    if len(k) == 1:
        f += ["s", "n"]
    return f


def keys_cmp(ck):
    rng = rng_for(ck, "keycmp")
    ops = []

    def cmp(a, b):
        ops.append({"op": "kcmp", "bb": a, "str": rng.choice(key_forms(a)), "cc": b, "str2": rng.choice(key_forms(b))})
    for _ in range(200):
        a = key(rng, rng.choice([0, 0, 1]))
        if rng.random() < .2:
            a = []
        ops.append({"op": "knil", "bb": a, "str": rng.choice(key_forms(a)), "n": rng.randrange(4)})
    for a, b in unique(ck.emits["MC_Keys"]):
        for _ in range(2 if not ck.thorough else 12):
            cmp(a, b)
    for _ in range(3000 if not ck.thorough else 60000):
        a = key(rng, rng.choice([0, 0, 0, 1, 2]))
        b = [list(s) for s in a]
        style = rng.randrange(8)
        if style == 0:
            b = key(rng, 1)
        elif style == 1 and b:
            i = rng.randrange(len(b))
            b[i] = subkey(rng)
        elif style == 2:
            b = b[:rng.randrange(len(b) + 1)]
        elif style == 3:
            b.append(subkey(rng))
        elif style == 4 and b:
            i = rng.randrange(len(b))
            b[i] = b[i] + [rng.choice([0, 255])]
        elif style == 5 and len(b) > 1:
            i = rng.randrange(len(b) - 1)
            b[i:i + 2] = [b[i] + b[i + 1]]
        elif style == 6 and any(b):
            i = rng.choice([i for i in range(len(b)) if b[i]])
            j = rng.randrange(len(b[i]))
            b[i][j] = (b[i][j] + rng.choice([1, 127, 128, 255])) % 256
        if rng.random() < .5:
            a, b = b, a
        cmp(a, b)
    return [Job("Trace_Keys", "keys", chunk([[o] for o in ops], 400))]


# -- C10 ---------------------------------------------------------------------
def some_keys(ck, rng, n):
    ks = [k for k in emitted(ck, "key")]
    for _ in range(n):
        ks.append(key(rng, rng.choice([0, 1, 1, 2])))
    for t in (4090, 4094, 4095, 4096, 4096, 4096, 4097, 4098, 4100, 5000, 9000):
        for _ in range(1 if not ck.thorough else 10):
            ks.append(key_of_len(rng, t))
    for n1 in (4091, 4092, 4093, 4094, 4095, 4096):     # one large sub key
        ks.append([rbytes(rng, n1)])
    for n1 in (127, 128, 1365, 1366, 2046, 2047, 2048, 4000):       # many sub keys
        ks.append([[i % 256] for i in range(n1)])
    return ks


def keys_codec(ck):
    rng = rng_for(ck, "keycodec")
    lists = []
    for k in some_keys(ck, rng, 700 if not ck.thorough else 8000):
        forms = key_forms(k)
        for form in (forms if len(k) < 50 and keylen(k) < 500 else ["c"]):
            o = [{"op": "kenc", "bb": k, "str": form}]
            if keylen(k) <= 4096:
                for t in rng.sample(TAILS, 2 if not ck.thorough else 5):
                    o.append({"op": "kdec", "b": t})
            lists.append(o)
    return [Job("Trace_Codec", "codec", chunk(lists, 100))]


# -- C11 ---------------------------------------------------------------------
def big_values(rng, thorough):
    vs = []
    for n in (255, 256, 257, 65534, 65535, 65536, 65537, 70000):
        vs.append(["p", rbytes(rng, n)])
    for n in (254, 255, 256, 257, 1000):                    # element counts around a byte
        vs.append(["a", [["n", []] if i % 3 else ["p", [i % 256]] for i in range(n)]])
        vs.append(["l", [[[[1]] if i % 3 == 0 else [], ["n", []], ["n", []], [], []] for i in range(n)]])
    for n in (251, 252, 253, 254, 255, 256):                # content around a byte
        vs.append(["a", [["p", rbytes(rng, n)]]])
        vs.append(["a", [["a", [["p", rbytes(rng, n)]]]]])
        vs.append(["l", [[[], ["p", rbytes(rng, n)], ["n", []], [], []]]])
    for n in (65531, 65532, 65533):                         # content around two bytes
        vs.append(["a", [["p", rbytes(rng, n)]]])
    vs.append(["a", [["p", rbytes(rng, 40000)], ["p", rbytes(rng, 40000)]]])
    vs.append(["a", [["p", rbytes(rng, 30000)], ["p", rbytes(rng, 30000)]]])
    vs.append(["l", [[[], ["p", rbytes(rng, 57341)], ["n", []], [], []]]])
    vs.append(["l", [[[], ["p", rbytes(rng, 57342)], ["n", []], [], []]]])
    vs.append(["l", [[[], ["p", rbytes(rng, 40000)], ["n", []], [], []]] * 2])
    vs.append(["a", [["a", [["p", rbytes(rng, 65533)]]]]])   # an inner one too large
    for n in ((65535, 65536) if not thorough else (65534, 65535, 65536, 70000)):
        vs.append(["a", [["n", []]] * n])
    vs.append(["l", [[[], ["n", []], ["n", []], [], []]] * 65535])
    return vs


def deep(rng, n):
    v = prim(rng)
    for i in range(n):
        v = ["a", [v]] if rng.random() < .6 else ["l", [[[[i]], v, ["n", []], [], []]]]
        if rng.random() < .3:
            v[1].append(v[1][0])
        if len(str(v)) > 4000:
            v = prim(rng)
    return v


def values_codec(ck, layout=False):
    rng = rng_for(ck, "values")
    lists = []
    cap = 5 if not ck.thorough else 12
    vs = emitted(ck, "val")
    for v in vs:
        lists.append(item_ops(rng, "val", v, cap))
    for _ in range(900 if not ck.thorough else 12000):
        lists.append(item_ops(rng, "val", value(rng, rng.choice([0, 1, 2, 2, 3, 4]), rng.choice([0, 0, 0, 1])),
                              rng.choice([2, 6, 12])))
    for n in (5, 10, 30, 60):
        lists.append(item_ops(rng, "val", deep(rng, n), 6))
    cases = chunk(lists, 60, {"layout": True} if layout else None)
    for v in big_values(rng, ck.thorough):
        ops = [{"op": "enc", "kind": "val", "x": v, "i": rng.randrange(1 << 20)}]
        n = len(v[1])
        fits = py_fits_val(v)
        if fits:
            ops.append({"op": "dec", "kind": "val", "b": rng.choice(TAILS)})
            st = {"a": 0, "l": 1}.get(v[0], 0)
            ix = [0, n - 1, n, 255, 256, n // 2, 65535] if n > 300 else [n - 1, n, 0]
            if n > 3000 and v[0] != "p" and not ck.thorough:
                ix = ix[:3]
            for i in ix:
                if 0 <= i < 65536:
                    ops.append({"op": "at", "ll": [[st, i]]})
            if not (n > 3000 and v[0] != "p"):     # reading by index is quadratic
                ops.append({"op": "read"})
        cases.append({"cfg": {"layout": layout}, "ops": ops})
    return [Job("Trace_Codec", "codec", cases, oplimit=40)]


def lenfield(n):
    return 0 if n == 0 else 1 if n < 256 else 2


def pvlen(v):
    """Encoded length; a script's only use of it is which calls to make."""
    if v[0] == "n" or not v[1]:
        return 1
    c = content(v)
    return 1 + lenfield(c) + c + (lenfield(len(v[1])) if v[0] in "al" else 0)


def content(v):
    return len(v[1]) if v[0] in "np" else sum((pvlen if v[0] == "a" else prlen)(x) for x in v[1])


def prlen(r):
    part = lambda v: 0 if v[0] == "n" or not v[1] else pvlen(v)
    return 1 + (keylen(r[0]) if r[0] else 0) + part(r[1]) + part(r[2]) + len(r[3]) + (len(r[4]) if r[3] else 0)


def py_fits_val(v):
    if content(v) > 65535:
        return False
    if v[0] == "a":
        return all(py_fits_val(x) for x in v[1])
    if v[0] == "l":
        return all(py_fits_rec(x) for x in v[1])
    return True


def py_fits_rec(r):
    return keylen(r[0]) <= 4096 and py_fits_val(r[1]) and pvlen(r[1]) <= 57344 and \
        py_fits_val(r[2]) and pvlen(r[2]) <= 1024


# -- C12 ---------------------------------------------------------------------
def limit_records(rng):
    rs = []
    t, s = [0, 1, 2, 3, 4, 5, 6, 7], list(range(1, 65))
    N = ["n", []]
    for n in (4090, 4095, 4096, 4097, 4100):
        k = key_of_len(rng, n)
        rs.append([k, ["p", [1]], N, t, s])
        rs.append([k, N, N, [], []])
    for n in (57340, 57341, 57342, 57343, 65535, 65536):
        rs.append([[[1]], ["p", rbytes(rng, n)], N, [], []])
    for n in (1020, 1021, 1022, 1023, 1100):
        rs.append([[[1]], ["p", [9]], ["p", rbytes(rng, n)], t, []])
        rs.append([[], N, ["a", [["p", rbytes(rng, n - 4)]]], t, s])
    for n in (57330, 57335, 57336, 57337, 57338, 57339, 57340):
        rs.append([[], ["a", [["p", rbytes(rng, n)]]], N, [], []])
    rs.append([[], ["l", [[[], ["p", rbytes(rng, 57342)], N, [], []]]], N, [], []])
    rs.append([[], ["l", [[[], N, ["p", rbytes(rng, 1023)], [], []]]], N, [], []])
    rs.append([[], ["l", [[key_of_len(rng, 4097), N, N, [], []]]], N, [], []])
    return rs


def records_codec(ck, layout=False):
    rng = rng_for(ck, "records")
    lists = []
    for r in emitted(ck, "rec"):
        lists.append(item_ops(rng, "rec", r, 4))
    sg = [(i * 7 + 3) % 256 for i in range(64)]
    for k in ([], [[1, 2]], [[3], [4, 5]]):             # every subset of the parts
        for v in (["n", []], ["p", [7]], ["a", [["p", [1]], ["n", []]]]):
            for s in (["n", []], ["p", [0]]):
                for t in ([], [0] * 8, [128, 1, 2, 3, 4, 5, 6, 7]):
                    for g in ([], sg, [0] * 63 + [1], [0] * 64):
                        for tail in rng.sample(TAILS, 1 if not ck.thorough else 5):
                            lists.append([{"op": "enc", "kind": "rec", "x": [k, v, s, t, g], "i": rng.randrange(1 << 20)},
                                          {"op": "dec", "kind": "rec", "b": tail}, {"op": "read"}])
    for _ in range(800 if not ck.thorough else 10000):
        lists.append(item_ops(rng, "rec", record(rng, rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 0, 0, 1])),
                              rng.choice([2, 5])))
    cases = chunk(lists, 60, {"layout": True} if layout else None)
    for r in limit_records(rng):
        big = keylen(r[0]) > 4090
        for _ in range(3 if big else 1):                # the key in several forms
            ops = [{"op": "enc", "kind": "rec", "x": r, "i": rng.randrange(1 << 20)}]
            if py_fits_rec(r):
                ops += [{"op": "dec", "kind": "rec", "b": rng.choice(TAILS)}, {"op": "read"}]
            cases.append({"cfg": {"layout": layout}, "ops": ops})
    return [Job("Trace_Codec", "codec", cases)]


# -- C13 ---------------------------------------------------------------------
def uv(n):
    out = []
    while n > 127:
        out.append(n % 128 + 128)
        n //= 128
    return out + [n]


def enc_scheme(s):
    b = [128 * s[0][0] + 64 * s[1][0] + 32 * s[2][0]]
    for i in (0, 1):
        if s[i][0]:
            b += uv(len(s[i][1])) + s[i][1]
    if s[2][0]:
        b += uv(len(s[2][1]))
        for x in s[2][1]:
            b += uv(len(x)) + x
    return b


def some_schemes(ck, rng, n):
    ss = emitted(ck, "sch")

    def part(big):
        if rng.random() < .25:
            return [False, []]
        return [True, rbytes(rng, rng.choice([0, 1, 2, 5, 20] + ([127, 128, 200] if big else [])))]

    def buckets(big):
        if rng.random() < .25:
            return [False, []]
        return [True, [rbytes(rng, rng.choice([0, 1, 2, 3] + ([40, 130] if big else []))) for _ in range(rng.choice([0, 1, 2, 5, 9, 200] if big else [0, 1, 2, 3, 7]))]]
    for i in range(n):
        big = i % 5 == 0
        ss.append([part(big), part(big), buckets(big)])
    for total in (1023, 1024, 1025, 1026, 2000):
        for _ in range(4):
            a = rng.choice([0, 1, 100, 127, 128, 400])
            for s in ([[True, None], [False, []], [False, []]],
                      [[False, []], [True, None], [False, []]],
                      [[True, rbytes(rng, a)], [True, None], [False, []]],
                      [[True, rbytes(rng, a)], [False, []], [True, [[1], None]]],
                      [[True, None], [True, rbytes(rng, a)], [True, []]],
                      [[False, []], [False, []], [True, [None, [], [1]]]]):
                fixed = lambda n: [[x[0], [rbytes(rng, n) if y is None else y for y in x[1]] if k == 2 else
                                    (rbytes(rng, n) if x[1] is None else x[1])] for k, x in enumerate(s)]
                n1 = max(0, total - len(enc_scheme(fixed(0))))
                while n1 > 0 and len(enc_scheme(fixed(n1))) > total:
                    n1 -= 1
                ss.append(fixed(n1))
    return ss


def schemes(ck):
    rng = rng_for(ck, "schemes")
    lists = []
    for s in some_schemes(ck, rng, 1200 if not ck.thorough else 15000):
        b = enc_scheme(s)
        for t in rng.sample(TAILS, 1 if len(b) > 300 else 2):
            o = [{"op": "sdec", "b": b + t}]
            for _ in range(2):
                o.append({"op": "scopy", "flag": rng.random() < .5, "set": rng.random() < .4})
            lists.append(o)
    return [Job("Trace_Codec", "codec", chunk(lists, 60))]
