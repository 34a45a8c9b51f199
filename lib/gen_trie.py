"""Scripts for tries (C23, C24, C29)."""
import math
from vf import Job
from gen_codec import rng_for, unique, key_forms, rbytes, prim, value, key, TAILS, timed
from gen_sorted import walk, questions

NIL = ["n", []]


class Model:
    """Tracks which keys are stored, so that the scripts ask sensible things."""
    def __init__(self):
        self.m = {}
        self.odd = {}          # keys with empty sub keys, stored or left without a value

    def set(self, k, v):
        if v[0] == "n" or not v[1]:
            self.m.pop(str(k), None)
        else:
            self.m[str(k)] = (k, v)

    def keys(self):
        return [x[0] for x in sorted(self.m.values(), key=lambda x: x[0])]


def form(rng, k):
    return rng.choice(key_forms(k) if rng.random() < .6 else ["c"])


def pool(rng, style, n, odd=0.):
    """Keys that share prefixes, extend one another, or are empty, or - now and
    then - have empty sub keys."""
    out = [[]]
    while len(out) < n:
        if style == 0:            # deep chains over a tiny alphabet
            k = [[rng.randrange(2)] for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))]
        elif style == 1:          # sub keys that are prefixes of one another
            k = [rng.choice([[1], [1, 0], [1, 0, 0], [0], [255], [2]]) for _ in range(rng.choice([1, 2, 2, 3]))]
        elif style == 2:
            k = key(rng, rng.choice([0, 0, 1]), odd)
        elif style == 3:          # wide nodes
            k = [[rng.randrange(256)]] + [[rng.randrange(3)] for _ in range(rng.choice([0, 0, 1]))]
        else:                     # near one another
            k = [list(s) for s in rng.choice(out)]
            x = rng.randrange(4)
            if x == 0 or not k:
                k.append([rng.randrange(4)])
            elif x == 1:
                k.pop()
            elif x == 2:
                k[-1] = k[-1] + [rng.randrange(2)]
            else:
                k[rng.randrange(len(k))] = [rng.randrange(256)]
        if len(k) > 200:
            continue
        if rng.random() < odd:
            k.insert(rng.randrange(len(k) + 1), [])
        out.append(k)
    return out


def small_value(rng):
    return prim(rng) if rng.random() < .8 else timed(value(rng, 2))


def set_op(rng, mod, k, v=None):
    """v None removes."""
    o = {"op": "set", "bb": k, "str": form(rng, k), "flag": v is None, "x": v or NIL, "n": rng.randrange(1 << 16)}
    mod.set(k, v or NIL)
    if v is None:
        mod.odd.pop(str(k), None)
    elif [] in k:
        mod.odd[str(k)] = k
    return o


def encodable(rng, mod):
    """Encodes the trie, after keys were removed that no encoding can hold."""
    ops = [{"op": "enc"}]
    if mod.odd:
        ops += [set_op(rng, mod, k) for k in list(mod.odd.values())] + [{"op": "enc"}]
    return ops


def get_op(rng, k, s=0):
    return {"op": "get", "bb": k, "str": form(rng, k), "s": s}


def near(rng, ks):
    if not ks:
        return [[rng.randrange(3)]]
    k = [list(s) for s in rng.choice(ks)]
    if rng.random() < .03:
        return k + [[]]
    x = rng.randrange(5)
    if x == 0:
        k.append([rng.randrange(4)])
    elif x == 1 and k:
        k.pop()
    elif x == 2 and k:
        k[-1] = k[-1] + [0]
    elif x == 3 and k:
        i = rng.randrange(len(k))
        if len(k[i]) > 1:
            k[i] = k[i][:-1]
        else:
            k[i] = [(k[i][0] + rng.choice([1, 255])) % 256] if k[i] else [0]
    return k


def open_op(rng, mod, slot, i, ks):
    def some():
        return rng.choice(ks) if ks and rng.random() < .6 else near(rng, ks)
    x = rng.random()
    o = {"op": "open", "i": i, "s": slot, "kind": "all", "bb": [], "cc": [], "str": "c", "str2": "c", "set": False, "flag": False}
    if x < .2:
        pass
    elif x < .5:
        k = some()
        o.update({"kind": "key", "bb": k, "set": rng.random() < .93, "str": form(rng, k)})
    else:
        a, b = some(), some()
        if rng.random() < .2:
            b = [list(s) for s in a] + [[rng.randrange(256)]]
        if a > b:
            a, b = b, a
        o.update({"kind": "range", "bb": a, "cc": b, "set": rng.random() < .9, "flag": rng.random() < .85,
                  "str": form(rng, a), "str2": form(rng, b)})
    n = len([k for k in mod.keys() if (o["kind"] == "all" or (o["kind"] == "key" and (not o["set"] or k[:len(o["bb"])] == o["bb"])) or
             (o["kind"] == "range" and (not o["set"] or k >= o["bb"]) and (not o["flag"] or k < o["cc"])))])
    return o, n


def iterate(rng, mod, ks, slots, times):
    ops = []
    for _ in range(times):
        o, n = open_op(rng, mod, rng.choice(slots), 0, ks)
        ops.append(o)
        extra = rng.choice([0, 1, 3, 6])       # value-less nodes
        if rng.random() < .15:                   # two iterators interleaved
            o2, n2 = open_op(rng, mod, rng.choice(slots), 1, ks)
            ops.append(o2)
            for _ in range(2 * (n + n2) + 6):
                ops.append({"op": rng.choice(["has", "peek", "next", "next"]), "i": rng.randrange(2)})
        else:
            ops += walk(rng, 0, n + extra, rng.choice(["plain", "next", "peeky", "peeky"]))
    return ops


def observe(rng, mod, ks, want, slots):
    ops = []
    if want == "get":
        for k in ks:
            ops.append(get_op(rng, k, rng.choice(slots)))
        for _ in range(4):
            ops.append(get_op(rng, near(rng, ks), rng.choice(slots)))
    else:
        ops += iterate(rng, mod, ks, slots, 2 if len(ks) < 12 else 1)
    return ops


def encdec(rng, mod, ks):
    ops = encodable(rng, mod) + [{"op": "dec", "s": 1, "b": rng.choice(TAILS)}]
    asked = ks if len(ks) < 25 else rng.sample(ks, 25)
    for k in asked:
        ops.append(get_op(rng, k, 1))
    for _ in range(3):
        ops.append(get_op(rng, near(rng, ks), 1))
    o = {"op": "open", "i": 0, "s": 1, "kind": "all", "bb": [], "cc": [], "str": "c", "str2": "c", "set": False, "flag": False}
    ops.append(o)
    ops += walk(rng, 0, len(mod.m) + rng.choice([2, 4, 9]), rng.choice(["next", "plain", "peeky"]))
    if rng.random() < .5:
        ops += iterate(rng, mod, ks, [1], 1)
    return ops


def case(rng, want, style, nkeys, nops, big=False):
    mod, ops = Model(), []
    odd = rng.choice([0., 0., 0., .1])
    ks = pool(rng, style, nkeys, odd)
    val = (lambda: timed(value(rng, 3, 1))) if big else (lambda: small_value(rng))
    grow = rng.choice([.8, .6, .45])
    for _ in range(nops):
        x = rng.random()
        stored = mod.keys()
        if x < .75 or not stored:
            k = rng.choice(ks)
            if rng.random() < grow:
                ops.append(set_op(rng, mod, k, val()))
            else:
                if stored and rng.random() < .6:
                    k = rng.choice(stored)
                elif rng.random() < .5:
                    k = near(rng, ks)
                ops.append(set_op(rng, mod, k))
        elif want == "get":
            k = rng.choice(ks) if rng.random() < .7 else near(rng, ks)
            ops.append(get_op(rng, k))
        elif want == "iter" and x > .95:
            ops += iterate(rng, mod, ks, [0], 1)
        elif want == "codec" and x > .96:
            ops += encdec(rng, mod, ks)
    if want == "codec":
        ops += encdec(rng, mod, ks)
    elif want == "iter":
        slots = [0]
        if rng.random() < .5:
            ops += encodable(rng, mod) + [{"op": "dec", "s": 1, "b": rng.choice(TAILS)}]
            slots = [0, 1, 1]
        ops += observe(rng, mod, ks, want, slots)
    else:
        ops += observe(rng, mod, ks, want, [0])
    return {"cfg": {}, "ops": ops}


def replays(ck, rng, want, limit):
    hs = ck.emits["MC_Trie"]
    hs = hs if len(hs) <= limit else rng.sample(hs, limit)
    out = []
    for h in hs:
        mod, ops = Model(), []
        for k, v in h:
            ops.append(set_op(rng, mod, k, None if v == NIL else v))
        ks = [k for k, _ in h] + [[], [[1]], [[1, 0]], [[1], [1]], [[1], [2]], [[1, 0], [1]], [[1], [1], [2]], [[2]]]
        ops += encdec(rng, mod, ks) if want == "codec" else observe(rng, mod, ks, want, [0])
        out.append({"cfg": {}, "ops": ops})
    return out


def limits(rng):
    """Values at and over the limit of their content."""
    out = []
    for n, last in ((65535, None), (65536, None), (65536, "remove"), (40000, None)):
        mod = Model()
        k = [[1], [2]]
        ops = [set_op(rng, mod, k, ["p", rbytes(rng, n)]), set_op(rng, mod, [[1]], ["p", [3]]), {"op": "enc"}]
        if last:
            ops += [set_op(rng, mod, k), {"op": "enc"}]
        if n < 65536 or last:
            ops += [{"op": "dec", "s": 1, "b": [1]}, get_op(rng, k, 1), get_op(rng, [[1]], 1)]
        out.append({"cfg": {}, "ops": ops})
    mod = Model()          # long sub keys and offsets of several bytes
    ops = []
    for i in range(12):
        k = [rbytes(rng, rng.choice([1, 127, 128, 200, 3000])) for _ in range(rng.choice([1, 2, 3]))]
        ops.append(set_op(rng, mod, k, ["p", rbytes(rng, rng.choice([1, 200, 300, 2000]))]))
        ops[-1]["str"] = "c"
    ks = mod.keys()
    for o in encdec(rng, mod, ks):
        if "str" in o:
            o["str"] = "c"
        out and ops.append(o)
    out.append({"cfg": {}, "ops": ops})
    return out


def bulk(rng, want, style, size, base=0):
    """Histories of a trie of thousands of keys."""
    def step():
        while True:
            j = rng.choice([1, -1, rng.randrange(1, min(size, (1 << 31) // size - 10))])
            if math.gcd(abs(j), size) == 1:
                return j

    def subs(k):
        d = []
        while style == "digits" and k > 0:
            k, d = k // base, [k % base] + d
        return (d, k)                          # in the other styles the numbers have the order of the keys

    def many(op, n):
        ops.append({"op": op, "n": n, "i": rng.randrange(size), "j": step(), "m": size, "s": rng.randrange(251)})

    def look():
        slots = [0]
        if want == "codec" or rng.random() < .3:
            ops.append({"op": "codec"})
            slots = [1] if want == "codec" else [0, 1]
        for s in slots:
            if want == "iter":
                for _ in range(3):
                    a, b = sorted([rng.randrange(size), rng.randrange(size)], key=subs)
                    ops.append({"op": "range", "s": s, "k": a, "v": b})
                    ops.append({"op": "below", "s": s, "k": rng.choice([a, rng.randrange(min(size, 300))])})
            ops.append({"op": "census", "s": s, "m": size})
    ops = []
    many("fill", size)
    look()
    for _ in range(2):
        many("drop", rng.choice([size // 2, size - 1, rng.randrange(size)]))
        look()
        many("fill", rng.randrange(size))
        look()
    if want == "codec":                        # a trie decoded before
        many("drop", size // 3)
        ops.append({"op": "census", "s": 1, "m": size})
    return {"cfg": {"kind": style, "i": base}, "ops": ops}


def bulks(ck, rng, want):
    shapes = [("wide", 300, 0), ("halves", 3000, 0), ("digits", 4097, 16), ("digits", 1500, 2), ("digits", 700, 255), ("deep", 130, 0)]
    if ck.thorough:
        shapes += [("wide", 20000, 0), ("halves", 66000 // 2, 0), ("digits", 30000, 7), ("wide", 65535, 0), ("deep", 260, 0)]
    return [Job("Trace_TrieBulk", "triebulk", [bulk(rng, want, *s) for s in shapes], oplimit=60)]


def jobs(want):
    def make(ck):
        rng = rng_for(ck, "trie" + want)
        cases = replays(ck, rng, want, 1200 if not ck.thorough else 30000)
        n = {"get": 300, "iter": 240, "codec": 220}[want] * (1 if not ck.thorough else 12)
        for i in range(n):
            cases.append(case(rng, want, i % 5, rng.choice([3, 5, 8, 12, 20, 40] if i % 10 else [60, 120]),
                              rng.choice([5, 10, 20, 40, 80] if i % 10 else [150]), want == "codec" and i % 7 == 0))
        if want == "codec":
            cases += limits(rng)
        if want == "iter":
            for c in cases:
                if rng.random() < .4:
                    ks = [o["bb"] for o in c["ops"] if o["op"] == "set"] or [[[1]]]
                    c["ops"] = questions(rng, c["ops"], lambda: {"op": "enc"} if rng.random() < .1 else
                                         get_op(rng, rng.choice(ks) if rng.random() < .7 else near(rng, ks)), .2)
        return [Job("Trace_Trie", "trie", cases)] + bulks(ck, rng, want)
    return make


def layouts(ck):
    """The bytes of tries (C35)."""
    rng = rng_for(ck, "trielayout")
    read, made = [], []
    bs = unique(ck.emits["MC_TrieLayout"])
    if not ck.thorough:
        bs = rng.sample(bs, min(500, len(bs)))
    probes = [[], [[1]], [[1, 0]], [[1], [1]], [[1], [1, 0]], [[2]], [[1, 0], [1]], [[1, 0], [1], [1]], [[1], [1], [1, 0]], [[1], [1, 0], [1]]]
    for b in bs:
        ops = [{"op": "tload", "b": b + rng.choice(TAILS)}, {"op": "tall"}]
        ops += [{"op": "get", "bb": k, "str": form(rng, k)} for k in probes]
        ops.append({"op": "tload", "b": b[:rng.randrange(len(b))]})
        read.append({"cfg": {}, "ops": ops})
    for _ in range(150 if not ck.thorough else 2500):
        mod, ops = Model(), []
        ks = pool(rng, rng.randrange(5), rng.choice([2, 4, 8, 16]))
        for _ in range(rng.choice([1, 2, 5, 12, 30])):
            k = rng.choice(ks)
            ops.append(set_op(rng, mod, k, None if rng.random() < .2 else NIL if rng.random() < .05 else small_value(rng)))
            if rng.random() < .2:
                ops.append({"op": "enc"})
        ops.append({"op": "enc"})
        made.append({"cfg": {}, "ops": ops})
    return [Job("Trace_TrieLayout", "layout", read), Job("Trace_TrieLayout", "trie", made)]


def forest(ck):
    """Nodes put together by hand (C41)."""
    rng = rng_for(ck, "forest")
    SUBS = [[1], [1, 0], [2], [0], [255], [1, 0, 0]]

    def val(o):
        o["flag"] = rng.random() < .1
        o["x"] = NIL if rng.random() < .15 else small_value(rng)
        o["m"] = rng.randrange(1 << 16)
        return o

    def some_sub():
        return rng.choice(SUBS)

    class F:                      # what the scripts ask about
        def __init__(self):
            self.p, self.k, self.made, self.enc, self.ops = [0], [[]], [True], [False], []

        def add(self, op, p, k, made):
            self.ops.append(op)
            self.p.append(p); self.k.append(k); self.made.append(made); self.enc.append(not made)

        def path(self, n):
            out = []
            while self.p[n]:
                out.insert(0, self.k[n]); n = self.p[n]
            return out

        def roots(self):
            return [n for n in range(1, len(self.p)) if not self.p[n]]

        def any(self):
            return rng.randrange(1, len(self.p))

        def ask(self, all_=False):
            nodes = range(1, len(self.p))
            for n in nodes if all_ else [self.any()]:
                self.ops.append({"op": "look", "n": n, "b": some_sub()})
            for r in self.roots() if all_ else [rng.choice(self.roots()) if rng.random() < .9 else self.any()]:
                near_ = [n for n in nodes if self.path(n)]
                some = rng.sample(near_, min(2, len(near_))) + [0, r] if all_ else [rng.choice([0, self.any()])]
                for s in some:
                    self.ops.append({"op": "list", "n": r, "s": s, "i": rng.randrange(6)})
                for _ in range(2 if all_ else 1):
                    a, b = [self.bound() for _ in "ab"]
                    if a > b and rng.random() < .95:
                        a, b = b, a
                    self.ops.append({"op": "range", "n": r, "i": rng.randrange(6),
                                     "set": rng.random() < .7, "bb": a, "str": form(rng, a),
                                     "flag": rng.random() < .7, "cc": b, "str2": form(rng, b)})
            if rng.random() < .02:
                self.ops.append({"op": "list", "n": 0, "s": rng.choice([0, 1]), "i": 0})
                self.ops.append({"op": "range", "n": 0, "i": 0, "set": False, "bb": [], "str": "c", "flag": False, "cc": [], "str2": "c"})

        def bound(self):
            k = self.path(self.any())
            x = rng.randrange(5)
            if x == 0:
                k = k + [rng.choice(SUBS)]
            elif x == 1 and k:
                k = k[:-1] + [rng.choice(SUBS)]
            elif x == 2 and k:
                k = k[:-1] + [k[-1] + [0]]
            return k

        def new(self, p, k):
            self.add(val({"op": "new", "n": p, "b": k}), p, k if p else [], True)

        def copy(self, n):
            made = self.made[n]
            self.add({"op": "copy", "n": n}, self.p[n] if made else 0, self.k[n], made)
            if not made:
                self.k[-1] = self.k[n]

        def put(self, n):
            self.ops.append({"op": "put", "n": n})

    cases = []
    hs = [h for h in unique(ck.emits["MC_Forest"]) if len(h) >= 3]
    hs = rng.sample(hs, min(len(hs), 1500 if not ck.thorough else 20000))
    for h in hs:
        f = F()
        for what, n, k in h:
            if what == "new":
                f.new(n, k)
            elif what == "put":
                f.put(n)
            elif what == "take":
                f.ops.append({"op": "take", "n": n, "b": k})
            else:
                f.copy(n)
            if rng.random() < .2:
                f.ask()
        f.ask(True)
        cases.append({"cfg": {}, "ops": f.ops})
    for i in range(500 if not ck.thorough else 8000):
        f = F()
        f.new(0, [])
        for _ in range(rng.choice([5, 12, 30, 60])):
            x = rng.random()
            n = f.any()
            kin = [m for m in range(1, len(f.p)) if f.p[m]]
            if x < .3:
                f.new(n if rng.random() < .97 else 0, some_sub())
                if rng.random() < .7 and f.p[-1]:
                    f.put(len(f.p) - 1)
            elif x < .42 and kin:
                f.put(rng.choice(kin))
            elif x < .5:
                m = rng.choice(kin) if kin and rng.random() < .8 else 0
                f.ops.append({"op": "take", "n": f.p[m] or n, "b": f.k[m] if m else some_sub()})
            elif x < .56:
                f.ops.append(val({"op": "give", "n": n}))
            elif x < .61:
                f.ops.append({"op": "place", "n": n, "i": rng.choice([0, 1, 127, 128, 300, 16384, (1 << 28) - 1, rng.randrange(1 << 28)])})
            elif x < .68:
                f.ops.append({"op": "write", "n": n})
                f.ops.append({"op": "look", "n": n, "b": some_sub()})
            elif x < .73:
                f.copy(n)
            elif x < .8:                 # read back, where it belongs
                kin = [m for m in range(1, len(f.p)) if f.made[m]]
                m = rng.choice(kin)
                p = f.p[m]
                if f.k[m] or not p:
                    if p == 0 or rng.random() < .9:
                        f.ops.append({"op": "write", "n": m})
                        f.add({"op": "again", "n": p, "s": m, "i": rng.randrange(1 << 20), "b": rbytes(rng, rng.randrange(4))}, p, f.k[m], False)
            elif x < .82:                # somewhere else: refused
                m = rng.choice([m for m in range(1, len(f.p)) if f.made[m] and (f.k[m] or not f.p[m])])
                f.ops.append({"op": "write", "n": m})
                p = n if not f.p[m] else 0
                f.ops.append({"op": "again", "n": p, "s": m, "i": 0, "b": []})
            else:
                f.ask()
        f.ask(True)
        cases.append({"cfg": {}, "ops": f.ops})
    return [Job("Trace_Forest", "forest", cases)]
