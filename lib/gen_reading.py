"""Scripts that decode bytes other programs may have written, or damaged (C37)."""
from vf import Job
import gen_codec as g
import gen_mph
import gen_robust
from gen_codec import rng_for, unique, rbytes, chunk
from gen_robust import STEER, HUGE

KINDS = ["key", "val", "rec", "sch", "trie", "mph", "uv", "sv", "vc", "sval"]
ENDS = [[], [], [0], [1], [255], [1, 1], [0] * 70, [128] * 9, [255] * 64]


class Loose:
    """Encodings as other programs may write them: numbers longer than needed,
    wider fields, leftover content, empty parts."""

    def __init__(self, rng, odd):
        self.rng, self.odd = rng, odd

    def maybe(self, p=1.0):
        return self.rng.random() < self.odd * p

    def uv(self, n):
        out = []
        while n >= 128:
            out.append(n & 127 | 128)
            n >>= 7
        out.append(n)
        if self.maybe(.5):
            out[-1] |= 128
            more = self.rng.choice([0, 0, 0, 1, 3, 7, 8, 9 - len(out), 9 - len(out), 10 - len(out)])
            out += [128] * max(0, more) + [self.rng.choice([0, 0, 0, 0, 0, 1, 2])]
        return out

    def vc(self, s):
        return self.uv(len(s)) + s

    def key(self, k):
        k = list(k)
        if self.maybe(.4):
            k.insert(self.rng.randrange(len(k) + 1), [])
        n = len(k) + (self.rng.choice([-1, 1]) if self.maybe(.2) and k else 0)
        return self.uv(n) + [b for s in k for b in self.vc(s)]

    def num(self, n):
        w = 0 if n == 0 else 1 if n < 256 else 2
        if self.maybe(.4):
            w = min(2, w + self.rng.choice([1, 1, 2]))
        return w, ([] if w == 0 else [n & 255] if w == 1 else [n >> 8 & 255, n & 255])

    def val(self, v):
        c = []
        kind = 0
        n = 0
        if v[0] == "p":
            c = v[1]
        elif v[0] in "al":
            kind = 64 if v[0] == "a" else 16
            n = len(v[1])
            for x in v[1]:
                c = c + (self.val(x) if v[0] == "a" else self.rec(x))
            if self.maybe(.4):
                c = c + self.rng.choice([[0], [0, 0], [255], [1], rbytes(self.rng, 5)])
            if self.maybe(.2) and c:
                c = c[:-1]
            if self.maybe(.3):
                n = max(0, n + self.rng.choice([-1, 1, 1, 2]))
        c = c[:65535]
        wn, bn = self.num(n)
        if kind and wn == 0:
            if self.maybe(.5):
                wn, bn = self.rng.choice([(1, [0]), (2, [0, 0])])
        wc, bc = self.num(len(c))
        m = wn * kind + wc
        if self.maybe(.1):
            m |= self.rng.choice([4, 8, 3, 48, 192, 16, 64])
        return [m] + (bn if kind else []) + bc + c

    def rec(self, r):
        nil = lambda v: (v[0] == "n" or not v[1]) and not self.maybe(.3)
        has_key = bool(r[0]) or self.maybe(.3)
        m, out = 0, []
        if has_key:
            m, out = 64, self.key(r[0])
        for bit, v in ((32, r[1]), (16, r[2])):
            if not nil(v):
                m |= bit
                out = out + self.val(v)
        t, s = r[3], r[4]
        if t:
            m |= 4
            out = out + t
        if s:
            m |= 2
            out = out + s
        if self.maybe(.1):
            m ^= self.rng.choice([128, 8, 1, 64, 32, 16, 4, 2])
        return [m] + out

    def sch(self, s):
        out = []
        for bit, part in ((128, s[0]), (64, s[1])):
            if part[0]:
                out += self.vc(part[1])
        if s[2][0]:
            out += self.uv(len(s[2][1])) + [b for x in s[2][1] for b in self.vc(x)]
        m = (128 if s[0][0] else 0) + (64 if s[1][0] else 0) + (32 if s[2][0] else 0)
        if self.maybe(.1):
            m ^= self.rng.choice([128, 64, 32])
        return [m] + out

    def trie(self, entries):
        """entries: [key, value]; nodes in the order of first use."""
        tree = {}
        for k, v in entries:
            for i in range(len(k) + 1):
                tree.setdefault(str(k[:i]), [k[:i], ["n", []]])
            tree[str(k)][1] = v
        out = []

        def node(p, at):
            here = len(out)
            kids = [q for q, _ in tree.values() if len(q) == len(p) + 1 and q[:-1] == p]
            if self.maybe(.3):
                self.rng.shuffle(kids)
            else:
                kids.sort()
            if self.maybe(.15) and kids:
                kids.append(self.rng.choice(kids))           # a sibling again
            n = len({str(q) for q in kids}) + (self.rng.choice([-1, 1]) if self.maybe(.05) else 0)
            out.extend((self.uv(1) if not self.maybe(.2) else [self.rng.choice([2, 5, 127])]) + self.vc(p[-1] if p else []) +
                       self.uv(at + (1 if self.maybe(.05) else 0)) + self.val(tree[str(p)][1]) + self.uv(max(0, n)))
            for q in kids:
                if len(out) < 2500:
                    node(q, here)
            out.extend(self.uv(0))
        tree.setdefault(str([]), [[], ["n", []]])
        node([], 0)
        return out

    def mph(self, ks):
        rng = self.rng
        seed = lambda: rng.choice([0, 18, 65536, (1 << 32) - 1, rng.randrange(1 << 32)])
        n0, n1 = (rng.choice([1, 1, 2, 4, 8] + ([3, 0, 5] if self.maybe() else [])) for _ in range(2))
        l0 = [seed() for _ in range(n0)]
        l1 = [rng.choice([0, len(ks), 65536, (1 << 32) - 1]) if rng.random() < .1 else rng.randrange(len(ks) or 1)
              for _ in range(n1)]
        for i, k in enumerate(ks):
            if n0 and n1 and rng.random() < .8:
                l1[gen_mph.key_hash(k, l0[gen_mph.key_hash(k, 0) & (n0 - 1)]) & (n1 - 1)] = i
        mask = lambda n: (n - 1 + (rng.choice([1, -1, 256]) if self.maybe(.1) else 0) & 0xffffffff).to_bytes(4, "big")
        sized = gen_mph.sized
        b = sized(l0) + list(mask(n0)) + sized(l1) + list(mask(n1))
        if rng.random() < .5:
            n = len(ks) + (rng.choice([-1, 1, 65536, 1 << 24]) if self.maybe(.15) else 0)
            return [rng.choice([1] * 9 + [2])] + b + list(max(0, n).to_bytes(4, "big")) + [x for k in ks for x in self.key(k)]
        s = seed()
        return [0] + b + list(s.to_bytes(4, "big")) + sized([gen_mph.key_hash(k, s) for k in ks])


def call(rng, kind, b, probes=()):
    o = {"op": "dread", "kind": kind, "b": b, "i": rng.randrange(1 << 16)}
    if kind in ("trie", "mph"):
        o["x"] = list(probes)
    return o


def edits(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not b:
            break
        k = rng.randrange(6)
        p = rng.choice([rng.randrange(min(4, len(b))), rng.randrange(len(b)), rng.randrange(len(b))])
        x = rng.choice(STEER + [rng.randrange(256)])
        if k == 0:
            b[p] = x
        elif k == 1:
            b.insert(p, x)
        elif k == 2:
            del b[p]
        elif k == 3:
            b[p] ^= 1 << rng.randrange(8)
        elif k == 4:
            b = b[:rng.choice([p, len(b) - 1, len(b) - 1])]
        elif rng.random() < .3:
            b[p:p + 1] = rng.choice(HUGE)
        else:
            b[p] = (b[p] + rng.choice([1, 255])) % 256
    return b


def item(rng, kind, big):
    """An item and its probes."""
    if kind == "key":
        return g.key(rng, big), []
    if kind == "val":
        return g.value(rng, rng.choice([0, 1, 2, 3]), big), []
    if kind == "rec":
        return g.record(rng, rng.choice([0, 1, 2]), big), []
    if kind == "sch":
        s = [[rng.random() < .7, []] for _ in range(3)]
        for i in (0, 1):
            if s[i][0]:
                s[i][1] = rbytes(rng, rng.choice([0, 1, 2, 5]))
        if s[2][0]:
            s[2][1] = [rbytes(rng, rng.choice([0, 1, 3])) for _ in range(rng.choice([0, 1, 2, 5]))]
        return s, []
    ks = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        k = [rng.choice([[1], [1, 0], [2], [0], rbytes(rng, 2)]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if k not in ks:
            ks.append(k)
    probes = ks + [[], [[1]], [[1], [1]], [[3]]]
    if kind == "trie":
        return [[k, g.value(rng, rng.choice([0, 0, 1, 2]))] for k in ks], probes[:8]
    return ks, probes[:6]


def sizes(rng):
    """Sizes around the limits of records and values."""
    out = []
    lo = Loose(rng, 0)
    for n in (4094, 4095, 4096, 4097):                  # bytes of the key
        k = g.key_of_len(rng, n)
        for x in (k, k + [[1]]):
            out.append(("rec", [64] + lo.key(x) + [9]))
    for n in (57338, 57341, 57342, 57343, 57344, 60000, 65535):      # and of the value
        c = [n >> 8, n & 255] + [i * 7 & 255 for i in range(n)]
        out.append(("rec", [32, 2] + c))
        out.append(("val", [2] + c))
        if n in (57340, 57341, 57342):
            out.append(("rec", [96, 1, 1, 5, 2] + c + [3]))
    for n in (255, 256, 1018, 1020, 1021, 1022, 1023, 1024, 1025):   # and of the scheme
        c = [2, n >> 8, n & 255] + [i & 255 for i in range(n)]
        out.append(("rec", [16] + c))
        out.append(("rec", [112, 1, 1, 5, 1, 1, 7] + c))
        out.append(("rec", [48] + c + c))
    for n in (254, 255, 256, 257, 300, 1000):           # elements of no bytes and of one
        for w in ((64, 1), (64, 2), (16, 1), (16, 2)):
            cnt = [n & 255] if w[1] == 1 else [n >> 8, n & 255]
            for size in (n - 1, n, n + 1):
                out.append(("val", [w[0] * w[1] + 2] + cnt + [size >> 8, size & 255] + [0] * size))
    for k in (0, 1, 62, 63, 64, 65):                    # signatures that are not all there
        for m in (2, 6):
            out.append(("rec", [m] + [1] * (8 if m == 6 else 0) + [k] * k))
            out.append(("val", [17, 1, len([m]) + (8 if m == 6 else 0) + k] + [m] + [1] * (8 if m == 6 else 0) + [k] * k))
    for k in range(9):
        out.append(("rec", [4] + [200] * k))
        out.append(("rec", [68, 0] + [200] * k))
    return out


def reading(ck):
    rng = rng_for(ck, "reading")
    ops = []
    for s in unique(ck.emits["MC_Reading"]):
        kinds = KINDS if len(s) < 4 else rng.sample(KINDS[:6], 3 if not ck.thorough else 6)
        for k in kinds:
            ops.append(call(rng, k, s, [[], [[65]], [[1]]]))
    for i in range(4500 if not ck.thorough else 60000):
        kind = rng.choice(KINDS[:6] + ["val", "rec", "val", "rec", "trie"])
        x, probes = item(rng, kind, 1 if i % 9 == 0 else 0)
        lo = Loose(rng, rng.choice([0, .1, .3, .6]))
        b = getattr(lo, kind)(x)
        if len(b) > 2500:
            continue
        y = rng.random()
        if y < .45:
            b = edits(rng, b)
        ops.append(call(rng, kind, b + rng.choice(ENDS), probes))
        if y > .9:
            ops.append(call(rng, rng.choice(KINDS), b, probes))
        if y > .8 and len(b) > 1:
            ops.append(call(rng, kind, b[:rng.randrange(len(b))], probes))
    for kind, b in sizes(rng):
        ops.append(call(rng, kind, b))
    for h in HUGE + [[255] * n + [x] for n in (7, 8, 9, 10) for x in (0, 1, 2, 127)] + [[128] * n for n in range(1, 12)]:
        for p in ([], [0], [1] * 3):
            for k in ("uv", "sv", "vc", "sval", "key"):
                ops.append(call(rng, k, h + p))
            ops.append(call(rng, "sch", [32] + h + p))
            ops.append(call(rng, "rec", [64] + h + p))
            ops.append(call(rng, "trie", [1, 0] + h + [0, 0, 0] + p))
            ops.append(call(rng, "trie", h + [0, 0, 0, 0, 0] + p))
            ops.append(call(rng, "trie", [1, 0, 0, 0] + h + p))
    for _ in range(1200 if not ck.thorough else 15000):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 11])
        b = [rng.choice([128, 255, rng.randrange(128, 256)]) for _ in range(n - 1)] + [rng.choice([0, 1, 2, 127, rng.randrange(128)])]
        ops.append(call(rng, rng.choice(["uv", "sv"]), b + rng.choice(ENDS)))
        b = [rng.choice(STEER + [rng.randrange(256)] * 4) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 60]))]
        ops.append(call(rng, rng.choice(KINDS), b, [[], [[1]]]))
    return [Job("Trace_Reading", "reading", chunk([[o] for o in ops], 60))]
