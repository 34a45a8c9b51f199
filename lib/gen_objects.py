"""Scripts that build, share, modify, encode, decode and copy objects (C19, C20)."""
from vf import Job
import gen_codec as g
from gen_codec import rng_for, rbytes, TAILS

LEAVES = ("key", "prim", "smp", "sch", "leaf")
VALS = ("prim", "arr", "list", "smp")


class Node:
    """Mirrors the specification's nodes so that the scripts ask sensible things."""
    def __init__(self, k, con=True):
        self.k, self.con, self.b, self.s, self.r, self.ks = k, con, [], [], [], []
        self.t, self.g, self.src, self.bad, self.enc = [], [], None, False, False

    def reach(self, seen=None):
        seen = {} if seen is None else seen
        if id(self) not in seen:
            seen[id(self)] = self
            for c in self.r:
                if c:
                    c.reach(seen)
        return seen

    def nil(self):
        return self.k in ("prim", "smp") and not self.b or self.k in ("arr", "list") and not self.r

    def absent(self):
        return not self.s if self.k == "key" else self.k in VALS and self.nil()

    def sound(self):
        return not any(n.bad for n in self.reach().values())

    def encodable(self):
        return self.k == "key" or self.con and all(
            self.k == "trie" and not c.con or c.encodable() for c in self.r if c)

    def weight(self):
        return 1 + sum(c.weight() for c in self.r if c)

    def copy(self, con):
        n = Node("prim" if con and self.k == "smp" else self.k, self.con or con)
        n.b, n.s, n.ks, n.t, n.g = list(self.b), list(self.s), list(self.ks), self.t, self.g
        n.r = [c and c.copy(con) for c in self.r]
        return n

    def parse(self, src, top=False):
        if self.k in ("arr", "list") and not self.r:
            n = Node("prim", False)
            n.src = src
            return n
        n = Node("prim" if self.k == "smp" and not top else self.k, False)
        n.src, n.b, n.s, n.t, n.g = src, list(self.b), list(self.s), self.t, self.g if self.t else []
        if self.k == "rec":
            n.r = [None if not c or c.absent() else c.parse(src) for c in self.r]
        elif self.k == "trie":
            both = [(k, c) for k, c in zip(self.ks, self.r) if not c.absent()]
            n.ks = [k for k, _ in both]
            n.r = [c.parse(src) for _, c in both]
        else:
            n.r = [c.parse(src) for c in self.r]
        n.enc = True
        return n


class Script:
    def __init__(self, rng):
        self.rng, self.h, self.ops, self.n = rng, {}, [], 0
        self.nenc = 0              # encodings so far
        self.own = set()           # names whose bytes belong to the caller

    def new(self, node, own=False):
        self.n += 1
        self.h[self.n] = node
        if own:
            self.own.add(self.n)
        return self.n

    def pick(self, f):
        c = [h for h, n in self.h.items() if f(n) and n.sound()]
        if not c:
            return None
        # recent ones more often
        return self.rng.choice(c[-6:]) if self.rng.random() < .5 else self.rng.choice(c)

    def sub(self):
        return rbytes(self.rng, self.rng.choice([1, 1, 2, 3]))

    def mk(self, kind, **a):
        n = Node(kind)
        if kind == "key":
            n.s = a["bb"]
            n.con = a.get("str") != "e"
        elif kind == "prim":
            n.b = a["b"]
        elif kind == "rec":
            n.r = [None, None, None]
        elif kind in ("sch", "leaf"):
            n.con = False
            n.b = a["b"]
        elif kind == "smp":
            n.con = False
            n.b = a.pop("content")
        n.src = n
        h = self.new(n, True)
        self.ops.append(dict(op="mk", kind=kind, n=h, **a))
        return h

    def make(self, kind):
        rng = self.rng
        if kind == "key":
            x = rng.random()
            if x < .05:
                return self.mk("key", bb=[], str="e")
            return self.mk("key", bb=[self.sub() for _ in range(rng.choice([0, 1, 1, 2, 3]))], str=rng.choice(["c", "s"]))
        if kind == "prim":
            return self.mk("prim", b=rbytes(rng, rng.choice([0, 1, 2, 3, 4, 255, 256] if rng.random() < .15 else [0, 1, 2, 3])))
        if kind == "smp":
            b = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 130]))
            return self.mk("smp", b=g.uv(len(b)) + b + rng.choice([[], [], [0], [1, 1], [7, 7, 7]]), content=b)
        if kind == "sch":
            return self.mk("sch", b=g.enc_scheme([[rng.random() < .7, rbytes(rng, 2)], [rng.random() < .7, rbytes(rng, 3)],
                                                   [True, [rbytes(rng, 1), rbytes(rng, 2)]] if rng.random() < .7 else [False, []]]))
        if kind == "leaf":
            m = rng.choice([8, 16, 64, 128, 136, 240, 248])
            need = 32 * sum((m >> b) & 1 for b in (7, 6, 5, 4)) + 64 * ((m >> 3) & 1)
            return self.mk("leaf", b=[m] + rbytes(rng, need + rng.choice([0, 0, 5])))
        return self.mk(kind)

    def do(self, name, h, **a):
        self.ops.append(dict(op=name, s=h, **a))

    # -- modifications
    def add(self, h, b=None):
        b = b or self.sub()
        self.h[h].s.append(b)
        self.do("add", h, b=b)

    def app(self, h, e):
        self.h[h].r.append(self.h[e])
        self.do("app", h, e=e)

    def delete(self, h, i):
        self.h[h].r.pop(i)
        self.do("del", h, i=i)

    def part(self, h, kind, e):
        self.h[h].r[{"key": 0, "val": 1, "sch": 2}[kind]] = self.h[e]
        self.do("set", h, kind=kind, e=e)

    def setb(self, h, kind, b):
        n = self.h[h]
        if kind == "time":
            n.t = b
        elif kind == "sig":
            n.g = b
        else:
            c = Node("key" if kind == "k" else "prim")
            c.src = n.src
            c.s, c.b = ([b], []) if kind == "k" else ([], b)
            n.r["kvs".index(kind)] = c
        self.do("set", h, kind=kind, b=b)

    def put(self, h, k, e):
        n = self.h[h]
        if k in n.ks:
            i = n.ks.index(k)
            n.ks.pop(i)
            n.r.pop(i)
        if e is not None:
            n.ks.append(k)
            n.r.append(self.h[e])
        self.do("put", h, bb=k, flag=e is None, e=e or 0)

    # -- the rest
    def look(self, h):
        self.do("look", h)

    def enc(self, h):
        n = self.h[h]
        if n.k == "leaf":
            return
        self.do("enc", h)
        self.nenc += 1
        if n.encodable():
            n.enc = True

    def buf(self, h):
        if self.h[h].k != "leaf":
            self.do("buf", h)

    def copy(self, h, con):
        n = self.h[h]
        if n.k == "leaf":
            con = False
        c = self.new(Node("none"))
        self.do("copy", h, n=c, flag=con)
        if con and n.k == "trie" and not n.con:
            del self.h[c]
            return None
        self.h[c] = n.copy(con)
        return c

    def parse(self, h):
        """Encodes first unless the object was decoded."""
        n = self.h[h]
        if n.k in ("leaf", "trie") and not n.con:
            return None
        if n.k == "sch":
            return None
        if n.con:
            if not n.encodable():
                return None
            self.enc(h)
        c = self.new(Node("none"), True)
        p = n.parse(None, True)
        for m in p.reach().values():
            m.src = p
        self.h[c] = p
        self.do("parse", h, n=c, b=self.rng.choice(TAILS))
        return c

    def kid(self, h):
        rng, n = self.rng, self.h[h]
        if n.k in ("arr", "list") and n.r:
            i = rng.randrange(len(n.r))
            c = self.new(n.r[i])
            self.do("kid", h, n=c, kind="val" if n.k == "arr" else "rec", i=i)
        elif n.k == "rec":
            i = rng.randrange(3)
            c = None
            if n.r[i]:
                c = self.new(n.r[i])
            self.do("kid", h, n=c or 999999, kind=["key", "value", "scheme"][i])
        elif n.k == "trie":
            k = rng.choice(n.ks) if n.ks and rng.random() < .85 else [self.sub()]
            c = self.new(n.r[n.ks.index(k)]) if k in n.ks else None
            self.do("kid", h, n=c or 999999, kind="get", bb=k)

    def ask(self, h):
        """What the object tells about itself, what it refuses, printing."""
        n, rng = self.h[h], self.rng
        if n.k == "leaf":
            return
        size = len(n.r) if n.k in ("arr", "list") else 0
        self.do("ask", h, l=sorted({0, size - 1, size, size + 1, 65535, rng.randrange(65536)} - {-1}))
        x = rng.random()
        if n.k == "sch" or x < .3:
            pass
        elif x < .45:
            self.do("print", h, i=rng.choice([0, 1, 4, 9]))
        elif n.con:
            self.do("refuse", h, kind="dec")
        elif x < .7:
            self.do("refuse", h, kind="enc")
        elif not (n.k == "key" and not n.s):          # the empty key is not decoded from anything
            self.do("redec", h)
        if rng.random() < .3:
            self.do("ask", h, l=[size])
        if rng.random() < .4:
            self.look(h)

    def scribble(self, h):
        src = self.h[h].src
        for m in self.all():
            if m.src is src:
                m.bad = True
        self.own.discard(h)
        self.do("scrib", h, i=self.rng.randrange(200))

    def poke(self, h):
        n = self.h[h]
        for m in self.all():
            if m is n or n.src is not None and m.src is n.src:
                m.bad = True
        self.own.discard(h)
        self.do("poke", h, i=self.rng.randrange(200))

    def all(self):
        seen = {}
        for n in self.h.values():
            n.reach(seen)
        return seen.values()

    def modify(self, h):
        """A random modification of a constructed object."""
        rng, n = self.rng, self.h[h]
        small = lambda m: m.weight() < 25
        if n.k == "key":
            self.add(h)
        elif n.k == "arr":
            e = self.pick(lambda m: m.k in VALS and small(m) and id(n) not in m.reach())
            if n.r and (rng.random() < .4 or e is None):
                self.delete(h, rng.randrange(len(n.r)))
            elif e is not None and n.weight() < 40:
                self.app(h, e)
        elif n.k == "list":
            e = self.pick(lambda m: m.k == "rec" and small(m) and id(n) not in m.reach())
            if n.r and (rng.random() < .4 or e is None):
                self.delete(h, rng.randrange(len(n.r)))
            elif e is not None and n.weight() < 40:
                self.app(h, e)
        elif n.k == "rec":
            kind = rng.choice(["key", "val", "sch", "k", "v", "s", "time", "sig"])
            if kind in ("key", "val", "sch"):
                e = self.pick(lambda m: m.k in (("key",) if kind == "key" else VALS) and small(m) and id(n) not in m.reach())
                if e is not None:
                    self.part(h, kind, e)
            elif kind == "time":
                self.setb(h, "time", g.timeb(rng))
            elif kind == "sig":
                self.setb(h, "sig", g.sig(rng))
            else:
                self.setb(h, kind, self.sub() if kind == "k" else rbytes(rng, rng.choice([0, 1, 2])))
        elif n.k == "trie":
            k = rng.choice(n.ks) if n.ks and rng.random() < .5 else [[rng.randrange(3)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            e = self.pick(lambda m: m.k in VALS and not m.nil() and small(m) and id(n) not in m.reach())
            if e is None or rng.random() < .25:
                self.put(h, k, None)
            elif n.weight() < 40:
                self.put(h, k, e)


def mutable(n):
    return n.con and n.k in ("key", "arr", "list", "rec", "trie")


def scenario(rng, want, length):
    """Random use with the emphasis of one property."""
    s = Script(rng)
    kinds = ["key", "prim", "prim", "arr", "list", "rec", "trie"]
    if want in ("copy", "tell"):
        kinds += ["sch", "leaf", "smp"] if want == "copy" else ["sch", "smp", "smp"]
    for k in ("key", "prim", "prim", "arr", "rec"):
        s.make(k)
    for k in rng.sample(kinds, 3):
        s.make(k)
    for h in list(s.h):
        if mutable(s.h[h]) and rng.random() < .7:
            s.modify(h)
    while len(s.ops) < length:
        x = rng.random()
        h = s.pick(lambda n: True)
        if want == "tell" and rng.random() < .35:
            s.ask(h)
        elif x < .1:
            s.make(rng.choice(kinds))
        elif x < .38:
            m = s.pick(mutable)
            if m is not None:
                s.modify(m)
                if rng.random() < .5:
                    rng.choice([s.buf, s.enc, s.look])(m)
        elif x < .55:
            s.enc(h)
        elif x < .65:
            s.buf(h)
        elif x < .72:
            s.look(h)
        elif x < .78:
            s.kid(h)
        elif x < (.9 if want == "copy" else .82):
            c = s.copy(h, rng.random() < .6)
            if c and rng.random() < .5:
                s.look(c)
        elif x < .95:
            s.parse(h)
        elif want == "copy" and x < .97:
            o = s.pick(lambda m: m.k in LEAVES)
            if o:
                s.poke(o)
        elif s.own:
            o = rng.choice(sorted(s.own))
            if s.h[o].sound():
                s.scribble(o)
    return finish(s, want)


def finish(s, want, heads=None):
    """Looks at and encodes everything that is still sound."""
    for h in heads or list(s.h):
        n = s.h[h]
        if n.sound():
            s.buf(h)
            s.look(h)
            if want == "tell":
                s.ask(h)
    for h in (heads or list(s.h))[-12:]:
        if s.h[h].sound() and s.h[h].con:
            s.enc(h)
    idx = list(range(1, s.nenc + 1))
    for i in s.rng.sample(idx, min(len(idx), 12)):
        s.ops.append({"op": "held", "i": i})
    return {"cfg": {}, "ops": s.ops}


def build(s, depth):
    """A nest of objects built from scratch."""
    rng = s.rng
    if depth == 0:
        return s.make("prim" if rng.random() < .95 else "smp")
    k = rng.choice(["arr", "arr", "list", "prim"])
    if k == "prim":
        return s.make("prim")
    h = s.mk(k)
    for _ in range(rng.choice([1, 1, 2, 3])):
        s.app(h, build(s, depth - 1) if k == "arr" else build_rec(s, depth - 1))
    return h


def build_rec(s, depth):
    rng = s.rng
    h = s.mk("rec")
    if rng.random() < .7:
        s.part(h, "key", s.make("key")) if rng.random() < .7 else s.setb(h, "k", s.sub())
    if rng.random() < .8:
        s.part(h, "val", build(s, depth)) if rng.random() < .8 else s.setb(h, "v", rbytes(rng, 2))
    if rng.random() < .4:
        s.part(h, "sch", s.make("prim")) if rng.random() < .8 else s.setb(h, "s", rbytes(rng, 2))
    if rng.random() < .6:
        s.setb(h, "time", g.timeb(rng))
        s.setb(h, "sig", g.sig(rng))
    return h


def build_trie(s):
    h = s.mk("trie")
    for _ in range(s.rng.choice([1, 2, 4, 6])):
        e = build(s, s.rng.choice([0, 0, 1, 2]))
        if not s.h[e].nil():
            s.put(h, [[s.rng.randrange(3)] for _ in range(s.rng.choice([0, 1, 1, 2, 3]))], e)
    return h


def shaped(rng, want):
    """One nest; copies or encodings of it, then changes anywhere inside."""
    s = Script(rng)
    what = rng.randrange(5)
    h = build(s, rng.choice([1, 2, 3])) if what < 2 else build_rec(s, rng.choice([0, 1, 2])) if what < 4 else build_trie(s)
    heads = [h]
    for _ in range(rng.choice([1, 2, 3])):
        x = rng.random()
        src = rng.choice(heads)
        if x < .35:
            c = s.parse(src)
        elif x < .75 or want == "copy":
            c = s.copy(src, rng.random() < .6)
        else:
            s.enc(src)
            c = None
        if c:
            heads.append(c)
    # the parts of all of them
    for a in list(heads):
        cur = [a]
        for _ in range(4):
            s.kid(rng.choice(cur))
            if s.n in s.h:
                cur.append(s.n)
    for _ in range(rng.choice([3, 6, 10])):
        x = rng.random()
        if x < .2 and s.own and want == "copy":
            o = rng.choice(sorted(s.own & set(heads)) or sorted(s.own))
            if s.h[o].sound():
                s.scribble(o)
        elif x < .3 and want == "copy":
            o = s.pick(lambda m: m.k in LEAVES)
            if o:
                s.poke(o)
        else:
            m = s.pick(mutable)
            if m is None:
                break
            s.modify(m)
            if want == "tell":
                s.ask(m)
                s.ask(rng.choice([a for a in s.h if s.h[a].sound()]))
            if want == "stale":
                s.buf(m)
                if rng.random() < .6:
                    s.enc(rng.choice([m] + [a for a in heads if s.h[a].sound()]))
            elif rng.random() < .4:
                s.enc(m)
    return finish(s, want)


def large(rng):
    """Too large to encode, then made smaller."""
    out = []
    for n in (65536, 70000):
        s = Script(rng)
        a = s.mk("arr")
        s.app(a, s.mk("prim", b=[1, 2]))
        s.enc(a)
        s.app(a, s.mk("prim", b=rbytes(rng, n)))
        s.buf(a)
        s.enc(a)
        s.buf(a)
        r = s.mk("rec")
        s.part(r, "val", a)
        s.enc(r)
        s.delete(a, 1)
        s.buf(a)
        s.enc(r)
        s.enc(a)
        out.append({"cfg": {}, "ops": s.ops})
    s = Script(rng)
    k = s.mk("key", bb=[[1]], str="c")
    s.enc(k)
    s.add(k, rbytes(rng, 4100))
    s.buf(k)
    s.enc(k)
    s.buf(k)
    r = s.mk("rec")
    s.part(r, "key", k)
    s.enc(r)
    s.setb(r, "k", [7])
    s.enc(r)
    s.setb(r, "s", rbytes(rng, 1100))
    s.buf(r)
    s.enc(r)
    s.buf(r)
    s.setb(r, "s", [1])
    s.enc(r)
    out.append({"cfg": {}, "ops": s.ops})
    t = Script(rng)
    h = t.mk("trie")
    t.put(h, [[1]], t.mk("prim", b=[1]))
    t.enc(h)
    t.put(h, [[1], [2]], t.mk("prim", b=rbytes(rng, 65536)))
    t.buf(h)
    t.enc(h)
    t.buf(h)
    t.put(h, [[1], [2]], None)
    t.buf(h)
    t.enc(h)
    out.append({"cfg": {}, "ops": t.ops})
    return out


def replays(ck, rng, want):
    """The behaviours printed by the model checker."""
    seqs = g.unique(ck.emits["MC_Objects"])
    rng.shuffle(seqs)
    cases = []
    for seq in seqs[:900 if not ck.thorough else 20000]:
        s = Script(rng)
        key, prim, arr, rec, lst = s.mk("key", bb=[[1]], str="c"), s.mk("prim", b=[7]), s.mk("arr"), s.mk("rec"), s.mk("list")
        trie = s.mk("trie")
        h = {1: key, 2: prim, 3: arr, 4: rec, 5: lst, 6: trie}
        s.app(arr, prim)
        s.part(rec, "key", key)
        s.part(rec, "val", arr)
        s.app(lst, rec)
        s.put(trie, [[5]], arr)
        for what, a, x in seq:
            a, c = h[a], None
            if what == "add":
                s.add(a, [2])
            elif what == "app":
                s.app(a, prim)
            elif what == "del":
                s.delete(a, 0)
            elif what == "setval":
                s.part(a, "val", prim)
            elif what == "setk":
                s.setb(a, "k", [3])
            elif what == "time":
                s.setb(a, "time", [] if s.h[a].t else [0] * 7 + [1])
            elif what == "put":
                s.put(a, [[5], [6]], prim)
            elif what == "unput":
                s.put(a, [[5]], None)
            elif what == "enc":
                s.enc(a)
            elif what == "copy":
                c = s.copy(a, x == 1)
            elif what == "parse":
                c = s.parse(a)
            elif what == "kid":
                n = s.h[a]
                c = s.new(n.r[0])
                s.do("kid", a, n=c, kind="val" if n.k == "arr" else "rec", i=0)
            elif what == "scrib":
                s.scribble(a)
            if c:
                h[len(h) + 1] = c
            if s.h[a].sound():
                s.buf(a)
        cases.append(finish(s, want))
    return cases


def jobs(want):
    def make(ck):
        rng = rng_for(ck, "objects" + want)
        cases = replays(ck, rng, want)
        k = 1 if not ck.thorough else 14
        for _ in range(260 * k):
            cases.append(scenario(rng, want, rng.choice([20, 40, 70])))
        for _ in range(500 * k):
            cases.append(shaped(rng, want))
        if want == "stale":
            cases += large(rng)
        return [Job("Trace_Objects", "objects", cases)]
    return make
