"""Sessions that run side by side: woven call by call, in goroutines of their
own, and as readers of shared objects (C38)."""
import json
from vf import Groups
from gen_codec import rng_for, unique
import gen_sorted, gen_hash, gen_slices, gen_codec, gen_misc, gen_layout, gen_mph, gen_crypt, gen_trie, gen_objects, gen_files, gen_reading

MODELS = ["MC_Sessions", "MC_AVL", "MC_Hash", "MC_Codec", "MC_Times", "MC_MphTable", "MC_Trie", "MC_B58", "MC_Rand", "MC_Conv",
          "MC_Small", "MC_KeyStore", "MC_Keys"]
LONG = {"fill", "drop", "census", "big"}        # calls that take long


class Emits(dict):
    def __missing__(self, k):
        return []


class Stand:
    """Stands in for the check where its behaviours are generated."""
    def __init__(self, ck):
        self.seed, self.tier, self.thorough = ck.seed, "quick", False
        self.emits = Emits(ck.emits)


def pools(ck):
    st = Stand(ck)
    out = {}
    makers = [gen_sorted.jobs("map"), gen_sorted.jobs("iter"), gen_sorted.jobs("range"), gen_hash.jobs("map"), gen_hash.jobs("iter"),
              gen_slices.slices, gen_slices.hashes, gen_codec.keys_cmp, gen_codec.keys_codec, gen_codec.values_codec,
              gen_codec.records_codec, gen_codec.schemes, gen_misc.times, gen_misc.ids, gen_misc.base58, gen_misc.rands,
              gen_misc.varints, gen_misc.convs, gen_mph.serial, gen_trie.jobs("get"), gen_trie.jobs("iter"), gen_trie.jobs("codec"),
              gen_crypt.store, gen_crypt.signatures, gen_files.digests, gen_files.small, gen_reading.reading]
    for mk in makers:
        for j in mk(st):
            p = out.setdefault((j.spec, j.fam), [])
            for c in j.cases:
                if not any(o["op"] in LONG for o in c["ops"]):
                    p.append(c)
    rng = rng_for(ck, "sessionobjects")
    p = out[("Trace_Objects", "objects")] = []
    for _ in range(60):
        p.append(gen_objects.scenario(rng, rng.choice(["stale", "copy", "tell"]), rng.choice([20, 40, 70])))
        p.append(gen_objects.shaped(rng, rng.choice(["stale", "copy", "tell"])))
    for p in out.values():
        rng_for(ck, "pool").shuffle(p)
    return out


def size(c):
    return len(json.dumps(c["ops"], separators=(",", ":")))


class Pick:
    def __init__(self, ck):
        self.rng = rng_for(ck, "pick")
        self.pools = {k: p for k, p in pools(ck).items() if p}
        self.used = set()

    def case(self, at, calls):
        """A case, or its beginning; each only once, as some have names of their own."""
        spec, fam = at
        p = self.pools[at]
        for _ in range(20):
            n = self.rng.randrange(len(p))
            c = p[n]
            if fam == "store":
                if (at, n) in self.used:
                    continue
                self.used.add((at, n))
            ops = c["ops"]
            k = len(ops)
            while k > 1 and (k > calls or len(json.dumps(ops[:k])) > 30000):
                k = min(calls, k * 2 // 3)
            if len(json.dumps(ops[:k])) <= 30000:
                return {"fam": fam, "tr": spec, "cfg": c.get("cfg") or {}, "ops": ops[:k]}
        return None

    def session(self, ats, calls):
        out = []
        while calls > 0:
            c = self.case(self.rng.choice(ats), calls)
            if c is None:
                break
            out.append(c)
            calls -= len(c["ops"]) + 1
        return out


# -- objects that several sessions read ---------------------------------------
def read_sorted(rng, par):
    kind = rng.choice(["probe", "int64", "uint16", "bytes", "key"])
    set_ = rng.random() < .4
    nk = rng.choice([5, 12, 30])
    ks = rng.sample(range(nk), rng.randrange(nk + 1))
    base = [{"op": "put", "k": k, "v": k if set_ else rng.choice([k, -1, 3])} for k in ks]
    base += [{"op": "rem", "k": k} for k in rng.sample(ks, len(ks) // 4)]

    def reader():
        ops = []
        for _ in range(12):
            x = rng.random()
            if x < .5:
                ops.append({"op": "exist" if set_ else "get", "k": rng.randrange(nk)})
            elif x < .6:
                ops.append({"op": "size"})
            else:
                i = rng.randrange(3)
                if x < .8:
                    ops.append({"op": "iter", "i": i})
                else:
                    s, e = sorted([rng.randrange(nk), rng.randrange(nk)])
                    s, e = rng.choice([(s, e), (-1, e), (s, -1)])
                    ops.append({"op": "range", "i": i, "s": s, "e": e})
                ops += gen_sorted.walk(rng, i, rng.choice([2, len(ks)]), rng.choice(["plain", "next", "peeky"]))
        return ops
    return "Trace_SortedMap", "sorted", gen_sorted.cfg(kind, set_), base, reader


def read_hash(rng, par):
    c = gen_hash.config(rng)
    nk = min(rng.choice([5, 12, 40]), len(c.get("bb", [0] * 99)))
    ks = rng.sample(range(nk), rng.randrange(nk + 1))
    base = [{"op": "put", "k": k, "v": k if c["set"] else rng.choice([k, -1, 3])} for k in ks]
    base += [{"op": "rem", "k": k} for k in rng.sample(ks, len(ks) // 4)]

    def reader():
        ops = []
        for _ in range(12):
            x = rng.random()
            if x < .6:
                ops.append({"op": "exist" if c["set"] else "get", "k": rng.randrange(nk)})
            elif x < .7:
                ops.append({"op": "size"})
            else:
                ops += gen_hash.walk(rng, rng.randrange(3), rng.choice([2, len(ks)]))
        return ops
    return "Trace_HashMap", "hash", c, base, reader


def read_trie(rng, par):
    g = gen_trie
    mod, base = g.Model(), []
    ks = g.pool(rng, rng.randrange(5), rng.choice([3, 8, 20]))
    for _ in range(rng.choice([3, 10, 30])):
        base.append(g.set_op(rng, mod, rng.choice(ks), None if rng.random() < .15 else g.prim(rng) if par else g.small_value(rng)))
    slots = [0]
    if not par and rng.random() < .7:           # values of decoded tries keep what they were asked for
        base += [{"op": "enc"}, {"op": "dec", "s": 1, "b": rng.choice(g.TAILS)}]
        slots = rng.choice([[0, 1], [1]])

    def reader():
        ops = []
        for _ in range(15):
            ops.append(g.get_op(rng, rng.choice(ks) if rng.random() < .7 else g.near(rng, ks), rng.choice(slots)))
        ops += g.iterate(rng, mod, ks, slots, 3)
        if len(base) > 1 and base[-1]["op"] == "dec" and rng.random() < .5:
            ops.append({"op": "dec", "s": 2, "b": [rng.randrange(256)]})
            ops += g.iterate(rng, mod, ks, [2], 1)
        return ops
    return "Trace_Trie", "trie", {}, base, reader


def read_mph(rng, par):
    gen, ks = gen_mph.pool(rng, rng.randrange(6)), []
    for _ in range(rng.choice([2, 9, 30])):
        k = gen()
        if k not in ks:
            ks.append(k)
    ops = gen_mph.script(rng, ks, rng.random() < .5, rng.random() < .7)["ops"]
    n = next(i for i, o in enumerate(ops) if o["op"] == "lookup")

    def reader():
        out = []
        for o in rng.sample(ops[n:], min(len(ops) - n, 40)):
            out.append(o)
            if not par and rng.random() < .1:           # encodes the keys
                out.append({"op": "enc", "s": o["s"]})
        return out
    return "Trace_MPH", "mph", {}, ops[:n], reader


def read_objects(rng, par):
    s = gen_objects.Script(rng)
    if rng.random() < .5:
        gen_objects.build_rec(s, 2)
    else:
        gen_objects.build_trie(s)
    gen_objects.build(s, 2)
    for k in ("key", "arr", "rec", "sch", "smp"):
        s.make(k)
    for h in list(s.h):
        if gen_objects.mutable(s.h[h]) and rng.random() < .5:
            s.modify(h)
    for h in rng.sample(list(s.h), min(len(s.h), 6)):
        s.parse(h)
    base = list(s.ops)
    shared, count = dict(s.h), s.n
    nenc = s.nenc

    def reader():
        r = gen_objects.Script(rng)
        r.n, r.nenc = count, nenc
        r.h = dict(shared)
        for _ in range(30):
            h = rng.choice(list(shared))
            x = rng.random()
            if x < .3:
                r.look(h)
            elif x < .5:
                r.ask(h)
            elif x < .6:
                r.buf(h)
            elif x < .75:
                r.kid(h)
            elif nenc and x < .8:
                r.ops.append({"op": "held", "i": rng.randrange(1, nenc + 1)})
            elif shared[h].weight() < 30:
                c = r.copy(h, rng.random() < .7)      # of which everything is the reader's
                if c:
                    r.look(c)
                    if gen_objects.mutable(r.h[c]) and r.h[c].k != "trie":
                        mine = [n for n in r.h if n > count and r.h[n].con]
                        sub = gen_objects.Script(rng)
                        sub.h, sub.n, sub.nenc = {c: r.h[c]}, r.n, r.nenc
                        sub.modify(c)
                        sub.look(c)
                        sub.enc(c)
                        r.ops += sub.ops
                        r.n, r.nenc = sub.n, sub.nenc
        return r.ops
    return "Trace_Objects", "objects", {}, base, reader


READ = [read_sorted, read_hash, read_trie, read_mph, read_objects]


def sessions(ck):
    rng = rng_for(ck, "sessions")
    orders = unique(ck.emits["MC_Sessions"])
    pk = Pick(ck)
    names = sorted(pk.pools)
    groups = []

    def add(par, sess, base=None, order=None):
        sess = [x for x in sess if x]
        if sess:
            groups.append({"par": par, "sessions": sess, "base": base,
                           "order": [k for k in order or [] if k < len(sess)]})
    few = not ck.thorough
    for at in names:
        for _ in range(3 if few else 40):           # the same component in every session
            add(True, [pk.session([at], 80) for _ in range(8)])
        for _ in range(3 if few else 40):
            order = [k - 1 for _ in range(6) for k in rng.choice(orders)]
            add(False, [pk.session([at], 25) for _ in range(3)], order=order)
    for _ in range(20 if few else 400):              # any of them
        add(True, [pk.session(names, 80) for _ in range(8)])
    for _ in range(30 if few else 400):
        add(False, [pk.session(names, 30) for _ in range(rng.choice([2, 3, 5]))],
            order=[rng.randrange(5) for _ in range(60)])
    for read in READ:
        for k in range(12 if few else 150):
            # decoded values keep the elements they have been asked for, so these are read in turns only
            par = k % 3 > 0 and read is not read_objects
            spec, fam, cfg, base, reader = read(rng, par)
            one = {"fam": fam, "tr": spec, "cfg": cfg, "ops": base}
            add(par, [[dict(one, ops=reader())] for _ in range(8 if par else 3)], base=one,
                order=[k - 1 for _ in range(5) for k in rng.choice(orders)])
    rng.shuffle(groups)
    return [Groups(groups)]
