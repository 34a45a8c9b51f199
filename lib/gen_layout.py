"""Scripts that compare encoded bytes with the documented layout (C30)."""
from vf import Job
import gen_codec as g
import gen_misc
from gen_codec import rng_for, emitted, chunk, uv, TAILS, keylen, rbytes


def enc_key(k):
    out = uv(len(k))
    for s in k:
        out = out + uv(len(s)) + s
    return out


def num(n):
    return [] if n == 0 else [n] if n < 256 else [n >> 8, n & 255]


def enc_val(v):
    """Reference bytes; used to make inputs only, TLC judges them by Codec."""
    if v[0] == "n" or not v[1]:
        return [0]
    if v[0] == "p":
        c = v[1]
        return [len(num(len(c)))] + num(len(c)) + c
    c = []
    for x in v[1]:
        c = c + (enc_val(x) if v[0] == "a" else enc_rec(x))
    n = num(len(v[1]))
    return [len(n) * (64 if v[0] == "a" else 16) + len(num(len(c)))] + n + num(len(c)) + c


def enc_rec(r):
    nil = lambda v: v[0] == "n" or not v[1]
    sig = r[4] if r[3] else []
    m = (64 if r[0] else 0) + (0 if nil(r[1]) else 32) + (0 if nil(r[2]) else 16) + (4 if r[3] else 0) + (2 if sig else 0)
    return [m] + (enc_key(r[0]) if r[0] else []) + ([] if nil(r[1]) else enc_val(r[1])) + \
        ([] if nil(r[2]) else enc_val(r[2])) + r[3] + sig


def ldecs(ck, rng):
    items = [("key", k) for k in emitted(ck, "key")] + [("val", v) for v in emitted(ck, "val")] + \
            [("rec", r) for r in emitted(ck, "rec")]
    rng.shuffle(items)
    items = items[:1200 if not ck.thorough else 20000]
    for _ in range(500 if not ck.thorough else 8000):
        items.append(("val", g.value(rng, rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1]))))
        items.append(("rec", g.record(rng, rng.choice([0, 1, 2]), rng.choice([0, 0, 1]))))
        items.append(("key", g.key(rng, 1)))
    lists = []
    for kind, x in items:
        if (kind == "val" and not g.py_fits_val(x)) or (kind == "rec" and not g.py_fits_rec(x)) or \
                (kind == "key" and keylen(x) > 4096):
            continue
        b = {"key": enc_key, "val": enc_val, "rec": enc_rec}[kind](x)
        if len(b) > 3000:
            continue
        lists.append([{"op": "ldec", "kind": kind, "b": b + rng.choice(TAILS)}])
    return lists


def layouts(ck):
    rng = rng_for(ck, "layout")
    keys = []
    for k in g.some_keys(ck, rng, 200 if not ck.thorough else 3000):
        for form in (g.key_forms(k)[:3] if len(k) < 50 and keylen(k) < 300 else ["c"]):
            keys.append([{"op": "kenc", "bb": k, "str": form}])
    sch = []
    for s in g.some_schemes(ck, rng, 300 if not ck.thorough else 5000):
        sch.append([{"op": "sdec", "b": g.enc_scheme(s) + rng.choice(TAILS)}, {"op": "scopy", "flag": False, "set": rng.random() < .3}])
    lay = {"layout": True}
    jobs = [Job("Trace_Codec", "codec", chunk(keys, 100, lay) + chunk(sch, 60, lay) + chunk(ldecs(ck, rng), 60, lay))]
    jobs += g.values_codec(ck, True) + g.records_codec(ck, True) + gen_misc.times(ck, True) + gen_misc.varints(ck, True)
    if not ck.thorough:                 # round trips are C10 to C14 and C27; here the bytes count
        for j in jobs[1:]:
            j.cases = j.cases[::2] if len(j.cases) > 40 else j.cases
    return jobs
