"""Scripts for questions asked on the terminal (C40) and log lines (C39)."""
from vf import Job
from gen_codec import rng_for, unique

EDGE = [0, 3, 8, 127, 13, 10, 10, 32, 9, 11, 12, 97, 98, 255, 128]


def line(rng):
    x = rng.random()
    n = rng.choice([0, 1, 3, 7, 8, 9, 12, 16, 20, 40])
    s = [rng.randrange(33, 127) for _ in range(n)]
    if x < .2:
        s = [rng.choice([32, 9, 11, 12, 13]) for _ in range(rng.randrange(4))] + s + [rng.choice([32, 9, 32, 13]) for _ in range(rng.randrange(4))]
    elif x < .4 and n:
        for _ in range(rng.choice([1, 2, 5])):
            s.insert(rng.randrange(len(s) + 1), rng.choice(EDGE))
    elif x < .45:
        s = [c for c in (rng.randrange(256) for _ in range(n)) if c not in (0xc2, 0xe1, 0xe2, 0xe3)]
    elif x < .5:                              # letters of two and three bytes
        s = [c for _ in range(rng.choice([3, 4, 5, 7, 8, 9])) for c in rng.choice(["é", "ß", "a", "ö", "字", "ж"]).encode()]
    elif x < .55:
        s = [rng.choice([97, 98, 127]) for _ in range(rng.choice([505, 509, 511, 512, 513, 514, 520, 700]))]
    elif x < .58:
        s = [97] * rng.choice([4090, 4096, 5000])       # more than is read at once
    return s


def typing(rng):
    out = []
    last = None
    for _ in range(rng.choice([1, 2, 4, 8, 15])):
        s = line(rng)
        if last is not None and rng.random() < .45:
            s = list(last)
            if rng.random() < .2 and s:
                s[rng.randrange(len(s))] ^= 1
        elif rng.random() < .3:
            s = [rng.randrange(33, 127) for _ in range(rng.choice([8, 8, 9, 16]))]
        out += s + [rng.choice([10, 10, 10, 10, 13])]
        last = s
    if out and rng.random() < .3:
        out.pop()
    return out


def questions(rng, n):
    ops = []
    style = rng.choice(["text", "mix", "mix", "pass"])
    for _ in range(n):
        if style == "text" or style == "mix" and rng.random() < .5:
            ops.append({"op": "text", "b": [ord(c) for c in rng.choice(["Alias [a] already exist.  Overwrite? [y/N]", "", "name", "100%d %s", "é"])
                                            if ord(c) < 128]})
        else:
            ops.append({"op": "pass", "flag": rng.random() < .5})
    return ops


def prompts(ck):
    rng = rng_for(ck, "prompts")
    cases = []
    small = unique(ck.emits["MC_Prompts"])
    for b in rng.sample(small, min(len(small), 500 if not ck.thorough else 20000)):
        b = [c for x in b for c in ([x] * rng.choice([1, 4, 5, 8]) if x in (97, 98) else [x])]
        cases.append({"cfg": {"b": b, "kind": rng.choice(["file", "pipe", "parts"])}, "ops": questions(rng, 4)})
    for _ in range(500 if not ck.thorough else 12000):
        b = typing(rng)
        cases.append({"cfg": {"b": b, "kind": rng.choice(["file", "pipe", "parts"])},
                      "ops": questions(rng, b.count(10) + b.count(13) + 2)})
    return [Job("Trace_Prompts", "prompt", cases)]


def log_text(rng):
    n = rng.choice([0, 1, 2, 10, 60, 300, 5000])
    s = [rng.randrange(32, 127) for _ in range(n)]
    x = rng.random()
    if x < .15:
        s.append(10)
    elif x < .3 and s:
        s[rng.randrange(len(s))] = 10
    elif x < .4:
        s = [c for ch in "größer %d %s%!" for c in ch.encode()]
    return s


def logging(ck):
    rng = rng_for(ck, "logger")
    hists = unique(ck.emits["MC_Logger"])
    lively = [h for h in hists if ["lfile"] in h and (["line"] in h or ["many"] in h)]
    cases = []

    def call(st):
        if st == "line":
            return {"op": "line", "b": log_text(rng), "kind": rng.choice(["print", "printf"])}
        if st == "many":
            return {"op": "many", "n": rng.choice([2, 4, 8]), "m": rng.choice([1, 5, 20])}
        if st == "left":
            return {"op": "left", "b": log_text(rng)}
        return {"op": st}
    n = 300 if not ck.thorough else 6000
    for h in rng.sample(lively, min(len(lively), n)):
        ops = [call(st[0]) for st in h]
        cases.append({"cfg": {}, "ops": ops + [call("line")]})
    for _ in range(60 if not ck.thorough else 800):
        ops = []
        for _ in range(rng.choice([10, 20])):
            ops.append(call(rng.choice(["line", "line", "line", "many", "lout", "lfile"])))
        cases.append({"cfg": {}, "ops": ops})
    return [Job("Trace_Logger", "logger", cases)]
