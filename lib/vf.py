"""Runs the checks: model checking of the specifications with TLC, execution of
scripts on the real code, and validation of the recorded traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class HarnessError(Exception):
    pass


def goenv(scratch):
    """Environment of the Go tool chain, with a build cache in the scratch folder."""
    env = dict(os.environ)
    env.update({"GO111MODULE": "off", "GOTOOLCHAIN": "local", "GOPROXY": "off",
                "GOFLAGS": "", "GOWORK": "off", "GOPATH": "/opt/vp/gopath",
                "GOTELEMETRY": "off", "HOME": scratch})
    try:
        txt = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env"],
                             capture_output=True, text=True).stdout
        for line in txt.splitlines():
            k, _, v = line.partition("=")
            if k.startswith("GO") or k == "PATH":
                env[k] = v
    except OSError:
        pass
    cache = os.path.join(scratch, "gocache")
    src = env.get("GOCACHE") or "/opt/vp/gocache"
    if not os.path.isdir(cache):
        if os.path.isdir(src):
            subprocess.run(["cp", "-r", src, cache], capture_output=True)
        os.makedirs(cache, exist_ok=True)
    env["GOCACHE"] = cache
    env["GOTMPDIR"] = scratch
    return env


def build_driver(scratch, main=None):
    """Builds the driver with the current sources of /repo/src. The driver's
    sources are laid over /repo/src/zzverif; the key store's folders are moved
    into the scratch folder (the files with the three path constants are laid
    over with copies in which only those paths differ)."""
    src = os.path.join(REPO, "src")
    replace = {}
    hdir = os.path.join(VERIF, "harness", "zzverif")
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".go"):
            replace[os.path.join(src, "zzverif", f)] = os.path.join(hdir, f)
    sysdir = os.path.join(scratch, "sys")
    os.makedirs(sysdir, exist_ok=True)
    ovdir = os.path.join(scratch, "overlay")
    os.makedirs(ovdir, exist_ok=True)
    for pkg in ("util", "collection"):
        d = os.path.join(src, pkg)
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            txt = open(os.path.join(d, f), encoding="utf-8").read()
            new = txt
            for path in ("/etc/poodle", "/var/lib/poodle", "/var/log/poodle"):
                new = new.replace('"%s' % path, '"%s%s' % (sysdir, path))
            if new != txt:
                p = os.path.join(ovdir, pkg + "_" + f)
                open(p, "w", encoding="utf-8").write(new)
                replace[os.path.join(d, f)] = p
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    binp = os.path.join(scratch, "driver")
    env = goenv(scratch)
    r = subprocess.run(["go", "build", *os.environ.get("VF_BUILD", "").split(), "-overlay", ov, "-o", binp, "./zzverif"],
                       cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise HarnessError("the driver does not build:\n" + r.stdout + r.stderr)
    if main:
        r = subprocess.run(["go", "build", "-overlay", ov, "-o", os.path.join(scratch, "main"), "main/" + main],
                           cwd=src, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError(main + " does not build:\n" + r.stdout + r.stderr)
        os.chmod(scratch, 0o711)               # the program runs as another user
        os.chmod(sysdir, 0o711)
        os.makedirs(sysdir + "/etc/poodle", exist_ok=True)
        os.chmod(sysdir + "/etc/poodle", 0o777)
    return binp


_meta = [0]
_meta_lock = threading.Lock()


def tlc(scratch, module, cfg, extra_env=None, workers=1, timeout=850, mem="3g", args=()):
    with _meta_lock:
        _meta[0] += 1
        n = _meta[0]
    meta = os.path.join(scratch, "tlc%d" % n)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env.update(extra_env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", *args, module + ".tla"]
    out = os.path.join(scratch, "tlc%d.out" % n)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=f, stderr=subprocess.STDOUT,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    txt = open(out, errors="replace").read()
    if os.environ.get("VF_KEEP") is None:
        os.unlink(out)
    return rc, txt


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def counts(txt):
    m = STATES.findall(txt)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def emitted(txt):
    """Values printed as <<"VF_EMIT", "json">>."""
    return [json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))
            for s in re.findall(r'^<<\s*"VF_EMIT",\s*"((?:[^"\\]|\\.)*)"\s*>>', txt, re.M)]


class MC:
    """A model checking run: specification module and configuration file."""
    def __init__(self, module, cfg=None, workers=1, simulate=None, timeout=600, mem="3g"):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.workers, self.simulate, self.timeout, self.mem = workers, simulate, timeout, mem


class Job:
    """Cases to run on the real code and the trace specification that judges them."""
    def __init__(self, spec, fam, cases, oplimit=20, shards=None):
        self.spec, self.fam, self.cases, self.oplimit, self.shards = spec, fam, cases, oplimit, shards


class Groups:
    """Groups of sessions that run side by side on the real code; the record of
    each session is judged by the trace specification of its component."""
    def __init__(self, groups, oplimit=60):
        self.groups, self.oplimit = groups, oplimit


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop,
                                        dir=os.environ.get("VF_SCRATCH", "/tmp"))
        self.gen = 0
        self.distinct = 0
        self.events = 0
        self.ncases = 0
        self.accepted_cases = 0
        self.opcount = {}
        self.emits = {}
        self.mc_stats = {}
        self.samples = []
        self.known_seen = {}
        self.violations = []
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(CORES)

    # -- model checking ------------------------------------------------------
    def run_mc(self, mc):
        args = ()
        if mc.simulate:
            args = ("-simulate", "num=%d" % mc.simulate[0], "-depth", str(mc.simulate[1]),
                    "-seed", str(self.seed))
        cfg = mc.cfg
        if self.thorough:
            alt = cfg.replace(".cfg", "_thorough.cfg")
            if os.path.exists(os.path.join(SPEC, alt)):
                cfg = alt
        t0 = time.time()
        with self.sem:
            rc, txt = tlc(self.scratch, mc.module, cfg, workers=mc.workers,
                          timeout=mc.timeout, mem=mc.mem, args=args)
        ok = rc == 0 and ("No error has been found" in txt or
                          (mc.simulate and "Error" not in txt))
        if not ok:
            tail = "\n".join(x for x in txt.splitlines() if "VF_EMIT" not in x)[-3000:]
            raise HarnessError("model checking of %s (%s) failed, rc %d:\n%s"
                               % (mc.module, cfg, rc, tail))
        g, d = counts(txt)
        with self.lock:
            self.gen += g
            self.distinct += d
            self.emits[mc.module] = emitted(txt)
            self.mc_stats[cfg] = {"states_generated": g, "distinct_states": d,
                                  "behaviours_emitted": len(self.emits[mc.module]),
                                  "wall_s": round(time.time() - t0, 1)}

    # -- conformance ---------------------------------------------------------
    def drive(self, job, cases, tag):
        """Runs the cases on the real code; returns the trace file."""
        script = os.path.join(self.scratch, tag + ".script")
        trace = os.path.join(self.scratch, tag + ".trace")
        with open(script, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        env = dict(os.environ)
        env["GOMAXPROCS"] = "4"
        env["VF_DIR"] = os.path.join(self.scratch, "sys")
        env["VF_PKEYGEN"] = os.path.join(self.scratch, "main")
        try:
            r = subprocess.run([self.binary, script, trace, str(job.oplimit)],
                               capture_output=True, env=env, timeout=880, cwd=self.scratch)
            rc = r.returncode
            err = r.stderr
        except subprocess.TimeoutExpired:
            raise HarnessError("driver of %s ran out of time" % tag)
        if rc == 9:
            raise HarnessError("driver of %s: %s" % (tag, err[-2000:]))
        if rc not in (0, 3):
            # the process died in the call after the last recorded one
            lines = open(trace, "rb").read().split(b"\n")[:-1]
            n, cid = 0, None
            for ln in reversed(lines):
                e = json.loads(ln)
                if e["op"] == "begin":
                    cid = e["id"]
                    break
                n += 1
            case = next((c for c in cases if c["id"] == cid), None)
            if case is None or n >= len(case["ops"]):
                raise HarnessError("driver of %s died, rc %d: %s" % (tag, rc, err[-2000:]))
            e = dict(case["ops"][n])
            e["out"] = "crash"
            e["msg"] = err[:300].decode(errors="replace")
            with open(trace, "a") as f:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        os.unlink(script)
        return trace

    def validate(self, spec, trace):
        """Has TLC match the trace; returns (accepted, total, printed lines)."""
        known = ",".join(k for k, _ in known_findings(self.prop))
        rc, txt = tlc(self.scratch, spec, trace_cfg(spec),
                      {"VF_TRACE": trace, "VF_KNOWN": known}, timeout=880)
        m = re.search(r'<<"VF_ACC", (-?\d+), (\d+)>>', txt)
        if not m:
            raise HarnessError("trace validation with %s failed:\n%s" % (spec, txt[-3000:]))
        if "Error:" in txt and int(m.group(1)) == int(m.group(2)):
            raise HarnessError("trace validation with %s failed:\n%s" % (spec, txt[-3000:]))
        g, d = counts(txt)
        with self.lock:
            self.gen += g
            self.distinct += d
            for k in re.findall(r'<<"VF_KNOWN", "([^"]+)">>', txt):
                self.known_seen[k] = self.known_seen.get(k, 0) + 1
        return int(m.group(1)), int(m.group(2)), txt

    def shard(self, job, cases, tag):
        with self.sem:
            trace = self.drive(job, cases, tag)
            if os.path.getsize(trace) == 0:
                raise HarnessError("empty trace of " + tag)
            acc, total, txt = self.validate(job.spec, trace)
            lines = open(trace).read().split("\n")[:-1]
            bad = None
            ncase = 0
            ops = {}
            cur = None
            curstart = 0
            sample = None
            for i, ln in enumerate(lines):
                op = ln[7:ln.index('"', 7)] if ln.startswith('{"op":"') else json.loads(ln)["op"]
                if op == "begin":
                    if i > acc:
                        break
                    ncase += 1
                    curstart = i
                ops[op] = ops.get(op, 0) + 1
                if i == acc:
                    break
            if acc < total:
                first = json.loads(lines[curstart])
                case = next(c for c in cases if c["id"] == first["id"])
                bad = {"property": self.prop, "spec": job.spec, "case": case,
                       "oplimit": job.oplimit, "event_index": acc - curstart,
                       "event": json.loads(lines[acc]),
                       "trace": [json.loads(x) for x in lines[curstart:acc + 1]]}
            if lines and len(self.samples) < 3:
                k = next((i for i in range(1, len(lines)) if '"op":"begin"' in lines[i][:20]), len(lines))
                sample = {"spec": job.spec, "trace": [clip(x) for x in lines[:min(k, 12)]]}
            with self.lock:
                self.events += acc
                self.ncases += ncase
                self.accepted_cases += ncase - (1 if bad else 0)
                for k, v in ops.items():
                    key = job.fam + "." + k
                    self.opcount[key] = self.opcount.get(key, 0) + v
                if sample and not any(s["spec"] == job.spec for s in self.samples):
                    self.samples.append(sample)
            os.unlink(trace)
            return bad

    def drive_groups(self, groups, tag, oplimit):
        """Runs the groups one after the other; returns the traces by specification."""
        script = os.path.join(self.scratch, tag + ".script")
        trace = os.path.join(self.scratch, tag + ".trace")
        with open(script, "w") as f:
            for g in groups:
                f.write(json.dumps(g, separators=(",", ":")) + "\n")
        env = dict(os.environ)
        env.update({"GOMAXPROCS": str(CORES), "VF_SESSIONS": "1", "VF_DIR": os.path.join(self.scratch, "sys")})
        try:
            r = subprocess.run([self.binary, script, trace, str(oplimit)], capture_output=True, env=env,
                               timeout=800, cwd=self.scratch)
        except subprocess.TimeoutExpired:
            raise HarnessError("driver of %s ran out of time" % tag)
        if r.returncode == 9:
            raise HarnessError("driver of %s: %s" % (tag, r.stderr[-2000:]))
        os.unlink(script)
        traces = {}
        for f in sorted(os.listdir(self.scratch)):
            if f.startswith(tag + ".trace."):
                traces[f[len(tag) + 7:]] = os.path.join(self.scratch, f)
        if r.returncode != 0:                  # the process ended within a group
            m = re.findall(rb"group (\d+)", r.stdout)
            g = next((g for g in groups if m and g["id"] == int(m[-1])), None)
            if g is None:
                raise HarnessError("driver of %s died, rc %d: %s" % (tag, r.returncode, r.stderr[-2000:]))
            c = g["sessions"][0][0]
            begin = {"op": "begin", "id": c["id"], "fam": c["fam"], **c["cfg"], "out": "ok"}
            first = dict((g.get("base") or c)["ops"][0])
            first.update({"out": "hang" if r.returncode == 3 else "crash",
                          "msg": r.stderr[:300].decode(errors="replace")})
            p = traces.setdefault(c["tr"], os.path.join(self.scratch, tag + ".trace." + c["tr"]))
            with open(p, "a") as f:
                for e in (begin, first):
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
        return traces

    def judge_sessions(self, spec, blocks, owner, tag, oplimit):
        """blocks: the recorded lines of each case; owner: group of a case."""
        with self.sem:
            trace = os.path.join(self.scratch, tag + ".part")
            with open(trace, "w") as f:
                f.write("".join("".join(b) for b in blocks))
            acc, total, _ = self.validate(spec, trace)
            os.unlink(trace)
        bad, n = None, 0
        for b in blocks:
            done = min(len(b), acc - n)
            first = json.loads(b[0])
            with self.lock:
                self.events += max(done, 0)
                self.ncases += done > 0
                self.accepted_cases += done == len(b)
                for ln in b[:max(done, 0)]:
                    key = "sessions." + first["fam"] + "." + json.loads(ln)["op"]
                    self.opcount[key] = self.opcount.get(key, 0) + 1
                if len(self.samples) < 3 and not any(x["spec"] == spec for x in self.samples):
                    self.samples.append({"spec": spec, "trace": [clip(x) for x in b[:12]]})
            if n <= acc < n + len(b):
                bad = {"property": self.prop, "spec": spec, "group": owner[first["id"]], "oplimit": oplimit,
                       "event_index": acc - n, "event": json.loads(b[acc - n]),
                       "trace": [json.loads(x) for x in b[:acc - n + 1]]}
            n += len(b)
        return bad

    def run_groups(self, job, tag):
        n, owner = 0, {}
        for k, g in enumerate(job.groups):
            g["id"] = k
            for s in g["sessions"]:
                for c in s:
                    c["id"] = n
                    owner[n] = g
                    n += 1
        traces = self.drive_groups(job.groups, tag, job.oplimit)
        if not traces:
            raise HarnessError("no trace of " + tag)
        work = []
        for spec, p in traces.items():
            blocks = []
            for ln in open(p):
                if ln.startswith('{"op":"begin"'):
                    blocks.append([])
                blocks[-1].append(ln)
            os.unlink(p)
            weigh = [sum(len(x) + 300 for x in b) for b in blocks]
            parts, most = [[[], 0]], 6 << 20
            for b, w in zip(blocks, weigh):
                if parts[-1][1] + w > most:
                    parts.append([[], 0])
                parts[-1][0].append(b)
                parts[-1][1] += w
            for i, (b, w) in enumerate(parts):
                if b:
                    work.append((w, spec, b, "%s%s%d" % (tag, spec, i)))
        work.sort(key=lambda x: -x[0])
        with ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(self.judge_sessions, spec, b, owner, t, job.oplimit) for _, spec, b, t in work]
            for f in futs:
                bad = f.result()
                if bad:
                    self.violations.append(bad)

    def run_jobs(self, jobs):
        work = []
        for n, job in enumerate(jobs):
            if isinstance(job, Groups):
                self.run_groups(job, "g%d" % n)
        jobs = [j for j in jobs if not isinstance(j, Groups)]
        total = sum(weight(c) for j in jobs for c in j.cases) or 1
        for jn, job in enumerate(jobs):
            for n, c in enumerate(job.cases):
                c["id"] = n
                c["fam"] = job.fam
                c.setdefault("cfg", {})
            w = sum(weight(c) for c in job.cases)
            n = job.shards or max(1, min(CORES, round(w / total * CORES + 0.3), w // 300 + 1))
            buckets = [[0, []] for _ in range(n)]
            for c in sorted(job.cases, key=weight, reverse=True):
                b = min(buckets, key=lambda x: x[0])
                b[0] += weight(c)
                b[1].append(c)
            for k, b in enumerate(buckets):
                if b[1]:
                    work.append((b[0], job, sorted(b[1], key=lambda c: c["id"]), "j%ds%d" % (jn, k)))
        work.sort(key=lambda x: -x[0])
        with ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(self.shard, job, cases, tag) for _, job, cases, tag in work]
            for f in futs:
                bad = f.result()
                if bad:
                    self.violations.append(bad)

    def run(self, plan):
        t0 = time.time()
        try:
            with ThreadPoolExecutor(CORES) as ex:
                fb = ex.submit(build_driver, self.scratch, plan.get("main"))
                fm = [ex.submit(self.run_mc, mc) for mc in plan.get("mc", [])]
                self.binary = fb.result()
                for f in fm:
                    f.result()
            t1 = time.time()
            jobs = plan["jobs"](self)
            t2 = time.time()
            self.run_jobs(jobs)
            self.t_phases = [round(x, 1) for x in (t1 - t0, t2 - t1, time.time() - t2)]
            self.confirm()
        finally:
            if os.environ.get("VF_KEEP") is None:
                shutil.rmtree(self.scratch, ignore_errors=True)
            else:
                print("scratch", self.scratch)
        return self.report(plan, time.time() - t0)

    def confirm(self):
        """A call that took too long or too much memory is reported only if it
        does so again on its own (the machine may just have been busy)."""
        keep = []
        for v in self.violations:
            if v["event"].get("out") in ("hang", "oom") and "case" in v:
                job = Job(v["spec"], v["case"]["fam"], [v["case"]], v["oplimit"] * 2)
                again = self.shard(job, [v["case"]], "confirm")
                if not again:
                    print("note: not reproduced:", json.dumps(v["event"])[:300])
                    self.unconfirmed = True
                    continue
                v = again
            keep.append(v)
        self.violations = keep

    def report(self, plan, wall):
        for k, text in known_findings(self.prop):
            if k in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        paths = []
        for n, v in enumerate(self.violations[:5]):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.prop, n))
            json.dump(v, open(p, "w"))
            paths.append(p)
            print("rejected by %s at event %d: %s" % (v["spec"], v["event_index"],
                                                      json.dumps(v["event"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": "model_checking",
              "coverage": {"states": self.distinct, "transitions": self.gen,
                           "traces_validated_against_impl": self.accepted_cases,
                           "events_validated": self.events,
                           "calls_by_kind": dict(sorted(self.opcount.items())),
                           "model_checking_runs": self.mc_stats,
                           "known_findings_seen": self.known_seen,
                           "samples": self.samples or [{"note": "no case ran"}]},
              "assumptions": plan.get("assumptions", []),
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d events validated, %d states; %.1f s %s" % (
            self.prop, self.tier, self.seed, self.ncases, self.events, self.distinct, wall,
            getattr(self, "t_phases", "")))
        return 1 if self.violations else 0


def weight(c):
    w = c.get("_w")
    if w is None:
        w = c["_w"] = len(c["ops"]) + 1 + len(json.dumps(c["ops"])) // 400
    return w


def clip(line):
    return line if len(line) < 400 else line[:400] + "..."


def trace_cfg(spec):
    own = spec + ".cfg"
    return own if os.path.exists(os.path.join(SPEC, own)) else "Trace.cfg"


def known_findings(prop):
    """Lines 'known: property=ID key=KEY text' of the known findings file."""
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def replay(path):
    """Runs one saved case again on the current tree."""
    v = json.load(open(path))
    ck = Check(v["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        ck.binary = build_driver(ck.scratch, "pkeygen.go" if v.get("case") and v["case"]["fam"] == "keygen" else None)
        case = v.get("case")
        bad = None
        if not case:                           # another order of the calls may show it
            for k in range(40 if v["group"]["par"] else 1):
                ck.run_groups(Groups([v["group"]], v.get("oplimit", 60)), "r%d" % k)
                if ck.violations:
                    bad = ck.violations[0]
                    break
        else:
            bad = ck.shard(Job(v["spec"], case["fam"], [case], v.get("oplimit", 20)), [case], "replay")
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)
    if bad:
        print("rejected by %s at event %d: %s" % (bad["spec"], bad["event_index"],
                                                  json.dumps(bad["event"])[:2000]))
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    print("accepted")
    return 0
