"""C21: a cache of tabulations never changes results."""
import hashlib
import json
import os
import random
import shutil
import threading

import fsx
import runs

LEVEL = "model_checking"
ASSUMPTIONS = ["files are observed at the calls of the C library; a crash is a kill of the process, not a loss of power",
               "integrals are compared at 60 energies per pair of multiplets, bit by bit",
               "files that were made to look valid on purpose (with a matching checksum) are not considered damage"]
P = ("π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\nK 0.494 0 - 311 321\nN 0.938 0 + 2112 2212\nN(1440) 1.440 0.350 + 12112 12212\n",
     "π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\nK 0.494 0 - 311 321\nN 0.938 0 + 2112 2212\nN(1440) 1.470 0.350 + 12112 12212\n",
     "π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\nK 0.494 0 - 311 321\nN 0.938 0 + 2112 2212\nN(1440) 1.440 0.350 + 12112 12212\n"
     "Δ 1.232 0.117 + 1114 2114 2214 2224\n",
     "π 0.138 7.7e-9 - 111 211\nσ 0.8 0.4 + 9000221\nρ 0.776 0.149 - 113 213\nN 0.938 0 + 2112 2212\nN(1440) 1.440 0.350 + 12112 12212\n"
     "h₁(1170) 1.170 0.360 + 10223\n")
D = ("σ\n1. 0 π π\n\nN(1440)\n1. 1 N π\n", "σ\n1. 0 π π\n\nN(1440)\n0.7 1 N π\n0.3 0 N σ\n",
     "σ\n1. 0 π π\n\nΔ\n1. 1 N π\n\nN(1440)\n0.6 1 N π\n0.4 1 Δ π\n", "σ\n1. 0 π π\n\nρ\n1. 1 π π\n\nh₁(1170)\n1. 0 ρ π\n\nN(1440)\n0.8 1 N π\n0.2 0 N σ\n")
# particles, decay modes, version
CONFS = ((0, 0, "v"), (1, 0, "v"), (0, 1, "v"), (0, 0, "w"), (2, 2, "v"), (3, 3, "v"))
# damaged files must not make a process take all the memory
LIMIT = ["prlimit", "--as=3000000000"]
LOCK = "tabulations.lock"


class Case:
    count = 0
    lk = threading.Lock()

    def __init__(self, c, what, limited=False):
        with Case.lk:
            Case.count += 1
            self.n = Case.count
        self.c, self.what = c, what
        self.base = c.path(f"case{self.n}")
        self.dir = self.base + "/tab"
        self.log = self.base + "/log"
        os.makedirs(self.base)
        self.ev = [{"reset": True, "op": "case", "what": what, "limited": limited, "refs": c.digests}]
        self.np = self.seen = 0

    def cmd(self, k):
        p, d, v = CONFS[k - 1]
        return LIMIT + [self.c.bin("cache"), self.c.path(f"p{p}"), self.c.path(f"d{d}"), v, self.dir]

    def start(self, k):
        self.np += 1
        self.ev.append({"op": "start", "p": self.np, "cfg": k})
        return self.np

    def end(self, p, rc, out, err):
        if rc == -9:
            self.ev.append({"op": "kill", "p": p})
        else:
            self.ev.append({"op": "exit", "p": p, "ok": rc == 0, "rc": rc, "saw": digest(out), "err": err[-300:]})

    def pull(self):
        r = fsx.records(self.log, LOCK)
        self.ev += r[self.seen:]
        self.seen = len(r)

    def one(self, k, kill=None, limit=None, look=True):
        p = self.start(k)
        out = f"{self.base}/out{p}"
        rc, err = fsx.run(["sh", "-c", f'exec "$@" > {out}', "sh"] + self.cmd(k) if limit is None else self.cmd(k),
                          fsx.environment(self.c.path("fsshim.so"), [self.dir], self.log, p, kill), self.base, limit=limit)
        self.pull()
        # with a limit on file sizes what it says can not go into a file
        if limit is not None and rc == 0:
            self.ev.append({"op": "exit", "p": p, "ok": True, "rc": 0, "saw": self.c.digests[k - 1], "err": ""})
        else:
            self.end(p, rc, open(out).read() if os.path.exists(out) else "", err)
        if look:
            self.look()

    def two(self, a, b, choose):
        ps = [self.start(a), self.start(b)]
        jobs = [(["sh", "-c", f'exec "$@" > {self.base}/out{p}', "sh"] + self.cmd(k),
                 (lambda fds, p=p: fsx.environment(self.c.path("fsshim.so"), [self.dir], self.log, p, None, fds)), self.base) for p, k in zip(ps, (a, b))]
        rcs, errs, order = fsx.interleave(jobs, choose)
        self.pull()
        for p, rc, err in zip(ps, rcs, errs):
            self.end(p, rc, open(f"{self.base}/out{p}").read(), err)
        self.look()

    def unstale(self):
        if os.path.exists(f"{self.dir}/{LOCK}"):
            os.remove(f"{self.dir}/{LOCK}")
        self.ev.append({"op": "clear"})

    def put(self, f, data, head=0, whole=False):
        os.makedirs(self.dir, exist_ok=True)
        with open(f"{self.dir}/{f}", "wb") as o:
            o.write(data)
        self.ev.append({"op": "tamper", "f": f, "head": head, "whole": whole})

    def fake(self, k):
        """Well-formed files with nonsense for configuration k, which is never run in this directory."""
        p, d, v = CONFS[k - 1]
        fs = list(self.c.refs[k - 1])
        os.makedirs(self.dir, exist_ok=True)
        rc, out, err = self.c.run([self.c.bin("cache"), "fake", self.c.path(f"p{p}"), self.c.path(f"d{d}"), v] + [f"{self.dir}/{f}" for f in fs])
        assert rc == 0, err
        self.ev += [{"op": "tamper", "f": f, "head": 0, "whole": True} for f in fs]

    def look(self):
        files = []
        for f in sorted(os.listdir(self.dir)) if os.path.isdir(self.dir) else []:
            if f != LOCK and not os.path.isdir(f"{self.dir}/{f}"):
                data = open(f"{self.dir}/{f}", "rb").read()
                files.append({"f": f, "by": [k + 1 for k, r in enumerate(self.c.refs) if r.get(f) == data]})
        self.ev.append({"op": "dir", "files": files, "lock": os.path.exists(f"{self.dir}/{LOCK}")})

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)
        return self.ev


def digest(out):
    return hashlib.sha256(out.split("\n@\n")[-1].encode()).hexdigest()[:24] if "\n@\n" in out else "nothing"


def damage(rng, data):
    """Some damage to a file: the text of what was done, and the result."""
    k = rng.choice(["cut", "cut", "head", "flip", "flip", "size", "grow", "zero", "empty", "text", "swap"])
    b = bytearray(data)
    if k == "cut":
        return k, bytes(b[:rng.randrange(len(b))])
    if k == "empty":
        return k, b""
    if k == "head":
        return k, bytes(b[:rng.choice([1, 8, 31, 32, 33, 40, 48, 56, 57, 63, 64, 65, 72])])
    if k == "flip":
        for _ in range(rng.choice([1, 1, 3])):
            j = rng.choice([rng.randrange(len(b)), rng.randrange(32, 72), rng.randrange(64, len(b))])
            b[j] ^= 1 << rng.randrange(8)
    elif k == "size":
        n = rng.choice([0, 1, 2, 10, 99, 102, 10**6, 2**31, 2**40, 2**61, 2**63, 2**64 - 1])
        b[56:64] = n.to_bytes(8, "little")
    elif k == "grow":
        b = b[:-8] if rng.random() < 0.5 else b
        b[56:64] = (int.from_bytes(b[56:64], "little") + rng.choice([-2, -1, 1, 2])).to_bytes(8, "little")
    elif k == "zero":
        j = rng.randrange(32, len(b))
        b[j:] = bytes(len(b) - j)
    elif k == "text":
        b = bytearray(b"<html>not found</html>" * rng.randint(1, 60))
    elif k == "swap":
        j = rng.randrange(64, len(b) - 16) & ~7
        b[j:j + 8], b[j + 8:j + 16] = b[j + 8:j + 16], b[j:j + 8]
    return k, bytes(b)


def tampered(c, k, seed, flat=True):
    """Files of a configuration with damages, then runs of it (and of others)."""
    rng = random.Random(seed)
    ref = c.refs[k - 1]
    x = Case(c, f"damaged files of {k}, {seed}")
    for f, data in ref.items():
        if rng.random() < 0.8:
            what, bad = damage(rng, data)
            same = bad == data
            x.put(f, bad, k if same else 0, same)
        elif rng.random() < 0.5:
            o = rng.choice([j for j in range(1, len(CONFS) + 1) if f in c.refs[j - 1]])
            x.put(f, c.refs[o - 1][f], o, True)
    x.one(k)
    x.one(rng.choice([k, rng.choice(c.fast)]))
    return x.close()


def stale(c, ks, seed, fake):
    rng = random.Random(seed)
    x = Case(c, f"{ks} in one directory")
    if fake:
        # only of a configuration that does not run here
        x.fake(rng.choice([k for k in range(1, len(CONFS) + 1) if k not in ks]))
    for k in ks:
        x.one(k)
    return x.close()


def killed(c, k, n, seed):
    rng = random.Random(seed)
    x = Case(c, f"{k} killed before operation {n}")
    x.one(k, kill=n)
    x.one(rng.choice([k, rng.choice(c.fast)]))
    x.unstale()
    x.one(k, kill=rng.choice([None, rng.randint(1, 20)]))
    x.unstale()
    x.one(k)
    return x.close()


def full(c, k, limit):
    x = Case(c, f"{k}, files at most {limit} bytes", limited=True)
    x.one(k, limit=limit)
    x.one(k)
    return x.close()


def pair(c, a, b, choose, what, again):
    x = Case(c, what)
    x.two(a, b, choose)
    for k in again:
        x.one(k)
    return x.close()


def program(c, k, state, seed):
    """The complete program in a directory with a cache in some state."""
    rng = random.Random(seed)
    x = Case(c, f"program, configuration {k}, {state}")
    x.dir = x.base + "/tabulations"
    ref = c.proper[k - 1]
    os.makedirs(x.dir)
    if state == "damaged":
        for f, data in ref.items():
            what, bad = damage(rng, data)
            x.put(f, bad, 0, False)
    elif state == "other":
        o = rng.choice([j for j in range(1, len(CONFS) + 1) if j != k and c.proper[j - 1] != ref])
        for f, data in c.proper[o - 1].items():
            x.put(f, data, o, True)
    elif state == "locked":
        for f, data in ref.items():
            x.put(f, damage(rng, data)[1], 0, False)
        open(f"{x.dir}/{LOCK}", "w").close()
    elif state == "cached":
        for f, data in ref.items():
            x.put(f, data, k, True)
    got = result(c, k, x.base + "/o", state == "none")
    x.close()
    return k, state, got


def result(c, k, out, nocache):
    p, d, v = CONFS[k - 1]
    cmd = LIMIT + [c.bin("smash"), "-i", c.path("run.yaml"), "-p", c.path(f"p{p}"), "-d", c.path(f"d{d}"), "-q", "-o", out] + (["-n"] if nocache else [])
    rc, so, se = c.run(cmd, timeout=120, cwd=os.path.dirname(out))
    if rc:
        return f"failed: {rc} {se[-300:]}"
    return hashlib.sha256(b"".join(open(f"{out}/{f}", "rb").read() for f in sorted(os.listdir(out)) if f.endswith((".bin", ".oscar")))).hexdigest()[:24]


CONF = {"Logging": {"default": "ERROR"},
        "General": {"Modus": "Box", "Time_Step_Mode": "Fixed", "Delta_Time": 0.1, "End_Time": 2.0, "Nevents": 1, "Randomseed": 17},
        "Collision_Term": {"Strings": False, "Pseudoresonance": "None", "NNbar_Treatment": "no annihilation"},
        "Modi": {"Box": {"Length": 6.0, "Temperature": 0.5, "Initial_Condition": "thermal momenta", "Start_Time": 0.0,
                         "Init_Multiplicities": {"2212": 60, "2112": 60, "12212": 30}}},
        "Output": {"Particles": {"Format": ["Oscar2013"]}, "Collisions": {"Format": ["Oscar2013"]}}}


def run(c):
    rng = c.rng
    c.model("CacheMC", cfg=c.cfg("cmc.cfg", open(f"{runs.V}/spec/CacheMC.cfg").read().replace("NP = 3", "NP = 2")) if c.quick else None)
    gen = [json.loads(x) for x in c.generate("CacheMC", "CacheGen.cfg", c.pick(60, 800), 60)]
    gen = list({json.dumps(g): g for g in gen}.values())
    c.build("cache", "smash")
    fsx.shim(c)
    for k in range(4):
        open(c.path(f"p{k}"), "w").write(P[k])
        open(c.path(f"d{k}"), "w").write(D[k])
    with open(c.path("run.yaml"), "w") as f:
        json.dump(CONF, f)
    # undisturbed: everything computed in an empty directory
    c.digests, c.refs, c.proper = [], [], []

    def reference(k):
        p, d, v = CONFS[k]
        t = c.path(f"ref{k}")
        rc, out, err = c.run([c.bin("cache"), c.path(f"p{p}"), c.path(f"d{d}"), v, t])
        assert rc == 0, err
        o = c.path(f"prog{k}")
        os.makedirs(o)
        r = result(c, k + 1, o + "/o", False)
        return digest(out), {f: open(f"{t}/{f}", "rb").read() for f in os.listdir(t)}, {f: open(f"{o}/tabulations/{f}", "rb").read() for f in os.listdir(o + "/tabulations")}, r
    base = []
    for dg, fs, pf, r in c.par([(reference, k) for k in range(len(CONFS))]):
        c.digests.append(dg)
        c.refs.append(fs)
        c.proper.append(pf)
        base.append(r)
    if any(b.startswith("failed") for b in base) or "nothing" in c.digests:
        c.violation(f"undisturbed runs failed: {base} {c.digests}", {"runs": base})
        return
    # the configurations have to be told apart (the version is not seen in the values)
    assert len(set(c.digests)) == len(CONFS) - 1 and len(set(base)) == len(CONFS) - 1, (c.digests, base)
    c.fast = [k for k in range(1, len(CONFS) + 1) if k not in (5, 6)]
    every = range(1, len(CONFS) + 1)
    ops = {}
    for k in every:
        lo, hi = 1, 512
        while lo < hi:
            m = (lo + hi) // 2
            x = Case(c, "count")
            x.one(k, kill=m, look=False)
            if x.ev[-1]["op"] == "kill":
                lo = m + 1
            else:
                hi = m
            x.close()
        ops[k] = lo - 1
    c.extra["operations"] = ops
    jobs = []
    for k in every:
        for _ in range(c.pick(60 if k in c.fast else 12, 700 if k in c.fast else 150)):
            jobs.append((tampered, c, k, rng.randrange(10**9)))
        pts = range(1, ops[k] + 1)
        for n in pts if k in c.fast or not c.quick else rng.sample(pts, min(len(pts), 12)):
            jobs.append((killed, c, k, n, rng.randrange(10**9)))
        for l in ([0, 32, 64, 100, 500, 903, 904, 5000] if k in c.fast or not c.quick else [rng.randint(33, 900)]):
            jobs.append((full, c, k, l))
    for a in every:
        for b in every:
            if a != b:
                jobs.append((stale, c, [a, b, a], rng.randrange(10**9), rng.random() < 0.5))
    for k in c.fast:
        jobs.append((stale, c, [k, k], 1, True))

    def switch(i, j):
        st = {0: 0, 1: 0}

        def choose(en):
            want = 0 if st[0] < i else 1 if st[1] < j else 0
            k = want if want in en else en[0]
            st[k] += 1
            return k
        return choose

    def replay(sched):
        seq = [p - 1 for p in sched for _ in range(2)]

        def choose(en):
            while seq:
                p = seq.pop(0)
                if p in en:
                    return p
            return en[0]
        return choose
    pts = [(i, j) for i in range(0, 26) for j in list(range(1, 9)) + [99]]
    for i, j in rng.sample(pts, 60) if c.quick else pts * 2:
        a, b = rng.choice(c.fast), rng.choice(c.fast)
        jobs.append((pair, c, a, b, switch(i, j), f"{a} and {b}, changing after {i} and {j}", [rng.choice([a, b])]))
    for g in gen:
        jobs.append((pair, c, *g["cfg"], replay(g["sched"]), "behaviour of the model", g["cfg"]))
    res = c.par(jobs)
    if any(r is None for r in res):
        raise RuntimeError("a case gave no result")
    c.extra["cases"] = len(res)
    # complete runs
    prog = c.par([(program, c, k, s, rng.randrange(10**9)) for k in every for s in ("none", "cached", "damaged", "damaged", "other", "locked")
                  for _ in range(1 if c.quick else 6) if not (c.quick and k == 4)])
    c.extra["complete_runs"] = len(prog)
    ev = [{"reset": True, "op": "case", "what": "complete runs", "limited": False, "refs": base}]
    for n, (k, state, got) in enumerate(prog):
        ev += [{"op": "start", "p": n + 1, "cfg": k}, {"op": "open", "p": n + 1, "f": LOCK, "kind": "lock", "mode": "x", "ok": True},
               {"op": "unlink", "p": n + 1, "f": LOCK, "kind": "lock", "ok": True},
               {"op": "exit", "p": n + 1, "ok": not got.startswith("failed"), "saw": got, "state": state}]
    res.append(ev)
    files = []
    n = c.pick(4, 8)
    for k in range(n):
        p = c.path(f"trace{k}.ndjson")
        with open(p, "w") as f:
            for r in res[k::n]:
                for e in r:
                    f.write(json.dumps(e, separators=(",", ":"), ensure_ascii=False) + "\n")
        files.append(p)
    c.trace("CacheTrace", files)
