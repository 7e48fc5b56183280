"""C12: results appear complete; runs never write to one directory at the same time or touch a finished one."""
import json
import os
import random
import shutil
import threading

import fsx
import runs

LEVEL = "model_checking"
ASSUMPTIONS = ["files are observed at the calls of the C library (open, fopen, close, fclose, rename, remove, unlink, mkdir, stat); a crash is a "
               "kill of the process, not a loss of power", "what a killed process has left in its buffers is lost"]
PARTICLES = "π 0.138 7.7e-9 - 111 211\nN 0.938 0 + 2112 2212\nσ 0.8 0.4 + 9000221\n"
DECAYS = "σ\n1.0 0 π π\n"
INFO = (["-r", "9000221"], ["-s", "211,-211"], ["-S", "211,-211"], ["-l"], ["-x"], ["-r", "211"], ["-v"], ["-h"])
Q = ["t", "x", "y", "z", "pdg", "ID"]
SEEDS = (11, 12, 13, 14)


def variants(c, rng):
    base = {"Logging": {"default": "ERROR"},
            "General": {"Time_Step_Mode": "Fixed", "Delta_Time": 0.1, "End_Time": 2.0, "Nevents": 2},
            "Collision_Term": {"Strings": False, "Pseudoresonance": "None", "Two_to_One": False, "Included_2to2": ["Elastic"],
                               "Elastic_Cross_Section": 20.0, "Total_Cross_Section_Strategy": "BottomUp"}}
    box = {"Box": {"Length": 6.0, "Temperature": 0.2, "Initial_Condition": "peaked momenta", "Start_Time": 0.0,
                   "Init_Multiplicities": {"211": 10, "2212": 4}}}
    out = {"Output_Interval": 1.0, "Particles": {"Format": ["Binary", "Oscar2013", "ASCII", "VTK"], "Only_Final": "No", "Quantities": Q},
           "Collisions": {"Format": ["Oscar2013_bin", "Oscar1999", "Binary"], "Quantities": Q},
           "Thermodynamics": {"Format": ["ASCII", "Lattice_ASCII", "Lattice_Binary", "VTK"], "Type": "hadron", "Quantities": ["rho_eckart"]}}
    lat = {"Lattice": {"Automatic": False, "Origin": [0.0, 0.0, 0.0], "Sizes": [6.0, 6.0, 6.0], "Cell_Number": [3, 3, 3]}}
    yield "box", runs.merge(base, {"General": {"Modus": "Box"}, "Modi": box, "Output": out, **lat}), True
    small = {"Output_Interval": 1.0, "Particles": {"Format": ["Oscar2013"], "Only_Final": rng.choice(["Yes", "No"])},
             "Collisions": {"Format": ["Oscar2013_bin"]}}
    yield "small", runs.merge(base, {"General": {"Modus": "Box", "Nevents": 1}, "Modi": box, "Output": small}), True
    nuc = {"Collider": {"Projectile": runs.nucleus(1, 1), "Target": runs.nucleus(1, 1), "Sqrtsnn": 3.5,
                          "Initial_Conditions": {"Type": "Constant_Tau", "Proper_Time": 0.5}}}
    yield "surface", runs.merge(base, {"General": {"Modus": "Collider", "Delta_Time": 0.5, "End_Time": 10.0}, "Modi": nuc, "Output": {
        "Initial_Conditions": {"Format": ["ASCII", "Oscar2013", "Binary", "For_vHLLE"], "Quantities": Q},
        "Particles": {"Format": ["Binary"], "Quantities": Q}}}), True
    # runs that fail: before anything is written, after the outputs have been opened, in the second event
    yield "unused", runs.merge(base, {"General": {"Modus": "Box"}, "Modi": {"Box": {**box["Box"], "Jet": {"Jet_PDG": 211}}}, "Output": small,
                                      "Collision_Term": {"Strings": False, "String_Parameters": {"String_Tension": 1.0}}}), False
    yield "grid", runs.merge(base, {"General": {"Modus": "Box"}, "Modi": {"Box": {**box["Box"], "Length": 4.0}}, "Output": out,
                                    "Lattice": lat["Lattice"]}), False
    ev = [[runs.hadron(rng, 0.0, 2.0, pdg=211) for _ in range(6)] for _ in range(2)]
    p = runs.oscar_list(c.path("bad0"), ev)
    lines = open(p).read().splitlines()
    k = [j for j, l in enumerate(lines) if l.startswith("# event 1 out")][0]
    lines[k + 3] = "0.1 0.2 nonsense"
    open(p, "w").write("\n".join(lines) + "\n")
    yield "event2", runs.merge(base, {"General": {"Modus": "List"}, "Modi": {"List": {"File_Directory": c.work, "Filename": "bad0"}}, "Output": small}), False
    yield "invalid", runs.merge(base, {"General": {"Modus": "Box", "Nonsense": 1}, "Modi": box, "Output": small}), False


class Case:
    """One directory, the processes that run in it one after another or at once, and their trace."""
    count = 0
    lk = threading.Lock()

    def __init__(self, c, refs, what, inject=False):
        with Case.lk:
            Case.count += 1
            self.n = Case.count
        self.c, self.refs, self.inject, self.what = c, refs, inject, what
        self.dir = c.path(f"case{self.n}/out")
        self.log = c.path(f"case{self.n}/log")
        self.so = c.path("fsshim.so")
        self.ev, self.vs, self.np, self.seen = [], [], 0, 0
        self.header({"files": [], "lock": 0})

    def header(self, x):
        self.ev.append({"reset": True, "op": "case", "what": self.what, "inject": self.inject, **x})

    def cmd(self, v, seed, force, info=()):
        return self.c.cmd(v, seed) + ["-o", self.dir] + (["-f"] if force else []) + list(info)

    def start(self, v, seed, force, info=()):
        self.np += 1
        self.vs.append((v, seed))
        self.ev.append({"op": "start", "p": self.np, "force": force, "v": v, "seed": seed, "info": bool(info), "args": list(info)})
        return self.np

    def pull(self):
        r = fsx.records(self.log)
        self.ev += r[self.seen:]
        self.seen = len(r)

    def exit(self, p, rc, err):
        if rc == -9:
            self.ev.append({"op": "kill", "p": p})
        else:
            # a crash of the program itself is never right, and leaves its lock behind
            self.ev.append({"op": "exit" if rc in (0, 1) else "crash", "p": p, "ok": rc == 0, "rc": rc, "err": err[-300:] if rc else ""})

    def one(self, v, seed, force=False, kill=None, limit=None, look=True, info=()):
        p = self.start(v, seed, force, info)
        env = fsx.environment(self.so, [self.dir], self.log, p, kill)
        rc, err = fsx.run(self.cmd(v, seed, force, info), env, self.c.path(f"case{self.n}"), limit=limit)
        self.pull()
        self.exit(p, rc, err)
        if look:
            self.look()
        return rc

    def two(self, a, b, choose, look=True):
        ps = [self.start(*a), self.start(*b)]
        jobs = []
        for p, x in zip(ps, (a, b)):
            jobs.append((self.cmd(*x), (lambda fds, p=p: fsx.environment(self.so, [self.dir], self.log, p, None, fds)), self.c.path(f"case{self.n}")))
        rcs, errs, order = fsx.interleave(jobs, choose)
        self.pull()
        for p, rc, err in zip(ps, rcs, errs):
            self.exit(p, rc, err)
        if look:
            self.look()
        return rcs, order

    def unstale(self):
        p = os.path.join(self.dir, "smash.lock")
        if os.path.exists(p):
            os.remove(p)
            self.ev.append({"op": "clear"})

    def look(self):
        files, lock = [], False
        for f in sorted(os.listdir(self.dir)) if os.path.isdir(self.dir) else []:
            if os.path.isdir(os.path.join(self.dir, f)):
                continue
            b, t, kind = fsx.split(f)
            if kind == "lock":
                lock = True
                continue
            data = open(os.path.join(self.dir, f), "rb").read()
            by = [p + 1 for p, (v, s) in enumerate(self.vs) if self.refs.get((v, s), {}).get(b) == data]
            files.append({"f": b, "t": t, "kind": kind, "by": by})
        self.ev.append({"op": "dir", "files": files, "lock": lock})

    def close(self):
        shutil.rmtree(self.c.path(f"case{self.n}"), ignore_errors=True)
        return self.ev


def run(c):
    rng = c.rng
    c.model("FilesMC", cfg=c.cfg("fmc.cfg", open(f"{runs.V}/spec/FilesMC.cfg").read().replace("NP = 3", "NP = 2")) if c.quick else None)
    gen = [json.loads(x) for x in c.generate("FilesMC", "FilesGen.cfg", c.pick(150, 1500), 60)]
    gen = list({json.dumps(g): g for g in gen}.values())
    c.build("smash")
    fsx.shim(c)
    for f, t in (("p.txt", PARTICLES), ("d.txt", DECAYS)):
        open(c.path(f), "w").write(t)
    confs = {}
    for v, conf, good in variants(c, rng):
        confs[v] = good
        for s in SEEDS:
            with open(c.path(f"{v}-{s}.yaml"), "w") as f:
                json.dump(runs.merge(conf, {"General": {"Randomseed": s}}), f, ensure_ascii=False)
    c.cmd = lambda v, s: [c.bin("smash"), "-i", c.path(f"{v}-{s}.yaml"), "-p", c.path("p.txt"), "-d", c.path("d.txt"), "-q", "-n"]
    # what complete runs leave, without anything watching them
    refs = {}
    for v, good in confs.items():
        for s in SEEDS:
            d = c.path(f"ref-{v}-{s}")
            rc, out, err = c.run(c.cmd(v, s) + ["-o", d], timeout=60)
            if (rc == 0) != good:
                c.violation(f"run {v} ended with status {rc}: {err[-500:]}", {"variant": v})
                return
            refs[v, s] = {fsx.split(f)[0]: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)} if os.path.isdir(d) else {}
            shutil.rmtree(d, ignore_errors=True)
    # number of operations of an undisturbed run
    ops = {}
    for v in confs:
        lo, hi = 1, 4096
        while lo < hi:
            m = (lo + hi) // 2
            k = Case(c, refs, "count")
            if k.one(v, SEEDS[0], kill=m, look=False) == -9:
                lo = m + 1
            else:
                hi = m
            k.close()
        ops[v] = lo - 1
    c.extra["operations"] = ops
    good = [v for v in confs if confs[v]]
    jobs = []

    def kills(v, n, seed):
        r = random.Random(seed)
        k = Case(c, refs, f"{v} killed before operation {n}")
        k.one(v, 11, kill=n)
        k.one(r.choice(good), 12, False)
        k.unstale()
        k.one(r.choice(good), 13, False, kill=r.choice([None, None, None, r.randint(1, 30)]))
        k.unstale()
        k.one(r.choice([v, r.choice(list(confs))]), 14, True)
        return k.close()

    def pair(a, b, choose, what):
        k = Case(c, refs, what)
        k.two(a, b, choose)
        k.unstale()
        k.one("small", 13, False)
        return k.close()

    def fails(v, w, force, limit):
        k = Case(c, refs, f"{v} after {w}, files at most {limit} bytes", inject=limit is not None)
        if w:
            k.one(w, 11)
        k.one(v, 12, force, limit=limit)
        k.one("small", 13, False)
        k.one("small", 14, True)
        return k.close()

    def obstacle(v, name, what):
        k = Case(c, refs, f"{v} with {what} {name}", inject=True)
        os.makedirs(os.path.join(k.dir, name))
        if what == "nonempty directory":
            os.makedirs(os.path.join(k.dir, name, "x"))
        k.one(v, 11, True)
        return k.close()

    def informed(v, w, n, force, args):
        """A process that only prints something, in the directory of a run killed before operation n, or complete."""
        k = Case(c, refs, f"{v} {args} in the directory of {w}, killed before operation {n}")
        k.one(w, 11, kill=n)
        k.one(v, 12, force, info=args)
        return k.close()

    for v in confs:
        for args in INFO:
            w = rng.choice(good)
            jobs.append((informed, v, w, rng.choice([None, rng.randint(1, ops[w])]), rng.random() < 0.5, args))
        n = ops[v]
        pts = list(range(1, n + 1))
        if c.quick and n > 45:
            pts = sorted(rng.sample(pts, 45))
        for x in pts:
            jobs.append((kills, v, x, rng.randrange(10**9)))
        jobs.append((kills, v, None, rng.randrange(10**9)))
    # every switch of one process to the other and back, and behaviours of the model
    def switch(i, j):
        st = {0: 0, 1: 0}

        def choose(en):
            want = 0 if st[0] < i else 1 if st[1] < j else 0
            k = want if want in en else en[0]
            st[k] += 1
            return k
        return choose
    def replay(sched, r):
        seq = [p - 1 for p in sched for _ in range(r.choice([1, 1, 2]))]

        def choose(en):
            while seq:
                p = seq.pop(0)
                if p in en:
                    return p
            return en[0]
        return choose
    pts = [(i, j) for i in range(0, 26) for j in range(1, 9)] + [(i, 99) for i in range(0, 60)]
    for i, j in (rng.sample(pts, 90) if c.quick else pts * 3):
        f = (rng.random() < 0.4, rng.random() < 0.4)
        a, b = rng.choice(good), rng.choice(list(confs))
        if rng.random() < 0.3:
            a, b = b, a
        jobs.append((pair, (a, 11, f[0]), (b, 12, f[1]), switch(i, j), f"{a} and {b}, changing after {i} and {j}"))
    for g in gen:
        jobs.append((pair, (rng.choice(good), 11, g["force"][0]), (rng.choice(good), 12, g["force"][1]), replay(g["sched"], random.Random(rng.random())),
                     "behaviour of the model"))
    for v in confs:
        for w in (None, "small", rng.choice(list(confs))):
            for force in (False, True):
                jobs.append((fails, v, w, force, None))
        big = max([2000] + [len(b) for b in refs[v, 12].values()])
        for _ in range(c.pick(4, 40)):
            jobs.append((fails, v, rng.choice([None, "small"]), rng.random() < 0.5, rng.choice([0, rng.randint(1, 2500), rng.randint(1500, big)])))
        for f in refs[v, 12]:
            if v in good and fsx.split(f)[2] == "res":
                jobs.append((obstacle, v, f + ".unfinished", "directory"))
                jobs.append((obstacle, v, f, "nonempty directory"))
    res = c.par([(lambda j=j: j[0](*j[1:])) for j in jobs])
    if any(r is None for r in res):
        raise RuntimeError("a case gave no result")
    c.extra["cases"] = len(res)
    c.extra["interrupted"] = sum(1 for r in res for e in r if e["op"] == "kill")
    n = c.pick(4, 8)
    files = []
    for k in range(n):
        p = c.path(f"trace{k}.ndjson")
        with open(p, "w") as f:
            for r in res[k::n]:
                for e in r:
                    f.write(json.dumps(e, separators=(",", ":"), ensure_ascii=False) + "\n")
        files.append(p)
    c.trace("FilesTrace", files)
