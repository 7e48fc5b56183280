"""Common machinery of the checks: build, run drivers, run TLC, collect evidence, report."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODEL, TRACE = "model", "trace"


class CheckError(Exception):
    """The check could not give an answer (exit 2)."""


class Ctx:
    V = V
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(V, ".work", f"{pid}-{os.getpid()}")
        self.known = load_known(pid)
        self.reset()

    def reset(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, self.id)))
        self.violations, self.known_hit = [], {}
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.n = 0

    # ---- helpers -------------------------------------------------------------------------
    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        p = os.path.join(self.work, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def bin(self, name):
        return os.path.join(B, "bin", name)

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def build(self, *drivers):
        r = subprocess.run([sys.executable, f"{V}/tools/build.py", *drivers], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-4000:])

    def run(self, cmd, timeout=300, cwd=None, env=None, stdin=None):
        """Runs a command; returns (rc, stdout, stderr).  rc = -signal, or 'timeout'."""
        e = dict(os.environ)
        e.update(env or {})
        # code gone wrong must not take the memory of everybody else
        if str(cmd[0]).startswith(B):
            cmd = ["prlimit", f"--as={6 << 30}"] + list(cmd)
        try:
            r = subprocess.run(cmd, cwd=cwd or self.work, env=e, input=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
            return "timeout", dec(x.stdout), dec(x.stderr)

    def drive(self, name, *args, timeout=300, what=None, outputs=(), cwd=None, stdin=None):
        """Runs a driver that has to exit 0.  A crash or hang of the real code inside it is a
        violation: the specification has no behaviour in which an operation does not return."""
        rc, out, err = self.run([self.bin(name), *map(str, args)], timeout=timeout, cwd=cwd, stdin=stdin)
        if rc != 0:
            last = {}
            for o in outputs:
                try:
                    last[os.path.basename(o)] = open(o, errors="replace").read()[-1500:]
                except OSError:
                    pass
            self.violation(f"{what or name}: the code under test crashed or hung (status {rc})",
                           {"cmd": [name, *map(str, args)], "stderr": err[-3000:], "stdout": out[-1500:],
                            "last_records": last})
            return None
        return out

    def par(self, jobs, n=8):
        with cf.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(*j) if isinstance(j, tuple) else ex.submit(j) for j in jobs]
            return [f.result() for f in fs]

    # ---- verdicts ------------------------------------------------------------------------
    def violation(self, text, data=None, key=None):
        """key identifies a finding; a key listed in known-findings.json does not count."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, self.known[key])
            return
        self.violations.append((text, data, key))

    def check(self, cond, text, data=None, key=None):
        if not cond:
            self.violation(text, data, key)
        return cond

    # ---- TLC -----------------------------------------------------------------------------
    def tlc(self, spec, cfg, env=None, workers=1, args=(), heap="3g", timeout=800):
        self.n += 1
        meta = self.path(f"tlc{self.n}-{random.randrange(10**9)}")
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-XX:TieredStopAtLevel=1" if workers == 1 and self.quick else "-XX:+TieredCompilation",
               "-cp", JAR, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers",
               str(workers), *args, os.path.join(V, "spec", spec + ".tla")]
        rc, out, err = self.run(cmd, timeout=timeout, cwd=os.path.join(V, "spec"), env=env)
        shutil.rmtree(meta, ignore_errors=True)
        if rc == "timeout":
            raise CheckError(f"TLC timed out on {spec} {cfg}")
        if rc not in (0, 10, 11, 12, 13, 14, 75, 76, 77):
            raise CheckError(f"TLC failed on {spec} {cfg} rc={rc}\n{out[-3000:]}\n{err[-1500:]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, out, gen, dist

    def cfg(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def model(self, spec, cfg=None, workers=8, timeout=800, env=None, args=(), heap="8g"):
        """Exhaustive (or bounded) model checking of a design specification."""
        cfg = cfg or f"{spec}.cfg"
        rc, out, gen, dist = self.tlc(spec, cfg, workers=workers, timeout=timeout, env=env, args=args, heap=heap)
        if rc != 0:
            raise CheckError(f"model {spec} violates its own property:\n{out[-3500:]}")
        self.states += dist
        self.transitions += gen
        self.extra.setdefault("models", []).append(
            {"spec": spec, "cfg": os.path.basename(cfg), "states": dist, "transitions": gen})
        return out

    def trace(self, spec, files, cfg=None, env=None, par=8, heap="3g", timeout=800, segments=True):
        """Validates recorded traces (ndjson) against a trace specification."""
        if isinstance(files, str):
            files = [files]
        cfg = cfg or f"{spec}.cfg"

        def one(f):
            e = dict(env or {})
            e["TRACE"] = f
            return f, self.tlc(spec, cfg, env=e, workers=1, heap=heap, timeout=timeout)
        with cf.ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, files))
        ok = True
        for f, (rc, out, gen, dist) in res:
            lines = open(f).read().splitlines()
            self.states += dist
            self.transitions += gen
            m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
            reached = int(m[1]) if m else None
            if rc == 0 and reached is not None and reached == len(lines):
                nt = sum(1 for x in lines if '"reset":true' in x) or 1
                self.traces += nt
                self.events += len(lines)
                if lines:
                    self.sample(json.loads(lines[min(len(lines) - 1, self.rng.randrange(len(lines)))]))
                continue
            if rc == 0:
                raise CheckError(f"trace {f}: TLC passed without reaching the end\n{out[-1500:]}")
            if reached is None:
                # evaluation error: the level reached is in the error trace
                mm = re.findall(r"^State (\d+):", out, re.M)
                reached = int(mm[-1]) - 1 if mm else 0
                if rc not in (12, 14, 75, 76, 77):
                    raise CheckError(f"TLC on trace {f}: rc={rc}\n{out[-3000:]}")
            if 'not completely specified' in out:
                raise CheckError(f'{spec}: specification error\n{out[-2000:]}')
            ok = False
            start = 0
            for i in range(min(reached, len(lines) - 1), -1, -1):
                if segments and '"reset":true' in lines[i]:
                    start = i
                    break
            seg = lines[max(start, reached - 400):reached + 1]
            err = re.search(r"(Error: .*?)(?=\n(?:State|The behavior|Finished|\d+ states))", out, re.S)
            self.violation(f"{spec}: event {reached + 1} of a recorded trace is not a behaviour of the specification: "
                           + (lines[reached][:600] if reached < len(lines) else "(end)"),
                           {"spec": spec, "rejected_event": lines[reached] if reached < len(lines) else None,
                            "tlc": err[1][:2000] if err and "Postcondition" not in err[1] else "",
                            "trace_since_reset": seg})
        return ok

    def generate(self, spec, cfg, num, depth, env=None, timeout=300, tag="GEN "):
        """Behaviours of the specification by TLC simulation: it prints one JSON text each."""
        rc, out, gen, dist = self.tlc(spec, cfg, env=env, timeout=timeout,
                                      args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed + 17)))
        res = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"' + tag):
                res.append(json.loads(l)[len(tag):])
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.states += int(m[1])
            self.transitions += int(m[1])
        if not res:
            raise CheckError(f"no behaviours generated from {spec}\n{out[-2000:]}")
        return res


def load_known(pid):
    try:
        d = json.load(open(os.path.join(V, "known-findings.json")))
    except OSError:
        return {}
    return {x["key"]: x["what"] for x in d.get("findings", []) if x["property"] == pid}


def main(pid, run, level="model_checking", assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Ctx(pid, tier, seed)
    rdir = os.path.join(V, "evidence", "replay")
    keep = os.environ.get("VERIF_KEEP")
    try:
        try:
            run(c)
            if c.violations:
                first = c.violations
                print(f"{pid}: {len(first)} rejection(s), repeating the run to confirm: {first[0][0][:300]}", flush=True)
                c.reset()
                run(c)
                if not c.violations:
                    raise CheckError(f"not repeatable: {first[0][0]}")
        except CheckError as x:
            if not c.violations:
                print(f"{pid}: ERROR {x}", flush=True)
                return 2
        cov = {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
               "events_validated": c.events, "samples": c.samples, **c.extra}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - c.t0, 2), "violations": len(c.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, w in c.known_hit.items():
            print(f"KNOWN-FINDING: property={pid} {w}")
        if c.violations:
            os.makedirs(rdir, exist_ok=True)
            for i, (text, data, key) in enumerate(c.violations[:10]):
                p = os.path.join(rdir, f"{pid}-{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": pid, "what": text, "key": key, "seed": seed, "tier": tier, "data": data}, f, indent=1,
                              default=str)
                print(f"  {text[:800]}")
                print(f"VIOLATION property={pid} replay={p}", flush=True)
            return 1
        print(f"{pid}: held ({tier}, seed {seed}): {c.states} model states, {c.traces} traces, {c.events} events, "
              f"{time.time() - c.t0:.1f} s")
        return 0
    finally:
        if not keep:
            shutil.rmtree(c.work, ignore_errors=True)
