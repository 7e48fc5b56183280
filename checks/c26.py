"""C26: command-line settings override the file; bad invocations do nothing."""
import hashlib
import json
import os
import random
import shutil

import yaml

import runs

LEVEL = "model_checking"
ASSUMPTIONS = ["values of settings are compared as text (numbers as numbers)", "invocations that would run with the full default lists are only made "
               "where the run ends before cross sections are tabulated"]
P1 = "π 0.138 7.7e-9 - 111 211\nN 0.938 0 + 2112 2212\nσ 0.8 0.4 + 9000221\n"
P2 = "# others\nπ 0.138 7.7e-9 - 111 211\n\nN 0.938 0 + 2112 2212\nK 0.494 0 - 311 321\n"
D1, D2 = "σ\n1.0 0 π π\n", "# nothing decays\n"
LONG = {"c": "config", "d": "decaymodes", "e": "endtime", "f": "force", "h": "help", "i": "inputfile", "m": "modus", "p": "particles", "o": "output",
        "l": "list-2-to-n", "r": "resonance", "s": "cross-sections", "S": "cross-sections-fs", "x": "dump-iSS", "v": "version", "n": "no-cache",
        "q": "quiet"}
ARG = set("cdeimporsS")
SETTINGS = {"General.End_Time": [0.5, 1.0, 2, 1.5], "General.Nevents": [1, 2], "General.Randomseed": [3, 7, -1, 123456789012], "General.Modus": ["Box", "Sphere"],
            "Output.Particles.Only_Final": ["Yes", "No", "IfNotEmpty"], "Output.Particles.Format": [["Oscar2013"], ["Oscar1999"], ["Oscar1999", "Oscar2013"]],
            "Output.Output_Interval": [0.5, 1.0], "Modi.Box.Temperature": [0.15, 0.2], "Modi.Box.Length": [6.5, 7], "Modi.Sphere.Radius": [3.0, 2.5],
            "Collision_Term.Elastic_Cross_Section": [5.0, 10], "Collision_Term.Isotropic": [True, False], "General.Ensembles": [1, 2],
            "General.Testparticles": [1], "Collision_Term.Force_Decays_At_End": [True, False], "Logging.Main": ["ERROR", "FATAL"],
            "Collision_Term.No_Collisions": [False], "Collision_Term.Pauli_Blocking.Gaussian_Cutoff": [2.0, 2.5],
            "Collision_Term.Pauli_Blocking.Spatial_Averaging_Radius": [1.5, 2], "Collision_Term.Dileptons.Decays": [False],
            "Collision_Term.Photons.Bremsstrahlung": [False], "Collision_Term.Photons.2to2_Scatterings": [False]}
INVALID = ["General.Nonsense", "Nonsense", "Collision_Term.Elastic", "Modi.Box.Lenght", "Output.Particles.Formats"]
UNUSED = ["Collision_Term.String_Parameters.String_Tension", "Collision_Term.String_Parameters.Quark_Alpha"]
REQUIRED = ["General.Modus", "General.End_Time", "General.Nevents"]
LOGALL = {"Logging": {"default": "ERROR"}}


def tree(leaves):
    r = {}
    for p, v in leaves.items():
        d = r
        *h, t = p.split(".")
        for k in h:
            d = d.setdefault(k, {})
        d[t] = v
    return r


def canon(v):
    if isinstance(v, list):
        return "[" + ",".join(map(canon, v)) + "]"
    if v.isdigit():
        return str(int(v))
    try:
        x = float(v)
        return str(int(x)) if x == int(x) and abs(x) < 1e18 and "." not in v and "e" not in v.lower() else "%.12g" % x
    except (ValueError, OverflowError):
        return v


def flat(t, pre=""):
    r = []
    for k, v in t.items():
        if isinstance(v, dict):
            r += flat(v, pre + k + ".")
        else:
            r.append([pre + k, canon(v)])
    return r


def ident(text):
    ls = [l.split("#")[0].split() for l in text.splitlines()]
    return hashlib.sha256("\n".join(" ".join(l) for l in ls if l).encode()).hexdigest()[:12] if any(ls) else "empty"


def listed(y, key):
    return ident(y[key]) if key in y else ""


def block(rng, t, ind=0):
    """YAML text of a tree in block or flow style."""
    if rng.random() < 0.5 and ind == 0:
        return json.dumps(t)
    return "\n".join("  " * ind + k + ":" + ("\n" + block(rng, v, ind + 1) if isinstance(v, dict) else " " + json.dumps(v)) for k, v in t.items())


def atof(s):
    import re
    m = re.match(r"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+)", s)
    return abs(float(m[0])) if m else 0.0


class Inv:
    """One invocation: a scratch directory, options, and the events of the specification."""

    def __init__(self, c, n, rng):
        self.c, self.rng, self.n = c, rng, n
        self.d = c.path(f"inv{n}")
        os.makedirs(self.d, exist_ok=True)
        self.args, self.ev, self.tags = [], [], set()
        self.opts = []

    def file(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return name if self.rng.random() < 0.7 else p

    def opt(self, o, arg=None, **x):
        rng = self.rng
        if arg is None:
            form = [f"-{o}"] if rng.random() < 0.6 else ["--" + LONG[o]]
        else:
            full = LONG[o]
            form = rng.choice([[f"-{o}", arg], [f"-{o}{arg}"] if arg else [f"-{o}", arg], ["--" + full, arg], [f"--{full}={arg}"]])
        self.opts.append((form, {"o": o, **x}))

    def base(self, drop=()):
        leaves = {"General.Time_Step_Mode": "Fixed", "General.Delta_Time": 0.1, "General.End_Time": 1.0, "General.Randomseed": 5, "General.Nevents": 1,
                  "General.Modus": "Box", "Collision_Term.Strings": False, "Collision_Term.Pseudoresonance": "None", "Collision_Term.Two_to_One": False,
                  "Collision_Term.Included_2to2": ["Elastic"], "Collision_Term.Elastic_Cross_Section": 20.0,
                  "Collision_Term.Total_Cross_Section_Strategy": "BottomUp", "Output.Particles.Format": ["Oscar2013"], "Output.Output_Interval": 1.0,
                  "Logging.default": "ERROR"}
        for m, k in (("Box", {"Length": 6.0}), ("Sphere", {"Radius": 3.0})):
            for a, b in {**k, "Temperature": 0.2, "Initial_Condition": "thermal momenta", "Start_Time": 0.0}.items():
                leaves[f"Modi.{m}.{a}"] = b
            leaves[f"Modi.{m}.Init_Multiplicities.211"] = 6
        for k in self.rng.sample(sorted(SETTINGS), self.rng.randint(0, 4)):
            leaves[k] = self.rng.choice(SETTINGS[k])
        for k in drop:
            leaves.pop(k, None)
        return leaves

    def input(self, name, state="ok", drop=(), inline=False, extra=None):
        """Writes an input file; returns (argument, description)."""
        leaves = {**self.base(drop), **(extra or {})}
        t = tree(leaves)
        if inline:
            t["particles"], t["decaymodes"] = inline
        text = block(self.rng, t) if not inline else json.dumps(t, ensure_ascii=False)
        arg = self.file(name, text)
        if state == "missing":
            os.remove(os.path.join(self.d, name))
        elif state == "yaml":
            self.file(name, text + "\n]: [")
        elif state == "nomap":
            self.file(name, "- a\n- b\n")
        elif state == "directory":
            os.remove(os.path.join(self.d, name))
            os.makedirs(os.path.join(self.d, name))
        y = yaml.load(text, yaml.BaseLoader)
        lv = flat({k: v for k, v in y.items() if k not in ("particles", "decaymodes")})
        return arg, {"given": True, "ok": state == "ok", "leaves": lv, "particles": listed(y, "particles"), "decays": listed(y, "decaymodes")}

    def inline(self, leaves, ok=True):
        text = block(self.rng, tree(leaves))
        if not ok:
            text = self.rng.choice(["{General: {End_Time: 1.0", "General: [1, 2", "a: b: c", "\"unclosed"])
        self.opt("c", text, ok=ok, leaves=flat(yaml.load(text, yaml.BaseLoader)) if ok else [])

    def lists(self, which, state="ok", partner=True):
        """which: "p" or "d"; state: ok, other (a text that does not fit the other list), missing, malformed, crlf, directory"""
        text = {"p": self.P, "d": self.D}[which]
        if state == "malformed":
            text = {"p": "π 0.138 nonsense - 111 211\n", "d": "σ\n1.0 0 π Q\n"}[which]
        if state == "crlf":
            text = text.replace("\n", "\r\n")
        a = self.file({"p": "particles list.txt", "d": "decays.txt"}[which] + str(len(self.opts)), text)
        p = a if os.path.isabs(a) else os.path.join(self.d, a)
        if state in ("missing", "directory"):
            os.remove(p)
            if state == "directory":
                os.makedirs(p)
        self.opt(which, a, given=True, readable=state not in ("missing", "crlf", "directory"), ok=state == "ok" and partner, id=ident(text))

    def go(self, out, place, order=True):
        """Runs the program; out: the output directory, or None for the default."""
        c, rng = self.c, self.rng
        real = out and os.path.join(self.d, out)
        if place == "file":
            self.file(out, "a file")
        elif place:
            for f in ("notes.txt",) + (("config.yaml", "particle_lists.oscar") if place != "lock" or rng.random() < 0.5 else ()) + (("smash.lock",) if place == "lock" else ()):
                self.file(f"{out}/{f}", "old")
        if not out:
            ids = {k for k in range(4) if rng.random() < 0.5}
            for k in ids:
                self.file(f"data/{k}/config.yaml", "old")
            real = os.path.join(self.d, "data", str(min(set(range(5)) - ids)))
        if out:
            self.opt("o", out if rng.random() < 0.5 else real)
        if order and rng.random() < 0.7:
            self.opt("q")
        if order and rng.random() < 0.4:
            self.opt("n")
        if order:
            rng.shuffle(self.opts)
        before = self.snapshot()
        cmd = [c.bin("smash")] + [a for form, _ in self.opts for a in form]
        rc, so, se = c.run(cmd, cwd=self.d, timeout=60)
        after = self.snapshot()
        rel = os.path.relpath(real, self.d)
        changed, outside = [], []
        for f in sorted(set(before) | set(after)):
            inside = f == rel or f.startswith(rel + "/")
            if before.get(f) != after.get(f):
                if inside and not f.endswith("/notes.txt"):
                    if f in before:
                        changed.append(f)
                    elif f.endswith("/smash.lock"):
                        outside.append(f)
                elif not os.path.dirname(f).endswith("tabulations"):
                    outside.append(f)
        rec = f"{rel}/config.yaml"
        has = rec in after and before.get(rec) != after[rec]
        e = {"op": "result", "rc": rc, "said": bool((so + se).strip()), "has": has, "recorded": [], "particles": "", "decays": "", "seed": 0, "seedkey": "",
             "results": any(f.startswith(rel + "/") and before.get(f) != after[f] and f.endswith((".oscar", ".oscar1999", ".dat", ".bin")) for f in after),
             "changed": changed, "outside": outside, "cmd": cmd[1:], "err": se[-300:]}
        if has:
            y = yaml.load(open(os.path.join(real, "config.yaml")).read(), yaml.BaseLoader)
            e["particles"], e["decays"] = listed(y, "particles"), listed(y, "decaymodes")
            e["recorded"] = flat({k: v for k, v in y.items() if k not in ("particles", "decaymodes")})
            s = dict(e["recorded"]).get("General.Randomseed", "-1")
            e["seed"], e["seedkey"] = (-1 if s.startswith("-") or not s.isdigit() else 1), s
        ev = [{"reset": True, "op": "begin"}] + [{"op": "opt", "x": x} for _, x in self.opts] + [{**self.V, **e, "place": place or "", "logging": ["Logging.default", "Logging.Main"]}]
        shutil.rmtree(self.d, ignore_errors=True)
        return ev

    def snapshot(self):
        r = {}
        for a, ds, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(a, f)
                r[os.path.relpath(p, self.d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return r


def invocation(c, n, seed, dp, dd):
    rng = random.Random(seed)
    v = Inv(c, n, rng)
    second = rng.random() < 0.3
    v.P, v.D = (P2, D2) if second else (P1, D1)
    late = rng.random() < 0.25
    kind = rng.choice(["plain"] * 5 + ["info"] * 3 + ["bad"] * 4 + ["place"] * 3 + ["late"] * 3 + ["print"])
    drop = ()
    if kind == "late":
        drop = rng.choice([(), (), (rng.choice(REQUIRED + ["General.Randomseed"]),)])
    place = rng.choice(["", "", "", "", "run"]) if kind != "place" else rng.choice(["run", "lock", "file", "run"])
    inline = rng.random() < 0.2 and (v.P, v.D)
    # the input file: by option, or the default one; the last of several counts
    nin = rng.choice([0, 1, 1, 1, 1, 2])
    dfl = {"given": True, "ok": False, "leaves": [], "particles": "", "decays": ""}
    bad_in = rng.choice(["missing", "yaml", "nomap", "directory"]) if kind == "bad" and rng.random() < 0.25 else "ok"
    if nin == 0 or rng.random() < 0.2:
        _, dfl = v.input("config.yaml", bad_in if nin == 0 else rng.choice(["ok", "yaml"]), drop, inline)
    for k in range(nin):
        a, x = v.input(f"in put{k}.yaml", bad_in, drop, inline)
        v.opt("i", a, **x)
    v.V = {"dflt": dfl, "infook": True, "dp": dp, "dd": dd, "required": REQUIRED, "unused": UNUSED, "unrunnable": [["General.Modus", "Nonsense"], ["General.End_Time", "0"]]}
    keys = [k for k in sorted(SETTINGS)]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        v.inline({k: rng.choice(SETTINGS[k]) for k in rng.sample(keys, rng.randint(1, 4))})
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = rng.choice(["1", "0.5", "2.0", "-1.5", "1e0"] + (["abc", "0", ""] if kind == "late" else []))
        v.opt("e", s, v=canon("%.12g" % atof(s)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        m = rng.choice(["Box", "Sphere"] + (["Nonsense"] if kind == "late" else []))
        v.opt("m", m, v=m)
    # without lists of our own the full ones would be used: only where it ends before
    own = True
    if kind == "late" and not inline:
        own = rng.choice([True, True, False, "p", "d"])
    if inline:
        own = rng.choice([True, False])
    if kind == "late":
        # something that is not used, so that nothing is run
        if own is not True or rng.random() < 0.5:
            if rng.random() < 0.5 or own is not True:
                v.inline({rng.choice(UNUSED): 1.0})
    pbad = dbad = "ok"
    if kind == "bad" and rng.random() < 0.35:
        w = rng.choice("pd")
        st = rng.choice(["missing", "malformed", "crlf", "directory"])
        pbad, dbad = (st, "ok") if w == "p" else ("ok", st)
        own = True
    if own in (True, "p"):
        v.lists("p", pbad, own is True or bool(inline))
    if own in (True, "d"):
        v.lists("d", dbad, own is True or bool(inline))
    if kind == "bad" and bad_in == "ok" and (pbad, dbad) == ("ok", "ok"):
        b = rng.choice(["unknown", "left", "argument", "yaml", "key", "inputkey"])
        if b == "unknown":
            v.opts.append((rng.choice([["-z"], ["--nonsense"], ["--force=1"], ["-qZ"], ["--endtimes", "1"]]), {"o": "bad"}))
        elif b == "left":
            v.opts.append((rng.choice([["config.yaml"], ["5"], ["-"]]), {"o": "left"}))
        elif b == "yaml":
            v.inline({}, ok=False)
        elif b == "key":
            v.inline({rng.choice(INVALID): 1})
        elif b == "inputkey":
            a, x = v.input("with wrong key.yaml", "ok", (), inline, {rng.choice(INVALID): 1})
            v.opt("i", a, **x)
    if kind == "print":
        v.opts.append((rng.choice([["-h"], ["--help"]]), {"o": "h"}) if rng.random() < 0.5 else (rng.choice([["-v"], ["--version"]]), {"o": "v"}))
        if rng.random() < 0.4:
            v.opts.append((["-z"], {"o": "bad"}))
        if rng.random() < 0.4:
            v.opts.append((["leftover"], {"o": "left"}))
    if kind == "info":
        w = rng.choice("lxrsS")
        arg, ok = None, True
        if w == "r":
            arg = rng.choice(["9000221", "9000221", "211", "99999", "xyz"])
            ok = arg == "9000221" and not second
        elif w in "sS":
            arg = rng.choice(["211,-211", "2212,211,0.938,0.138,1.0,2.0", "211,2212,0.138,0.938", "211", "211,-211,0.138", "211,xyz", "211,3122"])
            ok = arg.count(",") in (1, 3, 5) and "xyz" not in arg and "3122" not in arg
        v.V["infook"] = ok
        v.opt(w, arg) if arg else v.opt(w)
    if rng.random() < (0.5 if kind == "place" or place else 0.15):
        v.opt("f")
    v.V["valid"] = sorted({x[0] for _, o in v.opts for x in o.get("leaves", []) if x[0] not in INVALID} | {x[0] for x in dfl["leaves"] if x[0] not in INVALID})
    out = rng.choice(["out", "deep/er/out", "o u t"]) if place or rng.random() < 0.8 else None
    # an option without its argument can only stand last
    if kind == "bad" and rng.random() < 0.15:
        rng.shuffle(v.opts)
        if out:
            v.opt("o", out)
        w = rng.choice(sorted(ARG))
        v.opts.append(([rng.choice([f"-{w}", "--" + LONG[w]])], {"o": "bad"}))
        if out:
            place, out = "", None
        return v.go(None, "", order=False)
    return v.go(out, place)


def run(c):
    c.model("CliMC", cfg=c.cfg("climc.cfg", open(f"{runs.V}/spec/CliMC.cfg").read().replace("MaxLen = 5", "MaxLen = 4")) if c.quick else None)
    c.build("smash")
    R = os.environ.get("VERIF_REPO", "/repo")
    dp, dd = (ident(open(f"{R}/input/{f}").read()) for f in ("particles.txt", "decaymodes.txt"))
    n = c.pick(700, 8000)
    res = c.par([(invocation, c, k, c.rng.randrange(10**12), dp, dd) for k in range(n)])
    c.extra["invocations"] = n
    c.extra["outcomes"] = {k: sum(1 for r in res if (r[-1]["rc"], r[-1]["has"]) == k2) for k, k2 in
                           (("run", (0, True)), ("print", (0, False)), ("late", (1, True)), ("fail", (1, False)))}
    files = []
    for k in range(8):
        p = c.path(f"cli{k}.ndjson")
        with open(p, "w") as f:
            for r in res[k::8]:
                for e in r:
                    f.write(json.dumps(e, separators=(",", ":"), ensure_ascii=False) + "\n")
        files.append(p)
    c.trace("CliTrace", files)
