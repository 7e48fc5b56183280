"""C22: an event driven in pieces through the library interface is the same event."""
import hashlib
import json
import os
import random
import re

import runs
from runs import fx

NUM = ("t", "x", "y", "z", "p0", "px", "py", "pz", "mass", "form_time", "xsecfac", "time_last_coll")
STABLE = {211: 0.138, -211: 0.138, 111: 0.138, 2212: 0.938, 2112: 0.938}
ALL = {**STABLE, 113: 0.776, 2224: 1.232, 321: 0.494, -321: 0.494, 3122: 1.116, 223: 0.783}
CHARGE = {211: 1, -211: -1, 2212: 1, 2224: 2, 321: 1, -321: -1}


def floats(p):
    return {k: float(v) if k in NUM else v for k, v in p.items()}


def drive(c, name, conf, script, nodecays=False):
    """Runs a script of calls; returns the reports of the calls, the messages of each and the output files."""
    d = c.path(f"{name}/out")
    os.makedirs(d)
    with open(c.path(f"{name}/config.yaml"), "w") as f:
        json.dump(conf, f)
    with open(c.path(f"{name}/script"), "w") as f:
        f.write("".join(" ".join(map(str, s)) + "\n" for s in script))
    P, D = runs.small_lists(c)
    if nodecays:
        D, P = c.path("none.txt"), c.path("two.txt")
    rep = c.path(f"{name}/report")
    rc, so, se = c.run([c.bin("pieces"), c.path(f"{name}/config.yaml"), P, D, d, c.path(f"{name}/script"), rep], timeout=300, cwd=c.path(name))
    if rc != 0:
        c.violation(f"library run {name} failed (status {rc}): {se[-400:]}", {"config": conf, "script": script})
        return None
    calls = [json.loads(l) for l in open(rep)]
    for x in calls:
        x["ens"] = [[floats(p) for p in e] for e in x["ens"]]
        for k in ("add", "away"):
            if k in x:
                x[k] = [floats(p) for p in x[k]]
        x["T"] = float(x["T"])
    said = re.split(r"@@\d+\n", se)[1:]
    return {"calls": calls, "said": said, "dir": d, "conf": conf, "script": script}


def digests(r):
    return sorted(f"{n}:{hashlib.sha256(open(os.path.join(r['dir'], n), 'rb').read()).hexdigest()[:24]}" for n in os.listdir(r["dir"]))


def requests(conf, times):
    if times is not None:
        return {"kind": "list", "s": sorted({fx(t, 1e-6) for t in times})}
    return {"kind": "interval", "d": fx(conf["Output"]["Output_Interval"], 1e-6)}


def trace(r, types, box, crit, times=None):
    """The calls with what the files gained in each, as records of the specification."""
    conf = r["conf"]
    col = runs.binary(f"{r['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]
    par = runs.binary(f"{r['dir']}/particles_custom.bin", runs.QUANT)["blocks"]
    P = lambda l: [runs.part(p, types) for p in l]
    ic = ip = 0
    rec, ints, clock, start = [], [], None, None
    end = conf["General"]["End_Time"]
    for k, x in enumerate(r["calls"]):
        gc, gp = [], []
        while ic < len(col) and col[ic]["upto"] <= x["sizes"].get("collisions_custom.bin", 1 << 60):
            gc.append(col[ic])
            ic += 1
        while ip < len(par) and par[ip]["upto"] <= x["sizes"].get("particles_custom.bin", 1 << 60):
            gp.append(par[ip])
            ip += 1
        one = [b for b in gc if b["b"] == "i"]
        ens = [P(e) for e in x["ens"]]
        inter = [{"op": "int", "t": fx((b["out"] or b["in"])[0]["t"], 1e-6), "kind": b["type"], "in": P(b["in"]), "out": P(b["out"]), "s": (b["out"] or b["in"])[0]["t"]}
                 for b in one]
        if x["op"] == "event":
            cb, pb = [b for b in gc if b["b"] == "p"], [b for b in gp if b["b"] == "p"]
            ps = [p for e in x["ens"] for p in e]
            start = clock = ps[0]["t"] if ps else 0.0
            if len(cb) != len(ens) or len(pb) != len(ens) or one:
                raise runs.Malformed(f"{len(cb)} and {len(pb)} blocks at the start of an event")
            rec.append({"op": "start", "reset": True, "ev": k, "box": fx(box, 1e-6), "crit": crit, "nens": len(ens), "therm": [0, 0, 0, 0, 0], "ens": ens, "ens2": [P(b["parts"]) for b in cb],
                        "ens3": [P(b["parts"]) for b in pb], "t0": fx(start, 1e-6),
                        "par": {"start": fx(start, 1e-6), "end": fx(end, 1e-6), "dt": fx(conf["General"].get("Delta_Time", 0), 1e-6),
                                "req": requests(conf, times)}})
            continue
        if x["op"] == "final":
            cb, pb = [b for b in gc if b["b"] == "p"], [b for b in gp if b["b"] == "p"]
            if len(cb) != len(ens) or len(pb) != len(ens) or one:
                raise runs.Malformed(f"{len(cb)} and {len(pb)} blocks at the end of an event")
            for e in range(len(ens)):
                t = x["ens"][e][0]["t"] if ens[e] else clock
                rec.append({"op": "end", "e": e + 1, "t": fx(t, 1e-6), "parts": P(cb[e]["parts"]), "parts2": P(pb[e]["parts"]), "ens": ens[e]})
            continue
        y = {"op": x["op"]}
        if x["op"] == "evolve":
            y.update(T=fx(x["T"], 1e-6), add=P(x["add"]), away=P(x["away"]))
        rec.append(y)
        outs = [{"op": "out", "e": b["ens"] + 1, "t": fx(b["parts"][0]["t"], 1e-6), "parts": P(b["parts"]), "s": b["parts"][0]["t"]} for b in gp if b["b"] == "p" and b["parts"]]
        i = 0
        merged = []
        for o in outs:
            while i < len(inter) and (inter[i]["s"] <= o["s"] if inter[i]["kind"] != 90 else True):
                merged.append(inter[i])
                i += 1
            merged.append(o)
        merged += inter[i:]
        for m in merged:
            m.pop("s")
        rec += merged
        ts = {p["t"] for e in x["ens"] for p in e}
        if ts and max(ts) - min(ts) > 1e-6:  # (the clock counts in units of 1e-6)
            raise runs.Malformed(f"particles at different times {sorted(ts)[:4]} after a call")
        heard = re.search(r"(\d+) +particle\(s\) could not be found", r["said"][k])
        if ts:
            clock = max(ts)
        rec.append({"op": "back", "res": x["res"], "clock": fx(clock, 1e-6), "ens": ens, "heard": True, "missed": int(heard[1]) if heard else 0})
    if ic != len(col) or ip != len(par):
        raise runs.Malformed("more output after the last call")
    return rec


def interactions(r):
    """What happened, without the numbers of the interactions."""
    seen = []
    for b in runs.binary(f"{r['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]:
        if b["b"] == "i" and b["type"] != 90:
            q = lambda p: [p["ID"], str(p["pdg"]), [fx(p[k], 1e-6) for k in ("t", "x", "y", "z")], [fx(p[k], 1e-6) for k in ("p0", "px", "py", "pz")]]
            seen.append([b["type"], [q(p) for p in b["in"]], [q(p) for p in b["out"]]])
    return seen


def base(r, seed):
    """A configuration; (configuration, box length, criterion, output times or None, whether the empty decay list will do)"""
    kind = r.choice(["Box", "Sphere", "List", "List", "Collider", "Box"])
    fast = kind != "Collider" and r.random() < 0.6
    dt, end = r.choice([0.1, 0.25, 0.5, 0.3]), r.choice([3.0, 4.0, 2.5])
    crit = r.choice(["Covariant", "Geometric", "Covariant"])
    out = json.loads(json.dumps(runs.FULLOUT))
    out["Output_Interval"] = r.choice([0.5, 1.0, 0.3, 0.07])
    times = None
    if r.random() < 0.4:
        times = sorted({round(r.uniform(0.01, end - 0.01), r.choice([1, 2, 3])) for _ in range(r.randint(1, 5))})
        times = [t for t in times if 0 < t < end] or [1.0]
        del out["Output_Interval"]
        out["Output_Times"] = times
    conf = runs.merge(runs.BASE, {"General": {"Modus": kind, "End_Time": end, "Delta_Time": dt, "Randomseed": seed, "Nevents": 2},
                                  "Collision_Term": {"Collision_Criterion": crit, "Force_Decays_At_End": r.random() < 0.6}, "Output": out})
    if fast:
        conf["Collision_Term"].update({"Two_to_One": False, "Included_2to2": ["Elastic"], "Elastic_Cross_Section": r.choice([20.0, 60.0])})
    box = 0.0
    if kind == "Box":
        box = r.choice([6.0, 8.0])
        n = {"211": 6, "-211": 6, "111": 6, "2212": 4, "2112": 4}
        if not fast:
            n.update({"2224": 2, "113": 2})
        conf["Modi"] = {"Box": {"Length": box, "Temperature": 0.2, "Initial_Condition": "thermal momenta", "Start_Time": 0.0, "Init_Multiplicities": n}}
        if not fast and r.random() < 0.3:
            conf["General"]["Ensembles"] = 2
    elif kind == "Sphere":
        n = {"211": 8, "-211": 8, "111": 8, "2212": 5, "2112": 5}
        conf["Modi"] = {"Sphere": {"Radius": 2.0, "Temperature": 0.2, "Start_Time": 0.0, "Initial_Condition": "thermal momenta", "Init_Multiplicities": n}}
    elif kind == "Collider":
        conf["Modi"] = {"Collider": {"Projectile": runs.nucleus(3, 3), "Target": runs.nucleus(3, 3), "Sqrtsnn": 3.0, "Impact": {"Value": 0.5}, "Initial_Distance": 2.0}}
    if kind != "Box" and r.random() < 0.25:
        conf["General"]["Time_Step_Mode"] = "None"
        del conf["General"]["Delta_Time"]
    return kind, conf, box, crit, times, fast


def listed(c, name, conf, r, n):
    ev = [[runs.hadron(r, 0.0, size=2.5, pmax=0.8, pdg=r.choice(sorted(STABLE))) for _ in range(n)] for _ in range(2)]
    runs.oscar_list(c.path(f"list{name}/l0"), ev)
    conf["Modi"] = {"List": {"File_Directory": c.path(f"list{name}"), "Filename": "l0"}}
    return ev


def newcomer(r, near, fast, box):
    pdg = r.choice(sorted(STABLE if fast else ALL))
    size = min(2.0, box / 4) if box else 2.0
    mid = box / 2
    t = near + (r.choice([0, 0, r.uniform(-0.8, 0.8)]))
    return ("add", pdg, repr(t), *(repr(mid + r.uniform(-size, size)) for _ in range(3)), (STABLE if fast else ALL)[pdg],
            *(repr(r.uniform(-0.9, 0.9)) for _ in range(3)))


def cuts(r, end, dt):
    """Times of the calls: boundaries of steps, and any others"""
    n = r.randint(1, 6)
    t = [r.choice([r.uniform(0, end), round(r.uniform(0, end), 1), (dt or 1) * r.randint(0, int(end / (dt or 1)))]) for _ in range(n)]
    return [min(round(x, 6), end) for x in sorted(t)]


def run(c):
    c.model("PiecesMC", c.cfg("p.cfg", open(f"{c.V}/spec/PiecesMC.cfg").read().replace("Calls = 2", f"Calls = {c.pick(2, 3)}")))
    c.build("pieces", "typetable")
    types = runs.types(c)
    runs.small_lists(c)
    for n, t in (("none.txt", ""), ("two.txt", "π 0.138 7.7e-9 - 111 211\nN 0.938 0 + 2112 2212\n")):
        with open(c.path(n), "w") as f:
            f.write(t)
    count = {"split": 0, "changed": 0, "twins": 0, "calls": 0, "given": 0, "taken": 0, "refused": 0}
    files = []

    def write(name, rec):
        f = c.path(f"{name}.ndjson")
        with open(f, "w") as g:
            for x in rec:
                g.write(json.dumps(x, separators=(",", ":")) + "\n")
        files.append(f)

    def checked(name, f):
        try:
            return f()
        except (runs.Malformed, OSError) as x:
            c.violation(f"library run {name}: {x}", {"name": name})
            return None

    def split(k):
        """the same event in one call and in several"""
        r = random.Random(c.seed * 1009 + k)
        kind, conf, box, crit, times, fast = base(r, c.seed * 100 + k)
        if kind == "List":
            listed(c, f"s{k}", conf, r, r.randint(4, 14))
        end, dt = conf["General"]["End_Time"], conf["General"].get("Delta_Time")
        one, many = [], []
        for _ in range(2):
            one += [("event",), ("evolve", end), ("finals",), ("final",)]
            many += [("event",)] + [("evolve", t) for t in cuts(r, end, dt)] + [("evolve", end)] * r.choice([1, 1, 2]) + [("finals",), ("final",)]
        a, b = drive(c, f"s{k}a", conf, one, fast), drive(c, f"s{k}b", conf, many, fast)
        if not a or not b:
            return
        rec = checked(f"s{k}", lambda: trace(b, types, box, crit, times))
        if rec is None:
            return
        # (a record without a trace before it cannot be judged alone)
        rec.append({"op": "equal", "a": digests(a), "b": digests(b)})
        write(f"s{k}", rec)
        count["split"] += 1
        count["calls"] += len(many)

    def changed(k):
        """particles handed in and asked to be removed between the calls"""
        r = random.Random(c.seed * 2003 + k)
        kind, conf, box, crit, times, fast = base(r, c.seed * 100 + 50 + k)
        if kind == "List":
            listed(c, f"c{k}", conf, r, r.randint(3, 10))
        end, dt = conf["General"]["End_Time"], conf["General"].get("Delta_Time")
        many = []
        for _ in range(2):
            many.append(("event",))
            at = 0.0
            for t in cuts(r, end, dt) + [end]:
                for _ in range(r.choice([0, 0, 1, 3])):
                    many.append(newcomer(r, at, fast, box))
                picks = r.sample(range(40), r.choice([0, 0, 1, 2, 3]))
                for q in picks:
                    many.append(("take", q, r.choice([0, 0, r.uniform(-2, 2)])) if r.random() < 0.75 else ("miss", q))
                if r.random() < 0.06 and picks:
                    many += [("take", picks[0], 0), ("take", picks[0], 0.5)]
                elif r.random() < 0.12 and len(picks) > 1:     # the same one again, but not next to each other
                    many.append(("take", picks[0], 0))
                if r.random() < 0.06:
                    many.append(("evolve", end + 1))
                else:
                    many.append(("evolve", t))
                at = t
            many += [("evolve", end), ("finals",), ("final",)]
        a = drive(c, f"c{k}", conf, many, fast)
        if not a:
            return
        rec = checked(f"c{k}", lambda: trace(a, types, box, crit, times))
        if rec is None:
            return
        for x in rec:
            if x["op"] == "int" and x["kind"] == 90:
                count["given"] += len(x["out"])
                count["taken"] += len(x["in"])
            if x["op"] == "back" and x["res"] != "ok":
                count["refused"] += 1
        write(f"c{k}", rec)
        count["changed"] += 1
        count["calls"] += len(many)

    def twins(k):
        """particles handed in at the start behave as if they had been there"""
        r = random.Random(c.seed * 3001 + k)
        conf = runs.merge(runs.BASE, {"General": {"Modus": "List", "End_Time": 5.0, "Delta_Time": r.choice([0.1, 0.5]), "Randomseed": c.seed * 100 + k, "Nevents": 1},
                                      "Collision_Term": {"Collision_Criterion": r.choice(["Covariant", "Geometric"]), "Two_to_One": False,
                                                         "Included_2to2": ["Elastic"], "Elastic_Cross_Section": 80.0}, "Output": runs.FULLOUT})
        ev = [runs.hadron(r, 0.0, size=2.0, pmax=0.8, pdg=r.choice(sorted(STABLE))) for _ in range(r.randint(4, 16))]
        at = r.randint(1, len(ev) - 1)
        for q in ev:
            q["mass"] = STABLE[q["pdg"]]
        calls = [("evolve", t) for t in cuts(r, 5.0, 0.1)] + [("evolve", 5.0), ("finals",), ("final",)]
        res = []
        for n, (there, later) in enumerate(((ev, []), (ev[:at], ev[at:]))):
            cf = json.loads(json.dumps(conf))
            runs.oscar_list(c.path(f"listt{k}{n}/l0"), [there])
            cf["Modi"] = {"List": {"File_Directory": c.path(f"listt{k}{n}"), "Filename": "l0"}}
            script = [("event",)] + [("add", q["pdg"], *(repr(q[x]) for x in ("t", "x", "y", "z", "mass", "px", "py", "pz"))) for q in later] + calls
            x = drive(c, f"t{k}{n}", cf, script, True)
            if not x:
                return
            res.append(x)
        rec = checked(f"t{k}", lambda: trace(res[1], types, 0.0, conf["Collision_Term"]["Collision_Criterion"]))
        if rec is None:
            return
        rec.append({"op": "equal", "a": interactions(res[0]), "b": interactions(res[1])})
        write(f"t{k}", rec)
        count["twins"] += 1
    n = c.pick(14, 120)
    c.par([(split, k) for k in range(n)] + [(changed, k) for k in range(n + 6)] + [(twins, k) for k in range(n)])
    c.trace("PiecesTrace", sorted(files))
    c.extra["runs"] = count
