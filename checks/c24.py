"""C24: the requested number of events and ensembles, counted and flagged correctly."""
import json
import math
import random

import blocks
import runs
from runs import BASE, BOX, SPHERE, merge

SAME = {1, 6}  # elastic scattering and walls only change momenta


def configs(c):
    rng = random.Random(c.seed * 7919 + 24)
    for k in range(c.pick(60, 400)):
        kind = rng.choice(["pp", "pp", "pp", "AA", "AA", "AA", "AA", "box", "sphere", "list"])
        nens = rng.choice([1, 1, 2, 3, 5])
        tp = rng.choice([1, 1, 1, 2])
        conf = merge(BASE, {"General": {"Randomseed": rng.randrange(1, 10**6), "Ensembles": nens, "Delta_Time": rng.choice([0.5, 1.0]),
                                        "End_Time": 6.0, "Testparticles": tp},
                            "Collision_Term": {"Force_Decays_At_End": rng.choice([True, False])}})
        size, nproj = 0, 0
        if kind in ("pp", "AA"):
            p, t = ((1, 0), (1, 0)) if kind == "pp" else (rng.choice([(1, 1), (2, 2), (3, 4)]), rng.choice([(1, 0), (2, 2), (4, 3)]))
            b = rng.choice([{"Max": 1.0}, {"Max": 1.5}, {"Max": 2.0}, {"Value": 0.5}, {"Range": [0.5, 3.0]}]) if kind == "pp" else \
                rng.choice([{"Max": 4.0}, {"Value": 2.0}, {"Range": [0.0, 5.0], "Sample": "uniform"}, {"Max": 6.0}, {"Value": 0.0}])
            coll = {"Projectile": runs.nucleus(*p), "Target": runs.nucleus(*t), "Sqrtsnn": rng.choice([2.4, 3.0, 4.5]), "Impact": b}
            if kind == "AA" and rng.random() < 0.5:
                coll["Collisions_Within_Nucleus"] = True
                coll["Fermi_Motion"] = rng.choice(["on", "frozen"])
            conf = merge(conf, {"General": {"Modus": "Collider", "End_Time": 15.0}, "Modi": {"Collider": coll}})
            size, nproj = (sum(p) + sum(t)) * tp, sum(p) * tp
        elif kind == "box":
            conf = merge(conf, {"General": {"Modus": "Box", "Delta_Time": 0.25, "End_Time": 1.0},
                                "Modi": {"Box": {**BOX["Box"], "Init_Multiplicities": {"211": 4, "2212": 3}}}})
            size = 7 * tp
        elif kind == "sphere":
            conf = merge(conf, {"General": {"Modus": "Sphere"}, "Modi": {"Sphere": {**SPHERE["Sphere"], "Init_Multiplicities": {"211": 4, "113": 3}}}})
            size = 7 * tp
        else:
            conf["General"].update(Ensembles=1, Testparticles=1)
            nens = tp = 1
        if rng.random() < 0.3 or kind not in ("pp", "AA"):
            n = rng.choice([1, 2, 3, 4, 7])
            conf["General"]["Nevents"] = n
            count = {"kind": "fixed", "n": n, "max": 0}
        else:
            n, m = rng.choice([1, 2, 3, 5, 8]), rng.choice([2, 5, 7, 10, 15, 20, 30])
            del conf["General"]["Nevents"]
            conf["General"]["Minimum_Nonempty_Ensembles"] = {"Number": n, "Maximum_Ensembles_Run": m}
            count = {"kind": "minimum", "n": n, "max": m}
        if kind == "list":
            size = rng.choice([1, 5])
            runs.oscar_list(c.path(f"in{k}"), [[runs.hadron(rng, 0.0, 2.0) for _ in range(size)] for _ in range(n)])
            conf = merge(conf, {"General": {"Modus": "List"}, "Modi": {"List": {"File_Directory": c.work, "Filename": f"in{k}"}}})
        only = rng.choice(["Yes", "No", "IfNotEmpty", "IfNotEmpty"]) if kind in ("pp", "AA") else rng.choice(["Yes", "No"])
        conf["Output"] = {"Output_Interval": 4.0,
                          "Particles": {"Format": ["Oscar2013", "Binary", "ASCII", "Oscar1999"], "Only_Final": only, "Quantities": runs.QUANT},
                          "Collisions": {"Format": ["Binary", "Oscar2013", "ASCII"], "Print_Start_End": True, "Quantities": runs.QUANT}}
        yield f"e{k}_{kind}", conf, {"count": count, "nens": nens, "size": size, "nproj": nproj, "collider": kind in ("pp", "AA")}, only


def key(p):
    return [p["ID"], f"{p['pdg']} " + " ".join(p[x].hex() for x in ("p0", "px", "py", "pz"))]


def b3(b):
    return max(-2000000000, min(2000000000, math.floor(b * 1000 + 0.5)))


def ends(bl):
    r, n = [], 0
    for b in bl:
        if b["b"] == "p":
            n += 1
        elif b["b"] == "f":
            r.append({"ev": b["ev"], "ens": b["ens"], "empty": bool(b["empty"]), "b": b3(b["impact"]), "blocks": n})
            n = 0
    return r


def run(c):
    c.build("smash")
    c.model("EventsMC", c.cfg("ev.cfg", open(f"{c.V}/spec/EventsMC.cfg").read().replace("MaxCap = 4", f"MaxCap = {c.pick(4, 6)}")))
    files, stat = [], {}

    def one(name, conf, head, only):
        r = runs.good(c, name, conf)
        if r is None:
            return
        rec = [{"op": "run", "reset": True, **head}]
        try:
            seen = set()
            for b in runs.binary(f"{r['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]:
                if b["b"] == "p":
                    first = (b["ev"], b["ens"]) not in seen
                    seen.add((b["ev"], b["ens"]))
                    rec.append({"op": "in" if first else "out", "ev": b["ev"], "ens": b["ens"], "ks": [key(p) for p in b["parts"]]})
                elif b["b"] == "i":
                    rec.append({"op": "int", "same": b["type"] in SAME, "ik": [key(p) for p in b["in"]], "ok": [key(p) for p in b["out"]]})
                else:
                    rec.append({"op": "end", "ev": b["ev"], "ens": b["ens"], "empty": bool(b["empty"]), "b": b3(b["impact"])})
            d = r["dir"]
            for f, o in ((f"{d}/particles_custom.bin", only), (f"{d}/particle_lists.oscar", only), (f"{d}/particle_lists.dat", only),
                         (f"{d}/full_event_history.oscar", ""), (f"{d}/full_event_history.dat", "")):
                bl = runs.binary(f, runs.QUANT)["blocks"] if f.endswith("bin") else blocks.text(f)["blocks"]
                e = ends(bl)
                rec.append({"op": "file", "only": o, "ends": e})
        except (runs.Malformed, OSError, KeyError, IndexError) as x:
            c.violation(f"run {name}: output not readable: {x!r}", {"config": conf})
            return
        rec.append({"op": "eof"})
        out = c.path(f"{name}.ndjson")
        with open(out, "w") as f:
            for x in rec:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
        s = f"{name.split('_')[1]} {head['count']['kind']}"
        stat[s] = stat.get(s, 0) + 1
        for x in rec:
            if x["op"] == "end" and head["collider"]:
                s = "ensembles " + ("empty" if x["empty"] else "not empty")
                stat[s] = stat.get(s, 0) + 1
        files.append(out)
        runs.cleanup(r)
    c.par([(lambda a=a: one(*a)) for a in configs(c)])
    c.extra["runs"] = stat
    if files:
        c.trace("EventsTrace", sorted(files))
