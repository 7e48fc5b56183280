"""C06: particle output at exactly the requested times."""
import json
import random

import blocks
import runs
from runs import BASE, BOX, SPHERE, merge, fx

T = blocks.TICK


def early_box(c):
    """A box that starts before -1 fm and has no Equilibration_Time: output is documented to be
    written from the beginning on."""
    conf = merge(BASE, {"General": {"Modus": "Box", "End_Time": 1.5, "Delta_Time": 0.25},
                        "Modi": {"Box": {**BOX["Box"], "Length": 7.0, "Init_Multiplicities": {"211": 3}, "Start_Time": -3.0}},
                        "Output": {"Output_Interval": 1.0, "Particles": {"Format": ["Binary"], "Only_Final": "No", "Quantities": runs.QUANT}}})
    r = runs.good(c, "early", conf)
    if r:
        b = [x["parts"][0]["t"] for x in runs.binary(f"{r['dir']}/particles_custom.bin", runs.QUANT)["blocks"] if x["b"] == "p"]
        b = [round(x, 6) for x in b]
        if b != [-3.0, -2.0, -1.0, 0.0, 1.0, 1.5]:
            c.violation(f"box from -3 to 1.5 fm with interval 1 and no Equilibration_Time: output at {b}", {"config": conf},
                        key="box-default-equilibration-time" if b == [-3.0, -1.0, 0.0, 1.0, 1.5] else None)


def configs(c):
    """Random setups: name, configuration, request as the specification takes it, starts."""
    rng = random.Random(c.seed * 7919 + 5)
    n = c.pick(34, 260)
    for k in range(n):
        kind = rng.choice(["box", "sphere", "list", "sphere", "collider"])
        start = rng.choice([0.0, 0.0, -1.3, 0.7, 1.0, -2.0])
        end = max(0.8, round(start + rng.choice([2.0, 3.3, 4.0, 5.77]), 3))  # the clock has a resolution of 1e-6
        conf = merge(BASE, {"General": {"End_Time": end, "Delta_Time": rng.choice([0.1, 0.3, 1.0, 0.0973, 0.25]),
                                        "Randomseed": k + 1, "Nevents": rng.choice([1, 2, 3]), "Ensembles": rng.choice([1, 1, 1, 2, 3])}})
        nev, starts, eq = conf["General"]["Nevents"], None, None
        few = {"211": 3, "-211": 3, "2212": 2, "113": 1}
        if kind == "box":
            conf = merge(conf, {"General": {"Modus": "Box", "Delta_Time": min(conf["General"]["Delta_Time"], 0.25)},
                                "Modi": {"Box": {**BOX["Box"], "Length": 7.0, "Init_Multiplicities": few, "Start_Time": start}}})
            eq = -1.0  # documented default of Equilibration_Time
            if rng.random() < 0.3:
                eq = start + rng.choice([0.5, 1.0, 2.0])
                conf["Modi"]["Box"]["Equilibration_Time"] = eq
        elif kind == "sphere":
            conf = merge(conf, {"General": {"Modus": "Sphere"},
                                "Modi": {"Sphere": {**SPHERE["Sphere"], "Init_Multiplicities": few, "Start_Time": start}}})
        elif kind == "list":
            # every event has its own start time
            conf["General"]["Ensembles"] = 1
            starts = [round(start + rng.choice([0.0, 0.5, 1.0, 1.5]), 3) for _ in range(nev)]
            runs.oscar_list(c.path(f"in{k}"), [[runs.hadron(rng, s) for _ in range(rng.choice([1, 2, 6]))] for s in starts])
            conf = merge(conf, {"General": {"Modus": "List"}, "Modi": {"List": {"File_Directory": c.work, "Filename": f"in{k}"}}})
        else:
            conf = merge(conf, {"General": {"Modus": "Collider", "End_Time": end + 4},
                                "Modi": {"Collider": {"Projectile": runs.nucleus(1, 1), "Target": runs.nucleus(1, 0), "Sqrtsnn": 3.0}}})
        if kind in ("sphere", "list", "collider") and rng.random() < 0.3:
            conf["General"]["Time_Step_Mode"] = "None"
            del conf["General"]["Delta_Time"]
        if rng.random() < 0.55:
            d = rng.choice([1.0, 0.5, 0.3, 0.7, 2.5, 10.0])
            conf["Output"] = {"Output_Interval": d}
            req = {"kind": "interval", "d": fx(d, T)}
        else:
            ts = sorted({round(rng.uniform(start - 1, conf["General"]["End_Time"] + 1), rng.choice([0, 1, 3])) for _ in range(rng.choice([1, 3, 6]))}
                        | ({start} if rng.random() < 0.3 else set()) | ({conf["General"]["End_Time"]} if rng.random() < 0.3 else set()))
            given = list(ts)
            rng.shuffle(given)
            conf["Output"] = {"Output_Times": given}
            req = {"kind": "list", "times": sorted(fx(t, T) for t in ts)}
        req["eq"] = -2000000000 if eq is None else fx(eq, T)
        conf["Output"]["Particles"] = {"Format": ["Oscar2013", "Binary", "ASCII", "VTK", "Oscar1999"], "Only_Final": "No", "Quantities": runs.QUANT}
        yield f"r{k}_{kind}", conf, req, starts


def run(c):
    c.build("smash", "typetable")
    c.model("OutputLoop", c.cfg("ol.cfg", open(f"{c.V}/spec/OutputLoop.cfg").read().replace("Tmax = 4", f"Tmax = {c.pick(4, 6)}")))
    files, stat = [], {}

    def one(name, conf, req, starts):
        r = runs.good(c, name, conf)
        if r is None:
            return
        g = conf["General"]
        try:
            b = runs.binary(f"{r['dir']}/particles_custom.bin", runs.QUANT)["blocks"]
            if starts is None:
                # the start of an event is where its first block is
                s = [x["parts"][0]["t"] for x in b if x["b"] == "p"][:1]
                st = conf.get("Modi", {})
                st = next(iter(st.values())).get("Start_Time")
                s = [st] if st is not None else s
                starts = s * g["Nevents"]
            head = {"op": "run", "reset": True, "starts": [fx(x, T) for x in starts], "end": fx(g["End_Time"], T), "mid": True, "first": True,
                    "final": True, "start2end": False, "nens": g.get("Ensembles", 1), "nev": g["Nevents"], **req}
            seqs = {"binary": blocks.times_binary(f"{r['dir']}/particles_custom.bin", runs.QUANT, True),
                    "oscar2013": blocks.times_text(f"{r['dir']}/particle_lists.oscar"),
                    "ascii": blocks.times_text(f"{r['dir']}/particle_lists.dat")}
            # VTK has one file per event, ensemble and time, numbered from zero, and no final one
            v = blocks.vtk(r["dir"], g["Nevents"], g.get("Ensembles", 1))
            want = {}
            for x in seqs["binary"]:
                if x["op"] == "block":
                    want[(x["ev"], x["ens"])] = want.get((x["ev"], x["ens"]), 0) + 1
            want = {kk: list(range(n - 1)) for kk, n in want.items()}
            c.check(v == want, f"run {name}: VTK files {v} instead of {want}", {"config": conf})
        except (runs.Malformed, OSError, IndexError, KeyError) as x:
            c.violation(f"run {name}: output not readable: {x!r}", {"config": conf})
            return
        out = c.path(f"{name}.ndjson")
        with open(out, "w") as f:
            for fmt, q in seqs.items():
                for x in [{**head, "tol": 1 if fmt == "binary" else 60}] + q + [{"op": "eof"}]:
                    f.write(json.dumps(x, separators=(',', ':')) + "\n")
        stat[name.split("_")[1] + " " + req["kind"]] = stat.get(name.split("_")[1] + " " + req["kind"], 0) + 1
        files.append(out)
        runs.cleanup(r)
    early_box(c)
    c.par([(one, *x) for x in configs(c)])
    # one TLC for several runs: traces are independent
    groups = [files[k::8] for k in range(8)]
    merged = []
    for k, g in enumerate(groups):
        if g:
            p = c.path(f"all{k}.ndjson")
            with open(p, "w") as f:
                for x in sorted(g):
                    f.write(open(x).read())
            merged.append(p)
    c.trace("OutputTrace", merged)
    c.extra["runs"] = stat
