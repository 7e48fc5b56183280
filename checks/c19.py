"""C19: constant-proper-time initial conditions record each particle exactly once."""
import json
import math
import random

import eventlists
import runs


def big(x):
    return eventlists.big(repr(x))


def conf_of(seed):
    r = random.Random(seed)
    a, b = (r.randint(1, 8), r.randint(0, 8)), (r.randint(1, 8), r.randint(0, 8))
    ic = {"Type": "Constant_Tau", "Proper_Time": r.choice([0.5, 1.0, 2.0, 5.0])}
    if r.random() < 0.4:
        ic["Rapidity_Cut"] = r.choice([0.3, 1.0])
    if r.random() < 0.4:
        ic["pT_Cut"] = r.choice([0.3, 0.8])
    coll = {"Projectile": runs.nucleus(*a), "Target": runs.nucleus(*b), "Sqrtsnn": r.choice([2.4, 2.8, 3.5]), "Impact": {"Max": 2.0},
            "Initial_Conditions": ic, "Calculation_Frame": r.choice(["center of velocity", "center of mass"])}
    fermi = r.choice(["off", "off", "on", "frozen"])
    if fermi != "off":
        coll["Fermi_Motion"] = fermi
    gen = {"Modus": "Collider", "End_Time": r.choice([3.0, 15.0, 30.0]), "Nevents": 3, "Randomseed": seed, "Delta_Time": r.choice([0.05, 0.2, 1.0])}
    conf = runs.merge(runs.BASE, {"General": gen, "Modi": {"Collider": coll},
                                  "Collision_Term": {"Force_Decays_At_End": False},
                                  "Output": {"Output_Interval": 10.0, "Collisions": {"Format": ["Binary"], "Print_Start_End": True, "Quantities": runs.QUANT},
                                             "Initial_Conditions": {"Format": ["Binary", "For_vHLLE"], "Quantities": runs.QUANT}}})
    if r.random() < 0.3:
        conf["General"]["Time_Step_Mode"] = "None"
        del conf["General"]["Delta_Time"]
    return conf


def lives(res, conf):
    col = runs.binary(f"{res['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]
    ic = runs.binary(f"{res['dir']}/SMASH_IC_custom.bin", runs.QUANT, ic=True)["blocks"]
    coll = conf["Modi"]["Collider"]
    i = coll["Initial_Conditions"]
    frozen = coll.get("Fermi_Motion") == "frozen"
    par = {"op": "life", "reset": True, "tau": big(i["Proper_Time"]), "tanhy": big(math.tanh(i.get("Rapidity_Cut", 0.0))), "ptcut": big(i.get("pT_Cut", 0.0))}

    def events(blocks):
        e, cur = [], []
        for b in blocks:
            if b["b"] == "f":
                e.append(cur)
                cur = []
            else:
                cur.append(b)
        if cur:
            raise runs.Malformed("output ends inside an event")
        return e
    ce, ie = events(col), events(ic)
    if len(ce) != len(ie) or len(ce) != conf["General"]["Nevents"]:
        raise runs.Malformed(f"{len(ce)} events in the collisions, {len(ie)} in the initial conditions")
    key = lambda p: (p["ID"], p["pdg"], p["p0"], p["px"], p["py"], p["pz"], p["ncoll"], p["proc_id_origin"])
    x = lambda p: [big(p[q]) for q in "txyz"]
    rec, rows = [], []
    for n, (cb, ib) in enumerate(zip(ce, ie)):
        lists = [b for b in cb if b["b"] == "p"]
        if len(lists) != 2:
            raise runs.Malformed(f"{len(lists)} particle blocks in an event of the collision output")
        cur = {}
        for p in lists[0]["parts"] + [p for b in cb if b["b"] == "i" for p in b["out"]]:
            if key(p) in cur:
                raise runs.Malformed("two particles with the same number and history")
            cur[key(p)] = p

        def end(p, how):
            o = cur.pop(key(p), None)
            if o is None:
                raise runs.Malformed(f"event {n}: particle {p['ID']} ({how}, t={p['t']}) is not in the event in that state, or was used before")
            rec.append(dict(par, a=x(o), b=x(p), rec=how == "recorded", how=how, free=not (frozen and p["ncoll"] == 0),
                            v=[big(p[q] / p["p0"]) for q in ("px", "py", "pz")], p=[big(p[q]) for q in ("p0", "px", "py", "pz")]))
        gone, taken = [], []
        for b in ib:
            for p in b["parts"]:
                end(p, "recorded")
                taken.append(key(p))
        for b in cb:
            if b["b"] == "i" and not b["out"]:
                gone += [key(p) for p in b["in"]]
            elif b["b"] == "i":
                for p in b["in"]:
                    end(p, "interacts")
        for p in lists[1]["parts"]:
            end(p, "is left")
        if gone != taken:
            raise runs.Malformed(f"event {n}: {len(gone)} particles removed according to the collision output, {len(taken)} recorded")
        if cur:
            raise runs.Malformed(f"event {n}: {len(cur)} particles vanished without being recorded")
        rows.append(sum(p["ncoll"] > 0 for b in ib for p in b["parts"]))
    lines = [l for l in open(f"{res['dir']}/SMASH_IC_For_vHLLE.dat") if not l.startswith("# S") and l.strip()]
    got, k = [], 0
    for l in lines:
        if l.startswith("#"):
            if l.rstrip().endswith("end"):
                got.append(k)
            k = 0
        else:
            k += 1
    if got != rows:
        raise runs.Malformed(f"vHLLE file has {got} particles, {rows} participants were recorded")
    return rec


def run(c):
    c.build("hyper", "smash")
    c.model("Hyper", c.cfg("h.cfg", open(f"{c.V}/spec/Hyper.cfg").read().replace("TMAX = 6", f"TMAX = {c.pick(6, 10)}")
                           .replace("MAXSTEP = 9", f"MAXSTEP = {c.pick(9, 13)}").replace("ZMAX = 8", f"ZMAX = {c.pick(8, 16)}")))
    files = []

    def single(k):
        f = c.path(f"h{k}.ndjson")
        if c.drive("hyper", c.seed * 100 + k, c.pick(1200, 8000), f, what="crossings", outputs=[f]) is not None:
            files.append(f)

    def whole(k):
        conf = conf_of(c.seed * 1013 + k)
        r = runs.good(c, f"run{k}", conf)
        if r is None:
            return
        try:
            rec = lives(r, conf)
        except (runs.Malformed, OSError) as x:
            c.violation(f"run {k}: {x}", {"config": conf})
            return
        f = c.path(f"run{k}.ndjson")
        with open(f, "w") as g:
            for x in rec:
                g.write(json.dumps(x, separators=(",", ":")) + "\n")
        files.append(f)
        c.extra["recorded in runs"] = c.extra.get("recorded in runs", 0) + sum(x["rec"] for x in rec)
        runs.cleanup(r)
    c.par([(lambda k=k: single(k)) for k in range(c.pick(4, 20))] + [(lambda k=k: whole(k)) for k in range(c.pick(30, 250))])
    if not c.violations:
        c.trace("HyperTrace", sorted(files))
