"""C18: decays: only unstable, only formed; final decays leave none behind."""
import json
import random

import runs
from runs import fx


def conf_of(c, seed):
    r = random.Random(seed)
    force, every, initial, on = r.random() < 0.7, r.random() < 0.4, r.random() < 0.5, r.random() < 0.9
    kind = r.choice(["Sphere", "Box", "Collider", "List", "List"])
    end = r.choice([4.0, 9.0])
    conf = runs.merge(runs.BASE, {"General": {"Modus": kind, "End_Time": end, "Delta_Time": r.choice([0.1, 0.5]), "Randomseed": seed, "Nevents": 2},
                                  "Collision_Term": {"Force_Decays_At_End": force, "Decay_Initial_Particles": initial, "Two_to_One": on,
                                                     "Ignore_Minimum_Decay_Width_For_Decays_At_The_End": every}, "Output": runs.FULLOUT})
    if r.random() < 0.3:
        conf["Collision_Term"]["Resonance_Lifetime_Modifier"] = r.choice([0.1, 3.0])
    if kind == "Collider":
        conf["Modi"] = {"Collider": {"Projectile": runs.nucleus(2, 3), "Target": runs.nucleus(3, 2), "Sqrtsnn": 3.0, "Impact": {"Value": 0.5}}}
    elif kind == "List":
        conf["General"].update(Time_Step_Mode=r.choice(["Fixed", "None"]))
        if conf["General"]["Time_Step_Mode"] == "None":
            del conf["General"]["Delta_Time"]
        masses = {113: (0.776, 0.1, 0), 2224: (1.232, 0.1, 2), 223: (0.783, 0.01, 0), 331: (0.958, 1e-4, 0), 3214: (1.385, 0.03, 0), 12212: (1.44, 0.2, 1),
                  -313: (0.892, 0.05, 0), 221: (0.548, 0, 0), 111: (0.138, 0, 0), 2212: (0.938, 0, 1), 3212: (1.189, 0, 0)}
        events = []
        for _ in range(2):
            ev = []
            for _ in range(r.randint(3, 20)):
                pdg = r.choice(sorted(masses))
                m, w, q = masses[pdg]
                t = r.choice([0.0, 0.0, r.uniform(0, 6)])
                h = runs.hadron(r, t, pdg=2212)
                m += w * r.uniform(-1, 1)
                h.update(pdg=pdg, mass=m, charge=q, p0=(m * m + h["px"] ** 2 + h["py"] ** 2 + h["pz"] ** 2) ** 0.5)
                ev.append(h)
            events.append(ev)
        runs.oscar_list(c.path(f"list{seed}/l0"), events)
        conf["Modi"] = {"List": {"File_Directory": c.path(f"list{seed}"), "Filename": "l0"}}
    else:
        m = json.loads(json.dumps(runs.SPHERE if kind == "Sphere" else runs.BOX))
        for b in m.values():
            b["Init_Multiplicities"] = {str(k): r.randint(1, 5) for k in (113, 2224, 223, 331, 211, 2212, 111, 221, 3214)}
        conf["Modi"] = m
    return conf


def records(res, conf, table):
    index = {t["pdg"]: n + 1 for n, t in enumerate(table["T"])}
    ct = conf["Collision_Term"]
    on = ct["Two_to_One"]
    par = {"force": ct["Force_Decays_At_End"] and on, "every": ct["Ignore_Minimum_Decay_Width_For_Decays_At_The_End"],
           "initial": ct["Decay_Initial_Particles"], "enabled": on}
    end = conf["General"]["End_Time"]
    rec = [table]
    one = lambda p: {"k": index[p["pdg"]], "m": fx(runs.inv(p), 1e-6), "t": fx(p["t"], 1e-6), "f": fx(p["form_time"], 1e-6), "formed": p["xsecfac"] >= 1,
                     "nc": p["ncoll"]}
    out = lambda p: {"k": index[p["pdg"]], "m": fx(p["mass"], 1e-6), "f": fx(p["form_time"], 1e-6)}
    n = 0
    last = None
    for b in runs.binary(f"{res['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]:
        if b["b"] == "i" and b["type"] == 5:
            if len(b["in"]) != 1:
                raise runs.Malformed("decay of several particles")
            p = b["in"][0]
            n += 1
            rec.append(dict(par, op="rundecay", last=p["t"] >= end, t=fx(p["t"], 1e-6), p=one(p), out=[out(q) for q in b["out"]]))
        elif b["b"] == "p":
            last = b
        elif b["b"] == "f":
            rec.append({"op": "runend", "ks": [index[p["pdg"]] for p in last["parts"]], "force": par["force"], "every": par["every"]})
    return rec, n


def run(c):
    c.build("decays", "smash")
    c.model("DecaysMC", c.cfg("d.cfg", open(f"{c.V}/spec/DecaysMC.cfg").read().replace("STEPS = 2", f"STEPS = {c.pick(2, 4)}")))
    pt, dm = f"{c.V}/harness/decay_particles.txt", f"{c.V}/harness/decay_modes.txt"
    files = []

    def single(k):
        f = c.path(f"d{k}.ndjson")
        if c.drive("decays", c.seed * 100 + k, c.pick(1200, 6000), f, pt, dm, what="decays", outputs=[f]) is not None:
            files.append(f)
    if c.drive("decays", 1, 0, c.path("table.ndjson"), pt, dm) is None:
        return
    table = json.loads(open(c.path("table.ndjson")).readline())

    def whole(k):
        conf = conf_of(c, c.seed * 1009 + k)
        r = runs.good(c, f"run{k}", conf, args=["-p", pt, "-d", dm], lists=False)
        if r is None:
            return
        try:
            rec, n = records(r, conf, table)
        except (runs.Malformed, KeyError) as x:
            c.violation(f"run {k}: {x!r}", {"config": conf})
            return
        f = c.path(f"run{k}.ndjson")
        with open(f, "w") as g:
            for x in rec:
                g.write(json.dumps(x, separators=(",", ":")) + "\n")
        files.append(f)
        c.extra["decays in runs"] = c.extra.get("decays in runs", 0) + n
        runs.cleanup(r)
    c.par([(lambda k=k: single(k)) for k in range(c.pick(6, 30))] + [(lambda k=k: whole(k)) for k in range(c.pick(32, 250))])
    if not c.violations:
        c.trace("DecaysTrace", sorted(files))
