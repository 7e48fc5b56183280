"""C25: nuclei and projectiles start with exactly the requested content."""
import json
import os
import random

import initial
import runs


def conf_of(c, k, tmp):
    """A run of the program whose events begin with nuclei set up in a random way, without Fermi motion."""
    r = random.Random(c.seed * 7919 + k)
    while True:
        x = initial.collider(r, tmp, f"run{k}")
        coll = x["conf"]["Collider"]
        q = {w for n in x["exp"]["nuc"] for w, _ in n["want"]}
        if x["exp"]["ok"] == "ok" and x["exp"]["fermi"] == "off" and sum(n["N"] for n in x["exp"]["nuc"]) * x["T"] < 40 and q <= {"2212", "2112", "211", "-211", "321", "3122", "-2212"}:
            break
    x["calls"] = 3
    for s in ("Projectile", "Target"):
        coll[s]["Particles"] = {int(a): b for a, b in coll[s]["Particles"].items()}
    gen = {"Modus": "Collider", "End_Time": 1e-3, "Delta_Time": 0.1, "Nevents": 3, "Randomseed": c.seed + k, "Testparticles": x["T"]}
    conf = runs.merge(runs.BASE, {"General": gen, "Modi": {"Collider": coll},
                                  "Collision_Term": {"No_Collisions": True, "Force_Decays_At_End": False},
                                  "Output": {"Output_Interval": 100.0, "Particles": {"Format": ["Binary"], "Only_Final": "No", "Quantities": runs.QUANT}}})
    for s in runs.LIGHT:
        conf["Collision_Term"].pop(s, None)
    return x, conf


def events_of(path, x):
    out, new = [], True
    pole = initial.M
    n1 = sum(n for _, n in x["exp"]["nuc"][0]["want"])
    for b in runs.binary(path, runs.QUANT)["blocks"]:
        if b["b"] == "f":
            new = True
            out[-1]["b"] = initial.big(b["impact"])
        elif new:
            new = False
            # the order of the list is that of the numbers
            ps = [{"id": p["ID"], "pdg": str(p["pdg"]), "own": 1 if p["ID"] < n1 else 2, "r": [initial.big(p[q]) for q in "txyz"],
                   "p": [initial.big(p[q]) for q in ("p0", "px", "py", "pz")], "f": initial.big(p["form_time"]), "xs": initial.big(p["xsecfac"]),
                   "n": p["ncoll"], "proc": p["proc_type_origin"], "pole": initial.big(pole[str(p["pdg"])])} for p in b["parts"]]
            out.append({"res": "ok", "start": ps[0]["r"][0] if ps else [0], "ps": ps})
    return out


def run(c):
    c.build("initial", "smash")
    for k, (ap, at, n, same) in enumerate([(3, 3, 7, True), (2, 2, 8, True), (4, 4, 5, True), (3, 5, 11, False), (2, 1, 3, False)] if c.quick else
                                          [(a, b, n, s) for a in (1, 2, 3, 4) for b in (1, 2, 4) for n in (1, 3, 4, 8, 11) for s in (True, False)]):
        c.model("InitialMC", c.cfg(f"m{k}.cfg", open(f"{c.V}/spec/InitialMC.cfg").read().replace("AP = 3", f"AP = {ap}").replace("AT = 3", f"AT = {at}")
                                   .replace("LINES = 7", f"LINES = {n}").replace("SAME = TRUE", f"SAME = {str(same).upper()}")))
    tmp = c.path("nuclei")
    os.makedirs(tmp, exist_ok=True)
    files = []

    def single(k):
        cs = initial.cases(c.seed * 1000 + k, c.pick(60, 150), tmp)
        src, raw, tr = c.path(f"i{k}.cases"), c.path(f"i{k}.raw"), c.path(f"i{k}.ndjson")
        initial.write(src, cs)
        if c.drive("initial", src, raw, what="initial states", outputs=[raw]) is None:
            return
        try:
            initial.trace(cs, raw, tr)
        except ValueError as x:
            c.violation(f"set-ups {k}: {x}", {"cases": [initial.flow(q["conf"]) for q in cs[-3:]]})
            return
        files.append(tr)
        c.extra["set-ups"] = c.extra.get("set-ups", 0) + len(cs)

    def whole(k):
        x, conf = conf_of(c, k, tmp)
        r = runs.good(c, f"run{k}", conf)
        if r is None:
            return
        try:
            ev = events_of(f"{r['dir']}/particles_binary_custom.bin" if os.path.exists(f"{r['dir']}/particles_binary_custom.bin")
                           else f"{r['dir']}/particles_custom.bin", x)
        except (runs.Malformed, OSError, KeyError, IndexError) as e:
            c.violation(f"run {k}: {e!r}", {"config": conf})
            return
        f = c.path(f"run{k}.ndjson")
        ref = initial.firsts(ev)
        with open(f, "w") as g:
            g.write(json.dumps({"op": "setup", "reset": True, "ctor": "ok", "calls": 3, "exp": x["exp"]}, separators=(",", ":")) + "\n")
            for e in ev:
                g.write(json.dumps({"op": "event", "c": e, "ref": ref}, separators=(",", ":")) + "\n")
        files.append(f)
        c.extra["events of runs"] = c.extra.get("events of runs", 0) + len(ev)
        runs.cleanup(r)
    c.par([(lambda k=k: single(k)) for k in range(c.pick(8, 60))] + [(lambda k=k: whole(k)) for k in range(c.pick(16, 120))])
    if not c.violations:
        c.trace("InitialTrace", sorted(files))
