"""C14: list input replays every particle of every event file, in order, exactly once."""
import math
import os
import random
import re

import eventlists as el
import runs
import vf

RT = ["ncoll", "form_time", "xsecfac", "time_last_coll", "pdg_mother1", "pdg_mother2"]
COLS = ["t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg"]


def setups(seed):
    out = {"Output_Interval": 2.0, "Particles": {"Format": ["Oscar2013", "ASCII", "Binary"], "Only_Final": "Yes"}}
    base = runs.merge(runs.BASE, {"Output": out, "General": {"Nevents": 3, "Randomseed": seed}})
    yield "box", runs.merge(base, {"General": {"Modus": "Box", "Ensembles": 2, "End_Time": 3.0}, "Modi": runs.BOX})
    yield "sphere", runs.merge(base, {"General": {"Modus": "Sphere", "End_Time": 6.0}, "Modi": runs.SPHERE, "Collision_Term": {"Force_Decays_At_End": False}})
    coll = {"Collider": {"Projectile": runs.nucleus(2, 3), "Target": runs.nucleus(3, 2), "Sqrtsnn": 2.8, "Impact": {"Value": 1.0}}}
    yield "collider", runs.merge(base, {"General": {"Modus": "Collider", "End_Time": 14.0}, "Modi": coll})


def num(x):
    return [1, 9999, 9999, 9999, 9999, 9999, 9999] if math.isnan(x) else el.big(repr(x))


def started(path):
    """What the events of a run of the program started with (first block of each event)."""
    calls, new = [], True
    for b in runs.binary(path, runs.QUANT)["blocks"]:
        if b["b"] == "f":
            new = True
        elif new:
            new = False
            ps = [{"id": p["ID"], "pdg": str(p["pdg"]), "r": [num(p[q]) for q in "txyz"], "p": [num(p[q]) for q in ("p0", "px", "py", "pz")],
                   "f": num(p["form_time"]), "xs": num(p["xsecfac"]), "ncoll": p["ncoll"], "proc": p["proc_type_origin"], "last": num(p["time_last_coll"]),
                   "m1": str(p["pdg_mother1"]), "m2": str(p["pdg_mother2"])} for p in b["parts"]]
            calls.append({"res": "ok", "start": ps[0]["r"][0] if ps else [0], "ps": ps})
    return calls


def run(c):
    c.build("listin", "smash")
    c.model("EventListsMC", c.cfg("e.cfg", open(f"{c.V}/spec/EventListsMC.cfg").read().replace("NLINES = 3", f"NLINES = {c.pick(3, 4)}")))
    files = []

    def driver(b, k):
        b.write(c.path(f"b{k}.in"))
        if c.drive("listin", c.path(f"b{k}.in"), c.path(f"b{k}.out"), what="list modus") is not None:
            b.trace(c.path(f"b{k}.out"), c.path(f"b{k}.ndjson"))
            files.append(c.path(f"b{k}.ndjson"))

    def randoms(k):
        r = random.Random(c.seed * 7919 + k)
        b = el.Batch(c.path(f"d{k}"))
        for _ in range(c.pick(250, 1500)):
            b.add(r)
        driver(b, k)

    def roundtrip(name, conf):
        """Files written by the program, read in again by the list modus and by the program."""
        conf["Output"]["Particles"]["Quantities"] = COLS + ["ID", "charge"] + RT
        r = runs.good(c, name, conf)
        if not r:
            return
        os.rename(f"{r['dir']}/particle_lists.oscar", f"{r['dir']}/o13")
        os.rename(f"{r['dir']}/particle_lists.dat" if os.path.exists(f"{r['dir']}/particle_lists.dat") else f"{r['dir']}/particle_lists.ascii", f"{r['dir']}/asc")
        b = el.Batch(c.path("rt-" + name))
        n = conf["General"]["Nevents"] * conf["General"].get("Ensembles", 1)
        b.oscar(f"{r['dir']}/o13", ["ID", "charge"], n + 1)
        b.oscar(f"{r['dir']}/asc", ["ID", "charge"] + RT, n + 1)
        driver(b, "rt-" + name)

    def programs(k):
        """Complete runs on random files: each event starts with what the file lists, one event too many fails."""
        r = random.Random(c.seed * 104729 + k)
        b = el.Batch(c.path(f"p{k}"))
        while True:
            b.cases = []
            b.add(r)
            case, a = b.cases[0]
            if case["names"] == 1 and case["ens"] == 1 and not case["spin"]:
                break
        m = {"File_Directory": a[0], "Optional_Quantities": case["fields"]}
        m.update({"Filename": a[1]} if a[1] != "-" else {"File_Prefix": a[2], "Shift_Id": int(a[3])})
        modus = "List"
        if a[6] != "0":
            modus, m["Length"] = "ListBox", float(a[6])
        n = r.randint(1, int(a[4]))
        conf = {"Logging": {"default": "ERROR"}, "General": {"Modus": modus, "Time_Step_Mode": "Fixed" if modus == "ListBox" else "None", "End_Time": 60.0,
                                                            "Randomseed": k, "Nevents": n},
                "Collision_Term": {"Strings": False, "No_Collisions": True, "Force_Decays_At_End": False},
                "Modi": {modus: m}, "Output": {"Output_Interval": 100.0, "Particles": {"Format": ["Binary"], "Only_Final": "No", "Quantities": runs.QUANT}}}
        if modus == "ListBox":
            conf["General"].update(Delta_Time=0.4, Use_Grid=False)
        res = runs.smash(c, f"prog{k}", conf)
        f = next((f"{res['dir']}/{x}" for x in ("particles_custom.bin", "particles_custom.bin.unfinished") if os.path.exists(f"{res['dir']}/{x}")), None)
        if res["rc"] not in (0, 1) or (res["rc"] == 0 and f is None):
            c.violation(f"a run on particle lists ended with status {res['rc']}: {res['err'][-300:]}", {"config": conf, "err": res["err"][-3000:]})
            return
        calls = []
        if f and os.path.getsize(f):
            try:
                calls = started(f)
            except runs.Malformed as x:
                if res["rc"] == 0:
                    c.violation(f"output of a run on particle lists: {x}", {"config": conf})
                    return
                return      # cut off in the middle by the failure
        if res["rc"] == 0:
            c.check(len(calls) == n, f"a run of {n} events on particle lists gave {len(calls)} events", {"config": conf})
        elif len(calls) < n:
            calls.append({"res": "refused", "start": [0], "ps": []})
            if len(calls) == 1 and "same position" in res["err"] + res["out"]:
                calls = []
        case = dict(case, files=case["files"])
        b.program(c.path(f"prog{k}.ndjson"), case, calls)
        files.append(c.path(f"prog{k}.ndjson"))

    def guide():
        """Each optional quantity the user guide names is understood."""
        names = el.documented(open(f"{vf.R}/src/include/smash/input_keys.h", encoding="utf-8").read())
        c.check(len(names) >= 10, "optional quantities not found in the user guide", {"names": names})
        b = el.Batch(c.path("guide"))
        r = random.Random(5)
        for q in names:
            os.makedirs(c.path(f"guide/{q}"), exist_ok=True)
            ev = {"same": False, "points": [], "t": "1.0"}
            rows = [el.row(r, [q], ev) for _ in range(3)]
            with open(c.path(f"guide/{q}/f"), "w") as f:
                f.write("".join(s + "\n" for s, _ in rows) + "# event 0 end 0\n")
            b.cases.append(({"names": 1}, [c.path(f"guide/{q}"), "f", "-", "0", "1", q, "0", "1", "0"]))
        b.write(c.path("guide.in"))
        import json
        if c.drive("listin", c.path("guide.in"), c.path("guide.out"), what="documented quantities") is None:
            return
        for q, l in zip(names, open(c.path("guide.out"))):
            a = json.loads(l)
            c.check(a["ctor"] == "ok" and a["calls"][0]["res"] == "ok", f"the documented optional quantity {q} is refused", {"quantity": q, "answer": a})
    c.par([guide] + [(lambda a=a: roundtrip(*a)) for a in setups(c.seed)] + [(lambda k=k: randoms(k)) for k in range(c.pick(8, 32))]
          + [(lambda k=k: programs(k)) for k in range(c.pick(40, 300))])
    if not c.violations:
        c.trace("EventListsTrace", sorted(files))
