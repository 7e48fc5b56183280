"""C23: a run is reproduced by its seed and its recorded configuration."""
import hashlib
import json
import os
import random
import re

import runs
from runs import BASE, BOX, SPHERE, merge

SEED = re.compile(r"random number seed: (-?\d+)")


def sha(b):
    return hashlib.sha256(b).hexdigest()[:24]


def setups(c, rng):
    """name -> physics part of the configuration."""
    few = {"211": 5, "-211": 5, "111": 3, "2212": 3, "2112": 3, "2224": 2, "113": 3}
    box = lambda **k: {"Box": merge({**BOX["Box"], "Length": 5.0, "Init_Multiplicities": few}, k)}
    yield "box", {"General": {"Modus": "Box", "Delta_Time": 0.1, "End_Time": 3.0}, "Modi": box()}
    yield "boxens", {"General": {"Modus": "Box", "Delta_Time": 0.2, "End_Time": 3.0, "Ensembles": 3},
                     "Modi": box(Initial_Condition=rng.choice(["thermal momenta", "peaked momenta"]))}
    yield "stoch", {"General": {"Modus": "Box", "Delta_Time": 0.1, "End_Time": 2.0}, "Modi": box(),
                    "Collision_Term": {"Collision_Criterion": "Stochastic", "Fixed_Min_Cell_Length": 1.3, "Maximum_Cross_Section": None}}
    yield "spin", {"General": {"Modus": "Box", "Delta_Time": 0.2, "End_Time": 3.0}, "Modi": box(Init_Multiplicities={"211": 4, "3122": 3}),
                   "Collision_Term": {"Spin_Interactions": "On"}}
    yield "jet", {"General": {"Modus": "Sphere", "End_Time": 6.0},
                  "Modi": {"Sphere": merge(SPHERE["Sphere"], {"Init_Multiplicities": few, "Jet": {"Jet_PDG": 211, "Jet_Momentum": 5.0}})}}
    yield "thermal", {"General": {"Modus": "Sphere", "End_Time": 6.0, "Time_Step_Mode": "None", "Delta_Time": None},
                      "Modi": {"Sphere": {"Radius": 1.6, "Temperature": 0.2, "Start_Time": 0.0, "Initial_Condition": "thermal momenta",
                                          "Use_Thermal_Multiplicities": True, "Baryon_Chemical_Potential": 0.2, "Strange_Chemical_Potential": 0.0,
                                          "Account_Resonance_Widths": rng.choice([True, False])}}}
    yield "metric", {"General": {"Modus": "Sphere", "End_Time": 4.0, "Metric_Type": "MasslessFRW", "Expansion_Rate": 0.1, "Delta_Time": 0.1},
                     "Modi": {"Sphere": merge(SPHERE["Sphere"], {"Init_Multiplicities": few, "Start_Time": 0.5})}}
    yield "pp", {"General": {"Modus": "Collider", "End_Time": 10.0, "Delta_Time": 1.0},
                 "Modi": {"Collider": {"Projectile": runs.nucleus(1, 0), "Target": runs.nucleus(1, 0), "Sqrtsnn": rng.choice([2.5, 3.5]),
                                       "Impact": {"Max": 1.0}}}}
    deformed = lambda: merge(runs.nucleus(6, 6), {"Diffusiveness": 0.5, "Radius": 2.0, "Saturation_Density": 0.168, "Deformed": {"Automatic": False, "Beta_2": 0.4, "Beta_4": 0.1},
                                                  "Orientation": {"Random_Rotation": True}})
    yield "deformed", {"General": {"Modus": "Collider", "End_Time": 10.0, "Delta_Time": 0.5},
                       "Modi": {"Collider": {"Projectile": deformed(), "Target": deformed(), "E_Kin": 2.0, "Fermi_Motion": "on",
                                             "Impact": {"Sample": "quadratic", "Max": 4.0, "Random_Reaction_Plane": True}}}}
    yield "alpha", {"General": {"Modus": "Collider", "End_Time": 10.0, "Delta_Time": 0.5},
                    "Modi": {"Collider": {"Projectile": merge(runs.nucleus(8, 8), {"Alpha_Clustered": {"Automatic": True}}), "Target": runs.nucleus(2, 2),
                                          "P_Lab": 3.0, "Fermi_Motion": "frozen"}}}
    yield "potentials", {"General": {"Modus": "Collider", "End_Time": 6.0, "Delta_Time": 0.5, "Testparticles": 5, "Ensembles": 2},
                         "Modi": {"Collider": {"Projectile": runs.nucleus(2, 2), "Target": runs.nucleus(2, 2), "E_Kin": 1.0, "Fermi_Motion": "on"}},
                         "Potentials": {"Skyrme": {"Skyrme_A": -209.2, "Skyrme_B": 156.4, "Skyrme_Tau": 1.35}, "Symmetry": {"S_Pot": 18.0}},
                         "Lattice": {"Automatic": False, "Origin": [-8.0, -8.0, -8.0], "Sizes": [16.0, 16.0, 16.0], "Cell_Number": [8, 8, 8]},
                         "Collision_Term": {"Pauli_Blocking": {"Spatial_Averaging_Radius": 1.86, "Momentum_Averaging_Radius": 0.08,
                                                               "Gaussian_Cutoff": 2.2}}}
    yield "surface", {"General": {"Modus": "Collider", "End_Time": 12.0, "Delta_Time": 0.5}, "IC": {"Proper_Time": 1.0, "Type": "Constant_Tau"},
                      "Modi": {"Collider": {"Projectile": runs.nucleus(6, 6), "Target": runs.nucleus(6, 6), "Sqrtsnn": 4.0}}}
    p = c.path("list0")
    if not os.path.exists(p):
        runs.oscar_list(p, [[runs.hadron(rng, 0.0, 2.5) for _ in range(12)] for _ in range(5)])
    yield "list", {"General": {"Modus": "List", "End_Time": 6.0, "Delta_Time": 0.5},
                   "Modi": {"List": {"File_Directory": c.work, "Filename": "list0"}}}


def outputs(conf, rng=None):
    """All outputs, or a random part of them with the same options."""
    q = {"Quantities": runs.QUANT}
    o = {"Particles": {"Format": ["Binary", "Oscar2013", "ASCII", "Oscar1999", "VTK"], "Only_Final": "No", **q},
         "Collisions": {"Format": ["Binary", "Oscar2013", "Oscar1999", "ASCII"], "Print_Start_End": True, **q}}
    lat = "Lattice" in conf
    o["Thermodynamics"] = {"Format": ["ASCII"] + (["Lattice_ASCII", "VTK"] if lat else []), "Type": "hadron", "Quantities": ["rho_eckart", "tmn"],
                           "Position": [0.1, 0.2, 0.0]}
    if "IC" in conf:
        o["Initial_Conditions"] = {"Format": ["ASCII", "Oscar2013", "Binary", "For_vHLLE"], **q}
    if rng:
        for k in list(o):
            f = o[k]["Format"]
            # without this output there would be no surface
            if rng.random() < 0.4 and k != "Initial_Conditions":
                del o[k]
            else:
                o[k]["Format"] = rng.sample(f, rng.randint(1, len(f)))
                if not {"Binary", "ASCII"} & set(o[k]["Format"]) and k != "Thermodynamics":
                    o[k]["Format"].append("Binary")
    return {"Output_Interval": 1.5, **o}


def strip(conf):
    return {k: strip(v) if isinstance(v, dict) else v for k, v in conf.items() if v is not None}


def config(phys, n, seed, out, log):
    conf = merge(BASE, {"General": {"End_Time": 5.0, "Delta_Time": 0.5}})
    conf = merge(conf, {k: v for k, v in phys.items() if k != "IC"})
    conf = merge(conf, {"Logging": log, "General": {"Nevents": n, "Randomseed": seed}, "Output": out})
    if "IC" in phys:
        conf["Modi"]["Collider"]["Initial_Conditions"] = phys["IC"]
    return strip(conf)


EVNO = re.compile(rb"^# event (\d+)", re.M)


def per_event(path):
    """The bytes of each event of a particle or collision file, without the event number."""
    data = open(path, "rb").read()
    if path.endswith(".bin"):
        out, cur = [], []
        for b in runs.binary(path, runs.QUANT)["blocks"]:
            b.pop("ev", None)
            b.pop("upto", None)
            cur.append(repr(b))
            if b["b"] == "f":
                out.append((b["ens"], "".join(cur).encode()))
                cur = []
    else:
        out, cur = [], []
        for line in data.splitlines(keepends=True):
            m = re.match(rb"# event (-?\d+)(.*)", line, re.S)
            cur.append(b"# event" + m[2] if m else line)
            m = re.match(rb"# event -?\d+ ensemble (\d+) end", line)
            if m:
                out.append((int(m[1]), b"".join(cur)))
                cur = []
        head = out[0][1] if out else b""
        if out:  # the header stands before the first event
            k = head.find(b"# event")
            out[0] = (out[0][0], head[k:])
    ev = []
    for e, b in out:
        if e == 0:
            ev.append(b"")
        ev[-1] += b
    return [sha(x) for x in ev]


def run(c):
    c.build("smash")
    c.model("ReproduceMC", c.cfg("re.cfg", open(f"{c.V}/spec/ReproduceMC.cfg").read().replace("M = 7", f"M = {c.pick(7, 11)}")))
    stat, files = {}, []

    def observe(rec, name, r, phys, n, asked, chain, frm, seeds_shift=True):
        d = r["dir"]
        text = open(f"{d}/config.yaml", encoding="utf-8").read()
        m = re.search(r"Randomseed: (-?\d+)", text)
        used = m[1] if m else "?"
        seeds = SEED.findall(r["out"] + r["err"])
        if not seeds:
            # the seeds are known from an earlier run with the same seed
            seeds = [used]
            while len(seeds) < n and seeds[-1] in chain:
                seeds.append(chain[seeds[-1]])
        for a, b in zip(seeds, seeds[1:]):
            chain.setdefault(a, b)
        whole, events = [], []
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f == "config.yaml":
                    continue
                whole.append([os.path.relpath(p, d), sha(open(p, "rb").read())])
                if f.startswith(("particle_lists", "particles_", "full_event_history", "collisions_")) and f.endswith((".bin", ".oscar", ".dat")) \
                   and not open(p, "rb").read(20).startswith(b"# OSC"):
                    ev = per_event(p)
                    for k, x in enumerate(ev[:len(seeds)]):
                        events.append([phys if phys.split("#")[0] != "list" else f"{phys}@{k}", seeds[k], f, x])
                    if len(ev) != n:
                        raise runs.Malformed(f"{f}: {len(ev)} events instead of {n}")
        rec.append({"op": "run", "ok": True, "phys": phys, "seed": seeds[0], "used": used, "asked": str(asked), "neg": used.startswith("-"), "n": n,
                    "whole": whole, "events": events, "next": [[phys, a, b] for a, b in zip(seeds, seeds[1:])],
                    "from": frm, "conf": sha(text.encode()) if frm else ""})
        return used, seeds

    def one(k, sname, phys):
        rng = random.Random(f"{c.seed} {k} {sname}")
        ph, chain, rec = f"{sname}#{k}", {}, []
        n = {"potentials": 2, "spin": 5}.get(sname, 3)
        out = outputs(phys)
        if sname == "list":
            out.pop("Thermodynamics")
        seed = rng.choice([rng.randrange(1, 2**40), rng.randrange(1, 2**40), rng.randrange(2**62, 2**63), 0, 2**63 - 1])

        def go(tag, conf, args=(), env=None, lists=True):
            r = runs.good(c, f"{ph.replace('#', '_')}_{tag}", conf, args, env=env, lists=lists, timeout=300)
            stat[tag.rstrip("0123456789")] = stat.get(tag.rstrip("0123456789"), 0) + 1
            return r
        info = {"default": "WARN", "Experiment": "INFO"}
        try:
            a = go("base", config(phys, n, seed, out, info))
            if not a:
                return
            _, seeds = observe(rec, "base", a, ph, n, seed, chain, f"{ph}.base")
            rec[0]["reset"] = True
            b = go("again", config(phys, n, seed, out, {"default": "OFF"}), env={"MALLOC_PERTURB_": "165"})
            b and observe(rec, "again", b, ph, n, seed, chain, "")
            b2 = go("recorded", open(f"{a['dir']}/config.yaml", encoding="utf-8").read(), lists=False)
            b2 and observe(rec, "recorded", b2, ph, n, seed, chain, f"{ph}.base")
            for j in range(c.pick(2, 5)):
                o = outputs(phys, rng)
                if sname == "list":
                    o.pop("Thermodynamics", None)
                d = go(f"outputs{j}", config(phys, n, seed, o, {"default": rng.choice(["OFF", "ERROR", "INFO", "DEBUG"])}))
                d and observe(rec, "outputs", d, ph, n, seed, chain, "")
                d and runs.cleanup(d)
            if sname != "list" and len(seeds) > 1:
                js = [rng.randrange(1, len(seeds))]
                for j in js if sname != "spin" else range(1, len(seeds)):
                    e = go(f"event{j}", config(phys, 1, int(seeds[j]), out, info))
                    e and observe(rec, "event", e, ph, 1, seeds[j], chain, "")
                    e and runs.cleanup(e)
            f = go("drawn", config(phys, 1, -rng.randrange(1, 9), out, info), lists=True)
            if f:
                observe(rec, "drawn", f, ph, 1, -1, chain, f"{ph}.drawn")
                g = go("drawn2", open(f"{f['dir']}/config.yaml", encoding="utf-8").read(), lists=False)
                g and observe(rec, "drawn2", g, ph, 1, -1, chain, f"{ph}.drawn")
        except (runs.Malformed, OSError, KeyError, IndexError) as x:
            c.violation(f"{ph}: output not readable: {x!r}", {"config": config(phys, n, seed, out, info)})
            return
        p = c.path(f"{ph.replace('#', '_')}.ndjson")
        with open(p, "w") as h:
            for x in rec:
                h.write(json.dumps(x, separators=(",", ":")) + "\n")
        files.append(p)
        for x in (a, b, b2, f):
            x and runs.cleanup(x)
    jobs = []
    for k in range(c.pick(1, 8)):
        for sname, phys in setups(c, random.Random(c.seed * 99 + k)):
            jobs.append(lambda k=k, s=sname, p=phys: one(k, s, p))
    c.par(jobs)
    c.extra["runs"] = stat
    if files:
        c.trace("ReproduceTrace", sorted(files))
