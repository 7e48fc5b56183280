"""C08: periodic box walls map particles to their image and never lose one."""
import json
import random

import family
import runs
from runs import fx


def flights(name, conf, L, r):
    """Stretches of free motion of all particles of a run, from record to record."""
    b = runs.binary(f"{r['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]
    nens = conf["General"].get("Ensembles", 1)
    # ensembles are told apart by the particle's state, as in Ledger.tla
    key = lambda p: (p["ID"], p["pdg"], p["p0"], p["px"], p["py"], p["pz"], p["ncoll"], p["proc_id_origin"])
    xyz = lambda p: [fx(p[k], 1e-6) for k in "xyz"]
    rec, cur, phase, first = [], {}, 0, True
    same = lambda p, q: all(p[k] == q[k] for k in ("ID", "pdg", "charge", "ncoll", "form_time", "proc_id_origin", "proc_type_origin",
                                                   "pdg_mother1", "pdg_mother2", "px", "py", "pz", "p0", "mass")) and \
        (p["xsecfac"] == q["xsecfac"] or (q["xsecfac"] == 1 and p["t"] < q["form_time"] <= q["t"] + 1e-6))

    def end(p, after, wall):
        l = cur.get(key(p))
        if not l:
            raise runs.Malformed(f"{name}: particle {p['ID']} at t={p['t']} was not left in that state by an earlier record")
        # the candidate that fits best (ensembles can hold identical twins)
        o = min(l, key=lambda q: abs(q["t"] - p["t"])) if len(l) > 1 else l[0]
        l.remove(o)
        if not l:
            del cur[key(p)]
        q = after or p
        rec.append({"op": "fly", "reset": True, "L": fx(L, 1e-6), "x": xyz(o), "v": [fx(o[k] / o["p0"], 1e-6) for k in ("px", "py", "pz")],
                    "dt": fx(p["t"] - o["t"], 1e-6), "y": xyz(q), "wall": wall, "same": same(o, q) and q["t"] == p["t"]})
    nblock = 0
    for x in b:
        if x["b"] == "p":
            nblock += 1
            if nblock <= nens:
                for p in x["parts"]:
                    cur.setdefault(key(p), []).append(p)
            else:
                for p in x["parts"]:
                    end(p, None, False)
                if nblock == 2 * nens:
                    if cur:
                        raise runs.Malformed(f"{name}: {sum(map(len, cur.values()))} particles vanished before the end of the event")
                    nblock = 0
        elif x["b"] == "i":
            wall = x["type"] == 6
            if wall and nblock == 0:
                continue    # particles given outside are put inside before the event starts
            if wall and (len(x["in"]) != 1 or len(x["out"]) != 1):
                raise runs.Malformed("wall crossing of more than one particle")
            for p in x["in"]:
                end(p, x["out"][0] if wall else None, wall)
            for p in x["out"]:
                cur.setdefault(key(p), []).append(p)
    return rec


def listed(c, seed):
    """A box filled from a list: particles at different times, which therefore start unformed, some of them outside."""
    rng = random.Random(seed)
    L = rng.choice([5.0, 6.0, 8.0])
    hs = []
    for _ in range(rng.randint(4, 25)):
        h = runs.hadron(rng, rng.choice([0.0, 0.0, rng.uniform(0.0, 6.0), rng.uniform(0.0, 30.0)]), pmax=rng.choice([0.3, 1.0, 3.0]))
        far = rng.choice([1.0, 1.0, 1.0, 4.0])
        h.update({q: rng.uniform(-L, L) * far if far > 1 else rng.uniform(0, L) for q in "xyz"})
        hs.append(h)
    runs.oscar_list(c.path(f"listbox{seed}/l0"), [hs])
    conf = runs.merge(runs.BASE, {"General": {"Modus": "ListBox", "End_Time": 12.0, "Delta_Time": rng.choice([0.1, 0.3]), "Randomseed": seed,
                                              "Use_Grid": rng.random() < 0.8},
                                  "Collision_Term": {"Force_Decays_At_End": False},
                                  "Modi": {"ListBox": {"File_Directory": c.path(f"listbox{seed}"), "Filename": "l0", "Length": L}}, "Output": runs.FULLOUT})
    return conf, L, "Covariant"


def run(c):
    c.build("walls", "smash")
    c.model("Walls", c.cfg("walls.cfg", open(f"{c.V}/spec/Walls.cfg").read().replace("L = 2", f"L = {c.pick(3, 4)}")))
    files = []
    for k in range(c.pick(3, 20)):
        f = c.path(f"w{k}.ndjson")
        files.append(f)
        c.drive("walls", c.seed * 100 + k, c.pick(1500, 4000), 150, f, what="wall crossings", outputs=[f])
    if c.violations:
        return
    jobs = []
    for s in range(c.pick(2, 12)):
        for name, f in family.family(c.seed * 57 + s).items():
            if name.startswith("box"):
                jobs.append((f"{name}_{s}", f))
    jobs += [(f"listbox{c.seed * 31 + s}", listed(c, c.seed * 31 + s)) for s in range(c.pick(8, 60))]

    def one(name, f):
        conf, L, crit = f
        r = runs.good(c, name, conf, lists="nod" if name.startswith("box_multi") else True)
        if r is None:
            return
        try:
            rec = flights(name, conf, L, r)
        except runs.Malformed as x:
            c.violation(f"run {name}: {x}", {"config": conf})
            return
        p = c.path(f"{name}.ndjson")
        with open(p, "w") as g:
            for x in rec:
                g.write(json.dumps(x, separators=(",", ":")) + "\n")
        files.append(p)
        c.extra["walls in runs"] = c.extra.get("walls in runs", 0) + sum(x["wall"] for x in rec)
        runs.cleanup(r)
    c.par([(one, *j) for j in jobs])
    c.trace("WallsTrace", sorted(files))
