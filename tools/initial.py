"""Random set-ups of initial states, and what the real modi make of them, as a trace for InitialTrace."""
import json
import os
import random

import eventlists

M = {"2212": 0.938, "2112": 0.938, "3122": 1.116, "211": 0.138, "-211": 0.138, "321": 0.494, "-2212": 0.938, "1000010020": 1.8756, "3312": 1.318}
# radius and diffusiveness that are documented for particular nuclei
KNOWN = {(238, 92): (6.86, 0.556), (208, 82): (6.67, 0.54), (197, 79): (6.55, 0.523), (63, 29): (4.20641, 0.5977), (129, 54): (5.36, 0.59)}
OPT = {"Off": "off", "On": "on", "Frozen": "frozen"}


def big(x):
    return eventlists.big(repr(float(x)))


def lines_file(r, path, comps, newline):
    """A file with nucleons; comps lists the numbers of protons and neutrons of the nuclei in it."""
    rows = []
    for p, n in comps:
        k = [1] * p + [0] * n
        r.shuffle(k)
        for q in k:
            rows.append((round(r.uniform(-3, 3), 6), round(r.uniform(-3, 3), 6), round(r.uniform(-3, 3), 6), r.choice([0, 1]), q))
    with open(path, "w") as f:
        f.write("\n".join(" ".join(map(str, x)) for x in rows) + ("\n" if newline else ""))
    return [[big(x[0]), big(x[1]), big(x[2]), "2212" if x[4] else "2112"] for x in rows]


def nucleus(r, side, T, shared, tmp, tag):
    """Configuration and expectation of one nucleus."""
    c, e = {}, {"kind": "ws", "rd": [], "hard": [], "r": [], "lines": [], "file": ""}
    kind = r.random()
    if shared or kind < 0.25:
        p, n = shared["comp"] if shared else (r.randint(0, 3), r.randint(1, 3))
        c["Particles"] = {k: v for k, v in (("2212", p), ("2112", n)) if v}
        if shared:
            e["lines"], e["file"] = shared["lines"], shared["path"]
        else:
            e["file"] = f"{tmp}/{tag}.txt"
            full = r.randint(1, 4)
            comps = [(p * T, n * T)] * full + ([(r.randint(0, p * T), 0)] if r.random() < 0.15 else [])
            e["lines"] = lines_file(r, e["file"], comps, r.random() < 0.6)
        c["Custom"] = {"File_Directory": os.path.dirname(e["file"]) + r.choice(["", "/"]), "File_Name": os.path.basename(e["file"])}
        e["kind"] = "custom"
        want = {"2212": p, "2112": n}
        if (p + n) == 1 and T == 1:
            e["rd"], e["r"] = big(0), big(0)
    elif kind < 0.32:
        c["Particles"] = {"2212": 8, "2112": 8}
        want = {"2212": 8, "2112": 8}
        c["Alpha_Clustered"] = {"Automatic": True} if r.random() < 0.5 else {"Automatic": False, "Side_Length": 3.1}
        e["rd"], e["r"] = big(1.676 + 0.322), big(1.676)
    elif kind < 0.325:
        want = {}
        a, z = r.choice(sorted(KNOWN))
        want = {"2212": z, "2112": a - z}
        c["Particles"] = dict(want)
        e["rd"], e["r"] = big(sum(KNOWN[a, z])), big(KNOWN[a, z][0])
    elif kind < 0.5:
        q = r.choice(["2212", "211", "-211", "2112", "3122", "321", "-2212", "1000010020"])
        want = {q: 1}
        c["Particles"] = dict(want)
        if T == 1:
            e["rd"], e["r"] = big(0), big(0)
    else:
        pool = ["2212", "2112"] if r.random() < 0.6 else ["2212", "2112", "3122", "1000010020", "3312", "211"]
        want = {}
        for q in r.sample(pool, r.randint(1, len(pool))):
            want[q] = r.randint(1, 4)
        c["Particles"] = dict(want)
        if r.random() < 0.8:
            rad, dif = round(r.uniform(0.5, 4), 3), r.choice([0.0, 0.3, 0.545])
            c.update({"Radius": rad, "Diffusiveness": dif, "Saturation_Density": 0.168})
            e["rd"], e["r"] = big(rad + dif), big(rad)
            if dif == 0.0:
                e["hard"] = big(rad)
        if r.random() < 0.3 and c.get("Diffusiveness") != 0.0:
            c["Deformed"] = {"Automatic": False, "Beta_2": 0.28, **({"Gamma": 0.3} if r.random() < 0.3 else {}), "Beta_4": -0.05}
            e["hard"] = []
            if r.random() < 0.5:
                c["Orientation"] = {"Random_Rotation": True} if r.random() < 0.5 else {"Theta": 0.7, "Phi": 1.1, "Psi": 0.4}
    e["want"] = [[q, n * T] for q, n in want.items() if n]
    e["N"] = sum(want.values())
    e["m"] = sum(M[q] * n for q, n in want.items())
    return c, e


def energy(r, pa, pb, coll):
    """Adds a way of giving the energy."""
    ma, mb = pa["m"] / pa["N"], pb["m"] / pb["N"]
    o = r.randint(1, 7)
    v = lambda m=0.0: round(m + r.choice([0.05, 0.4, 1.0, 3.0, 20.0]) * r.uniform(0.5, 1.5), 5)
    if o == 1:
        x = [v(ma + mb)]
        coll["Sqrtsnn"] = x[0]
    elif o == 2:
        x = [v(ma)]
        coll["E_Tot"] = x[0]
    elif o == 3:
        x = [v()]
        coll["E_Kin"] = x[0]
    elif o == 4:
        x = [v()]
        coll["P_Lab"] = x[0]
    else:
        key = {5: "E_Tot", 6: "E_Kin", 7: "P_Lab"}[o]
        x = [v(ma), v(mb)] if o == 5 else [v(), v()]
        coll["Projectile"][key], coll["Target"][key] = x
    return o, x


def collider(r, tmp, tag):
    T = r.choice([1, 1, 1, 2, 5])
    shared = None
    calls = r.choice([1, 2, 3, 5])
    coll, exp = {}, {"mode": "Collider", "ok": "ok"}
    if r.random() < 0.15:
        p, n = r.randint(0, 3), r.randint(1, 3)
        path = f"{tmp}/{tag}s.txt"
        comps = [(p * T, n * T)] * r.randint(1, 5)
        shared = {"comp": (p, n), "path": path, "lines": lines_file(r, path, comps, r.random() < 0.6)}
    coll["Projectile"], a = nucleus(r, "p", T, shared, tmp, tag + "a")
    coll["Target"], b = nucleus(r, "t", T, shared, tmp, tag + "b")
    if a["N"] + b["N"] > 100:
        calls, T0 = min(calls, 2), T
    o, x = energy(r, a, b, coll)
    frame = r.choice([None, "center of velocity", "center of mass", "fixed target"])
    if frame:
        coll["Calculation_Frame"] = frame
    fermi = r.choice(["off", "off", "on", "frozen"])
    nucleons = all(q in ("2212", "2112") for e in (a, b) for q, _ in e["want"])
    if fermi != "off" and not nucleons:
        fermi = "off"
    if fermi != "off":
        coll["Fermi_Motion"] = fermi
    D = 4.0
    if r.random() < 0.6:
        D = coll["Initial_Distance"] = round(r.uniform(0.0, 9.0), 3)
    imp, lo, hi = {}, 0.0, 0.0
    k = r.random()
    if k < 0.3:
        lo = hi = imp["Value"] = round(r.uniform(0, 8), 3)
    elif k < 0.5:
        lo, hi = imp["Range"] = [round(r.uniform(0, 4), 3), round(r.uniform(4, 8), 3)]
        if r.random() < 0.3:
            imp["Range"] = [hi, lo]
    elif k < 0.7:
        hi = imp["Max"] = round(r.uniform(0, 8), 3)
    elif k < 0.8:
        vals = sorted(round(r.uniform(0, 8), 3) for _ in range(r.randint(2, 5)))
        imp.update({"Sample": "custom", "Values": vals, "Yields": [round(r.uniform(0.1, 1), 3) for _ in vals[1:]] + [0.0]})
        lo, hi = vals[0], vals[-1]
        if len(set(vals)) < len(vals):
            imp = {"Value": 1.0}
            lo = hi = 1.0
    if imp and "Sample" not in imp and r.random() < 0.4:
        imp["Sample"] = r.choice(["uniform", "quadratic"])
    if "Value" in imp and "Sample" in imp:    # not used together
        exp["ok"] = "refused"
    plane = r.random() < 0.3
    if plane:
        imp["Random_Reaction_Plane"] = True
    if imp:
        coll["Impact"] = imp
    # requests that have to be refused
    k = r.random()
    ma, mb = a["m"] / a["N"], b["m"] / b["N"]
    if k < 0.12:
        w = r.choice(["none", "two", "low", "neg", "radius", "spectrum", "empty", "oxygen", "theta", "dyn", "deformed"])
        bad = True
        for q in ("Sqrtsnn", "E_Tot", "E_Kin", "P_Lab"):
            if w in ("none", "low", "neg"):
                for d in (coll, coll["Projectile"], coll["Target"]):
                    d.pop(q, None)
        if w == "none":
            if r.random() < 0.4:
                coll["Projectile"]["E_Kin"] = 1.0     # only for one of the two
        elif w == "low":
            coll["Sqrtsnn"] = round((ma + mb) * r.uniform(0.2, 0.999999), 6)
        elif w == "neg":
            q = r.choice(["E_Tot", "E_Kin", "P_Lab"])
            if r.random() < 0.5:
                coll[q] = -0.3
            else:
                u = r.choice(["Projectile", "Target"])
                coll["Projectile"][q] = coll["Target"][q] = 2.0
                coll[u][q] = -0.2
        elif w == "two":
            q = r.choice([z for z in ("Sqrtsnn", "E_Tot", "E_Kin", "P_Lab") if z not in coll])
            coll[q] = 6.0
        elif w == "radius" and "Custom" not in coll["Target"]:
            for q in ("Radius", "Diffusiveness", "Saturation_Density"):
                coll["Target"].pop(q, None)
            for q in r.sample(["Radius", "Diffusiveness", "Saturation_Density"], r.randint(1, 2)):
                coll["Target"][q] = 0.5
        elif w == "spectrum":
            coll["Impact"] = {"Sample": "custom", "Values": [0.0, 1.0, 2.0], "Yields": [1.0, 0.5]}
        elif w == "empty" and "Custom" not in coll["Target"] and "Alpha_Clustered" not in coll["Target"]:
            coll["Target"]["Particles"] = {"2212": 0}
        elif w == "oxygen" and "Custom" not in coll["Projectile"] and "Deformed" not in coll["Projectile"]:
            coll["Projectile"]["Alpha_Clustered"] = {"Automatic": True}
            if "Alpha_Clustered" in coll["Projectile"] and a["N"] == 16:
                coll["Projectile"]["Alpha_Clustered"] = {"Automatic": True, "Side_Length": 3.0}
        elif w == "deformed" and a["N"] > 1 and "Custom" not in coll["Projectile"]:
            coll["Projectile"]["Deformed"] = r.choice([{"Automatic": True, "Beta_2": 0.1}, {"Automatic": False, "Gamma": 0.1},
                                                       {"Automatic": False, "Gamma": 0.3, "Beta_4": 0.1}])
        else:
            bad = False
        if bad:
            exp["ok"] = "refused"
    exp.update({"T": T, "opt": o, "e": [big(y) for y in x], "frame": frame or "center of velocity", "fermi": fermi, "D": big(D),
                "lo": big(min(lo, hi)), "hi": big(max(lo, hi)), "plane": plane, "nuc": [a, b], "same": shared is not None})
    return {"mode": "Collider", "calls": calls, "T": T, "L": "0", "conf": {"Collider": coll}, "exp": exp}


def medium(r):
    T = r.choice([1, 1, 2, 5])
    mode = r.choice(["Box", "Sphere"])
    want = {q: r.randint(1, 12) for q in r.sample(["2212", "2112", "211", "-211", "111", "321", "3122", "2224", "113"], r.randint(1, 5))}
    temp = round(r.uniform(0.05, 0.3), 3)
    c = {"Temperature": temp}
    exp = {"mode": mode, "ok": "ok", "T": T, "t0": big(0), "jets": [], "thermal": False, "widths": False}
    if r.random() < 0.6:
        c["Start_Time"] = round(r.uniform(-3, 8), 3)
        exp["t0"] = big(c["Start_Time"])
    elif mode == "Sphere" or True:
        c["Start_Time"] = 0.0
    if r.random() < 0.25:
        c["Use_Thermal_Multiplicities"] = True
        exp["thermal"] = True
        c["Temperature"] = round(r.uniform(0.08, 0.16), 3)
        if r.random() < 0.4:
            c["Account_Resonance_Widths"] = False
        else:
            exp["widths"] = True
        c["Baryon_Chemical_Potential"] = 0.2
        want = {}
    else:
        c["Init_Multiplicities"] = dict(want)
        c["Account_Resonance_Widths"] = r.random() < 0.5
        exp["widths"] = c["Account_Resonance_Widths"]
    exp["want"] = [[q, n * T] for q, n in want.items()]
    L = "0"
    if mode == "Box":
        c["Length"] = round(r.uniform(2, 5 if exp["thermal"] else 9), 3)
        L = repr(c["Length"])
        exp["size"] = big(c["Length"])
        kinds = ["thermal momenta", "peaked momenta", "thermal momenta quantum"]
    else:
        c["Radius"] = round(r.uniform(2, 3 if exp["thermal"] else 6), 3)
        exp["size"] = big(c["Radius"])
        kinds = ["thermal momenta", "thermal momenta quantum", "IC_ES", "IC_1M", "IC_2M", "IC_Massive"]
        if r.random() < 0.4:
            c["Add_Radial_Velocity"] = round(r.uniform(0.05, 0.9), 3)
            if r.random() < 0.5:
                c["Add_Radial_Velocity_Exponent"] = r.choice([0.5, 2.0])
    kind = r.choice(kinds)
    if exp["thermal"] and kind == "thermal momenta quantum":
        kind = "thermal momenta"
    if kind == "thermal momenta quantum" or mode == "Sphere" and kind.startswith("IC"):
        exp["widths"] = False
        if kind.startswith("IC"):
            c["Account_Resonance_Widths"] = False
    c["Initial_Condition"] = kind
    exp["may"] = "quantum" in kind     # the numerical search for the maximum of the distribution may fail
    if kind == "peaked momenta":
        exp["widths"] = False
    if r.random() < 0.35:
        q = r.choice(["2212", "211", "111", "321"])
        j = {"Jet_PDG": q}
        mom = 20.0
        if r.random() < 0.7:
            mom = j["Jet_Momentum"] = round(r.uniform(1, 40), 3)
        x = [0.0, 0.0, 0.0]
        if mode == "Sphere" and r.random() < 0.6:
            x = j["Jet_Position"] = [round(r.uniform(-2, 2), 3) for _ in range(3)]
        back, sep = mode == "Sphere" and r.random() < 0.6, 0.0
        if back:
            j["Back_To_Back"], sep = True, 0.01
            if r.random() < 0.6:
                sep = j["Back_To_Back_Separation"] = round(r.uniform(0, 1), 4)
        exp["jets"].append([q, big(mom), [big(x[0] + sep / 2), big(x[1]), big(x[2])]])
        if back:
            anti = q if q == "111" else "-" + q
            exp["jets"].append([anti, big(-mom), [big(x[0] - sep / 2), big(x[1]), big(x[2])]])
        c["Jet"] = j
    return {"mode": mode, "calls": r.choice([1, 2, 3]), "T": T, "L": L, "conf": {mode: c}, "exp": exp}


def flow(v):
    """One line of YAML; numbers as they are, codes as keys without quotes."""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {flow(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(flow(x) for x in v) + "]"
    if isinstance(v, bool):
        return "True" if v else "False"
    return json.dumps(v) if isinstance(v, str) else repr(v)


def cases(seed, n, tmp):
    r = random.Random(seed)
    out = []
    for k in range(n):
        x = collider(r, tmp, f"n{seed}_{k}") if r.random() < 0.7 else medium(r)
        x["ref"] = None
        if x["mode"] == "Collider" and x["exp"]["fermi"] != "off" and x["exp"]["ok"] == "ok":
            y = json.loads(json.dumps(x))
            del y["conf"]["Collider"]["Fermi_Motion"]
            y["exp"]["fermi"], y["calls"], y["ref"] = "off", 1, None
            out.append(y)
            x["ref"] = len(out) - 1
        out.append(x)
    return out


def write(path, cs):
    with open(path, "w") as f:
        for x in cs:
            f.write("\t".join([x["mode"], str(x["calls"]), str(x["T"]), x["L"], flow(x["conf"])]) + "\n")


def firsts(calls):
    ps = calls[0]["ps"] if calls and calls[0]["res"] == "ok" else []
    return [next((p for p in ps if p["own"] == o), []) for o in (1, 2)]


def trace(cs, raw, path):
    """Joins expectations and results: one record per prepared event; returns the cases of the records."""
    res = [json.loads(l) for l in open(raw)]
    if len(res) != len(cs):
        raise ValueError(f"{len(res)} results of {len(cs)} cases")
    where = []
    with open(path, "w") as f:
        def put(rec, k):
            f.write(json.dumps(rec, separators=(",", ":")) + "\n")
            where.append(k)
        for k, (x, y) in enumerate(zip(cs, res)):
            put({"op": "setup", "reset": True, "ctor": y["ctor"], "calls": len(y["calls"]), "exp": x["exp"]}, k)
            ref = firsts(res[x["ref"]]["calls"] if x["ref"] is not None else y["calls"]) if x["mode"] == "Collider" else []
            for c in y["calls"]:
                put({"op": "event", "c": c, "ref": ref}, k)
    return where
