"""C20: thermodynamic outputs account for every particle exactly once."""
import json
import math
import os
import random
import struct

import runs
from runs import BASE, BOX, SPHERE, fx, merge

TYPE2 = {"hadron": "hadron", "baryon": "net_baryon", "baryonic isospin": "net_baryonI3", "pion": "pion", "total isospin": "tot_isospin3"}
QID = {"rho_eckart": 0, "tmn": 1, "tmn_landau": 2, "v_landau": 3, "j_QBS": 4}
NCOMP = {"rho_eckart": 1, "tmn": 10, "tmn_landau": 10, "v_landau": 3, "j_QBS": 12}
ASK = {"v_landau": "landau_velocity"}
ISO = {211: 2, 111: 2, 113: 2, 213: 2, 311: 1, 321: 1, 313: 1, 323: 1, 2112: 1, 2212: 1, 12112: 1, 12212: 1, 1114: 3, 2114: 3,
       2214: 3, 2224: 3, 3122: 0, 3112: 2, 3212: 2, 3222: 2, 3312: 1, 3322: 1, 3334: 0}
U = 1e4


def configs(c):
    rng = random.Random(c.seed * 104729 + 20)
    for k in range(c.pick(36, 240)):
        kind = rng.choice(["box", "box", "sphere", "sphere", "collider"])
        mode = rng.choice(["Discrete", "Discrete", "Triangular", "Triangular", "Covariant Gaussian"])
        nens, ntest = rng.choice([(1, 1), (1, 2), (2, 1), (3, 1), (2, 2)])
        t0 = rng.choice([0.0, 0.0, 0.3, -0.5])
        conf = merge(BASE, {"General": {"Randomseed": rng.randrange(1, 10**6), "Ensembles": nens, "Testparticles": ntest, "Nevents": rng.choice([1, 2]),
                                        "Delta_Time": rng.choice([0.1, 0.25]), "End_Time": rng.choice([2.0, 2.05, 3.1]), "Smearing_Mode": mode}})
        g = conf["General"]
        big, r = 0, 0
        if mode == "Discrete":
            big = rng.choice([0.4, 0.28, 0.7, 1.0])
            g["Discrete_Weight"] = big
        elif mode == "Triangular":
            r = rng.choice([1.0, 1.5, 2.0, 2.2])
            g["Triangular_Range"] = r
        else:
            g["Gaussian_Sigma"] = rng.choice([0.8, 1.0])
            g["Gauss_Cutoff_In_Sigma"] = rng.choice([2.0, 3.0])
        if mode != "Covariant Gaussian":
            g["Derivatives_Mode"] = "Off"
        n = [rng.choice([1, 2, 2, 3, 3, 4, 4]) if mode != "Triangular" else rng.choice([5, 6]) for _ in range(3)]
        if mode == "Triangular":
            n[2] = 5
        if kind == "box":
            length = rng.choice([4.0, 5.0, 6.0])
            per = True
            size, org = [length] * 3, [0.0] * 3
            conf = merge(conf, {"General": {"Modus": "Box"}, "Modi": {"Box": {**BOX["Box"], "Length": length, "Start_Time": t0, "Init_Multiplicities": {"211": 3, "111": 2, "2212": 2, "113": 1, "321": 1, "-2212": 1, "2224": 1, "3122": 1}}}})
            if rng.random() < 0.3:       # a lattice that does not coincide with the box
                per = rng.random() < 0.5
                size, org = [length * rng.choice([0.5, 1.0]) for _ in range(3)], [rng.choice([0.0, -1.0, 0.5]) for _ in range(3)]
        elif kind == "sphere":
            per = rng.random() < 0.2
            size, org = [rng.choice([3.0, 6.0, 8.0]) for _ in range(3)], None
            conf = merge(conf, {"General": {"Modus": "Sphere"}, "Modi": {"Sphere": {**SPHERE["Sphere"], "Start_Time": t0, "Init_Multiplicities": {"211": 3, "-211": 2, "2212": 3, "313": 1, "2224": 1, "-2112": 1}}}})
        else:
            per = False
            size, org = [rng.choice([4.0, 6.0, 10.0]) for _ in range(3)], None
            conf = merge(conf, {"General": {"Modus": "Collider", "End_Time": 8.0},
                                "Modi": {"Collider": {"Projectile": runs.nucleus(2, 2), "Target": runs.nucleus(1, 1), "Sqrtsnn": rng.choice([2.4, 3.5]), "Impact": {"Max": 2.0}}}})
        org = org or [-s / 2 + rng.choice([0.0, 0.0, 0.7]) for s in size]
        typ = rng.choice(list(TYPE2))
        lat = [q for q in QID if rng.random() < 0.7]
        if typ not in ("hadron", "pion"):
            lat = [q for q in lat if "landau" not in q]
        fm = [f for f in ("Lattice_ASCII", "Lattice_Binary", "VTK") if rng.random() < 0.75]
        if lat and not fm:
            fm = ["Lattice_Binary"]
        point = rng.random() < 0.6 or not lat
        if not lat:
            fm, lat = [], ["tmn", "j_QBS"]
        th = {"Format": fm + (["ASCII"] if point else []), "Type": typ, "Quantities": [ASK.get(q, q) for q in lat],
              "Only_Participants": rng.random() < 0.3}
        smear = rng.random() < 0.5 if (point and "j_QBS" not in lat) or not fm else True
        pos = [rng.choice([0.0, 0.5, 1.0]) for _ in range(3)]
        if point:
            th.update(Smearing=smear, Position=pos)
        times = {"Output_Interval": rng.choice([0.5, 0.7, 1.0])} if rng.random() < 0.7 else {"Output_Times": sorted(rng.sample([0.25, 0.5, 0.8, 1.1, 1.55, 1.9], 3))}
        if kind == "collider":
            times = {"Output_Interval": rng.choice([2.0, 3.0])}
        conf["Lattice"] = {"Automatic": False, "Sizes": size, "Cell_Number": n, "Origin": org, "Periodic": per}
        conf["Output"] = {**times, "Particles": {"Format": ["Binary"], "Only_Final": "No", "Quantities": runs.QUANT}, "Thermodynamics": th}
        yield f"t{k}_{kind}", conf, {"n": n, "per": per, "mode": mode[0].lower() if mode[0] != "C" else "g", "big": round(big * 1e4), "r": round(r * 10000),
                                     "size": size, "org": org, "N": nens * ntest, "nens": nens, "type": typ, "lat": lat if fm else [], "fm": fm,
                                     "point": point, "smear": smear, "pos": pos, "qty": lat, "part": th["Only_Participants"],
                                     "sigma": g.get("Gaussian_Sigma", 1.0), "cut": g.get("Gauss_Cutoff_In_Sigma", 4.0)}


def sf(p, r, h):
    """Weight of a particle at a point under covariant Gaussian smearing [1/fm^3] (documented formula)."""
    rc = h["cut"] * h["sigma"]
    d = [p["xyz"][k] - r[k] for k in range(3)]
    m = p["m"]
    u = [p[x] / m for x in ("px", "py", "pz")]
    dr = sum(x * x for x in d)
    ur = sum(a * b for a, b in zip(d, u))
    if dr > rc * rc or dr + ur * ur > rc * rc:
        return 0.0
    s2 = 2 * h["sigma"] ** 2
    x = h["cut"] / math.sqrt(2)
    corr = -2 / math.sqrt(math.pi) * x * math.exp(-x * x) + math.erf(x)
    return math.exp(-(dr + ur * ur) / s2) * math.sqrt(1 + sum(x * x for x in u)) / ((s2 * math.pi) ** 1.5 * corr)


def record(p, h):
    """A particle as the specification wants it; None if it sits on the edge of a cell."""
    cs = [h["size"][k] / h["n"][k] for k in range(3)]
    p["xyz"] = [p[k] for k in "xyz"]
    p["m"] = math.sqrt(max(p["p0"] ** 2 - p["px"] ** 2 - p["py"] ** 2 - p["pz"] ** 2, 1e-12))
    a = [(p["xyz"][k] - h["org"][k]) / cs[k] for k in range(3)]
    cell = [math.floor(x) for x in a]
    if any(min(x - f, f + 1 - x) < 1e-7 for x, f in zip(a, cell)):
        return None
    pm = [p[x] for x in ("p0", "px", "py", "pz")]
    e = pm[0]
    r = {"c": cell, "f": [min(9999, int(10000 * (x - f))) for x, f in zip(a, cell)], "q": p["charge"], "b": p["baryon_number"], "s": p["strangeness"],
         "i2": ISO.get(abs(p["pdg"]), 0), "pion": abs(p["pdg"]) in (111, 211), "nc": p["ncoll"],
         "v": [fx(x / e, 1 / U) for x in pm],
         "t": [fx(pm[i] * pm[j] / e, 1 / U) for i in range(4) for j in range(i, 4)]}
    vol = cs[0] * cs[1] * cs[2]
    order = [(x, y, z) for z in range(h["n"][2]) for y in range(h["n"][1]) for x in range(h["n"][0])]
    mid = [[h["org"][k] + (s[k] + 0.5) * cs[k] for k in range(3)] for s in order]
    if "j_QBS" in h["lat"]:
        r["h"] = [fx(sf(p, x, h) * vol, 1 / U) for x in mid]
    if h["mode"] == "g" and h["lat"]:
        rc = h["cut"] * h["sigma"]
        img = [range(-math.ceil(rc / h["size"][k]) - 1, math.ceil(rc / h["size"][k]) + 2) if h["per"] else (0,) for k in range(3)]
        # images of the particle, so that the ones left out are too far away anyway
        r["g"] = [fx(sum(sf(p, [x[0] + a * h["size"][0], x[1] + b * h["size"][1], x[2] + g * h["size"][2]], h)
                         for a in img[0] for b in img[1] for g in img[2]) * vol, 1 / U) for x in mid]
        if h["per"]:
            # far outside of a periodic lattice the images needed are others
            if any(not -0.5 < y < h["n"][k] + 0.5 for k, y in enumerate(a)):
                sh = [math.floor(y / h["n"][k]) for k, y in enumerate(a)]
                q = dict(p, xyz=[p["xyz"][k] - sh[k] * h["size"][k] for k in range(3)])
                r["g"] = [fx(sum(sf(q, [x[0] + a * h["size"][0], x[1] + b * h["size"][1], x[2] + g * h["size"][2]], h)
                                 for a in img[0] for b in img[1] for g in img[2]) * vol, 1 / U) for x in mid]
    if h["point"] and h["smear"]:
        r["w"] = fx(sf(p, h["pos"], h) * 16, 1 / U)
    return r


def read_lattice(path, qty, h, binary):
    """Head and blocks of a lattice file; a block: time and per cell the components."""
    cells, nc = h["n"][0] * h["n"][1] * h["n"][2], NCOMP[qty]
    if binary:
        d = open(path, "rb").read()
        ver, q = struct.unpack_from("<di", d, 0)
        dims, spacing, origin = struct.unpack_from("<3i", d, 12), struct.unpack_from("<3d", d, 24), struct.unpack_from("<3d", d, 48)
        if ver != 1.0 or q != QID[qty]:
            raise runs.Malformed(f"{path}: head {ver} {q}")
        o, size, blocks = 72, 8 * (1 + cells * nc), []
        while o < len(d):
            if o + size > len(d):
                raise runs.Malformed(f"{path}: incomplete block")
            x = struct.unpack_from(f"<{1 + cells * nc}d", d, o)
            blocks.append((x[0], list(x[1:])))
            o += size
    else:
        lines = open(path).read().splitlines()
        want = ["#Thermodynamic Lattice Output version: 1.00", f"#Quantity: {qty}", "#Grid dimensions: ", "#Grid spacing: ", "#Grid origin: "]
        if len(lines) < 5 or any(not a.startswith(b) for a, b in zip(lines, want)) or lines[0] != want[0] or lines[1] != want[1]:
            raise runs.Malformed(f"{path}: head {lines[:5]}")
        num = lambda s, t: [t(x) for x in s.split(": ")[1].split()]
        dims, spacing, origin = num(lines[2], int), num(lines[3], float), num(lines[4], float)
        rows = cells if qty in ("v_landau", "j_QBS") else h["n"][1] * h["n"][2] * nc
        width = nc if qty in ("v_landau", "j_QBS") else h["n"][0]
        blocks, o = [], 5
        while o < len(lines):
            body = [[float(x) for x in l.split()] for l in lines[o + 1:o + 1 + rows]]
            if len(body) != rows or any(len(b) != width for b in body):
                raise runs.Malformed(f"{path}: block at line {o}")
            blocks.append((float(lines[o]), [x for b in body for x in b]))
            o += 1 + rows
    # tensors and densities: component by component; currents and velocities: cell by cell
    res = []
    for t, x in blocks:
        if qty in ("v_landau", "j_QBS"):
            res.append((t, [x[nc * k:nc * k + nc] for k in range(cells)]))
        else:
            res.append((t, [[x[j * cells + k] for j in range(nc)] for k in range(cells)]))
    return list(dims), list(spacing), list(origin), res


def read_vtk(path, qty, h, name):
    lines = open(path).read().splitlines()
    cells, nc = h["n"][0] * h["n"][1] * h["n"][2], NCOMP[qty]
    if lines[:4] != ["# vtk DataFile Version 2.0", name, "ASCII", "DATASET STRUCTURED_POINTS"] or lines[7] != f"POINT_DATA {cells}":
        raise runs.Malformed(f"{path}: head {lines[:8]}")
    head = [l.split() for l in lines[4:7]]
    if [x[0] for x in head] != ["DIMENSIONS", "SPACING", "ORIGIN"]:
        raise runs.Malformed(f"{path}: head {lines[:8]}")
    o, vals = 8, []
    names = [f"{name}{i}{j}" for i in range(4) for j in range(i, 4)] if nc == 10 else [name]
    for nm in names:
        if qty == "v_landau":
            if lines[o] != f"VECTORS {nm} double":
                raise runs.Malformed(f"{path}: {lines[o]}")
            vals = [[float(x) for x in l.split()] for l in lines[o + 1:o + 1 + cells]]
            o += 1 + cells
        else:
            rows = h["n"][1] * h["n"][2]
            if lines[o:o + 2] != [f"SCALARS {nm} double 1", "LOOKUP_TABLE default"]:
                raise runs.Malformed(f"{path}: {lines[o:o + 2]}")
            body = [[float(x) for x in l.split()] for l in lines[o + 2:o + 2 + rows]]
            if any(len(b) != h["n"][0] for b in body):
                raise runs.Malformed(f"{path}: row")
            vals.append([x for b in body for x in b])
            o += 2 + rows
    if o != len(lines):
        raise runs.Malformed(f"{path}: {len(lines) - o} lines too many")
    if qty != "v_landau":
        vals = [[v[k] for v in vals] for k in range(cells)]
    if len(vals) != cells:
        raise runs.Malformed(f"{path}: {len(vals)} cells")
    return [int(x) for x in head[0][1:]], [float(x) for x in head[1][1:]], [float(x) for x in head[2][1:]], vals


def frame(T, v=None, TL=None, scale=1.0):
    """How far (in millionths) a velocity v is from the Landau frame of T, and TL from T in that frame."""
    m = [[0.0] * 4 for _ in range(4)]
    for (i, j), x in zip([(i, j) for i in range(4) for j in range(i, 4)], T):
        m[i][j] = m[j][i] = x
    if m[0][0] * scale < 1e-4:
        return 0
    r = 0.0
    if v is not None:
        v2 = sum(x * x for x in v)
        if v2 >= 1:
            return 10**6
        g = 1 / math.sqrt(1 - v2)
        u = [g] + [g * x for x in v]
        low = [u[0], -u[1], -u[2], -u[3]]
        S = [sum(m[i][j] * low[j] for j in range(4)) for i in range(4)]
        eps = sum(S[i] * low[i] for i in range(4))
        r = max(abs(S[i] - eps * u[i]) for i in range(4)) / (g ** 2 * m[0][0])
        if TL is not None:
            r = max(r, abs(eps - TL[0]) / (g ** 2 * m[0][0]))
    if TL is not None:
        tr, trl = m[0][0] - m[1][1] - m[2][2] - m[3][3], TL[0] - TL[4] - TL[7] - TL[9]
        r = max(r, abs(tr - trl) / m[0][0], abs(TL[1]) / m[0][0], abs(TL[2]) / m[0][0], abs(TL[3]) / m[0][0])
        sq = sum(m[i][j] ** 2 * (-1 if (i == 0) != (j == 0) else 1) for i in range(4) for j in range(4))
        L = [[0.0] * 4 for _ in range(4)]
        for (i, j), x in zip([(i, j) for i in range(4) for j in range(i, 4)], TL):
            L[i][j] = L[j][i] = x
        sql = sum(L[i][j] ** 2 * (-1 if (i == 0) != (j == 0) else 1) for i in range(4) for j in range(4))
        r = max(r, abs(sq - sql) / m[0][0] ** 2)
    return min(10**6, int(r * 1e6))


def trace(conf, h, d):
    """The trace of one run."""
    rec, stat = [], {"blocks": 0, "cells": 0, "edge": 0}
    cs = [h["size"][k] / h["n"][k] for k in range(3)]
    t2 = TYPE2[h["type"]]
    fmts = {"Lattice_ASCII": "a", "Lattice_Binary": "b", "VTK": "v"}
    fm = [fmts[f] for f in h["fm"]]
    scale = cs[0] * cs[1] * cs[2] * h["N"]
    rec.append({"op": "run", "reset": True, "n": h["n"], "per": h["per"], "mode": h["mode"], "big": h["big"], "r": h["r"], "type": h["type"], "type2": t2,
                "spacing": [fx(x, 1e-4) for x in cs], "origin": [fx(x, 1e-4) for x in h["org"]], "fmts": fm, "qty": h["qty"],
                "lat": h["lat"], "point": h["point"], "smear": h["smear"], "pq": h["qty"], "part": h["part"]})
    evs, cur, nf = [], [], 0
    for b in runs.binary(f"{d}/particles_custom.bin", runs.QUANT)["blocks"]:
        if b["b"] == "p":
            cur.append(b["parts"])
        else:
            nf += 1
            if nf == h["nens"]:
                evs.append(cur)
                cur, nf = [], 0
    pfile = []
    if h["point"]:
        lines = open(f"{d}/thermodynamics.dat").read().splitlines()
        nh = 5 if h["part"] else 4
        if h["part"] and lines[1] != "# only participants are taken into account":
            raise runs.Malformed(f"head of thermodynamics.dat: {lines[:5]}")
        if not lines[0].endswith("thermodynamics output") or lines[nh - 2] != f"# {t2}" or not lines[nh - 1].startswith("# time [fm], ") or \
           not (lines[nh - 3].startswith("# @ point (") if h["smear"] else lines[nh - 3] == "# averaged over the entire volume"):
            raise runs.Malformed(f"head of thermodynamics.dat: {lines[:5]}")
        for l in lines[nh:]:
            if l.startswith("#"):
                if l != f"# event {len(pfile)}":
                    raise runs.Malformed(l)
                pfile.append([])
            else:
                x = [float(y) for y in l.split()]
                if len(x) != 1 + sum(NCOMP[q] for q in h["qty"]):
                    raise runs.Malformed(f"thermodynamics.dat: {len(x)} columns")
                row, o = {"time": x[0]}, 1
                for q in QID:
                    if q in h["qty"]:
                        row[q] = x[o:o + NCOMP[q]]
                        o += NCOMP[q]
                pfile[-1].append(row)
        if len(pfile) != len(evs):
            raise runs.Malformed(f"thermodynamics.dat: {len(pfile)} events")
    expected = {"config.yaml", "particles_custom.bin"} | ({"thermodynamics.dat"} if h["point"] else set())
    for ev, cur in enumerate(evs):
        rec.append({"op": "event", "ev": ev})
        groups = [sum(cur[j:j + h["nens"]], []) for j in range(0, len(cur), h["nens"])][1:-1]
        skip = set()
        for k, ps in enumerate(groups):
            rs = [record(p, h) for p in ps]
            if None in rs:
                skip.add(k)
                stat["edge"] += 1
            rec.append({"op": "block", "ev": ev, "t": fx(ps[0]["t"], 1e-4), "parts": [r for r in rs if r]})
            stat["blocks"] += 1
        data = {}
        for q in (h["qty"] if fm else []):
            for f in fm:
                if f == "v":
                    if q == "j_QBS":
                        continue
                    names = [f"{t2}_{q}_{ev:05d}_tstep{k:05d}.vtk" for k in range(len(groups))]
                    expected |= set(names)
                    vals = []
                    for nm in names:
                        if not os.path.exists(f"{d}/{nm}"):
                            break
                        dims, sp, og, v = read_vtk(f"{d}/{nm}", q, h, f"{t2}_{q}")
                        vals.append((None, v))
                    if not vals:
                        continue
                    rec.append({"op": "file", "fmt": f, "qty": q, "ev": ev, "dims": dims, "spacing": [fx(x, 1e-4) for x in sp], "origin": [fx(x, 1e-4) for x in og],
                                "head": f"{t2}_{q}", "count": len(vals)})
                else:
                    nm = f"{t2}_{q}_{ev:07d}." + ("dat" if f == "a" else "bin")
                    expected.add(nm)
                    if not os.path.exists(f"{d}/{nm}"):
                        continue
                    dims, sp, og, vals = read_lattice(f"{d}/{nm}", q, h, f == "b")
                    rec.append({"op": "file", "fmt": f, "qty": q, "ev": ev, "dims": dims, "spacing": [fx(x, 1e-4) for x in sp], "origin": [fx(x, 1e-4) for x in og],
                                "head": f"{t2}_{q}", "times": [fx(t, 1e-4) for t, _ in vals]})
                data[f, q] = [v for _, v in vals]
        for (f, q), blocks in data.items():
            tol = fx(0.6e-3 * scale, 1 / U) + 1 if f == "v" else 1
            for k, v in enumerate(blocks):
                if k in skip or k >= len(groups) or "landau" in q:
                    continue
                rec.append({"op": "values", "ev": ev, "fmt": f, "qty": q, "k": k + 1, "tol": tol, "x": [[fx(x * scale, 1 / U) for x in y] for y in v]})
                stat["cells"] += len(v)
            ref = next((data[g, q] for g in "ba" if (g, q) in data), None)
            if ref is not None and ref is not blocks:
                unit = 1e-4 if f == "v" else 1e-6
                for v, w in zip(blocks, ref):
                    rec.append({"op": "same", "fmt": f, "qty": q, "tol": 6 if f == "v" else 2, "a": [fx(x, unit) for y in v for x in y], "b": [fx(x, unit) for y in w for x in y]})
        for f in "ab":
            if (f, "tmn") in data and ((f, "tmn_landau") in data or (f, "v_landau") in data):
                for k, T in enumerate(data[f, "tmn"]):
                    TL = data[f, "tmn_landau"][k] if (f, "tmn_landau") in data else [None] * len(T)
                    vl = data[f, "v_landau"][k] if (f, "v_landau") in data else [None] * len(T)
                    rec.append({"op": "landau", "ev": ev, "fmt": f, "k": k + 1, "tol": 20, "x": [frame(*z, scale) for z in zip(T, vl, TL)]})
        if h["point"]:
            rows = []
            s = 16 * h["N"] if h["smear"] else 1
            for r in pfile[ev]:
                x = {"time": fx(r["time"], 1e-4), "landau": 0, "tmn": [], "j": [], "rho": 0}
                if "tmn" in r:
                    x["tmn"] = [fx(y * s, 1 / U) for y in r["tmn"]]
                    if r["tmn"][0] > 1e-5 and h["type"] in ("hadron", "pion"):
                        x["landau"] = frame(r["tmn"], r.get("v_landau"), r.get("tmn_landau"))
                if "j_QBS" in r:
                    x["j"] = [fx(y * s, 1 / U) for y in r["j_QBS"]]
                if "rho_eckart" in r:
                    x["rho"] = fx(r["rho_eckart"][0] * s, 1 / U)
                rows.append(x)
            # sums at a point do not depend on the cells
            if not skip:
                rec.append({"op": "point", "ev": ev, "rows": rows})
    rec.append({"op": "dir", "evs": len(evs), "names": sorted(os.listdir(d)), "expected": sorted(expected)})
    return rec, stat


def run(c):
    c.build("smash")
    c.model("ThermoMC", c.cfg("th.cfg", open(f"{c.V}/spec/ThermoMC.cfg").read().replace("K = 1", f"K = {c.pick(1, 2)}").replace("N = 3", f"N = {c.pick(3, 2)}")))
    files, stat = [], {}

    def one(name, conf, h):
        r = runs.good(c, name, conf)
        if r is None:
            return
        try:
            rec, st = trace(conf, h, r["dir"])
        except (runs.Malformed, OSError, KeyError, IndexError, ValueError, struct.error) as x:
            c.violation(f"run {name}: output not readable: {x!r}", {"config": conf})
            return
        out = c.path(f"{name}.ndjson")
        with open(out, "w") as f:
            for x in rec:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
        for k, v in {**st, f"{name.split('_')[1]} {h['mode']}": 1}.items():
            stat[k] = stat.get(k, 0) + v
        files.append(out)
        runs.cleanup(r)
    c.par([(lambda a=a: one(*a)) for a in configs(c)])
    c.extra["runs"] = stat
    if files:
        c.trace("ThermoTrace", sorted(files))
