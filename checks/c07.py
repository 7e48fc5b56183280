"""C07: the search for interactions sees every close enough pair exactly once."""
import json
import math

import runs
from runs import BASE, SPHERE, FULLOUT, merge


def vec(p):
    return (p["p0"], p["px"], p["py"], p["pz"]), (p["t"], p["x"], p["y"], p["z"])


def dot3(a, b):
    return sum(x * y for x, y in zip(a[1:], b[1:]))


def dot(a, b):
    return a[0] * b[0] - dot3(a, b)


def meeting(P, Q, crit):
    """Time and squared transverse distance of closest approach of two freely moving particles, as documented for the
    criteria (independent of the code).  P, Q: (momentum, position)."""
    (p, x), (q, y) = P, Q
    # both at the same time
    t = max(x[0], y[0])
    x = [t] + [x[k] + p[k] / p[0] * (t - x[0]) for k in (1, 2, 3)]
    y = [t] + [y[k] + q[k] / q[0] * (t - y[0]) for k in (1, 2, 3)]
    d = [a - b for a, b in zip(x, y)]
    pp, qq, pq, px, qx = dot(p, p), dot(q, q), dot(p, q), dot(p, d), dot(q, d)
    den = pq * pq - pp * qq
    if den < 1e-9:
        return None
    b2 = -dot(d, d) - (pp * qx ** 2 + qq * px ** 2 - 2 * pq * px * qx) / den
    if crit == "Covariant":
        dt = ((qq * px - pq * qx) * p[0] - (pp * qx - pq * px) * q[0]) / den / 2
    else:
        dv = [p[k] / p[0] - q[k] / q[0] for k in range(4)]
        v2 = dot3(dv, dv)
        if v2 < 1e-12:
            return None
        dt = -dot3(d, dv) / v2
    far = math.sqrt(sum((d[k] + (p[k] / p[0] - q[k] / q[0]) * dt) ** 2 for k in (1, 2, 3)))
    return t + dt, max(b2, 0.0), far


def meetings(c):
    """In events with a constant elastic cross section: all pairs that meet closely enough, against those that collided."""
    stable = {"211": 14, "-211": 14, "111": 14, "2212": 10, "2112": 10}
    out = []

    def one(k, crit, gen, sigma):
        conf = merge(BASE, {"General": {"Modus": "Sphere", "Randomseed": c.seed * 31 + k, "End_Time": 4.0, **gen},
                            "Modi": {"Sphere": {**SPHERE["Sphere"], "Radius": 3.0, "Init_Multiplicities": stable}},
                            "Collision_Term": {"Two_to_One": False, "Included_2to2": ["Elastic"], "Elastic_Cross_Section": sigma, "Elastic_NN_Cutoff_Sqrts": 1.87, "Strings": False,
                                               "Collision_Criterion": crit}, "Output": FULLOUT})
        if gen.get("Time_Step_Mode") == "None":
            del conf["General"]["Delta_Time"]
        r = runs.good(c, f"meet{k}", conf)
        if not r:
            return
        b = runs.binary(f"{r['dir']}/collisions_custom.bin", runs.QUANT)["blocks"]
        runs.cleanup(r)
        end = conf["General"]["End_Time"]
        # stretches of free motion: begin, end, number of the interactions at begin and end, state
        segs, cur = [], {}
        for p in b[0]["parts"]:
            cur[p["ID"]] = [p["t"], end, 0, 0, vec(p), p["ID"]]
        n = 0
        for x in b:
            if x["b"] != "i":
                continue
            n += 1
            for p, q in zip(x["in"], x["out"]):
                s = cur.get(p["ID"])
                if s is None:
                    raise runs.Malformed("interaction of an unknown particle")
                s[1], s[3] = p["t"], n
                segs.append(s)
                del cur[p["ID"]]
            for q in x["out"]:
                cur[q["ID"]] = [q["t"], end, n, 0, vec(q), q["ID"]]
        segs += cur.values()
        segs.sort(key=lambda s: s[0])
        # with grid, only those close in the computational frame are promised to be seen
        reach = 1e9
        if gen.get("Use_Grid", True) and "Delta_Time" in conf["General"]:
            dt = conf["General"]["Delta_Time"]
            reach = math.sqrt(4 * dt * dt + 100 * 0.1 / math.pi) - 2 * dt
        meets, lim = [], sigma * 0.1 / math.pi
        for i, s in enumerate(segs):
            for j in range(i + 1, len(segs)):
                u = segs[j]
                if u[0] > s[1]:
                    break
                if s[5] == u[5] or (s[2] == u[2] and s[2] != 0):
                    continue  # the same particle, or just collided with each other
                m = meeting(s[4], u[4], crit)
                lo, hi = max(s[0], u[0]), min(s[1], u[1])
                if m and m[1] < lim * 1.01 and lo - 1e-5 < m[0] < hi + 1e-5:
                    sure = m[1] < lim * 0.99 and m[2] < reach and m[0] > lo + 1e-5
                    meets.append([i + 1, j + 1, runs.fx(m[0], 1e-6), int(sure)])
        out.append({"op": "meet", "reset": True, "what": f"{crit} {json.dumps(gen)}", "n": n, "meets": meets,
                    "segs": [[runs.fx(s[0], 1e-6), runs.fx(s[1], 1e-6), s[3]] for s in segs]})
        c.extra["meetings"] = c.extra.get("meetings", 0) + len(meets)
        c.extra["collisions"] = c.extra.get("collisions", 0) + n
    gens = [{"Use_Grid": False}, {"Delta_Time": 0.1}, {"Delta_Time": 0.03}, {"Delta_Time": 0.3}, {"Use_Grid": False, "Delta_Time": 1.0},
            {"Time_Step_Mode": "None"}]
    c.par([(one, 20 * m + 2 * k + j, crit, g, 40.0 + 20 * (k % 3)) for m in range(c.pick(2, 10)) for k, g in enumerate(gens)
           for j, crit in enumerate(("Geometric", "Covariant"))])
    p = c.path("meetings.ndjson")
    with open(p, "w") as f:
        for x in sorted(out, key=json.dumps):
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    return p


def run(c):
    c.build("grid", "smash")
    c.model("Grid", c.cfg("grid.cfg", open(f"{c.V}/spec/Grid.cfg").read().replace("Nmax = 3", f"Nmax = {c.pick(4, 5)}")))
    files = []
    for k in range(c.pick(7, 30)):
        files.append(c.path(f"g{k}.ndjson"))
    c.par([(lambda k=k, f=f: c.drive("grid", c.seed * 100 + k, 150, c.pick(100, 200), f, what="search grid", outputs=[f],
                                     cwd=c.path(f"w{k}/x").rsplit("/", 1)[0])) for k, f in enumerate(files)])
    if c.violations:
        return
    c.trace("GridTrace", files + [meetings(c)])
