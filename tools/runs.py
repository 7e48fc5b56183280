"""Runs of the real program in scratch directories, and readers of its output files."""
import json
import math
import os
import re
import shutil
import struct
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUANT = ("t,x,y,z,mass,p0,px,py,pz,pdg,ID,charge,ncoll,form_time,xsecfac,proc_id_origin,proc_type_origin,"
         "time_last_coll,pdg_mother1,pdg_mother2,baryon_number,strangeness,mt").split(",")
EXT = QUANT[:-1]
STD = QUANT[:12]
INTS = {"pdg", "ID", "charge", "ncoll", "proc_id_origin", "proc_type_origin", "pdg_mother1", "pdg_mother2",
        "baryon_number", "strangeness", "0", "id"}
LIGHT = {"Strings": False, "Pseudoresonance": "None", "Maximum_Cross_Section": 100, "Total_Cross_Section_Strategy": "BottomUp"}


def lists():
    """The small particle and decay lists of harness/types.h."""
    src = open(f"{V}/harness/types.h", encoding="utf-8").read()
    part = re.search(r"create_type_list\((.*?)\);", src, re.S)[1]
    dec = re.search(r"load_decaymodes\((.*?)\);", src, re.S)[1]
    text = lambda s: "".join(re.findall(r'"(.*?)"\s*(?=\n|$)', s, re.S)).replace("\\n", "\n")
    return text(part), text(dec)


_lists_lock = threading.Lock()


def small_lists(c):
    p, d = c.path("particles.txt"), c.path("decaymodes.txt")
    with _lists_lock:
        if not os.path.exists(p):
            a, b = lists()
            # a second pair of lists, without the d' (for direct 3->2 deuteron reactions)
            for f, t in (("particles_nod.txt", "".join(l + "\n" for l in a.splitlines() if not l.startswith("d'"))),
                         ("decaymodes_nod.txt", b.split("d'\n")[0]), ("decaymodes.txt", b), ("particles.txt", a)):
                with open(c.path(f), "w") as g:
                    g.write(t)
    return p, d


def merge(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(r.get(k), dict) else v
    return r


BASE = {"Logging": {"default": "WARN"},
        "General": {"Time_Step_Mode": "Fixed", "Delta_Time": 0.1, "End_Time": 5.0, "Randomseed": 1, "Nevents": 1},
        "Collision_Term": dict(LIGHT)}
FULLOUT = {"Output_Interval": 1.0,
           "Particles": {"Format": ["Binary"], "Only_Final": "No", "Quantities": QUANT},
           "Collisions": {"Format": ["Binary"], "Print_Start_End": True, "Quantities": QUANT}}
BOX = {"Box": {"Length": 6.0, "Temperature": 0.2, "Initial_Condition": "peaked momenta", "Start_Time": 0.0,
               "Init_Multiplicities": {"211": 6, "-211": 6, "111": 6, "2212": 4, "2112": 4, "2224": 2, "113": 2}}}
SPHERE = {"Sphere": {"Radius": 2.0, "Temperature": 0.2, "Start_Time": 0.0, "Initial_Condition": "thermal momenta",
                     "Init_Multiplicities": {"211": 6, "-211": 6, "111": 4, "2212": 4, "2112": 4, "2224": 3, "113": 3, "313": 2}}}


def nucleus(p, n):
    return {"Particles": {"2212": p, "2112": n}}


def smash(c, name, conf, args=(), lists=True, timeout=200, outdir=None, env=None):
    """Runs the program; returns a dict with rc, err, dir."""
    b = f"{c.bin('smash')}"
    y = c.path(f"{name}/config.yaml")
    with open(y, "w") as f:
        if isinstance(conf, str):
            f.write(conf)
        else:
            json.dump(conf, f, ensure_ascii=False)
    out = outdir or c.path(f"{name}/out")
    cmd = [b, "-i", y, "-o", out, "-q"]
    if lists:
        p, d = small_lists(c)
        if lists == "nod":
            p, d = c.path("particles_nod.txt"), c.path("decaymodes_nod.txt")
        cmd += ["-p", p, "-d", d]
    rc, so, se = c.run(cmd + list(args), timeout=timeout, cwd=c.path(name), env=env)
    return {"rc": rc, "out": so, "err": se, "dir": out, "name": name}


def good(c, name, conf, args=(), **k):
    r = smash(c, name, conf, args, **k)
    if r["rc"] != 0:
        c.violation(f"run {name}: the program failed (status {r['rc']}): {r['err'][-600:]}",
                    {"config": conf, "stderr": r["err"][-4000:]})
        return None
    return r


def oscar_list(path, events, label="events"):
    """Writes a particle list file (OSCAR2013) of events; an event is a list of dicts."""
    with open(path, "w") as f:
        f.write("#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge\n"
                "# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n# written by hand\n")
        for n, ev in enumerate(events):
            f.write(f"# event {n} out {len(ev)}\n")
            for k, q in enumerate(ev):
                f.write(" ".join(repr(q[x]) for x in ("t", "x", "y", "z", "mass", "p0", "px", "py", "pz"))
                        + f" {q['pdg']} {k} {q['charge']}\n")
            f.write(f"# event {n} end 0 impact   0.000 scattering_projectile_target yes\n")
    return path


HAD = {211: (0.138, 1), -211: (0.138, -1), 111: (0.138, 0), 2212: (0.938, 1), 2112: (0.938, 0), 321: (0.494, 1), 3122: (1.116, 0)}


def hadron(rng, t, size=5.0, pmax=1.0, pdg=None):
    pdg = pdg or rng.choice(sorted(HAD))
    m, q = HAD[pdg]
    p = [rng.uniform(-pmax, pmax) for _ in range(3)]
    e = math.sqrt(m * m + sum(x * x for x in p))
    return {"t": t, "x": rng.uniform(-size, size), "y": rng.uniform(-size, size), "z": rng.uniform(-size, size), "mass": m,
            "p0": e, "px": p[0], "py": p[1], "pz": p[2], "pdg": pdg, "charge": q}


# ---- readers ---------------------------------------------------------------------------------
class Malformed(Exception):
    pass


def binary(path, quant=None, ic=False):
    data = open(path, "rb").read()
    if data[:4] != b"SMSH":
        raise Malformed("no magic number")
    ver, var, n = struct.unpack_from("<HHI", data, 4)
    version = data[12:12 + n].decode()
    o = 12 + n
    quant = quant or {0: STD, 1: EXT}.get(var)
    fmt = "<" + "".join("i" if q in INTS else "d" for q in quant)
    size = struct.calcsize(fmt)
    blocks = []

    def parts(k):
        nonlocal o
        if o + k * size > len(data):
            raise Malformed(f"particle block of {k} particles at {o} exceeds the file")
        r = []
        for _ in range(k):
            r.append(dict(zip(quant, struct.unpack_from(fmt, data, o))))
            o += size
        return r
    try:
        while o < len(data):
            c = data[o:o + 1]
            o += 1
            if c == b"p" and ic:
                k, = struct.unpack_from("<I", data, o)
                o += 4
                blocks.append({"b": "p", "parts": parts(k)})
            elif c == b"p":
                ev, en, k = struct.unpack_from("<iiI", data, o)
                o += 12
                blocks.append({"b": "p", "ev": ev, "ens": en, "parts": parts(k)})
            elif c == b"i":
                ni, no, rho, w, pw, ty = struct.unpack_from("<IIdddI", data, o)
                o += 36
                blocks.append({"b": "i", "rho": rho, "w": w, "pw": pw, "type": ty, "in": parts(ni), "out": parts(no)})
            elif c == b"f":
                ev, en, b, e = struct.unpack_from("<iidb", data, o)
                o += 17
                blocks.append({"b": "f", "ev": ev, "ens": en, "impact": b, "empty": e})
            else:
                raise Malformed(f"unknown block {c!r} at {o - 1}")
            blocks[-1]["upto"] = o
    except struct.error as x:
        raise Malformed(f"truncated block at {o}: {x}")
    return {"version": ver, "variant": var, "smash": version, "blocks": blocks, "quant": quant}


_types = {}


def fx(x, unit):
    if math.isnan(x):
        return 2147000000
    return max(-2000000000, min(2000000000, round(x / unit)))


def inv(p):
    m2 = p["p0"] ** 2 - p["px"] ** 2 - p["py"] ** 2 - p["pz"] ** 2
    return math.sqrt(max(m2, 0))


def part(p, types=None):
    """A particle of an output file as record of the specification (integers)."""
    e = p["p0"] or 1e-300
    t = (types or {}).get(p["pdg"], {})
    m = inv(p)
    # accuracy of the reconstructed mass: rounding of E^2-p^2
    acc = 2e-15 * p["p0"] ** 2 / max(m, 1e-4)
    return {"id": p["ID"], "type": str(p["pdg"]), "q": p["charge"], "b": p["baryon_number"], "s": p["strangeness"],
            "x": [fx(p[k], 1e-6) for k in ("t", "x", "y", "z")],
            "p": [fx(p[k], 1e-6) for k in ("p0", "px", "py", "pz")],
            "v": [fx(p[k] / e, 1e-6) for k in ("px", "py", "pz")],
            "m": fx(m, 1e-5), "mm": fx(p["mass"], 1e-5), "macc": 2 + fx(acc, 1e-5),
            "pole": fx(t.get("mass", 0), 1e-5), "min": fx(t.get("min", 0), 1e-5), "stable": t.get("stable", False),
            "f": fx(p["form_time"], 1e-6), "sc": fx(p["xsecfac"], 1e-6), "nc": p["ncoll"], "pid": p["proc_id_origin"],
            "pt": p["proc_type_origin"], "p1": str(p["pdg_mother1"]), "p2": str(p["pdg_mother2"]), "tl": fx(p["time_last_coll"], 1e-6)}


def types(c):
    """Type table of the small lists, from the real particle list."""
    f = c.path("types.json")
    if not os.path.exists(f):
        p, d = small_lists(c)
        c.drive("typetable", p, d, f)
    return {x["pdg"]: x for x in json.load(open(f))}


def therm(conf):
    """When the content is thermalized (start, period) and on how many cells per direction."""
    t = conf.get("Forced_Thermalization")
    return [fx(t["Start_Time"], 1e-6), fx(t["Timestep"], 1e-6), *t["Cell_Number"]] if t else [0, 0, 0, 0, 0]


def ledger(c, res, conf, out, types, quant=QUANT, colls=None, parts=None, box=0.0, crit="Geometric"):
    """Merges collision and particle output of one run into a trace for Ledger.tla."""
    d = res["dir"]
    col = binary(colls or f"{d}/collisions_custom.bin", quant)
    par = binary(parts or f"{d}/particles_custom.bin", quant)
    nens = conf["General"].get("Ensembles", 1)
    end = conf["General"]["End_Time"]
    rec = []
    P = lambda l: [part(p, types) for p in l]
    # split in events: an event ends with nens 'f' blocks
    def events(blocks):
        evs, cur, nf = [], [], 0
        for b in blocks:
            cur.append(b)
            if b["b"] == "f":
                nf += 1
                if nf == nens:
                    evs.append(cur)
                    cur, nf = [], 0
        if cur:
            raise Malformed("output ends inside an event")
        return evs
    ce, pe = events(col["blocks"]), events(par["blocks"])
    if len(ce) != len(pe):
        raise Malformed(f"{len(ce)} events in collisions, {len(pe)} in particles")
    for ev, (cb, pb) in enumerate(zip(ce, pe)):
        cp = [b for b in cb if b["b"] == "p"]
        pp = [b for b in pb if b["b"] == "p"]
        ints = [b for b in cb if b["b"] == "i"]
        if len(cp) != 2 * nens:
            raise Malformed(f"{len(cp)} particle blocks in the collision output of event {ev}")
        if len(pp) % nens or len(pp) < 2 * nens:
            raise Malformed(f"{len(pp)} particle blocks in the particle output of event {ev}")
        rec.append({"op": "start", "reset": True, "ev": ev, "box": fx(box, 1e-6), "crit": crit, "nens": nens, "therm": therm(conf),
                    "ens": [P(b["parts"]) for b in cp[:nens]], "ens2": [P(b["parts"]) for b in pp[:nens]]})
        items = []
        for k, b in enumerate(ints):
            ps = b["out"] or b["in"]
            items.append((ps[0]["t"], 0, k, {"op": "int", "t": fx(ps[0]["t"], 1e-6), "kind": b["type"], "in": P(b["in"]),
                                              "out": P(b["out"])}))
        for k, b in enumerate(pp[nens:-nens]):
            t = b["parts"][0]["t"] if b["parts"] else None
            if t is None:
                continue
            items.append((t, 1, k, {"op": "out", "e": b["ens"] + 1, "t": fx(t, 1e-6), "parts": P(b["parts"])}))
        # outputs keep their own order and interactions theirs; merged by time
        a = [x for x in items if x[1] == 0]
        o = [x for x in items if x[1] == 1]
        i = 0
        for x in o:
            while i < len(a) and a[i][0] <= x[0]:
                rec.append(a[i][3])
                i += 1
            rec.append(x[3])
        rec += [x[3] for x in a[i:]]
        for k in range(nens):
            rec.append({"op": "end", "e": k + 1, "t": fx(end, 1e-6), "parts": P(cp[nens + k]["parts"]),
                        "parts2": P(pp[-nens + k]["parts"])})
    with open(out, "w") as f:
        for r in rec:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return rec


def cleanup(res):
    shutil.rmtree(os.path.dirname(res["dir"]), ignore_errors=True)
