"""Turns the calls logged by harness/formats.cc and the files it wrote into traces of FormatsTrace.tla."""
import json
import math
import os
import re
import struct
import runs
from runs import Malformed

INTS = runs.INTS


def num(x):
    """A number as [first 8 digits, exponent, next 8 digits]."""
    x = float(x)
    if math.isnan(x):
        return [0, 9999, 0]
    if math.isinf(x):
        return [1 if x > 0 else -1, 9998, 0]
    if x == 0:
        return [0, 0, 0]
    m, e = ("%.15e" % abs(x)).split("e")
    m = m.replace(".", "")
    s = -1 if x < 0 else 1
    return [s * int(m[:8]), int(e), s * int(m[8:])]


def fixed(x, digits):
    return max(-2000000000, min(2000000000, round(float(x) * 10 ** digits)))


def value(col, tok):
    if col in INTS:
        if isinstance(tok, str) and not re.match(r"-?\d+$", tok):
            raise Malformed(f"column {col}: {tok!r} is no integer")
        v = int(tok)
        if abs(v) > 2 ** 31 - 1:
            raise Malformed(f"column {col}: {v}")
        return [v]
    try:
        return num(tok)
    except ValueError:
        raise Malformed(f"column {col}: {tok!r} is no number")


def row(cols, toks):
    if len(toks) != len(cols):
        raise Malformed(f"{len(toks)} columns instead of {len(cols)}: {toks}")
    return [value(c, t) for c, t in zip(cols, toks)]


def intok(t):
    if not re.match(r"-?\d+$", t):
        raise Malformed(f"{t!r} is no integer")
    return int(t)


def head_fields(rho, w, pw):
    return {"rho": [fixed(rho, 7), num(rho)], "w": [fixed(w, 7), num(w)], "pw": [fixed(pw, 7), num(pw)]}


def text(path, cols):
    """OSCAR2013, ASCII and the text of initial conditions."""
    head, blocks, cur = [], [], None
    for n, line in enumerate(open(path, encoding="utf-8", errors="replace")):
        if not line.endswith("\n"):
            raise Malformed("last line not ended")
        line = line[:-1]
        if n < 3:
            head.append(line.split(" "))
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) (in|out) (\d+)$", line)
        if m:
            cur = {"b": m[3], "ev": int(m[1]), "ens": int(m[2]), "n": int(m[4]), "rows": []}
            blocks.append(cur)
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) end 0 impact ( *-?\d+\.\d{3}) scattering_projectile_target (yes|no)$", line)
        if m:
            blocks.append({"b": "close", "ev": int(m[1]), "ens": int(m[2]), "impact": [fixed(m[3], 3), num(m[3])], "empty": m[4] == "no"})
            cur = None
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) (start|end)$", line)
        if m:
            blocks.append({"b": "start" if m[3] == "start" else "stop", "ev": int(m[1]), "ens": int(m[2])})
            cur = "ic"
            continue
        m = re.match(r"# interaction in (\d+) out (\d+) rho (.{12,}) weight (.{12,}) partial (.{12,}) type +(\d+)$", line)
        if m:
            cur = {"b": "int", "nin": int(m[1]), "nout": int(m[2]), **head_fields(m[3], m[4], m[5]), "type": int(m[6]), "rows": []}
            blocks.append(cur)
            continue
        if line.startswith("#") or cur is None:
            raise Malformed(f"unexpected line {line[:120]!r}")
        v = row(cols, line.split(" "))
        if cur == "ic":
            blocks.append({"b": "row", "rows": [v]})
        else:
            cur["rows"].append(v)
    return head, blocks


def osc99(path, cols, ic=False):
    head, blocks, cur = [], [], None
    for n, line in enumerate(open(path, encoding="utf-8", errors="replace")):
        line = line.rstrip("\n")
        if n < 8:
            head.append(line.split(" "))
            continue
        t = line.split()
        if len(t) == 4:
            cur = {"b": "p", "a": intok(t[0]), "z": intok(t[1]), "ev": intok(t[2]), "ens": intok(t[3]), "rows": []}
            blocks.append(cur)
        elif len(t) == 5:
            blocks.append({"b": "close", "a": intok(t[0]), "z": intok(t[1]), "ev": intok(t[2]), "ens": intok(t[3]),
                           "impact": [fixed(t[4], 3), num(t[4])]})
            cur = None
        elif len(t) == 6:
            cur = {"b": "int", "nin": intok(t[0]), "nout": intok(t[1]), **head_fields(*t[2:5]), "type": intok(t[5]), "rows": []}
            blocks.append(cur)
        elif len(t) == 12 and cur is not None:
            v = row(cols, t)
            if ic:
                blocks.append({"b": "row", "rows": [v]})
            else:
                cur["rows"].append(v)
        else:
            raise Malformed(f"unexpected line {line[:120]!r}")
    return head, blocks


def binary(path, cols, ic=False):
    d = runs.binary(path, cols, ic)
    out = []
    for b in d["blocks"]:
        rows = lambda l: [[value(c, p[c]) for c in cols] for p in l]
        if b["b"] == "p":
            x = {"b": "p", "rows": rows(b["parts"])}
            if not ic:
                x.update(ev=b["ev"], ens=b["ens"])
            out.append(x)
        elif b["b"] == "i":
            out.append({"b": "int", "nin": len(b["in"]), "nout": len(b["out"]), **head_fields(b["rho"], b["w"], b["pw"]),
                        "type": b["type"], "rows": rows(b["in"]) + rows(b["out"])})
        else:
            if b["empty"] not in (0, 1):
                raise Malformed(f"empty flag {b['empty']}")
            out.append({"b": "close", "ev": b["ev"], "ens": b["ens"], "impact": [fixed(b["impact"], 3), num(b["impact"])],
                        "empty": bool(b["empty"])})
    return [d["version"], d["variant"]], out


EXT = {"Oscar2013": ".oscar", "Oscar1999": ".oscar1999", "ASCII": ".dat"}
O99 = "id pdg 0 px py pz p0 mass x y z t".split()
VHLLE = "tau x y eta mt px py Rap pdg charge baryon_number strangeness".split()


def columns(o):
    f = o["format"]
    if f == "Oscar1999":
        return O99
    if f == "For_vHLLE":
        return VHLLE
    if f == "ASCII":
        return o["q"]
    std = runs.EXT if o["ext"] else runs.STD
    return (o["q"] or std) if f == "Binary" else std


def vtk(path):
    """A VTK file as named columns."""
    L = open(path, encoding="utf-8").read().split("\n")
    k = 0

    def need(pat):
        nonlocal k
        m = re.match(pat + "$", L[k])
        if not m:
            raise Malformed(f"line {k + 1} is {L[k][:80]!r}, expected {pat}")
        k += 1
        return m

    def take(n):
        nonlocal k
        r = [x.split() for x in L[k:k + n]]
        if len(r) != n:
            raise Malformed("file too short")
        k += n
        return r
    need(r"# vtk DataFile Version 2\.0")
    need(r"Generated from molecular-offset data .*")
    need("ASCII")
    need("DATASET UNSTRUCTURED_GRID")
    n = int(need(r"POINTS (\d+) double")[1])
    c = {"pos": [[num(v) for v in x] for x in take(n)]}
    m = need(r"CELLS (\d+) (\d+)")
    c["cells"] = [int(m[1]), int(m[2])] + [int(x[1]) for x in take(n) if x[0] == "1"]
    c["types"] = [int(need(r"CELL_TYPES (\d+)")[1])] + [int(x[0]) for x in take(n)]
    c["data"] = int(need(r"POINT_DATA (\d+)")[1])
    for name, ty in (("pdg_codes", "int"), ("is_formed", "int"), ("cross_section_scaling_factor", "double"), ("mass", "double"),
                     ("N_coll", "int"), ("particle_ID", "int"), ("baryon_number", "int"), ("strangeness", "int")):
        need(f"SCALARS {name} {ty} 1")
        need("LOOKUP_TABLE default")
        c[name] = [x[0] if name == "pdg_codes" else [intok(x[0])] if ty == "int" else num(x[0]) for x in take(n)]
    need("VECTORS momentum double")
    c["p"] = [[num(v) for v in x] for x in take(n)]
    need("")
    if k != len(L):
        raise Malformed("more lines than particles")
    c["n"] = n
    return c


def particle(p):
    return {k: (v if k == "pdgs" else value(k, v)) for k, v in p.items()}


def trace(log, root, out, violation):
    """Merges the log of calls with the files; a malformed file is a violation by itself."""
    rec, opens, sess = [], [], None
    recs = [json.loads(l) for l in open(log)]

    def files():
        for o in opens:
            d = os.path.join(root, sess, str(o["n"]))
            base = {"format": o["format"], "content": o["content"], "q": o["q"], "ext": o["ext"], "only": o["only"], "pse": o["pse"]}
            names = sorted(os.listdir(d))
            if o["format"] == "VTK":
                rec.append({"op": "vtkdir", "n": len(names)})
                for n in names:
                    m = re.match(r"pos_ev(\d+)_ens(\d+)_tstep(\d+)\.vtk$", n)
                    if not m:
                        violation(f"VTK output wrote a file named {n}", {"options": base})
                        continue
                    try:
                        rec.append({"op": "vtk", "ev": int(m[1]), "ens": int(m[2]), "k": int(m[3]), **vtk(os.path.join(d, n))})
                    except (Malformed, ValueError, IndexError) as x:
                        violation(f"{n}: {x}", {"options": base, "file": open(os.path.join(d, n)).read()[:3000]})
                continue
            cols = columns(o)
            if len(names) != 1:
                violation(f"one output file expected, found {names}", {"options": base})
                continue
            p = os.path.join(d, names[0])
            try:
                ic = o["content"] == "Initial_Conditions"
                if o["format"] in ("Binary", "Oscar2013_bin"):
                    head, blocks = binary(p, cols, ic)
                elif o["format"] == "Oscar1999":
                    head, blocks = osc99(p, cols, ic)
                else:
                    head, blocks = text(p, cols)
            except (Malformed, ValueError, IndexError, struct.error) as x:
                violation(f"{o['format']} output of {o['content']}, {names[0]}: {x}",
                          {"options": base, "file": open(p, "rb").read()[:4000].decode(errors="replace")})
                continue
            rec.append({"op": "file", "name": names[0], "cols": cols, "head": head, **base})
            rec.extend({"op": "block", **b} for b in blocks)
            rec.append({"op": "eof"})

    for r in recs:
        if r["op"] == "session":
            if sess is not None:
                files()
            opens, sess = [], r["dir"]
            rec.append({"op": "session", "reset": True})
        elif r["op"] == "open":
            if r["res"] != "ok":
                violation(f"{r['format']} output of {r['content']} was refused", r)
            else:
                opens.append(r)
        elif r["op"] == "listing":
            continue
        elif r["op"] in ("start", "mid", "end"):
            x = {"op": r["op"], "ev": r["ev"], "ens": r["ens"], "parts": [particle(p) for p in r["parts"]]}
            if r["op"] == "end":
                x.update(impact=[fixed(r["impact"], 3), num(r["impact"])], empty=r["empty"])
            rec.append(x)
        elif r["op"] == "int":
            rec.append({"op": "int", "in": [particle(p) for p in r["in"]], "out": [particle(p) for p in r["out"]],
                        **head_fields(r["rho"], r["w"], r["pw"]), "type": r["type"]})
        elif r["op"] == "chunk":
            x = {"op": "chunk", "q": r["q"], "max": r["max"], "one": r["one"], "res": r["res"], "bin": r["bin"],
                 "parts": [particle(p) for p in r["parts"]], "rows": []}
            data = bytes.fromhex(r["data"])
            try:
                if r["bin"]:
                    fmt = "<" + "".join("i" if q in INTS else "d" for q in r["q"])
                    if len(data) % struct.calcsize(fmt):
                        raise Malformed("incomplete particle")
                    x["rows"] = [row(r["q"], v) for v in struct.iter_unpack(fmt, data)]
                else:
                    x["rows"] = [row(r["q"], l.split(" ")) for l in data.decode().split("\n")[:-1]]
                    if data and not data.endswith(b"\n"):
                        raise Malformed("line not ended")
            except (Malformed, UnicodeDecodeError) as e:
                violation(f"writing in chunks: {e}", r)
                continue
            rec.append(x)
        else:
            rec.append(r)
    files()
    with open(out, "w") as f:
        for r in rec:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def run_trace(d, contents, out, violation, nens, quant, extended=True):
    """The files of a real run: the custom binary file of a content tells the calls, the others have to agree."""
    rec = []
    P = lambda l: [particle({**{k: p[k] for k in quant}, "id": p["ID"], "0": 0, **IC_EXTRA(p)}) for p in l]
    for content in contents:
        ic = content == "Initial_Conditions"
        base = {"Particles": "particles", "Collisions": "collisions", "Initial_Conditions": "SMASH_IC"}.get(content, content)
        tname = {"Particles": "particle_lists", "Collisions": "full_event_history", "Initial_Conditions": "SMASH_IC"}.get(content, content)
        try:
            ref = runs.binary(f"{d}/{base}_custom.bin", quant, ic)["blocks"]
        except (Malformed, OSError) as x:
            violation(f"{base}_custom.bin: {x}", {})
            continue
        rec.append({"op": "session", "reset": True})
        ev, opened = 0, False
        close = 0
        for k, b in enumerate(ref):
            if ic and not opened:
                for e in range(nens):
                    rec.append({"op": "start", "ev": ev, "ens": e, "parts": []})
            opened = True
            if b["b"] == "p" and ic:
                rec.append({"op": "int", "in": P(b["parts"]), "out": [], **head_fields(0, 0, 0), "type": 0})
            elif b["b"] == "p":
                first = not any(x["op"] == "start" and x["ev"] == b["ev"] and x["ens"] == b["ens"] for x in rec if x["op"] in ("start",)) \
                    if content == "Particles" else None
                last = k + 1 < len(ref) and ref[k + 1]["b"] == "f"
                if last:
                    f = ref[k + 1]
                    rec.append({"op": "end", "ev": b["ev"], "ens": b["ens"], "parts": P(b["parts"]),
                                "impact": [fixed(f["impact"], 3), num(f["impact"])], "empty": bool(f["empty"])})
                else:
                    kind = "start" if first or content != "Particles" else "mid"
                    rec.append({"op": kind, "ev": b["ev"], "ens": b["ens"], "parts": P(b["parts"])})
            elif b["b"] == "i":
                rec.append({"op": "int", "in": P(b["in"]), "out": P(b["out"]), **head_fields(b["rho"], b["w"], b["pw"]), "type": b["type"]})
            else:
                if ref[k - 1]["b"] != "p" or ic:
                    rec.append({"op": "end", "ev": b["ev"], "ens": b["ens"], "parts": [],
                                "impact": [fixed(b["impact"], 3), num(b["impact"])], "empty": bool(b["empty"])})
                close += 1
                if close % nens == 0:
                    ev, opened = ev + 1, False
        files = [("Oscar2013", f"{tname}.oscar"), ("Oscar1999", f"{tname}.oscar1999"), ("ASCII", f"{tname}.dat"),
                 ("Oscar2013_bin", f"{base}_oscar2013{'_extended' if extended else ''}.bin"), ("Binary", f"{base}_custom.bin")]
        if ic:
            files.append(("For_vHLLE", "SMASH_IC_For_vHLLE.dat"))
        for fmt, name in files:
            o = {"format": fmt, "content": content, "q": quant if fmt in ("ASCII", "Binary") else [], "ext": extended, "only": "No",
                 "pse": content == "Collisions"}
            cols = columns(o)
            try:
                if fmt in ("Binary", "Oscar2013_bin"):
                    head, blocks = binary(f"{d}/{name}", cols, ic)
                elif fmt == "Oscar1999":
                    head, blocks = osc99(f"{d}/{name}", cols, ic)
                else:
                    head, blocks = text(f"{d}/{name}", cols)
            except (Malformed, ValueError, IndexError, OSError) as x:
                violation(f"{name}: {x}", {"options": o})
                continue
            rec.append({"op": "file", "name": name, "cols": cols, "head": head, **o})
            rec.extend({"op": "block", **b} for b in blocks)
            rec.append({"op": "eof"})
    with open(out, "w") as f:
        for r in rec:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def IC_EXTRA(p):
    t2 = p["t"] ** 2 - p["z"] ** 2
    at = lambda a, b: math.atanh(a / b) if b and abs(a) < abs(b) else 0.0
    return {"tau": math.sqrt(t2) if t2 > 0 else 0.0, "eta": at(p["z"], p["t"]), "Rap": at(p["pz"], p["p0"])}
