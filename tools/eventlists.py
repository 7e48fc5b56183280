"""Random files with particle lists, and what the real list modus makes of them, as a trace for EventListsTrace."""
import json
import math
import os
import re

import lists
import runs

SELF = {"111", "113", "221", "223", "331", "333", "9000221", "22"}


def types():
    """Code, mass, stable (width below 10 keV), charge of the list of harness/types.h."""
    out = []
    for l in runs.lists()[0].splitlines():
        n, m, w, _, *codes = l.split()
        for c in codes:
            for q in (c,) if c in SELF else (c, "-" + c):
                ch = {"11": -1, "-11": 1, "22": 0}.get(q)
                if ch is None:
                    ch = (1 if q[0] != "-" else -1) if len(c) == 10 else lists.charge(q)
                out.append((q, m, float(w) < 1e-5, ch))
    return out


TYPES = types()
BY = {t[0]: t for t in TYPES}
UNKNOWN = ["4122", "441", "511", "20213", "1000020040", "3214"]
MALFORMED = ["abc", "2x12", "21121212121212", "--211", "2212.5"]
FIELDS = ["ID", "charge", "ncoll", "form_time", "xsecfac", "proc_type", "time_last_coll", "pdg_mother1", "pdg_mother2",
          "spin0", "spinx", "spiny", "spinz", "perturbative_weight"]
PROC = list(range(16)) + [21] + list(range(41, 48)) + [90]


def big(s):
    """A decimal text as a number of BigInt.tla in multiples of 1e-9."""
    from decimal import Decimal, ROUND_HALF_EVEN
    v = int((Decimal(s) * 10**9).to_integral_value(ROUND_HALF_EVEN))
    if v == 0:
        return [0]
    r, u = [-1 if v < 0 else 1], abs(v)
    while u:
        r.append(u % 10000)
        u //= 10000
    return r


def dec(r, lo, hi, n=None):
    n = r.choice((0, 1, 2, 3, 6)) if n is None else n
    v = r.uniform(lo, hi)
    s = f"{v:.{n}f}"
    return "0" if float(s) == 0 else s


def opt(r, f, pdg, t, bad):
    """(text, fields of the record)"""
    if f == "ID":
        return r.choice(("0", "17", "x")), {}
    if bad == "text" and not f.startswith("pdg"):
        return r.choice(("abc", "-", "..")), {"num": False}
    if f == "charge":
        q = BY[pdg][3] if pdg in BY else 0
        if bad == "value":
            q += r.choice((-1, 1, 2))
        return (f"{q:+d}" if r.random() < .2 else str(q)) + (".0" if r.random() < .1 else ""), {"n": q}
    if f == "ncoll":
        n = -r.randint(1, 5) if bad == "value" else r.choice((0, 1, 7, 100))
        return str(n) + ("x" if r.random() < .1 else ""), {"n": n}
    if f == "proc_type":
        n = r.choice((-1, 16, 20, 22, 40, 48, 89, 91, 1000)) if bad == "value" else r.choice(PROC)
        return str(n), {"n": n}
    if f in ("xsecfac", "perturbative_weight"):
        s = r.choice(("-0.001", "1.001", "7", "-1")) if bad == "value" else r.choice(("0", "1", "0.5", "0.25", "1.0"))
        return s, {"v": big(s)}
    if f == "time_last_coll":
        s = f"{float(t) + r.choice((.001, 1, 50)):.3f}" if bad == "value" else r.choice((t, f"{float(t) - r.choice((0.001, .5, 20)):.3f}"))
        return s, {"v": big(s)}
    if f.startswith("pdg_mother"):
        s = r.choice(UNKNOWN + MALFORMED[:2]) if bad else r.choice(["0", "0"] + sorted(BY))
        return s, {"s": s}
    s = dec(r, -5, 5) if f.startswith("spin") else f"{float(t) + r.choice((0, 0, .5, -1, 3)):.3f}"
    return s, {"v": big(s)}


def row(r, fields, ev, spoil=None):
    """One particle line: (text, record)."""
    pdg = r.choice(sorted(BY))
    if spoil == "unknown":
        pdg = r.choice(UNKNOWN)
    m, stable = (BY[pdg][1], BY[pdg][2]) if pdg in BY else ("1.0", True)
    if ev["same"] and r.random() < .3 and ev["points"]:
        t, x, y, z = r.choice(ev["points"])
    else:
        t = r.choice(ev["few"]) if ev.get("few") else ev["t"] if ev["t"] is not None else dec(r, -5, 20)
        x, y, z = (dec(r, -9, 9) for _ in range(3))
    if spoil == "crowd" and ev["points"]:
        t, x, y, z = ev["points"][0]
    ev["points"].append((t, x, y, z))
    mass = m
    u = r.random()
    if not stable and u < .6:
        mass = dec(r, .3, 2, 3)
    elif u < .08:
        mass = f"{float(m) + r.choice((.001, -.01, .1)):.4f}" if float(m) > .02 else "0.01"
    elif u < .1:
        mass = f"{float(m):.9f}"
    p = [dec(r, -3, 3) if r.random() < .85 else "0" for _ in range(3)]
    if float(m) == 0 and all(float(q) == 0 for q in p):
        p[0] = "0.5"
    e = math.sqrt(float(mass)**2 + sum(float(q)**2 for q in p))
    u = r.random()
    es = f"{e:.9f}" if u < .8 else f"{e:.6g}" if u < .9 else f"{e + r.choice((-.01, .1, .5)):.4f}"
    if float(es) <= 0:
        es = f"{e:.9f}"
    num = [t, x, y, z, mass, es] + p
    form = "ok"
    if spoil == "malformed":
        pdg, form = r.choice(MALFORMED), "bad"
    tok = [s + "e0" if r.random() < .03 else s for s in num] + [pdg]
    if spoil == "nan":
        tok[r.randrange(9)], form = r.choice(("nan", "x1", "-", "NaN")), "bad"
    opts, bad = [], None
    if spoil == "opt" and fields:
        bad = r.randrange(len(fields))
    for k, f in enumerate(fields):
        s, d = opt(r, f, pdg, t, r.choice(("value", "text")) if k == bad else None)
        tok.append(s)
        opts.append(dict({"f": f, "num": True, "n": 0, "v": [0], "s": ""}, **d))
    if spoil == "short":
        tok, form = tok[:r.randrange(1, len(tok))], "bad"
    elif r.random() < .1:
        tok += r.choice((["5"], ["1", "2.5", "x"]))
    s = r.choice((" ", " ", "  ", "\t")).join(tok)
    if r.random() < .1:
        s = r.choice((" ", "\t", "   ")) + s + r.choice(("", " ", " # remark", "#"))
    return s, {"k": "row", "v": [big(q) for q in num], "pdg": pdg, "form": form, "opts": opts}


def file(r, fields, plain, spoils):
    """One file: (text, lines). plain: without closing lines."""
    out = []

    def text(s):
        out.append((s, {"k": "text"}))
    if r.random() < (.3 if plain else .8):
        for s in ("#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge", "# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e", "# SMASH")[:r.randint(1, 3)]:
            text(s)
    n = 1 if plain else r.choice((0, 1, 1, 2, 3, 5))
    ens = r.random() < .2
    for e in range(n):
        k = r.choice((0, 1, 1, 2, 3, 4, 5, 6, 9)) if not plain else r.choice((1, 2, 3, 4, 5, 6, 12))
        ev = {"same": r.random() < .15, "points": [], "t": None if r.random() < .5 else dec(r, -5, 30)}
        # few different times, which differ by the same amounts up- and downwards
        mid, d = r.choice((0, 1, 2, -1, 7.5)), r.choice((1, 1, .5, 2))
        ev["few"] = [f"{x:.3f}" if r.random() < .5 else f"{x:g}" for x in (mid - d, mid, mid, mid + d)] if r.random() < .25 else None
        rows = [row(r, fields, ev) for _ in range(k)]
        if spoils and r.random() < spoils:
            what = r.choice(("unknown", "unknown", "unknown", "malformed", "nan", "opt", "opt", "short", "crowd"))
            for _ in range(3 if what == "crowd" else 1):
                rows.insert(r.randint(1, len(rows)) if rows else 0, row(r, fields, ev, what))
        if not plain and r.random() < .8 or (plain and r.random() < .3):
            text(f"# event {e} " + ("ensemble 0 " if ens else "") + f"out {len(rows)}")
        for s, d in rows:
            out.append((s, d))
            if r.random() < .04:
                out.append(r.choice((("", {"k": "blank"}), ("  ", {"k": "white"}), ("# remark", {"k": "text"}))))
        last = e == n - 1
        if not plain and not (last and rows and r.random() < .1):
            out.append((f"# event {e} " + ("ensemble 0 " if ens else "") + f"end 0 impact   0.000 scattering_projectile_target {r.choice(('yes', 'no'))}", {"k": "end"}))
            if r.random() < .1:
                out.append(("", {"k": "blank"}))
    if r.random() < .08:
        out += [("", {"k": "blank"})] * r.randint(1, 7)
    t = "\n".join(s for s, _ in out)
    if r.random() < .85 or (out and out[-1][1]["k"] == "text"):
        t += "\n" if out else ""
    for _, d in out:
        if d["k"] == "white":
            d["k"] = "blank"
    return t, [d for _, d in out]


class Batch:
    def __init__(self, root):
        self.root, self.cases, self.n = root, [], 0

    def add(self, r, names=None):
        d = f"{self.root}/e{self.n}"
        self.n += 1
        os.makedirs(d, exist_ok=True)
        single = r.random() < .4
        u = r.random()
        if u < .35:
            fields, given = ["ID", "charge"], "*"
        else:
            fields = r.sample(FIELDS, r.randint(0, 6) if u < .9 else len(FIELDS))
            if r.random() < .04:
                fields.insert(r.randint(0, len(fields)), r.choice(("mass", "Charge", "spin", "id", "formation_time", "weight", "baryon_number")))
            given = ",".join(fields) or "-"
        shift = r.choice((0, 0, 0, 1, 3))
        plain = r.random() < .3
        nf = 1 if single else r.choice((1, 2, 3, 4))
        spoils = r.choice((0, 0, .2, .5))
        files, calls = [], 0
        gap = r.randint(shift, shift + nf) if not single and r.random() < .1 else None
        for k in range(shift, shift + nf):
            if k == gap:
                continue
            if shift > 0 and r.random() < .3 and not single:     # a file below the first one
                with open(f"{d}/list0", "a") as f:
                    f.write("")
            t, ls = file(r, fields, plain if r.random() < .9 else not plain, spoils)
            with open(f"{d}/" + ("list" if single else f"list{k}"), "w") as f:
                f.write(t)
            calls += sum(x["k"] == "end" for x in ls) + 1
            files.append({"id": k, "lines": ls})
        if shift > 0 and not single:
            t, ls = file(r, fields, plain, 0)
            with open(f"{d}/list{shift - 1}", "w") as f:
                f.write(t)
            files.append({"id": shift - 1, "lines": ls})
        if single and files:
            files[0]["id"] = 0
        box = r.choice(("10", "7.5", "4")) if r.random() < .2 else "0"
        ens = 1 if r.random() < .97 else 2
        spin = r.random() < .08
        u = r.random()
        names = (["list", "-"] if single else ["-", "list"]) if u < .96 else (["list", "list"] if u < .98 else ["-", "-"])
        calls += 2
        self.cases.append(({"op": "case", "reset": True, "single": single, "first": 0 if single else shift, "files": files, "fields": fields,
                            "names": (names[0] != "-") + (names[1] != "-"), "ens": ens, "spin": spin, "box": big(box)},
                           [d, names[0], names[1], str(shift), str(calls), given, box, str(ens), "1" if spin else "0"]))

    def oscar(self, path, fields, calls, cols=None):
        """A file written by the program itself."""
        lines = []
        order = ["t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg"] + fields
        for s in open(path).read().split("\n")[:-1]:
            if s.startswith("#"):
                lines.append({"k": "end" if " end " in s else "text"})
                continue
            v = s.split()
            d = dict(zip(order, v))
            opts = [dict({"f": f, "num": True, "n": 0, "v": [0], "s": ""},
                         **({} if f == "ID" else {"n": int(d[f])} if f in ("charge", "ncoll", "proc_type") else {"s": d[f]} if f.startswith("pdg") else {"v": big(d[f])}))
                    for f in fields]
            lines.append({"k": "row", "v": [big(q) for q in v[:9]], "pdg": v[9], "form": "ok", "opts": opts})
        self.cases.append(({"op": "case", "reset": True, "single": True, "first": 0, "files": [{"id": 0, "lines": lines}], "fields": fields,
                            "names": 1, "ens": 1, "spin": False, "box": [0]},
                           [os.path.dirname(path), os.path.basename(path), "-", "0", str(calls), ",".join(fields) or "-", "0", "1", "0"]))

    def program(self, path, case, res):
        """The events a run of the program started with (or failed to), as calls of the same case."""
        with open(path, "w") as f:
            def put(x):
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
            put({"op": "types", "types": [{"pdg": a, "mass": big(m), "stable": s, "charge": q} for a, m, s, q in TYPES]})
            put(case)
            for e in res:
                put(dict({"op": "call"}, **e))

    def write(self, path):
        with open(path, "w") as f:
            for _, c in self.cases:
                f.write("\t".join(c) + "\n")

    def trace(self, out, path):
        res = [json.loads(x) for x in open(out)]
        if len(res) != len(self.cases):
            raise RuntimeError("driver answered fewer cases")
        with open(path, "w") as f:
            def put(x):
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
            put({"op": "types", "types": [{"pdg": a, "mass": big(m), "stable": s, "charge": q} for a, m, s, q in TYPES]})
            for (c, _), r in zip(self.cases, res):
                put(c)
                put({"op": "ctor", "res": r["ctor"]})
                for e in r["calls"]:
                    put(dict({"op": "call"}, **e))


def documented(src):
    """The optional quantities the user guide names."""
    part = re.search(r"key_ML_optional_quantities_,Optional_Quantities(.*?)Be aware", src, re.S)
    return re.findall(r'- "(\w+)" &rarr;', part[1]) if part else []
