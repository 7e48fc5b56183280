"""Random and shipped particle / decay mode lists as structured lines, their text, and the traces of what the code made of them."""
import json
import os
import random
import re

CH = {2: "⁺⁺", 1: "⁺", 0: "⁰", -1: "⁻", -2: "⁻⁻"}
BAR = "\u0305"


def asc(s):
    """ASCII form of a name: ^p ^m ^0 for charges, ~ for the bar, {hex} for other letters."""
    s = s.replace("⁺", "^p").replace("⁻", "^m").replace("⁰", "^0").replace(BAR, "~")
    return "".join(c if ord(c) < 127 else "{%x}" % ord(c) for c in s)


def split(name):
    m = re.match(r"^(.)(.*?)(⁺⁺|⁺|⁻⁻|⁻|⁰)?$", name)
    return asc(m[1]), asc(m[2]), asc(m[3] or "")


def code(s):
    sign, d = (-1, s[1:]) if s[0] == "-" else (1, s.lstrip("+"))
    return {"sign": sign, "digits": [int(c, 16) for c in d]}


FAM = {  # twice the isospin, B, S, C, b, quark digits of the members, names
    "pi": (2, 0, 0, 0, 0, ["11", "21"], "π a b ρ"), "eta": (0, 0, 0, 0, 0, ["22"], "η f ω h σ"), "phi": (0, 0, 0, 0, 0, ["33"], "φ η'"),
    "K": (1, 0, 1, 0, 0, ["31", "32"], "K"), "D": (1, 0, 0, 1, 0, ["41", "42"], "D"), "B": (1, 0, 0, 0, 1, ["51", "52"], "B"),
    "Ds": (0, 0, 1, 1, 0, ["43"], "Ds"), "Bs": (0, 0, -1, 0, 1, ["53"], "Bs"), "psi": (0, 0, 0, 0, 0, ["44"], "χc Ψ"),
    "N": (1, 1, 0, 0, 0, ["211", "221"], "N"), "De": (3, 1, 0, 0, 0, ["111", "211", "221", "222"], "Δ"),
    "La": (0, 1, -1, 0, 0, ["312"], "Λ"), "Si": (2, 1, -1, 0, 0, ["311", "321", "322"], "Σ"), "Xi": (1, 1, -2, 0, 0, ["331", "332"], "Ξ"),
    "Om": (0, 1, -3, 0, 0, ["333"], "Ω"), "Lc": (0, 1, 0, 1, 0, ["412"], "Λc"), "Sc": (2, 1, 0, 1, 0, ["411", "421", "422"], "Σc")}
FIXED = {"2112": 938000, "2212": 938000, "111": 138000, "211": 138000, "311": 494000, "321": 494000, "223": 783000, "1114": 1232000,
         "2114": 1232000, "2214": 1232000, "2224": 1232000}
PRE = [1, 2, 3, 10, 20, 21, 100, 900, 901, 33]


def charge(c):
    a = -1 if c[0] == "-" else 1
    q = [int(x) for x in c.lstrip("-+").zfill(7)[-4:-1]]
    ch = [0, -1, 2, -1, 2, -1, 2]
    if q[0]:
        return a * sum(ch[x] for x in q) // 3
    h, l = max(q[1:]), min(q[1:])
    if h == l:
        return 0
    return a * (ch[h] - ch[l]) // 3 * (1 if h % 2 == 0 else -1)


class Lists:
    def __init__(self, rng):
        self.r = rng
        self.lines, self.mults, self.used = [], [], set()

    def add(self, fam, pre, j, mass=None, width=None, par=None, name=None):
        i2, B, S, C, b, q, names = FAM[fam]
        codes = [(str(pre) if pre else "") + x.rjust(4 if pre else 0, "0")[-4:] + str(j) if pre and len(x) == 2
                 else (str(pre) if pre else "") + x + str(j) for x in q]
        if pre and len(q[0]) == 2:
            codes = [f"{pre}0{x}{j}" for x in q]
        if any(c in self.used for c in codes):
            return None
        base = name or self.r.choice(names.split())
        if pre or any(m["name"] == base for m in self.mults):
            base += self.r.choice(["(%d)", "%d", "*(%d)", "₂%d", "'(%d)"]) % self.r.randrange(100, 9999)
        if any(m["name"] == base for m in self.mults):
            return None
        self.used |= set(codes)
        mass = FIXED.get(codes[0], mass or self.r.randrange(300000, 2600000))
        if width is None:
            width = self.r.choice([0, 0, 5000, self.r.randrange(20000, 500000000), self.r.randrange(10000000, 400000000)])
        par = par or self.r.choice("+-")
        codes = codes[:]
        if self.r.random() < 0.2:
            self.r.shuffle(codes)
        suffix = ""
        if len(codes) == 1 and charge(codes[0]) != 0 and (self.r.random() < 0.5 or S == C == 0):
            suffix = CH[charge(codes[0])]
        m = dict(name=base, i2=i2, B=B, S=S, C=C, b=b, j=j - 1, par=par, mass=mass, width=width, codes=codes,
                 anti=(B or S or C or b) != 0,
                 states=[(base + CH[charge(c)] if len(codes) > 1 else base + suffix, charge(c)) for c in codes])
        if fam == "pi":
            m["states"].append((base + CH[-1], -1))
        self.mults.append(m)
        self.line(base + suffix, mass, width, par, codes)
        return m

    def line(self, name, mass, width, par, codes, text=None, form="ok"):
        f, rest, ch = split(name)
        t = text or "%s %s %s %s %s" % (name, self.num(mass, 6), self.num(width, 9), par, " ".join(codes))
        if self.r.random() < 0.1:
            t = self.r.choice(["  ", "\t"]) + t.replace(" ", self.r.choice(["\t", "   "])) + "  # " + self.r.choice(["note", "π 0.1 0 - 111"])
        self.lines.append(({"op": "type", "first": f, "rest": rest, "ch": ch, "mass": mass, "width": width, "par": par if par in "+-" and par else "?",
                            "codes": [code(c) for c in codes] if form == "ok" else [], "form": form}, t))

    def num(self, v, digits):
        s = "%.*f" % (digits, v / 10 ** digits)
        return s.rstrip("0") + ("0" if self.r.random() < 0.5 else "") if self.r.random() < 0.7 else "%.10e" % (v / 10 ** digits)

    def base(self):
        r = self.r
        self.add("pi", 0, 1, width=0, par="-", name="π")
        self.add("K", 0, 1, width=0, par="-", name="K")
        if r.random() < .9:
            self.add("N", 0, 2, width=0, par="+", name="N")
        if r.random() < .8:
            self.add("De", 0, 4, width=117000000, par="+", name="Δ")
        if r.random() < .8:
            self.add("eta", 0, 1, 548000, width=r.choice([0, 1310]), par="-", name="η")
        if r.random() < .8:
            self.add("La", 0, 2, 1116000, width=0, par="+", name="Λ")
        if r.random() < .7:
            self.add("pi", 0, 3, 776000, width=149000000, par="-", name="ρ")
        if r.random() < .5:
            self.add("Si", 0, 2, 1189000, width=0, par="+", name="Σ")
        if r.random() < .5:
            self.line("e⁻", 511, 0, "+", ["11"])
            self.leptons = True
        if r.random() < .5:
            self.line("γ", 0, 0, "-", ["22"])
            self.gamma = True
        if r.random() < .2:
            self.line("d", 1875600, 0, "+", ["1000010020"])
        if r.random() < .2:
            self.line(r.choice(["t", "He3"]), 2809000, 0, "+", [r.choice(["1000010030", "1000020030", "1010010030"])])
        if r.random() < .1:
            self.line("νe" if r.random() < .5 else "ve", 0, 0, "+", ["12"])
        for _ in range(r.randrange(1, 9)):
            fam = r.choice(list(FAM) + ["pi", "eta", "K", "N", "De", "La", "Si"])
            meson = len(FAM[fam][5][0]) == 2
            self.add(fam, r.choice(PRE + [0, 0]), r.choice([1, 3, 5, 7, 9] if meson else [2, 4, 6, 8]) if fam != "De" else r.choice([4, 8]))
        if r.random() < .3:
            r.shuffle(self.lines)

    # ---- decay modes
    def daughters(self):
        out = []
        for m in self.mults:
            out.append(dict(m, text=m["name"]))
            if m["anti"]:
                s = -1 if m["B"] and m["j"] % 2 == 1 else 1
                out.append(dict(m, text=m["name"][0] + BAR + m["name"][1:], B=-m["B"], S=-m["S"], C=-m["C"], b=-m["b"],
                                par=m["par"] if s == 1 else {"+": "-", "-": "+"}[m["par"]], states=[(self.antiname(n), -q) for n, q in m["states"]]))
        return out

    @staticmethod
    def antiname(n):
        m = re.match(r"^(.)(.*?)(⁺⁺|⁺|⁻⁻|⁻|⁰)?$", n)
        inv = {"⁺⁺": "⁻⁻", "⁻⁻": "⁺⁺", "⁺": "⁻", "⁻": "⁺", "⁰": "⁰", None: ""}
        return m[1] + BAR + m[2] + inv[m[3]]

    def mode(self, m, tries=300):
        r = self.r
        ds = [d for d in self.daughters() if d["mass"] < m["mass"]]
        for _ in range(tries):
            n = r.choice([2, 2, 2, 3])
            if len(ds) == 0:
                return None
            pick = [r.choice(ds) for _ in range(n)]
            if any(sum(d[k] for d in pick) != m[k] for k in "BSCb"):
                continue
            if sum(d["mass"] for d in pick) >= m["mass"]:
                continue
            js = [m["j"]] + [d["j"] for d in pick]
            if sum(js) % 2:
                continue
            iso = [m["i2"]] + [d["i2"] for d in pick]
            names = [d["text"] for d in pick]
            lo, hi = max(0, 2 * max(js) - sum(js)) // 2, sum(js) // 2
            par = 1
            for d in pick:
                par *= 1 if d["par"] == "+" else -1
            ok = [L for L in range(lo, hi + 1) if n == 3 or par * (-1) ** L == (1 if m["par"] == "+" else -1)]
            if not ok:
                continue
            if sum(iso) % 2 or 2 * max(iso) > sum(iso):
                continue
            if n == 3:
                a, b, cc, R = iso[1], iso[2], iso[3], iso[0]
                un = [i for i in range(abs(a - b), a + b + 1, 2) if abs(i - cc) <= R <= i + cc]
                if len(un) != 1:
                    continue
            elif r.random() < 0.15 and m["i2"] == 0:
                # two specific states
                st = [r.choice(d["states"]) for d in pick]
                if sum(q for _, q in st) in [q for _, q in m["states"]]:
                    names = [s for s, _ in st]
            return [r.choice([1, 2, 3, 5, 9, 10]), r.choice(ok), names]
        return None

    def decays(self):
        out = []
        for m in self.mults:
            if m["width"] < 10000 and self.r.random() < 0.9:
                continue
            ms = [x for x in (self.mode(m) for _ in range(self.r.randrange(1, 5))) if x]
            if not ms:
                continue
            out.append(["head", m["name"]])
            out += [["mode", *x] for x in ms]
            if m["i2"] == 0 and m["B"] == m["S"] == m["C"] == m["b"] == 0 and getattr(self, "leptons", False) and self.r.random() < 0.4:
                out.append(["mode", 1, None, ["e⁻", "e⁺"] + self.r.choice([[], ["γ"], ["π⁰"]])])
                x = out[-1]
                x[2] = self.r.randrange(0, 3)
        return out


def fix_unstable(ls, dec):
    """Types without a possible mode are made stable, so that most lists are accepted."""
    have = {x[1] for x in dec if x[0] == "head"}
    for m in ls.mults:
        if m["width"] >= 10000 and m["name"] not in have:
            if m["codes"][0] in ("1114",):
                pass
            for k, (e, t) in enumerate(ls.lines):
                if e["codes"] and [c["digits"] for c in e["codes"]] == [code(c)["digits"] for c in m["codes"]]:
                    f = t.split()
                    f[2] = "0"
                    ls.lines[k] = (dict(e, width=0), " ".join(f))
            m["width"] = 0


def dev(x, r, ratio_unit=10):
    """Event and text of one line of a decay mode list."""
    if x[0] == "head":
        return {"op": "head", "name": asc(x[1])}, ("\n" if r.random() < .7 else "") + x[1] + r.choice(["", " ", "   # section"])
    if x[0] == "text":
        return {"op": "mode", "r": 0, "L": 0, "ds": [], "form": "bad"}, x[1]
    rr, L, ds = x[1:]
    return ({"op": "mode", "r": rr, "L": L, "ds": [asc(d) for d in ds], "form": "ok" if rr >= 0 else "bad"},
            r.choice(["%.6f %d %s", " %.7g\t%d\t%s", "%.6e  %d   %s # c"]) % (rr / ratio_unit, L, r.choice([" ", "  "]).join(ds)))


def spoil_types(ls):
    """One defect in a particle list; True if it is certainly refused before anything global is set."""
    r = ls.r
    k = r.randrange(0, 9)
    if k == 0:      # the same code twice
        e, t = r.choice([x for x in ls.lines if x[0]["codes"]])
        ls.line("Q", 1000000, 0, "+", [t.split()[4] if len(t.split()) > 4 else "111"])
        return False
    if k == 1:
        ls.line("Q", 1000000, 0, "", ["9010221"], text="Q 1.0 0 9010221", form="bad")
    elif k == 2:
        ls.line("Q", 1000000, 0, r.choice(["0", "x", "++", "+-"]), ["9010221"], form="bad")
    elif k == 3:
        ls.line("Q", 1000000, 0, "+", [], form="bad")
    elif k == 4:
        ls.line("Q", 1000000, 0, "+", [r.choice(["2213", "212", "9010x21", "80000219", "123456789"])], form="bad")
    elif k == 5:
        ls.line("Q", 1000000, 0, "+", ["9010221"], text="Q 1.O 0 + 9010221", form="bad")
    elif k == 6:    # a code and its antiparticle
        ls.line("Q", 1000000, 0, "+", ["9010321", "-9010321"])
    elif k == 7:    # a mass that is fixed inside the program
        for i, (e, t) in enumerate(ls.lines):
            if e["codes"] and "".join(map(str, e["codes"][0]["digits"])) in FIXED and r.random() < .5:
                f = t.split()
                f[1] = "%.6f" % (e["mass"] * 1.01 / 1e6)
                ls.lines[i] = (dict(e, mass=int(e["mass"] * 1.01 + .5)), " ".join(f))
                return True
        return False
    else:           # the antiparticle listed first
        ls.line("Z", 1500000, 0, "+", [r.choice(["-9010321", "-9032212", "-9010411"])])
        return False
    return True


def spoil_decays(ls, dec):
    r = ls.r
    if not dec:
        return dec
    dec = [list(x) for x in dec]
    mi = [i for i, x in enumerate(dec) if x[0] == "mode"]
    hi = [i for i, x in enumerate(dec) if x[0] == "head"]
    k = r.randrange(0, 14)
    i = r.choice(mi) if mi else 0
    allds = [d["text"] for d in ls.daughters()] + [s for d in ls.daughters() for s, _ in d["states"]]
    if k == 0 and mi:
        dec[i][2] += r.choice([1, -1, 2, -2, 10])
    elif k == 1 and mi:
        dec[i][3] = dec[i][3][:-1] + [r.choice(allds)]
    elif k == 2 and mi:
        dec[i][3] = dec[i][3][:-1] + [r.choice(["Nope", "π⁺⁺", "N²"])]
    elif k == 3:
        j = r.choice(hi)
        e = j + 1
        while e < len(dec) and dec[e][0] == "mode":
            e += 1
        dec = dec[:j] + dec[e:]
    elif k == 4:
        j = r.choice(hi)
        e = j + 1
        while e < len(dec) and dec[e][0] == "mode":
            e += 1
        dec = dec + dec[j:e]
    elif k == 5:
        dec[r.choice(hi)][1] = r.choice(["Nope", "π⁺", "X"])
    elif k == 6 and mi:
        dec[i][3] = dec[i][3] + [r.choice(allds)]
    elif k == 7 and mi:
        dec[i][3] = dec[i][3][:1]
    elif k == 8:
        dec = dec[1:]
    elif k == 9 and mi:
        dec[i][1] = -dec[i][1]
    elif k == 10:
        for x in dec:
            if x[0] == "mode" and r.random() < .6:
                x[1] = 0
    elif k == 11 and mi:
        dec[i] = ["text", r.choice(["1.0 π π", "1.0 x π π", "π π 1", "a b", "x 1 π π"])]
    elif k == 12 and mi:
        dec.insert(i, ["mode", 3, dec[i][2], list(reversed(dec[i][3]))])
    elif k == 13:   # the section of the antimultiplet, too
        ms = [m for m in ls.mults if m["anti"]]
        if ms:
            m = r.choice(ms)
            dec.insert(r.choice(hi), ["head", m["name"][0] + BAR + m["name"][1:]])
    return dec


def cyclic(dec):
    """Does a multiplet occur among its own products, directly or indirectly?"""
    g, cur = {}, None
    for x in dec:
        if x[0] == "head":
            cur = x[1].replace(BAR, "")
            g.setdefault(cur, set())
        elif x[0] == "mode" and cur is not None:
            for d in x[3]:
                m = re.match(r"^(.)(.*?)(⁺⁺|⁺|⁻⁻|⁻|⁰)?$", d.replace(BAR, ""))
                g[cur].add(m[1] + m[2])

    def reach(a, seen):
        for b in g.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen
    return any(a in reach(a, set()) for a in g)


def trial(rng):
    """One trial: text for the driver, events for the specification (without the results)."""
    ls = Lists(rng)
    ls.base()
    dec = ls.decays()
    if rng.random() < .85:
        fix_unstable(ls, dec)
    good = [dict(e) for e, _ in ls.lines], [t for _, t in ls.lines]
    what = rng.random()
    early = None
    if what < .25:
        n = len(ls.lines)
        sure = spoil_types(ls)
        if not sure or rng.random() < .5:
            good = [dict(e) for e, _ in ls.lines], [t for _, t in ls.lines]
        else:
            early = [dict(e) for e, _ in ls.lines], [t for _, t in ls.lines]
    edec = None
    if .25 <= what < .75:
        bad = spoil_decays(ls, dec)
        if not cyclic(bad):
            dec = bad
    elif what > .95 and dec:
        edec = dec + [["mode", 1, 0, ["Nope", "π"]]]
    q = []
    for m in ls.mults:
        q += [c for c in m["codes"]] + ["-" + c for c in m["codes"] if m["anti"]]
    q += ["9922114", "211", "-211", "2212", "-2212", "22", "11", "-11", "1000010020", "-1000010020", "5122", "9900225", "20553"]
    rng.shuffle(q)
    return [(early, good, edec, dec, q[:25])]


def shipped(particles, decays, rng, unit):
    """Structured lines of files as the user would give them (they contain only well-formed lines)."""
    ev, tx = [], []
    for l in open(particles, encoding="utf8"):
        f = l.split("#")[0].split()
        if not f:
            continue
        a, b, c = split(f[0])
        ev.append({"op": "type", "first": a, "rest": b, "ch": c, "mass": round(float(f[1]) * 1e6), "width": round(float(f[2]) * 1e9), "par": f[3],
                   "codes": [code(x) for x in f[4:]], "form": "ok"})
        tx.append(l.rstrip("\n"))
    de, dx = [], []
    for l in open(decays, encoding="utf8"):
        f = l.split("#")[0].split()
        if not f:
            continue
        if len(f) == 1:
            de.append({"op": "head", "name": asc(f[0])})
        else:
            de.append({"op": "mode", "r": round(float(f[0]) * unit), "L": int(f[1]), "ds": [asc(x) for x in f[2:]], "form": "ok"})
        dx.append(l.rstrip("\n"))
    return ev, tx, de, dx


def name_of(s):
    return asc(s.encode("latin1").decode("utf8"))


def clean(r):
    for t in r.get("table", []):
        t["name"], t["mult"] = name_of(t["name"]), name_of(t["mult"])
    for m in r.get("mults", []):
        m["name"], m["anti"] = name_of(m["name"]), name_of(m["anti"])
    if "isores" in r:
        r["isores"] = [name_of(x) for x in r["isores"]]
    return r


RES = ["table", "mults", "look", "nucleons", "antinucleons", "deltas", "antideltas", "resonances", "nuclei", "isores"]


class Batch:
    """A set of trials for one driver run."""
    def __init__(self, tol=0):
        self.text, self.events = [], []

    def add(self, rng):
        for early, (gev, gtx), edec, dec, q in trial(rng):
            t = []
            if early:
                t += ["@T"] + early[1]
            t += ["@T"] + gtx
            ed = [dev(x, rng) for x in edec] if edec else None
            d = [dev(x, rng) for x in dec]
            if ed:
                t += ["@D"] + [x for _, y in ed for x in y.split("\n")]
            t += ["@D"] + [x for _, y in d for x in y.split("\n")] + [""] + ["@Q"] + q + ["@E"]
            self.text += t
            self.events.append((early and early[0], gev, [e for e, _ in ed] if ed else None, [e for e, _ in d], 2))

    def add_files(self, p, d, rng, unit):
        ev, tx, de, dx = shipped(p, d, rng, unit)
        self.text += ["@T"] + tx + ["@D"] + dx + ["@Q", "211", "-2212", "9900225", "@E"]
        self.events.append((None, ev, None, de, 1500))

    def write(self, path):
        open(path, "w", encoding="utf8").write("\n".join(self.text) + "\n")

    def trace(self, out, path):
        res = [json.loads(x) for x in open(out).read().splitlines()]
        with open(path, "w") as f:
            def w(x):
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
            for (early, gev, edec, dec, tol), r in zip(self.events, res):
                r = clean(r)
                if early:
                    w({"op": "trial", "reset": True})
                    for e in early:
                        w(e)
                    w({"op": "tried", "res": r["first"][0] if not r.get("crash") else "crash"})
                w({"op": "trial", "reset": True})
                for e in gev:
                    w(e)
                if r.get("crash"):
                    w({"op": "crash", "n": len(dec)})
                    continue
                w(dict({k: r[k] for k in RES if k in r}, op="types", res=r["types"]))
                if r["types"] != "ok" or not dec:
                    continue
                if edec:
                    for e in edec:
                        w(e)
                    w({"op": "again", "res": r["dfirst"][0]})
                for e in dec:
                    w(e)
                w({"op": "decays", "res": r["decays"], "modes": r.get("modes", []), "tol": tol})
        return len(res), len(self.events)
