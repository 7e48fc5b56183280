"""C11: every input file gets the right verdict: valid, deprecated or invalid."""
import hashlib
import json
import os
import re
import runs


def leaves(d, p=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, p + (k,))
        else:
            yield [list(p + (k,)), json.dumps(v)]


def snapshot(d):
    return sorted([f, hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16]] for f in os.listdir(d)) if os.path.isdir(d) else []


def events(d):
    n = 0
    for f in os.listdir(d) if os.path.isdir(d) else ():
        if f.startswith("particle_lists.oscar"):
            n += sum(1 for x in open(os.path.join(d, f)) if x.startswith("# event"))
    return n


BOX = runs.merge(runs.BASE, {"General": {"Modus": "Box", "End_Time": 1.0}, "Modi": runs.BOX, "Output": {"Particles": {"Format": ["Oscar2013"]}}})
COLL = runs.merge(runs.BASE, {"General": {"Modus": "Collider", "End_Time": 1.0}, "Output": {"Particles": {"Format": ["Oscar2013"]}},
                              "Modi": {"Collider": {"Projectile": runs.nucleus(1, 1), "Target": runs.nucleus(1, 1), "E_Kin": 1.2, "Impact": {"Value": 0.5}}}})


def cases(c):
    keys = json.load(open(f"{c.V}/spec/keys.json"))
    removed = [k["labels"] for k in keys if k["state"] == "removed"]
    strings = [k["labels"] for k in keys if k["labels"][:2] == ["Collision_Term", "String_Parameters"] and k["kind"] == "value" and not k["probe"] == ""
               and k["labels"][-1] != "Formation_Time"]  # this one is taken without strings as well

    def nest(labels, v):
        for x in reversed(labels):
            v = {x: v}
        return v
    rng = c.rng
    yield BOX, False
    yield COLL, False
    bad = [nest(l, 1) for l in removed if l[0] != "Output"]
    for k in rng.sample(keys, c.pick(4, 20)):
        l = list(k["labels"])
        how = rng.randrange(4)
        if how == 0:
            l[-1] += "s"
        elif how == 1:
            l = ["Top"] + l
        elif how == 2:
            l[-1] = l[-1].swapcase()
        else:
            l = l[:-1] + ["Whatever"]
        bad.append(nest(l, 1))
    bad += [{"Modi": {"Box": 5}}, {"General": 3}, {"Modi": {"Box": {"Length": {"Deep": 1}}}}]
    for b in bad:
        base = BOX if rng.random() < 0.7 or "Box" in str(b) else COLL
        if "Init_Multiplicities" in str(b) or "Particles" in str(b) or "General" in b and not isinstance(b["General"], dict):
            base = COLL if "Box" in str(b) else BOX
        yield runs.merge(base, b), False
    for l in rng.sample(strings, c.pick(3, 8)):
        d = next(k["def"] for k in keys if k["labels"] == l)
        yield runs.merge(rng.choice([BOX, COLL]), nest(l, float(d) if d not in ("true", "false") else d == "true")), True


def run(c):
    c.build("config", "smash")
    files = [c.path(f"v{k}.ndjson") for k in range(c.pick(6, 48))]

    def prog():
        f = c.path("p.ndjson")
        recs = [None] * 200
        def one(n, conf, foreign):
            out = c.path(f"p{n}/out")
            again = n % 3 == 1
            if again:  # an output directory with a former run, and the request to overwrite it
                if runs.good(c, f"p{n}/first", BOX, outdir=out) is None:
                    return
            before = snapshot(out)
            r = runs.smash(c, f"p{n}", conf, args=("-f",) if again else (), outdir=out)
            named = re.findall(r'Key "([^"]*)"', r["out"] + r["err"])
            # with the request to overwrite, the former events count as gone only if the run got that far
            ev = events(out)
            if again and foreign:
                ev = sum(1 for fn in os.listdir(out) if fn.endswith(".unfinished") for x in open(os.path.join(out, fn)) if x.startswith("# event"))
            recs[n] = {"op": "program", "reset": True, "given": list(leaves(conf)), "foreign": foreign, "rc": r["rc"] if isinstance(r["rc"], int) else 99,
                       "before": before, "after": snapshot(out), "named": named, "events": ev, "wanted": 2}
        c.par([(lambda n=n, a=a: one(n, *a)) for n, a in enumerate(cases(c))], n=4)
        with open(f, "w") as o:
            for r in recs:
                if r:
                    o.write(json.dumps(r, separators=(",", ":")) + "\n")
        return f
    jobs = [(lambda f=f, k=k: c.drive("config", "validate", c.seed * 1000 + k, c.pick(900, 3000), f, c.path(f"d{k}/x"), what="validation", outputs=[f])) for k, f in enumerate(files)]
    pf = c.par([prog] + jobs)[0]
    if not c.violations:
        c.trace("KeysTrace", files + [pf], env={"KEYS": f"{c.V}/spec/keys.json", "ENUMS": f"{c.V}/spec/enums.json"})
