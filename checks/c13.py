"""C13: all output formats describe the same event in their documented grammar."""
import copy
import formats
import runs

ALL = ["Oscar2013", "Oscar1999", "ASCII", "Oscar2013_bin", "Binary"]


def configs(c):
    out = {"Output_Interval": 1.0,
           "Particles": {"Format": ALL + ["VTK"], "Only_Final": "No", "Extended": True, "Quantities": runs.QUANT},
           "Collisions": {"Format": ALL, "Print_Start_End": True, "Extended": True, "Quantities": runs.QUANT}}
    base = runs.merge(runs.BASE, {"Output": out, "General": {"Nevents": 2, "End_Time": 4.0}})
    yield "box", runs.merge(base, {"General": {"Modus": "Box", "Ensembles": 2}, "Modi": runs.BOX}), ("Particles", "Collisions"), 2
    yield "sphere", runs.merge(base, {"General": {"Modus": "Sphere"}, "Modi": runs.SPHERE, "Output": {"Particles": {"Extended": False}, "Collisions": {"Extended": False}}}), ("Particles", "Collisions"), 1
    coll = {"Collider": {"Projectile": runs.nucleus(2, 2), "Target": runs.nucleus(2, 2), "E_Kin": 1.2, "Impact": {"Value": 1.5}}}
    yield "collider", runs.merge(base, {"General": {"Modus": "Collider", "End_Time": 12.0}, "Modi": coll}), ("Particles", "Collisions"), 1
    ic = copy.deepcopy(base)
    ic["Output"] = {"Initial_Conditions": {"Format": ALL + ["For_vHLLE"], "Extended": True, "Quantities": runs.QUANT}}
    coll = {"Collider": {"Projectile": runs.nucleus(5, 5), "Target": runs.nucleus(5, 5), "Sqrtsnn": 4.0, "Impact": {"Value": 0.5},
                         "Initial_Conditions": {"Type": "Constant_Tau", "Proper_Time": 1.0}}}
    yield "ic", runs.merge(ic, {"General": {"Modus": "Collider", "End_Time": 12.0}, "Modi": coll}), ("Initial_Conditions",), 1


def run(c):
    c.build("formats", "smash")
    c.model("FormatsMC", c.cfg("f.cfg", open(f"{c.V}/spec/FormatsMC.cfg").read().replace("NInner = 2", f"NInner = {c.pick(2, 3)}")))
    files = []

    def unit(k):
        d, log, f = c.path(f"u{k}/d"), c.path(f"u{k}/log"), c.path(f"u{k}.ndjson")
        if c.drive("formats", c.seed * 1000 + k, c.pick(30, 60), d, log, what="outputs", outputs=[log]) is None:
            return
        formats.trace(log, d, f, c.violation)
        files.append(f)

    def real(name, conf, contents, nens):
        r = runs.good(c, "r-" + name, conf)
        if r:
            f = c.path(f"r-{name}.ndjson")
            formats.run_trace(r["dir"], contents, f, lambda t, d: c.violation(f"run {name}: {t}", {"config": conf, **d}), nens, runs.QUANT,
                              conf["Output"][contents[0]]["Extended"])
            files.append(f)
    c.par([(lambda k=k: unit(k)) for k in range(c.pick(8, 64))] + [(lambda a=a: real(*a)) for a in configs(c)])
    if not c.violations:
        c.trace("FormatsTrace", sorted(files))
