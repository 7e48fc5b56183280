"""A family of runs of the real program whose complete output is validated against Ledger.tla."""
import os
import runs
from runs import BASE, BOX, SPHERE, FULLOUT, merge, nucleus


def collider(sqrts=None, pr=(6, 6), ta=(6, 6), **k):
    m = {"Projectile": nucleus(*pr), "Target": nucleus(*ta), "Impact": {"Max": 3.0}, "Sqrtsnn": sqrts or 3.2}
    return {"Collider": merge(m, k)}


def family(seed):
    """name -> (configuration, box length, criterion, with which What it can be checked)"""
    F = {}

    def add(name, modus, modi, box=0.0, crit="Geometric", **g):
        conf = merge(merge(BASE, {"General": {"Modus": modus, "Randomseed": seed * 7 + len(F)}, "Modi": modi, "Output": FULLOUT}), g)
        if crit != "Covariant":
            conf = merge(conf, {"Collision_Term": {"Collision_Criterion": crit}})
        if crit == "Stochastic":
            del conf["Collision_Term"]["Maximum_Cross_Section"]
            conf["Collision_Term"]["Fixed_Min_Cell_Length"] = 1.3
        F[name] = (conf, box, crit)
    FD = {"Force_Decays_At_End": True}
    add("box", "Box", BOX, 6.0, General={"Nevents": 2}, Collision_Term=FD)
    add("box_covariant", "Box", BOX, 6.0, crit="Covariant", Collision_Term={"Force_Decays_At_End": False})
    add("box_nogrid", "Box", BOX, 6.0, General={"Use_Grid": False, "Delta_Time": 0.2, "Nevents": 2}, Collision_Term=FD)
    add("box_steps", "Box", merge(BOX, {"Box": {"Length": 5.0}}), 5.0, General={"Delta_Time": 0.037, "End_Time": 3.0},
        Output={"Output_Interval": 0.3})
    add("box_stochastic", "Box", BOX, 6.0, crit="Stochastic", General={"Delta_Time": 0.05}, Collision_Term=FD)
    add("box_multi", "Box", {"Box": {"Length": 5.0, "Temperature": 0.2, "Initial_Condition": "peaked momenta", "Start_Time": 0.0,
                                     "Init_Multiplicities": {"211": 30, "-211": 30, "111": 30, "221": 10, "2212": 12, "2112": 12,
                                                             "1000010020": 5}}}, 5.0, crit="Stochastic",
        General={"Delta_Time": 0.1, "End_Time": 2.0},
        Collision_Term={"Multi_Particle_Reactions": ["Meson_3to1", "Deuteron_3to2"], "Force_Decays_At_End": True,
                        "Only_Warn_For_High_Probability": True,
                        "Included_2to2": ["Elastic", "NN_to_NR", "NN_to_DR", "PiDeuteron_to_NN"]})
    add("box_ensembles", "Box", BOX, 6.0, General={"Ensembles": 3, "End_Time": 3.0, "Nevents": 2}, Collision_Term=FD)
    add("sphere", "Sphere", SPHERE, General={"Nevents": 2, "End_Time": 10.0}, Collision_Term=FD)
    add("sphere_none", "Sphere", SPHERE, General={"Time_Step_Mode": "None", "End_Time": 12.0, "Nevents": 2}, Collision_Term=FD)
    del F["sphere_none"][0]["General"]["Delta_Time"]
    add("sphere_elastic", "Sphere", SPHERE, General={"Nevents": 2},
        Collision_Term={"Two_to_One": False, "Included_2to2": ["Elastic"], "Elastic_Cross_Section": 30.0, "No_Collisions": False})
    add("nn", "Collider", collider(3.5, (1, 0), (1, 0), Impact={"Max": 0.5}), General={"Nevents": 10, "End_Time": 20.0}, Collision_Term=FD,
        Output={"Output_Interval": 4.0})
    add("cc", "Collider", collider(3.2), General={"End_Time": 15.0, "Nevents": 1}, Collision_Term=FD, Output={"Output_Interval": 4.0})
    add("cc_ens", "Collider", collider(2.9, (4, 4), (3, 4), Fermi_Motion="on"), General={"End_Time": 12.0, "Ensembles": 2},
        Output={"Output_Interval": 3.0})
    return F


def thermalized(seed):
    """A dense box whose content is replaced by a thermal sample again and again."""
    alg = ["biased BF", "unbiased BF", "mode sampling"][seed % 3]
    conf = merge(BASE, {"General": {"Modus": "Box", "Randomseed": seed, "Delta_Time": 0.5, "End_Time": 4.0, "Ensembles": 1 + seed % 2},
                        "Modi": {"Box": {"Length": 5.0, "Temperature": 0.2, "Initial_Condition": "peaked momenta", "Start_Time": 0.0,
                                         "Init_Multiplicities": {"211": 40, "-211": 40, "111": 40, "2212": 12, "2112": 12, "321": 6, "-321": 6}}},
                        "Forced_Thermalization": {"Cell_Number": [3, 2, 4], "Critical_Edens": 0.8, "Start_Time": 1.0, "Timestep": 1.0, "Algorithm": alg},
                        "Output": FULLOUT})
    return conf, 5.0, "Geometric"


def validate(c, what, names=None, seeds=(0,)):
    """Runs the family and validates every run; returns counts of interactions by kind."""
    ty = runs.types(c)
    counts = {}
    jobs = []
    eos = c.path("eos/hadgas_eos.dat")

    def hot():
        # the first run tabulates the equation of state (slow), the others find it
        first = merge(thermalized(0)[0], {"General": {"End_Time": 0.5}})
        if runs.good(c, "eos", first, timeout=700) is None:
            return []
        out = []
        for k in range(max(3, len(seeds))):
            name = f"box_thermalized_{k}"
            os.link(eos, c.path(f"{name}/hadgas_eos.dat"))
            out.append(one(name, thermalized(c.seed * 132 + k)))
        return out
    for s in seeds:
        for name, f in family(c.seed * 131 + s * 17).items():
            if names is None or name in names:
                jobs.append((f"{name}_{s}", f))

    def one(name, f):
        conf, box, crit = f
        r = runs.good(c, name, conf, lists="nod" if name.startswith("box_multi") else True)
        if r is None:
            return None
        out = c.path(f"{name}.ndjson")
        try:
            recs = runs.ledger(c, r, conf, out, ty, box=box, crit=crit)
        except (runs.Malformed, OSError) as x:
            c.violation(f"run {name}: output is not well formed: {x}", {"config": conf})
            return None
        for x in recs:
            if x["op"] == "int":
                k = f"{name.rsplit('_', 1)[0]}:{x['kind']}"
                counts[k] = counts.get(k, 0) + 1
        runs.cleanup(r)
        return out
    done = c.par(([(hot,)] if names is None else []) + [(one, n, f) for n, f in jobs])
    files = [f for f in (done[0] if names is None else []) + done[names is None:] if f]
    c.trace("Ledger", files, cfg=f"Ledger_{what}.cfg")
    c.extra["interactions_by_run_and_kind"] = counts
    return counts
