"""C15: particle and decay mode lists are expanded and checked completely."""
import random

import lists
import vf


def run(c):
    c.build("lists")
    mc = open(f"{c.V}/spec/ListsMC.cfg").read()
    c.model("ListsMC", c.cfg("l.cfg", mc.replace("NT = 3", f"NT = {c.pick(3, 5)}").replace("ND = 3", f"ND = {c.pick(3, 4)}")))
    inp = f"{vf.R}/input"
    files = []

    def job(k, fill):
        r = random.Random(c.seed * 100003 + k)
        b = lists.Batch()
        fill(b, r)
        b.write(c.path(f"l{k}.in"))
        if c.drive("lists", c.path(f"l{k}.in"), c.path(f"l{k}.out"), what="particle and decay mode lists") is None:
            return
        b.trace(c.path(f"l{k}.out"), c.path(f"l{k}.ndjson"))
        files.append(c.path(f"l{k}.ndjson"))

    def randoms(b, r):
        for _ in range(c.pick(80, 700)):
            b.add(r)

    def given(p, d):
        return lambda b, r: b.add_files(f"{inp}/{p}", f"{inp}/{d}", r, 10000)
    jobs = [given("particles.txt", "decaymodes.txt"), given("light_nuclei/particles.txt", "light_nuclei/decaymodes.txt"),
            given("box/particles.txt", "box/decaymodes.txt"), given("photons/particles.txt", "photons/decaymodes.txt"),
            given("particles.txt", "dileptons/decaymodes.txt"), given("particles.txt", "multi_particle_box/decaymodes.txt")]
    jobs += [randoms] * c.pick(8, 32)
    c.par([(job, k, f) for k, f in enumerate(jobs)])
    if not c.violations:
        c.trace("ListsTrace", sorted(files))
