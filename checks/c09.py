"""C09: lattice cells tile the volume and visits touch exactly the right cells."""


def run(c):
    c.build("lattice")
    c.model("LatticeMC", c.cfg("l.cfg", open(f"{c.V}/spec/LatticeMC.cfg").read().replace("C = {2, 4}", f"C = {c.pick('{2}', '{2, 4}')}")))
    files = []
    for k in range(c.pick(8, 48)):
        f = c.path(f"l{k}.ndjson")
        files.append(f)
    c.par([(lambda f=f, k=k: c.drive("lattice", c.seed * 1000 + k, c.pick(40, 90), c.pick(45, 80), f, what="lattice", outputs=[f])) for k, f in enumerate(files)])
    if not c.violations:
        c.trace("LatticeTrace", files)
