"""C16: particle codes determine quantum numbers consistently."""


def run(c):
    c.build("pdg")
    c.model("PdgMC", c.cfg("p.cfg", open(f"{c.V}/spec/PdgMC.cfg").read().replace("NX = {0, 1}", f"NX = {c.pick('{0}', '{0, 1, 2, 9}')}").replace("NA = 4", f"NA = {c.pick(4, 12)}")))
    files = [c.path(f"p{k}.ndjson") for k in range(c.pick(8, 64))]
    c.par([(lambda f=f, k=k: c.drive("pdg", c.seed * 1000 + k, c.pick(1500, 6000), f, what="particle codes", outputs=[f])) for k, f in enumerate(files)])
    if not c.violations:
        c.trace("PdgTrace", files)
