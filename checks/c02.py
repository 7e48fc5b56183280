"""C02 particle list: storage scheme refines the abstract list (ParticlesMC); recorded histories (ParticlesTrace)."""


def run(c):
    c.build("particles")
    mc = c.cfg("mc.cfg", open("spec/ParticlesMC.cfg").read().replace("MaxId = 4", f"MaxId = {c.pick(3, 4)}"))
    c.model("ParticlesMC", mc)
    files = []
    for k in range(c.pick(4, 16)):
        f = c.path(f"p{k}.ndjson")
        if c.drive("particles", c.seed * 100 + k, c.pick(60, 500), 40, f, outputs=[f]) is not None:
            files.append(f)
    c.trace("ParticlesTrace", files)
