"""C10: the configuration tree hands out each given value once and loses none."""


def run(c):
    c.build("config")
    c.model("ConfigMC", c.cfg("c.cfg", open(f"{c.V}/spec/ConfigMC.cfg").read().replace("MaxTok = 3", f"MaxTok = {c.pick(3, 5)}")))
    files = [c.path(f"o{k}.ndjson") for k in range(c.pick(8, 64))]
    c.par([(lambda f=f, k=k: c.drive("config", "ops", c.seed * 1000 + k, c.pick(110, 250), c.pick(50, 120), f, c.path(f"d{k}/x"), what="configuration operations",
                                     outputs=[f])) for k, f in enumerate(files)])
    kf, ef = c.path("keys.ndjson"), c.path("enums.ndjson")
    c.drive("config", "keys", kf, what="keys", outputs=[kf])
    c.drive("config", "enums", ef, c.seed, what="enumerations", outputs=[ef])
    if c.violations:
        return
    open(kf, "a").write('{"op":"keys"}\n')
    c.trace("ConfigTrace", files)
    c.trace("KeysTrace", [kf, ef], env={"KEYS": f"{c.V}/spec/keys.json", "ENUMS": f"{c.V}/spec/enums.json"})
