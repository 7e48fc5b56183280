"""C03: interactions performed on the real particle list against Interactions.tla."""


import vf


def record(c, what, num):
    files = []

    def one(k):
        f = c.path(f"a{k}.ndjson")
        if c.drive("actions", c.seed * 100 + k, num, 40, f, outputs=[f], what="chain of interactions") is not None:
            files.append(f)
    c.par([(one, k) for k in range(8)])
    c.trace("InteractionsTrace", sorted(files), cfg=f"InteractionsTrace_{what}.cfg")
    kinds = {}
    import json
    for f in files:
        for l in open(f):
            if l.startswith('{"op":"perform","res":"ok"'):
                e = json.loads(l[:60].split(',"t"')[0] + "}")
                kinds[e["kind"]] = kinds.get(e["kind"], 0) + 1
    c.extra["interactions_by_kind"] = kinds


def run(c):
    c.build("actions")
    c.model("EventLoop", c.cfg("el.cfg", open(f"{vf.V}/spec/EventLoop.cfg").read().replace("TEnd = 2", f"TEnd = {c.pick(1, 2)}")))
    record(c, "identity", c.pick(25, 250))
