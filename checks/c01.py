"""C01 clocks: exhaustive model (ClockMC) and recorded operation sequences (ClockTrace)."""


def run(c):
    c.build("clock")
    c.model("ClockMC")
    files = []
    for k in range(c.pick(4, 16)):
        f = c.path(f"clock{k}.ndjson")
        if c.drive("clock", c.seed * 100 + k, c.pick(250, 2500), 30, f, outputs=[f]) is not None:
            files.append(f)
    c.trace("ClockTrace", files)
