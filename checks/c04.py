"""C04: complete recorded events of the real program against Ledger.tla (and the design model)."""
import family
import vf


def run(c):
    c.build("smash", "typetable")
    c.model("EventLoop", c.cfg("el.cfg", open(f"{vf.V}/spec/EventLoop.cfg").read().replace("TEnd = 2", f"TEnd = {c.pick(1, 2)}")))
    family.validate(c, "history", seeds=range(c.pick(2, 24)))
