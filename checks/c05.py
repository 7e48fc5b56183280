"""C05: conservation and mass shell, in chains of real interactions and in complete events."""
import family
import c03


def run(c):
    c.build("smash", "typetable", "actions")
    c03.record(c, "conservation", c.pick(20, 200))
    family.validate(c, "conservation", seeds=range(c.pick(2, 24)))
