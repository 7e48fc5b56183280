"""C17: reaction channels respect charges and thresholds, add up and follow the switches."""
import runs

H1 = "h₁(1170) 1.170 0.360 + 10223\n"
MORE = ("N(1520) 1.515 0.110 - 1214 2124\nΔ(1620) 1.610 0.130 - 1112 1212 2122 2222\nΛ(1405) 1.405 0.0505 - 13122\n"
        "Σ(1385) 1.385 0.036 + 3114 3214 3224\nΞ(1530) 1.533 0.009 + 3314 3324\nK₀* 1.425 0.270 + 10311 10321\nD 1.868 0.0 - 411 421\n")
HDEC = "\nh₁(1170)\n1. 0 π ρ\n\n"
DEC = ("N(1520)\n0.6 2 N π\n0.4 0 Δ π\n\nΔ(1620)\n0.3 0 N π\n0.7 2 Δ π\n\nΛ(1405)\n1. 0 Σ π\n\nΣ(1385)\n0.87 1 Λ π\n0.13 1 Σ π\n\n"
       "Ξ(1530)\n1. 1 Ξ π\n\nK₀*\n1. 0 K π\n\n")
NUCLEI = "t 2.8089 0 + 1000010030\nHe3 2.8084 0 + 1000020030\nH3L 2.9912 0 + 1010010030\n"


def lists(c):
    p, d = runs.lists()
    p += H1
    L = {"small": (p, d + HDEC), "rich": (p + MORE, d + HDEC + DEC),
         # light nuclei in direct reactions only
         "nuclei": ("".join(l + "\n" for l in p.splitlines() if not l.startswith("d'")) + NUCLEI, d.split("d'\n")[0] + HDEC)}
    for n, (a, b) in L.items():
        for f, t in (("p", a), ("d", b)):
            with open(c.path(f"{n}.{f}"), "w") as g:
                g.write(t)
    return sorted(L)


def run(c):
    c.model("ChannelsMC", c.cfg("ch.cfg", open(f"{c.V}/spec/ChannelsMC.cfg").read().replace("Small = TRUE", f"Small = {c.pick('TRUE', 'FALSE')}")), workers=4)
    c.build("channels")
    files = []

    def one(k, name):
        f = c.path(f"ch{k}.ndjson")
        if c.drive("channels", c.path(f"{name}.p"), c.path(f"{name}.d"), c.seed * 100 + k, c.pick(2500, 25000), f, outputs=[f], what="reaction channels") is not None:
            files.append(f)
    names = lists(c)
    c.par([(one, k, n) for k, n in enumerate(names * 3)])
    c.trace("ChannelsTrace", sorted(files))
