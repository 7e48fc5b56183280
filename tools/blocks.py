"""Readers of output files as sequences of blocks for OutputTrace.tla and Formats.tla."""
import re
import runs
from runs import fx

TICK = 1e-6


def text(path, columns=None):
    """OSCAR2013 / ASCII file -> blocks (in, out, interaction, close)."""
    blocks, cur, head = [], None, []
    for line in open(path, encoding="utf-8", errors="replace"):
        line = line.rstrip("\n")
        if line.startswith("#!") or line.startswith("# Units") or line.startswith("# SMASH"):
            head.append(line)
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) (in|out) (\d+)$", line)
        if m:
            cur = {"b": "p", "kind": m[3], "ev": int(m[1]), "ens": int(m[2]), "n": int(m[4]), "rows": []}
            blocks.append(cur)
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) end 0 impact\s+(-?\d+\.\d+) scattering_projectile_target (yes|no)$", line)
        if m:
            blocks.append({"b": "f", "ev": int(m[1]), "ens": int(m[2]), "impact": float(m[3]), "empty": int(m[4] == "no")})
            cur = None
            continue
        m = re.match(r"# event (-?\d+) ensemble (-?\d+) (start|end)$", line)
        if m:
            blocks.append({"b": "s" if m[3] == "start" else "f", "ev": int(m[1]), "ens": int(m[2]), "rows": []})
            cur = blocks[-1] if m[3] == "start" else None
            continue
        m = re.match(r"# interaction in (\d+) out (\d+) rho\s+(\S+) weight\s+(\S+) partial\s+(\S+) type\s+(\d+)$", line)
        if m:
            cur = {"b": "i", "nin": int(m[1]), "nout": int(m[2]), "rho": float(m[3]), "w": float(m[4]), "pw": float(m[5]),
                   "type": int(m[6]), "rows": []}
            blocks.append(cur)
            continue
        if line.startswith("#") or not line.strip() or cur is None:
            raise runs.Malformed(f"unexpected line {line[:120]!r}")
        cur["rows"].append(line.split())
    return {"head": head, "blocks": blocks}


def times_text(path):
    """Blocks of a particle output in text form as records of OutputTrace."""
    r = []
    for b in text(path)["blocks"]:
        if b["b"] == "p":
            if b["n"] != len(b["rows"]):
                raise runs.Malformed(f"{b['n']} particles announced, {len(b['rows'])} given")
            r.append({"op": "block", "kind": b["kind"], "ev": b["ev"], "ens": b["ens"],
                      "t": sorted({fx(float(x[0]), TICK) for x in b["rows"]})})
        elif b["b"] == "f":
            r.append({"op": "close", "ev": b["ev"], "ens": b["ens"]})
    return r


def times_binary(path, quant, first):
    """The same for a binary particle output; the kind of a block is not written there."""
    r, opened = [], set()
    for b in runs.binary(path, quant)["blocks"]:
        if b["b"] == "p":
            key = (b["ev"], b["ens"])
            kind = "in" if first and key not in opened else "out"
            opened.add(key)
            r.append({"op": "block", "kind": kind, "ev": b["ev"], "ens": b["ens"],
                      "t": sorted({fx(p["t"], TICK) for p in b["parts"]})})
        elif b["b"] == "f":
            r.append({"op": "close", "ev": b["ev"], "ens": b["ens"]})
    return r


def vtk(d, nev, nens, tlist=None):
    """The number of VTK files per event and ensemble."""
    import os
    out = {}
    for f in os.listdir(d):
        m = re.match(r"pos_ev(\d+)_ens(\d+)_tstep(\d+)\.vtk$", f)
        if m:
            out.setdefault((int(m[1]), int(m[2])), []).append(int(m[3]))
    return {k: sorted(v) for k, v in out.items()}
