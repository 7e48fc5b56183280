#!/usr/bin/env python3
"""Builds libsmash (all of /repo/src, with the PYTHIA stand-in of harness/stub) and the
conformance drivers of /verif/harness, offline, into /verif/.build.

Objects are cached by content: an object is reused only if the sha256 of its source, of every
header its compilation read, the list of headers present, and the flags are unchanged.  No
decision depends on time stamps.

usage: build.py [driver ...]      (no argument: every driver)
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
OBJ = os.path.join(B, "obj")
BIN = os.path.join(B, "bin")
GEN = os.path.join(B, "gen")

TP = f"{R}/3rdparty"
CXX, CC = "/usr/bin/g++", "/usr/bin/gcc"
DEFS = ["-DGCC_COMPILER", "-DLITTLE_ENDIAN_ARCHITECTURE", "-DYAML_CPP_STATIC_DEFINE"]
INC = [f"-I{R}/src/include", f"-I{GEN}/include",
       "-isystem", f"{V}/harness/stub", "-isystem", f"{TP}/Cuba-4.2.2",
       "-isystem", f"{TP}/einhard", "-isystem", f"{TP}/yaml-cpp-0.8.0/include",
       "-isystem", "/usr/include/eigen3"]
CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-DNDEBUG", "-fno-math-errno", "-ffp-contract=off", "-fPIC",
            '-DPYTHIA_XML_DIR="none"', "-DPYTHIA_FOUND"]
# Sources of /repo/src that need libraries which are not here, or are not part of libsmash
SKIP = {"rootoutput.cc", "hepmcoutput.cc", "hepmcinterface.cc", "rivetoutput.cc", "tsc.cc", "smash.cc"}

T0 = time.time()
_sha = {}


def sha(path):
    h = _sha.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _sha[path] = h
    return h


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def cstring(line):
    return line.replace("\\", "\\\\").replace('"', '\\"')


def generate():
    version = "SMASH-unknown"
    try:
        cm = open(f"{R}/CMakeLists.txt").read()
        m = re.search(r"project\s*\(\s*SMASH\s+VERSION\s+([0-9.]+)", cm, re.S | re.I)
        if m:
            version = "SMASH-" + m[1]
    except OSError:
        pass
    write_if_changed(f"{GEN}/include/smash/config.h",
                     f'#define SMASH_VERSION "{version}"\n#define CMAKE_SYSTEM "Linux"\n'
                     '#define CMAKE_CXX_COMPILER_ID "GNU"\n#define CMAKE_CXX_COMPILER_VERSION "13"\n'
                     '#define CMAKE_BUILD_TYPE "Release"\n#define BUILD_DATE "verif"\n')
    for name in ("particles.txt", "decaymodes.txt"):
        lines = open(f"{R}/input/{name}", encoding="utf-8").read().split("\n")
        body = "\n".join(f'  "{cstring(l)}\\n"' for l in lines)
        write_if_changed(f"{GEN}/include/{name}.h",
                         f"// generated\nconst char data[] =\n{body};\n")


def tree_key():
    names = sorted(os.listdir(f"{R}/src/include/smash"))
    return hashlib.sha256("\n".join(names).encode()).hexdigest()


class Unit:
    """One object file made from one source, or from a group of sources included into a single
    translation unit (the input keys make every including unit expensive).  A group which does
    not compile as one unit is compiled source by source and merged with `ld -r`."""

    def __init__(self, srcs, cmd, tag, name=None):
        self.srcs = [srcs] if isinstance(srcs, str) else list(srcs)
        self.cmd = cmd
        key = hashlib.sha256(("|".join(self.srcs) + "\0" + tag).encode()).hexdigest()[:16]
        self.base = os.path.join(OBJ, (name or os.path.basename(self.srcs[0])) + "." + key)
        self.obj = self.base + ".o"
        self.man = self.base + ".json"

    def fresh(self, tk):
        try:
            m = json.load(open(self.man))
        except (OSError, ValueError):
            return False
        return (m["cmd"] == self.cmd and m["tree"] == tk and os.path.exists(self.obj)
                and m["obj"] == os.path.getsize(self.obj)
                and all(sha(p) == h for p, h in m["deps"].items()))

    def compile(self, src, obj):
        dep = obj + ".d"
        p = subprocess.run(self.cmd + ["-MD", "-MF", dep, "-o", obj, "-c", src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return f"{src}: {p.stdout[-4000:]}", set()
        text = open(dep).read().replace("\\\n", " ")
        os.remove(dep)
        deps = {os.path.normpath(d) for d in text.split(":", 1)[1].split()}
        return None, {d for d in deps if not d.startswith("/usr/")}

    def build(self, tk):
        t0 = time.time()
        r = self.build_(tk)
        if os.environ.get("VERIF_BUILD_TIMES"):
            print(f"{t0 - T0:6.1f} +{time.time() - t0:6.1f} {os.path.basename(self.base)}", file=sys.stderr)
        return r

    def build_(self, tk):
        if os.path.exists(self.man):
            os.remove(self.man)
        if len(self.srcs) == 1:
            err, deps = self.compile(self.srcs[0], self.obj)
            if err:
                return err
        else:
            unity = self.base + ".cc"
            with open(unity, "w") as f:
                f.write("".join(f'#include "{s}"\n' for s in self.srcs))
            err, deps = self.compile(unity, self.obj)
            deps.discard(os.path.normpath(unity))
            if err:
                deps, parts = set(), []
                parts = [f"{self.base}.{i}.part.o" for i in range(len(self.srcs))]
                with cf.ThreadPoolExecutor(4) as ex:
                    for err, d in ex.map(self.compile, self.srcs, parts):
                        if err:
                            return err
                        deps |= d
                p = subprocess.run(["ld", "-r", "-o", self.obj] + parts, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    return p.stdout[-2000:]
                for part in parts:
                    os.remove(part)
        json.dump({"cmd": self.cmd, "tree": tk, "obj": os.path.getsize(self.obj),
                   "deps": {d: sha(d) for d in deps}}, open(self.man, "w"))
        return None


def cxx_unit(src, extra=(), name=None):
    cmd = [CXX] + DEFS + INC + CXXFLAGS + list(extra)
    return Unit(src, cmd, " ".join(cmd), name)


def third_party():
    units = []
    y = f"{TP}/yaml-cpp-0.8.0"
    ys = [f"{y}/src/{f}" for f in sorted(os.listdir(f"{y}/src")) if f.endswith(".cpp")]
    ycmd = [CXX, "-std=c++17", "-O0", "-w", "-fPIC", "-DYAML_CPP_STATIC_DEFINE", f"-I{y}/include", f"-I{y}/src"]
    for i in range(3):
        units.append(Unit(ys[i::3], ycmd, "yaml", f"yaml{i}"))
    for f in sorted(os.listdir(f"{TP}/einhard")):
        if f.endswith(".cpp") or f.endswith(".cc"):
            units.append(Unit(f"{TP}/einhard/{f}", [CXX, "-std=c++17", "-O0", "-w", "-fPIC", f"-I{TP}/einhard"], "einhard"))
    c = f"{TP}/Cuba-4.2.2/src"
    cuba = [CC, "-O1", "-w", "-fPIC", "-fomit-frame-pointer", "-DHAVE_ALLOCA_H", "-DHAVE_GETLOADAVG", "-DHAVE_SHMGET",
            "-DLITTLE_ENDIAN_ARCHITECTURE", "-DNOUNDERSCORE", "-DREALSIZE=8", f"-I{c}/common", f"-I{TP}/Cuba-4.2.2"]
    for d, f in (("cuhre", "Cuhre.c"), ("suave", "Suave.c"), ("vegas", "Vegas.c"), ("divonne", "Divonne.c")):
        units.append(Unit(f"{c}/{d}/{f}", cuba + [f"-I{c}/{d}"], d))
    for f in ("Global.c", "Data.c"):
        units.append(Unit(f"{c}/common/{f}", cuba + [f"-I{c}/cuhre"], "common"))
    return units


# Sources that are compiled together.  Anything not named here is a unit of its own.
GROUPS = {
    "xs": ["crosssections", "parametrizations"],
    "scatter": ["scatteraction", "scatteractionsfinder", "scatteractionmulti"],
    "collider": ["collidermodus", "bremsstrahlungaction"],
    "nucleus": ["nucleus", "deformednucleus", "customnucleus", "alphaclusterednucleus"],
    "modi": ["boxmodus", "listmodus", "propagation", "configuration", "spheremodus"],
    "output": ["oscaroutput", "binaryoutput", "icoutput", "vtkoutput"],
    "thermo": ["thermodynamicoutput", "thermodynamiclatticeoutput", "logging", "library", "grandcan_thermalizer",
               "thermalizationaction"],
    "photon": ["scatteractionphoton", "crosssectionsphoton", "potentials", "energymomentumtensor"],
    "decay": ["decayactionsfinder", "decayactionsfinderdilepton", "dynamicfluidfinder", "pauliblocking"],
    "light1": ["angles", "chemicalpotential", "clebschgordan", "decayaction", "decayactiondilepton", "decaytype",
               "density", "distributions", "fields"],
    "light2": ["action", "file", "filelock", "fluidizationaction", "formfactors", "fourvector", "fpenvironment", "grid",
               "hadgas_eos", "inputfunctions", "interpolation", "interpolation2D"],
    "light3": ["hypersurfacecrossingfinder", "particledata", "particles", "pdgcode", "processbranch",
               "potential_globals", "quantumnumbers", "quantumsampling", "random", "setup_particles_decaymodes"],
    "light4": ["stringfunctions", "stringify", "stringprocess", "tabulation", "threevector", "wallcrossingaction"],
}


def smash_units():
    have = {f[:-3] for f in os.listdir(f"{R}/src") if f.endswith(".cc") and f not in SKIP}
    units = []
    for g, members in GROUPS.items():
        m = [f for f in members if f in have]
        have -= set(m)
        if m:
            u = cxx_unit([f"{R}/src/{f}.cc" for f in m], (), g)
            u.group = g
            units.append(u)
    for f in sorted(have):
        u = cxx_unit(f"{R}/src/{f}.cc")
        u.group = f
        units.append(u)
    return units


def drivers():
    d = f"{V}/harness"
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".cc"))


def fail(msg):
    print(f"BUILD-ERROR: {msg}", file=sys.stderr)
    sys.exit(3)


def build(which=None):
    for d in (OBJ, BIN, GEN):
        os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    generate()
    tk = tree_key()
    lib = third_party() + smash_units()
    which = drivers() if not which else which
    drv = {}
    for w in which:
        drv[w] = cxx_unit(f"{R}/src/smash.cc") if w == "smash" else cxx_unit(f"{V}/harness/{w}.cc", [f"-I{V}/harness"])
    todo = [u for u in lib + list(drv.values()) if not u.fresh(tk)]
    todo.sort(key=lambda u: -cost(u))
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        errs = [e for e in ex.map(lambda u: u.build(tk), todo) if e]
    if errs:
        fail("\n".join(errs))
    libkey = hashlib.sha256("".join(u.obj + sha_obj(u) for u in lib).encode()).hexdigest()
    so = os.path.join(B, "libsmashv.so")
    stamp = so + ".key"
    if not (os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == libkey):
        run([CXX, "-shared", "-o", so] + [u.obj for u in lib] + ["-lgsl", "-lgslcblas", "-lm", "-lpthread"])
        open(stamp, "w").write(libkey)
    for w, u in drv.items():
        out = os.path.join(BIN, w)
        key = libkey + sha_obj(u)
        if not (os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key):
            run([CXX, "-o", out, u.obj, "-L" + B, "-lsmashv", "-Wl,-rpath," + B, "-lgsl", "-lgslcblas", "-lm", "-lpthread", "-ldl"])
            open(out + ".key", "w").write(key)
    return len(todo)


def sha_obj(u):
    return sha(u.man)


def cost(u):
    s = sum(os.path.getsize(f) for f in u.srcs if os.path.exists(f))
    b = os.path.basename(u.srcs[0])
    heavy = {"experiment.cc": 60, "smash.cc": 50}
    return (heavy.get(b, 0) + 5 * len(u.srcs)) * 10**6 + s + (3 * 10**7 if "/harness/" in u.srcs[0] else 0)


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        fail(" ".join(cmd[:4]) + " ...\n" + p.stdout[-4000:])


if __name__ == "__main__":
    n = build(sys.argv[1:])
    print(f"build: {n} translation units compiled")
