"""Processes whose file operations are recorded, scheduled or interrupted by harness/fsshim.c."""
import json
import os
import re
import select
import shutil
import signal
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def shim(c):
    so = c.path("fsshim.so")
    if not os.path.exists(so):
        rc, out, err = c.run(["gcc", "-O1", "-shared", "-fPIC", "-U_FORTIFY_SOURCE", f"{V}/harness/fsshim.c", "-o", so, "-ldl"])
        assert rc == 0, err
    return so


def environment(so, dirs, log, tag, kill=None, sched=None):
    e = dict(os.environ)
    e.update({"LD_PRELOAD": so, "VERIF_FSDIR": ":".join(dirs), "VERIF_FSLOG": log, "VERIF_FSTAG": str(tag)})
    if kill:
        e["VERIF_FSKILL"] = str(kill)
    if sched:
        e["VERIF_FSSCHED"] = "%d,%d" % sched
    return e


def run(cmd, env, cwd, timeout=60, limit=None):
    """Runs a process; returns (status, stderr); limit: no file can get longer than that."""
    if limit is not None:
        cmd = ["sh", "-c", f'trap "" XFSZ; ulimit -c 0; exec prlimit --fsize={limit} "$@"', "sh"] + list(cmd)
        # the log must not be subject to the limit: it goes through a pipe
        log = env["VERIF_FSLOG"]
        rd, wr = os.pipe()
        env = {**env, "VERIF_FSLOG": f"fd:{wr}"}
    else:
        cmd = ["prlimit", f"--as={6 << 30}"] + list(cmd)
    try:
        r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout,
                           pass_fds=(wr,) if limit is not None else ())
        return r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stderr or b"").decode(errors="replace")
    finally:
        if limit is not None:
            os.close(wr)
            with open(log, "ab") as f:
                while b := os.read(rd, 65536):
                    f.write(b)
            os.close(rd)


def interleave(procs, choose, timeout=60):
    """procs: list of (cmd, env function (fds) -> environment, cwd).  Each process stops before each of its metadata
    operations; choose(enabled) names the one that goes on.  Returns the exit statuses; done(k, rc) is not called
    before process k has ended, so that the order of the log is the order of the operations."""
    ps, wake, ready, rcs, errs = [], [], [], [None] * len(procs), [""] * len(procs)
    ends = []
    try:
        for cmd, envf, cwd in procs:
            r1, w1 = os.pipe()   # controller -> process
            r2, w2 = os.pipe()   # process -> controller
            ends += [r2, w1]
            p = subprocess.Popen(cmd, env=envf((r1, w2)), cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, pass_fds=(r1, w2))
            os.close(r1)
            os.close(w2)
            ps.append(p)
            wake.append(w1)
            ready.append(r2)
        waiting = [False] * len(ps)

        def settle(k):
            # until process k waits again or has ended
            s, _, _ = select.select([ready[k]], [], [], timeout)
            if not s:
                raise TimeoutError(k)
            if os.read(ready[k], 1):
                waiting[k] = True
            else:
                errs[k] = ps[k].stderr.read().decode(errors="replace")
                rcs[k] = ps[k].wait(timeout)
        for k in range(len(ps)):
            settle(k)
        yield_order = []
        while any(waiting):
            k = choose([j for j in range(len(ps)) if waiting[j]])
            waiting[k] = False
            yield_order.append(k)
            os.write(wake[k], b"g")
            settle(k)
        return rcs, errs, yield_order
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
            p.stderr.close()
        for fd in ends:
            os.close(fd)


PIC = re.compile(r"(\.vtk|_\d+\.(dat|bin))$")


def split(name, lock="smash.lock"):
    t = name.endswith(".unfinished")
    b = name[:-len(".unfinished")] if t else name
    kind = "lock" if b == lock else "config" if b == "config.yaml" else "pic" if PIC.search(b) else "res"
    return b, t, kind


def records(log, lock="smash.lock"):
    """The operations of a log as events of the specification."""
    r = []
    if not os.path.exists(log):
        return r
    for l in open(log):
        x = json.loads(l)
        b, t, kind = split(x["f"], lock)
        e = {"op": x["op"], "p": x["p"], "f": b, "t": t, "kind": kind, "mode": x["mode"], "ok": x["ok"], "d": x["d"]}
        if x["op"] == "rename":
            e["to"], e["tot"], _ = split(x["mode"], lock)
            e["mode"] = ""
        r.append(e)
    return r
