"""Runs one simulated execution: writes the plan, starts the host, reads the result."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

SCRATCH = None


class InfraError(Exception):
    pass


def scratch_root():
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.environ.get("TSIM_NOSHM") is None else "/tmp"
        SCRATCH = tempfile.mkdtemp(prefix="tsim.", dir=base)
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


def newdir():
    return tempfile.mkdtemp(dir=scratch_root())


def plan_text(plan, cwd, out):
    """plan: dict(prog, ranks, seed, args, pol{}, io[], alloc[], clockjump[], skew[], ...)"""
    L = ["prog " + plan["prog"], "cwd " + cwd, "out " + out, "ranks %d" % plan.get("ranks", 1), "seed %d" % plan.get("seed", 1)]
    for a in plan["args"]:
        L.append("arg " + str(a))
    for k, v in sorted(plan.get("pol", {}).items()):
        L.append("pol %s %r" % (k, float(v)))
    for x in plan.get("io", []):
        L.append("io " + x)
    for k in ("alloc", "clockjump", "killmpi", "skew", "pert"):
        for x in plan.get(k, []):
            L.append("%s %s" % (k, x))
    for k in ("fill", "guard", "hook", "disk", "epoch", "maxcalls", "wall", "trace"):
        if k in plan:
            L.append("%s %s" % (k, plan[k]))
    for k in ("explicit", "record", "iolog"):
        if plan.get(k):
            L.append(k)
    return "\n".join(L) + "\n"


def run(host, plan, cwd):
    d = newdir()
    pf = os.path.join(d, "plan"); out = os.path.join(d, "res")
    with open(pf, "w") as f:
        f.write(plan_text(plan, cwd, out))
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "LANG": "C", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "HOME": "/nonexistent"}
    if os.environ.get("TSIM_BT") or plan.get("guard"):
        env["TSIM_BT"] = "1"
    if os.environ.get("TSIM_DUMP"):
        env["TSIM_DUMP"] = "1"
    r = subprocess.run([host, pf], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if not os.path.exists(out):
        raise InfraError("simulator produced no result (rc %d): %s" % (r.returncode, r.stderr.decode("utf8", "replace")[-2000:]))
    with open(out) as f:
        res = json.load(f)
    res["stderr"] = r.stderr.decode("utf8", "replace")[-4000:]
    if os.environ.get("TSIM_BT"): sys.stderr.write(res["stderr"])
    shutil.rmtree(d, ignore_errors=True)
    return res


def stdout_of(res, rank=None):
    return "".join(s for r, s in res["out"] if rank is None or r == rank)


def tree(d):
    """{relative path: sha1} of all files below d"""
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hashlib.sha1(h.read()).hexdigest()
    return out
