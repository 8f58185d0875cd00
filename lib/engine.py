"""Common engine of all checks: seeded case generation, simulated executions,
violations minimised to a replay file, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

import build, sim, work

VERIF = build.VERIF
TERMINAL = ("ok", "exit", "abort", "signal", "killed", "mpierr")


class Problem:
    """sig: stable class of the violation (used for matching known findings and while minimising); msg: what was seen"""
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg

    def __repr__(self):
        return "%s: %s" % (self.sig, self.msg)


# ------------------------------------------------------------------ results --
_TIMELINE = re.compile(r"^(Time \[|.*\bseconds\b)")


def diag(res):
    """printed diagnostics by rank, without measured times"""
    out = {}
    for r in sorted(set(r for r, _ in res["out"])):
        out[r] = [l for l in sim.stdout_of(res, r).split("\n") if not l.startswith("Time [") and not l.startswith("  --")]
    return out


def text(res):
    return sim.stdout_of(res) + "\n" + res.get("stderr", "")


def exceptions(res):
    return [l for l in text(res).split("\n") if "EXCEPTION" in l]


_ERR = re.compile(r"EXCEPTION|ERROR|[Ee]rror[ :]|[Cc]annot|[Ff]ail|[Uu]nable|terminate called|No space|refused")


def reported(res, base=None):
    """did the run tell its user that something went wrong?"""
    if res["status"] != "ok" or res["code"] != 0:
        return True
    t = text(res)
    if "EXCEPTION" in t or "terminate called" in t:
        return True
    known = set(text(base).split("\n")) if base is not None else set()
    return any(_ERR.search(l) for l in t.split("\n") if l not in known)


def refused(res):
    """the run was refused or ended with an error of its own (not a hang, crash or misuse of MPI)"""
    return bool(exceptions(res)) and res["status"] in ("ok", "exit", "abort")


def brief(res):
    s = "%s code %s" % (res["status"], res["code"])
    if res.get("detail"):
        s += " (%s)" % res["detail"][:200]
    e = exceptions(res)
    if e:
        s += " [%s]" % e[0].strip()[:160]
    return s


def hang(res):
    return res["status"] in ("deadlock", "steplimit", "walltimeout")


def basic(res, where, expect_ok=True):
    """problems of a run that met no fault"""
    p = []
    if hang(res):
        p.append(Problem("hang", "%s: %s; %s" % (where, brief(res), "; ".join(res["blocked"])[:300])))
    elif res["status"] == "signal":
        p.append(Problem("crash", "%s: %s" % (where, brief(res))))
    elif res["status"] == "mpierr":
        p.append(Problem("mpi-misuse", "%s: %s" % (where, brief(res))))
    elif expect_ok and (res["status"] != "ok" or exceptions(res)):
        p.append(Problem("unexpected-end", "%s: %s" % (where, brief(res))))
    if res["viol"] and not exceptions(res):
        p.append(Problem("mpi:" + res["viol"][0].split(":")[0].split(" ")[0], "%s: %s" % (where, res["viol"][0][:300])))
    return p


def first_diff(a, b, what=("first", "second")):
    """difference of two trees {path: sha1}"""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k not in b:
                return "%s missing in %s" % (k, what[1])
            if k not in a:
                return "%s missing in %s" % (k, what[0])
            return "%s differs" % k
    return None


def diag_diff(a, b):
    for r in sorted(set(a) | set(b)):
        x, y = a.get(r, []), b.get(r, [])
        if x != y:
            for p, q in zip(x, y):
                if p != q:
                    return "rank %d prints %r / %r" % (r, p[:120], q[:120])
            return "rank %d prints %d / %d lines" % (r, len(x), len(y))
    return None


# ------------------------------------------------------------------ context --
class Run:
    """one execution, with its result and its working directory"""
    def __init__(self, res, d):
        self.res, self.dir = res, d
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = sim.tree(self.dir)
        return self._tree

    def path(self, p):
        return os.path.join(self.dir, p)

    def drop(self):
        self.tree
        shutil.rmtree(self.dir, ignore_errors=True)


class Ctx:
    def __init__(self, host, progs, seed, tier):
        self.host, self.progs, self.seed, self.tier = host, progs, seed, tier
        self.lock = threading.Lock()
        self.st = {"runs": 0, "vtime_ns": 0, "msgs": 0, "colls": 0, "io_ops": 0, "rndv": 0, "steps": 0}
        self.faults, self.perts, self.statuses = {}, {}, {}
        self.orders, self.plans = set(), set()
        self.progs_used = {}
        self._base = {}
        self.extra = {}

    def count(self, key, n=1):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def note_max(self, key, v):
        with self.lock:
            self.extra[key] = max(self.extra.get(key, 0), v)

    def run(self, prog, ranks, args, case=None, name=None, d=None, **plan):
        """case with name: the perturbation of the case applies to this run (by policy, or by explicit list)"""
        own = d is None
        if own:
            d = sim.newdir()
        pl = dict(prog=self.progs[prog], ranks=ranks, seed=1, args=[str(a) for a in args], maxcalls=3000000 * max(1, ranks // 6), wall=60 * max(1, ranks // 12))
        if case is not None and name is not None:
            s = case.get("sched", {})
            if s.get("mode") == "pol":
                pl["pol"] = s["pol"]; pl["seed"] = s["seed"]
                if case.get("_record") is not None:
                    pl["record"] = 1
            elif s.get("mode") == "explicit":
                pl["explicit"] = 1; pl["pol"] = s.get("pol", {}); pl["seed"] = s["seed"]
                pl["pert"] = s["pert"].get(name, [])
        pl.update(plan)
        res = sim.run(self.host, pl, d)
        if pl.get("record"):
            case["_record"][name] = res.pop("rec", [])
        with self.lock:
            st = self.st
            st["runs"] += 1
            for k in ("vtime_ns", "msgs", "colls", "io_ops", "rndv"):
                st[k] += res[k]
            for k, v in res["faults"].items():
                self.faults[k] = self.faults.get(k, 0) + v
            for k, v in res["perts"].items():
                self.perts[k] = self.perts.get(k, 0) + v
            self.statuses[res["status"]] = self.statuses.get(res["status"], 0) + 1
            self.progs_used[prog] = self.progs_used.get(prog, 0) + 1
            h = hashlib.sha1(json.dumps([prog, ranks, pl["args"]]).encode()).hexdigest()[:8]
            if ranks > 1:
                self.orders.add((h, res["order"]))
            self.plans.add((h, res["hash"]))
        return Run(res, d)

    def base(self, prog, ranks, args, **plan):
        """undisturbed execution, computed once per check run and shared by all cases; its directory must not be changed"""
        key = json.dumps([prog, ranks, [str(a) for a in args], sorted(plan.items())])
        with self.lock:
            e = self._base.get(key)
            if e is None:
                e = self._base[key] = [threading.Lock(), None]
        with e[0]:
            if e[1] is None:
                e[1] = self.run(prog, ranks, args, **plan)
                e[1].tree
        return e[1]


def linkdir(src, dst):
    """copies the files of a directory tree (hard links are enough: the programs replace or truncate, so copy)"""
    shutil.copytree(src, dst, dirs_exist_ok=True)


# ----------------------------------------------------------------- schedules --
def policy(rng, ranks, kind=None, redperm=False):
    """a random adversarial message and scheduling policy (swarm: a random subset of knobs at random strength)"""
    def lg(a, b):
        import math
        return round(math.exp(rng.uniform(math.log(a), math.log(b))), 4)
    kind = kind or rng.choice(["swarm"] * 5 + ["wild", "sync", "slowrank", "tail", "none"])
    if kind == "none" or (ranks == 1 and kind != "io"):
        return {}
    if kind == "wild":
        return dict(lat_p=.5, lat_max=30000, lat_tail_p=.02, lat_tail=2000000, slow_p=.1, slow_f=100000, stall_p=.05, stall_max=50000, rndv_p=.6,
                    xfer_p=.3, xfer_max=20000, ack_p=.3, ack_max=100000, coll_p=.3, coll_max=100000, early_p=.5, redperm_p=.5 if redperm else 0, iostall_p=.1, iostall_max=1000000)
    if kind == "sync":
        return dict(rndv_p=1.0, lat_p=rng.choice([0, .3, .9]), lat_max=lg(100, 1e6), ack_p=rng.choice([0, .5, 1]), ack_max=lg(100, 1e6), early_p=rng.choice([0, 1]))
    if kind == "slowrank":
        return dict(slowrank_p=.4, slowrank=lg(3, 1000), lat_p=.2, lat_max=lg(100, 1e5), rndv_p=rng.choice([0, .5, 1]), early_p=.5)
    if kind == "tail":
        return dict(lat_p=.1, lat_max=1000, lat_tail_p=lg(.005, .2), lat_tail=lg(1e5, 1e8), stall_p=.02, stall_max=lg(1e4, 1e7), rndv_p=rng.choice([0, .2]))
    p = {}
    if rng.random() < .8:
        p["lat_p"] = rng.choice([.05, .3, .9]); p["lat_max"] = lg(100, 1e6)
    if rng.random() < .3:
        p["lat_tail_p"] = lg(.002, .1); p["lat_tail"] = lg(1e5, 1e7)
    if rng.random() < .3:
        p["slow_p"] = rng.choice([.1, .4]); p["slow_f"] = lg(1e3, 1e6)
    if rng.random() < .4:
        p["stall_p"] = lg(.01, .3); p["stall_max"] = lg(1e3, 1e6)
    if rng.random() < .7:
        p["rndv_p"] = rng.choice([.1, .5, 1.0])
    if rng.random() < .6:
        p["xfer_p"] = rng.choice([.2, .9]); p["xfer_max"] = lg(100, 1e6)
    if rng.random() < .6:
        p["ack_p"] = rng.choice([.2, .9]); p["ack_max"] = lg(100, 1e6)
    if rng.random() < .5:
        p["coll_p"] = rng.choice([.2, .9]); p["coll_max"] = lg(100, 1e6)
    if rng.random() < .5:
        p["early_p"] = rng.choice([.3, 1.0])
    if redperm and rng.random() < .4:
        p["redperm_p"] = 1.0
    if rng.random() < .3:
        p["iostall_p"] = .2; p["iostall_max"] = lg(1e4, 1e7)
    if rng.random() < .2:
        p["starve_p"] = .1; p["starve_max"] = lg(1e4, 1e7)
    return p


def sched(rng, ranks, kind=None, redperm=False):
    return {"mode": "pol", "pol": policy(rng, ranks, kind, redperm), "seed": rng.randrange(1, 1 << 40)}


# -------------------------------------------------------------------- known --
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ----------------------------------------------------------------- checking --
class Check:
    """A property's check. Subclasses give:
       prop, title, level, quick (number of cases), progs (None: all)
       gen(rng, i, ctx) -> case (JSON)        evaluate(case, ctx) -> [Problem]
       smaller(case) -> iterable of simpler cases   rule, assumptions"""
    progs = None
    build_flags = ()
    quick = 200
    assumptions = []
    level = "exploration"

    def smaller(self, case):
        return []

    def nontrivial(self, case):
        return True


def clean(case):
    return {k: v for k, v in case.items() if not k.startswith("_")}


def evaluate(check, case, ctx):
    case = json.loads(json.dumps(clean(case)))
    return check.evaluate(case, ctx)


def minimise(check, case, sig, ctx, budget):
    """greedy reduction of the schedule, the faults and the workload while the same violation stays"""
    t0 = time.time(); tried = [0]

    def still(c):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        try:
            return any(p.sig == sig for p in evaluate(check, c, ctx))
        except sim.InfraError:
            return False

    case = json.loads(json.dumps(clean(case)))
    # simpler workloads first, they make the rest cheaper
    for rnd in range(2):
        changed = True
        while changed and time.time() - t0 < budget * .5:
            changed = False
            for c in check.smaller(case):
                if still(c):
                    case = json.loads(json.dumps(clean(c))); changed = True
                    break
        for key in ("faults",):
            fl = case.get(key) or []
            i = 0
            while i < len(fl) and len(fl) > 0:
                c = dict(case); c[key] = fl[:i] + fl[i + 1:]
                if still(c):
                    case = json.loads(json.dumps(c)); fl = case[key]
                else:
                    i += 1
        s = case.get("sched", {})
        if s.get("mode") == "pol" and s.get("pol"):
            c = dict(case); c["sched"] = {"mode": "pol", "pol": {}, "seed": s["seed"]}
            if still(c):
                case = c
            else:
                # each knob on its own
                for k in sorted(s["pol"]):
                    if k not in case["sched"]["pol"]:
                        continue
                    c = json.loads(json.dumps(case)); c["sched"]["pol"].pop(k)
                    if still(c):
                        case = c
        if rnd == 0 and not any(True for _ in check.smaller(case)):
            break
    # from a policy to an explicit list of perturbations, then fewer and fewer of them
    s = case.get("sched", {})
    if s.get("mode") == "pol" and s.get("pol"):
        rec = {}
        c = json.loads(json.dumps(case)); c["_record"] = rec
        try:
            check.evaluate(c, ctx)
        except sim.InfraError:
            rec = {}
        n = sum(len(v) for v in rec.values())
        if 0 < n < 200000:
            c = json.loads(json.dumps(case)); c["sched"] = {"mode": "explicit", "pol": {}, "seed": s["seed"], "pert": rec}
            if still(c):
                case = c
                for name in sorted(rec):
                    items = case["sched"]["pert"][name]
                    k = 2
                    while len(items) >= 1 and time.time() - t0 < budget:
                        size = max(1, len(items) // k); i = 0; reduced = False
                        while i < len(items):
                            rest = items[:i] + items[i + size:]
                            c = json.loads(json.dumps(case)); c["sched"]["pert"][name] = rest
                            if still(c):
                                items = rest; case = c; reduced = True
                            else:
                                i += size
                            if time.time() - t0 > budget:
                                break
                        if size == 1 and not reduced:
                            break
                        if size > 1:
                            k = min(len(items) or 1, k * 2)
    return case, tried[0]


def replay_file(check, case, problems, path, note):
    with open(path, "w") as f:
        json.dump({"property": check.prop, "case": clean(case), "violation": [[p.sig, p.msg] for p in problems], "how": "python3 /verif/check.py %s --replay %s" % (check.prop, path), "note": note}, f, indent=1, sort_keys=True)
        f.write("\n")


def do_replay(check, path, ctx, quiet=False):
    with open(path) as f:
        r = json.load(f)
    probs = evaluate(check, r["case"], ctx)
    known = dict(known_findings(check.prop))
    for p in probs:
        print("%s %s: %s" % ("known finding" if p.sig in known else "reproduced", p.sig, p.msg))
    bad = [p for p in probs if p.sig not in known]
    same = [[p.sig, p.msg] for p in probs] == r["violation"]
    print("replay %s the recorded violation" % ("reproduces exactly" if same else "does not reproduce exactly"))
    return 1 if bad else 0, same


def main(check, tier, seed, replay=None):
    t0 = time.time()
    try:
        host, progs = build.build(check.progs, more=check.build_flags)
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    tb = time.time() - t0
    if getattr(check, "needs_hook", False) and build.HOOK_ERROR:
        print("HOOK DOES NOT COMPILE: %s" % build.HOOK_ERROR)
        return 2
    ctx = Ctx(host, progs, seed, tier)
    try:
        if replay:
            return do_replay(check, replay, ctx)[0]
        return explore(check, tier, seed, ctx, t0, tb)
    finally:
        sim.cleanup()


def explore(check, tier, seed, ctx, t0, tb):
    quick = tier == "quick"
    ncases = int(os.environ.get("TSIM_CASES", check.quick if quick else 10 ** 9))
    cap = float(os.environ.get("TSIM_BUDGET_S", 300 if quick else 3600))
    known = dict(known_findings(check.prop))
    found = {}          # index -> (case, problems)
    hits = {}           # known findings met
    samples, done, nontriv, caselog = [], 0, set(), hashlib.sha1()
    infra = []
    nthreads = int(os.environ.get("TSIM_JOBS", "8"))
    i = 0

    def one(i):
        rng = random.Random("%s/%s/%d" % (seed, check.prop, i))
        case = check.gen(rng, i, ctx)
        if case is None:
            return i, None, []
        return i, case, evaluate(check, case, ctx)

    with ThreadPoolExecutor(nthreads) as ex:
        pend = {}
        while True:
            while len(pend) < nthreads * 2 and i < ncases and not found and len(infra) < 8 and time.time() - t0 < cap:
                pend[ex.submit(one, i)] = i; i += 1
            if not pend:
                break
            dn, _ = wait(pend, return_when=FIRST_COMPLETED)
            for f in dn:
                ix = pend.pop(f)
                try:
                    ix, case, probs = f.result()
                except Exception as e:
                    infra.append("case %d: %s" % (ix, traceback.format_exc()[-1500:]))
                    continue
                if case is None:
                    continue
                done += 1
                key = hashlib.sha1(json.dumps(clean(case), sort_keys=True).encode()).hexdigest()
                if check.nontrivial(case):
                    nontriv.add(key)
                if len(samples) < 4 and not probs:
                    samples.append(clean(case))
                new = [p for p in probs if p.sig not in known]
                for p in probs:
                    if p.sig in known:
                        hits.setdefault(p.sig, p.msg)
                if new:
                    found[ix] = (case, probs, new)
    t1 = time.time()
    rc, nviol, lines = 0, 0, []
    # the same seed must give the same execution (checked on one of this run's cases)
    det = determinism(check, ctx, samples)
    if infra:
        print("CHECK ERROR: %s" % infra[0])
        rc = 2
    if det:
        print("CHECK ERROR: the simulator is not deterministic: %s" % det)
        rc = 2
    if found:
        nviol = len(found)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        ok = other = None
        for n, ix in enumerate(sorted(found)[:3]):
            case, probs, new = found[ix]
            print("case %d violates: %s" % (ix, "; ".join(map(repr, new))[:1500]))
            budget = float(os.environ.get("TSIM_MIN_S", 90 if quick else 600))
            small, tried = minimise(check, case, new[0].sig, ctx, budget if n == 0 else 20)
            for cand, what in ((small, "minimised in %d trials" % tried), (case, "not minimised")):
                ps = evaluate(check, cand, ctx)
                if not any(p.sig not in known for p in ps):
                    continue
                h = hashlib.sha1(json.dumps(clean(cand), sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.prop, h))
                replay_file(check, cand, ps, path, "found as case %d with seed %d; %s" % (ix, seed, what))
                again = [subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for _ in range(2)]
                if all(a.returncode == 1 and b"reproduces exactly" in a.stdout for a in again):
                    ok = path
                    for p in ps:
                        print("  %r" % p)
                    break
                print("replay not exact (%s): %s" % (what, again[0].stdout.decode("utf8", "replace")[-800:]))
                if all(a.returncode == 1 for a in again):
                    other = other or path
            if ok:
                break
        if not ok and other:
            # every execution violates the property, with other values each time: the program computes with memory
            # outside its allocations, whose contents the simulator does not control
            print("every replay violates the property, but with other values")
            ok = other
        if ok:
            rc = 1
            lines.append("VIOLATION property=%s replay=%s" % (check.prop, ok))
        else:
            print("CHECK ERROR: the violation could not be replayed exactly")
            rc = 2
    for s, what in known_findings(check.prop):
        if s in hits:
            print("KNOWN-FINDING: property=%s %s (%s)" % (check.prop, what, hits[s][:200]))
        else:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, what))
    wall = time.time() - t0
    search = max(1e-3, t1 - t0 - tb)
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(nontriv),
        "rule": check.rule,
        "samples": samples[:3],
        "simulated_runs": ctx.st["runs"],
        "runs_per_hour": int(ctx.st["runs"] / search * 3600),
        "seeds_per_hour": int(done / search * 3600),
        "simulated_time_s": round(ctx.st["vtime_ns"] * 1e-9, 6),
        "messages": ctx.st["msgs"], "collectives": ctx.st["colls"], "file_operations": ctx.st["io_ops"], "synchronous_sends": ctx.st["rndv"],
        "faults_injected": ctx.faults,
        "perturbations_by_kind": ctx.perts,
        "distinct_interleavings": len(ctx.orders),
        "interleaving_measure": "distinct (workload, order in which every rank matched its messages, completed its requests and left collectives) over all runs with more than one rank",
        "distinct_executions": len(ctx.plans),
        "end_states": ctx.statuses,
        "programs": len(ctx.progs_used), "runs_per_program": ctx.progs_used,
        "real_components": ["all of /repo/src/base and /repo/src/atm", "main programs under /repo/test and tools under /repo/util", "libnetcdf, LAPACK, libstdc++ (their file operations pass the fault layer)"],
        "stub_components": ["MPI (simulated, sim/host.cpp)", "clock", "heap placement and initial contents", "kernel file operations: real files in a scratch directory below the fault layer"],
        "violating_cases": nviol,
        "known_findings_met": hits,
    }
    cov.update(ctx.extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump({"property": check.prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov, "assumptions": COMMON_ASSUMPTIONS + check.assumptions, "wall_s": round(wall, 2), "violations": nviol}, f, indent=1)
        f.write("\n")
    print("%s: %d cases (%d distinct), %d simulated runs, %d interleavings, build %.0f s, total %.0f s" % (check.prop, done, len(nontriv), ctx.st["runs"], len(ctx.orders), tb, wall))
    for l in lines:
        print(l)
    return rc


def determinism(check, ctx, samples):
    """runs the first sampled case twice more and compares everything the simulator reports"""
    if not samples:
        return None
    out = []
    for k in range(2):
        c = Ctx(ctx.host, ctx.progs, ctx.seed, ctx.tier)
        evaluate(check, samples[0], c)
        out.append((c.st, c.faults, c.perts, sorted(c.orders), sorted(c.plans)))
    return None if out[0] == out[1] else "two executions of the same case differ: %s / %s" % (str(out[0])[:300], str(out[1])[:300])


COMMON_ASSUMPTIONS = [
    "The simulated MPI follows the MPI standard (non-overtaking, progress, legal eager/rendezvous choices); results on the sphere do not depend on compiler options (-O1 here).",
    "Grids are small (3 to 12 elements along an edge) and runs short (2 to 60 steps); behaviour is taken not to depend on size beyond that.",
    "A crash loses the process and not data already handed to the operating system.",
]
