"""The checks: for each property how cases are generated and what is required of their executions."""
import array, math, os, re, shutil, struct

import nc, sim, work
from engine import (Check, Problem, basic, brief, diag, diag_diff, exceptions, first_diff, hang, policy, refused, reported, sched, text)

CS = [k for k in work.CFG if work.CFG[k].grid == "cs"]
CART = [k for k in work.CFG if work.CFG[k].grid == "cart"]
ALL = list(work.CFG)
SEAM = ("xz.hm", "xz.nhm", "xz.b3dr")   # their topography differs on both sides of the periodic boundary


def counts(key):
    """processor counts the configuration can be run on"""
    if key in CS:
        return [1, 2, 3, 4, 5, 6, 7, 8, 12, 13]
    return {"xz.tb3": [1, 2, 3, 4, 6], "xz.b3d": [1, 2, 3, 4, 6, 12], "xz.b3dr": [1, 2, 3, 4, 6, 8, 12]}.get(key, [1, 2, 3, 4, 6, 12])


def pick_ranks(rng, key, lo=1, hi=99):
    c = [n for n in counts(key) if lo <= n <= hi]
    w = [4 if n <= 4 else 2 if n <= 8 else 1 for n in c]
    return rng.choices(c, w)[0]


SPLIT = [k for k in CS if k != "dc.umjs"]   # the terminator chemistry of dc.umjs depends on the shape of patches (a finding)


def pick_layout(rng, key, lo=1, hi=99, p=.1, thirds=False):
    """processors and resolution; from 24 processors on, the panels of the sphere are divided into patches"""
    if key in SPLIT and rng.random() < p:
        if rng.random() < .15:     # patches inside a panel, away from its edges
            return rng.choice([(54, "3"), (54, "3"), (55, "3"), (54, "6"), (96, "4")]) if thirds else (96, "4")
        return rng.choice([24, 24, 25, 27]), rng.choice(["2", "4", "4"] if work.family(key) != "sw" else ["2", "4", "4", "8"])
    return pick_ranks(rng, key, lo, hi), None


def fast(rng, i):
    """keys in turn, so that a quick run meets every program"""
    return ALL[i % len(ALL)]


def numerical_end(case, res):
    """an unusual combination of options may be numerically unstable; that is not what is checked. Plain configurations never are."""
    return bool(case.get("opts")) and any("Inversion failure" in e or "not finite" in e for e in exceptions(res))


def restarts(tree):
    return sorted((f for f in tree if f.endswith(".restart.dat")), key=lambda f: f[:-12])


def outputs(tree):
    return sorted((f for f in tree if f.endswith(".nc")), key=lambda f: f[:-3])


def same_run(a, b, what, digests=True):
    """bitwise comparison of two complete executions"""
    p = []
    d = first_diff(a.tree, b.tree, what)
    if d:
        p.append(Problem("files", "%s/%s: %s" % (what[0], what[1], d)))
    d = diag_diff(diag(a.res), diag(b.res))
    if d:
        p.append(Problem("diagnostics", "%s/%s: %s" % (what[0], what[1], d)))
    if digests and a.res.get("digest") != b.res.get("digest"):
        p.append(Problem("state", "%s/%s: state at the end of a step differs: %s / %s" % (what[0], what[1], a.res.get("digest"), b.res.get("digest"))))
    return p


def smaller_opts(case):
    o = case.get("opts") or []
    words = []
    for w in o:
        if w.startswith("--"):
            words.append([w])
        else:
            words[-1].append(w)
    for i in range(len(words)):
        c = dict(case); c["opts"] = [x for j, g in enumerate(words) if j != i for x in g]
        yield c


def smaller_int(case, key, lo):
    if case.get(key, lo) > lo:
        for v in sorted({lo, (case[key] + lo) // 2, case[key] - 1}):
            if v < case[key]:
                c = dict(case); c[key] = v
                yield c


def smaller_ranks(case, key="ranks", lo=1):
    for n in counts(case["key"]):
        if lo <= n < case[key]:
            c = dict(case); c[key] = n
            yield c


def args_of(case, **kw):
    c = work.CFG[case["key"]]
    a = c.args(steps=kw.get("steps", case.get("steps", 2)), out=case.get("out", 1), rst=kw.get("rst", case.get("rst", 0)), dt=case.get("dt"), extra=" ".join(case.get("opts", [])))
    for o, v in (("--resolution", case.get("res")), ("--output_x", case.get("ox")), ("--output_y", case.get("oy"))):
        if v:
            a[a.index(o) + 1] = v
    return a


def prog_of(case):
    return work.CFG[case["key"]].prog


# ------------------------------------------------------------------------ C01 --
class C01(Check):
    prop = "C01"
    quick = 2000
    rule = "a case counts when its processors exchange messages (2 or more) and the schedule is perturbed; cases are distinct by workload, options, processor count and schedule seed"

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        n, res = pick_layout(rng, key, 2, 13 if deep or rng.random() < .15 else 6, thirds=True)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([1, 2, 2, 3] + ([6, 10] if deep else [])), "opts": work.options(rng, key), "rst": rng.choice([0, 0, 1]), "sched": sched(rng, n), "faults": []}
        c["resume"] = c["rst"] == 1 and rng.random() < .4
        return c

    def nontrivial(self, case):
        return case["ranks"] > 1 and (case["sched"]["mode"] == "explicit" or bool(case["sched"]["pol"]))

    def evaluate(self, case, ctx):
        a = args_of(case)
        base = ctx.base(prog_of(case), case["ranks"], a, hook=1)
        if numerical_end(case, base.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(base.res, "undisturbed run")
        run = ctx.run(prog_of(case), case["ranks"], a, case, "a", hook=1)
        p += basic(run.res, "disturbed run")
        p += same_run(base, run, ("undisturbed", "disturbed"))
        if case.get("resume") and not p:
            f = restarts(base.tree)[0]
            rs = []
            for nm in (None, "b"):
                d = sim.newdir(); shutil.copy(base.path(f), os.path.join(d, "in.dat"))
                rs.append(ctx.run(prog_of(case), case["ranks"], a + ["--restart_file", "in.dat"], case if nm else None, nm, d=d, hook=1))
                p += basic(rs[-1].res, "restarted run")
            p += same_run(rs[0], rs[1], ("undisturbed restart", "disturbed restart"))
            for r in rs:
                r.drop()
        run.drop()
        return p

    def smaller(self, case):
        if case.get("resume"):
            c = dict(case); c["resume"] = False; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        yield from smaller_ranks(case, lo=2)
        if case.get("rst") and not case.get("resume"):
            c = dict(case); c["rst"] = 0; yield c


# ------------------------------------------------------------------------ C02 --
_NUM = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?|[-+]?(?:nan|inf)")
_CONS = re.compile(r"Checksum \((Rho|H|RhoTheta|RhoQv)\): (\S+)")


def shape(lines):
    """printed lines without numbers"""
    return [_NUM.sub("#", re.sub(r"\s+", " ", l)) for l in lines if "Step " in l or "Checksum" in l]


def printed_close(a, b, rtol):
    """diagnostics of rank 0 agree up to round-off: same lines, same sums of positive quantities"""
    x, y = sim.stdout_of(a, 0), sim.stdout_of(b, 0)
    cx, cy = _CONS.findall(x), _CONS.findall(y)
    if len(cx) != len(cy):
        return "%d / %d checksums printed" % (len(cx), len(cy))
    for (n, v), (m, w) in zip(cx, cy):
        if n == m and float(v) != float(v) and float(w) != float(w):
            continue
        if n != m or not abs(float(v) - float(w)) <= rtol * max(abs(float(v)), 1e-300):
            return "checksum %s %s / %s %s" % (n, v, m, w)
    return None


_NORM = re.compile(r"^ *(\w+) +(%s) +(%s) +(%s) *$" % ((r"[-+.\w]+",) * 3), re.M)


def norms_close(a, b, cs):
    """error norms printed at the end: sums (or maxima) of positive terms, printed with six digits"""
    x, y = ([r for r in _NORM.findall(sim.stdout_of(z, 0).split("Linf Error")[-1])] if "Linf Error" in sim.stdout_of(z, 0) else [] for z in (a, b))
    if [r[0] for r in x] != [r[0] for r in y]:
        return "norms of %s / %s printed" % ([r[0] for r in x], [r[0] for r in y])
    for r, q in zip(x, y):
        for name, v, w in zip(("L1", "L2", "Linf"), r[1:], q[1:]):
            try:
                v, w = float(v), float(w)
            except ValueError:
                continue
            if v == w or (v != v and w != w):
                continue
            if not cs and (r[0] in ("V", "W") or max(abs(v), abs(w)) < 1e-6):  # may be nothing but round-off
                continue
            if not abs(v - w) <= (2.1e-5 if cs else 1e-4) * max(abs(v), abs(w)):
                return "%s error norm of %s: %g / %g" % (name, r[0], v, w)
    return None


class C02(Check):
    prop = "C02"
    quick = 1800
    rule = "a case counts when the two executions differ in the number of processors; distinct by workload, options, both processor counts and schedule seed"
    assumptions = ["On Cartesian grids the bound is 1e-9 of the largest value, for vertically explicit runs: the vertically implicit solver switches on the sign of the vertical velocity and may amplify differences of round-off between layouts.", "The Held-Suarez program starts from noise drawn without a seed shared between processors and is excluded."]
    KEYS = [k for k in ALL if k != "ns.hs"]
    DT = {"xz.b3d": 1000000, "xz.b3dr": 500000}

    def gen(self, rng, i, ctx):
        key = self.KEYS[i % len(self.KEYS)]
        deep = ctx.tier != "quick"
        c = {"key": key, "steps": rng.choice([1, 2, 2, 3] + ([6] if deep else [])), "faults": []}
        if rng.random() < .08:
            bad = [n for n in ([24, 25, 29] if key in CS else [5, 7, 10, 13, 16, 24]) if n not in counts(key)]
            n = rng.choice(bad)
            c.update(kind="refuse", n1=n, n0=1, res=None, opts=[], sched=sched(rng, n)); return c
        c["kind"] = "agree"
        c["opts"] = work.options(rng, key)
        if key in CART:
            c["opts"] = self.explicit(c["opts"])
            c["dt"] = self.DT.get(key, work.CFG[key].dt)
        c["n0"] = rng.choice([1, 1, pick_ranks(rng, key)])
        c["n1"], c["res"] = pick_layout(rng, key, p=.25)
        if not c["res"]:
            c["n1"] = rng.choice([n for n in counts(key) if n != c["n0"] and (deep or n <= 8 or rng.random() < .3)])
            if key in SPLIT and rng.random() < .06:
                # coordinates of nodes then differ by round-off; no output point lies on an edge, where the vertical velocity has two values
                c.update(n1=54, res="3", ox="11", oy="7", loose=True, opts=self.explicit(c["opts"]) if work.family(key) != "sw" else c["opts"])
        c["sched"] = sched(rng, c["n1"])
        return c

    @staticmethod
    def explicit(opts):
        o = " ".join(opts)
        o = re.sub(r"--timescheme \S+|--vmethod \S+|--vhypervisorder \S+|--vdisc \S+", "", o)
        return o.split() + ([] if "--explicitvertical" in o else ["--explicitvertical"])

    def nontrivial(self, case):
        return case["n0"] != case["n1"]

    def evaluate(self, case, ctx):
        a = args_of(case)
        if case["kind"] == "refuse":
            run = ctx.run(prog_of(case), case["n1"], a, case, "a")
            run.drop()
            if not refused(run.res):
                # a count that has become possible must then agree like any other
                if run.res["status"] != "ok":
                    return [Problem("not-refused", "%d processors: %s" % (case["n1"], brief(run.res)))]
                ctx.count("newly_accepted_counts")
            return []
        base = ctx.base(prog_of(case), case["n0"], a, hook=1)
        if numerical_end(case, base.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(base.res, "%d processors" % case["n0"])
        run = ctx.run(prog_of(case), case["n1"], a, case, "a", hook=1)
        p += basic(run.res, "%d processors" % case["n1"])
        if p:
            run.drop(); return p
        where = "%d / %d processors" % (case["n0"], case["n1"])
        cs = case["key"] in CS and not case.get("loose")
        if cs and base.res.get("digest") != run.res.get("digest"):
            p.append(Problem("state", "%s: state at the end of a step differs: %s / %s" % (where, base.res.get("digest"), run.res.get("digest"))))
        if outputs(base.tree) != outputs(run.tree):
            p.append(Problem("output-files", "%s: %s / %s" % (where, outputs(base.tree), outputs(run.tree))))
        else:
            for f in outputs(base.tree):
                try:
                    x, y = nc.Nc(base.path(f)), nc.Nc(run.path(f))
                except nc.NcError as e:
                    p.append(Problem("output-unreadable", "%s: %s" % (where, e))); continue
                d, worst = nc.compare(x, y, 1e-12 if cs else 1e-9, scale=scales(x), skip=("Ri",))
                ctx.note_max("worst_output_difference_%s" % ("sphere" if cs else "cartesian"), worst if d is None else 0)
                if d:
                    p.append(Problem("output", "%s: %s: %s" % (where, f, d)))
        d = printed_close(base.res, run.res, 1e-11)
        if d:
            p.append(Problem("diagnostics", "%s: %s" % (where, d)))
        d = norms_close(base.res, run.res, cs)
        if d:
            p.append(Problem("norms", "%s: %s" % (where, d)))
        sx, sy = shape(diag(base.res)[0]), shape(diag(run.res)[0])
        if len(sx) != len(sy):
            p.append(Problem("diagnostics-lines", "%s: %d / %d lines printed" % (where, len(sx), len(sy))))
        run.drop()
        return p

    def smaller(self, case):
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        for k in ("n0", "n1"):
            for c in smaller_ranks(case, k):
                if c["n0"] != c["n1"]:
                    yield c


def scales(x):
    """winds share one scale; derived fields of small size are measured against what they are derived from"""
    def m(v):
        return max([abs(z) for r in x.vars.get(v, []) for z in r if z == z] + [0.0])
    w = max(m("U"), m("V"), m("W"))
    s = {"U": w, "V": w, "W": w}
    s["ZETA"] = s["DELTA"] = max(m("ZETA"), m("DELTA"), 1e-5 * w)
    return s


# ------------------------------------------------------------------------ C03 --
STRANG = "strang-carryover"


def carries_over(case):
    """Strang splitting with implicit vertical dynamics keeps a tendency from one step to the next"""
    o = " ".join(case.get("opts", [])) + " " + work.CFG[case["key"]].base
    return work.family(case["key"]) != "sw" and "--explicitvertical" not in o and "--vmethod none" not in o and ("--timescheme" not in o or "--timescheme strang" in o)


def restart_run(ctx, case, src, name, ranks, steps=None, keep=None, **kw):
    d = sim.newdir()
    shutil.copy(src, os.path.join(d, "in.dat"))
    r = ctx.run(prog_of(case), ranks, args_of(case, steps=steps or case["steps"]) + ["--restart_file", "in.dat"] + (["--perturb_restart"] if case.get("pert") else []), case, name, d=d, **kw)
    os.remove(os.path.join(d, "in.dat"))
    return r


def continues(full, run, k, what, bitwise=True, samecount=True, rst=1, out=1):
    """run, restarted from the file number k that full wrote, against full"""
    p = []
    step = k * rst
    fr, rr = restarts(full.tree), restarts(run.tree)
    if rr != fr[k:]:
        p.append(Problem("restart-files", "%s writes %s instead of %s" % (what, rr, fr[k:])))
    elif bitwise:
        for f in rr:
            if full.tree[f] != run.tree[f] and not same_but_zeros(full.path(f), run.path(f)):
                p.append(Problem("restart-content", "%s: %s differs" % (what, f))); break
    x, y = full.res.get("digest"), run.res.get("digest")
    if bitwise and x is not None and y is not None:
        if [x[s] for s in sorted(x, key=int)][step:] != [y[s] for s in sorted(y, key=int)]:
            p.append(Problem("state", "%s: state at the end of a step differs" % what))
    # reference output: same times, same values
    try:
        a = [nc.Nc(full.path(f)) for f in outputs(full.tree)]
        b = [nc.Nc(run.path(f)) for f in outputs(run.tree)]
    except nc.NcError as e:
        return p + [Problem("output-unreadable", "%s: %s" % (what, e))]
    ra, rb = records(a)[step // out:], records(b)
    if [t for t, _ in ra] != [t for t, _ in rb]:
        p.append(Problem("output-times", "%s: output at %s instead of %s" % (what, [t for t, _ in rb], [t for t, _ in ra])))
    elif bitwise:
        for (t, u), (_, v) in zip(ra, rb):
            d = [n for n in sorted(set(u) | set(v)) if u.get(n) != v.get(n)]
            if d:
                p.append(Problem("output", "%s: %s at time %s differs" % (what, d, t))); break
    ca, cb = checksums(full.res), checksums(run.res)
    same = ca[len(ca) - len(cb):] == cb if samecount else all(m == n and (m not in ("Rho", "H") or abs(float(v) - float(w)) <= 1e-12 * abs(float(v))) for (m, v), (n, w) in zip(ca[len(ca) - len(cb):], cb))
    if bitwise and not same:
        p.append(Problem("checksums", "%s: checksums %s / %s" % (what, ca[len(ca) - len(cb):][:4], cb[:4])))
    return p


def same_but_zeros(f, g):
    """files of doubles that differ at most in the sign of zeros (adding a zero tendency turns -0 into 0)"""
    with open(f, "rb") as x, open(g, "rb") as y:
        a, b = x.read(), y.read()
    if len(a) != len(b):
        return False
    d = (int.from_bytes(a, "big") ^ int.from_bytes(b, "big")).to_bytes(len(a), "big")
    return all(m.group() == b"\x80" and m.start() >= 7 and not any(a[m.start() - 7:m.start()]) and not any(b[m.start() - 7:m.start()]) for m in re.finditer(b"[^\0]", d))


def zeros(a):
    """bytes of an array with -0 as 0: fields are summed over processors, which loses the sign of zeros"""
    return array.array(a.typecode, [z + 0 for z in a]).tobytes() if hasattr(a, "typecode") else bytes(a)


def records(files):
    """[(time, {variable: bytes})] of all records, in file order"""
    out = []
    for f in files:
        rec = [v for v in f.vars if f.vdims[v] and f.vdims[v][0] == "time" and v != "time"]
        for i, t in enumerate(f.vars.get("time", [])):
            out.append((t[0], {v: zeros(f.vars[v][i]) for v in rec}))
    return out


def checksums(res):
    return re.findall(r"Checksum \((\S+)\): (\S+)", sim.stdout_of(res, 0))


class C03(Check):
    prop = "C03"
    quick = 1300
    rule = "a case counts when a run is restarted from a file of an earlier run at a step that is not the last; distinct by workload, options, restart points, processor counts and schedule seed"

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        c = {"key": key, "opts": work.options(rng, key), "rst": 1, "steps": rng.choice([2, 3, 3, 4] + ([8] if deep else [])), "faults": []}
        r = rng.random()
        if carries_over(c) and r < .75:
            # most cases with a scheme that needs nothing from the step before
            o = re.sub(r"--timescheme \S+", "", " ".join(c["opts"]))
            o += " " + (rng.choice(["--timescheme " + s for s in work.IMPLICIT if not s.startswith("strang")]))
            c["opts"] = o.split()
        c["n0"], c["res"] = pick_layout(rng, key, 1, 13 if deep else 6)
        c["rst"], c["out"] = rng.choice([(1, 1), (1, 1), (2, 1), (2, 2), (1, 2), (3, 1)])
        # intervals are counted from the start of each run: restart where an output is due as well
        ok = [k for k in range(c["steps"]) if k * c["rst"] < c["steps"] and k * c["rst"] % c["out"] == 0]
        ks = [rng.choice(ok)]
        while rng.random() < .3:
            ks.append(rng.choice([k for k in ok if k >= ks[-1]]))
        c["chain"] = [[k, rng.choice([c["n0"], pick_ranks(rng, key, 1, 13 if deep else 6)])] for k in ks]
        c["sched"] = sched(rng, max(n for _, n in c["chain"]))
        c["pert"] = rng.random() < (.4 if key == "ns.hs" else .1)
        return c

    def evaluate(self, case, ctx):
        full = ctx.base(prog_of(case), case["n0"], args_of(case), hook=1)
        if numerical_end(case, full.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(full.res, "uninterrupted run")
        fr = restarts(full.tree)
        rst, out = case["rst"], case.get("out", 1)
        if len(fr) != -(-case["steps"] // rst) + 1:
            return p + [Problem("restart-files", "uninterrupted run of %d steps wrote %s" % (case["steps"], fr))]
        src, runs = full, []
        exact = True
        for j, (k, n) in enumerate(case["chain"]):
            if k > 0 and carries_over(case):
                exact = False
            if k >= len(fr):
                break
            f = fr[k]
            if f not in src.tree:
                p.append(Problem("restart-files", "%s not written by the run before" % f)); break
            r = restart_run(ctx, case, src.path(f), "r%d" % j, n, hook=1)
            runs.append(r)
            what = "restart after %d steps on %d processors (first run on %d)" % (k * rst, n, case["n0"])
            b = basic(r.res, what)
            p += b
            if b:
                break
            if case.get("pert") and case["key"] == "ns.hs":
                # the only program that adds something at a restart
                s = restart_run(ctx, case, src.path(f), None, rng_other(case, n), hook=1)
                p += basic(s.res, what) or same_restart(r, s, what + ", perturbed, / on %d" % rng_other(case, n))
                if not p and r.res.get("digest") != s.res.get("digest"):
                    p.append(Problem("restart-ranks", "%s: state after a perturbed restart depends on the number of processors" % what))
                s.drop()
                break
            p += continues(full, r, k, what, bitwise=exact, samecount=n == case["n0"], rst=rst, out=out)
            if r.tree.get(f) != src.tree.get(f) and not (case.get("pert") and same_but_zeros(r.path(f), src.path(f))):
                p.append(Problem("redump", "%s: the state that was read is not what is written at the start" % what))
            if not exact:
                q = self.carry(full, r, k, what)
                p += q
                # what it does depend on must still not include the number of processors
                other = [m for m in counts(case["key"]) if m != n and m <= 4]
                s = restart_run(ctx, case, src.path(f), None, other[0], hook=1)
                p += basic(s.res, what) or same_restart(r, s, what + " / on %d" % other[0])
                s.drop()
                break
            src = r
        for r in runs:
            r.drop()
        return p

    def carry(self, full, run, k, what):
        """known: the tendency carried from step to step is not in the restart file; anything larger is another violation"""
        x, y = full.res.get("digest"), run.res.get("digest")
        a, b = dict_checks(full.res), dict_checks(run.res)
        p = []
        for n in ("Rho", "H"):
            if n in a and n in b and not abs(a[n][-1] - b[n][-1]) <= 1e-6 * abs(a[n][-1]):
                p.append(Problem("restart-far", "%s: checksum %s %r / %r" % (what, n, a[n][-1], b[n][-1])))
        f = restarts(full.tree)
        if any(full.tree[g] != run.tree.get(g) for g in f[k:]):
            p.append(Problem(STRANG, "%s: %s differs (Strang carry-over is not part of the restart file)" % (what, f[-1])))
        return p

    def smaller(self, case):
        for j in range(len(case["chain"]) - 1, -1, -1):
            if len(case["chain"]) > 1:
                c = dict(case); c["chain"] = case["chain"][:j] + case["chain"][j + 1:]; yield c
        yield from smaller_opts(case)
        m = max(k for k, _ in case["chain"])
        yield from smaller_int(case, "steps", m * case.get("rst", 1) + 1)
        for j, (k, n) in enumerate(case["chain"]):
            for v in (1, case["n0"]):
                if v < n:
                    c = dict(case); c["chain"] = [list(x) for x in case["chain"]]; c["chain"][j][1] = v; yield c
        yield from smaller_ranks(case, "n0")


def rng_other(case, n):
    ok = [m for m in counts(case["key"]) if m != n and m <= 6]
    return ok[n * 7 % len(ok)]


def dict_checks(res):
    out = {}
    for n, v in checksums(res):
        out.setdefault(n, []).append(float(v))
    return out


def same_restart(a, b, what):
    for f in restarts(a.tree):
        if a.tree[f] != b.tree.get(f):
            return [Problem("restart-ranks", "%s: %s differs" % (what, f))]
    return []


# ------------------------------------------------------------------------ C04 --
def exact_scheme(rng, key, opts):
    c = {"key": key, "opts": opts}
    if carries_over(c):
        o = re.sub(r"--timescheme \S+", "", " ".join(opts)) + " --timescheme " + rng.choice(["ars343", "ars232", "ark232", "ars443"])
        return o.split()
    return opts


class C04(Check):
    prop = "C04"
    quick = 1100
    rule = "a case counts when a crash or a damaged restart file is injected; distinct by workload, crash points, torn sizes and schedule seed"
    assumptions = ["Data handed to the operating system before a crash stays (the process is lost, not the machine)."]

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        steps = rng.choice([2, 3, 4] if not deep else [2, 4, 6])
        c = {"key": key, "opts": exact_scheme(rng, key, work.options(rng, key, n=rng.choice([0, 0, 1]))), "rst": 1, "steps": steps, "ranks": pick_ranks(rng, key, 1, 4)}
        if rng.random() < .25:
            c["kind"] = "damage"; c["k"] = rng.randrange(0, steps)
            c["how"] = rng.choice(["truncate", "truncate", "truncate", "empty", "foreign", "netcdf", "missing", "mangle"] + ["othergrid"] * (work.CFG[c["key"]].grid == "cs")); c["at"] = rng.random()
            c["faults"] = []; c["sched"] = {"mode": "pol", "pol": {}, "seed": 1}
            return c
        c["kind"] = "crash"
        c["faults"] = []
        for j in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            # the nth operation of the run is chosen as a fraction of what the undisturbed run does
            if r < .55:
                f = {"op": rng.choice(["write", "write", "write", "any", "closew", "rename", "openw"]), "path": ".restart", "at": rng.random(), "param": rng.choice([0, 0, 1, -rng.randrange(1, 1000)])}
            elif r < .8:
                f = {"op": rng.choice(["any", "write"]), "path": "*", "at": rng.random(), "param": rng.choice([0, 1, -rng.randrange(1, 1000)])}
            else:
                f = {"op": "mpi", "rank": rng.randrange(c["ranks"]), "at": rng.random()}
            f["stage"] = j
            c["faults"].append(f)
        c["sched"] = sched(rng, c["ranks"], "io" if c["ranks"] == 1 else None)
        c["nres"] = pick_ranks(rng, key, 1, 4)
        return c

    def evaluate(self, case, ctx):
        a = args_of(case)
        full = ctx.base(prog_of(case), case["ranks"], a, iolog=1, hook=1)
        if numerical_end(case, full.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(full.res, "undisturbed run")
        fr = restarts(full.tree)
        if p or len(fr) != case["steps"] + 1:
            return p or [Problem("restart-files", "undisturbed run wrote %s" % fr)]
        if case["kind"] == "damage":
            return self.damage(case, ctx, full, fr)
        d = sim.newdir()
        extra, n = [], case["ranks"]
        ctx_runs = 0
        for stage in range(1 + max([f["stage"] for f in case["faults"]] + [-1]) + 1):
            plan = {"io": [], "killmpi": []}
            for f in case["faults"]:
                if f["stage"] == stage:
                    if f["op"] == "mpi":
                        calls = full.res["rankcalls"][f["rank"] % len(full.res["rankcalls"])]
                        plan["killmpi"].append("%d %d" % (f["rank"] % n, 1 + int(f["at"] * calls)))
                    else:
                        log = [l.split() for l in full.res["iolog"]]
                        hits = sum(1 for l in log if (f["op"] == "any" or l[1] == f["op"]) and (f["path"] == "*" or f["path"] in l[2]))
                        plan["io"].append("%s %s %d kill %d" % (f["op"], f["path"], 1 + int(f["at"] * max(1, hits)), f["param"]))
            r = ctx.run(prog_of(case), n, a + extra, case, "s%d" % stage, d=d, hook=0, **plan)
            what = "stage %d (%s)" % (stage, "; ".join(plan["io"] + ["MPI " + x for x in plan["killmpi"]]) or "no crash")
            if r.res["status"] != "killed":
                p += basic(r.res, what)
            # every file under a final restart name is complete and exact
            t = sim.tree(d)
            have = restarts(t)
            for f in have:
                if f not in full.tree:
                    p.append(Problem("foreign-restart", "%s: %s is not a file the undisturbed run writes" % (what, f)))
                elif t[f] != full.tree[f] and not (stage and same_but_zeros(full.path(f), os.path.join(d, f))):
                    p.append(Problem("torn-restart", "%s: %s (%d bytes) is not what the undisturbed run writes" % (what, f, os.path.getsize(os.path.join(d, f)))))
            # what was written before a step that the run announced is there
            passed = sum(1 for l in sim.stdout_of(r.res, 0).splitlines() if l.strip(". ").startswith("Step "))
            missing = [f for f in fr[:(fr.index(extra[1]) if extra else 0) + passed] if f not in have]
            if missing:
                p.append(Problem("lost-restart", "%s: %s not there though the run had gone on to step %d" % (what, missing, passed)))
            if extra and extra[1] not in have:
                p.append(Problem("lost-restart", "%s: the file restarted from is gone" % what))
            if p:
                break
            ctx.count("crash_points" if r.res["status"] == "killed" else "completed_stages")
            if r.res["status"] == "ok":
                lost = [f for f in fr if f not in have and (not extra or f >= extra[1])]
                if lost:
                    p.append(Problem("lost-restart", "%s: %s not written" % (what, lost)))
                break
            gone = [f for f in have0 if f not in have] if stage else []
            if gone:
                p.append(Problem("lost-restart", "%s: %s of an earlier time is gone" % (what, gone))); break
            have0 = have
            extra, n = (["--restart_file", have[-1]] if have else []), case["nres"] if have else case["ranks"]
        shutil.rmtree(d, ignore_errors=True)
        return p

    def damage(self, case, ctx, full, fr):
        src = full.path(fr[case["k"]])
        with open(src, "rb") as f:
            b = f.read()
        how = case["how"]
        if how == "truncate":
            n = int(case["at"] * len(b)); b2 = b[:min(n, len(b) - 1)]
        elif how == "empty":
            b2 = b""
        elif how == "foreign":
            b2 = bytes((i * 37 + 11) % 251 for i in range(len(b)))
        elif how == "mangle":   # the end overwritten with zeros as after a crash of the machine; the first part is right
            n = int(case["at"] * 24); b2 = b[:n] + bytes(len(b) - n)
        elif how == "netcdf":
            with open(full.path(outputs(full.tree)[0]), "rb") as f:
                b2 = f.read()
        elif how == "othergrid":
            # other equations on the same kind of grid (a different size is a valid input, the file defines the grid)
            other = "ns.jw" if work.family(case["key"]) == "sw" else "sw.baro"
            c = work.CFG[other]
            o = ctx.base(c.prog, 1, c.args(steps=1, rst=1))
            with open(o.path(restarts(o.tree)[0]), "rb") as f:
                b2 = f.read()
        else:
            b2 = None
        d = sim.newdir()
        if b2 is not None:
            with open(os.path.join(d, "in.dat"), "wb") as f:
                f.write(b2)
        r = ctx.run(prog_of(case), case["ranks"], args_of(case) + ["--restart_file", "in.dat"], case, "damaged", d=d, guard=1)
        r.drop()
        ctx.count("damaged_files")
        what = "restart from a damaged file (%s, %s of %d bytes)" % (how, "none" if b2 is None else len(b2), len(b))
        if hang(r.res):
            return [Problem("hang", "%s: %s" % (what, brief(r.res)))]
        if not refused(r.res):
            return [Problem("damaged-accepted", "%s: %s" % (what, brief(r.res)))]
        return []

    def smaller(self, case):
        yield from (c for c in smaller_opts(case) if not carries_over(c))
        if case["kind"] == "damage":
            yield from smaller_int(case, "steps", case["k"] + 1)
        else:
            yield from smaller_int(case, "steps", 2)
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C05 --
ERRNOS = {"openr": ["emfile", "eio", "eacces"], "openw": ["enospc", "emfile", "eacces", "erofs", "eio"], "write": ["enospc", "eio", "short", "eintr", "edquot"], "read": ["eio", "short", "eintr"],
          "closew": ["eio", "enospc", "edquot"], "closer": ["eio"], "rename": ["eio", "enospc", "eacces"], "mkdir": ["eacces", "enospc", "erofs"], "unlink": ["eacces", "eio"], "ftruncate": ["enospc", "eio"], "fsync": ["eio"]}


def io_faults(rng, log, n):
    """n faults at operations that the undisturbed run really does: chosen by class of file and operation first, so that rare ones are met"""
    cls = {}
    count = {}
    for l in log:
        r, op, path = l.split()[:3]
        key = (op, path)
        count[key] = count.get(key, 0) + 1
        if op not in ERRNOS or "/nonexistent" in path:
            continue
        kind = (op, "nc" if path.endswith(".nc") else "rst" if "restart" in path else "in" if path.endswith("in.dat") else "other")
        cls.setdefault(kind, []).append((op, path, count[key], r))
    if not cls:
        return []
    out = []
    for _ in range(n):
        kind = rng.choice(sorted(cls))
        op, path, nth, r = rng.choice(cls[kind])
        act = rng.choice(ERRNOS[op])
        if op == "read" and kind[1] == "nc":
            act = "eio"   # the netCDF library takes a short read for the end of the file
        persist = 1 if act != "short" and act != "eintr" and rng.random() < .4 else 0
        param = rng.choice([0, 1, -rng.randrange(1, 1000)]) if act == "short" else 0
        out.append("%s %s %d %s %d %d" % (op, path, nth, act, param, persist))
    return out


class C05(Check):
    prop = "C05"
    quick = 2200
    rule = "a case counts when a file operation failed in the run; distinct by workload, failing operations, errors and schedule seed"
    assumptions = ["Errors that the netCDF or standard library hides from its caller count as reported only if the program prints or exits accordingly."]

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        n = pick_ranks(rng, key, 1, 4)
        c = {"key": key, "ranks": n, "opts": work.options(rng, key, n=rng.choice([0, 0, 0, 1, 2]), scheme=False), "steps": rng.choice([1, 2, 3]), "rst": rng.choice([0, 1, 1]), "faults": []}
        if rng.random() < .3:
            c["opts"] += ["--output_perfile", str(rng.choice([1, 2]))]
        c["resume"] = c["rst"] == 1 and rng.random() < .3
        base = self.base(c, ctx)
        if base is None:
            return None
        if rng.random() < .2 and base.res["written"] > 0:
            c["disk"] = int(rng.random() * base.res["written"])
        else:
            c["faults"] = io_faults(rng, base.res["iolog"], rng.choice([1, 1, 1, 2]))
        c["sched"] = sched(rng, n, rng.choice(["none", "none", None]) if n > 1 else "none")
        return c

    def base(self, c, ctx):
        first = ctx.base(prog_of(c), c["ranks"], args_of(c), iolog=1)
        if numerical_end(c, first.res) or not c.get("resume"):
            return None if numerical_end(c, first.res) else first
        f = restarts(first.tree)
        if not f:
            return first
        key = "resume"
        return self.resumed(c, ctx, first, f[0], None, None, {})

    def resumed(self, c, ctx, first, f, case, name, plan):
        d = sim.newdir(); shutil.copy(first.path(f), os.path.join(d, "in.dat"))
        return ctx.run(prog_of(c), c["ranks"], args_of(c) + ["--restart_file", "in.dat"], case, name, d=d, **(plan or dict(iolog=1)))

    def evaluate(self, case, ctx):
        base = self.base(case, ctx)
        if base is None:
            return []
        p = basic(base.res, "undisturbed run")
        if p:
            return p
        plan = {"io": case["faults"]}
        if "disk" in case:
            plan["disk"] = case["disk"]
        first = ctx.base(prog_of(case), case["ranks"], args_of(case), iolog=1)
        if case.get("resume") and restarts(first.tree):
            r = self.resumed(case, ctx, first, restarts(first.tree)[0], case, "a", plan)
            bt = base.tree; base.drop()
        else:
            r = ctx.run(prog_of(case), case["ranks"], args_of(case), case, "a", **plan)
        what = "; ".join(case["faults"]) + (" disk of %d bytes" % case["disk"] if "disk" in case else "")
        fired = bool(r.res["faults"])
        ctx.count("faulty_runs" if fired else "faults_not_met")
        if hang(r.res):
            p.append(Problem("hang", "%s: %s" % (what, brief(r.res))))
        elif r.res["status"] == "signal":
            p.append(Problem("crash", "%s: %s" % (what, brief(r.res))))
        elif reported(r.res, base.res):
            ctx.count("reported")
        else:
            d = first_diff(base.tree, r.tree, ("undisturbed run", "run with the error"))
            if d:
                p.append(Problem("silent-loss", "%s: ends as if successful, but %s" % (what, d)))
            d = diag_diff(diag(base.res), diag(r.res))
            if d:
                p.append(Problem("silent-diagnostics", "%s: ends as if successful, but %s" % (what, d)))
            ctx.count("recovered")
        # what an error leaves under a final restart name must still be right
        for f in restarts(r.tree):
            if base.tree.get(f) not in (None, r.tree[f]):
                p.append(Problem("bad-restart", "%s: %s is not what the undisturbed run writes" % (what, f)))
        r.drop()
        return p

    def nontrivial(self, case):
        return bool(case["faults"]) or "disk" in case

    def smaller(self, case):
        if case.get("resume") and not any("in.dat" in f for f in case["faults"]):
            c = dict(case); c["resume"] = False; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C06 --
class C06(Check):
    prop = "C06"
    quick = 3000
    rule = "a case counts when two or more processors exchange messages under a perturbed schedule; distinct by workload, options, processor count and schedule seed"

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        bad = rng.random() < .06
        if bad:
            n = rng.choice([n for n in ([24, 25, 29] if key in CS else [5, 7, 10, 13, 16, 18, 24]) if n not in counts(key)])
        else:
            n, res = pick_layout(rng, key, 2, 13 if deep or rng.random() < .3 else 8)
        c = {"key": key, "ranks": n, "res": None if bad else res, "steps": rng.choice([1, 1, 2, 3]), "opts": [] if bad else work.options(rng, key), "rst": rng.choice([0, 1]), "faults": [], "bad": bad}
        c["sched"] = sched(rng, n, rng.choice([None, None, "wild", "sync", "sync", "slowrank", "tail"]), redperm=True)
        c["resume"] = c["rst"] == 1 and not bad and rng.random() < .3
        c["nres"] = pick_ranks(rng, key, 2, 8)
        return c

    def evaluate(self, case, ctx):
        a = args_of(case)
        r = ctx.run(prog_of(case), case["ranks"], a, case, "a")
        if numerical_end(case, r.res):
            r.drop(); ctx.count("unstable_option_sets")
            return basic(r.res, "run", expect_ok=False)
        if case["bad"]:
            # may be refused (or accepted, should the grid learn to be divided that way), but must end
            p = basic(r.res, "%d processors" % case["ranks"], expect_ok=False)
            ctx.count("refused_counts")
            r.drop()
            return p
        p = basic(r.res, "run on %d processors" % case["ranks"]) or self.quiet(r.res, "run on %d processors" % case["ranks"])
        if case.get("resume") and not p and restarts(r.tree):
            s = restart_run(ctx, case, r.path(restarts(r.tree)[0]), "b", case["nres"])
            p += basic(s.res, "restart on %d processors" % case["nres"]) or self.quiet(s.res, "restart on %d processors" % case["nres"])
            s.drop()
        r.drop()
        return p

    def quiet(self, res, what):
        for n, m in enumerate(res["mem"]):
            if m[4]:
                return [Problem("requests", "%s: processor %d has %d unfinished requests at MPI_Finalize" % (what, n, m[4]))]
        return []

    def nontrivial(self, case):
        return case["ranks"] > 1

    def smaller(self, case):
        if case.get("resume"):
            c = dict(case); c["resume"] = False; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        if not case["bad"]:
            yield from smaller_ranks(case, lo=2)
        if case.get("rst") and not case.get("resume"):
            c = dict(case); c["rst"] = 0; yield c


# ------------------------------------------------------------------------ C07 --
class C07(Check):
    prop = "C07"
    quick = 1500
    rule = "a case counts when something fails on one processor only of two or more; distinct by workload, failure, processor and schedule seed"

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        n, res = pick_layout(rng, key, 2, 8, .05)
        c = {"key": key, "ranks": n, "res": res, "opts": work.options(rng, key, n=rng.choice([0, 0, 1]), scheme=False), "steps": rng.choice([1, 2]), "rst": rng.choice([0, 1, 1]), "faults": []}
        c["resume"] = c["rst"] == 1 and rng.random() < .5
        base = self.base(c, ctx)
        if base is None:
            return None
        r = rng.random()
        v = rng.randrange(n)
        if r < .5:
            c["kind"] = "alloc"
            total = base.res["rankallocs"][v]
            minsize = rng.choice([0, 0, 0, 1000])
            nth = 1 + int(rng.random() ** rng.choice([1, 3]) * total * (1.0 if minsize == 0 else .2))
            c["faults"] = ["%d %d %d %d" % (v, nth, minsize, rng.choice([0, 1]))]
        else:
            c["kind"] = "io"
            log = base.res["iolog"]
            if c["resume"] and rng.random() < .7:
                op = rng.choice(["openr", "read", "read"])
                hits = [l for l in log if l.startswith("r%d %s in.dat" % (v, op))]
                if not hits:
                    v = 0; hits = [l for l in log if (" %s in.dat" % op) in l]
                c["faults"] = ["%s in.dat %d %s %d %d %d" % (op, 1 + rng.randrange(max(1, len(hits))), rng.choice(["eio", "eio", "eacces"]), 0, rng.choice([0, 1]), v)]
            else:
                f = io_faults(rng, log, 1)
                c["faults"] = f
        c["sched"] = sched(rng, n)
        return c

    def base(self, c, ctx):
        first = ctx.base(prog_of(c), c["ranks"], args_of(c), iolog=1)
        if numerical_end(c, first.res):
            return None
        if c.get("resume") and restarts(first.tree):
            return restart_run(ctx, c, first.path(restarts(first.tree)[0]), None, c["ranks"], iolog=1)
        return first

    def evaluate(self, case, ctx):
        base = self.base(case, ctx)
        if base is None:
            return []
        p = basic(base.res, "undisturbed run")
        if p:
            return p
        plan = {case["kind"]: case["faults"]}
        if case.get("resume"):
            first = ctx.base(prog_of(case), case["ranks"], args_of(case), iolog=1)
            r = restart_run(ctx, case, first.path(restarts(first.tree)[0]), "a", case["ranks"], **plan)
            base.drop()
        else:
            r = ctx.run(prog_of(case), case["ranks"], args_of(case), case, "a", **plan)
        what = "%s fault %s" % (case["kind"], "; ".join(case["faults"]))
        ctx.count("faulty_runs" if r.res["faults"] else "faults_not_met")
        if hang(r.res):
            p.append(Problem("hang", "%s: %s; %s" % (what, brief(r.res), "; ".join(r.res["blocked"])[:300])))
        elif r.res["status"] == "mpierr":
            # communication went on although one processor had left it: a real MPI then hangs or mixes up data
            p.append(Problem("mismatch", "%s: %s" % (what, brief(r.res))))
        elif r.res["status"] == "ok" and not reported(r.res, base.res):
            d = first_diff(base.tree, r.tree, ("undisturbed run", "run with the error")) or diag_diff(diag(base.res), diag(r.res))
            if d:
                p.append(Problem("silent", "%s: ends as if successful, but %s" % (what, d)))
            ctx.count("unaffected")
        elif r.res["status"] == "ok":
            # every processor came to an end although one of them failed: only a refusal by all is that
            k = sum(1 for n in range(case["ranks"]) if "EXCEPTION" in sim.stdout_of(r.res, n))
            if 0 < k < case["ranks"]:
                p.append(Problem("partial", "%s: %d of %d processors failed, the others finished normally" % (what, k, case["ranks"])))
        ctx.count("end_" + r.res["status"])
        r.drop()
        return p

    def smaller(self, case):
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)


# ------------------------------------------------------------------------ C08 --
class C08(Check):
    prop = "C08"
    quick = 2200
    needs_hook = True
    rule = "a case counts when copies of at least one shared node were compared; distinct by workload, options, processor count and schedule seed"
    assumptions = ["Values are compared at the end of time steps (hook TEMPEST_SIM_HOOK) with a tolerance of 1e-9 of the largest value of the component (of 0.03 m/s where the vertical wind is smaller).",
                   "Periodic boundaries are not compared for three programs whose topography differs on its two sides."]

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        n, res = pick_layout(rng, key, 1, 13 if deep or rng.random() < .2 else 6, .2, thirds=True)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([1, 2, 3, 4] + ([8, 12] if deep else [])), "opts": work.options(rng, key), "rst": 0, "faults": [], "sched": sched(rng, n)}
        c["resume"] = rng.random() < .15
        if c["resume"]:
            c["rst"] = 1
        return c

    def evaluate(self, case, ctx):
        lvl = 3 if case["key"] in SEAM else 2
        r = ctx.run(prog_of(case), case["ranks"], args_of(case), case, "a", hook=lvl)
        if numerical_end(case, r.res):
            r.drop(); ctx.count("unstable_option_sets"); return []
        p = basic(r.res, "run on %d processors" % case["ranks"]) or self.nodes(case, r.res, case["steps"], ctx, "run on %d processors" % case["ranks"])
        if case.get("resume") and not p and len(restarts(r.tree)) > 1:
            s = restart_run(ctx, case, r.path(restarts(r.tree)[0]), "b", case["ranks"], hook=lvl)
            p += basic(s.res, "restarted run") or self.nodes(case, s.res, case["steps"], ctx, "restarted run")
            s.drop()
        r.drop()
        return p

    def nodes(self, case, res, steps, ctx, what):
        p = []
        names = {0: "U", 1: "V", 2: "RhoTheta/H", 3: "W", 4: "Rho", 100: "wind x", 101: "wind y", 102: "wind z"}
        if not res.get("nodes"):
            return [Problem("no-steps", "%s: no state was seen" % what)]
        wind = max([v[0] for k, v in res["nodes"].items() if int(k) in (0, 1, 100, 101, 102)] + [0.0])
        tol = 1e-9
        for k, v in sorted(res["nodes"].items()):
            mx, diff, cmp_, n, nonf, st = v[:6]
            if int(k) in (0, 1, 100, 101, 102):
                mx = wind   # one vector: its components share one scale
            if int(k) == 3:
                mx = max(mx, 1e3)   # W is scaled by the depth of the atmosphere: 1000 is 0.03 m/s; where it is nearly balanced, less is round-off of much larger terms
            nm = names.get(int(k), "tracer %d" % (int(k) - 200))
            ctx.count("copies_compared", cmp_)
            if nonf:
                p.append(Problem("not-finite", "%s: %d values of %s are not finite" % (what, nonf, nm)))
            if int(k) < 200 and mx > 0 or int(k) >= 200 and mx > 1e-30:
                ctx.note_max("worst_relative_difference", diff / mx)
                if not diff <= tol * mx:
                    p.append(Problem("copies", "%s: copies of %s differ by %.3g (largest value %.3g) after step %d at (%.4f, %.4f, %.4f)" % (what, nm, diff, mx, st, v[6], v[7], v[8])))
        seen = {}
        for s, q, times in res["patches"]:
            seen.setdefault(s, {})[q] = times
        ids = [sorted(x) for x in seen.values()]
        for s in sorted(seen):
            if any(t != 1 for t in seen[s].values()) or sorted(seen[s]) != ids[0] or ids[0] != list(range(len(ids[0]))):
                p.append(Problem("patches", "%s: in step %d the patches are held by processors %s times" % (what, s, sorted(seen[s].items())))); break
        if len(seen) != steps:
            p.append(Problem("steps", "%s: %d steps instead of %d" % (what, len(seen), steps)))
        return p

    def smaller(self, case):
        if case.get("resume"):
            c = dict(case); c["resume"] = False; c["rst"] = 0; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C09 --
class C09(Check):
    prop = "C09"
    quick = 2200
    KEYS = [k for k in ALL if work.family(k) in ("sw", "ns")] + ["xz.hm", "xz.ig", "xz.nhm", "xz.rb", "xz.schar", "xz.tb3", "xz.tb", "xz.dc", "xz.b3d", "dc.tc"]
    rule = "a case counts when the total mass is compared at two or more times; distinct by workload, options, processor count, restarts and schedule seed"
    assumptions = ["Programs with moist physics or outflow are excluded (DCMIP 2016 with physics, shear jet, the 3D Cartesian ridge)."]
    TOL = 1e-12

    def gen(self, rng, i, ctx):
        key = self.KEYS[i % len(self.KEYS)]
        deep = ctx.tier != "quick"
        n, res = pick_layout(rng, key, 1, 8)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([3, 5, 8] + ([20, 40] if deep else [])), "opts": self.options(rng, key), "rst": 0, "faults": [], "sched": sched(rng, n)}
        if rng.random() < .25:
            c["rst"] = 1; c["k"] = rng.randrange(0, c["steps"]); c["nres"] = pick_ranks(rng, key, 1, 8)
        return c

    def options(self, rng, key):
        while True:
            o = work.options(rng, key)
            if "--hC" in o:
                continue
            if key in ("xz.hm", "xz.nhm", "xz.schar") and rng.random() < .2:
                o = rng.choice([["--hmethod", "V2"], ["--vmassfluxlevels"], ["--hmethod", "V2", "--vmassfluxlevels"]])
            if key == "dc.tc":   # without the rain that leaves the atmosphere
                return [w for w in o if w not in ("--nophys", "--bryanpbl", "--rjprecip")] + ["--nophys"]
            if not (key in ("xz.hm", "xz.nhm", "xz.schar") and ("--vertorder" in o or "--vdisc" in o)):   # see the statement: vertical metric of the Cartesian topography
                return o

    def evaluate(self, case, ctx):
        r = ctx.run(prog_of(case), case["ranks"], args_of(case), case, "a")
        if numerical_end(case, r.res):
            r.drop(); ctx.count("unstable_option_sets"); return []
        p = basic(r.res, "run")
        m = self.mass(r.res); other = self.conserved(case, r.res)
        bad = [i for i, x in enumerate(m) if not math.isfinite(x)]
        if bad and bad[0] > 10 and case["opts"]:   # a scheme that is unstable with this time step: what it conserved before is not judged
            r.drop(); ctx.count("unstable_option_sets"); return []
        if not p:
            p += self.constant(m, "run on %d processors" % case["ranks"], ctx)
            for n in other:
                p += self.constant(other[n], "run on %d processors" % case["ranks"], ctx, n)
            if len(m) != case["steps"] + 1:
                p.append(Problem("checksums", "%d checksums for %d steps" % (len(m), case["steps"])))
        if case.get("rst") and not p:
            f = restarts(r.tree)
            if len(f) > case["k"]:
                s = restart_run(ctx, case, r.path(f[case["k"]]), "b", case["nres"])
                what = "run restarted after %d steps on %d processors" % (case["k"], case["nres"])
                if numerical_end(case, s.res):
                    r.drop(); s.drop(); ctx.count("unstable_option_sets"); return []
                p += basic(s.res, "restarted run") or self.constant(m[:1] + self.mass(s.res), what, ctx)
                if not p:
                    again = self.conserved(case, s.res)
                    for n in other:
                        p += self.constant(other[n][:1] + again[n], what, ctx, n)
                s.drop()
        r.drop()
        return p

    def mass(self, res):
        d = dict_checks(res)
        return d.get("Rho") or d.get("H") or []

    # no Rayleigh layer, uniform diffusion or heating: theta is only moved around
    ADIABATIC = ("ns.baldauf", "ns.jw", "ns.umjs", "ns.ig", "ns.stat", "xz.rb", "xz.tb3", "xz.tb", "dc.tc")

    def conserved(self, case, res):
        """further totals that stay constant: potential temperature, and vapour when no phase of the
        time scheme extrapolates tracers to negative element totals (which the tracer filter cuts off)"""
        d = dict_checks(res); out = {}; o = " ".join(case["opts"])
        if case["key"] in self.ADIABATIC and "--rayleigh" not in o:
            out["potential temperature"] = d.get("RhoTheta", [])
        if case["key"] == "dc.tc" and ("--timescheme" not in o or "--timescheme strang" in o):
            out["vapour"] = d.get("RhoQv", [])
        return out

    def constant(self, m, what, ctx, name="mass"):
        if len(m) < 2:
            return [Problem("checksums", "%s: no total %s printed" % (what, name))]
        w = max(abs(x - m[0]) for x in m) / abs(m[0]) if all(math.isfinite(x) for x in m) and m[0] else float("inf")
        if w <= self.TOL:
            ctx.note_max("worst_relative_drift" if name == "mass" else "worst_relative_drift_" + name.replace(" ", "_"), w)
            return []
        j = [i for i, x in enumerate(m) if not abs(x - m[0]) <= self.TOL * abs(m[0])][0]
        return [Problem(name.split()[0], "%s: total %s %r at the start, %r at output %d" % (what, name, m[0], m[j], j))]

    def smaller(self, case):
        yield from smaller_opts(case)
        if not case.get("rst"):
            yield from smaller_int(case, "steps", 1)
        else:
            c = dict(case); c["rst"] = 0; yield c
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C10 --
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def to_date(us_from_zero, year0=0):
    """microseconds after the start of year 0 (no leap years) -> (year, month, day, second, us)"""
    us = us_from_zero % 1000000; s = us_from_zero // 1000000
    day, s = divmod(s, 86400)
    y, day = divmod(day, 365)
    m = 0
    while day >= DAYS[m]:
        day -= DAYS[m]; m += 1
    return y, m, day, s, us


def stamp(t):
    """name of an output or restart file"""
    y, m, d, s, us = to_date(t)
    return "%04d-%02d-%02d-%05d" % (y, m + 1, d + 1, s) + ("-%06d" % us if us else "")


def later(t, freq):
    """t plus an interval: microseconds, or [months, microseconds] (months keep the time since the start of the month)"""
    if isinstance(freq, int):
        return t + freq
    y, m = to_date(t)[:2]
    first = lambda k: (k // 12 * 365 + sum(DAYS[:k % 12])) * 86400000000
    return first(12 * y + m + freq[0]) + t - first(12 * y + m) + freq[1]


def schedule(start, end, dt, freq):
    """times at which periodic output is written: the start, every step that reaches the next multiple of freq after the start, and the end"""
    if end <= start:
        return []   # nothing to do, nothing is written
    out, t, nxt = [start], start, later(start, freq)
    while t + dt < end:
        t += dt
        if t >= nxt:
            out.append(t); nxt = later(nxt, freq)
    return out + [end]


def us_words(us, fmt=0, fixed=False):
    """an interval (or, if fixed, a time since the start of year 0) in one of the notations of the command line"""
    if not isinstance(us, int):
        y, m = divmod(us[0], 12)
        return ("%dy" % y if y and fmt else "") + ("%dM" % (m if y and fmt else us[0]) if m or not fmt else "") + (us_words(us[1], 1) if us[1] else "")
    s, u = divmod(us, 1000000)
    if fmt == 1:
        d, s = divmod(s, 86400)
        return "".join("%d%s" % w for w in ((d, "d"), (s // 3600, "h"), (s // 60 % 60, "m"), (s % 60, "s"), (u, "u")) if w[0])
    if fmt == 2 and s >= 60:
        return "".join("%d%s" % w for w in ((s // 60, "m"), (s % 60, "s"), (u, "u")) if w[0])
    if fmt == 3:
        return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60) + (".%06d" % u if u else "")
    if fmt == 4 and fixed and not u:
        return stamp(us)
    if u == 0:
        return "%ds" % s
    return "%du" % us if us < 2000000000 else "%ds%du" % (s, u)


def clock(us):
    """year, month, day, hour, minute, second"""
    y, m, d, s, _ = to_date(us)
    return y, m + 1, d + 1, s // 3600, s // 60 % 60, s % 60


def redate(f, us):
    """change the time stored in a restart file"""
    with open(f, "r+b") as h:
        h.seek(4)
        h.write(struct.pack("=5i", *to_date(us)))


class C10(Check):
    prop = "C10"
    quick = 2400
    KEYS = ["sw.rh", "sw.2", "xz.tb", "xz.rb", "ns.ig", "sw.mtn", "xz.ig", "ns.jw", "dc.umjs", "xz.dc", "sw.baro", "ns.baldauf"]
    rule = "a case counts when the times of output do not all coincide with single steps; distinct by start, end, step, output and restart intervals, records per file, restarts and processors"
    assumptions = ["All programs use the calendar without leap years; the first time is that of the program (year 0), other dates are reached by restarting with a later end time and with long steps."]

    def gen(self, rng, i, ctx):
        key = self.KEYS[i % len(self.KEYS)]
        cfg = work.CFG[key]
        dt = cfg.dt
        n = pick_ranks(rng, key, 1, 4)
        r = rng.random()
        if r < .5:
            steps = rng.randrange(1, 9)
            end = dt * steps - rng.choice([0, 0, rng.randrange(0, dt // 1000) * 1000])
        else:
            dt = rng.choice([dt, dt // 2, dt // 3, max(1000, (dt // 7) // 1000 * 1000 + 1000)])
            end = dt * rng.randrange(1, 9) + rng.choice([0, 1, rng.randrange(dt)])
        end = max(1, end)
        f = lambda: max(1, int(rng.choice([1, 1, 2, 3, 1.5, .5, 2.25, 100]) * dt) + rng.choice([0, 0, 0, 1, -1]))
        c = {"key": key, "ranks": n, "dt": dt, "end": end, "freq": f(), "rfreq": rng.choice([0, 0, f()]), "perfile": rng.choice([0, 0, 1, 2, 3]), "opts": rng.choice([[], [], ["--output_z", "3"] if key[:2] != "sw" else []]), "faults": [], "sched": sched(rng, n), "chain": []}
        if c["rfreq"]:
            while rng.random() < .4 and len(c["chain"]) < 3:
                c["chain"].append([rng.random(), rng.choice([0, rng.randrange(1, 4 * dt)])])
        if c["rfreq"] and i % 3 == 0:
            # the first restart file is given another date, as if a long run had written it: shortly before the end of a day, month or year
            day = rng.choice([59, 365, 365 * 3 + 59, 365 * rng.randrange(1, 60), 365 * rng.randrange(0, 9) + sum(DAYS[:rng.randrange(1, 12)]), rng.randrange(1, 20000)])
            left = rng.choice([0, 0, 1, dt // 2, dt, 2 * dt, rng.randrange(4 * dt)])
            c["date"] = day * 86400000000 - left
            if rng.random() < .6:
                for k in ("dt", "freq", "rfreq", "end"):
                    c[k] = max(1, round(c[k] / 1e6)) * 1000000
                c["date"] = c["date"] // 1000000 * 1000000
            c["chain"] = c["chain"] or [[rng.random(), rng.randrange(1, 4 * dt)]]
            c["chain"][0][1] = max(c["chain"][0][1], dt)
            c["opts"] = []
        elif i % 3 == 1 and rng.random() < .6:
            # days, months and years: the schedule alone matters, so the step may be far too long for the numerical solution
            day = 86400000000
            c["key"] = rng.choice(["sw.rh", "sw.2", "sw.mtn", "sw.baro"]); c["opts"] = []
            c["dt"] = rng.choice([day, 5 * day, 10 * day, 30 * day, 31 * day, 45 * day, day // 2, rng.randrange(1, 60) * day // 2, rng.randrange(1, 100 * 86400) * 1000000])
            c["end"] = c["dt"] * rng.randrange(1, 13) - rng.choice([0, 0, 0, rng.randrange(c["dt"] // 1000000) * 1000000])
            g = lambda: rng.choice([c["dt"], 2 * c["dt"], rng.randrange(1, 100) * day, 31 * day, 45 * day, 365 * day, 400 * day, [1, 0], [2, 0], [3, 0], [1, 15 * day], [12, 0], [rng.randrange(1, 40), 0], [rng.randrange(1, 5), rng.randrange(1, 60) * day]])
            c["freq"] = g(); c["rfreq"] = rng.choice([0, g()])
            c["perfile"] = rng.choice([0, 0, 1, 2])
            if not c["rfreq"]:
                c["chain"] = []
            c["chain"] = [[x, rng.randrange(0, 5) * c["dt"]] for x, _ in c["chain"]]
        c["fmt"] = rng.choice([0, 0, 1, 2, 3, 4])
        if rng.random() < .25:
            c["where"] = [rng.choice(["out", "x", "a.b", "0000-01-01-00000"]), rng.choice(["o", "d.1", "./o", "."])]
        return c

    def evaluate(self, case, ctx):
        p = []
        start, end = 0, case["end"]
        cfg = work.CFG[case["key"]]
        src, prev = None, None
        for j, link in enumerate([None] + case["chain"]):
            fmt = case.get("fmt", 0)
            words = cfg.base + " --dt %s --endtime %s --outputtime %s" % (us_words(case["dt"], fmt), us_words(end, fmt, True), us_words(case["freq"], fmt))
            if case["rfreq"]:
                words += " --output_restart_dt " + us_words(case["rfreq"], fmt)
            if case["perfile"]:
                words += " --output_perfile %d" % case["perfile"]
            if case.get("where"):
                words += " --output_prefix %s --output_dir %s" % tuple(case["where"])
            a = words.split() + case["opts"]
            d = sim.newdir()
            if link is not None:
                fs = restarts(prev.tree)
                if not fs:
                    break
                k = int(link[0] * len(fs)) % len(fs)
                start = rtimes[k]
                end = end + link[1]
                a[a.index("--endtime") + 1] = us_words(end, fmt, True)
                shutil.copy(prev.path(fs[k]), os.path.join(d, "in.dat"))
                a += ["--restart_file", "in.dat"]
                if j == 1 and case.get("date") is not None:
                    near, start = start, case["date"]
                    e = sim.newdir()
                    shutil.copy(os.path.join(d, "in.dat"), os.path.join(e, "in.dat"))
                    same = ctx.run(cfg.prog, case["ranks"], a, d=e, hook=1)
                    end = start + end - near
                    redate(os.path.join(d, "in.dat"), start)
                    a[a.index("--endtime") + 1] = us_words(end, fmt, True)
            r = ctx.run(cfg.prog, case["ranks"], a, case, "r%d" % j, d=d, hook=1)
            if link is not None:
                os.remove(os.path.join(d, "in.dat"))
            what = "run %d from %d to %d us, step %d, output every %s, restart every %s" % (j, start, end, case["dt"], case["freq"], case["rfreq"])
            b = basic(r.res, what)
            if b:
                p += b; break
            want = schedule(start, end, case["dt"], case["freq"])
            rtimes = schedule(start, end, case["dt"], case["rfreq"]) if case["rfreq"] else []
            p += self.compare(case, r, want, rtimes, start, end, what)
            if j == 1 and case.get("date") is not None:
                # the date has no part in the dynamics: the same steps give the same states
                x, y = same.res.get("digest") or {}, r.res.get("digest") or {}
                if not p and not basic(same.res, "") and all(v % 1000000 == 0 for v in (start, near, end, case["dt"])) and [x[n] for n in sorted(x, key=int)] != [y[n] for n in sorted(y, key=int)]:
                    p.append(Problem("step-length", "%s: states differ from those of the same steps starting at %d us" % (what, near)))
                same.drop()
            if prev is not None:
                prev.drop()
            prev = r
            if p:
                break
        if prev is not None:
            prev.drop()
        return p

    def compare(self, case, r, want, rtimes, start, end, what):
        p = []
        pre, sub = case.get("where") or ["out", None]
        if sub is not None and any(os.path.normpath(os.path.dirname(f) or ".") != os.path.normpath(sub) for f in outputs(r.tree) + restarts(r.tree)):
            p.append(Problem("output-dir", "%s: files %s instead of in %s" % (what, outputs(r.tree) + restarts(r.tree), sub)))
        # restart files
        got = [os.path.basename(f) for f in restarts(r.tree)]
        names = ["%s.%s.restart.dat" % (pre, stamp(t)) for t in sorted(rtimes)]
        if got != names:
            p.append(Problem("restart-times", "%s: restart files %s instead of %s" % (what, got, names)))
        # reference output: files, record times
        per = case["perfile"] or len(want) or 1
        groups = [want[i:i + per] for i in range(0, len(want), per)]
        names = ["%s.%s.nc" % (pre, stamp(g[0])) for g in groups]
        files = outputs(r.tree)
        if [os.path.basename(f) for f in files] != names:
            p.append(Problem("output-files", "%s: files %s instead of %s" % (what, [os.path.basename(f) for f in files], names)))
            return p
        for f in files:
            g = groups[names.index(os.path.basename(f))]
            try:
                x = nc.Nc(r.path(f))
            except nc.NcError as e:
                p.append(Problem("output-unreadable", "%s: %s" % (what, e))); continue
            ts = [t[0] * 86400e6 for t in x.vars["time"]]
            m = re.match(r"days since (\d+)-(\d+)-(\d+)", x.vatts["time"].get("units", ""))
            off = 0
            if m:
                off = (int(m.group(1)) * 365 + sum(DAYS[:int(m.group(2)) - 1]) + int(m.group(3)) - 1) * 86400000000
            else:
                p.append(Problem("output-units", "%s: time in %r" % (what, x.vatts["time"].get("units"))))
            if len(ts) != len(g) or any(abs(t + off - w) > 2 + 1e-15 * w for t, w in zip(ts, g)):
                p.append(Problem("output-times", "%s: %s has records at %s instead of %s us" % (what, f, [round(t + off, 1) for t in ts], g)))
            for v in x.vars:
                if x.vdims[v] and x.vdims[v][0] == "time" and len(x.vars[v]) != len(g):
                    p.append(Problem("output-records", "%s: %s of %s has %d records" % (what, v, f, len(x.vars[v]))))
        # steps announced
        lab = [tuple(map(int, m)) for m in re.findall(r"^\s*\.*Step (\d+)-(\d+)-(\d+) (\d+):(\d+):(\d+)", sim.stdout_of(r.res, 0), re.M)]
        exp = [clock(t) for t in range(start, end, case["dt"])]
        if lab and lab != exp:
            p.append(Problem("step-times", "%s: steps announced at %s instead of %s" % (what, lab, exp)))
        n = len(re.findall(r"^\s*\.*Step ", sim.stdout_of(r.res, 0), re.M))
        k = -(-(end - start) // case["dt"])
        if n != k:
            p.append(Problem("steps", "%s: %d steps instead of %d" % (what, n, k)))
        return p

    def nontrivial(self, case):
        return case["freq"] != case["dt"] or case["end"] % case["dt"] != 0 or bool(case["chain"])

    def smaller(self, case):
        for j in range(len(case["chain"]) - 1, -1, -1):
            c = dict(case); c["chain"] = case["chain"][:j] + case["chain"][j + 1:]; yield c
        yield from smaller_opts(case)
        yield from smaller_ranks(case)
        for k in ("perfile", "rfreq"):
            if case[k] and not (k == "rfreq" and case["chain"]):
                c = dict(case); c[k] = 0; yield c
        if case["end"] > case["dt"]:
            for e in (case["dt"], case["end"] // 2, case["end"] - case["dt"]):
                if 0 < e < case["end"]:
                    c = dict(case); c["end"] = e; yield c


# ------------------------------------------------------------------------ C11 --
class C11(Check):
    prop = "C11"
    quick = 1800
    rule = "a case counts when clock, memory contents, file delays or leftover files of the second execution differ from the first; distinct by workload, options and disturbance"

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        n, res = pick_layout(rng, key, 1, 6, .05)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([1, 2, 3]), "opts": work.options(rng, key), "rst": rng.choice([0, 1]), "faults": []}
        c["sched"] = sched(rng, n, rng.choice(["none", "none", "swarm"]))
        if rng.random() < .5:
            c["sched"]["pol"].update(iostall_p=.3, iostall_max=rng.choice([1e4, 1e7, 1e9]))
        c["resume"] = c["rst"] == 1 and rng.random() < .3
        kinds = rng.sample(["clockjump", "skew", "fill", "leftover", "epoch"], rng.choice([1, 2, 3]))
        c["fill"] = rng.choice([1, 2, 3]) if "fill" in kinds else 0
        c["leftover"] = rng.choice(["same", "longer", "junk"]) if "leftover" in kinds else ""
        c["epoch"] = rng.choice([0, 1, -10 ** 12, 951782400 * 10 ** 6, 4102444800 * 10 ** 6, rng.randrange(10 ** 15)]) if "epoch" in kinds else None
        if "clockjump" in kinds:
            for _ in range(rng.choice([1, 2, 5])):
                c["faults"].append(["clockjump", "%d %d %d" % (rng.randrange(n), rng.randrange(1, 40), rng.choice([-1, 1]) * 10 ** rng.randrange(1, 15))])
        if "skew" in kinds:
            for r in range(n):
                c["faults"].append(["skew", "%d %d %g" % (r, rng.choice([0, rng.randrange(-10 ** 9, 10 ** 9)]), rng.choice([1, 1.5, .5, 100, 0.01]))])
        return c

    def nontrivial(self, case):
        return bool(case["faults"] or case["fill"] or case["leftover"] or case["epoch"] is not None or case["sched"].get("pol") or case["sched"]["mode"] == "explicit")

    def evaluate(self, case, ctx):
        a = args_of(case)
        base = ctx.base(prog_of(case), case["ranks"], a, hook=1)
        if numerical_end(case, base.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(base.res, "undisturbed run")
        if p:
            return p
        plan = {"hook": 1}
        for k, v in case["faults"]:
            plan.setdefault(k, []).append(v)
        if case["fill"]:
            plan["fill"] = case["fill"]
        if case["epoch"] is not None:
            plan["epoch"] = case["epoch"]
        p += self.one(ctx, case, a, base, plan, "a", None)
        if case.get("resume") and not p and restarts(base.tree):
            f = base.path(restarts(base.tree)[0])
            b2 = restart_run(ctx, case, f, None, case["ranks"], hook=1)
            p += basic(b2.res, "restarted run") or self.one(ctx, case, a + ["--restart_file", "in.dat"], b2, plan, "b", f)
            b2.drop()
        return p

    def one(self, ctx, case, a, base, plan, name, src):
        d = sim.newdir()
        extra = set()
        if src:
            shutil.copy(src, os.path.join(d, "in.dat"))
        if case["leftover"]:
            for f in base.tree:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "wb") as h:
                    if case["leftover"] == "same":
                        with open(base.path(f), "rb") as g:
                            h.write(g.read())
                    elif case["leftover"] == "longer":
                        with open(base.path(f), "rb") as g:
                            h.write(g.read() + b"\xff" * 50000)
                    else:
                        h.write(b"junk" * 1000)
            for q in ("out/foreign.nc", os.path.dirname(sorted(base.tree)[0]) + "/out.9999-01-01-00000.restart.dat", os.path.dirname(sorted(base.tree)[0]) + "/out.0000-01-01-00000.restart.dat.tmp"):
                os.makedirs(os.path.dirname(os.path.join(d, q)), exist_ok=True)
                if not os.path.exists(os.path.join(d, q)):
                    with open(os.path.join(d, q), "wb") as h:
                        h.write(b"\x07" * 300000)
                    extra.add(q)
        r = ctx.run(prog_of(case), case["ranks"], a, case, name, d=d, **plan)
        p = []
        keep = {q: b"\x07" * 300000 for q in extra if not q.endswith(".tmp")}
        if src:
            with open(src, "rb") as g:
                keep["in.dat"] = g.read()
        for q in sorted(keep):      # files that are not the run's own
            try:
                with open(os.path.join(d, q), "rb") as g:
                    if g.read() != keep[q]:
                        p.append(Problem("foreign-file", "%s was changed by the run" % q))
            except OSError:
                p.append(Problem("foreign-file", "%s was removed by the run" % q))
        for q in list(extra) + ["in.dat"]:
            if os.path.exists(os.path.join(d, q)):
                os.remove(os.path.join(d, q))
        p = p or basic(r.res, "disturbed run") or same_run(base, r, ("undisturbed", "disturbed"))
        r.drop()
        return p

    def smaller(self, case):
        if case.get("resume"):
            c = dict(case); c["resume"] = False; yield c
        for k, v in (("fill", 0), ("leftover", ""), ("epoch", None)):
            if case[k] != v:
                c = dict(case); c[k] = v; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C12 --
class C12(Check):
    prop = "C12"
    quick = 300
    rule = "a case counts when executions of different length are compared; distinct by workload, options, output intervals and schedule seed"
    assumptions = ["Growth is measured as the increase of allocated bytes (their peak, at the end of the last step, and at the end of the program) from a run of 6 steps to runs of 12 and 24 (and more) steps; 20 bytes per step in both intervals are tolerated."]

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        n = pick_ranks(rng, key, 1, 4)
        c = {"key": key, "ranks": n, "opts": work.options(rng, key, n=rng.choice([0, 1, 2])), "rst": rng.choice([0, 1, 1]), "out": rng.choice([1, 1, 2]), "faults": [], "n": [6, 12, 24] if not deep else [10, 40, 160]}
        if rng.random() < .5:
            c["opts"] += ["--output_perfile", str(rng.choice([1, 2, 3]))]
        c["sched"] = sched(rng, n, rng.choice(["none", None]))
        if rng.random() < .25:
            c["cont"] = True
        return c

    def evaluate(self, case, ctx):
        first = None
        if case.get("cont"):
            # runs continued from a restart file of an earlier run
            src = dict(case, rst=1)
            first = ctx.run(prog_of(case), case["ranks"], args_of(src, steps=1), src, "f", wall=300)
            f = restarts(first.tree)
            if numerical_end(case, first.res) or not f:
                q = [] if numerical_end(case, first.res) else basic(first.res, "first run")
                first.drop(); ctx.count("unstable_option_sets"); return q
            ctx.count("restarted_runs")
        try:
            return self.compare(case, ctx, first and first.path(f[-1]))
        finally:
            if first:
                first.drop()

    def compare(self, case, ctx, start):
        p, mem = [], []
        for j, n in enumerate(case["n"]):
            if start:
                r = restart_run(ctx, case, start, "a%d" % j, case["ranks"], steps=n, wall=300, hook=1)
            else:
                r = ctx.run(prog_of(case), case["ranks"], args_of(case, steps=n), case, "a%d" % j, wall=300, hook=1)
            if numerical_end(case, r.res):
                r.drop(); ctx.count("unstable_option_sets"); return []
            p += basic(r.res, "%d steps" % n)
            r.drop()
            if p:
                return p
            m = r.res["mem"]
            mem.append(m)
            for k in range(case["ranks"]):
                if m[k][4]:
                    p.append(Problem("requests", "%d steps: processor %d has %d unfinished requests at the end" % (n, k, m[k][4])))
                if m[k][10]:
                    p.append(Problem("handles", "%d steps: processor %d leaves %d files open" % (n, k, m[k][10])))
                for q, at in ((3, "at MPI_Finalize"), (7, "after the last step")):
                    if m[k][q] > mem[0][k][q] + 1:   # the output file being filled may still be open
                        p.append(Problem("handles", "%d / %d steps: processor %d has %d / %d files open %s" % (case["n"][0], n, k, mem[0][k][q], m[k][q], at)))
                if m[k][8] > mem[0][k][8]:
                    p.append(Problem("requests", "%d / %d steps: processor %d has %d / %d unfinished requests after the last step" % (case["n"][0], n, k, mem[0][k][8], m[k][8])))
        a = case["n"]
        for k in range(case["ranks"]):
            for q, at in ((0, "peak"), (5, "after the last step"), (9, "at the end")):
                g = [(mem[i + 1][k][q] - mem[i][k][q]) / float(a[i + 1] - a[i]) for i in range(len(a) - 1)]
                ctx.note_max("largest_growth_bytes_per_step", min(g))
                if min(g) > 20:
                    p.append(Problem("memory", "processor %d: %s bytes (%s) in runs of %s steps" % (k, [m[k][q] for m in mem], at, a)))
                    return p
        return p

    def smaller(self, case):
        yield from smaller_opts(case)
        if case["rst"]:
            c = dict(case); c["rst"] = 0; yield c
        if case.get("cont"):
            c = dict(case); del c["cont"]; yield c
        yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C13 --
def spell(rng, args):
    """The same lists with other separators: blanks, doubled and trailing ones."""
    out = []
    for a in args:
        if "," in a:
            a = "".join(rng.choice([",", " ", ", ", ",,", " , "]) if ch == "," else ch for ch in a)
        if out and out[-1] in ("--var", "--z", "--p") and ":" not in a and rng.random() < .3:
            a = rng.choice([",", " "]) + a if rng.random() < .5 else a + rng.choice([",", " "])
        out.append(a)
    return out


class C13(Check):
    prop = "C13"
    quick = 1500
    assumptions = ["What --p, --output_z and --output_energy add is compared between executions only; reference output has no pressure, which --p needs."]
    rule = "a case counts when a tool ran with a failing file operation or on input from a run on more processors; distinct by tool, input, options, failing operations"

    def gen(self, rng, i, ctx):
        src = ["dc.umjs", "dc.tc", "ns.mtn3d", "ns.stat", "xz.hm", "ns.jw"][i % 6]
        c = {"src": src, "n": rng.choice([1, 1, 2, 3, 6]), "steps": rng.choice([1, 2]), "faults": []}
        c["tool"] = rng.choice(["CFConverter", "ExtractSurface"])
        wet = src[:2] == "dc"
        vs = rng.sample(["U", "V", "W", "Rho", "RhoTheta"] + ["RhoQv"] * wet + ["Theta"] * (rng.random() < .1), rng.choice([1, 2, 3]))
        c["more"] = rng.choice([[], [], ["--output_temp"], ["--output_vort", "--output_ps"]])
        if src in CART:
            c["more"] = c["more"] + ["--explicitvertical"]
        extra = {"--output_temp": "T", "--output_vort": "ZETA", "--output_ps": "PS"}
        vs += [extra[o] for o in c["more"] if o in extra and (o != "--output_ps" or c["tool"] == "CFConverter") and rng.random() < .6]
        if c["tool"] == "CFConverter":
            vs += [v for v in ["DeltaZ"] + ["Qv", "Qc", "Q"] * wet if rng.random() < .2]
            c["args"] = ["--in", "m.e.r.l.g.q.nc", "--var", ",".join(vs)]
        else:
            c["args"] = ["--in", "m.e.r.l.g.q.nc", "--out", "o.nc", "--var", ",".join(vs)]
            how = rng.choice(["--z", "--surf", "--p", "--z", "--z :", "--p :", "--z --surf"])
            for h in how.split(" "):
                if h == ":":
                    c["args"][-1] = rng.choice(["500:1500:5000", "9000:-2000:1000"] if c["args"][-2] == "--z" else ["90000:-10000:30000", "20000:15000:80000"])
                elif h == "--z":
                    c["args"] += [h, ",".join(str(z) for z in sorted(rng.sample([500, 1000, 2500, 5000, 9000], rng.choice([1, 2, 3]))))]
                elif h == "--p":
                    c["args"] += [h, ",".join(str(z) for z in rng.sample([30000, 50000, 70000, 85000, 92500], rng.choice([1, 2, 3])))]
                else:
                    c["args"].append(h)
            c["args"] += [o for o in ("--output_z", "--output_energy") if rng.random() < .2]
        c["spell"] = spell(rng, c["args"])
        base = self.tool(c, ctx, 1, None, {"iolog": 1})
        base.drop()
        c["kind"] = rng.choice(["io", "io", "io", "disk", "ranks", "alloc"])
        if c["kind"] == "io":
            c["faults"] = self.faults(rng, base.res["iolog"])
            c["n"] = 1
        elif c["kind"] == "disk":
            c["disk"] = int(rng.random() * base.res["written"]); c["n"] = 1
        elif c["kind"] == "alloc":
            c["faults"] = ["0 %d 0 %d" % (1 + int(rng.random() * base.res["rankallocs"][0]), rng.choice([0, 1]))]; c["n"] = 1
        else:
            c["n"] = rng.choice([n for n in counts(src) if 1 < n < 9])
        c["sched"] = sched(rng, c["n"], None if c["kind"] == "ranks" else "none")
        return c

    def faults(self, rng, log):
        return io_faults(rng, log, rng.choice([1, 1, 2]))

    # reference model of both tools: what the results must be, given the input
    def faithful(self, case, run):
        x = nc.Nc(run.path("m.e.r.l.g.q.nc"))
        opt = {}
        for w, nxt in zip(case["args"], case["args"][1:] + ["--"]):
            if w.startswith("--"):
                opt[w] = nxt
        one = lambda f, v: list(f.vars[v][0])
        lev, ilev, ztop, zs = one(x, "lev"), one(x, "ilev"), x.atts["Ztop"][0], one(x, "Zs")
        np = len(zs)
        times = [t[0] for t in x.vars["time"]]
        def same(a, b, what, tol=1e-9):
            if len(a) != len(b):
                return "%s has %d values instead of %d" % (what, len(a), len(b))
            m = max([abs(v) for v in b] + [0.0])
            for i, (v, w) in enumerate(zip(a, b)):
                if not (abs(v - w) <= tol * m or v == w or (v != v and w != w)):
                    return "%s is %r instead of %r at point %d" % (what, v, w, i)
            return None
        def common(y):
            for v in ("lat", "lon"):
                if one(y, v) != one(x, v):
                    return "%s differs" % v
                if y.vatts[v] != x.vatts[v]:
                    return "attributes of %s differ" % v
            if [t[0] for t in y.vars["time"]] != times:
                return "times %s instead of %s" % ([t[0] for t in y.vars["time"]], times)
            if y.vatts["time"] != x.vatts["time"]:
                return "attributes of time differ"
            return next(("attribute %s differs" % k for k in x.atts if y.atts.get(k) != x.atts[k]), None)
        if case["tool"] == "CFConverter":
            for v in opt["--var"].split(","):
                y = nc.Nc(run.path("m.e.r.l.g.q.%s.nc" % v))
                d = common(y)
                if d:
                    return "%s: %s" % (v, d)
                src = v if v in x.vars else "RhoQv" if v == "Q" else "Rho" + v
                dims = x.vdims.get(src, ["time", "lev", "lat", "lon"])
                if y.vdims[v] != [{"lev": "z", "ilev": "z"}.get(q, q) for q in dims]:
                    return "%s has dimensions %s" % (v, y.vdims[v])
                if "lev" in dims or "ilev" in dims:
                    d = same(one(y, "z"), [z * ztop for z in (lev if "lev" in dims else ilev)], "z of " + v, 1e-12)
                    if d:
                        return d
                for t in range(len(times)):
                    if v == "DeltaZ":
                        want = [(ilev[k + 1] - ilev[k]) * (ztop - zs[i]) for k in range(len(lev)) for i in range(np)]
                    elif v[0] == "Q":
                        want = [a / r for a, r in zip(x.vars[src][t], x.vars["Rho"][t])]
                    else:
                        want = list(x.vars[src][t])
                    d = same(list(y.vars[v][t]), want, "%s at time %d" % (v, t), 1e-9 if v[0] in "QD" else 0.0)
                    if d:
                        return d
            return None
        y = nc.Nc(run.path("o.nc"))
        d = common(y) or same(one(y, "Zs"), zs, "Zs", 0.0)
        if d:
            return d
        zlev = []
        if "--z" in opt:
            z = opt["--z"]
            if ":" in z:
                b, st, e = map(float, z.split(":"))
                zlev = [b + n * st for n in range(10000) if (b + n * st - e) * st <= 0]
            else:
                zlev = [float(q) for q in z.split(",")]
            if one(y, "z") != zlev:
                return "levels %s instead of %s" % (one(y, "z"), zlev)
        for v in opt["--var"].split(","):
            c = lev if "lev" in x.vdims[v] else ilev
            for t in range(len(times)):
                col = x.vars[v][t]
                if zlev:
                    if y.vdims[v] != ["time", "z", "lat", "lon"]:
                        return "%s has dimensions %s" % (v, y.vdims[v])
                    want = []
                    for z in zlev:
                        for i in range(np):
                            h = [zs[i] + q * (ztop - zs[i]) for q in c]
                            k = next((k for k in range(len(h) - 1) if z <= h[k + 1]), len(h) - 2)
                            w = (h[k + 1] - z) / (h[k + 1] - h[k])
                            want.append(w * col[k * np + i] + (1 - w) * col[(k + 1) * np + i])
                    d = same(list(y.vars[v][t]), want, "%s at time %d" % (v, t))
                    if d:
                        return d
                if "--surf" in opt:
                    if c is ilev:
                        want = list(col[:np])
                    else:   # the parabola through the lowest three levels
                        w = [c[1] * c[2] / (c[0] - c[1]) / (c[0] - c[2]), c[0] * c[2] / (c[1] - c[0]) / (c[1] - c[2]), c[0] * c[1] / (c[2] - c[0]) / (c[2] - c[1])]
                        want = [sum(w[k] * col[k * np + i] for k in range(3)) for i in range(np)]
                    d = same(list(y.vars[v + "S"][t]), want, "%sS at time %d" % (v, t))
                    if d:
                        return d
        return None

    def tool(self, case, ctx, n, name, plan):
        c = work.CFG[case["src"]]
        a = c.args(steps=case["steps"], extra=" ".join(case.get("more", [])))
        d = sim.newdir()
        if n == 1:
            src = ctx.base(c.prog, 1, a)
        else:
            src = ctx.run(c.prog, n, a, case, name)
        shutil.copy(src.path(outputs(src.tree)[0]), os.path.join(d, "m.e.r.l.g.q.nc"))
        if n != 1:
            src.drop()
        return ctx.run("util/" + case["tool"], 1, case["spell"] if name else case["args"], None, None, d=d, **plan)

    def evaluate(self, case, ctx):
        base = self.tool(case, ctx, 1, None, {"iolog": 1})
        if not exceptions(base.res):
            p = basic(base.res, "tool")
        else:
            # a variable that the input does not have: refused, and then always
            p = basic(base.res, "tool", expect_ok=False)
        if p:
            base.drop(); return p
        if len(base.tree) < 2 and not exceptions(base.res):
            base.drop(); return [Problem("no-result", "%s wrote nothing" % case["tool"])]
        if not exceptions(base.res):
            try:
                f = self.faithful(case, base)
            except (nc.NcError, KeyError, IndexError) as e:
                f = "%s: %s" % (type(e).__name__, e)
            if f:
                base.drop(); return [Problem("values", "%s %s: %s" % (case["tool"], " ".join(case["args"]), f))]
            ctx.count("results_compared_with_the_reference_model")
        plan = {}
        if case["kind"] in ("io", "alloc"):
            plan[case["kind"]] = case["faults"]
        if "disk" in case:
            plan["disk"] = case["disk"]
        r = self.tool(case, ctx, case["n"], "a", plan)
        what = "%s %s; %s" % (case["tool"], " ".join(case["args"]), "; ".join(case["faults"]) or ("disk of %d bytes" % case["disk"] if "disk" in case else "input from %d processors" % case["n"]))
        ctx.count("tool_runs_with_faults" if r.res["faults"] else "tool_runs_without_faults")
        if hang(r.res) or (r.res["status"] == "signal" and case["kind"] != "alloc"):
            p.append(Problem("crash", "%s: %s" % (what, brief(r.res))))
        elif reported(r.res, base.res) and (case["kind"] != "ranks" or exceptions(base.res)):
            ctx.count("reported")
        else:
            if case["kind"] == "ranks":
                p += basic(r.res, what)
            for f in sorted(base.tree):
                if f == "m.e.r.l.g.q.nc":
                    continue
                if f not in r.tree:
                    p.append(Problem("silent-loss", "%s: %s missing" % (what, f))); break
                if base.tree[f] != r.tree[f]:
                    sig = "silent-loss"
                    if case["kind"] == "ranks" and f.endswith(".nc"):
                        x, y = nc.Nc(base.path(f)), nc.Nc(r.path(f))   # zeros may have another sign
                        if x.dims == y.dims and (x.vars == y.vars or case["src"] in CART and nc.compare(x, y, 1e-9, scale=scales(x))[0] is None) and x.vdims == y.vdims and x.atts == y.atts and x.vatts == y.vatts:
                            continue
                    if case["kind"] == "alloc" and f.endswith(".nc"):
                        # what is gone may be attributes only
                        try:
                            x, y = nc.Nc(base.path(f)), nc.Nc(r.path(f))
                            if x.dims == y.dims and x.vars == y.vars and x.vdims == y.vdims:
                                sig = "attributes-lost"
                        except nc.NcError:
                            pass
                    p.append(Problem(sig, "%s: %s differs" % (what, f))); break
            d = diag_diff(diag(base.res), diag(r.res))
            if d and case["kind"] != "ranks":
                p.append(Problem("silent-diagnostics", "%s: %s" % (what, d)))
        base.drop(); r.drop()
        return p

    def smaller(self, case):
        yield from smaller_int(case, "steps", 1)


# ------------------------------------------------------------------------ C14 --
class C14(Check):
    prop = "C14"
    quick = 1800
    build_flags = ("-DDEBUG_ARRAYOUTOFBOUNDS",)     # the bounds checks of the DataArray classes
    rule = "a case counts when a program ran with guarded allocations; distinct by workload, options, processors, fault and schedule seed"
    assumptions = ["The subscripts of all DataArrays are checked against their sizes. Every allocation of 16 bytes or more gets its own pages with an inaccessible page directly behind it; freed memory becomes inaccessible. Reads of memory that was never written are found through C11 (contents) instead."]

    def gen(self, rng, i, ctx):
        if rng.random() < .08:
            t = C13().gen(rng, i, ctx)
            if t["kind"] == "alloc":    # netCDF itself may stop by a signal then
                t["faults"] = []
            return dict(t, key=t["src"], ranks=1, opts=[], kind="tool", toolkind=t["kind"])
        key = fast(rng, i)
        n, res = pick_layout(rng, key, 1, 8 if rng.random() < .3 else 4, thirds=True)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([1, 2, 3]), "opts": work.options(rng, key), "rst": rng.choice([0, 1]), "faults": [], "sched": sched(rng, n)}
        r = rng.random()
        c["kind"] = "plain"
        if r < .2 and c["rst"]:
            c["kind"] = "resume"; c["nres"] = pick_ranks(rng, key, 1, 6); c["pert"] = rng.random() < .25
        elif r < .35:
            c["kind"] = "io"
            base = ctx.base(prog_of(c), n, args_of(c), iolog=1)
            if numerical_end(c, base.res):
                return None
            c["faults"] = io_faults(rng, base.res["iolog"], 1)
        elif r < .45:
            c["kind"] = "refuse"
            c["opts"] = rng.choice([["--vstagger", "int"], ["--vstagger", "lev"], ["--vstagger", "cph"], ["--order", "9"], ["--levels", "7", "--vertorder", "2"], ["--hmethod", "hs"], ["--timescheme", "nosuch"], ["--restart_file", "nosuch.dat"], ["--resolution", "1"] if key in CS else ["--resx", "1"], ["--vmethod", "schur"], ["--vdisc", "fv"]])
        elif r < .6 and n < 24:
            c["grid"] = self.grids(rng, key)
            c["kind"] = "grid"
        return c

    def grids(self, rng, key):
        """other sizes of the grid, in particular many levels on few elements and the reverse"""
        if work.family(key) == "sw":
            return ["--resolution", str(rng.choice([2, 3, 4, 5, 7]))]
        if key in CS:
            return ["--resolution", str(rng.choice([2, 3, 4])), "--levels", str(rng.choice([2, 3, 8, 20, 40]))]
        return ["--levels", str(rng.choice([4, 6, 12, 36]))] if "vertorder" not in work.CFG[key].base else ["--levels", str(rng.choice([4, 8, 24]))]

    def evaluate(self, case, ctx):
        if case["kind"] == "tool":
            plan = {"guard": 1}
            if case["faults"]:
                plan[case["toolkind"]] = case["faults"]
            if "disk" in case:
                plan["disk"] = case["disk"]
            r = C13().tool(case, ctx, case["n"], "a", plan)
            p = self.safe(r.res, "%s %s" % (case["tool"], " ".join(case["args"])), case)
            r.drop()
            return p
        a = args_of(case)
        if case["kind"] == "grid":
            g = case["grid"]
            for k in range(0, len(g), 2):
                if g[k] in a:
                    a[a.index(g[k]) + 1] = g[k + 1]
                else:
                    a += g[k:k + 2]
        plan = {"guard": 1}
        if case["kind"] == "io":
            plan["io"] = case["faults"]
        r = ctx.run(prog_of(case), case["ranks"], a, case, "a", **plan)
        what = "%s on %d processors" % (case["kind"], case["ranks"])
        p = self.safe(r.res, what, case)
        if case["kind"] in ("plain", "resume") and not numerical_end(case, r.res) and not p:
            p += basic(r.res, what)
        if case["kind"] == "resume" and not p and restarts(r.tree):
            s = restart_run(ctx, case, r.path(restarts(r.tree)[0]), "b", case["nres"], guard=1)
            p += self.safe(s.res, "restart on %d processors" % case["nres"], case) or ([] if numerical_end(case, s.res) else basic(s.res, "restart on %d processors" % case["nres"]))
            s.drop()
        r.drop()
        return p

    def safe(self, res, what, case):
        if any("out of bounds" in e for e in exceptions(res)):
            return [Problem("bounds", "%s: %s" % (what, brief(res)))]
        if res["status"] == "signal":
            sig = "terminator" if case["key"] == "dc.umjs" and "TerminatorPhysics" in res["stderr"] else "memory"
            where = [l for l in res["stderr"].split("\n") if "(_Z" in l][:1]
            return [Problem(sig, "%s: %s %s" % (what, brief(res), where[0][-120:] if where else ""))]
        if any("guard" in v or "free" in v for v in res["viol"]):
            return [Problem("heap", "%s: %s" % (what, res["viol"][0]))]
        if hang(res):
            return [Problem("hang", "%s: %s" % (what, brief(res)))]
        return []

    def smaller(self, case):
        if case["kind"] == "tool":
            return
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        if case["kind"] != "grid":
            yield from smaller_ranks(case)


# ------------------------------------------------------------------------ C19 --
def printed_times(res):
    """{time as printed: [list of (variable, value) printed as checksums of that time]}"""
    out, cur = {}, None
    for l in sim.stdout_of(res, 0).split("\n"):
        m = re.search(r"Checksum +\(\d+/\d+\): (\S+ \S+)", l)
        if m:
            cur = []; out.setdefault(m.group(1), []).append(cur); continue
        m = re.search(r"Checksum \((\S+)\): (\S+)", l)
        if m and cur is not None:
            cur.append(m.groups())
    return out


class C19(Check):
    prop = "C19"
    quick = 1500
    rule = "a case counts when the two executions differ in the output they write; distinct by workload, options, output of both, processors and schedule seed"
    VARS = ["--output_vort", "--output_div"]
    NH = ["--output_temp", "--output_ps", "--output_z 5", "--output_z 3"]

    def gen(self, rng, i, ctx):
        key = fast(rng, i)
        deep = ctx.tier != "quick"
        n, res = pick_layout(rng, key, 1, 13 if deep else 6, .06)
        c = {"key": key, "ranks": n, "res": res, "steps": rng.choice([2, 3, 4] + ([8, 12] if deep else [])), "faults": []}
        c["opts"] = [] if rng.random() < .3 else work.options(rng, key, outputs=False)
        pool = self.VARS + (self.NH if work.family(key) != "sw" else []) + (["--output_Ri"] if work.family(key) == "xz" else [])
        wide = rng.random() < .5
        c["vars"] = []
        for o in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 3]))):
            if not any(x.split()[0] == o.split()[0] for x in c["vars"]):
                c["vars"].append(o)
        c["out"] = rng.choice([1, 1, 2, 3, c["steps"], .5, 1.5, 100])
        c["rst"] = rng.choice([0, 1, 2, 1.5])
        c["perfile"] = rng.choice([0, 0, 1, 2])
        c["grid"] = rng.choice([None, None, None, [5, 3], [24, 2], [1, 1]]) if wide else None
        c["none"] = rng.random() < .08
        if c["none"]:
            c.update(rst=0, vars=[], perfile=0, grid=None)
        c["sched"] = sched(rng, n, rng.choice(["none", "swarm"]))
        if rng.random() < .4:
            c["sched"]["pol"].update(iostall_p=.3, iostall_max=rng.choice([1e5, 1e8]))
        for _ in range(rng.choice([0, 0, 1, 2])):   # what write and read calls may do without it being an error
            c["faults"].append("write * %d short %d" % (rng.randrange(1, 30), rng.choice([1, 7, 100])))
        return c

    def args2(self, case):
        c = work.CFG[case["key"]]
        us = lambda x: int(x * c.dt)
        a = (c.base + " --dt %s --endtime %s --outputtime %s" % (work.tm(c.dt), work.tm(c.dt * case["steps"]), work.tm(us(case["out"])))).split() + list(case["opts"])
        if case["rst"]:
            a += ["--output_restart_dt", work.tm(us(case["rst"]))]
        if case["perfile"]:
            a += ["--output_perfile", str(case["perfile"])]
        for v in case["vars"]:
            a += v.split()
        if case["none"]:
            a += ["--output_none"]
        if case.get("res"):
            a[a.index("--resolution") + 1] = case["res"]
        if case["grid"]:
            gx, gy = case["grid"]
            a[a.index("--output_x") + 1] = str(gx); a[a.index("--output_y") + 1] = str(gy if case["key"] in CS or "3" in case["key"].split(".")[1] else 1)
        return a

    def evaluate(self, case, ctx):
        b = dict(case, out=1, rst=1)
        base = ctx.base(prog_of(case), case["ranks"], args_of(b), hook=1)
        if numerical_end(case, base.res):
            ctx.count("unstable_option_sets"); return []
        p = basic(base.res, "run with all output")
        run = ctx.run(prog_of(case), case["ranks"], self.args2(case), case, "a", hook=1, io=case["faults"])
        p += basic(run.res, "run with other output")
        if p:
            run.drop(); return p
        if base.res.get("digest") != run.res.get("digest"):
            x, y = base.res["digest"], run.res["digest"]
            d = [k for k in sorted(set(x) | set(y), key=int) if x.get(k) != y.get(k)]
            p.append(Problem("state", "state at the end of step %s differs (%d / %d steps)" % (d[0], len(x), len(y))))
        bad = [f for f in restarts(run.tree) if os.path.basename(f) in {os.path.basename(g) for g in base.tree} and not any(os.path.basename(g) == os.path.basename(f) and base.tree[g] == run.tree[f] for g in base.tree)]
        if bad and "--output_Ri" not in case["vars"]:   # that leaves interpolated copies of state variables, which each step computes anew, in the restart file
            p.append(Problem("restart", "%s differs" % bad[0]))
        x, y = printed_times(base.res), printed_times(run.res)
        for t in y:
            if t in x and any(v not in x[t] for v in y[t]):
                p.append(Problem("checksums", "checksums at %s differ: %s / %s" % (t, [v for v in y[t] if v not in x[t]][0][:3], x[t][0][:3]))); break
            ctx.count("checksum_times_compared")
        if case["none"]:
            if outputs(run.tree):
                p.append(Problem("output", "--output_none writes %s" % outputs(run.tree)))
        elif not case["grid"]:
            try:
                ra, rb = ({t: u for t, u in records([nc.Nc(r.path(f)) for f in outputs(r.tree)])} for r in (base, run))
            except nc.NcError as e:
                run.drop(); return p + [Problem("output-unreadable", str(e))]
            for t in rb:
                if t in ra:
                    d = [v for v in sorted(set(ra[t]) & set(rb[t])) if len(ra[t][v]) == len(rb[t][v]) and ra[t][v] != rb[t][v] and not any("--output_z" in o for o in case["vars"])]
                    if d:
                        p.append(Problem("output", "%s at time %s differs" % (d, t))); break
                    ctx.count("records_compared")
        run.drop()
        return p

    def nontrivial(self, case):
        return bool(case["vars"] or case["out"] != 1 or case["rst"] != 1 or case["perfile"] or case["grid"] or case["none"])

    def smaller(self, case):
        for k, v in (("grid", None), ("perfile", 0), ("none", False), ("rst", 1), ("out", 1), ("faults", [])):
            if case[k] != v:
                c = dict(case); c[k] = v; yield c
        for i in range(len(case["vars"])):
            c = dict(case); c["vars"] = case["vars"][:i] + case["vars"][i + 1:]; yield c
        yield from smaller_opts(case)
        yield from smaller_int(case, "steps", 1)
        yield from smaller_ranks(case)


CHECKS = {c.prop: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C19)}
