"""Builds the simulator host and the programs under test from /repo's current tree.

Objects are cached under /verif/build by a hash of their inputs, so a second
build is instant and a stale object can never be used.
"""
import glob, hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TSIM_REPO", "/repo")
BUILD = os.environ.get("TSIM_BUILD", os.path.join(VERIF, "build"))
DEFS = ["-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE", "-DTEMPEST_SIM_HOOK"]
CXX = ["g++", "-std=c++11", "-O1", "-fPIC", "-w", "-fno-gnu-unique", "-fno-strict-aliasing"] + DEFS
LIBDIRS = ["src/base", "src/atm"]
PROGDIRS = {"test/shallowwater_sphere": "sw", "test/nonhydro_sphere": "ns", "test/nonhydro_xz": "xz", "test/dcmip2016": "dc"}
UTILS = ["CFConverter", "ExtractSurface"]


HOOK_ERROR = None


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _make_list(makefile, var):
    txt = _read(makefile).decode("utf8", "replace").replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % var, txt, re.M)
    return m.group(1).split() if m else []


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))


def _hdrhash(dirs):
    h = hashlib.sha1()
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.h")) + glob.glob(os.path.join(REPO, d, "*.hpp"))):
            h.update(os.path.basename(p).encode()); h.update(_read(p))
    h.update(_read(os.path.join(VERIF, "sim/include/mpi.h")))
    return h.hexdigest()


def program_names():
    out = {}
    for d, pre in PROGDIRS.items():
        for f in _make_list(os.path.join(REPO, d, "Makefile"), "FILES"):
            if f.endswith(".cpp"):
                out["%s/%s" % (pre, f[:-4])] = (d, f)
    return out


def build(progs=None, quiet=True, more=()):
    """more: further compiler flags
    progs: iterable of names such as 'sw/SWTest2' or 'util/CFConverter'; returns {name: path of .so} and host path"""
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "so"), exist_ok=True)
    names = program_names()
    if progs is None:
        progs = sorted(names) + ["util/" + u for u in UTILS]
    base_h = _hdrhash(LIBDIRS)
    jobs = []  # (cmd, out)

    cxx = CXX + list(more)

    def obj(src, flags, hh, cc=None):
        cc = cc or cxx
        key = hashlib.sha1()
        key.update(_read(src)); key.update(hh.encode()); key.update(" ".join(cc + flags).encode()); key.update(os.path.basename(src).encode())
        o = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key.hexdigest()[:20] + ".o")
        if not os.path.exists(o):
            jobs.append((cc + flags, src, o))
        return o

    inc = ["-I" + os.path.join(VERIF, "sim/include"), "-I" + os.path.join(REPO, "src/base"), "-I" + os.path.join(REPO, "src/atm")]
    libobjs = []
    for d in LIBDIRS:
        for f in _make_list(os.path.join(REPO, d, "Makefile"), "FILES"):
            if f.endswith(".cpp"):
                libobjs.append(obj(os.path.join(REPO, d, f), inc, base_h))
    hooko = obj(os.path.join(VERIF, "sim/hook.cpp"), inc, base_h)
    stub = obj(os.path.join(VERIF, "sim/hookstub.cpp"), [], "")
    hookerr = []
    links = {}
    for p in progs:
        if p.startswith("util/"):
            u = p[5:]; d = "util/" + u
            hh = base_h + _hdrhash([d])
            os_ = []
            for f in _make_list(os.path.join(REPO, d, "Makefile"), "FILES"):
                if f.endswith(".cpp"):
                    os_.append(obj(os.path.join(REPO, d, f), inc, hh))
            links[p] = (os_, [])
        elif p.startswith("verif/"):
            src = os.path.join(VERIF, "sim", p[6:] + ".cpp")
            links[p] = ([obj(src, inc, base_h)], [])
        else:
            d, f = names[p]
            hh = base_h + _hdrhash([d])
            os_ = [obj(os.path.join(REPO, d, f), inc + ["-I" + os.path.join(REPO, d)], hh)]
            extra = []
            mk = os.path.join(REPO, d, "Makefile")
            for g in _make_list(mk, "SHARED_FILES"):
                os_.append(obj(os.path.join(REPO, d, g), inc + ["-I" + os.path.join(REPO, d)], hh))
            ffs = _make_list(mk, "INTERFACE_FILES")
            if ffs:
                extra = ["-lgfortran"]
                allf = hashlib.sha1(b"".join(_read(os.path.join(REPO, d, g)) for g in ffs)).hexdigest()
                # modules may depend on each other: one directory per content hash
                md = os.path.join(BUILD, "obj", "mod." + allf[:16]); os.makedirs(md, exist_ok=True)
                for g in ffs:
                    os_.append(obj(os.path.join(REPO, d, g), ["-J" + md], allf, ["gfortran", "-O1", "-fPIC", "-w"]))
            links[p] = (os_, extra)
    host_src = os.path.join(VERIF, "sim/host.cpp")
    hk = hashlib.sha1(_read(host_src) + _read(os.path.join(VERIF, "sim/include/mpi.h"))).hexdigest()[:20]
    host = os.path.join(BUILD, "tsim." + hk)
    hostjob = None if os.path.exists(host) else (["g++", "-std=c++11", "-O2", "-g", "-w", "-rdynamic", "-fno-builtin-malloc", "-fno-gnu-unique"], host_src, host)

    def comp(j):
        cmd, src, o = j
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        try:
            _run(cmd + ["-c", src, "-o", tmp])
        except BuildError as e:
            if o == hooko:  # an accessor it uses was renamed: only the check that needs it goes without an answer
                hookerr.append(str(e)); return
            raise
        os.rename(tmp, o)

    def hostc(j):
        tmp = "%s.%d.tmp" % (host, os.getpid())
        _run(j[0] + ["-o", tmp, j[1], "-ldl"]); os.rename(tmp, host)

    seen = {}
    for j in jobs:
        seen[j[2]] = j
    # biggest first
    todo = sorted(seen.values(), key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(max_workers=int(os.environ.get("TSIM_JOBS", "8"))) as ex:
        fs = []
        if hostjob:
            fs.append(ex.submit(hostc, hostjob))
        fs += [ex.submit(comp, j) for j in todo]
        for f in fs:
            f.result()
    global HOOK_ERROR
    HOOK_ERROR = hookerr[0] if hookerr else None
    libobjs.append(stub if hookerr else hooko)
    out = {}

    def link(p):
        os_, extra = links[p]
        k = hashlib.sha1("|".join(os_ + libobjs).encode()).hexdigest()[:20]
        so = os.path.join(BUILD, "so", p.replace("/", "_") + "." + k + ".so")
        if not os.path.exists(so):
            tmp = "%s.%d.tmp" % (so, os.getpid())
            _run(["g++", "-shared", "-o", tmp] + os_ + libobjs + ["-Wl,-O1", "-lnetcdf", "-llapack", "-lblas"] + extra)
            os.rename(tmp, so)
        return p, so
    with ThreadPoolExecutor(max_workers=8) as ex:
        for p, so in ex.map(link, list(links)):
            out[p] = so
    if not quiet:
        print("built %d objects, %d programs in %.1f s" % (len(todo), len(out), time.time() - t0))
    return host, out


if __name__ == "__main__":
    build(sys.argv[1:] or None, quiet=False)
