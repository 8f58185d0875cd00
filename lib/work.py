"""The workloads: small configurations of the repository's own programs.

A configuration is valid on the pinned tree (no exception, finite results) for
any number of ranks listed; `args()` turns it into a command line.
"""


class Cfg:
    def __init__(self, prog, args, dt, grid, rdt=None, sub=None):
        self.prog, self.base, self.dt, self.grid = prog, args, dt, grid
        self.rdt = rdt  # restart-capable time step in whole seconds (names of files have whole seconds)

    def args(self, steps=3, out=1, rst=0, dt=None, extra="", start=None):
        dt = self.dt if dt is None else dt
        a = self.base + " --dt %s --endtime %s --outputtime %s" % (tm(dt), tm(dt * steps), tm(dt * out))
        if rst:
            a += " --output_restart_dt " + tm(dt * rst)
        return (a + " " + extra).split()


def tm(us):
    """microseconds -> command line time"""
    return "%ds" % (us // 1000000) if us % 1000000 == 0 else "%du" % us


S = 1000000
_SW = "--resolution 3 --output_x 12 --output_y 6"
_NS = "--resolution 3 --levels 4 --output_x 12 --output_y 6"
_DC = "--resolution 3 --levels 6 --output_x 12 --output_y 6"
_XZ = "--resx 12 --levels 24 --nohypervis --output_x 12 --output_y 1"
CFG = {
    "sw.rh": Cfg("sw/RossbyHaurwitzWaveTest", _SW, 200 * S, "cs"),
    "sw.2": Cfg("sw/SWTest2", _SW, 200 * S, "cs"),
    "sw.baro": Cfg("sw/BarotropicInstabilityTest", _SW, 100 * S, "cs"),
    "sw.mtn": Cfg("sw/MountainRossbyTest", _SW, 100 * S, "cs"),
    "ns.baldauf": Cfg("ns/BaldaufGravityWaveTest", _NS, 10 * S, "cs"),
    "ns.jw": Cfg("ns/BaroclinicWaveJWTest", _NS, 100 * S, "cs"),
    "ns.umjs": Cfg("ns/BaroclinicWaveUMJSTest", _NS, 100 * S, "cs"),
    "ns.hs": Cfg("ns/HeldSuarezTest", _NS, 100 * S, "cs"),
    "ns.ig": Cfg("ns/InertiaGravityWaveTest", _NS, 1 * S, "cs"),
    "ns.mtn3d": Cfg("ns/MountainRossby3DTest", _NS, 100 * S, "cs"),
    "ns.mtnw": Cfg("ns/MountainWaveSphereTest", _NS, 1 * S, "cs"),
    "ns.schar": Cfg("ns/ScharMountainSphereTest", _NS, 1 * S, "cs"),
    "ns.stat": Cfg("ns/StationaryMountainFlowTest", _NS, 100 * S, "cs"),
    "dc.umjs": Cfg("dc/BaroclinicWaveUMJSTest", _DC, 100 * S, "cs"),
    "dc.tc": Cfg("dc/TropicalCycloneTest", _DC, 100 * S, "cs"),
    "xz.b3dr": Cfg("xz/Baroclinic3DCartesianRidgeTest", "--resx 12 --resy 4 --levels 12 --vertorder 2 --output_x 12 --output_y 4", 30 * S, "cart"),
    "xz.b3d": Cfg("xz/Baroclinic3DCartesianTest", "--resx 12 --resy 3 --levels 4 --output_x 12 --output_y 6", 100 * S, "cart"),
    "xz.dc": Cfg("xz/DensityCurrentCartesianTest", _XZ, 500000, "cart"),
    "xz.hm": Cfg("xz/HydrostaticMountainCartesianTest", _XZ, 1 * S, "cart"),
    "xz.ig": Cfg("xz/InertialGravityCartesianXZTest", _XZ, 1 * S, "cart"),
    "xz.nhm": Cfg("xz/NonHydroMountainCartesianTest", _XZ, 500000, "cart"),
    "xz.rb": Cfg("xz/RobertBubbleCartesianTest", "--resx 12 --levels 12 --nohypervis --output_x 12 --output_y 1 --explicitvertical", 100000, "cart"),
    "xz.schar": Cfg("xz/ScharMountainCartesianTest", _XZ, 500000, "cart"),
    "xz.shear": Cfg("xz/ShearJetMtnWave2DCartesianTest", "--resx 12 --resy 1 --levels 12 --nohypervis --output_x 12 --output_y 1", 1 * S, "cart"),
    "xz.tb3": Cfg("xz/ThermalBubbleCartesian3DTest", "--resx 6 --resy 6 --levels 8 --nohypervis --output_x 6 --output_y 6", 100000, "cart"),
    "xz.tb": Cfg("xz/ThermalBubbleCartesianTest", "--resx 12 --levels 12 --nohypervis --output_x 12 --output_y 1", 100000, "cart"),
}

IMPLICIT = ["strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332"]
EXPLICIT = ["erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53"]
_COMMON = ["--nohypervis", "--order 3", "--order 2", "--norefstate", "--notracers", "--inud 0.1", "--hmethod V2", "--hypervisorder 2 --nu 1e5 --nud 1e5 --nuv 1e5", "--hypervisorder 0", "--nu 5e14 --nud 2e14", "--order 5"]
_NH = ["--vmethod v2 --timescheme ars343", "--vmethod v2 --timescheme ars443", "--vmethod none", "--vstretch cubic", "--vstretch pwlinear", "--vhypervisorder 2", "--vmassfluxlevels", "--vertorder 2 --levels 12", "--vdisc FV --vertorder 2 --levels 12"]
_OUT = ["--output_vort", "--output_div"]
_OUTNH = ["--output_temp", "--output_ps", "--output_z 5"]

# options that only one program has
OWN = {
    "sw.2": ["--alpha 45", "--alpha 90", "--u0 60"],
    "sw.baro": ["--alpha 45"],
    "sw.mtn": ["--alpha 45", "--mountain_lat 60 --mountain_lon 45", "--mountain_height 3500 --mountain_rad 35"],
    "sw.rh": ["--r 3"],
    "ns.umjs": ["--alpha 45", "--deep_atmosphere", "--rayleigh", "--ztop 30000"],
    "ns.jw": ["--alpha 45", "--ztop 30000"],
    "ns.hs": ["--tau0 5 --zh 10000"],
    "ns.stat": ["--omega 7.292e-5", "--h0 500 --lonm 45 --latm 30"],
    "ns.mtnw": ["--noomega", "--U0 5"],
    "ns.schar": ["--omega 7.292e-5", "--cs 2.5e-4", "--tau0 5 --zh 5000", "--lonc 90 --latc 40"],
    "ns.mtn3d": ["--norayleigh", "--lonc 45 --latc 60"],
    "ns.ig": ["--omega 7.292e-5", "--X 20", "--lat_c 60"],
    "dc.tc": ["--nophys", "--bryanpbl", "--rjprecip", "--bryanpbl --rjprecip"],
    "dc.umjs": ["--ztop 20000"],
    "xz.dc": ["--norayleigh", "--ThetaC -5"],
    "xz.hm": ["--norayleigh", "--hC 500", "--u0 5"],
    "xz.ig": ["--norayleigh", "--u0 5"],
    "xz.nhm": ["--norayleigh", "--hC 300", "--nuDiffS 50 --nuDiffV 50"],
    "xz.schar": ["--norayleigh", "--u0 5"],
    "xz.shear": ["--norayleigh", "--nuDiffS 50 --nuDiffV 50", "--uj 10"],
    "xz.b3d": ["--norayleigh", "--up 5"],
    "xz.b3dr": ["--norayleigh", "--hC 1500"],
    "xz.tb": ["--zC 500 --ThetaC 2"],
    "xz.tb3": ["--zC 500 --ThetaC 2"],
    "xz.rb": ["--ThetaC 2"],
}


def family(key):
    return key.split(".")[0]


def options(rng, key, n=None, scheme=None, outputs=True):
    """a random valid set of options for the configuration, as a list of words; numerics of the run stay well behaved"""
    f = family(key)
    n = rng.choice([0, 0, 1, 1, 2, 3]) if n is None else n
    pool = list(_COMMON)
    if f != "sw":
        pool += _NH
    if outputs:
        pool += _OUT + (_OUTNH if f != "sw" else []) + (["--output_Ri"] if f == "xz" else [])
    out = []
    for o in rng.sample(pool, min(n, len(pool))):
        w = o.split()
        if any(x.split()[0] == w[0] for x in out):
            continue
        # horizontal method V2 is only there for order 4; vertical method V2 (with schemes that do not carry over) not for three
        # mountain cases; horizontal method V2 has no form for temperatures kept on interfaces (xz.rb); order 5 needs shorter steps on the Cartesian grids
        if {"--hmethod", "--order"} <= {w[0]} | {x.split()[0] for x in out} or (w[0] == "--vmethod" and w[1] == "v2" and key in ("xz.schar", "xz.shear", "ns.schar")) or (w[1:] == ["V2"] and key == "xz.rb") or (w[1:] == ["5"] and w[0] == "--order" and f == "xz"):
            continue
        if "--nu" in w and any("--nu" in x for x in out):
            continue
        # more levels: not where that runs into the terminator chemistry's finding; finite volumes only with the default vertical method
        if "--levels" in w and (key == "dc.umjs" or any("--levels" in x for x in out)) or ({"--vmethod", "--vdisc"} <= {w[0]} | {x.split()[0] for x in out}) or (w[0] == "--vdisc" and "explicitvertical" in CFG[key].base):
            continue
        if ({"--vmethod", "--vstretch"} <= {w[0]} | {x.split()[0] for x in out}):
            continue
        out.append(o)
    if n and key in OWN and rng.random() < .35:
        out.append(rng.choice(OWN[key]))
    if any("--timescheme" in o for o in out):
        scheme = False
    if scheme is None:
        scheme = rng.random() < .5
    if scheme is True:
        out.append("--timescheme " + rng.choice(IMPLICIT[:6] + EXPLICIT if f == "sw" else IMPLICIT))
    elif scheme:
        out.append("--timescheme " + scheme)
    return " ".join(out).split()
