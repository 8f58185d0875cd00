"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded exploration: every execution is the repository's real program under the simulator, exactly repeatable from its seed; nothing is shown about inputs, schedules or faults that were not drawn. "
          "Trusted: the simulated MPI, file and clock layer (sim/host.cpp), libnetcdf and LAPACK.")
T = {
    "C01": ("deterministic simulation: seeded message schedules, files and state compared bitwise with the undisturbed schedule", "Metamorphic oracle: the same run under a schedule without disturbances."),
    "C02": ("deterministic simulation: the same run on seeded pairs of processor counts and schedules, compared", "Cubed-sphere states are compared bit for bit, Cartesian fields with a tolerance (their decomposition follows the processor count)."),
    "C03": ("deterministic simulation: seeded crash/restart chains against the uninterrupted run", "One recorded finding (carry-over of the Strang schemes) is reported as KNOWN-FINDING."),
    "C04": ("deterministic simulation with crash injection: kill at a seeded file operation or byte, inspect what survives, restart", "The page cache is assumed to survive a killed job; a crash of the machine is simulated as files with lost ends, which must be refused."),
    "C05": ("deterministic simulation with fault injection: seeded file system errors, short transfers and full disks", "An error is accepted as reported when the run prints an exception or ends with an error."),
    "C06": ("deterministic simulation: seeded delays, stalls, starvation and rendezvous schedules; deadlock, progress and MPI-usage monitors", "Progress means termination within a bounded number of simulator steps and MPI calls."),
    "C07": ("deterministic simulation with fault injection on one processor; liveness of the whole job", "Includes failing allocations, unreadable files, full disks and lost processors on seeded processors."),
    "C08": ("deterministic simulation: invariant over the state after every step of seeded runs", "Copies are compared with a tolerance of 1e-9 of the largest value of the field."),
    "C09": ("deterministic simulation: conservation invariant over the checksums of seeded runs with restarts on other processor counts", "Tolerance 1e-11 relative; only workloads that conserve mass analytically."),
    "C10": ("deterministic simulation: histories of output under a simulated clock against an executable reference schedule", "Reference model: schedule() in lib/props.py, in integer microseconds."),
    "C11": ("deterministic simulation: clock jumps and skew, contents of fresh memory, file stalls and leftover files against the undisturbed run", "Everything the simulator can vary outside the inputs is drawn from the seed."),
    "C12": ("deterministic simulation: resource accounting over long seeded histories", "Heap, handles and requests are accounted per processor by the simulator; growth is judged between runs of N, 2N and 4N steps."),
    "C13": ("deterministic simulation with fault injection of the post-processing tools", "One recorded finding (attributes lost when an allocation fails) is reported as KNOWN-FINDING."),
    "C14": ("deterministic simulation with failing allocations and files; every allocation guarded by inaccessible pages", "Stack and global arrays and overruns inside one allocation are not seen. One recorded finding (TerminatorPhysics) is reported as KNOWN-FINDING."),
    "C19": ("deterministic simulation: seeded pairs of output settings under seeded schedules and file delays, compared", "Metamorphic oracle: the same run writing everything at every step. Interpolated copies of state variables that --output_Ri leaves in restart files are not compared (each step computes them anew)."),
}
NA = {
    "C15": "Pure arithmetic on one value: no concurrency, time source, I/O or fault takes part; a simulator adds nothing to calling the functions. The calendar steps that runs reach are covered by C10.",
    "C16": "Pure numerical functions of their arguments (quadrature, interpolation, Butcher tables); no schedule, clock, I/O or fault for the property to depend on.",
    "C17": "Pure functions of a point and a vector; no schedule, clock, I/O or fault for the property to depend on.",
    "C18": "The mapping from an option to the quantity it names is a function of argv read once at start; no schedule, clock, I/O or fault takes part.",
}
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "hooks": {"guard": "TEMPEST_SIM_HOOK", "enable": "lib/build.py compiles /repo's sources with -DTEMPEST_SIM_HOOK and links sim/hook.cpp", "source_commits": ["3cc9f32", "92d507b"]},
     "checks": [{"property": c, "quick_cmd": "python3 check.py %s" % c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % c, "technique": t, "level": "exploration", "level_note": n + " " + COMMON} for c, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": c, "reason": r} for c, r in sorted(NA.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
