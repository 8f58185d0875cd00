import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p("C01","Results do not depend on message timing or ordering",
 "For a fixed command line and number of processors, every legal MPI behaviour (any delay and interleaving of messages between different pairs of processors, eager or synchronous sends, late completion, early or late release from collectives, any reduction order the standard allows for order-insensitive operations) gives bit-for-bit the same restart files, reference output files and printed diagnostics (other than measured times). In particular no data is used before its message has completed and no buffer is reused while a message is still using it.",
 ["schedules","configurations"],"all message schedules legal under MPI, for every program, processor count, time scheme and grid",
 "The tests compare nothing between runs and see the one schedule that the shared-memory MPI of the test machine happens to produce, nearly always eager and in order, on one to four processors.",
 ["src/atm/Grid.cpp","src/atm/GridPatch.cpp","src/atm/Connectivity.cpp","src/atm/OutputManagerComposite.cpp","src/atm/GridCSGLL.cpp","src/atm/GridCartesianGLL.cpp"],
 [("non-blocking halo exchange with Waitany/WaitSend","src/atm/Connectivity.cpp ExchangeBufferRegistry; src/atm/Grid.cpp Grid::Exchange"),("gather of patches to the root with patch index in the message","src/atm/OutputManagerComposite.cpp Output"),("reductions of interpolated output","src/atm/Grid.cpp ReduceInterpolate, Checksum")],
 [("exchange buffers","packed halo data in flight","src/atm/Connectivity.h ExchangeBuffer")],["*.restart.dat","*.nc","standard output"])
p("C02","Results do not depend on the number of processors",
 "A run on any number of processors that the program accepts computes the same solution: cubed-sphere runs give bit-for-bit the same nodal state in the restart files whatever the number of processors (including more processors than patches), and the reference output and printed checksums and error norms of every run agree to round-off. A processor count that a grid cannot be divided over is refused with an error instead of giving a result.",
 ["configurations","schedules"],"all processor counts and patch layouts, under any message schedule, for every program and option set without unseeded per-processor noise",
 "No test compares runs with different processor counts; a wrong halo on one patch edge, corner or panel orientation changes results only for particular layouts.",
 ["src/atm/Grid.cpp","src/atm/GridCSGLL.cpp","src/atm/GridCartesianGLL.cpp","src/atm/GridPatchCSGLL.cpp","src/atm/GridPatchCartesianGLL.cpp","src/atm/Connectivity.cpp","src/atm/CubedSphereTrans.cpp"],
 [("patch layout and distribution over processors","src/atm/GridCSGLL.cpp ApplyDefaultPatchLayout; src/atm/Grid.cpp DistributePatches"),("exchange buffers over edges and corners with orientation reversal","src/atm/Connectivity.cpp"),("direct stiffness summation","src/atm/GridCSGLL.cpp, src/atm/GridCartesianGLL.cpp ApplyDSS")],
 [],["*.restart.dat","*.nc","checksums and error norms on standard output"])
p("C03","A restarted run continues exactly as the uninterrupted run",
 "A run restarted from any restart file that an earlier run wrote, on the same or another number of processors and with the same options, produces from there on the same restart files (bit for bit), the same reference output at the same simulated times and the same checksums as the run that was never interrupted. This holds for every equation set, grid, option and time scheme, and for chains of restarts. Perturbing a restart adds what the program defines as perturbation, whatever the number of processors, and nothing where it defines none. (Output and restart intervals are counted from the start of each run.)",
 ["histories","configurations","crash_points"],"all programs, options, time schemes, restart times, processor counts before and after, and sequences of restarts",
 "The tests that restart at all compare only that the program ends; none compares the continued trajectory with the uninterrupted one.",
 ["src/atm/OutputManagerComposite.cpp","src/atm/Model.cpp","src/atm/TempestInitialize.h","src/atm/GridPatch.cpp","src/atm/Grid.cpp","src/base/DataContainer.cpp","src/atm/OutputManager.cpp"],
 [("dump and load of the data containers","src/atm/OutputManagerComposite.cpp Output, Input"),("what is stored and what is recomputed","src/atm/GridPatch.cpp InitializeDataLocal; src/atm/Model.cpp SetGridFromRestartFile, SetTestCase")],
 [("active state","prognostic state and tracers","src/atm/GridPatch.cpp m_dcActiveState")],["*.restart.dat","*.nc","standard output"])
p("C04","Restart files survive a crash at any point",
 "If the job is killed at any moment, every file under a final restart file name is a complete, loadable restart file with exactly the content that the undisturbed run gives that time, every restart file of a time the run had already gone on from is there, and restarting from the newest one reaches the same final state as an uninterrupted run, also when crashes repeat. A truncated, foreign or otherwise incomplete restart file is refused with an error and never silently continued from.",
 ["crash_points","histories"],"a crash before or within any file operation of any processor, any number of times, and any truncation of the file",
 "No test kills a run or offers it a damaged restart file.",
 ["src/atm/OutputManagerComposite.cpp","src/atm/OutputManager.cpp","src/atm/Model.cpp"],
 [("write to a temporary name, verify, rename","src/atm/OutputManagerComposite.cpp OpenFile, CloseFile"),("validation when reading","src/atm/OutputManagerComposite.cpp Input")],
 [("restart file","check word, time, grid parameters, patch data","src/atm/OutputManagerComposite.cpp")],["*.restart.dat","standard output","exit status"])
p("C05","File system errors are reported, never silently lose results",
 "Whatever file operations fail (full disk, I/O error, permission, open-file limit, interrupted or short writes and reads, failures at close or rename), a run either completes with all output files, restart files and diagnostics identical to the undisturbed run, or it reports an error (message naming an exception or error, or non-zero exit). It never ends as if successful with missing, truncated or altered output.",
 ["fault_sequences","configurations"],"every file operation, every error kind, transient or persistent, single or combined, while writing reference output or restart files or reading restart files",
 "No test makes a file operation fail.",
 ["src/atm/OutputManagerComposite.cpp","src/atm/OutputManagerReference.cpp","src/base/netcdf.cpp","src/atm/OutputManager.cpp","src/atm/Model.cpp"],
 [("stream state checks","src/atm/OutputManagerComposite.cpp CloseFile, Input"),("NcError verbose_fatal and validity checks","src/base/netcdf.cpp; src/atm/OutputManagerReference.cpp OpenFile")],
 [],["*.restart.dat","*.nc","standard output and error","exit status"])
p("C06","Every run makes progress and communicates cleanly",
 "Without faults every run terminates on every processor under every legal message schedule, however slow or stalled individual processors or messages are: no deadlock for synchronous sends, no dependence on MPI buffering, and no unbounded waiting. All processors take part in the same collectives with matching arguments, every message sent is received exactly once with a matching size, no request is left unfinished when MPI is finalized, and MPI is not used before initialization or after finalization.",
 ["schedules","configurations"],"all legal schedules and all processor counts, including processors without grid patches",
 "The test machine's MPI buffers all messages of the sizes in the tests and hides deadlocks, unmatched messages and premature finalization.",
 ["src/atm/Grid.cpp","src/atm/Connectivity.cpp","src/atm/OutputManagerComposite.cpp","src/atm/OutputManagerReference.cpp","src/atm/Model.cpp","src/atm/TempestInitialize.h"],
 [("receives posted before sends; all sends completed","src/atm/Connectivity.cpp; src/atm/Grid.cpp Exchange"),("barriers and reductions by all processors","src/atm/OutputManager*.cpp, src/atm/Grid.cpp")],
 [("pending requests","outstanding sends and receives","src/atm/Connectivity.h")],["termination of the job","MPI call history"])
p("C07","An error on one processor ends the whole job",
 "When any one processor fails on its own (an exception, a failing allocation, an unreadable restart file or failing output on that processor alone), the whole job ends within a bounded number of steps with a reported error or a crash, or else completes with results identical to an undisturbed run. The remaining processors never wait forever, and never complete as if successful with different results.",
 ["fault_sequences","schedules"],"all single-processor failures at any point of set-up, time stepping, output and restart input, on any rank",
 "No test makes one processor fail while the others go on.",
 ["src/atm/Model.cpp","src/atm/TempestInitialize.h","src/base/DataContainer.cpp","src/base/DataArray1D.h","src/base/Exception.h","src/atm/Grid.cpp"],
 [("abort of all processors on an exception","src/atm/Model.cpp TerminateParallelRun"),("allocation checks","src/base/DataContainer.cpp Allocate")],
 [],["exit status","standard output","termination of all processors"])
p("C08","Nodes shared between elements and patches hold one value",
 "At the end of every time step the scalar fields (density or height, potential temperature, vertical velocity, tracers) and the wind as a physical vector have the same value, to round-off, at every copy of a node shared by several elements, patches, panels or periodic boundaries, on whichever processors the copies live. The state stays finite in stable configurations.",
 ["histories","configurations","schedules"],"every step of every run, all grids, schemes, processor counts and message schedules",
 "No test looks at duplicated nodes; a one-sided halo error leaves the global diagnostics the tests print unremarkable.",
 ["src/atm/GridCSGLL.cpp","src/atm/GridCartesianGLL.cpp","src/atm/GridGLL.cpp","src/atm/GridPatchCSGLL.cpp","src/atm/HorizontalDynamicsFEM.cpp","src/atm/Connectivity.cpp"],
 [("direct stiffness summation after each substage","src/atm/GridCSGLL.cpp ApplyDSS; src/atm/GridCartesianGLL.cpp ApplyDSS"),("halo exchange and panel vector transformation","src/atm/Connectivity.cpp; src/atm/GridPatchCSGLL.cpp TransformHaloVelocities")],
 [("state at nodes","one copy per element","src/atm/GridPatch.h GetDataState")],["state of all patches after each step"],
 "a call at the end of each step of Model::Go that shows the grid to the simulator (guarded by TEMPEST_SIM_HOOK)")
p("C09","Total mass, heat and tracers are conserved",
 "In runs without moist physics, open boundaries or explicit diffusion of density, the total mass (total fluid volume for shallow water) reported by the checksum diagnostics stays constant to round-off at every output of the run, for every horizontal and vertical scheme, time scheme, processor count, message schedule and across restarts. So does the total density-weighted potential temperature when the run has no heating, Rayleigh layer or explicit uniform diffusion, and the total water vapour when it has no physics and a Strang-type time scheme (other schemes extrapolate tracers below zero, which the positivity filter cuts off). (Over topography on Cartesian grids, where the vertical metric varies with height, this is claimed for finite elements of the default order only.)",
 ["histories","configurations","schedules"],"all outputs of all runs in the stated class, including restarted ones and any processor count",
 "The tests print the checksums and do not look at them, and only for one short run per program.",
 ["src/atm/HorizontalDynamicsFEM.cpp","src/atm/HorizontalDynamicsFEMV2.cpp","src/atm/VerticalDynamicsFEM.cpp","src/atm/GridPatch.cpp","src/atm/GridCSGLL.cpp","src/atm/GridCartesianGLL.cpp","src/atm/TimestepSchemeStrang.cpp"],
 [("flux form and direct stiffness summation","src/atm/HorizontalDynamicsFEM.cpp; src/atm/GridCSGLL.cpp ApplyDSS"),("checksum weighted with element areas","src/atm/GridPatch.cpp Checksum; src/atm/Grid.cpp Checksum")],
 [("density","prognostic mass per volume","src/atm/EquationSet.cpp")],["checksums on standard output"])
p("C10","Output happens exactly at the scheduled simulated times",
 "Every run covers exactly the interval from its start to its end time in steps of the time step (the last one shortened), and writes initial, periodic and final output exactly once each: one record per scheduled time, in increasing order, labelled with the right time, divided into files as requested, and one restart file per scheduled restart time under its own name, none missing, duplicated or overwritten by another time. This holds across day, month and year ends, for sub-second steps, for steps that do not divide the intervals, and for restarted runs.",
 ["inputs","histories"],"all combinations of time step, end time, output and restart intervals, records per file, start by restart, and number of processors",
 "The tests use one combination per program and do not look at the files.",
 ["src/atm/OutputManager.cpp","src/atm/OutputManagerReference.cpp","src/atm/OutputManagerComposite.cpp","src/atm/Model.cpp","src/base/TimeObj.cpp","src/atm/TempestInitialize.h"],
 [("next output time","src/atm/OutputManager.cpp IsOutputNeeded, ManageOutput, FinalOutput"),("main loop","src/atm/Model.cpp Go"),("time arithmetic","src/base/TimeObj.cpp")],
 [("next output time","when output is due","src/atm/OutputManager.h m_timeNextOutput")],["*.nc","*.restart.dat","Step lines on standard output"])
p("C11","Results depend only on the inputs",
 "Two runs with the same command line, inputs and number of processors give identical files and diagnostics whatever the wall clock does (offset, drift, jumps forwards or backwards, different per processor), whatever was in the memory they allocate, however long file operations take, and whatever files an earlier run left in the output directory; files that are not its own output (other names, the restart file it reads) stay as they are; measured times printed may differ but the run ends normally.",
 ["fault_sequences","configurations","histories"],"all clock behaviours, initial memory contents, leftover files and file system delays",
 "The tests run once on fresh memory and a normal clock.",
 ["src/base/FunctionTimer.cpp","src/base/DataContainer.cpp","src/base/DataArray1D.h","src/base/DataArray2D.h","src/base/DataArray3D.h","src/base/DataArray4D.h","src/atm/OutputManagerReference.cpp","src/atm/OutputManagerComposite.cpp","src/atm/Grid.cpp"],
 [("zero initialization of arrays and containers","src/base/DataContainer.cpp Allocate; src/base/DataArray*.h"),("timers used for reporting only","src/base/FunctionTimer.cpp"),("replacing output files","src/atm/OutputManagerReference.cpp OpenFile")],
 [],["*.nc","*.restart.dat","standard output"])
p("C12","Memory, requests and file handles stay bounded in long runs",
 "The peak memory of every processor, the number of files open at a time and the number of unfinished MPI requests do not grow with the number of time steps, outputs or restart files of a run, and at the end of a run all files are closed and all requests completed.",
 ["histories","configurations","schedules"],"runs of any length, all programs, output options and processor counts",
 "The tests take a few steps each; a leak per step or output exhausts only long production runs.",
 ["src/atm/Connectivity.cpp","src/atm/Grid.cpp","src/atm/OutputManagerReference.cpp","src/atm/OutputManagerComposite.cpp","src/atm/OutputManager.cpp","src/base/FunctionTimer.cpp","src/atm/VerticalDynamicsFEM.cpp"],
 [("buffers allocated once","src/atm/Connectivity.cpp; src/atm/OutputManager*.cpp"),("files closed after the last record","src/atm/OutputManager.cpp PerformOutput")],
 [],["allocations, open files and requests of each processor"])
p("C13","Post-processing tools are faithful or report an error",
 "The tools that convert or extract reference output either write complete results, identical on every execution (for every time the values of the input, tracers divided by density, or their interpolation to the requested levels), or report an error, whatever file operations fail while they read or write. What they write does not depend on the number of processors or the schedule of the run that produced their input.",
 ["fault_sequences","inputs"],"every file operation and error kind while a tool reads its input or writes its results",
 "The tests do not run the tools.",
 ["util/CFConverter/CFConverter.cpp","util/ExtractSurface/ExtractSurface.cpp","src/base/netcdf.cpp"],
 [("checks of reads, writes and close","util/CFConverter/CFConverter.cpp, util/ExtractSurface/ExtractSurface.cpp")],
 [],["output files of the tools","standard output","exit status"])
p("C14","No run touches memory outside what it allocated",
 "No run reads or writes outside its heap allocations, uses memory after freeing it, or frees it twice, for any configuration, number of processors or schedule, also when it starts from a restart file, is refused or ends with an error.",
 ["configurations","schedules","fault_sequences"],"all programs, options, processor counts, schedules and error paths",
 "The tests run without memory checking on a few configurations and no error paths.",
 ["src/base/DataArray1D.h","src/base/DataArray2D.h","src/base/DataArray3D.h","src/base/DataArray4D.h","src/base/DataContainer.cpp","src/atm/Connectivity.cpp","src/atm/GridPatchGLL.cpp","src/atm/OutputManagerComposite.cpp"],
 [("sizes of arrays and exchange buffers","src/atm/Connectivity.cpp; src/base/DataArray*.h"),("ownership of arrays","src/base/DataContainer.cpp")],
 [],["memory accesses of each processor"])
p("C15","Calendar arithmetic is exact",
 "Adding seconds, days, months and years to a time and subtracting two times follow the selected calendar exactly for every date.",
 ["inputs"],"all dates and increments","A handful of dates cannot cover carries between all units.",
 ["src/base/TimeObj.cpp"],[("normalization and subtraction","src/base/TimeObj.cpp")])
p("C16","Discretizations reach their design accuracy",
 "Quadrature, interpolation, differentiation and time integration are exact for the polynomials or reach the order they are designed for.",
 ["inputs"],"all orders and resolutions","Tests print error norms of one resolution without judging them.",
 ["src/base/GaussLobattoQuadrature.cpp","src/base/GaussQuadrature.cpp","src/base/PolynomialInterp.cpp","src/atm/LinearColumnOperatorFEM.cpp","src/atm/TimestepSchemeARS343.cpp"],[("nodes, weights and coefficients","src/base/*.cpp; src/atm/TimestepScheme*.cpp")])
p("C17","Cubed-sphere coordinate and vector transforms are inverse to each other",
 "Transforming a point or vector from spherical to panel coordinates and back, or between panels, returns the original to round-off at every point of the sphere.",
 ["inputs"],"all points, panels and vectors","Tests exercise the nodes of a few grids only and check no round trip.",
 ["src/atm/CubedSphereTrans.cpp"],[("closed-form transforms","src/atm/CubedSphereTrans.cpp")])
p("C18","Command lines are understood as documented",
 "Every documented option sets the quantity it names, defaults apply when it is absent, and unknown or malformed options are refused.",
 ["inputs"],"all command lines","Tests use a few fixed command lines.",
 ["src/base/CommandLine.h","src/atm/TempestInitialize.h"],[("option table","src/base/CommandLine.h")])
p("C19","Output does not disturb the simulation",
 "What a run computes does not depend on what it is asked to write: with any output and restart intervals, records per file, output grid and levels, additional output variables or no output at all, the state at the end of every step, the checksums printed for a time, the restart files of a time and the values written for a variable and time are bit for bit those of the run that writes everything at every step.",
 ["configurations","schedules","histories"],"all output settings, programs, options, processor counts, message schedules and file system delays",
 "No test compares two runs; a diagnostic that leaves something behind in halos, work arrays or the state shows only as a slightly different trajectory.",
 ["src/atm/OutputManager.cpp","src/atm/OutputManagerReference.cpp","src/atm/OutputManagerChecksum.cpp","src/atm/OutputManagerComposite.cpp","src/atm/Model.cpp","src/atm/Grid.cpp","src/atm/GridPatchGLL.cpp","src/atm/GridPatchCSGLL.cpp","src/atm/GridPatchCartesianGLL.cpp"],
 [("output after each step, at its own intervals","src/atm/Model.cpp Go; src/atm/OutputManager.cpp ManageOutput"),("derived fields computed from the state","src/atm/Grid.cpp ComputeVorticityDivergence, ComputeTemperature, ComputeRichardson"),("interpolation to the output grid and reduction to the root","src/atm/Grid.cpp ReduceInterpolate")],
 [("state","first data instance of all patches","src/atm/GridPatch.h GetDataState")],["state of all patches after each step","*.restart.dat","*.nc","checksums on standard output"],
 "a call at the end of each step of Model::Go that shows the grid to the simulator (guarded by TEMPEST_SIM_HOOK)")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
