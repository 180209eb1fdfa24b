#!/usr/bin/env python3
# Generates properties.jsonl (kept in step by hand-editing this file, then running it).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/nuSQuIDS/"
p("C01","Multi-dimensional arrays behave as their mathematical model",
 "A multi-dimensional array is a row-major table of the requested shape: after any history of construction (from shapes, nested literals, ranges, sums, other arrays, copies and moves), element or partial-index access, iteration in either direction, resizing, reshaping, row insertion and erasure, assignment and swapping, its extents, element count, emptiness and element values are those of an ordinary list of values with the same history. Resizing keeps every element whose index lies in both shapes, copies are independent of their source, a moved-from array can be reused, and shapes that do not fit an operation are rejected with an exception that leaves the operands as they were.",
 ["histories","inputs"],"every element type, rank, shape (including zero extents) and operation sequence",
 "tests only use a few arrays implicitly; no test drives histories of resize/assign/move or checks indices at the boundary",
 [I+"marray.h"],
 [("storage and index arithmetic","marray.h: class marray, extent/size/operator[]/at/resize"),("reference and slice types","marray.h: subarray"),("copy/move/swap","marray.h: copy_assign, move_assign, swap")],
 ["public members of the array and of its slices"])
p("C02","Arrays construct, destroy and free everything exactly once, even on failure",
 "Every element an array creates is destroyed exactly once and every block of memory it acquires is released exactly once with the size it was acquired with, through the allocator that supplied it. This holds after every operation including those in which an element copy, construction or a memory request fails part-way; after such a failure the array is still usable and destructible with shape and contents consistent, and a failed assignment or single-row resize, insertion or erasure leaves the target with its previous values.",
 ["fault_sequences","histories"],"every operation sequence with a failure injected at every allocation, element construction and element assignment",
 "no test throws from an element or an allocator; a leak or double destruction is invisible to result comparison",
 [I+"marray.h"],
 [("allocation and element lifetime","marray.h: constructors, resize, copy_assign, move_assign, destructor"),("allocator propagation","marray.h: allocator_traits uses in copy/move/swap")],
 ["instrumented element type and allocator"])
p("C03","Array arithmetic and functions are elementwise",
 "Arithmetic between arrays, or between an array and a scalar on either side, negation, compound assignment, and the mathematical functions provided for arrays are exactly the scalar operation applied to the corresponding element(s) in the written order, giving an array of the common shape, where an operand lacking leading dimensions or having extent one along a dimension is repeated along it. Operands other than the target of a compound assignment are unchanged, and combining arrays of incompatible shape is rejected with an exception without modifying anything.",
 ["inputs"],"all shapes and ranks, element and scalar types, and values including zeros, infinities and mixed signs",
 "no test calls array arithmetic with a scalar on the left or with mismatched shapes",
 [I+"marray.h"],[("operators","marray.h: BINARY/UNARY operator macros and friend operators")])
p("C04","Aligned memory is aligned, disjoint, writable and returned",
 "Every block handed out by the aligned allocator starts at a multiple of the requested alignment, is writable over the full requested length without touching any other live block, and can be released exactly once, after which all underlying memory is returned. An allocation that cannot be satisfied is reported by an exception and leaks nothing.",
 ["inputs","histories","fault_sequences"],"every power-of-two alignment, size and element type, interleaved allocation/release histories, and refusal of any underlying request",
 "nothing in the tests allocates through it with other than the default alignment or makes malloc fail",
 [I+"aligned_alloc.h"],[("over-allocation with stored offset","aligned_alloc.h: aligned_allocator::allocate/deallocate"),("use in the evolution state and interaction tables","nuSQuIDS.h: InteractionStructure; nuSQuIDS.cpp: InitializeInteractionVectors")])
p("C05","Numerical integration honours its tolerance and its evaluation contract",
 "Integrating a smooth function over a finite interval returns its integral to the requested accuracy unless the caller is told that the tolerance was not met; exchanging the limits negates the result exactly, polynomials of low degree are integrated to rounding, and intervals too narrow to subdivide or tolerances below machine precision are refused with an exception. The integrand is only evaluated inside the closed interval, and end-point values supplied by the caller are used instead of evaluating there and never change the result. An integrand which cannot be resolved to the tolerance, such as a step or one with values which are not finite, still ends after a bounded number of evaluations and is reported as out of tolerance.",
 ["inputs","configurations"],"every integrand, interval orientation and scale, tolerance, depth limit and option combination",
 "tools_integrator integrates a handful of functions forwards with default options",
 [I+"AdaptiveQuad.h",I+"tools.h"],[("adaptive Gauss-Kronrod/Simpson bisection","AdaptiveQuad.h: integrate, Options"),("trapezoid/spline integration","tools.h: integrate")])
p("C06","The thread pool runs every accepted task exactly once and loses no result",
 "Every task accepted by the thread pool is executed exactly once, its return value or its exception is delivered to exactly the handle returned for it, and the task object is released. Destroying the pool first completes all accepted tasks and then returns; a pool with one worker runs tasks in submission order, a pool of n workers can run n tasks at once and never more, and a task submitted once the pool is shutting down is refused with an exception.",
 ["schedules","histories"],"any number of workers, submitters and tasks, any interleaving including tasks that throw or submit tasks, and destruction at any moment",
 "no test uses the pool directly; the lost or duplicated task depends on the interleaving",
 [I+"ThreadPool.h"],[("queue, mutex and condition variable","ThreadPool.h: enqueue, worker loop, destructor")],
 state=[("task queue","accepted but not started","ThreadPool.h: tasks"),("stop flag","shutdown began","ThreadPool.h: stop")])
p("C07","Concurrent use of distinct or read-only objects is race-free",
 "Using the library from several threads at once, where each object is either confined to one thread or only read, involves no data race and gives every thread the same values as running alone. This covers interpolation tables, cross sections, tau-decay spectra, bodies and tracks shared as constants, independent evolution objects, and the library's own multi-threaded evolution.",
 ["schedules"],"all thread counts, interleavings and mixes of read-only operations on shared objects",
 "the tests are single-threaded except one run on a fixed schedule; a race does not show in results deterministically",
 [I+"ThreadPool.h",I+"tools.h",I+"nuSQuIDS.h",I+"body.h",I+"xsections.h","src/tools.cpp","src/taudecay.cpp","src/body.cpp"],
 [("const interpolation without mutable caches","tools.h/tools.cpp"),("one evolution object per task","nuSQuIDS.h: nuSQUIDSAtm::EvolveState")])
p("C08","Interpolated tables reproduce their data and interpolate between it",
 "One-, two- and three-dimensional interpolators return the tabulated value at each node, reproduce any (multi)linear table everywhere inside the grid, follow the cubic through values and Akima slopes in every cell, the outermost ones continued beyond the grid, so that they are continuous everywhere, report derivatives that match the returned values, and reduce to the lower-dimensional interpolator when the table does not depend on a coordinate. Copies, moves and re-initialised objects answer identically, scaling table or axes scales the answer accordingly, an empty interpolator gives zero, and inconsistent, unordered or insufficient input data are rejected with an exception.",
 ["inputs"],"every table (uniform or irregular spacing, any size, sign or magnitude) and every query point inside the domain",
 "tools_tricubic checks a single function on a symmetric grid",
 [I+"tools.h","src/tools.cpp"],[("Akima spline","tools.h/tools.cpp: AkimaSpline"),("bicubic and tricubic patches","tools.cpp: BiCubicInterpolator, TriCubicInterpolator")])
p("C09","Whitespace tables survive writing and reading and bad files are rejected",
 "Writing a two-dimensional table of numbers to a text file and reading it back yields a table of the same shape with values equal to the written fifteen digits; reading any rectangular whitespace-separated file ignores blank lines, comment lines and trailing comments wherever they are and returns all data rows in order, none for an empty file. A file that cannot be opened, or whose rows differ in length, is rejected with an exception instead of returning wrong data.",
 ["inputs"],"every table shape and value, every placement of comments, blank lines, tabs, trailing spaces and missing final newline, and malformed rows",
 "tests only read the shipped, well formed files",
 ["src/tools.cpp",I+"tools.h"],[("line parser","tools.cpp: quickread, split"),("writer","tools.cpp: quickwrite")])
p("C10","Arrays and attributes survive storage in HDF5 with handles balanced",
 "A numeric array of any rank, shape (empty included) and type, or a numeric or string attribute, written to an HDF5 location and read back has the same shape and bit-identical values, at any compression level. Reading an object that is absent or of a different rank or type, writing over one that exists, and every HDF5 call that fails underneath are reported by an exception; and every HDF5 handle opened by these operations or held by the library's handle wrappers is closed exactly once, on success, failure, move and reassignment alike.",
 ["inputs","fault_sequences","histories"],"all ranks, shapes, values, names, compression levels, missing or mistyped objects and handle ownership histories",
 "hdf5 tests cannot run without the full library and never look at open handle counts",
 [I+"tools.h","src/tools.cpp"],[("array I/O","tools.h: writeArrayH5, readArrayH5"),("attributes","tools.h/tools.cpp: addH5Attribute, readH5Attribute"),("RAII wrappers","tools.h: H5Handle, H5File")])
p("C11","Energy and coordinate grids are ordered and hit both ends",
 "A linearly or logarithmically spaced grid has exactly the requested number of points, starts at the first and ends at the last requested value, is strictly monotonic between different bounds, and has equal differences (respectively equal ratios) between consecutive points to rounding. A grid of one point holds the last value, and a grid of no points is rejected with an exception.",
 ["inputs"],"all bounds over many decades and all numbers of points",
 "tests use two or three fixed grids",
 ["src/tools.cpp",I+"tools.h"],[("linspace and logspace","tools.cpp")])
p("C12","Matrix helper functions obey exact linear algebra",
 "Changing the basis of a complex matrix by a given transformation returns exactly the conjugated product, so a unitary change preserves trace, hermiticity and spectrum and is undone by the inverse change; the conjugation helper returns the elementwise complex conjugate. Matrices other than the named destination are left unchanged and no temporary outlives the call.",
 ["inputs"],"all square sizes and complex entries",
 "no test calls the helpers directly",
 ["src/tools.cpp",I+"tools.h"],[("basis change","tools.cpp: gsl_matrix_complex_change_basis_UMUC/UCMU, gsl_matrix_complex_conjugate")])
p("C13","Tau-decay spectra are physical probability densities",
 "For every tau energy the daughter-neutrino spectra of each decay channel are finite, non-negative, vanish outside the kinematic range, depend only on the ratio of daughter to parent energy, and integrate over that ratio to one, the branching ratios summing to one, and they equal the published functions for fully polarised taus (PRD 62 123001). Spectra tabulated on an energy grid equal the pointwise sum over channels weighted with their branching ratios for neutrinos and antineutrinos, in both normalisations offered, and indices or neutrino types outside the tables are rejected with an exception.",
 ["inputs"],"all parent and daughter energies on any grid, and both neutrino types",
 "existing tests never evaluate the spectra except within a full evolution comparison",
 ["src/taudecay.cpp",I+"taudecay.h"],[("polarised decay formulas","taudecay.cpp: TauDecaySpectra")])
p("C14","Data-file resolution follows the documented precedence",
 "The directory from which physics tables are loaded is the one named by the environment override, verbatim, whenever that is set, otherwise the installed data directory if the library was installed, and otherwise the source data directory. The result tracks changes of the environment between calls, bodies and tables that are loaded by default come from that directory, and are refused with an exception when it lacks them.",
 ["configurations"],"environment unset, empty, with or without trailing separator, changed between calls",
 "tests run with one environment",
 ["src/resources.cpp","include/nuSQuIDS/resources.h"],[("lookup","resources.cpp: getResourcePath")])
p("C15","Matter profiles return the tabulated or defined medium everywhere on a path",
 "At every position along a path through a body the density and electron fraction are those of the body's defining profile: constant and user-given profiles return the given numbers (interpolated by the library's spline, reproducing them at the nodes), Earth and solar profiles depend only on the distance to the centre which the path geometry implies, and the atmosphere above the surface falls off exponentially. Positions beyond the tabulated range take the boundary value or zero as the body defines, both quantities are finite everywhere, and for the distributed models the density is never negative and the electron fraction lies between zero and one. Tables whose columns are missing, differ in length, are too short or unordered are rejected with an exception.",
 ["inputs"],"every body kind, profile table, path (any baseline or zenith angle) and position including both ends",
 "the tests evolve through a couple of fixed bodies and compare final fluxes",
 ["src/body.cpp",I+"body.h"],[("profiles","body.cpp: density/ye of each Body"),("chord geometry","body.cpp: Earth, SunASnu, EarthAtm")])
p("C16","Track geometry matches the body it crosses",
 "A track's initial, final and current positions, its length and its angle are mutually consistent and agree with the geometry of its body: the atmospheric baseline equals the straight-line distance from production height to detector for its zenith angle, chords never leave the body and those which miss it are rejected, and building the same track through different constructors or factories gives the same track. Copies are independent, reversal exchanges only the initial and final position, and reversing twice restores the track.",
 ["inputs"],"all angles in [0,pi] or cosines in [-1,1], all baselines and positions, all constructors",
 "tests use a few fixed cosines",
 ["src/body.cpp",I+"body.h"],[("track construction","body.cpp: Track constructors, makeWithCosine, ReverseTrack"),("length and geometry","body.h: Track")])
p("C17","Every body and track survives serialization unchanged",
 "Writing any body or any of its tracks to HDF5 and reading it back through the type registered for its name yields an object of the same type that answers every density, electron-fraction, parameter, constant-density and geometry query identically. The mapping from stored names to types is total and one-to-one over all provided bodies and open to user-defined ones; a location lacking required data or holding data of the wrong shape, and any failure of the storage layer, is reported with an exception, and no HDF5 handle stays open.",
 ["inputs","configurations"],"all body kinds with all parameters and all tracks",
 "no test round-trips bodies other than incidentally through one state file",
 ["src/body.cpp",I+"body.h"],[("Serialize/Deserialize","body.cpp"),("registration","body.h/body.cpp: NUSQUIDS_REGISTER_BODY")])
p("C18","Cross sections interpolate their tables, positively and within range",
 "Total and differential cross sections from tables equal the tabulated value at every node and follow the library's interpolation between nodes (cubic in the logarithms, or linear in logarithmic energies for the older tables), are always finite and never negative, and are zero for sterile flavours and for outgoing energies above the incoming one. Energies above the table are rejected with an exception, those below it fall linearly with energy or are negligible, and averages over a range agree with the pointwise values, also for empty ranges and ranges ending at the last tabulated energy. A library of cross sections returns for each target exactly the object registered for it and reports targets without one.",
 ["inputs"],"all energies, pairs of energies, flavours, types, currents, targets and tables",
 "tests read the shipped tables at a few energies",
 ["src/xsections.cpp",I+"xsections.h"],[("table lookup","xsections.cpp: NeutrinoDISCrossSectionsFromTables"),("library dispatch","xsections.h/xsections.cpp: CrossSectionLibrary")])
p("C19","Cross-section tables survive conversion between storage formats",
 "Writing a cross-section table set to text or HDF5 and loading it again gives an object that answers every query identically to the written precision, with each flavour, neutrino type and current kept apart. Missing, mis-shaped or inconsistent tables in files, tables that cannot be expressed in the requested format, and failures to write are reported with an exception.",
 ["inputs","fault_sequences"],"all tables including flavour-dependent ones, all formats, and damaged inputs",
 "one fixed table file is read in the tests; writing is not tested",
 ["src/xsections.cpp",I+"xsections.h"],[("writers","xsections.cpp: WriteHDF, WriteText"),("readers","xsections.cpp: ReadText, readFlavorHDF5")])
p("C20","The Glashow resonance is a resonance only for electron antineutrinos",
 "The electron-target cross section is zero for everything but electron antineutrinos, for those it follows the resonance formula with its maximum at the W-mass energy and is zero below the muon production threshold, and its differential spectrum is non-negative, vanishes for secondaries more energetic than the parent, and integrates over secondary energy to the leptonic share of the total. Averages over any range of energies agree with the formula, also when the resonance is narrow compared with the range or the ends are equal.",
 ["inputs"],"all energies and secondary energies, flavours, types and currents",
 "one test compares a full evolution to a stored file",
 ["src/xsections.cpp",I+"xsections.h"],[("formula","xsections.cpp: GlashowResonanceCrossSection")])
p("C21","Coherent evolution gives the quantum-mechanical oscillation probabilities",
 "Without interactions, the flavour content obtained after propagating any initial flavour mixture or pure mass state through vacuum, constant, or varying matter equals, to the requested numerical accuracy, the solution of the Schroedinger equation with the given mixing matrix, mass splittings and matter potential, for neutrinos and for antineutrinos with conjugated mixing and opposite potential. The answer is independent of the integrator, step settings, energy grid (at its nodes), storage basis, scale averaging turned off, and whether the fast constant-density path or the numerical integrator is used. The low-pass filter of the evolution, when set, takes the oscillations of the matter potential above its cutoff out, scales those in its ramp, and changes nothing else; read-outs averaged over a scale lose exactly the interference of mass states whose phase exceeds it.",
 ["inputs","configurations"],"all mixing parameters for three or more states, energies, densities, baselines and basis/integrator choices",
 "tests compare a few fixed configurations to stored numbers",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("Hamiltonian","nuSQuIDS.cpp: H0, HI, iniProjectors, EvolveProjectors"),("evaluation","nuSQuIDS.cpp: EvalFlavor, EvalMass")])
p("C22","Oscillations conserve probability, compose and reverse",
 "With interactions and sources off, propagation conserves the total flux at every energy for every neutrino type, keeps every flavour probability within zero and one, and is linear in the initial flux. Propagating a path in pieces equals propagating it at once, propagating in the reversed conditions restores the initial state, and neutrino and antineutrino sectors never mix.",
 ["inputs","histories"],"all initial states, paths, splittings of the path and mixing parameters",
 "time_reversal and track_concatenate test one configuration each",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("evolution driver","nuSQuIDS.cpp: EvolveState, Set_Track, Set_initial_state")])
p("C23","Interactions attenuate and redistribute flux by the supplied cross sections",
 "With interactions on, each flavour and type loses flux at the rate given by the number density of each target times its total cross section, neutral-current losses reappear at lower energies with the supplied differential spectrum, and charged-current tau and electron-antineutrino resonance losses reappear through the decay spectra only when the corresponding option is on. Fluxes stay non-negative up to integration tolerance, no flux ever appears above the highest energy with flux, turning interactions off restores pure oscillation, and the solution is linear in the initial flux.",
 ["inputs","configurations"],"all cross-section sets, targets and compositions, densities, grids, and option combinations",
 "constant_opacity and attenuation tests use fixed configurations",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("rates","nuSQuIDS.cpp: UpdateInteractions, GammaRho, InteractionsRho"),("tables","nuSQuIDS.cpp: InitializeInteractions")])
p("C24","Neutrino sources add exactly the flux the body emits",
 "With an emitting body and sources enabled, the flux gains per unit length exactly the body's emission for each flavour, energy and neutrino type, once, in addition to whatever oscillation and interactions do; with sources disabled, or a body that does not emit, nothing is added. Without attenuation the accumulated flux equals the path integral of the emission, for every neutrino-type selection and whether oscillations are on or off.",
 ["inputs","configurations"],"all emission profiles, grids, type selections and option combinations",
 "external_flux tests one configuration",
 ["src/nuSQuIDS.cpp",I+"body.h"],[("source term","nuSQuIDS.cpp: InteractionsRho, UpdateInteractions"),("injection","body.h: Body::injected_neutrino_flux")])
p("C25","A saved evolution state resumes indistinguishably",
 "Saving an evolution object to a file at any point and loading it, in the same or another object, yields an object that reports the same fluxes, mass-state contents, energies, mixing parameters, body, track, position and flags, and that continues to evolve to the same result as the original under the same integrator settings, which are not part of the saved state. Loading from a file or group without such a state is rejected with an exception, saving into an existing file without overwriting preserves what is there, and no HDF5 handle stays open.",
 ["histories","crash_points","configurations"],"all configurations (types, flavours, interactions, bodies, bases) and all points of the evolution",
 "hdf5 tests cover one configuration each and compare fluxes only",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("state I/O","nuSQuIDS.cpp: WriteStateHDF5, ReadStateHDF5")])
p("C26","Moved evolution objects are equivalent to the originals",
 "Move-constructing or move-assigning an evolution object at any point of its life transfers its entire observable configuration and state, so that the destination reports and evolves exactly as the source would have, and the source can be destroyed or reassigned safely. Copies of interaction tables compare equal to, and are independent of, their source.",
 ["histories"],"all configurations, option settings and points in the life of the object",
 "the tests move freshly constructed objects only",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("moves","nuSQuIDS.cpp: move constructor, operator="),("interaction structure copies","nuSQuIDS.h: InteractionStructure")])
p("C27","The angular ensemble equals independent evolutions, for any thread count",
 "Evolving an ensemble over zenith angles gives at every angular and energy node exactly what an independent single evolution with the same settings gives for that angle, regardless of the number of threads, with settings applied to every member; values between angular nodes interpolate the neighbouring nodes. The ensemble can be saved and restored without loss, angles outside the range are rejected, and a failure inside any worker is reported to the caller.",
 ["schedules","inputs","configurations"],"all angular grids, energies, thread counts and settings",
 "atm tests run one grid and one thread count",
 [I+"nuSQuIDS.h"],[("ensemble","nuSQuIDS.h: nuSQUIDSAtm")])
p("C28","Misuse is refused before it can corrupt an evolution",
 "Calls which come before the body, track, energy or initial state they need, or with flavours, types, nodes, energies or array shapes which do not fit the object, with an absent body or track, or with options its configuration does not allow, are refused with an exception, never with a crash, an out-of-bounds access or silent acceptance. A refused call, a failing set of cross sections included, leaves the object as it was, so that correct use afterwards gives the same answers as if the call had never been made.",
 ["histories","inputs"],"all public operations, orders and out-of-range arguments",
 "tests only use the library correctly",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("argument guards","nuSQuIDS.cpp: Set_*, Eval*, EvolveState"),("interaction tables","nuSQuIDS.cpp: InitializeInteractions")])
p("C29","A derived class evolves by the standard equations and exactly its own terms",
 "A class derived from the evolution object which adds Hamiltonian terms, decays, absorption, sources, a free Hamiltonian or scalar equations through the provided hooks evolves by the standard equations plus exactly these terms, with and without interactions, sources and oscillations, in every basis and body, alone, moved, or as member of an ensemble. Whenever a term is evaluated, the user's update hook has been called for that time, and the position on the track, density, electron fraction, projectors and free Hamiltonian seen in both are those of that time. The reported Hamiltonian includes the added terms, and what the class writes into a file is handed back to it.",
 ["inputs","configurations","histories"],"all terms a derived class can add, bodies, bases, options and histories",
 "no test derives a class with terms and compares the outcome",
 ["src/nuSQuIDS.cpp",I+"nuSQuIDS.h"],[("hooks","nuSQuIDS.cpp: PreDerive, EvolveProjectors, HI, GammaRho, InteractionsRho, GetHamiltonian"),("hook declarations","nuSQuIDS.h: AddToPreDerive, GammaScalar, InteractionsScalar")])
p("C30","The Python module is faithful to the library and safe against its arguments",
 "Every call of the Python module gives the result of the C++ call it stands for, on bodies, tracks, cross sections, single objects, ensembles and their files; arrays arrive and return with the right shape and values whatever their memory layout, byte order, alignment or numeric type, sequences and masks arrive element by element, and results share no memory with the library. Arguments of the wrong type, dimension or content, and errors of the library or of the objects passed, become Python exceptions with nothing called or changed, never a crash, an out-of-bounds access or an exception left pending. Nothing leaks, and bodies, tracks, members of ensembles and results stay valid as long as Python holds them.",
 ["inputs","histories"],"all arrays, sequences, argument tuples, call histories and orders of release",
 "no test loads the Python module",
 ["resources/python/src/nuSQUIDSpy.cpp","resources/python/src/nuSQUIDSpy.h","resources/python/inc/container_conversions.h"],[("conversions","nuSQUIDSpy.h: marray_from_python, marray_to_numpyarray, VecToList; nuSQUIDSpy.cpp: ListToVectorBool; container_conversions.h: from_python_sequence"),("bindings","nuSQUIDSpy.cpp: BOOST_PYTHON_MODULE; nuSQUIDSpy.h: RegisterBasicNuSQuIDSPythonBindings, RegisterBasicAtmNuSQuIDSPythonBindings")])
p("C31","Solar models follow their tables, survival probabilities the adiabatic formula",
 "The solar model of the user contribution gives, at every radius its table reaches and every energy, the linear interpolation of the radial column times that of the spectrum (the column alone for lines), zero at and beyond the limits of the spectrum, and the tabulated electron and dark matter densities. The survival probability is the sum, over states paired in ascending order of mass, of the electron-neutrino share in matter times that in vacuum for the mixing parameters at the time of the call and either mass ordering; integrated fluxes and probabilities are the integral and the flux-weighted mean of these over the radius, lines counted within one per cent of their energy. Radii outside the Sun or the table, components which are no flux, missing or malformed tables and a missing model are exceptions, never a crash or an out-of-bounds access.",
 ["inputs","configurations","histories"],"all tables, radii, energies, components, mixing parameters and damages of the tables",
 "no test compiles the contribution",
 ["resources/user_contributions/SolarTransitions/SolarModel.cpp","resources/user_contributions/SolarTransitions/SolarProbabilities.cpp"],[("tables","SolarModel.cpp: splineinit, nuFlux, eDensity, DMDensity"),("probabilities","SolarProbabilities.cpp: SolarOscillationProbability, Hamiltonian, PeeSquare, RadialIntegratedFluxes")])
if __name__=="__main__":
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
