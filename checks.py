# Which workloads decide which property, how they are built and what they must at least have observed.
BINS={}
CHECKS={}
def check(pid,bins,rule,technique,note,floor=None,level="exploration",assumptions=()):
    CHECKS[pid]=dict(bins=bins,rule=rule,technique=technique,note=note,floor=floor or {},level=level,assumptions=list(assumptions))
BINS["c01_marray"]=dict(src=["c01_marray.cpp"],lib="none",san="asan-align")
check("C01",["c01_marray"],
 "A case is one random history of array operations over three arrays (or one set of literal/huge-shape constructions); it is non-trivial and distinct when its operation log with shapes differs from all others.",
 "model-based runtime monitor on random operation histories under ASan+UBSan",
 "Every step of every history is compared with a list-of-values model by every access path; AddressSanitizer and UBSan watch the same executions. Explores the histories it generates, not all.",
 {"steps":10000})
BINS["c02_lifetime"]=dict(src=["c02_a.cpp","c02_b.cpp","c02_c.cpp"],lib="none",san="asan")
check("C02",["c02_lifetime"],
 "A case is one operation in one prior history; it is replayed once per event (allocation, element construction, copy, assignment, move) with that event failing. Distinct and non-trivial: an injected failure that reached the caller, identified by operation, shapes, allocator kind and event number.",
 "fault enumeration with lifetime-tracking elements and allocators under ASan",
 "Within each generated history every event of the operation is failed once; the histories and shapes are sampled. Trusts the tracking element and allocator.",
 {"faults-injected":5000},level="fault_enumeration")
BINS["c03_arith"]=dict(src=["c03_arith.cpp:PART1","c03_arith.cpp:PART2","c03_arith.cpp:PART3"],lib="none",san="asan")
check("C03",["c03_arith"],
 "A case is one pair of arrays (or array and scalar) with generated shapes and values; non-trivial cases are counted distinct by shapes, element types and scalar.",
 "differential runtime monitor: elementwise oracle under ASan+UBSan",
 "Every element of every result is compared bit for bit with the scalar operation; shapes and values are sampled, with zeros, infinities, NaNs and empty extents weighted in.",
 {"array-array":3000,"rejections":100,"scalar":1000})
BINS["c04_aligned"]=dict(src=["c04_aligned.cpp"],lib="none",san="asan")
check("C04",["c04_aligned"],
 "A case is one history of interleaved allocations and releases (or one request near the limits, or one container history with refusals); distinct by the full log of sizes, alignments and start addresses.",
 "runtime monitor over a controlled operator new[] with pattern, overlap and balance checks under ASan",
 "Underlying addresses take every residue, underlying requests are refused at random points; alignments up to 2^16 (2^20 thorough), histories sampled.",
 {"allocations":10000,"refusals":100,"limit-requests":1000,"element-steps":3000,"alignment>=256":1000})
BINS["c05_quad"]=dict(src=["c05_quad.cpp"],lib="none",san="asan")
check("C05",["c05_quad"],
 "A case is one integral (function, interval, orientation, tolerance, option use); non-trivial when the interval had to be subdivided, or when a limit case was accepted or refused; distinct by all of these.",
 "runtime monitor inside the integrand plus antiderivative oracle",
 "Every abscissa of every integral is observed; accuracy is compared with long double antiderivatives; functions and intervals sampled.",
 {"subdivided":500,"narrow-accepted":100,"narrow-refused":100,"gsl-integrals":500,"unmet":100,"flagged":120,"easy-steps":80,"nonfinite-seen":100})
WRAP="-Wl,"+",".join("--wrap="+f for f in ("pthread_mutex_lock","pthread_mutex_unlock","_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE","_ZNSt18condition_variable10notify_oneEv","_ZNSt18condition_variable10notify_allEv"))
BINS["c06_pool_a"]=dict(src=["c06_pool.cpp"],lib="none",san="asan",ld=WRAP,timeout=150)
BINS["c06_pool_t"]=dict(src=["c06_pool.cpp"],lib="none",san="tsan",ld=WRAP,timeout=150)
check("C06",["c06_pool_a","c06_pool_t"],
 "A case is one life of one pool: workers, submitting threads, tasks (returning, throwing, submitting others), injected delays, moment of destruction. Distinct and non-trivial by the observed order of task starts and ends.",
 "event-log monitor with injected delays and spurious wake-ups, under ASan and ThreadSanitizer",
 "Each log is checked for exactly-once execution and delivery, order, concurrency bound and shutdown; schedules are those produced by the injected delays, not all.",
 {"tasks":5000,"shutdown-refusals":100,"injected-delays":1000,"spurious-wakeups":50})
BINS["c07_races"]=dict(src=["c07_races.cpp"],lib="full",san="tsan",ld="-Wl,--wrap=gsl_ran_flat,--wrap=gsl_rng_uniform,--wrap=gsl_rng_get,--wrap=gsl_rng_set,--wrap=gsl_rng_env_setup")
check("C07",["c07_races"],"A case is a set of shared constant objects of one to three kinds with twenty to a hundred questions each (queries, or whole evolutions and ensembles of one thread), asked by two to six threads at once in orders of their own, before any has been asked alone. Distinct by kinds, threads and answers.",
 "ThreadSanitizer over concurrent readers, with a comparison with an identical object asked alone","A race is reported when both accesses are executed without synchronisation, whichever order they happened in; objects and questions sampled. The HDF5 library is not meant for several threads and not used by them.",{"answers":20000,"splines":500,"numerics":300,"tau":400,"bodies":250,"tables":500,"object":800,"evolutions":100,"ensembles":500,"random-heights":200})
BINS["c08_interp"]=dict(src=["c08_interp.cpp"],lib="tools",san="asan")
check("C08",["c08_interp"],
 "A case is one table (axes, values, way of construction) with its queries; distinct by the generated table; all cases evaluate non-constant tables.",
 "differential runtime monitor: independent long double Akima/Hermite oracle under ASan+UBSan",
 "Values are compared wherever the Akima weights are well determined, ranges and continuity everywhere; tables and queries sampled.",
 {"splines":1000,"cubic-queries":3000,"rejections":300,"reduced-to-2d":10,"reduced-to-1d":10})
H5WRAP="-Wl,"+",".join("--wrap="+f for f in "H5Fopen H5Fcreate H5Gopen2 H5Gopen1 H5Gcreate2 H5Gcreate1 H5Oopen H5Dopen2 H5Dopen1 H5Dcreate2 H5Screate_simple H5Screate H5Scopy H5Dget_space H5Aget_space H5Dget_type H5Aget_type H5Tcopy H5Tcreate H5Pcreate H5Dget_create_plist H5Acreate2 H5Acreate1 H5Aopen H5Aopen_name H5Fclose H5Gclose H5Dclose H5Sclose H5Tclose H5Pclose H5Aclose H5Oclose H5Dwrite H5Dread H5Awrite H5Aread H5Lcreate_hard".split())
BINS["c09_text"]=dict(src=["c09_text.cpp"],lib="tools",san="asan")
check("C09",["c09_text"],"A case is one generated text file (rows, formats, separators, ignorable lines, line ends) or one table written and read back; distinct by contents.",
 "differential runtime monitor over generated files under ASan+UBSan","Every element read is compared with an independent reading of what was written; files sampled.",{"files":2000,"ignorable-lines":1000,"ragged":500,"roundtrips":500})
BINS["c10_hdf5"]=dict(src=["c10_hdf5.cpp"],lib="tools",san="asan",ld=H5WRAP)
check("C10",["c10_hdf5"],"A case is one array or set of attributes written and read back, then repeated with each HDF5 call failing once, or one history of handle ownership; distinct by shape, type, level and contents.",
 "runtime monitor on every HDF5 handle (link-time wrapping) with fault injection, under ASan+UBSan","Each creating, reading and writing HDF5 call of each case is failed once; shapes, values and ownership histories sampled. Calls inside libhdf5_hl are not tracked.",{"arrays":400,"attributes":1000,"injected":3000,"handle-histories":500,"compressed":100,"empty-arrays":10},level="fault_enumeration")
BINS["c11_grid"]=dict(src=["c11_grid.cpp:GRIDS"],lib="tools",san="asan")
check("C11",["c11_grid"],"A case is one grid (bounds, spacing, number of points); non-trivial with more than two points.","runtime oracle on every grid point, under ASan+UBSan","Every point of every sampled grid is compared with long double values.",{"linear-grids":1000,"logarithmic-grids":1000})
BINS["c12_matrix"]=dict(src=["c11_grid.cpp"],lib="tools",san="asan")
check("C12",["c12_matrix"],"A case is one matrix (or window of a larger one) with one transformation; non-trivial for two or more rows.","differential runtime monitor with heap balance, under ASan+UBSan","Compared with long double products; matrices sampled.",{"basis-changes":1000,"conjugates":500})
BINS["c13_tau"]=dict(src=["c13_tau.cpp"],lib="tools",san="asan")
check("C13",["c13_tau"],"A case is one channel at one tau energy with twenty fractions and its integral, or one tabulated grid.","runtime oracle: normalisation, sign, support and table agreement, under ASan+UBSan","Energies, fractions and grids sampled; normalisation by fine Gauss quadrature.",{"channel-cases":1000,"table-entries":5000})
BINS["c14_paths"]=dict(src=["c14_paths.cpp"],lib="body",san="asan")
check("C14",["c14_paths"],"A case is one history of environment changes, one installed/uninstalled program pair, or one scratch data directory with its bodies.","runtime monitor over environment histories and a flag-rewritten installed binary","Environments sampled; installation is imitated by rewriting the flag as the makefile does.",{"programs":8,"lookups":1000,"bodies":30})
BINS["c15_body"]=dict(src=["c15_body.cpp"],lib="body",san="asan")
check("C15",["c15_body"],"A case is one body (type, table, way of construction) with four tracks and about a dozen positions on each; distinct by body and tracks.",
 "differential runtime monitor: independent geometry and Akima oracle in long double, under ASan+UBSan","Bodies, tracks and positions sampled; positions within rounding of a discontinuity are counted, not compared.",
 {"queries":100000,"beyond-the-table":500,"in-the-atmosphere":500,"independent-density":20000,"rejections":1000,"ends":700,"parameters":400})
BINS["c16_tracks"]=dict(src=["c16_tracks.cpp"],lib="body",san="asan")
check("C16",["c16_tracks"],"A case is one geometry (zenith, impact parameter or baseline, radius, height) with all ways of making its tracks; distinct by the numbers.",
 "differential runtime monitor: vector geometry oracle, with radius-revealing profiles, under ASan+UBSan","Geometries and positions sampled; comparisons within the rounding of the formulae.",{"tracks":10000,"positions":20000})
BINS["c17_serial"]=dict(src=["c17_serial.cpp"],lib="body",san="asan",ld=H5WRAP)
check("C17",["c17_serial"],"A case is one body with one track written, read back, compared at a dozen positions, then read back with one part absent or misshapen and (every fourth) with each HDF5 call failing; distinct by body and track.",
 "round-trip monitor on real HDF5 files with handle tracking and fault injection, under ASan+UBSan","Every reported quantity is compared bitwise (zenith angles to rounding); bodies, tracks and positions sampled. Calls inside libhdf5_hl are not tracked.",{"injected":5000,"incomplete":1500,"roundtrips-EarthAtm":100,"roundtrips-SunASnu":100,"older-densities":400})
BINS["c18_xs"]=dict(src=["c18_xs.cpp"],lib="xs",san="asan")
check("C18",["c18_xs"],"A case is one generated set of tables (layout, grid, flavours) with about 150 queries at its nodes, between them, at and beyond its ends and averaged; or one library history; distinct by table.",
 "differential runtime monitor: independent cubic and bilinear interpolation of the written tables, under ASan+UBSan","Tables and energies sampled; values whose spline slopes are a matter of rounding are only range-checked.",{"total-between":2000,"diff-between":2000,"diff-nodes":5000,"v1-totals":10000,"v1-differentials":10000,"averages":5000,"targets":3000})
BINS["c19_xsio"]=dict(src=["c19_xsio.cpp"],lib="xs",san="asan",ld=H5WRAP)
check("C19",["c19_xsio"],"A case is one set of tables taken through every conversion, one damaged set, one unwritable destination, or one round trip with HDF5 calls failing in turn; distinct by tables and damage.",
 "round-trip monitor on real files with handle tracking and fault injection, under ASan+UBSan","Tables and damages sampled; comparisons within the written precision (six digits or single precision).",{"conversions":300,"flavour-dependent":150,"older-conversions":300,"damaged-text":400,"damaged-hdf":400,"injected":1000,"decoys":50})
BINS["c20_glashow"]=dict(src=["c20_glashow.cpp"],lib="xs",san="asan")
check("C20",["c20_glashow"],"A case is one energy with every flavour, type and current, the spectrum of secondaries and two averages; distinct by energy.",
 "runtime oracle: the resonance formula with independent constants, spectrum integrals and averages, under ASan+UBSan","Energies sampled from well below the threshold to far above the resonance; constants agree to 2e-3.",{"averages":2000,"below-threshold":300,"near-peak":500,"equal-ends":100})
BINS["c21_evolve"]=dict(src=["c21_evolve.cpp"],lib="full",san="asan")
check("C21",["c21_evolve"],"A case is one configuration (flavours, types, mixing, energies, initial state) evolved along one leg of one body, by two settings of the integrator; distinct by configuration and leg.",
 "differential runtime monitor: independent solution of the evolution equation in the flavour basis, under ASan+UBSan","Configurations sampled; agreement within 4e-6 of the total where integrated numerically.",{"varying":100,"constant":30,"mass-basis":50,"interaction-basis":200,"sterile":80,"defaults":150,"filtered":120,"unfiltered":15,"frequencies-cut":50,"frequencies-ramped":20,"partly-averaged":200,"fully-averaged":200})
BINS["c22_laws"]=dict(src=["c22_laws.cpp"],lib="full",san="asan")
check("C22",["c22_laws"],"A case is one configuration and leg taken through conservation, reversal, composition, linearity and sector tests, or one history of ten operations on an object; distinct by configuration, legs and operations.",
 "runtime monitor: metamorphic laws, and histories followed by an independent solution, under ASan+UBSan","Configurations, cuts and histories sampled; agreement within 4e-5 (2e-4 across discontinuities) of the total per leg and flavour.",{"reversals":100,"compositions":80,"sectors":20,"evolved":250,"basis-changes":50,"oscillation-switches":50})
BINS["c23_interact"]=dict(src=["c23_interact.cpp"],lib="full",san="asan")
check("C23",["c23_interact"],"A case is one configuration with its own cross sections evolved along one leg, or one history of options and cross sections of one object; distinct by configuration and history.",
 "differential runtime monitor: independent solution with independent cross sections and number densities, under ASan+UBSan","Configurations, cross sections and histories sampled; agreement within 3e-4 of the largest flux (5e-3 where the library averages the cross sections itself).",{"oscillating":50,"not-oscillating":30,"tau-regeneration":20,"resonance":30,"proton-neutron":50,"isoscalar":30,"evolved":100,"replaced":50,"alignment-promises":100000,"empty":15,"thin":25})
BINS["c24_sources"]=dict(src=["c24_sources.cpp"],lib="full",san="asan")
check("C24",["c24_sources"],"A case is one configuration evolved along one emitting leg with sources, interactions and oscillations each on or off, or one history of switches along emitting and dark bodies; distinct by configuration and legs.",
 "differential runtime monitor: independent solution with the emission, exact path integrals, and a record of every request made to the emitting body, under ASan+UBSan","Configurations, emissions and legs sampled; agreement within 4e-4 of the largest flux (5e-3 where the library averages the cross sections itself).",{"ledgers":80,"sources-off":20,"with-interactions":80,"without-oscillations":60,"constant-bodies":80,"dark-legs":30,"emitting-legs":100})
H5LTWRAP=H5WRAP+","+",".join("--wrap="+f for f in "H5LTmake_dataset H5LTset_attribute_int H5LTset_attribute_uint H5LTset_attribute_double H5LTset_attribute_string H5LTget_attribute_int H5LTget_attribute_uint H5LTget_attribute_double H5LTget_attribute_string H5LTget_attribute_ndims H5LTget_attribute_info H5LTget_dataset_info H5LTget_dataset_ndims H5LTread_dataset_double H5Sselect_hyperslab".split())
BINS["c25_state"]=dict(src=["c25_state.cpp"],lib="full",san="asan",ld=H5LTWRAP)
check("C25",["c25_state"],"A case is one to three objects with their histories saved into one file, loaded in one of four ways, compared and continued; one damaged file; one round trip with every HDF5 call failing in turn; or one history of a file. Distinct by objects and damage.",
 "round-trip and fault-injection runtime monitor on real HDF5 files, under ASan+UBSan","Every call the library makes to HDF5 while saving and loading is failed once per case; configurations, histories and damages sampled. Calls inside libhdf5_hl are counted as one.",{"restored":500,"restored-interactions":150,"into-used":100,"continued":500,"damaged":500,"injected-saving":3000,"injected-loading":2000})
BINS["c26_move"]=dict(src=["c26_move.cpp"],lib="full",san="asan")
check("C26",["c26_move"],"A case is the life of one object (configuration, settings, legs, refused calls) in which it is moved one to four times between operations in one of nine ways, next to a twin which is never moved; or one copy of an interaction table. Distinct by configuration and moves.",
 "twin-execution runtime monitor, under ASan+UBSan","Configurations, histories and moves sampled; twin and moved object are compared by everything that can be asked of them.",{"moved":800,"moved-between":400,"evolved":500,"source-reused":60,"tables":300})
BINS["c27_ensemble"]=dict(src=["c27_ensemble.cpp"],lib="full",san="asan",ld=H5WRAP+" "+H5LTWRAP)
BINS["c27_ensemble_t"]=dict(src=["c27_ensemble.cpp"],lib="full",san="tsan",flags="-DSLOW=6",ld=H5WRAP+" "+H5LTWRAP)
check("C27",["c27_ensemble","c27_ensemble_t"],"A case is one ensemble (angles, energies, Earth model, settings, states, number of threads) next to independent evolutions of its members or next to other ensembles; one saved, damaged or moved ensemble; or one with failing members. Distinct by ensemble and what is done to it.",
 "twin-execution and fault-injection runtime monitor, under ASan+UBSan and ThreadSanitizer","Every node of every ensemble is compared with its independent evolution and sampled points between with an interpolation of the independent states; ensembles, files and thread schedules sampled.",{"nodes":500,"threads":150,"interacting":50,"between":2000,"one-node":30,"restored":100,"damaged":80,"failed-in-thread":60,"moves":100,"read-concurrently":1000,"refused":1500})
BINS["c28_misuse"]=dict(src=["c28_misuse.cpp"],lib="full",san="asan")
check("C28",["c28_misuse"],"A case is the life of one object (configuration, settings, legs) into which calls that do not fit, or come too early, are inserted, next to a twin which never makes them; one failing set of cross sections; one construction; or one empty object. Distinct by configuration and calls.",
 "twin-execution runtime monitor with misuse injection, under ASan+UBSan","Configurations, histories and misuses sampled from twenty-five kinds of calls; the object is compared before and after each refused call and with its twin after each evolution.",{"never-fits":1500,"too-early":200,"evolved":500,"recovered":80,"construct":100,"empty":500})
BINS["c29_derived"]=dict(src=["c29_derived.cpp"],lib="full",san="asan")
check("C29",["c29_derived"],"A case is one derived class (its terms, configuration, options) evolved along one leg, one history of such an object, its Hamiltonian before or after an evolution, or one ensemble of such objects; distinct by configuration and terms.",
 "differential runtime monitor: independent solution with the added terms, and a monitor of the order of updates and requests inside the evolution, under ASan+UBSan","Terms (Hamiltonians, decay, absorption, dephasing, daughters, free Hamiltonian, scalars), configurations, histories and ensembles sampled; agreement within 4e-4 of the largest flux (5e-3 where the library averages the cross sections itself).",{"updates":800000,"terms":10000000,"scalar-terms":300000,"constant-hamiltonians":400,"matter-hamiltonians":300,"varying-hamiltonians":200,"decays":300,"dephasing":200,"daughters":150,"free-hamiltonians":200,"fast":30,"with-interactions":120,"without-oscillations":80,"mass-basis":150,"legs":300,"moves":120,"new-terms":120,"matrices":700,"after-evolution":100,"restored":20})
PYSITE="/opt/veriftools/pyvenv/lib/python3.12/site-packages"
BINS["c30_python"]=dict(src=["c30_python.cpp"],rsrc=["resources/python/src/nuSQUIDSpy.cpp"],lib="full",san="asan",flags="-I/usr/include/python3.12 -I%s/numpy/_core/include -I{repo}/resources/python/inc -I{repo}/resources/python/src -DNUMPY_SITE='\"%s\"'"%(PYSITE,PYSITE),ldend="-lboost_python312 -lpython3.12",timeout=300)
check("C30",["c30_python"],"A case is one array, list or mask handed over (layouts, element types, dimensions, misbehaving sequences), one object or ensemble driven in both languages, one object whose parts are released in random order, one series of arbitrary arguments, or one remaining class; distinct by content.",
 "differential runtime monitor in an embedded interpreter: each bound call next to the C++ call it stands for, probes for what crosses, heap and reference balance, under ASan+UBSan","Arrays, calls, histories and misuses sampled; the interpreter and Boost.Python are those installed. Python-only paths of other Python or numpy versions are not seen.",
 {"calls":60000,"refused":700,"leak-tests":600,"masks":200,"numbers":120,"layout-swapped":100,"layout-unaligned":50,"arrays-empty":60,"evolved":130,"ensembles-evolved":35,"compared-loaded":100,"files":120,"junk-refused":1200,"media-compared":2000,"vectors":2500,"constants":600,"enumerators":300,"tau-spectra":300,"targets":150,"outlived":60,"members-outlive":10,"tables":40,"default-libraries":40,"cross-sections-exchanged":20})
BINS["c31_solar"]=dict(src=["c31_solar.cpp"],rsrc=["resources/user_contributions/SolarTransitions/SolarModel.cpp","resources/user_contributions/SolarTransitions/SolarProbabilities.cpp"],lib="full",san="asan",flags="-I{repo}/resources/user_contributions/SolarTransitions -DSOLAR_DIR='\"{repo}/resources/user_contributions/SolarTransitions\"'")
check("C31",["c31_solar"],"A case is one generated solar model with thirty radii and energies, one mixing with as many probabilities, one mixing with integrals over the Sun, or one damaged table; distinct by tables and mixing.",
 "differential runtime monitor: linear interpolation of the written tables, Jacobi diagonalisation and piecewise quadrature in long double, under ASan+UBSan","Models, mixings, radii and energies sampled; integrals compared within the tolerance the code asks for (a few per mille). Three flavours only.",
 {"models":400,"fluxes":70000,"no-flux":20000,"densities":12000,"refused":2000,"probabilities":10000,"inverted":80,"integrals":200,"lines":50,"damaged":400,"shipped":400})
