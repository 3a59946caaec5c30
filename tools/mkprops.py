import json
Q=lambda over,text:{"over":over,"text":text}
P=[]
def add(id,title,st,q,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} if isinstance(m,str) else m for i,m in enumerate(mech)]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":q,"why_tests_cant":why,"anchors":a})
C="src/vmecpp/cpp/"
add("C01","Run input survives JSON and HDF5 round trips unchanged",
 "Writing a run input to JSON or to HDF5 and reading it back gives an input that is equal in every field, and each documented key or dataset is written from and read into the setting of the same name. A key absent from a JSON file leaves its setting at the documented default, and a present key of the wrong type is rejected with an error instead of being converted or ignored. Boundary coefficients outside the resolution are dropped and all others land at their own (m, n) entry.",
 Q(["inputs"],"all run inputs (stellarator-symmetric or not, any resolution, any subset of keys present)"),
 "The JSON/HDF5 tests load a handful of input files; a swapped, missing or mistyped key of a field those files leave at its default, or of asymmetric inputs, goes unnoticed.",
 [C+"vmecpp/common/vmec_indata/vmec_indata.cc",C+"vmecpp/common/vmec_indata/boundary_from_json.cc",C+"util/json_io/json_io.cc",C+"util/hdf5_io/hdf5_io.cc"],
 ["JSON writer/reader of the input struct","HDF5 writer/reader of the input struct","typed JSON element readers","boundary coefficient list parsing"])
add("C02","Saved results load back identically from HDF5",
 "Every group of computed results that is saved to an HDF5 file is loaded back with every persisted field unchanged: each dataset is written from, and read into, the field of the same name, with the same shape and element type. Two result sets compare equal exactly when all of their compared fields are equal.",
 Q(["inputs","configurations"],"all result sets, symmetric or not, of any resolution"),
 "Round-trip tests run on one or two equilibria; a field that is zero, empty or square there can be lost, swapped or transposed without a failing test.",
 [C+"vmecpp/vmec/output_quantities/output_quantities.cc",C+"vmecpp/vmec/output_quantities/output_quantities.h",C+"util/hdf5_io/hdf5_io.h"],
 ["WriteTo/LoadInto pairs of the result structs","equality operators of the result structs","typed HDF5 dataset read/write helpers"])
add("C05","Threads never race on shared solver state and all reach every barrier",
 "Whatever the thread scheduling, no two threads access the same shared solver state (flow control, status and iteration counters, hand-over storage between radial ranges, vacuum-solver arrays, accumulated sums), at least one of them writing, unless a barrier separates the two accesses or both are in the same kind of mutually exclusive section; accumulations into shared sums are always exclusive, and initialising them is finished before the first contribution and the last contribution before the first use. A barrier is reached by all threads of the team or by none.",
 Q(["schedules","configurations"],"all interleavings, thread counts and control paths (restarts, early termination, free boundary with its nested team)"),
 "A lost barrier shows only under a particular interleaving and thread count; the tests run a few cases on whatever schedule happens.",
 [C+"vmecpp/vmec/vmec/vmec.cc",C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc",C+"vmecpp/free_boundary/nestor/nestor.cc",C+"vmecpp/free_boundary/laplace_solver/laplace_solver.cc",C+"vmecpp/vmec/radial_profiles/radial_profiles.cc"],
 ["main solver loop and its single/barrier constructs","force evaluation: hand-over and reductions","vacuum solve team","shared matrix and right-hand side accumulation","profile evaluation on the team"])
add("C06","Work partition covers every surface exactly once for any thread count",
 "For every number of threads, every radial resolution and both boundary modes, the threads' radial ranges of owned surfaces tile the grid without gap or overlap, and the derived ranges (one neighbour on either side, half-grid points, interior points, boundary-inclusive points) follow from the owned range by the same rule on every thread. The tangential split of the plasma surface tiles its points likewise, storage is sized for the ranges, and data gathered from the threads lands at its global surface index.",
 Q(["configurations","schedules"],"all thread counts, resolutions, fixed/free boundary"),
 "Tests sample a few thread counts; the ranges are arithmetic in ns, thread id and thread count, and an off-by-one appears only for particular remainders.",
 [C+"vmecpp/vmec/radial_partitioning/radial_partitioning.cc",C+"vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc",C+"vmecpp/vmec/thread_local_storage/thread_local_storage.cc",C+"vmecpp/vmec/handover_storage/handover_storage.cc",C+"vmecpp/vmec/output_quantities/output_quantities.cc"],
 ["radial range computation","tangential range computation","allocation of per-thread and hand-over storage","gather of per-thread results"])
add("C07","Fourier basis, coefficient layout and transforms are exact",
 "The Fourier basis arrays, mode-number tables and grid sizes, the conversions between combined-angle and product-basis coefficients (in both directions), and the transforms between Fourier and real space compute exactly the documented series, with the documented normalisation, for every mode, every grid point and every surface of the calling thread. All coefficient families that the symmetry settings call for are processed and the others are left alone.",
 Q(["inputs","configurations"],"all mode counts, grid sizes, field periods, symmetric/asymmetric, axisymmetric/3D, any coefficients"),
 "Tests evaluate a few small mode sets; a wrong sign, weight or bound for one family, parity or edge mode stays hidden.",
 [C+"vmecpp/common/fourier_basis/fourier_basis.cc",C+"vmecpp/common/sizes/sizes.cc",C+"vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc",C+"vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc",C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc"],
 ["basis tables","cos/sin to cc/ss/sc/cs conversions and back","forward and inverse transforms, symmetric and antisymmetric parts","constraint-force bandpass filter"])
add("C10","Inconsistent run input is rejected before any computation",
 "A run input is accepted exactly when its resolution, profile, grid-sequence, axis and boundary settings are mutually consistent as documented, and an input that is not is refused with an error that names no result, before the solver is set up. The same checks apply whichever entry point starts the run.",
 Q(["inputs"],"all run inputs"),
 "Tests feed a few malformed inputs; the acceptance condition is a conjunction over every field.",
 [C+"vmecpp/common/vmec_indata/vmec_indata.cc",C+"vmecpp/vmec/vmec/vmec.cc"],
 ["consistency check of the input struct","solver construction"])
add("C12","Coil-field tables are written, read and interpolated consistently",
 "The magnetic-field response table computed from a coil set assigns to every grid node of every circuit the field at that node's coordinates, using the documented grid spacing and stellarator-symmetric completion; a table written to file has every variable under the name, dimension order and circuit numbering from which the reader takes it. The reader combines circuits with their currents and interpolates bilinearly within the grid cell that contains the requested point.",
 Q(["inputs"],"all grids, coil sets, currents and evaluation points"),
 "Tests compare one or two tables with stored files and check few points; a swapped axis or wrong stride for non-square grids is not seen.",
 [C+"vmecpp/common/makegrid_lib/makegrid_lib.cc",C+"makegrid/makegrid/makegrid.cc",C+"vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc",C+"util/netcdf_io/netcdf_io.cc"],
 ["response table computation","netCDF writer of the table","table reader and scaling","grid interpolation","netCDF readers"])
add("C14","Option names, codes and enumerators correspond one to one",
 "Each textual option value, numeric code and enumerator (status, restart reason, free-boundary method, iteration style, profile parameterisation) maps to exactly one counterpart, converting to the other form and back gives the value one started with, and every unknown value is rejected. No enumerator lacks a name and no two share one.",
 Q(["inputs"],"all enumerators, names and integer codes"),
 "Tests convert a few of the values.",
 [C+"vmecpp/common/flow_control/flow_control.cc",C+"vmecpp/common/vmec_indata/vmec_indata.cc",C+"vmecpp/common/util/util.cc",C+"vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc"],
 ["enum to string and code tables","string to enum parsers","profile parameterisation table"])
add("C15","Radial profiles evaluate their documented parameterisation",
 "For every profile parameterisation, every coefficient set and every normalised flux, the pressure/mass, rotational-transform and current profiles evaluate the documented formula (including integrated forms, splines and pedestal terms), the name selects that parameterisation, and the per-thread full- and half-grid flux and profile arrays are the profiles at those grid positions with the documented normalisations.",
 Q(["inputs"],"all parameterisations, coefficients, flux positions and grids"),
 "Tests evaluate some parameterisations at a few points.",
 [C+"vmecpp/vmec/radial_profiles/radial_profiles.cc",C+"vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc"],
 ["profile formula evaluation and dispatch","toroidal/poloidal flux functions","radial profile array setup"])
add("C17","Output quantities follow their definitions",
 "Every quantity reported after a run (global volumes, betas, currents and energies, flux-surface averages, geometry and axis data, Mercier and current-balance tables, magnetic-field and geometry Fourier coefficients) equals its documented expression in the converged state, for every surface, mode and grid point it is reported at, with the documented extrapolation to axis and edge.",
 Q(["inputs"],"all converged states, resolutions and symmetry settings"),
 "Tests compare a few equilibria with reference files within tolerances and skip several tables and asymmetric runs.",
 [C+"vmecpp/vmec/output_quantities/output_quantities.cc"],
 ["per-table computation functions","output file content assembly"])
add("C19","Restart states are checked and transferred faithfully",
 "A supplied restart state is accepted exactly when its resolution and symmetry settings match those of the new run, and is otherwise refused with an error. An accepted state, and a state interpolated to a finer radial grid, determines the new coefficients by the documented interpolation and parity scaling for every mode, surface and family.",
 Q(["inputs","histories"],"all restart states and target inputs; all grid sequences"),
 "Tests restart from one matching state.",
 [C+"vmecpp/vmec/vmec/vmec.cc",C+"vmecpp/vmec/fourier_geometry/fourier_geometry.cc",C+"vmecpp/vmec/pybind11/pybind_vmec.cc"],
 ["restart compatibility check","initialisation from a restart state","multigrid interpolation"])
add("C20","MHD force evaluation computes the documented discretisation",
 "At every surface in the calling thread's range and every angular grid point, the Jacobian, metric, field components, pressure, volumes, energies, force densities, constraint forces and residuals equal the documented discretised MHD expressions of the current state, and nothing outside that range is written.",
 Q(["inputs","configurations"],"all states, resolutions, partitions and symmetry settings"),
 "Tests compare a few iterations of a few cases with stored data within tolerances.",
 [C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc",C+"vmecpp/vmec/ideal_mhd_model/jacobian_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/metric_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/bcontra_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/bco_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/pressure_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/mhdforce_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/lambda_force_kernel.h",C+"vmecpp/vmec/ideal_mhd_model/constraint_force_kernel.h"],
 ["point-local kernels","force assembly and residual norms"])
add("C21","Coil geometry, vector algebra and coil-file parsing are exact",
 "Vector and curve operations return their mathematical result; coil-set files and configurations are parsed, validated, moved, expanded and converted so that every filament, winding number and current ends up where the file or the caller says; absent values are reported as absent. Field and vector-potential evaluation sums every circuit's filaments with current times windings at every evaluation point.",
 Q(["inputs"],"all coil sets, vectors, currents and evaluation points"),
 "Tests use a few coil files and axis-aligned vectors.",
 [C+"vmecpp/common/composed_types_lib/composed_types_lib.cc",C+"vmecpp/common/composed_types_definition/composed_types.h",C+"vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc",C+"vmecpp/common/magnetic_configuration_definition/magnetic_configuration.h",C+"vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.cc"],
 ["vector operations","coil file parser","configuration getters/setters and validity checks","field superposition"])
add("C22","Iteration control reports convergence and failure truthfully",
 "A run is reported as converged only if every force residual is at or below the tolerance of the current grid stage; otherwise it restarts, reduces the step, continues, or ends with a status that says why, following the documented rules for bad Jacobians, growing residuals, iteration limits and checkpoints. Each grid stage uses its own resolution, tolerance and iteration limit, and the reported history contains the values of those iterations.",
 Q(["histories","inputs"],"all residual histories, grid sequences and checkpoints"),
 "Tests follow the happy path of a few equilibria.",
 [C+"vmecpp/vmec/vmec/vmec.cc",C+"vmecpp/common/flow_control/flow_control.cc",C+"vmecpp/vmec/iteration_logger/iteration_logger.cc"],
 ["solver loop and restart logic","flow control state","iteration logging"])
add("C23","Preconditioners and tridiagonal solves are exact",
 "The tridiagonal systems are assembled from the documented radial matrix elements and solved exactly for every system and every row range, serially and split across threads; the radial, lambda and m=1 preconditioners multiply every coefficient by the documented factor.",
 Q(["inputs","configurations"],"all matrices, right-hand sides, row ranges, mode numbers"),
 "Tests solve a few small systems.",
 [C+"vmecpp/common/util/util.cc",C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc",C+"vmecpp/vmec/fourier_forces/fourier_forces.cc"],
 ["Thomas algorithm, serial and threaded","preconditioner assembly and application"])
add("C24","Free-boundary vacuum solver computes the documented integrals",
 "For every plasma surface, thread split and external field, the vacuum solver's surface geometry, regularised and singular integrals, boundary matrix and source term, solution transfer and vacuum field equal the documented expressions at every surface point and mode, with contributions of all threads combined once.",
 Q(["inputs","configurations"],"all surfaces, mode numbers, thread splits, external fields"),
 "Tests compare a few cases with stored data.",
 [C+"vmecpp/free_boundary/nestor/nestor.cc",C+"vmecpp/free_boundary/surface_geometry/surface_geometry.cc",C+"vmecpp/free_boundary/singular_integrals/singular_integrals.cc",C+"vmecpp/free_boundary/regularized_integrals/regularized_integrals.cc",C+"vmecpp/free_boundary/laplace_solver/laplace_solver.cc",C+"vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.cc"],
 ["surface derivatives","analytic singular part","nonsingular Green's function integrals","linear system assembly and solve","external field evaluation"])
add("C25","Boundary and axis input are normalised consistently",
 "The user's boundary and axis Fourier coefficients become the internal ones by the documented sign-folding, poloidal-angle orientation flip and m=1 constraint for every mode and symmetry setting, and a requested axis guess returns the grid position that maximises the smallest Jacobian on each toroidal plane, Fourier-transformed back with the documented normalisation.",
 Q(["inputs"],"all boundary and axis coefficient sets"),
 "Tests use a few boundaries, nearly all symmetric.",
 [C+"vmecpp/vmec/boundaries/boundaries.cc",C+"vmecpp/vmec/boundaries/guess_magnetic_axis.cc"],
 ["boundary setup","orientation check","m=1 constraint","axis search"])
add("C27","Python bindings expose each native value under its own name",
 "Every attribute of a bound class reads and writes the native field of the same name, state vectors passed in and out keep their layout and length, and native failures surface as exceptions.",
 Q(["inputs","programs"],"all attributes and calls of the extension module"),
 "Tests touch a fraction of the attributes.",
 [C+"vmecpp/vmec/pybind11/pybind_vmec.cc"],
 ["attribute registrations","state flattening and restoring","status to exception conversion"])
P_="src/vmecpp/"
add("C03","Python results mirror native results and wout files",
 "Every field of the Python result objects carries the native result of the same quantity, and a result saved as a classic NetCDF wout file and loaded again has every stored variable unchanged, with the documented names, types, shapes, padding and surface/mode axis order. A file that lacks optional variables loads with the documented defaults instead of failing or mixing up values.",
 Q(["inputs","configurations"],"all results (symmetric or not, any resolution, optional quantities present or absent) and all wout files"),
 "Tests compare a couple of equilibria; a swapped, missing or transposed variable that is zero or empty there is not seen.",
 [P_+"__init__.py",P_+"_util.py"],
 ["native to Python result conversion","NetCDF writer and reader of the result","padding helpers","field tables of the result classes"])
add("C04","Python, JSON and classic INDATA inputs describe the same run",
 "Converting an input between its Python, native, JSON and classic INDATA forms preserves every setting under its own name, the dense and sparse forms of the boundary coefficients correspond one to one, and resizing to other mode numbers keeps every retained coefficient in place and fills the others with zero. Conversions leave the object or file they start from unchanged, and unknown or out-of-range entries are refused instead of dropped.",
 Q(["inputs"],"all inputs, mode numbers, coefficient lists and input files"),
 "Tests convert a few files; a lost setting, a shifted mode index or a wrong default appears only for settings they leave out.",
 [P_+"__init__.py",P_+"_util.py"],
 ["Python/native input conversion","input model field table and validators","coefficient resizing","INDATA writer","sparse/dense coefficient conversion"])
add("C11","Files and the working directory are left as documented",
 "Whatever happens inside, also on errors, a conversion or run leaves the caller's working directory as it was and removes the temporary files it made, and it writes only the files it documents, at the documented paths and names. Files the caller passed in are neither modified nor deleted.",
 Q(["crash_points","inputs"],"all points at which a conversion, run or save can fail; all path spellings"),
 "Tests run the success path in one directory.",
 [P_+"_util.py",P_+"__init__.py",P_+"__main__.py",P_+"simsopt_compat.py"],
 ["working-directory context manager","INDATA/JSON conversion context managers","result and input save functions","command line entry point"])
add("C13","Python models serialise to JSON and back exactly",
 "Dumping any Python input or result model to JSON and validating the text again yields an equal model: arrays keep their shape and values (including infinities, not-a-number and empty arrays), sparse coefficient lists keep every nonzero entry, and nested containers are handled element by element.",
 Q(["inputs"],"all models, array shapes, element types and special values"),
 "Tests serialise a few arrays.",
 [P_+"_pydantic_numpy.py",P_+"__init__.py"],
 ["array serialisation and validation hooks","special float encoding","sparse coefficient wrappers"])
add("C16","The Python iteration loop agrees with the native solver",
 "The solver loop offered in Python takes, for every residual history and input, the same decisions in the same order as the native one: time step, damping, restart, checkpoint, axis re-guess, vacuum activation, convergence and abort decisions, and what it reports to callbacks. Callbacks see the state of the current iteration and can stop the run but do not otherwise change it.",
 Q(["histories","inputs"],"all residual histories, iteration styles, grid sequences and callbacks"),
 "Tests follow a few converging runs.",
 [P_+"_iteration.py"],
 ["solver loop port","multigrid driver","callback state and result objects"])
add("C18","A Python run honours its arguments and keeps the caller's objects",
 "Running a case from Python or the command line passes every argument on to the solver unchanged, executes exactly the requested sequence of resolutions with each step starting from the previous solution interpolated to the new resolution (retained modes copied, new modes zero, radial interpolation exact at coinciding surfaces), and returns the outputs of the final resolution. Inputs, restart states and tables given by the caller are never modified, and invalid combinations of arguments are refused with an error before any computation.",
 Q(["inputs","histories"],"all inputs, argument combinations and resolution sequences"),
 "Tests run a few sequences and do not compare the caller's objects before and after.",
 [P_+"__init__.py",P_+"_continuation.py",P_+"__main__.py"],
 ["run function","resolution continuation driver","interpolation between resolutions","command line entry point"])
add("C26","The SIMSOPT-compatible wrapper keeps boundary, input and results in step",
 "After any sequence of changes to the boundary, degrees of freedom or mode numbers, the next evaluation uses exactly the current values, an unchanged configuration is not recomputed, and a failed run is reported as an objective failure and tried again on the next evaluation. Each derived quantity (aspect ratio, volume, rotational transform, shear, magnetic well, external current) is computed from the current result by its documented formula.",
 Q(["histories","inputs"],"all call sequences and configurations"),
 "Tests call the wrapper once or twice per quantity.",
 [P_+"simsopt_compat.py"],
 ["wrapper state and recompute flag","boundary to input transfer","derived quantities"])
claimed=len(P)
add("C08","A converged run is accurate to the requested tolerance",
 "For every consistent input the iteration converges within the documented limits, and the converged equilibrium satisfies force balance and agrees with the exact solution of the discretised problem to the requested tolerance.",
 Q(["inputs"],"all consistent inputs and tolerances"),
 "Tests run a handful of equilibria against stored numbers.",
 [C+"vmecpp/vmec/vmec/vmec.cc",C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc"],
 ["equilibrium iteration","force residuals"])
add("C09","Results do not depend on the number of threads beyond rounding",
 "For every input the results of runs with different thread counts differ by no more than accumulated rounding, and repeated runs with the same thread count are bitwise equal.",
 Q(["inputs","schedules"],"all inputs, thread counts and schedules"),
 "Tests compare two thread counts on one input.",
 [C+"vmecpp/vmec/vmec/vmec.cc",C+"vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc"],
 ["accumulation of global sums over threads","vacuum solver reductions"])
add("C28","Derivatives generated by automatic differentiation are exact",
 "The derivatives that the automatic-differentiation build generates for the force kernels equal the mathematical derivatives of these kernels for every state.",
 Q(["inputs"],"all states and directions"),
 "The smoke tests compare a few directions with finite differences and are not part of this build.",
 [C+"vmecpp/common/enzyme/enzyme.h"],
 ["interface to the compiler plugin"])
NA={"C08":"quantifies over floating-point values reached by a nonlinear iteration: no static argument bounds them. What the source decides is claimed elsewhere: the discretised expressions (C20), profiles (C15), preconditioners (C23), vacuum integrals (C24) and when convergence is reported (C22).",
"C09":"sums over threads are accumulated in arrival order inside critical sections, so the claim is about floating-point rounding of run-time values. The parts the source decides are claimed: every surface is owned once (C06), every shared access is ordered (C05) and every contribution is added once (C20, C24).",
"C28":"the derivative code is generated by an external compiler plugin that is not in the source and not installed; the differentiated kernels themselves are covered by C20."}
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
checks=[]
for p in P[:claimed]:
    checks.append({"property":p["id"],"quick_cmd":"python3 check.py %s quick"%p["id"],"thorough_cmd":"python3 check.py %s thorough"%p["id"],"technique":"static analysis: barrier-aware effect analysis of shared accesses over the call graph of each OpenMP region" if p["id"]=="C05" else "static analysis: abstract interpretation of the resolved AST to canonical effect summaries, compared with reviewed reference formulas","level":"other","level_note":"For every input within the stated assumptions, as far as summaries are exact; effects the analysis cannot resolve are listed as undecided in the evidence and not claimed."})
json.dump({"version":1,"setup_cmd":"python3 lib/cxx.py","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]},open("/verif/MANIFEST.json","w"),indent=1)
