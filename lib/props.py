"""Which parts of the program each property is decided on."""
import re

# property -> list of (file regex, function regex) over reference summaries
REF = {
    "C01": [(r"common/vmec_indata/", r"VmecINDATA::(ToJson|FromJson|FromFile|WriteTo|LoadInto|VmecINDATA|Copy|operator)|BoundaryCoefficient|VmecINDATA::"),
            (r"util/json_io/", r""), (r"boundary_from_json", r""), (r"util/hdf5_io/", r""), (r"util/file_io/", r"")],
    "C02": [(r"output_quantities/output_quantities\.(cc|h)", r"WriteTo|LoadInto|OutputQuantities::(Save|Load)|operator"), (r"util/hdf5_io/", r""), (r"util/file_io/", r""), (r"common/util/util\.h", r"ToEigen"), (r"common/vmec_indata/", r"WriteTo|LoadInto")],
    "C04": [(r"common/vmec_indata/", r"ToJson|FromJson|BoundaryCoefficient|SetMpolNtor"), (r"boundary_from_json", r""), (r"util/json_io/|util/file_io/", r"")],
    "C06": [(r"radial_partitioning/|tangential_partitioning/|thread_local_storage/|handover_storage/", r""),
            (r"output_quantities\.cc", r"GatherDataFromThreads"), (r"common/util/util\.cc", r"adjust"),
            (r"flow_control", r"threads"), (r"ideal_mhd_model/ideal_mhd_model", r"HandOver|IdealMhdModel::IdealMhdModel"),
            (r"vmec/vmec/vmec\.cc", r"InitializeRadial|Vmec::Vmec|SetupVacuum"), (r"fourier_coefficients", r"FourierCoeffs::FourierCoeffs|setZero|operator"), (r"radial_profiles", r"RadialProfiles::RadialProfiles|evalRadialProfiles"),
            (r"free_boundary/(nestor|surface_geometry|external_magnetic_field|singular_integrals|regularized_integrals|laplace_solver)/", r"(Nestor::Nestor|Geometry::SurfaceGeometry|Field::ExternalMagneticField|Integrals::\w+Integrals|Solver::LaplaceSolver)")],
    "C07": [(r"common/fourier_basis/", r""), (r"common/sizes/", r""), (r"common/util/", r"signum"),
            (r"vmec/fourier_(coefficients|forces|geometry|velocity)/", r""), (r"free_boundary/surface_geometry/|free_boundary/laplace_solver/", r"Fourier|inverseDFT|derivedSurface"),
            (r"ideal_mhd_model/", r"dft_|DftToroidal|dft|symrzl|symforce|geometryFromFourier|forcesToFourier|deAlias|FourierToReal|ForcesToFourier")],
    "C10": [(r"pybind_vmec", r"GetValueOrThrow|binding::module::run|VmecModel::Create"), (r"vmec_indata|boundary_from_json", r"IsConsistent|FromJson|FromFile|BoundaryCoefficient|FromString"), (r"vmec/vmec/vmec\.cc", r"Vmec::FromIndata|Vmec::Vmec|vmecpp::run|CheckInitialState"),
            (r"radial_profiles", r"findParam|setupProfileParam"), (r"mgrid_provider", r"Validate")],
    "C12": [(r"makegrid", r""), (r"mgrid_provider/", r""), (r"netcdf_io/", r""), (r"magnetic_field_provider", r"")],
    "C14": [(r"radial_profiles/radial_profiles", r"findParam|setupProfileParam|setupInputProfiles|profileTypeToString"), (r"flow_control|vmec_indata|profile_parameterization|common/util/", r"String|FromInt|StatusCode|allProfileParam|AsString|Status|Code|FromJson|ToJson"), (r"radial_profiles", r"evalProfileFunction")],
    "C15": [(r"radial_profiles/|profile_parameterization_data/", r"")],
    "C16": [(r"pybind_vmec", r"VmecModel"), (r"vmec/vmec/vmec\.cc", r"Vmec::(SolveEquilibriumLoop|Evolve|RestartIteration|[pP]erformTimeStep)")],
    "C18": [(r"pybind_vmec", r"binding::module::run"), (r"vmec/vmec/vmec\.cc", r"vmecpp::run")],
    "C17": [(r"output_quantities\.(cc|h)", r"^(?!.*(WriteTo|LoadInto|OutputQuantities::(Save|Load)|GatherDataFromThreads|operator))")],
    "C19": [(r"vmec/vmec/", r"CheckInitialState|HotRestartState|InitializeRadial|InterpolateToNextMultigridStep|Vmec::SetupVacuumSolvers|vmecpp::run|Vmec::run"), (r"fourier_coefficients", r"m1Constraint|decompose|FourierCoeffs::FourierCoeffs"),
            (r"fourier_geometry/", r"InitFromState|interpFromBoundaryAndAxis|extrapolateTowardsAxis"),
            (r"pybind_vmec", r"MakeHotRestartState|RefineTo|Reinitialize")],
    "C20": [(r"ideal_mhd_model/.*_kernel\.h", r""),
            (r"ideal_mhd_model/ideal_mhd_model\.(cc|h)", r"::(compute(Jacobian|MetricElements|BContra|BCo|MHDForces|ForceNorms|InitialVolume)|updateDifferentialVolume|updateVolume|pressureAndEnergies|hybridLambdaForce|radialForceBalance|assembleTotalForces|effectiveConstraintForce|rzConIntoVolume|constraintForceMultiplier|evalFRes|setFromINDATA|IdealMhdModel|get_)"),
            (r"vmec_constants", r""), (r"ideal_mhd_model/ideal_mhd_model\.(cc|h)", r""), (r"fourier_forces", r"")],
    "C21": [(r"composed_types|magnetic_configuration|magnetic_field_provider", r"")],
    "C22": [(r"flow_control/|iteration_logger/", r""), (r"fourier_forces", r"residuals"),
            (r"vmec/vmec/vmec\.", r"Vmec::(run|SolveEquilibrium|SolveEquilibriumLoop|Evolve|RestartIteration|UpdateForwardModel|Printout|[pP]erformTimeStep|InitializeRadial|FromIndata)|UpdateStatusForThread|get_|vmecpp::run"), (r"ideal_mhd_model\.cc", r"::update$|evalFRes|shouldUpdate|get_")],
    "C23": [(r"handover_storage", r"allocate"), (r"common/util/util", r"Tridiagonal"), (r"ideal_mhd_model\.cc", r"recondition|::update$"), (r"fourier_forces|fourier_coefficients", r"m1|scalxc|zeroZForceForM1|decompose|rescale")],
    "C24": [(r"free_boundary/", r""), (r"ideal_mhd_model\.cc", r"::update$|HandOver|get_|computeMHDForces|assembleTotalForces|radialForceBalance"), (r"fourier_basis", r"FourierBasis"), (r"vmec/vmec/vmec\.cc", r"SetupVacuum|UpdateForwardModel|Vmec::run")],
    "C25": [(r"vmec/boundaries/", r""), (r"fourier_geometry", r"interpFromBoundaryAndAxis"), (r"common/util/", r"signum"), (r"fourier_basis", r"FourierBasis"), (r"fourier_coefficients", r"m1Constraint")],
    "C27": [(r"pybind_vmec", r"^(?!.*(PyInit|pybind11_exec))")],
}


# property -> regex over qualified Python functions and classes
PY = {
    "C03": r"vmecpp\.(VmecWOut|JxBOut|Mercier|Threed1\w+|VmecOutput)(\.|$)|_util\.(pad_to_target|right_pad)|simsopt_compat\.Vmec\.load_wout",
    "C04": r"vmecpp\.(VmecInput(\.|$)|_wrap_|_coerce|_validate|set_profile|ensure_|is_vmec2000|_final_resolution|FreeBoundaryMethod|IterationStyle)|vmecpp\._util\.",
    "C10": r"vmecpp\.(VmecInput\._validate|VmecInput$|_validate|_coerce|_final_resolution|run$)|_run_fourier_continuation",
    "C11": r"_util\.(change_working|indata_to_json|package_root|distribution_root|get_vmec)|vmecpp\.(ensure_|is_vmec2000)|vmecpp\.(VmecWOut|VmecInput)\.(save|_save|from|to_json)|_free_boundary\..*(file|coils)|simsopt_compat\.Vmec\.(run|write_input|get_input|load_wout)|vmecpp\.__main__",
    "C12": r"vmecpp\._free_boundary\.",
    "C13": r"_util\.(dense_to_sparse|sparse_to_dense)|vmecpp\._pydantic_numpy\.|vmecpp\.(VmecInput|VmecWOut|VmecOutput)$|vmecpp\.(VmecInput)\.(save|to_json|from_file)|_wrap_",
    "C14": r"vmecpp\.(FreeBoundaryMethod|IterationStyle|OutputMode|_iteration\.RestartReason|_validate_\w+|VmecWOut\.(restart_reasons|reason))$",
    "C15": r"vmecpp\.VmecInput\.set_profile|vmecpp\.set_profile",
    "C16": r"vmecpp\._iteration\.|vmecpp\.(run|_validate_iteration_style|IterationStyle)$",
    "C18": r"_util\.(pad_to_target|right_pad)|VmecInput\._to_cpp_vmecindata|vmecpp\.(run|_print_progress|_final_resolution|_validate|_coerce|OutputMode)|vmecpp\._continuation\.|vmecpp\.__main__|vmecpp\.VmecInput\.(default|resize)",
    "C19": r"vmecpp\._continuation\.|vmecpp\.run$|vmecpp\.VmecWOut\._to_cpp_wout",
    "C26": r"vmecpp\.simsopt_compat\.",
}


def select_py(ref, pid):
    if pid not in PY:
        return [], []
    return ([q for q in sorted(ref["functions"]) if re.search(PY[pid], q)], [q for q in sorted(ref["classes"]) if re.search(PY[pid], q)])


def select(ref, pid):
    out = []
    for k, v in ref["functions"].items():
        for fr, nr in REF.get(pid, []):
            if re.search(fr, v["file"]) and re.search(nr, k):
                out.append(k)
                break
    return sorted(out)


if __name__ == "__main__":
    import refcheck
    ref = refcheck.reference()
    seen = set()
    for p in sorted(REF):
        s = select(ref, p)
        seen |= set(s)
        print(p, len(s), sum(len(ref["functions"][k]["s"]["locs"]) + len(ref["functions"][k]["s"]["events"]) for k in s))
    for k in sorted(set(ref["functions"]) - seen):
        print("   unassigned", k, ref["functions"][k]["file"])
    import pyref
    r = pyref.reference()
    seen = set()
    for p in sorted(PY):
        a, b = select_py(r, p)
        print(p, len(a), len(b))
        seen |= set(a) | set(b)
    print("unassigned", sorted((set(r["functions"]) | set(r["classes"])) - seen))
