CMD = {"*": "python3 lib/pyref.py 2>&1 | cut -c1-300 | head -12"}
U, N, C, I, S, M, F, P = "_util.py", "__init__.py", "_continuation.py", "_iteration.py", "simsopt_compat.py", "__main__.py", "_free_boundary.py", "_pydantic_numpy.py"
EDITS = {
"mode_table_comp": [(C, """    xm: list[int] = []
    xn: list[int] = []
    for m in range(mpol):
        n_min = 0 if m == 0 else -ntor
        for n in range(n_min, ntor + 1):
            xm.append(m)
            xn.append(n * nfp)
    return np.asarray(xm, dtype=np.int64), np.asarray(xn, dtype=np.int64)
""", """    modes = [
        (m, n * nfp)
        for m in range(mpol)
        for n in range(0 if m == 0 else -ntor, ntor + 1)
    ]
    xm = np.asarray([mode[0] for mode in modes], dtype=np.int64)
    xn = np.asarray([mode[1] for mode in modes], dtype=np.int64)
    return xm, xn
""")],
"mode_table_if": [(C, """        n_min = 0 if m == 0 else -ntor
""", """        if m > 0:
            n_min = -ntor
        else:
            n_min = 0
""")],
"remap_in": [(C, """        j = src_index.get((int(m), int(n)))
        if j is not None:
            out[i] = values[j]
""", """        key = (int(m), int(n))
        if key in src_index:
            out[i] = values[src_index[key]]
""")],
"remap_dictloop": [(C, """    src_index = {
        (int(m), int(n)): i for i, (m, n) in enumerate(zip(src_xm, src_xn, strict=True))
    }
""", """    src_index = {}
    for i, (m, n) in enumerate(zip(src_xm, src_xn, strict=True)):
        src_index[(int(m), int(n))] = i
""")],
"geom_helper": [(C, """    old_scale = np.empty(ns_old)
    old_scale[1:] = 1.0 / old_sqrt_s[1:]
    old_scale[0] = old_scale[1]
    new_scale = np.empty(ns_new)
    new_scale[1:] = 1.0 / new_sqrt_s[1:]
    new_scale[0] = new_scale[1]
""", """    old_scale = _inverse_sqrt_s(old_sqrt_s, ns_old)
    new_scale = _inverse_sqrt_s(new_sqrt_s, ns_new)
"""), (C, "def _radial_interpolate_geometry(", """def _inverse_sqrt_s(sqrt_s, n):
    scale = np.empty(n)
    scale[1:] = 1.0 / sqrt_s[1:]
    scale[0] = scale[1]
    return scale


def _radial_interpolate_geometry(""")],
"geom_branch": [(C, """        if odd_m:
            radial = radial * old_scale
            if ns_old >= 3:
                radial[0] = 2.0 * radial[1] - radial[2]
        interpolated = np.interp(new_sqrt_s, old_sqrt_s, radial)
        if odd_m:
            interpolated = interpolated / new_scale
            interpolated[0] = 0.0
        out[i] = interpolated
""", """        if not odd_m:
            out[i] = np.interp(new_sqrt_s, old_sqrt_s, radial)
            continue
        radial = radial * old_scale
        if ns_old >= 3:
            radial[0] = 2.0 * radial[1] - radial[2]
        interpolated = np.interp(new_sqrt_s, old_sqrt_s, radial)
        interpolated = interpolated / new_scale
        interpolated[0] = 0.0
        out[i] = interpolated
""")],
"radial_enum": [(C, """    for i in range(flat.shape[0]):
        out[i] = np.interp(s_new, s_old, flat[i])
""", """    for i, row in enumerate(flat):
        out[i] = np.interp(s_new, s_old, row)
""")],
"interp_reorder": [(C, """    new_wout.ns = ns_new
    new_wout.mpol = mpol_new
    new_wout.ntor = ntor_new
    new_wout.mnmax = len(dst_xm)
    new_wout.xm = dst_xm
    new_wout.xn = dst_xn
""", """    new_wout.xm = dst_xm
    new_wout.xn = dst_xn
    new_wout.mnmax = len(dst_xm)
    new_wout.ntor = ntor_new
    new_wout.mpol = mpol_new
    new_wout.ns = ns_new
""")],
"interp_nest": [(C, """        val = getattr(wout, name)
        if not isinstance(val, np.ndarray) or val.size == 0:
            continue
        if val.shape[-1] == ns_old:
            setattr(new_wout, name, _radial_interpolate(val, ns_new))
""", """        val = getattr(wout, name)
        if isinstance(val, np.ndarray) and val.size > 0 and val.shape[-1] == ns_old:
            setattr(new_wout, name, _radial_interpolate(val, ns_new))
""")],
"interp_notnone": [(C, """        val = getattr(wout, name)
        if val is None:
            continue
        setattr(new_wout, name, _remap_axis(val, ntor_new))
""", """        axis = getattr(wout, name)
        if axis is not None:
            setattr(new_wout, name, _remap_axis(axis, ntor_new))
""")],
"cont_zip": [(C, """    for i in range(n_steps):
        step_input = _step_input(
            input,
            ns_schedule[i],
            mpol_schedule[i],
            ntor_schedule[i],
            ftol_schedule[i],
            niter_schedule[i],
        )
""", """    for step in range(n_steps):
        ns_step = ns_schedule[step]
        mpol_step = mpol_schedule[step]
        step_input = _step_input(
            input,
            ns=ns_step,
            mpol=mpol_step,
            ntor=ntor_schedule[step],
            ftol=ftol_schedule[step],
            niter=niter_schedule[step],
        )
""")],
"cont_guess": [(C, """        guess = None if output is None else interpolate_solution(output, step_input)
""", """        if output is not None:
            guess = interpolate_solution(output, step_input)
        else:
            guess = None
""")],
"cont_resolve_module": [(C, """    def _resolve(value: int | np.ndarray, name: str) -> list[int]:
        if isinstance(value, int):
            return [value] * n_steps
        resolved = [int(x) for x in value]
        if len(resolved) != n_steps:
            msg = (
                f"'{name}' has {len(resolved)} entries, but 'ns_array' has "
                f"{n_steps}; a Fourier-resolution continuation schedule must have "
                "one entry per ns_array step (or be a scalar, broadcast to every "
                "step)."
            )
            raise ValueError(msg)
        return resolved

    mpol_schedule = _resolve(input.mpol, "mpol")
    ntor_schedule = _resolve(input.ntor, "ntor")
""", """    mpol_schedule = _resolve_schedule(input.mpol, "mpol", n_steps)
    ntor_schedule = _resolve_schedule(input.ntor, "ntor", n_steps)
"""), (C, "def _run_fourier_continuation(", """def _resolve_schedule(value, name: str, n_steps: int) -> list[int]:
    if isinstance(value, int):
        return [value] * n_steps
    resolved = [int(x) for x in value]
    if len(resolved) != n_steps:
        raise ValueError(f"'{name}' has {len(resolved)} entries, but {n_steps}")
    return resolved


def _run_fourier_continuation(""")],
"step_helper": [(C, """    for name in _INPUT_AXIS_FIELDS:
        val = getattr(step, name)
        if val is not None:
            setattr(step, name, _remap_axis(np.asarray(val, dtype=float), ntor))
    return step
""", """    _resize_axis_fields(step, ntor)
    return step


def _resize_axis_fields(step, ntor: int) -> None:
    for field in _INPUT_AXIS_FIELDS:
        current = getattr(step, field)
        if current is None:
            continue
        setattr(step, field, _remap_axis(np.asarray(current, dtype=float), ntor))
""")],
"name_dispatch": [(U, """    if filename.endswith(".json"):
        case_name = filename[:-5]
    elif filename.startswith("input."):
        case_name = filename[6:]
    elif filename.startswith("wout_") and filename.endswith(".nc"):
        case_name = filename[5:-3]
    else:
        msg = f"This does not look like a VMEC input or output file: {filename}"
        raise ValueError(msg)

    return case_name
""", """    if filename.endswith(".json"):
        return filename[:-5]
    if filename.startswith("input."):
        return filename[6:]
    if filename.startswith("wout_") and filename.endswith(".nc"):
        return filename[5:-3]
    msg = f"This does not look like a VMEC input or output file: {filename}"
    raise ValueError(msg)
""")],
"name_slices": [(U, """        case_name = filename[:-5]
""", """        case_name = filename[: -len(".json")]
"""), (U, "        case_name = filename[6:]\n", '        case_name = filename[len("input.") :]\n')],
"cwd_names": [(U, """    origin = Path.cwd()

    try:
        os.chdir(path)
        yield
    finally:
        os.chdir(origin)
""", """    previous = Path.cwd()
    try:
        os.chdir(path)
        yield
    finally:
        os.chdir(previous)
""")],
"i2j_cmd": [(U, """        if use_mgrid_file_absolute_path:
            command = [
                indata_to_json_exe,
                "--mgrid_folder",
                original_input_file.parent.absolute(),
                local_input_file,
            ]
        else:
            command = [indata_to_json_exe, local_input_file]
        result = subprocess.run(command, check=True)
""", """        command = [indata_to_json_exe]
        if use_mgrid_file_absolute_path:
            command += ["--mgrid_folder", original_input_file.parent.absolute()]
        command.append(local_input_file)
        result = subprocess.run(command, check=True)
""")],
"i2j_target": [(U, """        if output_override is None:
            # copy output back
            path_to_vmecpp_input_file = Path(original_cwd, i2j_output_file)
            shutil.copyfile(i2j_output_file, path_to_vmecpp_input_file)
            return path_to_vmecpp_input_file

        # otherwise copy output to desired output override
        shutil.copyfile(i2j_output_file, output_override)
        return output_override
""", """        target = (
            Path(original_cwd, i2j_output_file)
            if output_override is None
            else output_override
        )
        shutil.copyfile(i2j_output_file, target)
        return target
""")],
"i2j_exe_helper": [(U, """    indata_to_json_exe = (
        distribution_root() / "cpp" / "third_party" / "indata2json" / "indata2json"
    )
    if not indata_to_json_exe.is_file():
        msg = f"{indata_to_json_exe} is not a file."
        raise FileNotFoundError(msg)
    if not os.access(indata_to_json_exe, os.X_OK):
        msg = f"Missing permission to execute {indata_to_json_exe}."
        raise PermissionError(msg)
""", """    indata_to_json_exe = _indata2json_executable()
"""), (U, "def indata_to_json(", """def _indata2json_executable() -> Path:
    exe = distribution_root() / "cpp" / "third_party" / "indata2json" / "indata2json"
    if not exe.is_file():
        raise FileNotFoundError(f"{exe} is not a file.")
    if not os.access(exe, os.X_OK):
        raise PermissionError(f"Missing permission to execute {exe}.")
    return exe


def indata_to_json(""")],
"namelist_loop": [(U, """    indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
    indata += _fourier_coefficients_to_namelist("zbs", vmecpp_json)
    indata += _fourier_coefficients_to_namelist("rbs", vmecpp_json)
    indata += _fourier_coefficients_to_namelist("zbc", vmecpp_json)
""", """    for coefficient_name in ("rbc", "zbs", "rbs", "zbc"):
        indata += _fourier_coefficients_to_namelist(coefficient_name, vmecpp_json)
""")],
"namelist_get": [(U, """    if (
        varname in vmecpp_json
        and vmecpp_json[varname] is not None
        and len(vmecpp_json[varname]) > 0
    ):
        out = ""
        for coefficient in vmecpp_json[varname]:
            m = coefficient["m"]
            n = coefficient["n"]
            value = coefficient["value"]
            out += f"  {varname}({n}, {m}) = {value:.20e}\\n"
        return out
    return ""
""", """    if varname not in vmecpp_json or vmecpp_json[varname] is None:
        return ""
    coefficients = vmecpp_json[varname]
    if len(coefficients) == 0:
        return ""
    return "".join(
        f"  {varname}({c['n']}, {c['m']}) = {c['value']:.20e}\\n" for c in coefficients
    )
""")],
"namelist_pieces": [(U, """    elements = ", ".join(map(str, vmecpp_json[varname]))
""", """    elements = ", ".join(str(x) for x in vmecpp_json[varname])
""") if False else (U, """        elements = ", ".join(map(str, vmecpp_json[varname]))
""", """        elements = ", ".join([str(x) for x in vmecpp_json[varname]])
""")],
"bool_namelist": [(U, """    return f"  {varname} = {'.true.' if vmecpp_json[varname] else '.false.'}\\n"
""", """    literal = ".true." if vmecpp_json[varname] else ".false."
    return f"  {varname} = {literal}\\n"
""")],
"d2s_comp": [(U, """    sparse_list = []
    m_indices, col_indices = np.nonzero(coefficients)
    for m, col in zip(m_indices, col_indices, strict=True):
        n = col - ntor
        value = coefficients[m][col]
        # Convert numpy types like np.int64 to Python native for serialization
        sparse_list.append({"m": int(m), "n": int(n), "value": float(value)})
    return sparse_list
""", """    m_indices, col_indices = np.nonzero(coefficients)
    return [
        {"m": int(m), "n": int(col - ntor), "value": float(coefficients[m][col])}
        for m, col in zip(m_indices, col_indices, strict=True)
    ]
""")],
"s2d_guard": [(U, """        if 0 <= m < mpol and 0 <= col_idx < dense_coefficients.shape[1]:
            dense_coefficients[m, col_idx] = val
        else:
            # Strict contract for deserialization, we don't want to implicitly drop terms.
            msg = (
                "Index out of bounds when parsing sparse coefficient array, one of "
                f"m={m} in [0,{mpol}], n={n} in [{-ntor},{ntor}] are not in range."
            )
            raise ValueError(msg)
""", """        in_range = 0 <= m < mpol and 0 <= col_idx < dense_coefficients.shape[1]
        if not in_range:
            msg = f"Index out of bounds: m={m}, n={n}"
            raise ValueError(msg)
        dense_coefficients[m, col_idx] = val
""")],
"s2d_impl_max": [(U, """    mpol = 0
    ntor = 0
    for sparse_entry in maybe_sparse_list:
        mpol = int(max(mpol, sparse_entry["m"]))
        ntor = int(max(ntor, abs(sparse_entry["n"])))
    mpol += 1
    return sparse_to_dense_coefficients(maybe_sparse_list, mpol, ntor)
""", """    max_m = 0
    max_n = 0
    for entry in maybe_sparse_list:
        max_m = int(max(max_m, entry["m"]))
        max_n = int(max(max_n, abs(entry["n"])))
    return sparse_to_dense_coefficients(maybe_sparse_list, mpol=max_m + 1, ntor=max_n)
""")],
"pad_flip": [(U, """    if len(value) <= target_length:
        return np.pad(
            value,
            (0, target_length - len(value)),
            mode="constant",
            constant_values=default_value,
        )
    msg = (
        f"Array length {len(value)} exceeds target "
        f"length {target_length} allowed for serialization"
    )
    raise ValueError(msg)
""", """    missing = target_length - len(value)
    if missing < 0:
        msg = f"Array length {len(value)} exceeds {target_length}"
        raise ValueError(msg)
    return np.pad(value, (0, missing), mode="constant", constant_values=default_value)
""")],
"is2000": [(N, """        for line in f:
            stripped_line = line.strip()
            if not stripped_line or stripped_line.startswith("!"):
                continue
            return stripped_line == "&INDATA"
    return False
""", """        for line in f:
            content = line.strip()
            if content and not content.startswith("!"):
                return content == "&INDATA"
        return False
""")],
"ensure_else": [(N, """    if is_vmec2000_input(input_path):
        # nothing to do: must yield result on first generator call,
        # then exit (via a return)
        yield input_path
        return

    vmecpp_input_basename = input_path.name.removesuffix(".json").removeprefix("input.")
    indata_file = f"input.{vmecpp_input_basename}"

    with open(input_path) as vmecpp_json_f:
        vmecpp_json_dict = json.load(vmecpp_json_f)

    indata_contents = _util.vmecpp_json_to_indata(vmecpp_json_dict)

    # Otherwise we actually need to perform the JSON -> INDATA conversion.
    # We need the try/finally in order to correctly clean up after
    # ourselves even in case of errors raised from the body of the `with`
    # in user code.
    with tempfile.TemporaryDirectory() as tmpdir:
        out_path = Path(tmpdir) / indata_file
        with open(out_path, "w") as out_f:
            out_f.write(indata_contents)
        yield out_path
""", """    if is_vmec2000_input(input_path):
        yield input_path
    else:
        basename = input_path.name.removesuffix(".json").removeprefix("input.")

        with open(input_path) as json_file:
            contents = _util.vmecpp_json_to_indata(json.load(json_file))

        with tempfile.TemporaryDirectory() as tmpdir:
            out_path = Path(tmpdir) / f"input.{basename}"
            with open(out_path, "w") as out_f:
                out_f.write(contents)
            yield out_path
""")],
"profile_update": [(N, """    if field == "pressure":
        return vmec_input.model_copy(
            update={
                "pmass_type": "line_segment",
                "am_aux_s": knots,
                "am_aux_f": values,
                "am": np.array([]),
            }
        )
    if field == "iota":
        return vmec_input.model_copy(
            update={
                "piota_type": "line_segment",
                "ai_aux_s": knots,
                "ai_aux_f": values,
                "ai": np.array([]),
            }
        )
    if field == "current":
        return vmec_input.model_copy(
            update={
                "pcurr_type": "line_segment_i",
                "ac_aux_s": knots,
                "ac_aux_f": values,
                "ac": np.array([]),
            }
        )
    msg = "field must be one of 'pressure', 'iota', 'current'"
    raise ValueError(msg)
""", """    if field == "pressure":
        update = {
            "pmass_type": "line_segment",
            "am_aux_s": knots,
            "am_aux_f": values,
            "am": np.array([]),
        }
    elif field == "iota":
        update = {
            "piota_type": "line_segment",
            "ai_aux_s": knots,
            "ai_aux_f": values,
            "ai": np.array([]),
        }
    elif field == "current":
        update = {
            "pcurr_type": "line_segment_i",
            "ac_aux_s": knots,
            "ac_aux_f": values,
            "ac": np.array([]),
        }
    else:
        msg = "field must be one of 'pressure', 'iota', 'current'"
        raise ValueError(msg)
    return vmec_input.model_copy(update=update)
""")],
"profile_grid": [(N, """        half_grid = full_grid - 0.5 * (full_grid[1] - full_grid[0])
        s_values.update(full_grid)
        s_values.update(half_grid)
""", """        spacing = full_grid[1] - full_grid[0]
        s_values.update(full_grid)
        s_values.update(full_grid - 0.5 * spacing)
""")],
"resize_slices": [(N, """        for m in range(smaller_mpol):
            for n in range(-smaller_ntor, smaller_ntor + 1):
                resized_coeff[m, n + ntor_new] = coeff[m, n + ntor]
""", """        for m in range(smaller_mpol):
            for k in range(2 * smaller_ntor + 1):
                n = k - smaller_ntor
                resized_coeff[m, ntor_new + n] = coeff[m, ntor + n]
""")],
"run_threads_first": [(N, """    cpp_indata = input._to_cpp_vmecindata()

    if restart_from is None:
        initial_state = None
    else:
        initial_state = _vmecpp.HotRestartState(
            wout=restart_from.wout._to_cpp_wout(),
            indata=restart_from.input._to_cpp_vmecindata(),
        )

    if max_threads is not None and max_threads <= 0:
        msg = (
            "The number of threads must be >=1. To automatically use all "
            "available threads, pass max_threads=None"
        )
        raise RuntimeError(msg)
""", """    if max_threads is not None and max_threads < 1:
        msg = (
            "The number of threads must be >=1. To automatically use all "
            "available threads, pass max_threads=None"
        )
        raise RuntimeError(msg)

    cpp_indata = input._to_cpp_vmecindata()

    initial_state = None
    if restart_from is not None:
        initial_state = _vmecpp.HotRestartState(
            wout=restart_from.wout._to_cpp_wout(),
            indata=restart_from.input._to_cpp_vmecindata(),
        )
""")],
"run_mode_helper": [(N, """    _verbose = OutputMode(verbose)

    if _verbose == OutputMode.PROGRESS:
        # Rich printing has been requested, let's auto detect if the terminal
        # is TTY capable
        is_tty = hasattr(sys.stdout, "isatty") and sys.stdout.isatty()
        if not is_tty:
            _verbose = OutputMode.PROGRESS_NON_TTY
    if""", """    _verbose = _resolve_output_mode(verbose)
    if"""), (N, "def run(\n", """def _resolve_output_mode(verbose):
    mode = OutputMode(verbose)
    if mode != OutputMode.PROGRESS:
        return mode
    if hasattr(sys.stdout, "isatty") and sys.stdout.isatty():
        return mode
    return OutputMode.PROGRESS_NON_TTY


def run(
""")],
"run_kwargs": [(N, """    if magnetic_field is None:
        cpp_output_quantities = _vmecpp.run(
            cpp_indata,
            initial_state=initial_state,
            max_threads=max_threads,
            verbose=_verbose.value,
        )
    else:
        # magnetic_response_table takes precedence anyway, but let's be explicit, to ensure
        # we don't silently use the mgrid file in input, instead of the magnetic_response_table object.
        cpp_indata.mgrid_file = "NONE"
        cpp_output_quantities = _vmecpp.run(
            cpp_indata,
            magnetic_response_table=magnetic_field._to_cpp_magnetic_field_response_table(),
            initial_state=initial_state,
            max_threads=max_threads,
            verbose=_verbose.value,
        )
""", """    common = {
        "initial_state": initial_state,
        "max_threads": max_threads,
        "verbose": _verbose.value,
    }
    if magnetic_field is not None:
        cpp_indata.mgrid_file = "NONE"
        cpp_output_quantities = _vmecpp.run(
            cpp_indata,
            magnetic_response_table=magnetic_field._to_cpp_magnetic_field_response_table(),
            **common,
        )
    else:
        cpp_output_quantities = _vmecpp.run(cpp_indata, **common)
""")],
"run_inline_outputs": [(N, """    cpp_wout = cpp_output_quantities.wout
    wout = VmecWOut._from_cpp_wout(cpp_wout)
    jxbout = JxBOut._from_cpp_jxbout(cpp_output_quantities.jxbout)
""", """    jxbout = JxBOut._from_cpp_jxbout(cpp_output_quantities.jxbout)
    wout = VmecWOut._from_cpp_wout(cpp_output_quantities.wout)
""")],
"jxb_direct": [(N, """        jxbout = JxBOut(
            **{attr: getattr(cpp_jxbout, attr) for attr in JxBOut.model_fields}
        )

        return jxbout
""", """        attributes = {}
        for attr in JxBOut.model_fields:
            attributes[attr] = getattr(cpp_jxbout, attr)
        return JxBOut(**attributes)
""")],
"fromcpp_input": [(N, """        vmec_input_dict = {
            attr_name: getattr(vmecindata, attr_name)
            for attr_name in VmecInput.model_fields
        }
        vmec_input_dict["ns_array"] = vmec_input_dict["ns_array"].astype(np.int64)
        vmec_input_dict["niter_array"] = vmec_input_dict["niter_array"].astype(np.int64)
""", """        vmec_input_dict = {
            name: getattr(vmecindata, name) for name in VmecInput.model_fields
        }
        for name in ("ns_array", "niter_array"):
            vmec_input_dict[name] = vmec_input_dict[name].astype(np.int64)
""")],
"tip_early": [(N, """    if not _progress_tip_shown:
        _progress_tip_shown = True
        print(  # noqa: T201
            "Tip: Use vmecpp.run(..., verbose=1) for classic table output."
        )
""", """    if _progress_tip_shown:
        return
    _progress_tip_shown = True
    print("Tip: Use vmecpp.run(..., verbose=1) for classic table output.")
""")],
"simsopt_grid": [(S, """        ds = self.s_full_grid[1] - self.s_full_grid[0]
        self.s_half_grid = self.s_full_grid[1:] - 0.5 * ds
        self.ds = ds
""", """        self.ds = self.s_full_grid[1] - self.s_full_grid[0]
        self.s_half_grid = self.s_full_grid[1:] - 0.5 * self.ds
""")],
"simsopt_run": [(S, """        if not self.need_to_run_code:
            logger.debug("run() called but no need to re-run VMEC.")
            return

        if not self.runnable:
            msg = "Cannot run a Vmec object that was initialized from a wout file."
            raise RuntimeError(msg)

        self.iter += 1
        self.set_indata()  # update self.indata if needed

        assert self.indata is not None  # for pyright

        indata = self.indata
        if restart_from is not None:
            # we are going to perform a hot restart, so we are only going to
            # run the last of the multi-grid steps: adapt indata accordingly
            indata = self.indata.model_copy(deep=True)
            indata.ns_array = indata.ns_array[-1:]  # type: ignore
            indata.ftol_array = indata.ftol_array[-1:]  # type: ignore
            indata.niter_array = indata.niter_array[-1:]  # type: ignore
""", """        if not self.need_to_run_code:
            return

        if not self.runnable:
            msg = "Cannot run a Vmec object that was initialized from a wout file."
            raise RuntimeError(msg)

        self.iter += 1
        self.set_indata()

        assert self.indata is not None

        if restart_from is None:
            indata = self.indata
        else:
            indata = self._last_step_only()
"""), (S, """    def load_wout_from_outfile(self)""", """    def _last_step_only(self):
        indata = self.indata.model_copy(deep=True)
        indata.niter_array = indata.niter_array[-1:]
        indata.ftol_array = indata.ftol_array[-1:]
        indata.ns_array = indata.ns_array[-1:]
        return indata

    def load_wout_from_outfile(self)""")],
"simsopt_result": [(S, """    def aspect(self) -> float:
        \"\"\"Return the plasma aspect ratio.\"\"\"
        self.run()
        assert self.wout is not None
        return self.wout.aspect
""", """    def _current_wout(self):
        self.run()
        assert self.wout is not None
        return self.wout

    def aspect(self) -> float:
        \"\"\"Return the plasma aspect ratio.\"\"\"
        return self._current_wout().aspect
"""), (S, """        self.run()
        assert self.wout is not None
        return self.wout.iotaf[0]
""", """        return self._current_wout().iotaf[0]
""")],
"simsopt_well": [(S, """        dVds_s0 = 1.5 * dVds[0] - 0.5 * dVds[1]
        dVds_s1 = 1.5 * dVds[-1] - 0.5 * dVds[-2]

        well = (dVds_s0 - dVds_s1) / dVds_s0
        return well
""", """        at_axis = 1.5 * dVds[0] - 0.5 * dVds[1]
        at_edge = 1.5 * dVds[-1] - 0.5 * dVds[-2]
        return (at_axis - at_edge) / at_axis
""")],
"simsopt_current": [(S, """        bvco = self.wout.bvco[-1] * 1.5 - self.wout.bvco[-2] * 0.5
        mu0 = 4 * np.pi * (1.0e-7)
        # The formula in the next line follows from Ampere's law:
        # \\int \\vec{B} dot (d\\vec{r} / d phi) d phi = mu_0 I.
        return 2 * np.pi * bvco / mu0
""", """        wout = self.wout
        bvco_edge = 1.5 * wout.bvco[-1] - 0.5 * wout.bvco[-2]
        return 2 * np.pi * bvco_edge / (4 * np.pi * 1.0e-7)
""")],
"simsopt_dofs": [(S, """        if self.runnable:
            assert self.indata is not None
            self.need_to_run_code = True
            self.indata.delt = x[0]
            self.indata.tcon0 = x[1]
            self.indata.phiedge = x[2]
            self.indata.curtor = x[3]
            self.indata.gamma = x[4]
""", """        if not self.runnable:
            return
        indata = self.indata
        assert indata is not None
        indata.delt = x[0]
        indata.tcon0 = x[1]
        indata.phiedge = x[2]
        indata.curtor = x[3]
        indata.gamma = x[4]
        self.need_to_run_code = True
""")],
"simsopt_dofs_loop": [(S, """            self.indata.delt = x[0]
            self.indata.tcon0 = x[1]
            self.indata.phiedge = x[2]
            self.indata.curtor = x[3]
            self.indata.gamma = x[4]
""", """            for i, name in enumerate(("delt", "tcon0", "phiedge", "curtor", "gamma")):
                setattr(self.indata, name, x[i])
""")],
"simsopt_setindata": [(S, """        for m in range(mpol):
            for n in range(2 * ntor + 1):
                vi.rbc[m, n] = boundary_RZFourier.get_rc(m, n - ntor)
                vi.zbs[m, n] = boundary_RZFourier.get_zs(m, n - ntor)
                if rbs is not None and zbc is not None:
                    rbs[m, n] = boundary_RZFourier.get_rs(m, n - ntor)
                    zbc[m, n] = boundary_RZFourier.get_zc(m, n - ntor)
""", """        for m in range(mpol):
            for n in range(-ntor, ntor + 1):
                vi.rbc[m, n + ntor] = boundary_RZFourier.get_rc(m, n)
                vi.zbs[m, n + ntor] = boundary_RZFourier.get_zs(m, n)
                if rbs is not None and zbc is not None:
                    rbs[m, n + ntor] = boundary_RZFourier.get_rs(m, n)
                    zbc[m, n + ntor] = boundary_RZFourier.get_zc(m, n)
""")],
"simsopt_mpol": [(S, """        if updated_boundary is not self.boundary:
            old_boundary = self.boundary
            # Transfer children (other than self) from old boundary to new boundary
            # to preserve the optimization dependency chain.
            # self (Vmec) is excluded here; the boundary setter handles it below.
            old_children = [c() for c in old_boundary._children if c() is not None]
            for child in old_children:
                if child is not self:
                    child.remove_parent(old_boundary)
                    child.append_parent(updated_boundary)
            self.boundary = updated_boundary
        self.recompute_bell()
""", """        old_boundary = self.boundary
        if updated_boundary is not old_boundary:
            old_children = [c() for c in old_boundary._children if c() is not None]
            for child in old_children:
                if child is self:
                    continue
                child.remove_parent(old_boundary)
                child.append_parent(updated_boundary)
            self.boundary = updated_boundary
        self.recompute_bell()
""")],
"wout_name": [(S, """    if input_file_basename.startswith("input.") and input_file_basename.endswith(
        ".json"
    ):
        out = ".".join(input_file_basename.split(".")[1:-1])
    elif input_file_basename.endswith(".json"):
        out = input_file_basename.removesuffix(".json")
    elif input_file_basename.startswith("input."):
        out = input_file_basename.removeprefix("input.")
    else:
        msg = f"Input file name {input_file} cannot be converted to output file name"
        raise RuntimeError(msg)

    return f"wout_{out}.nc"
""", """    is_json = input_file_basename.endswith(".json")
    has_prefix = input_file_basename.startswith("input.")
    if has_prefix and is_json:
        out = ".".join(input_file_basename.split(".")[1:-1])
    elif is_json:
        out = input_file_basename.removesuffix(".json")
    elif has_prefix:
        out = input_file_basename.removeprefix("input.")
    else:
        msg = f"Input file name {input_file} cannot be converted to output file name"
        raise RuntimeError(msg)

    return f"wout_{out}.nc"
""")],
"main_mode": [(M, """    if args.quiet:
        verbose = 0
    elif args.legacy:
        verbose = 1
    else:
        verbose = 2
        print(  # noqa: T201
            "Tip: Use the --legacy flag for classic table output."
        )
        vmecpp._progress_tip_shown = True
""", """    verbose = 2
    if args.quiet:
        verbose = 0
    elif args.legacy:
        verbose = 1
    if verbose == 2:
        print(  # noqa: T201
            "Tip: Use the --legacy flag for classic table output."
        )
        vmecpp._progress_tip_shown = True
""")],
"main_split": [(M, """    if args.command == "convert":
        vmec_input = vmecpp.VmecInput.from_file(args.input_file)
        json_name = args.input_file.name.replace("input.", "")
        json_file = Path(f"{args.input_file.parent}/{json_name}.json")
        vmec_input.save(json_file, indent=4)
        print(f"Converted {args.input_file} to {json_file}")  # noqa: T201
        return
""", """    if args.command == "convert":
        _convert(args.input_file)
        return
"""), (M, "def main() -> None:", """def _convert(input_file: Path) -> None:
    vmec_input = vmecpp.VmecInput.from_file(input_file)
    name = input_file.name.replace("input.", "")
    target = Path(f"{input_file.parent}/{name}.json")
    vmec_input.save(target, indent=4)
    print(f"Converted {input_file} to {target}")  # noqa: T201


def main() -> None:""")],
"pyd_sanitize": [(P, """    if np.isnan(value):
        return "NaN"
    if np.isinf(value):
        return "-Infinity" if value < 0 else "Infinity"
    return value
""", """    if np.isnan(value):
        return "NaN"
    if not np.isinf(value):
        return value
    if value < 0:
        return "-Infinity"
    return "Infinity"
""")],
"pyd_reconstruct": [(P, """    if value == "NaN" or value == "nan" or value is None:  # noqa: PLR1714
        return np.nan
    if value == "Infinity" or value == "inf":  # noqa: PLR1714
        return np.inf
    if value == "-Infinity" or value == "-inf":  # noqa: PLR1714
        return -np.inf
    return value
""", """    if value is None or value in ("NaN", "nan"):
        return np.nan
    if value in ("Infinity", "inf"):
        return np.inf
    if value in ("-Infinity", "-inf"):
        return -np.inf
    return value
""")],
"pyd_union": [(P, """        result = value
        inner_types = typing.get_args(field_type)
        for value_type in inner_types:
            result = _traverse_field_contents(
                value_type, value, value_converter, field_metadata
            )
            # Stop at the first conversion that changed something, similar to Pydantic's
            # "left-to-right" mode.
            if result is not value:
                return result
        return result
""", """        for value_type in typing.get_args(field_type):
            result = _traverse_field_contents(
                value_type, value, value_converter, field_metadata
            )
            if result is not value:
                return result
        return value
""")],
"pyd_deser": [(P, """    if issubclass(declared_type, NpOrAbstractArray) and isinstance(value, list):
        fixed_list = _reconstruct_floats_for_numpy(value)
        np_data = np.array(fixed_list)
        # Only accept allowed dtypes, to avoid misinterpreting non-numpy lists.
        if np_data.dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
            return np_data
    return value
""", """    if not issubclass(declared_type, NpOrAbstractArray):
        return value
    if not isinstance(value, list):
        return value
    np_data = np.array(_reconstruct_floats_for_numpy(value))
    return np_data if np_data.dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES else value
""")],
"pyd_ser": [(P, """        if np_array.dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
            return np_array.tolist()
        msg = (
            f"Cannot serialize numpy array with dtype {np_array.dtype} to JSON. "
            f"Please convert it to an allowed dtype: {_NUMPY_ALLOWED_NONBINARY_DTYPES}."
        )
        raise ValueError(msg)
    return value
""", """        if np_array.dtype not in _NUMPY_ALLOWED_NONBINARY_DTYPES:
            msg = f"Cannot serialize numpy array with dtype {np_array.dtype} to JSON."
            raise ValueError(msg)
        return np_array.tolist()
    return value
""")],
"iter_conv": [(I, """            if (
                not status_bad_jacobian
                and fsqr <= ftolv
                and fsqz <= ftolv
                and (fsql <= ftolv)
            ):
                converged = True
                break
""", """            below_tolerance = fsqr <= ftolv and fsqz <= ftolv and fsql <= ftolv
            if below_tolerance and not status_bad_jacobian:
                converged = True
                break
""")],
"iter_damp": [(I, """                otav = 0.0
                for _v in inv_tau:
                    otav += float(_v)
                otav /= _NDAMP
                dtau = delt0r * otav / 2.0
                model.perform_time_step(1.0 / (1.0 + dtau), 1.0 - dtau, delt0r)
""", """                damping_sum = 0.0
                for value in inv_tau:
                    damping_sum += float(value)
                otav = damping_sum / _NDAMP
                dtau = 0.5 * delt0r * otav
                b1 = 1.0 - dtau
                fac = 1.0 / (1.0 + dtau)
                model.perform_time_step(fac, b1, delt0r)
""")],
"iter_fsq0": [(I, """            if rr == RestartReason.HUGE_INITIAL_FORCES:
                if iter2 == iter1 or res0 == -1.0:
                    res0 = fsq1
                    res1 = fsqr + fsqz + fsql
                res0 = min(res0, fsq1)
                res1 = min(res1, fsqr + fsqz + fsql)
""", """            if rr == RestartReason.HUGE_INITIAL_FORCES:
                fsq_inv = fsqr + fsqz + fsql
                if iter2 == iter1 or res0 == -1.0:
                    res0 = fsq1
                    res1 = fsq_inv
                else:
                    res0 = min(res0, fsq1)
                    res1 = min(res1, fsq_inv)
""")],
"iter_reset_helper": [(I, """                if iter2 == iter1:
                    inv_tau[:] = 0.15 / delt0r
                inv_tau[:-1] = inv_tau[1:]
                if iter2 > iter1 and fsq1 != 0.0:
                    inv_tau[-1] = min(abs(math.log(fsq1 / fsq_prev)), 0.15) / delt0r
                fsq_prev = fsq1
""", """                if iter1 == iter2:
                    inv_tau[:] = 0.15 / delt0r
                inv_tau[:-1] = inv_tau[1:]
                if iter2 > iter1 and fsq1 != 0.0:
                    growth = abs(math.log(fsq1 / fsq_prev))
                    inv_tau[-1] = min(growth, 0.15) / delt0r
                fsq_prev = fsq1
""")],
"iter_trace_order": [(I, """                trace_r.append(fsqr)
                trace_z.append(fsqz)
                trace_l.append(fsql)
                trace_rr.append(int(rr))
""", """                trace_rr.append(int(rr))
                trace_l.append(fsql)
                trace_z.append(fsqz)
                trace_r.append(fsqr)
""")],
"iter_counters": [(I, """                model.restore_backup()
                ijacob += 1
                iter1 = iter2
                delt0r = (0.98 if ijacob < 50 else 0.96) * delt_user
                n_restarts += 1
""", """                ijacob += 1
                if ijacob < 50:
                    delt0r = 0.98 * delt_user
                else:
                    delt0r = 0.96 * delt_user
                model.restore_backup()
                n_restarts += 1
                iter1 = iter2
""")],
"comment_noop": [(S, """        self.iter += 1
""", """        self.iter += 1
        _ = 0
        pass
"""), (C, "    nfp = int(wout.nfp)\n", "    nfp = int(wout.nfp)\n    _unused = None\n")],
}
