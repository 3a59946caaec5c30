C = "src/vmecpp/cpp/"
V = C + "vmecpp/vmec/"
F = C + "vmecpp/free_boundary/"
M = C + "vmecpp/common/"
VM = V + "vmec/vmec.cc"
O = V + "output_quantities/output_quantities.cc"
R = V + "radial_profiles/radial_profiles.cc"
BUGS = [
("mg_old_ns2", "C19", [(VM, "    if (nsMinF <= 2 && 2 < nsMaxFIncludingLcfs) {\n      thread_with_ns_2", "    if (nsMinF <= 2 && 2 <= nsMaxFIncludingLcfs) {\n      thread_with_ns_2")]),
("mg_asym_ext", "C19", [(VM, "        m_x_old[thread_with_ns_0]->zmncc[idx_fc_0] =\n            2.0 * m_x_old[thread_with_ns_1]->zmncc[idx_fc_1] -", "        m_x_old[thread_with_ns_0]->zmncc[idx_fc_0] =\n            2.0 * m_x_old[thread_with_ns_1]->zmncc[idx_fc_1] +")]),
("hr_check_ns", "C19", [(VM, "  if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=\n      indata.ns_array[0]) {", "  if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=\n      indata.ns_array[indata.ns_array.size() - 1]) {")]),
("hr_check_lasym", "C19", [(VM, "  if (initial_state.indata.lasym != indata.lasym) {", "  if (initial_state.indata.lasym && !indata.lasym) {")]),
("run_nsmin", "C22", [(VM, "        if (fc_.nsval < fc_.ns_min) {", "        if (fc_.nsval <= fc_.ns_min) {")]),
("run_ftol", "C22", [(VM, "        fc_.ftolv = 1.0e-4;", "        fc_.ftolv = indata_.ftol_array[0];")]),
("run_vacstate", "C22,C24", [(VM, "    if (fc_.lfreeb && initial_state.has_value()) {\n      vacuum_pressure_state_", "    if (initial_state.has_value()) {\n      vacuum_pressure_state_")]),
("run_giveup", "C22", [(VM, "    if (status_ != VmecStatus::BAD_JACOBIAN) {\n", "    if (status_ == VmecStatus::SUCCESSFUL_TERMINATION) {\n")]),
("run_resmsg", "C22", [(VM, "  if (status_ != VmecStatus::SUCCESSFUL_TERMINATION &&\n      !indata_.return_outputs_even_if_not_converged) {", "  if (status_ != VmecStatus::SUCCESSFUL_TERMINATION &&\n      status_ != VmecStatus::NORMAL_TERMINATION &&\n      !indata_.return_outputs_even_if_not_converged) {")]),
("me_tor", "C17", [(O, "    for (int jF_prime = 1; jF_prime <= jF; ++jF_prime) {\n      mercier.toroidal_flux", "    for (int jF_prime = 1; jF_prime < jF; ++jF_prime) {\n      mercier.toroidal_flux")]),
("me_dcurr", "C17", [(O, "        (tjb - mercier_intermediate.d_toroidal_current_d_s[jF] * tbb);", "        (tjb - mercier.d_toroidal_current_d_s[jF] * tbb);")]),
("rp_param", "C15,C10", [(R, 'ALL_PARAMS.emplace_back("sum_atan", /*allowedForPres=*/false,\n                          /*allowedForCurr*/ true, /*allowedForIota*/ true,', 'ALL_PARAMS.emplace_back("sum_atan", /*allowedForPres=*/false,\n                          /*allowedForCurr*/ true, /*allowedForIota*/ false,')]),
("rp_spline", "C15", [(R, 'ALL_PARAMS.emplace_back("cubic_spline_ip", /*allowedForPres=*/false,\n                          /*allowedForCurr*/ true, /*allowedForIota*/ false,\n                          /*needsSplineData*/ true);', 'ALL_PARAMS.emplace_back("cubic_spline_ip", /*allowedForPres=*/false,\n                          /*allowedForCurr*/ true, /*allowedForIota*/ false,\n                          /*needsSplineData*/ false);')]),
]
