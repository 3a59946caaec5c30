C = "src/vmecpp/cpp/"
V = C + "vmecpp/vmec/"
F = C + "vmecpp/free_boundary/"
M = C + "vmecpp/common/"
BUGS = [
("mg_clip", "C12", [(F+"mgrid_provider/mgrid_provider.cc", "int ir = static_cast<int>(floor((r - minR) / deltaR));", "int ir = std::min(numR - 2, static_cast<int>((r - minR) / deltaR + 1.0e-9));")]),
("mg_resize_keep", "C12", [(F+"mgrid_provider/mgrid_provider.cc", "  bR.setZero(num_grid_points);\n  bP.setZero(num_grid_points);\n  bZ.setZero(num_grid_points);\n", "  if (bR.size() != num_grid_points) {\n    bR.setZero(num_grid_points);\n    bP.setZero(num_grid_points);\n    bZ.setZero(num_grid_points);\n  }\n")]),
("mg_skip_zero", "C12", [(F+"mgrid_provider/mgrid_provider.cc", "  // combine coil contributions, weighted by coil currents\n  for (int i = 0; i < nextcur; ++i) {\n    for (int linear", "  // combine coil contributions, weighted by coil currents\n  for (int i = 0; i < nextcur; ++i) {\n    if (std::abs(coil_currents[i]) < 1.0) {\n      continue;\n    }\n    for (int linear")]),
("mg_fixed_offset", "C12", [(F+"mgrid_provider/mgrid_provider.cc", "      m_interpBp[kl - ztMin] = fixed_bp_[kl];", "      m_interpBp[kl - ztMin] = fixed_bp_[kl - ztMin];")]),
("mf_early_zero", "C21", [(M+"magnetic_field_provider/magnetic_field_provider_lib.cc", "  if (current == 0.0) {\n    // no current -> no modification\n    return absl::OkStatus();\n  }\n  const double magnetic_field_scale = abscab::MU_0 * current / (2.0 * M_PI);", "  if (std::abs(current) < 1.0e-3) {\n    // no current -> no modification\n    return absl::OkStatus();\n  }\n  const double magnetic_field_scale = abscab::MU_0 * current / (2.0 * M_PI);")]),
("ct_zcos_order", "C21", [(M+"composed_types_lib/composed_types_lib.cc", "    ss << std::setprecision(16) << r.fc_sin() << \",\";\n    ss << std::setprecision(16) << z.fc_cos() << \"\\n\";\n  }\n\n  return ss.str();\n}  // CurveRZFourierToCsv", "    ss << std::setprecision(16) << z.fc_cos() << \",\";\n    ss << std::setprecision(16) << r.fc_sin() << \"\\n\";\n  }\n\n  return ss.str();\n}  // CurveRZFourierToCsv")]),
("sz_nyq", "C07", [(M+"sizes/sizes.cc", "mnyq2 = std::max(0, std::max(2 * mnyq0, 2 * (mpol - 1)));", "mnyq2 = std::max(2 * (mpol - 1), lasym ? 2 * mnyq0 : nThetaReduced);")]),
("sz_wint_asym", "C07", [(M+"sizes/sizes.cc", "if (!lasym && (l == 0 || l == nThetaReduced - 1)) {", "if (l == 0 || l == nThetaReduced - 1) {")]),
("bd_theta_shift", "C25", [(V+"boundaries/boundaries.cc", "        zbs = id.zbs(m, source_n) * cosMDelta -\n              (*id.zbc)(m, source_n) * sinMDelta;", "        zbs = id.zbs(m, source_n) * cosMDelta +\n              (*id.zbc)(m, source_n) * sinMDelta;")]),
("bd_delta_eps", "C25", [(V+"boundaries/boundaries.cc", "    if (delta != 0.0) {\n      cosMDelta", "    if (std::abs(delta) > 1.0e-6) {\n      cosMDelta")]),
("ff_res_edge", "C22,C20,C07", [(V+"fourier_forces/fourier_forces.cc", "          if (s_.lthreed) {\n            if (jF < jMaxRZ) {\n              local_fResR += frcs[idx_fc] * frcs[idx_fc];", "          if (s_.lthreed) {\n            if (jF < jMaxIncludeBoundary) {\n              local_fResR += frcs[idx_fc] * frcs[idx_fc];")]),
("vm_restart_iter1", "C22", [(V+"vmec/vmec.cc", "      // count occurence of bad Jacobian\n      fc_.ijacob = fc_.ijacob + 1;\n\n      // update marker\n      iter1_ = iter2_;\n", "      // count occurence of bad Jacobian\n      fc_.ijacob = fc_.ijacob + 1;\n\n      // update marker\n      if (fc_.ijacob != 25) {\n        iter1_ = iter2_;\n      }\n")]),
("vm_restore_order", "C22", [(V+"vmec/vmec.cc", "    // restore state from backup\n    *decomposed_x_[thread_id] = *physical_x_backup_[thread_id];\n\n#ifdef _OPENMP\n#pragma omp barrier\n#endif  // _OPENMP\n\n#ifdef _OPENMP\n#pragma omp single\n#endif  // _OPENMP\n    {\n      // reduce time step\n      m_delt0r = m_delt0r * 0.9;", "    // restore state from backup\n    if (thread_id == 0 || iter2_ > 1) {\n      *decomposed_x_[thread_id] = *physical_x_backup_[thread_id];\n    }\n\n#ifdef _OPENMP\n#pragma omp barrier\n#endif  // _OPENMP\n\n#ifdef _OPENMP\n#pragma omp single\n#endif  // _OPENMP\n    {\n      // reduce time step\n      m_delt0r = m_delt0r * 0.9;")]),
("mc_populated", "C21", [(M+"magnetic_configuration_lib/magnetic_configuration_lib.cc", "  for (int i = 0; i < polygon_filament.vertices_size(); ++i) {\n    const Vector3d& vertex = polygon_filament.vertices(i);\n    std::stringstream vertex_identifier;", "  for (int i = 0; i + 1 < polygon_filament.vertices_size(); ++i) {\n    const Vector3d& vertex = polygon_filament.vertices(i);\n    std::stringstream vertex_identifier;")]),
]
