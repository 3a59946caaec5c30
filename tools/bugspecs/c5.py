C = "src/vmecpp/cpp/"
IN = C + "vmecpp/common/vmec_indata/vmec_indata.cc"
J = C + "util/json_io/json_io.cc"
H = C + "util/hdf5_io/hdf5_io.cc"
N = C + "util/netcdf_io/netcdf_io.cc"
MG = C + "vmecpp/common/makegrid_lib/makegrid_lib.cc"
P = C + "vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc"
MC = C + "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc"
BUGS = [
("in_geom_h5", "C01", [(IN, 'WriteH5Dataset(mpol_geometry, "/indata/mpol_geometry", file);\n  WriteH5Dataset(ntor_geometry,', 'WriteH5Dataset(mpol_geometry, "/indata/mpol_geometry", file);\n  WriteH5Dataset(mpol_geometry,')]),
("in_lasymtype", "C01", [(J, "if (!j[name].is_number_integer()) {", "if (!j[name].is_number()) {")]),
("in_ventry", "C01", [(J, "    if (entry.is_number_integer()) {", "    if (entry.is_number()) {")]),
("in_vecempty", "C01", [(J, "  std::vector<double> entries;\n  int i = 0;", "  if (j[name].empty()) return std::nullopt;\n  std::vector<double> entries;\n  int i = 0;")]),
("h5_scalar_str", "C01,C02", [(H, "  dataset.write(str, str_type);", "  dataset.write(str.substr(0, 255), str_type);")]),
("h5_matswap", "C02", [(H, "m.resize(static_cast<Eigen::Index>(dims[0]),\n           static_cast<Eigen::Index>(dims[1]));", "m.resize(static_cast<Eigen::Index>(dims[1]),\n           static_cast<Eigen::Index>(dims[0]));")]),
("h5_float", "C02", [(H, "ds.read(m.data(), H5::PredType::NATIVE_DOUBLE);", "ds.read(m.data(), H5::PredType::NATIVE_LDOUBLE);")]),
("mp_resize", "C10,C01", [(IN, "const int smaller_ntor = std::min(ntor, new_ntor);", "const int smaller_ntor = std::min(ntor, new_ntor - (new_ntor > ntor + 1 ? 0 : 0)) - (new_mpol < mpol && new_ntor < ntor ? 1 : 0);")]),
("ic_delt", "C10", [(IN, "vmec_indata.delt <= 0.0 || vmec_indata.delt > 10.0", "vmec_indata.delt < 0.0 || vmec_indata.delt > 10.0")]),
("ic_zbc", "C10", [(IN, "if (vmec_indata.zbc->cols() != 2 * vmec_indata.ntor + 1) {", "if (vmec_indata.rbs->cols() != 2 * vmec_indata.ntor + 1) {")]),
("ic_spres", "C10", [(IN, "vmec_indata.spres_ped <= 0.0 || vmec_indata.spres_ped > 1)", "vmec_indata.spres_ped <= 0.0 && vmec_indata.spres_ped > 1)")]),
("ic_raxs", "C10", [(IN, "    if (vmec_indata.raxis_s.has_value()) {\n      return absl::InvalidArgumentError(\n          \"input variable 'raxis_s' should not be set when 'lasym' is false.\");\n    }\n", "")]),
("ic_biest", "C10", [(IN, "    if (vmec_indata.free_boundary_method != FreeBoundaryMethod::NESTOR &&\n        vmec_indata.free_boundary_method != FreeBoundaryMethod::ONLY_COILS) {", "    if (vmec_indata.free_boundary_method != FreeBoundaryMethod::NESTOR &&\n        vmec_indata.free_boundary_method != FreeBoundaryMethod::ONLY_COILS &&\n        vmec_indata.nvacskip > 1) {")]),
("mk_dz", "C12", [(MG, "const double delta_z = (max_z - min_z) / (num_z - 1.0);", "const double delta_z = (max_z - min_z) / (num_r - 1.0);")]),
("mk_even", "C12", [(MG, "    num_phi_effective = num_phi / 2 + 1;", "    num_phi_effective = num_phi / 2;")]),
("mk_mirror", "C12", [(MG, "m_b_p[linear_index] = m_b_p[linear_index_reversed];", "m_b_p[linear_index] = -m_b_p[linear_index_reversed];")]),
("mk_mirz", "C12", [(MG, "const int idx_z_reversed = num_z - 1 - idx_z;", "const int idx_z_reversed = idx_z;")]),
("mk_norm", "C12", [(MG, "      currents_for_circuit[circuit_index] = original_currents[circuit_index];", "      currents_for_circuit[circuit_index] = original_currents[0];")]),
("mk_migr", "C12", [(MG, "  const MagneticConfiguration& effective_configuration =\n      migrated_configuration.has_value() ? *migrated_configuration\n                                         : magnetic_configuration;", "  const MagneticConfiguration& effective_configuration = magnetic_configuration;")]),
("mg_cur", "C12", [(P, "b_p_contribution[index_phi][index_z][index_r] * coil_currents[i];", "b_p_contribution[index_phi][index_z][index_r] * std::abs(coil_currents[i]);")]),
("mg_reset", "C12", [(P, "  bP.setZero(num_grid_points);", "  bP.resize(num_grid_points);")]),
("mg_num", "C12", [(P, 'absl::StrFormat("bz_%03d", i + 1)', 'absl::StrFormat("bz_%03d", i)')]),
("mg_close", "C12", [(P, "    if (!contribution_status.ok()) {\n      nc_close(ncid);\n", "    if (!contribution_status.ok()) {\n")]),
("mg_fixed", "C12", [(P, "  has_mgrid_loaded_ = true;\n  has_fixed_field_ = false;\n\n  return absl::OkStatus();", "  has_mgrid_loaded_ = true;\n\n  return absl::OkStatus();")]),
("mc_circ", "C21", [(MC, "          center->set_z(z.at(0));", "          center->set_z(y.at(0));")]),
("mc_circid", "C21", [(MC, "          coil_ids.push_back(serial_circuit_id);\n        }", "          if (serial_circuit_id > 0) coil_ids.push_back(serial_circuit_id);\n        }")]),
("mc_wind", "C21", [(MC, "for (size_t i = 1; i < w.size() - 1; ++i) {\n            if (w.at(i) != coil->num_windings()) {", "for (size_t i = 2; i < w.size() - 1; ++i) {\n            if (w.at(i) != coil->num_windings()) {")]),
("mc_clear", "C21", [(MC, "        z.clear();\n        w.clear();", "        z.clear();")]),
("mc_last", "C21", [(MC, "for (size_t i = 0; i < x.size(); ++i) {\n            Vector3d* vertex", "for (size_t i = 0; i + 1 < x.size(); ++i) {\n            Vector3d* vertex")]),
("mc_tab", "C21", [(MC, 'absl::ByAnyChar(" \\t"), absl::SkipWhitespace());\n\n    const std::size_t num_line_parts', 'absl::ByAnyChar(" "), absl::SkipWhitespace());\n\n    const std::size_t num_line_parts')]),
]
