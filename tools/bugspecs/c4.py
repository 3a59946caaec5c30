C = "src/vmecpp/cpp/"
V = C + "vmecpp/vmec/"
M = C + "vmecpp/common/"
PB = V + "pybind11/pybind_vmec.cc"
R = V + "radial_profiles/radial_profiles.cc"
B = V + "boundaries/boundaries.cc"
S = M + "sizes/sizes.cc"
FB = M + "fourier_basis/fourier_basis.cc"
FG = V + "fourier_geometry/fourier_geometry.cc"
RP = V + "radial_partitioning/radial_partitioning.cc"
HS = V + "handover_storage/handover_storage.cc"
BUGS = [
("bd_flip_m0", "C25", [(B, "        rbsc[idx_mn] *= -m_parity;\n        zbcc[idx_mn] *= m_parity;", "        rbsc[idx_mn] *= m_parity;\n        zbcc[idx_mn] *= -m_parity;")]),
("bd_delta", "C25", [(B, "rbs = (*id.rbs)(m, source_n) * cosMDelta -", "rbs = (*id.rbs)(m, source_n) * cosMDelta +")]),
("bd_zaxc", "C25", [(B, "      zaxis_c[n] = w.new_zaxis_c[n];", "      zaxis_c[n] = w.new_zaxis_s[n];")]),
("bd_m1", "C25", [(B, "      double backup_rsc = rbsc[idx_mn];\n      rbsc[idx_mn] = (backup_rsc + zbcc[idx_mn]) * scaling_factor;\n      zbcc[idx_mn] = (backup_rsc - zbcc[idx_mn])", "      rbsc[idx_mn] = (rbsc[idx_mn] + zbcc[idx_mn]) * scaling_factor;\n      zbcc[idx_mn] = (rbsc[idx_mn] - zbcc[idx_mn])")]),
("sz_nzeta", "C07", [(S, "if (ntor == 0 && nZeta < 1) {", "if (ntor == 0) {")]),
("sz_nyq", "C07", [(S, "nnyq2 = std::max(0, std::max(2 * nnyq0, 2 * ntor));", "nnyq2 = std::max(0, std::max(2 * nnyq0, ntor));")]),
("fb_nfp", "C07", [(FB, "computeConversionIndices(/*m_xm=*/xm_nyq, /*m_xn=*/xn_nyq, s_.nnyq,\n                           s_.mnyq + 1, s_.nfp);", "computeConversionIndices(/*m_xm=*/xm_nyq, /*m_xn=*/xn_nyq, s_.nnyq,\n                           s_.mnyq + 1, 1);")]),
("fb_edge", "C07", [(FB, "if (l == 0 || l == s_.nThetaReduced - 1) {", "if (l == 0 || (l == s_.nThetaReduced - 1 && !s_.lasym)) {")]),
("fg_move", "C07", [(FG, "    FourierCoeffs::operator=(std::move(other));\n    BindSpans();", "    FourierCoeffs::operator=(std::move(other));")]),
("fg_bind", "C07", [(FG, "  zmncc = zcc;\n  zmnss = zss;\n  lmnsc = lsc;\n  lmncs = lcs;\n  lmncc = lcc;", "  zmncc = zcc;\n  zmnss = zss;\n  lmnsc = lsc;\n  lmncs = lcs;\n  lmncc = lcs;")]),
("fg_axis", "C19", [(FG, "(1.0 - interpolationWeight) * b.raxis_s[n]);", "(1.0 - interpolationWeight) * b.zaxis_c[n]);")]),
("rp_lcfs", "C06", [(RP, "    nsMinFi = std::max(1, nsMinF);", "    nsMinFi = std::max(1, nsMinF1);")]),
("rp_free", "C06", [(RP, "  if (lfreeb) {\n    num_surfaces_to_distribute = ns_;\n  }", "  if (lfreeb && num_threads <= ns_ / 3) {\n    num_surfaces_to_distribute = ns_;\n  }")]),
("hs_alloc", "C06", [(HS, "        lmnss_o.resize(num_threads_, mnsize);\n        lmnss_o.setZero();", "        lmnss_o.resize(num_threads_, mnsize);")]),
("hs_crz", "C06,C23", [(HS, "      all_cz[mn].resize(num_basis_, ns);", "      all_cz[mn].resize(ns, num_basis_);")]),
("pr_bloat", "C15", [(R, "double normX = std::min(std::abs(x * id_.bloat), 1.0);", "double normX = std::min(std::abs(x), 1.0);")]),
("pr_atan", "C15", [(R, "    if (coeffs.size() >= 17) {\n      ret += coeffs[13]", "    if (coeffs.size() >= 18) {\n      ret += coeffs[13]")]),
("pr_lor", "C15", [(R, "(1.0 - 1.0 / std::pow(1.0 + std::pow(1.0 / (coeffs[5] * coeffs[5]),\n                                                coeffs[6]),\n                                 coeffs[7])));", "(1.0 - 1.0 / std::pow(1.0 + std::pow(1.0 / (coeffs[5] * coeffs[5]),\n                                                coeffs[6]),\n                                 coeffs[4])));")]),
("pr_gs", "C15", [(R, "for (int i = 3; i <= 18; i += 3) {", "for (int i = 3; i < 18; i += 3) {")]),
("pr_akedge", "C15", [(R, "      return splineValues[iv - 1];", "      return splineValues[iv - 2];") if False else (R, "  if (x < X(1) || x > X(iv)) {\n    return 0.0;\n  }\n  if (x == X(iv)) {", "  if (x <= X(1) || x > X(iv)) {\n    return 0.0;\n  }\n  if (x == X(iv)) {")]),
("pr_cub", "C15", [(R, "    if (xa[k] > x) {", "    if (xa[k] >= x) {")]),
("pr_akden", "C15", [(R, "      T(i) = 0.5 * M(i - 1) + 0.5 * M(i);", "      T(i) = 0.5 * M(i - 1) + 0.5 * M(i + 1);")]),
("pr_type", "C15,C14", [(R, "  piotaType = findParameterization(id_.piota_type, ProfileType::IOTA);", "  piotaType = findParameterization(id_.piota_type, ProfileType::CURRENT);")]),
("pb_flat", "C27", [(PB, "  if (s.lasym && s.lthreed) out.push_back(x.rmncs);\n  out.push_back(x.zmnsc);\n  if (s.lthreed) out.push_back(x.zmncs);\n  if (s.lasym) out.push_back(x.zmncc);\n  if (s.lasym && s.lthreed) out.push_back(x.zmnss);", "  if (s.lasym && s.lthreed) out.push_back(x.rmncs);\n  out.push_back(x.zmnsc);\n  if (s.lthreed) out.push_back(x.zmncs);\n  if (s.lasym && s.lthreed) out.push_back(x.zmnss);\n  if (s.lasym) out.push_back(x.zmncc);")]),
("pb_hvp", "C27", [(PB, "        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);\n    UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);\n    return", "        FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);\n    return")]),
("pb_restart", "C27", [(PB, "    vmec_->fc_.restart_reason = vmecpp::RestartReason::NO_RESTART;\n", "    if (iter1 == iter2) {\n      vmec_->fc_.restart_reason = vmecpp::RestartReason::NO_RESTART;\n    }\n")]),
("pb_backup", "C27", [(PB, "    vmec_->decomposed_v_[0]->setZero();\n    *vmec_->decomposed_x_[0] = *vmec_->physical_x_backup_[0];", "    *vmec_->decomposed_x_[0] = *vmec_->physical_x_backup_[0];")]),
("pb_refine", "C27,C19", [(PB, "    v.fc_.nsval = new_ns;\n\n    double delt0 = v.indata_.delt;\n    v.constants_.reset();", "    v.fc_.nsval = new_ns;\n\n    double delt0 = v.indata_.delt;")]),
("pb_jxb", "C27", [(PB, '.def_readonly("jdotb_sqrtg", &vmecpp::JxBOutFileContents::jdotb_sqrtg)', '.def_readonly("jdotb_sqrtg", &vmecpp::JxBOutFileContents::jxb_gradp)')]),
("pb_currv", "C27", [(PB, '.def_readwrite("currvmns", &vmecpp::WOutFileContents::currvmns)', '.def_readwrite("currvmns", &vmecpp::WOutFileContents::currumns)')]),
("pb_throw", "C27,C10", [(PB, "    if (absl::IsInvalidArgument(s.status())) {", "    if (absl::IsInternal(s.status())) {")]),
("pb_axis", "C27", [(PB, "[](VmecINDATA &w) -> std::optional<VectorXd> & { return w.zaxis_c; })", "[](VmecINDATA &w) -> std::optional<VectorXd> & { return w.raxis_s; })")]),
]
BUGS += [
("pb_refine2", "C27,C19", [(PB, "    v.fc_.neqs_old = v.fc_.neqs;\n", "")]),
("pb_enum", "C14,C27", [(PB, '.value("CUBIC", vmecpp::MultigridInterpolationScheme::kCubic)\n      .value("CUBIC_RHO", vmecpp::MultigridInterpolationScheme::kCubicRho)', '.value("CUBIC", vmecpp::MultigridInterpolationScheme::kCubicRho)\n      .value("CUBIC_RHO", vmecpp::MultigridInterpolationScheme::kCubic)')]),
("pb_default", "C27", [(PB, 'py::arg("precondition") = true,', 'py::arg("precondition") = false,')]),
("pb_argorder", "C27,C12", [(PB, '"r_grid_minimum"_a, "r_grid_maximum"_a,', '"r_grid_maximum"_a, "r_grid_minimum"_a,')]),
("pb_interrupt", "C27", [(PB, "        if (was_interrupted) {\n          throw py::error_already_set();\n        }\n        return GetValueOrThrow(ret);\n      },\n      py::arg(\"indata\"), py::arg(\"magnetic_response_table\"),", "        return GetValueOrThrow(ret);\n      },\n      py::arg(\"indata\"), py::arg(\"magnetic_response_table\"),")]),
("pb_save", "C27", [(PB, "            absl::Status s = oq.Save(path);\n\n            if (!s.ok()) {", "            absl::Status s = oq.Save(path);\n\n            if (absl::IsInvalidArgument(s)) {")]),
("pb_threads", "C27", [(PB, "          ret = vmecpp::run(indata, magnetic_response_table,\n                            std::move(initial_state), max_threads, verbose,\n                            interrupt_check);", "          ret = vmecpp::run(indata, magnetic_response_table, std::nullopt,\n                            max_threads, verbose, interrupt_check);")]),
("pb_ro", "C27,C04", [(PB, '.def_readwrite("tcon0", &VmecINDATA::tcon0)', '.def_readonly("tcon0", &VmecINDATA::tcon0)')]),
("pb_eig", "C27,C04", [(PB, 'DefEigenProperty(pyindata, "ac_aux_s", &VmecINDATA::ac_aux_s);', 'DefEigenProperty(pyindata, "ac_aux_s", &VmecINDATA::ai_aux_s);')]),
("pb_hot", "C27,C19", [(PB, "  return vmecpp::HotRestartState(std::move(wout), indata);", "  vmecpp::VmecINDATA own = indata;\n  own.lfreeb = false;\n  return vmecpp::HotRestartState(std::move(wout), own);")]),
]
