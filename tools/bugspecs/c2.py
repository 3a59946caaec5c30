C = "src/vmecpp/cpp/"
V = C + "vmecpp/vmec/"
F = C + "vmecpp/free_boundary/"
M = C + "vmecpp/common/"
U = V + "ideal_mhd_model/ideal_mhd_model.cc"
VM = V + "vmec/vmec.cc"
BUGS = [
("up_rzcon_state", "C20,C22,C24", [(U, "       m_vacuum_pressure_state_ == VacuumPressureState::kInitializing)) {\n", "       m_vacuum_pressure_state_ == VacuumPressureState::kInitialized)) {\n")]),
("up_ivacskip", "C24", [(U, "ivacskip = (iter2 - iter1) % nvacskip;", "ivacskip = iter2 % nvacskip;")]),
("up_vac_thresh", "C24", [(U, "        m_fc_.fsqr + m_fc_.fsqz < 1.0e-3) {", "        m_fc_.fsqr < 1.0e-3) {")]),
("up_rcon0_decay", "C20,C24", [(U, "          zCon0[idx_kl] *= 0.9;", "          zCon0[idx_kl] *= (jF == 0 ? 1.0 : 0.9);")]),
("up_edgep", "C24", [(U, "                         m_p_.presH[r_.nsMaxH - 1 - r_.nsMinH];", "                         m_p_.presH[r_.nsMaxH - 2 - r_.nsMinH];")]),
("up_edge_incl", "C22,C20", [(U, "((iter2 - iter1) < 50 && (almost_converged || hot_restart));", "((iter2 - iter1) < 50 || (almost_converged && hot_restart));")]),
("up_m1_gauge", "C23,C20", [(U, "always_fix_m1_gauge || m_fc.fsqz < 1.0e-6 || iter2 < 2;", "always_fix_m1_gauge || m_fc.fsqr < 1.0e-6 || iter2 < 2;")]),
("up_ctor_sign", "C20,C24", [(U, "      } else if (fabs((m_h_.cTor - m_h_.bSubUVac) / m_h_.rBtor) > 0.01) {", "      } else if ((m_h_.cTor - m_h_.bSubUVac) / m_h_.rBtor > 0.01) {")]),
("up_order_lambda", "C23,C20", [(U, "  absl::Status status = applyRZPreconditioner(m_decomposed_f);\n  if (!status.ok()) {\n    return status;\n  }\n\n  applyLambdaPreconditioner(m_decomposed_f);", "  applyLambdaPreconditioner(m_decomposed_f);\n  absl::Status status = applyRZPreconditioner(m_decomposed_f);\n  status.IgnoreError();\n")]),
("up_volume_skip", "C20", [(U, "  if (iter2 == 1) {\n    computeInitialVolume();", "  if (iter2 == 1 && iter1 == 1) {\n    computeInitialVolume();")]),
("ne_full", "C24", [(F+"nestor/nestor.cc", "  bool fullUpdate = (ivacskip == 0);", "  bool fullUpdate = (ivacskip <= 1);")]),
("ne_potv", "C24", [(F+"nestor/nestor.cc", "        potV[kl - tp_.ztMin] -= potcos * (-n * s_.nfp) * sin_mu_nv;", "        potV[kl - tp_.ztMin] -= potcos * (-n) * sin_mu_nv;")]),
("ne_lr", "C24", [(F+"nestor/nestor.cc", "(l < s_.nThetaReduced) ? l : (s_.nThetaEven - l);", "(l < s_.nThetaReduced) ? l : (s_.nThetaEven - 1 - l);")]),
("ne_guv", "C24", [(F+"nestor/nestor.cc", "double guv = sg_.guv[kl - tp_.ztMin] * s_.nfp * 0.5;", "double guv = sg_.guv[kl - tp_.ztMin] * s_.nfp;")]),
("vm_invtau", "C22", [(VM, "invtau_numerator = std::min(std::abs(std::log(fsq1 / fc_.fsq)), 0.15);", "invtau_numerator = std::min(std::log(fsq1 / fc_.fsq), 0.15);")]),
("vm_iter1_style", "C22", [(VM, "} else if ((iter2 - iter1_) > 10 && (fc_.fsq > 1.0e4 * fc_.res0 ||\n                                           fsq_invariant > 1.0e4 * fc_.res1)) {", "} else if ((iter2 - iter1_) > 10 && (fc_.fsq > 1.0e4 * fc_.res0 &&\n                                           fsq_invariant > 1.0e4 * fc_.res1)) {")]),
("vm_scale", "C22", [(VM, "const double scale = fc_.ijacob < 50 ? 0.98 : 0.96;", "const double scale = fc_.ijacob <= 50 ? 0.98 : 0.96;")]),
("vm_finite", "C22", [(VM, "                                std::isfinite(fc_.fsqz) &&\n                                std::isfinite(fc_.fsql);", "                                std::isfinite(fc_.fsqz);")]),
("sy_iter1", "C05", [(VM, "    const RestartReason restart_reason = fc_.restart_reason;\n// protect read of restart_reason above from write (in different thread) below\n#ifdef _OPENMP\n#pragma omp barrier\n#endif  // _OPENMP\n", "    const RestartReason restart_reason = fc_.restart_reason;\n")]),
]
