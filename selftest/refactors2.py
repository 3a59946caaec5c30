C="cpp/vmecpp/"
U=C+"vmec/ideal_mhd_model/ideal_mhd_model.cc"
VM=C+"vmec/vmec/vmec.cc"
N=C+"free_boundary/nestor/nestor.cc"
CMD={"*":"python3 lib/refcheck.py 2>&1 | cut -c1-260 | head -30; VERIF_EVIDENCE=/tmp/selftest_ev.json python3 check.py C05 | tail -3"}
EDITS={
"up_reorder":[(U,"""    m_h_.rBtor0 = 1.5 * m_p_.bvcoH[r_.nsMinH - r_.nsMinH] -
                  0.5 * m_p_.bvcoH[r_.nsMinH + 1 - r_.nsMinH];
  }

  if (r_.nsMaxH == m_fc_.ns - 1) {""","""    const auto& bv = m_p_.bvcoH;
    m_h_.rBtor0 = 1.5 * bv[0] - 0.5 * bv[1];
  }

  const bool has_lcfs = (m_fc_.ns - 1 == r_.nsMaxH);
  if (has_lcfs) {""")],
"up_lambda":[(U,"""  ++force_evaluation_count_;

""","""  force_evaluation_count_ += 1;
  const bool late_enough = iter2 >= iterations_before_checkpointing;
  const auto stop_at = [&](VmecCheckpoint c) {
    return checkpoint == c && late_enough;
  };

"""),(U,"""  if (checkpoint == VmecCheckpoint::METRIC &&
      iter2 >= iterations_before_checkpointing) {""","""  if (stop_at(VmecCheckpoint::METRIC)) {"""),(U,"""  if (checkpoint == VmecCheckpoint::JACOBIAN &&
      iter2 >= iterations_before_checkpointing) {""","""  if (stop_at(VmecCheckpoint::JACOBIAN)) {""")],
"up_needrestart":[(U,"""      if (m_vacuum_pressure_state_ == VacuumPressureState::kInitialized) {
#ifdef _OPENMP
#pragma omp single
#endif  // _OPENMP
        m_fc_.restart_reason = RestartReason::BAD_JACOBIAN;
        m_need_restart = true;
      } else {
        m_need_restart = false;
      }
""","""      m_need_restart =
          (m_vacuum_pressure_state_ == VacuumPressureState::kInitialized);
      if (m_need_restart) {
#ifdef _OPENMP
#pragma omp single
#endif  // _OPENMP
        m_fc_.restart_reason = RestartReason::BAD_JACOBIAN;
      }
""")],
"up_mask":[(U,"""  if (s_.mpolGeometry < s_.mpol || s_.ntorGeometry < s_.ntor) {
    m_decomposed_f.maskGeometryAbove(s_.mpolGeometry, s_.ntorGeometry);
  }

  if (checkpoint == VmecCheckpoint::PHYSICAL_FORCES""","""  const bool reduced =
      !(s_.mpol <= s_.mpolGeometry && s_.ntor <= s_.ntorGeometry);
  if (reduced) {
    m_decomposed_f.maskGeometryAbove(s_.mpolGeometry, s_.ntorGeometry);
  }

  if (checkpoint == VmecCheckpoint::PHYSICAL_FORCES""")],
"up_kl":[(U,"""        for (int kl = 0; kl < s_.nZnT; ++kl) {
          // extrapolate total pressure""","""        int kl = 0;
        while (kl < s_.nZnT) {
          // extrapolate total pressure"""),(U,"""          delBSq[kl] = fabs(outsideEdgePressure - insideTotalPressure[kl]);
        }""","""          delBSq[kl] = std::abs(insideTotalPressure[kl] - outsideEdgePressure);
          kl++;
        }""")],
"up_edge":[(U,"""        double edgePressure =
            m_p_.evalMassProfile((m_fc_.ns - 1.5) / (m_fc_.ns - 1.0));
        if (edgePressure != 0.0) {
          edgePressure = m_p_.evalMassProfile(1.0) / edgePressure *
                         m_p_.presH[r_.nsMaxH - 1 - r_.nsMinH];
        }
""","""        const double massNearEdge =
            m_p_.evalMassProfile((m_fc_.ns - 1.5) / (m_fc_.ns - 1.0));
        double edgePressure = 0.0;
        if (massNearEdge != 0.0) {
          edgePressure = m_p_.presH[r_.nsMaxH - 1 - r_.nsMinH] *
                         m_p_.evalMassProfile(1.0) / massNearEdge;
        }
""")],
"up_residual":[(U,"""  bool almost_converged = (m_fc.fsqr + m_fc.fsqz) < 1.0e-6;""","""  const double fsq_rz = m_fc.fsqz + m_fc.fsqr;
  const bool almost_converged = fsq_rz < 1.0e-6;"""),(U,"""  bool includeEdgeRZForces =
      ((iter2 - iter1) < 50 && (almost_converged || hot_restart));""","""  bool includeEdgeRZForces = false;
  if (almost_converged || hot_restart) {
    includeEdgeRZForces = iter2 < iter1 + 50;
  }""")],
"up_errors":[(U,"""      } else if (fabs((m_h_.cTor - m_h_.bSubUVac) / m_h_.rBtor) > 0.01) {""","""      }
      if (std::abs(m_h_.bSubUVac - m_h_.cTor) / std::abs(m_h_.rBtor) > 0.01) {""")],
"up_decay":[(U,"""      for (int jF = r_.nsMinF; jF < r_.nsMaxF; ++jF) {
        for (int kl = 0; kl < s_.nZnT; ++kl) {
          int idx_kl = (jF - r_.nsMinF) * s_.nZnT + kl;

          // gradually turn off rcon0, zcon0
          rCon0[idx_kl] *= 0.9;
          zCon0[idx_kl] *= 0.9;
        }  // kl
      }  // j
""","""      const int num_local = (r_.nsMaxF - r_.nsMinF) * s_.nZnT;
      for (int i = 0; i < num_local; ++i) {
        rCon0[i] = 0.9 * rCon0[i];
        zCon0[i] = 0.9 * zCon0[i];
      }
""")],
"ne_full":[(N,"""  bool fullUpdate = (ivacskip == 0);""","""  const bool fullUpdate = !(ivacskip != 0);"""),(N,"""    const int lr = (l < s_.nThetaReduced) ? l : (s_.nThetaEven - l);
    const double sgnmu = (l < s_.nThetaReduced) ? 1.0 : -1.0;""","""    int lr = l;
    double sgnmu = 1.0;
    if (l >= s_.nThetaReduced) {
      lr = s_.nThetaEven - l;
      sgnmu = -1.0;
    }""")],
"ne_helper":[(N,"""bool Nestor::update(""","""static double HalfDot(double a1, double a2, double b1, double b2) {
  return 0.5 * (a1 * b1 + a2 * b2);
}

bool Nestor::update("""),(N,"""    bSqVacShare[kl] =
        (bSubU[kl - tp_.ztMin] * bSupU + bSubV[kl - tp_.ztMin] * bSupV) * 0.5;""","""    bSqVacShare[kl] = HalfDot(bSubU[kl - tp_.ztMin], bSubV[kl - tp_.ztMin],
                              bSupU, bSupV);"""),(N,"""    double det = guu * gvv - guv * guv;""","""    const double det = gvv * guu - guv * guv;""")],
"ne_split":[(N,"""  for (int kl = tp_.ztMin; kl < tp_.ztMax; ++kl) {
    bSubU[kl - tp_.ztMin] = potU[kl - tp_.ztMin] + ef_.bSubU[kl - tp_.ztMin];
    bSubV[kl - tp_.ztMin] = potV[kl - tp_.ztMin] + ef_.bSubV[kl - tp_.ztMin];

    int l = kl / s_.nZeta;
    local_bSubUVac += bSubU[kl - tp_.ztMin] * s_.wInt[l];
    local_bSubVVac += bSubV[kl - tp_.ztMin] * s_.wInt[l];
  }
  local_bSubUVac *= signOfJacobian * 2.0 * M_PI;
""","""  const int num_local = tp_.ztMax - tp_.ztMin;
  for (int i = 0; i < num_local; ++i) {
    bSubU[i] = ef_.bSubU[i] + potU[i];
    bSubV[i] = ef_.bSubV[i] + potV[i];
  }
  for (int i = 0; i < num_local; ++i) {
    const double w = s_.wInt[(i + tp_.ztMin) / s_.nZeta];
    local_bSubUVac += bSubU[i] * w;
    local_bSubVVac += bSubV[i] * w;
  }
  local_bSubUVac = 2.0 * M_PI * signOfJacobian * local_bSubUVac;
""")],
"se_res0":[(VM,"""      // res0 is the best force residual we got so far
      fc_.res0 = std::min(fc_.res0, fc_.fsq);""","""      // res0 is the best force residual we got so far
      if (fc_.fsq < fc_.res0) {
        fc_.res0 = fc_.fsq;
      }"""),(VM,"""const double scale = fc_.ijacob < 50 ? 0.98 : 0.96;

        fc_.delt0r = scale * indata_.delt;""","""if (fc_.ijacob >= 50) {
          fc_.delt0r = 0.96 * indata_.delt;
        } else {
          fc_.delt0r = 0.98 * indata_.delt;
        }""")],
"se_since":[(VM,"""    } else if (fc_.fsq <= fc_.res0 && (iter2 - iter1_) > 10) {""","""    } else if ((iter2 > 10 + iter1_) && !(fc_.fsq > fc_.res0)) {"""),(VM,"""    if (restart_reason != RestartReason::NO_RESTART) {
      // Retrieve previous good state""","""    const bool revert = !(restart_reason == RestartReason::NO_RESTART);
    if (revert) {
      // Retrieve previous good state""")],
"ev_finite":[(VM,"""    bool all_residuals_finite = std::isfinite(fc_.fsqr) &&
                                std::isfinite(fc_.fsqz) &&
                                std::isfinite(fc_.fsql);
    if ((iter2_ == 1 && fc_.restart_reason == RestartReason::BAD_JACOBIAN) ||
        !all_residuals_finite) {""","""    const bool some_residual_bad = !std::isfinite(fc_.fsqr) ||
                                !std::isfinite(fc_.fsqz) ||
                                !std::isfinite(fc_.fsql);
    const bool bad_start =
        fc_.restart_reason == RestartReason::BAD_JACOBIAN && iter2_ == 1;
    if (some_residual_bad || bad_start) {"""),(VM,"""    } else if (fc_.fsqr <= fc_.ftolv && fc_.fsqz <= fc_.ftolv &&
               fc_.fsql <= fc_.ftolv) {""","""    } else if (std::max({fc_.fsqr, fc_.fsqz, fc_.fsql}) <= fc_.ftolv) {""")],
"ev_tau":[(VM,"""      double invtau_numerator = 0.;
      if (fsq1 != 0.) {
        // fsq is 1 (first iteration) or fsq1 from previous iteration
        // fsq1/fsq is y_n assuming monotonic decrease of energy
        invtau_numerator = std::min(std::abs(std::log(fsq1 / fc_.fsq)), 0.15);
      }
""","""      const double invtau_numerator =
          fsq1 == 0. ? 0.
                     : std::min(0.15, std::abs(std::log(fsq1 / fc_.fsq)));
""")],
"ev_log":[(VM,"""    if (fc_.lfreeb) {
      // delbsq is only available on the LCFS thread
      fc_.delbsq.push_back(m_[thread_id]->get_delbsq());
    } else {
      fc_.delbsq.push_back(0.0);
    }
    fc_.restart_reasons.push_back(fc_.restart_reason);
    fc_.mhd_energy.push_back(h_.mhdEnergy);""","""    fc_.restart_reasons.push_back(fc_.restart_reason);
    fc_.mhd_energy.push_back(h_.mhdEnergy);
    fc_.delbsq.push_back(fc_.lfreeb ? m_[thread_id]->get_delbsq() : 0.0);""")],
"ri_merge":[(VM,"""    *physical_x_backup_[thread_id] = *decomposed_x_[thread_id];
  }
#ifdef _OPENMP
#pragma omp barrier""","""    FourierGeometry& backup = *physical_x_backup_[thread_id];
    const FourierGeometry& now = *decomposed_x_[thread_id];
    backup = now;
  }
#ifdef _OPENMP
#pragma omp barrier""")],
"ri_swap":[(VM,"""  if (fc_.restart_reason == RestartReason::BAD_JACOBIAN) {
    // restore previous good state

    // zero velocity
    decomposed_v_[thread_id]->setZero();

    // restore state from backup
    *decomposed_x_[thread_id] = *physical_x_backup_[thread_id];
""","""  if (fc_.restart_reason == RestartReason::BAD_JACOBIAN) {
    // restore state from backup
    *decomposed_x_[thread_id] = *physical_x_backup_[thread_id];

    // zero velocity
    decomposed_v_[thread_id]->setZero();
"""),(VM,"""      m_delt0r = m_delt0r * 0.9;

      // count occurence of bad Jacobian
      fc_.ijacob = fc_.ijacob + 1;
""","""      m_delt0r *= 0.9;

      // count occurence of bad Jacobian
      ++fc_.ijacob;
""")],
"run_flag":[(VM,"""        giving_up = true;
        break;
      }

      // TODO(jons): insert""","""        giving_up = true;
      }
      if (giving_up) {
        break;
      }

      // TODO(jons): insert"""),(VM,"""    if (giving_up) {
      break;
    }

    // if did not""","""    // if did not"""),(VM,"""    if (status_ != VmecStatus::BAD_JACOBIAN) {
      // We can only""","""    if (giving_up || status_ != VmecStatus::BAD_JACOBIAN) {
      // We can only""")],
"run_grids":[(VM,"""        fc_.nsval = indata_.ns_array[igrid];
        if (fc_.nsval < fc_.ns_min) {
          // skip entries that have less flux surfaces than previous iteration
          continue;
        }
""","""        const int requested = indata_.ns_array[igrid];
        fc_.nsval = requested;
        const bool skip = fc_.ns_min > requested;
        if (skip) {
          // skip entries that have less flux surfaces than previous iteration
          continue;
        }
""")],
"run_summary":[(VM,"""    summary.rax = w.Rmajor_p;
    summary.aminor = w.Aminor_p;
    summary.rmajor = w.Rmajor_p;
    summary.b0 = w.b0;""","""    summary.b0 = w.b0;
    summary.aminor = w.Aminor_p;
    summary.rmajor = w.Rmajor_p;
    summary.rax = summary.rmajor;""")],
}
