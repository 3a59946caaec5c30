C="cpp/vmecpp/"
B=C+"vmec/boundaries/boundaries.cc"
SZ=C+"common/sizes/sizes.cc"
LS=C+"free_boundary/laplace_solver/laplace_solver.cc"
MG=C+"free_boundary/mgrid_provider/mgrid_provider.cc"
FV=C+"vmec/fourier_velocity/fourier_velocity.cc"
CMD={"*":"python3 lib/refcheck.py 2>&1 | cut -c1-260 | head -30; VERIF_EVIDENCE=/tmp/selftest_ev.json python3 check.py C05 | tail -3"}
EDITS={
"b_helper_axis":[(B,"""bool Boundaries::setupFromIndata(""","""namespace {
void CopyHarmonics(const Eigen::VectorXd& from, Eigen::VectorXd& m_to, int n_modes) {
  for (int n = 0; n < n_modes; ++n) {
    m_to[n] = from[n];
  }
}
}  // namespace

bool Boundaries::setupFromIndata("""),(B,"""  for (int n = 0; n < s_.ntor + 1; ++n) {
    raxis_c[n] = id.raxis_c[n];
    zaxis_s[n] = id.zaxis_s[n];
    if (s_.lasym) {
      raxis_s[n] = (*id.raxis_s)[n];
      zaxis_c[n] = (*id.zaxis_c)[n];
    }
  }
""","""  const int n_modes = s_.ntor + 1;
  CopyHarmonics(id.raxis_c, raxis_c, n_modes);
  CopyHarmonics(id.zaxis_s, zaxis_s, n_modes);
  if (s_.lasym) {
    CopyHarmonics(*id.raxis_s, raxis_s, n_modes);
    CopyHarmonics(*id.zaxis_c, zaxis_c, n_modes);
  }
""")],
"b_rotlambda":[(B,"""      double rbc;
      double zbs;
      if (!s_.lasym || delta == 0.0) {
        rbc = id.rbc(m, source_n);
        zbs = id.zbs(m, source_n);
      } else {
        // lasym && delta != 0.0
        rbc = id.rbc(m, source_n) * cosMDelta +
              (*id.rbs)(m, source_n) * sinMDelta;
        zbs = id.zbs(m, source_n) * cosMDelta -
              (*id.zbc)(m, source_n) * sinMDelta;
      }
""","""      double rbc = id.rbc(m, source_n);
      double zbs = id.zbs(m, source_n);
      const bool rotate = s_.lasym && delta != 0.0;
      if (rotate) {
        rbc = rbc * cosMDelta + (*id.rbs)(m, source_n) * sinMDelta;
        zbs = zbs * cosMDelta - (*id.zbc)(m, source_n) * sinMDelta;
      }
""")],
"b_sign_early":[(B,"""  double rTest = 0.0;
  double zTest = 0.0;
  for (int n = 0; n < s_.ntor + 1; ++n) {
    int m = 1;
    int idx_mn = m * (s_.ntor + 1) + n;
    rTest += rbcc[idx_mn];
    zTest += zbsc[idx_mn];
  }""","""  double rTest = 0.0;
  double zTest = 0.0;
  const int first = s_.ntor + 1;
  for (int idx_mn = first; idx_mn < 2 * first; ++idx_mn) {
    rTest += rbcc[idx_mn];
    zTest += zbsc[idx_mn];
  }""")],
"b_flip_parity":[(B,"""      int m_parity = ((m % 2 == 0) ? 1 : -1);

      rbcc[idx_mn] *= m_parity;
      zbsc[idx_mn] *= -m_parity;""","""      int m_parity = 1;
      if (m % 2 != 0) {
        m_parity = -1;
      }

      rbcc[idx_mn] = m_parity * rbcc[idx_mn];
      zbsc[idx_mn] = -m_parity * zbsc[idx_mn];""")],
"b_m1_helper":[(B,"""void Boundaries::ensureM1Constrained(""","""static void MixPair(double& m_a, double& m_b, double scale) {
  const double sum = m_a + m_b;
  const double difference = m_a - m_b;
  m_a = sum * scale;
  m_b = difference * scale;
}

void Boundaries::ensureM1Constrained("""),(B,"""      double backup_rss = rbss[idx_mn];
      rbss[idx_mn] = (backup_rss + zbcs[idx_mn]) * scaling_factor;
      zbcs[idx_mn] = (backup_rss - zbcs[idx_mn]) * scaling_factor;""","""      MixPair(rbss[idx_mn], zbcs[idx_mn], scaling_factor);"""),(B,"""      double backup_rsc = rbsc[idx_mn];
      rbsc[idx_mn] = (backup_rsc + zbcc[idx_mn]) * scaling_factor;
      zbcc[idx_mn] = (backup_rsc - zbcc[idx_mn]) * scaling_factor;""","""      MixPair(rbsc[idx_mn], zbcc[idx_mn], scaling_factor);""")],
"b_setup_return":[(B,"""  bool haveToFlipTheta = checkSignOfJacobian();
  if (haveToFlipTheta) {
    if (verbose) {
      std::cout << "need to flip theta definition of input boundary shape\\n";
    }
    flipTheta();
  }
""","""  const bool haveToFlipTheta = checkSignOfJacobian();
  if (haveToFlipTheta && verbose) {
    std::cout << "need to flip theta definition of input boundary shape\\n";
  }
  if (haveToFlipTheta) {
    flipTheta();
  }
""")],
"b_fill_helper":[(B,"""  absl::c_fill_n(rbcc, s_.mpol * (s_.ntor + 1), 0);
  absl::c_fill_n(zbsc, s_.mpol * (s_.ntor + 1), 0);
""","""  const int num_coefficients = s_.mpol * (s_.ntor + 1);
  for (int i = 0; i < num_coefficients; ++i) {
    rbcc[i] = 0.0;
    zbsc[i] = 0.0;
  }
""")],
"sz_nzeta":[(SZ,"""  if (ntor > 0) {
    // 3D/Stellarator case needs Nyquist criterion fulfilled for nzeta wrt. ntor
    if (nZeta < 2 * ntor + 4) {
      nZeta = 2 * ntor + 4;""","""  {
    // 3D/Stellarator case needs Nyquist criterion fulfilled for nzeta wrt. ntor
    const int min_n_zeta = 2 * (ntor + 2);
    if (ntor > 0 && nZeta < min_n_zeta) {
      nZeta = min_n_zeta;""")],
"sz_wint":[(SZ,"""    wInt[l] = dnorm3;
    if (!lasym && (l == 0 || l == nThetaReduced - 1)) {
      // weight back to 1 at the endpoints
      wInt[l] /= 2.0;
    }""","""    const bool is_endpoint = (l == 0 || l == nThetaReduced - 1);
    wInt[l] = (is_endpoint && !lasym) ? dnorm3 / 2.0 : dnorm3;""")],
"sz_basis":[(SZ,"""  num_basis = 1;
  if (lthreed) {
    num_basis *= 2;
  }
  if (lasym) {
    num_basis *= 2;
  }""","""  num_basis = (lthreed ? 2 : 1) * (lasym ? 2 : 1);""")],
"sz_nyq":[(SZ,"""  mnyq2 = std::max(0, std::max(2 * mnyq0, 2 * (mpol - 1)));
  nnyq2 = std::max(0, std::max(2 * nnyq0, 2 * ntor));""","""  mnyq2 = std::max(0, 2 * std::max(mnyq0, mpol - 1));
  nnyq2 = 2 * std::max(0, std::max(ntor, nnyq0));""")],
"sz_theff":[(SZ,"""  if (lasym) {
    nThetaEff = nThetaEven;
  } else {
    // use stellarator- or up/down-symmetry
    // --> only eval on reduced [0, pi] poloidal interval
    nThetaEff = nThetaReduced;
  }""","""  nThetaEff = nThetaReduced;
  if (lasym) {
    nThetaEff = nThetaEven;
  }""")],
"ls_zero_hoist":[(LS,"""        const int m = 0;
        // For lasym the matrix""","""        // For lasym the matrix"""),(LS,"""          matrixShare[(mnp * (2 * nf + 1) + all_n) * (mf + 1) + m] = 0.0;
        } else {
          const int row = all_n * (mf + 1) + m;
          matrixShare[row + mnp * mnpd_dim] = 0.0;
          matrixShare[row + (mnp + mnpd) * mnpd_dim] = 0.0;
          matrixShare[(row + mnpd) + mnp * mnpd_dim] = 0.0;
          matrixShare[(row + mnpd) + (mnp + mnpd) * mnpd_dim] = 0.0;""","""          matrixShare[mnp * mnpd + all_n * (mf + 1)] = 0.0;
        } else {
          const int row = all_n * (mf + 1);
          for (int col_block = 0; col_block < 2; ++col_block) {
            const int col = mnp + col_block * mnpd;
            matrixShare[row + col * mnpd_dim] = 0.0;
            matrixShare[(row + mnpd) + col * mnpd_dim] = 0.0;
          }""")],
"ls_diag_merge":[(LS,"""    if (!s_.lasym) {
      for (int mn = 0; mn < mnpd; ++mn) {
        matrixShare[mn * mnpd + mn] += 0.5;
      }
    } else {""","""    if (!s_.lasym) {
      for (int mn = 0; mn < mnpd; ++mn) {
        matrixShare[mn * (mnpd + 1)] += 0.5;
      }
    }
    if (s_.lasym) {""")],
"ls_bvec_loop":[(LS,"""    bvec_sin_share += bvec_sin + singular_sin * inv_nfp;
""","""    for (int mn = 0; mn < mnpd; ++mn) {
      bvec_sin_share[mn] += bvec_sin[mn] + singular_sin[mn] * inv_nfp;
    }
""")],
"ls_singlebarrier":[(LS,"""#ifdef _OPENMP
#pragma omp single
#endif  // _OPENMP
  absl::c_fill_n(bvecShare, mnpd_dim, 0);
#ifdef _OPENMP
#pragma omp barrier
#endif  // _OPENMP
""","""#ifdef _OPENMP
#pragma omp single
#endif  // _OPENMP
  absl::c_fill_n(bvecShare, mnpd_dim, 0);
""")],
"ls_mat_helper":[(LS,"""          const int src = j * mnpd + i;
          // top-left: sin-sin'
          matrixShare[i + j * stride] += amat_sin_sin[src];
          // top-right: sin-cos' (Fortran amatrix(:,:,2))
          matrixShare[i + (j + mnpd) * stride] += amat_sin_cos[src];""","""          const int src = j * mnpd + i;
          const int top = j * stride + i;
          const int right = mnpd * stride;
          // top-left: sin-sin'
          matrixShare[top] += amat_sin_sin[src];
          // top-right: sin-cos' (Fortran amatrix(:,:,2))
          matrixShare[top + right] += amat_sin_cos[src];""")],
"mg_helper":[(MG,"""// interpolate mgrid file at current flux surface
void MGridProvider::interpolate(""","""namespace {
double Bilinear(const Eigen::VectorXd& field, double w11, double w12,
                double w21, double w22, int i11, int i12, int i21, int i22) {
  return w11 * field[i11] + w12 * field[i12] + w21 * field[i21] +
         w22 * field[i22];
}
}  // namespace

// interpolate mgrid file at current flux surface
void MGridProvider::interpolate("""),(MG,"""        w11 * bR[kj_i_] + w12 * bR[kj1i_] + w21 * bR[kj_i1] + w22 * bR[kj1i1];
    m_interpBp[kl - ztMin] =
        w11 * bP[kj_i_] + w12 * bP[kj1i_] + w21 * bP[kj_i1] + w22 * bP[kj1i1];
    m_interpBz[kl - ztMin] =
        w11 * bZ[kj_i_] + w12 * bZ[kj1i_] + w21 * bZ[kj_i1] + w22 * bZ[kj1i1];""","""        Bilinear(bR, w11, w12, w21, w22, kj_i_, kj1i_, kj_i1, kj1i1);
    m_interpBp[kl - ztMin] =
        Bilinear(bP, w11, w12, w21, w22, kj_i_, kj1i_, kj_i1, kj1i1);
    m_interpBz[kl - ztMin] =
        Bilinear(bZ, w11, w12, w21, w22, kj_i_, kj1i_, kj_i1, kj1i1);""")],
"mg_weights":[(MG,"""    double w21 = pr - w22;               //    p *(1-q) = p - p*q
    double w12 = qz - w22;               // (1-p)*   q  = q - p*q
    double w11 = 1.0 + w22 - (pr + qz);  // (1-p)*(1-q) = 1 + p*q - (p + q)""","""    double w21 = pr * (1.0 - qz);
    double w12 = (1.0 - pr) * qz;
    double w11 = (1.0 - pr) * (1.0 - qz);""")],
"mg_clamp":[(MG,"""    double r = std::max(minR, std::min(rLCFS[kl], maxR));
    double z = std::max(minZ, std::min(zLCFS[kl], maxZ));""","""    double r = std::clamp(rLCFS[kl], minR, maxR);
    double z = std::clamp(zLCFS[kl], minZ, maxZ);""")],
"mg_exceed":[(MG,"""    if (rLCFS[kl] < minR || rLCFS[kl] > maxR) {
      exceedGridSizeR = true;
    }
    if (zLCFS[kl] < minZ || zLCFS[kl] > maxZ) {
      exceedGridSizeZ = true;
    }""","""    exceedGridSizeR = exceedGridSizeR || rLCFS[kl] < minR || rLCFS[kl] > maxR;
    exceedGridSizeZ = exceedGridSizeZ || zLCFS[kl] < minZ || zLCFS[kl] > maxZ;""")],
"mg_index":[(MG,"""    int kj_i_ = (k * numZ + jz) * numR + ir;
    int kj1i_ = (k * numZ + jz1) * numR + ir;
    int kj_i1 = (k * numZ + jz) * numR + ir1;
    int kj1i1 = (k * numZ + jz1) * numR + ir1;""","""    auto grid_index = [&](int j, int i) { return (k * numZ + j) * numR + i; };
    int kj_i_ = grid_index(jz, ir);
    int kj1i_ = grid_index(jz1, ir);
    int kj_i1 = grid_index(jz, ir1);
    int kj1i1 = grid_index(jz1, ir1);""")],
"mg_fixed_helper":[(MG,"""    for (int kl = ztMin; kl < ztMax; ++kl) {
      m_interpBr[kl - ztMin] = fixed_br_[kl];
      m_interpBp[kl - ztMin] = fixed_bp_[kl];
      m_interpBz[kl - ztMin] = fixed_bz_[kl];
    }  // kl""","""    const int n_local = ztMax - ztMin;
    for (int i = 0; i < n_local; ++i) {
      const int kl = ztMin + i;
      m_interpBr[i] = fixed_br_[kl];
      m_interpBp[i] = fixed_bp_[kl];
      m_interpBz[i] = fixed_bz_[kl];
    }""")],
"mg_sum_hoist":[(MG,"""  for (int i = 0; i < nextcur; ++i) {
    for (int linear_index = 0; linear_index < num_grid_points; ++linear_index) {
      bR[linear_index] +=
          magnetic_response_table.b_r(i, linear_index) * coil_currents[i];
      bP[linear_index] +=
          magnetic_response_table.b_p(i, linear_index) * coil_currents[i];
      bZ[linear_index] +=
          magnetic_response_table.b_z(i, linear_index) * coil_currents[i];
    }  // linear_index
  }  // nextcur""","""  for (int i = 0; i < nextcur; ++i) {
    const double current = coil_currents[i];
    for (int j = 0; j < num_grid_points; ++j) {
      bR[j] += current * magnetic_response_table.b_r(i, j);
      bP[j] += current * magnetic_response_table.b_p(i, j);
      bZ[j] += current * magnetic_response_table.b_z(i, j);
    }
  }""")],
"fv_assign_early":[(FV,"""  if (this != &other) {
    FourierCoeffs::operator=(other);
    BindSpans();
  }
  return *this;""","""  if (this == &other) {
    return *this;
  }
  FourierCoeffs::operator=(other);
  BindSpans();
  return *this;""")],
}
