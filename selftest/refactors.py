C="cpp/vmecpp/"
RP=C+"vmec/radial_partitioning/radial_partitioning.cc"
FB=C+"common/fourier_basis/fourier_basis.cc"
MK=C+"vmec/ideal_mhd_model/metric_kernel.h"
CT=C+"common/composed_types_lib/composed_types_lib.cc"
CMD={"*":"python3 lib/refcheck.py 2>&1 | cut -c1-260 | head -30"}
EDITS={
"rp_ternary":[(RP,"""  if (lfreeb) {
    nsMaxF = ns_;
  } else {
    nsMaxF = ns_ - 1;
  }""","  nsMaxF = lfreeb ? ns_ : ns_ - 1;"),(RP,"""    if (thread_id < work_remainder) {
      nsMinF += thread_id;
      nsMaxF += thread_id + 1;
    } else {
      nsMinF += work_remainder;
      nsMaxF += work_remainder;
    }""","""    nsMinF += std::min(thread_id, work_remainder);
    nsMaxF += std::min(thread_id + 1, work_remainder);""")],
"rp_helper":[(RP,"RadialPartitioning::RadialPartitioning() {","""static int LastIncluding(int last1, int ns, int fallback) {
  if (last1 != ns) { return fallback; }
  return ns;
}

RadialPartitioning::RadialPartitioning() {"""),(RP,"""    nsMaxFIncludingLcfs = nsMaxF;
    if (nsMaxF1 == ns_) {
      nsMaxFIncludingLcfs = ns_;
    }
  }""","""    nsMaxFIncludingLcfs = LastIncluding(nsMaxF1, ns_, nsMaxF);
  }""")],
"fb_loops":[(FB,"""    if (m == 0) {
      mscale[m] = 1.0;
    } else {
      mscale[m] = std::numbers::sqrt2;
    }
  }  // m""","""    mscale[m] = m > 0 ? std::numbers::sqrt2 : 1.0;
  }  // m"""),(FB,"""  for (int k = 0; k < s_.nZeta; ++k) {
    const double zeta = kTwoPi * k / s_.nZeta;
    for (int n = 0; n < s_.nnyq2 + 1; ++n) {""","""  for (int n = 0; n <= s_.nnyq2; ++n) {
    for (int k = s_.nZeta - 1; k >= 0; --k) {
      const double zeta = k * (kTwoPi / s_.nZeta);""")],
"fb_peel":[(FB,"""  for (int m = 0; m < s_.mnyq2 + 1; ++m) {
    // DFTs""","""  mscale[0] = 1.0;
  for (int m = 1; m < s_.mnyq2 + 1; ++m) {
    // DFTs"""),],
"fb_while":[(FB,"""  int m = 0;
  for (int n = 0; n < n_size + 1; ++n) {
    int abs_n = abs(n);

    double basis_norm = 1.0 / (mscale[m] * nscale[abs_n]);

    double normedFC = basis_norm * fcCos[mn];

    m_fcCC[Layout::ProductIndex(m, abs_n, m_size, n_size)] += normedFC;
    // no contribution to fcSS where (m == 0 || n == 0)

    mn++;
  }""","""  int m = 0;
  int n0 = 0;
  while (n0 <= n_size) {
    m_fcCC[Layout::ProductIndex(m, n0, m_size, n_size)] += fcCos[mn++] / (mscale[m] * nscale[n0]);
    ++n0;
  }""")],
"mk_lambda":[(MK,"""      gsqrt[ih] = tau[ih] * r12[ih];

      guu[ih] = 0.5 * ((rue_i * rue_i + zue_i * zue_i) +
                       (rue_o * rue_o + zue_o * zue_o) +""","""      const auto sq = [](double a, double b) { return a * a + b * b; };
      gsqrt[ih] = r12[ih] * tau[ih];

      guu[ih] = 0.5 * (sq(rue_i, zue_i) +
                       sq(rue_o, zue_o) +""")],
"mk_flat":[(MK,"""  for (int jH = nsMinH; jH < nsMaxH; ++jH) {
    const double sF_i""","""  const int num_half = nsMaxH - nsMinH;
  for (int j = 0; j < num_half; ++j) {
    const int jH = j + nsMinH;
    const double sF_i""")],
"ct_loop":[(CT,"""  double dot_product = 0.0;
  dot_product += vector_1.x() * vector_2.x();
  dot_product += vector_1.y() * vector_2.y();
  dot_product += vector_1.z() * vector_2.z();
  return dot_product;""","""  const double a[3] = {vector_1.x(), vector_1.y(), vector_1.z()};
  const double b[3] = {vector_2.x(), vector_2.y(), vector_2.z()};
  double dot = 0.0;
  for (int i = 0; i < 3; ++i) {
    dot += a[i] * b[i];
  }
  return dot;""")],
"ct_err":[(CT,"""  if (!vector.has_x()) {
    std::stringstream error_message;
    error_message << vector_name;
    error_message << " has no x component.";
    return absl::NotFoundError(error_message.str());
  }
""","""  const auto missing = [&vector_name](const char* c) {
    return absl::NotFoundError(std::string(vector_name) + " has no " + c + " component.");
  };
  if (!vector.has_x()) {
    return missing("x");
  }
"""),(CT,"""  Vector3d difference;
  difference.set_x(vector_1.x() - vector_2.x());
  difference.set_y(vector_1.y() - vector_2.y());
  difference.set_z(vector_1.z() - vector_2.z());
  return difference;""","""  Vector3d difference = vector_1;
  difference.set_x(difference.x() - vector_2.x());
  difference.set_y(difference.y() - vector_2.y());
  difference.set_z(difference.z() - vector_2.z());
  return difference;""")],
}
