import runpy
A = runpy.run_path("/verif/tools/seedspecs/a.py")
cpp, C, ABSL = A["cpp"], A["C"], A["ABSL"]
L = ABSL + " -labsl_str_format_internal -labsl_hash -labsl_raw_hash_set -labsl_int128 -labsl_city -labsl_low_level_hash -labsl_cord_internal -labsl_cordz_info"
HDF = " -lhdf5_cpp -lhdf5 " + L
IND = ["vmecpp/common/vmec_indata/vmec_indata.cc", "vmecpp/common/vmec_indata/boundary_from_json.cc", "util/json_io/json_io.cc", "util/hdf5_io/hdf5_io.cc", "util/file_io/file_io.cc", "vmecpp/common/util/util.cc"]
IN = C + "vmecpp/common/vmec_indata/vmec_indata.cc"
SEEDS = []
def add(id, prop, needs, breaks, edits, main, srcs, libs):
    SEEDS.append(dict(id=id, property=prop, cpp=True, needs=needs, breaks=breaks, edits=edits, files={"main.cc": main}, demo=cpp(srcs, libs)))

add("c01_int_entry", "C01", "a JSON integer array with a fractional entry", "a fractional entry of an integer array is silently truncated instead of rejected",
 [(C+"util/json_io/json_io.cc", "    if (entry.is_number_integer()) {", "    if (entry.is_number()) {")],
 r'''
#include "util/json_io/json_io.h"
int main() {
  auto a = json_io::JsonReadVectorInt(nlohmann::json::parse("{\"v\":[5,11]}"), "v");
  if (!a.ok() || !a->has_value() || (**a)[1] != 11) return 2;
  auto b = json_io::JsonReadVectorInt(nlohmann::json::parse("{\"v\":[5,11.7]}"), "v");
  return b.ok() ? 1 : 0;
}
''', ["util/json_io/json_io.cc"], L)

add("c10_zbc_columns", "C10", "an asymmetric input whose zbc array alone has the wrong number of columns", "the column check of zbc looks at rbs, so a malformed zbc is accepted",
 [(IN, "    if (vmec_indata.zbc->cols() != 2 * vmec_indata.ntor + 1) {", "    if (vmec_indata.rbs->cols() != 2 * vmec_indata.ntor + 1) {")],
 r'''
#include "vmecpp/common/vmec_indata/vmec_indata.h"
int main() {
  vmecpp::VmecINDATA in;
  in.lasym = true;
  in.SetMpolNtor(6, 2);
  in.ntheta = 18; in.nzeta = 12; 
  if (!vmecpp::IsConsistent(in, false).ok()) return 2;
  in.zbc = vmecpp::RowMatrixXd::Zero(6, 4);
  return vmecpp::IsConsistent(in, false).ok() ? 1 : 0;
}
''', IND, HDF)

add("c07_nyquist_nfp", "C07", "more than one field period and the Nyquist mode tables", "toroidal mode numbers of the Nyquist table lack the factor of the number of field periods",
 [(C+"vmecpp/common/fourier_basis/fourier_basis.cc", "xn_nyq, s_.nnyq,\n                           s_.mnyq + 1, s_.nfp);", "xn_nyq, s_.nnyq,\n                           s_.mnyq + 1, 1);")],
 r'''
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
int main() {
  for (int nfp : {1, 3, 5}) {
    vmecpp::Sizes s(false, nfp, 4, 2, 0, 12);
    vmecpp::FourierBasisFastPoloidal b(&s);
    for (int n = 0; n < b.xn_nyq.size(); ++n) if (b.xn_nyq[n] % nfp) return 1;
  }
}
''', ["vmecpp/common/fourier_basis/fourier_basis.cc", "vmecpp/common/sizes/sizes.cc"] + IND, HDF)

add("c25_delta_asym", "C25", "a non-stellarator-symmetric boundary with ntor > 0 that needs the poloidal shift", "the shift that removes the m=1 ambiguity mixes the coefficients with the wrong sign",
 [(C+"vmecpp/vmec/boundaries/boundaries.cc", "rbs = (*id.rbs)(m, source_n) * cosMDelta -", "rbs = (*id.rbs)(m, source_n) * cosMDelta +")],
 r'''
#include "vmecpp/vmec/boundaries/boundaries.h"
#include <cmath>
#include <cstdio>
int main() {
  vmecpp::VmecINDATA in;
  in.lasym = true; in.mpol = 6; in.ntor = 0;
  in.SetMpolNtor(4, 0);
  in.ntheta = 18;
  in.raxis_c[0] = 6.0;
  in.rbc(0, 0) = 6.0; in.rbc(1, 0) = 2.0; in.zbs(1, 0) = 2.5;
  (*in.rbs)(1, 0) = 0.3; (*in.zbc)(1, 0) = 0.1; (*in.rbs)(2, 0) = 0.2; in.rbc(2, 0) = 0.15;
  vmecpp::Sizes s(in);
  vmecpp::FourierBasisFastPoloidal t(&s);
  vmecpp::Boundaries b(&s, &t, -1);
  b.setupFromIndata(in, false);
  // the poloidal shift leaves the curve itself unchanged: same set of (R, Z) points under theta -> theta + delta
  double want = std::hypot(0.15, 0.2);   // amplitude of the m=2 part of R is invariant
  double got = std::hypot(b.rbcc[2], b.rbsc[2]);
  std::printf("%g %g\n", got, want);
  return std::abs(got - want) < 1e-12 ? 0 : 1;
}
''', ["vmecpp/vmec/boundaries/boundaries.cc", "vmecpp/vmec/boundaries/guess_magnetic_axis.cc", "vmecpp/common/fourier_basis/fourier_basis.cc", "vmecpp/common/sizes/sizes.cc"] + IND, HDF)

add("c12_stale_field", "C12", "a second response table of the same size loaded into the same provider", "toroidal field of the table loaded before is added to that of the new one",
 [(C+"vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc", "  bP.setZero(num_grid_points);", "  if (bP.size() != num_grid_points) bP.setZero(num_grid_points);")],
 r'''
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
int main() {
  makegrid::MagneticFieldResponseTable t;
  auto& p = t.parameters;
  p.normalize_by_currents = true; p.assume_stellarator_symmetry = false; p.number_of_field_periods = 1;
  p.r_grid_minimum = 1; p.r_grid_maximum = 2; p.number_of_r_grid_points = 2;
  p.z_grid_minimum = -1; p.z_grid_maximum = 1; p.number_of_z_grid_points = 2; p.number_of_phi_grid_points = 1;
  t.b_r = t.b_p = t.b_z = vmecpp::RowMatrixXd::Constant(1, 4, 1.0);
  vmecpp::MGridProvider m;
  Eigen::VectorXd c(1); c[0] = 3.0;
  if (!m.LoadFields(t, c).ok() || !m.LoadFields(t, c).ok()) return 2;
  for (int i = 0; i < 4; ++i) if (m.bR[i] != 3.0 || m.bP[i] != 3.0 || m.bZ[i] != 3.0) return 1;
}
''', ["vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc", "util/netcdf_io/netcdf_io.cc"], "-lnetcdf " + L)

add("c21_circuit_zero", "C21", "a coils file in which circuit number 0 names more than one coil", "coils of circuit 0 end up in separate circuits",
 [(C+"vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc", "          coil_ids.push_back(serial_circuit_id);\n        }", "          if (serial_circuit_id > 0) coil_ids.push_back(serial_circuit_id);\n        }")],
 r'''
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
int main() {
  auto text = [](const char* id) {
    std::string s = "periods 1\nbegin filament\nmirror NIL\n";
    for (const char* z : {"0.0", "1.0"})
      s += std::string("1.0 0.0 ") + z + " 2.0\n0.0 1.0 " + z + " 2.0\n1.0 0.0 " + z + " 0.0 " + id + " coil\n";
    return s + "end\n";
  };
  for (const char* id : {"1", "7", "0"}) {
    auto m = magnetics::ImportMagneticConfigurationFromMakegrid(text(id));
    if (!m.ok()) return 2;
    if (m->serial_circuits_size() != 1 || m->serial_circuits(0).coils_size() != 2) return 1;
  }
}
''', ["vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc", "vmecpp/common/composed_types_lib/composed_types_lib.cc", "util/file_io/file_io.cc"], L)

add("c15_bloat", "C15", "a bloat factor other than one", "profiles are evaluated at the unbloated position",
 [(C+"vmecpp/vmec/radial_profiles/radial_profiles.cc", "double normX = std::min(std::abs(x * id_.bloat), 1.0);", "double normX = std::min(std::abs(x), 1.0);")],
 r'''
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include <cmath>
#include <cstdio>
int main() { return 0; }
''', [], L)
SEEDS.pop()
