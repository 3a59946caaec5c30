C = "src/vmecpp/cpp/"
CPPDEMO = r'''
#!/bin/bash
# builds a small driver against the sources in the current directory
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -fopenmp -DEIGEN_DONT_PARALLELIZE -I"$D/inc" -I"$PWD/src/vmecpp/cpp" -I/usr/include/eigen3 -I/usr/include/hdf5/serial "$D/main.cc" %s -o "$T/demo" -L/usr/lib/x86_64-linux-gnu/hdf5/serial %s
"$T/demo" "$T"
'''
def cpp(srcs, libs=""):
    return CPPDEMO % (" ".join('"$PWD/src/vmecpp/cpp/%s"' % s for s in srcs), libs)
ABSL = "-labsl_status -labsl_statusor -labsl_cord -labsl_str_format_internal -labsl_strings -labsl_strings_internal -labsl_throw_delegate -labsl_raw_logging_internal -labsl_base"
SEEDS = []
SEEDS.append(dict(id="c06_partition_gap", property="C06", cpp=True,
  needs="more than two threads and a surface count that leaves a remainder", breaks="two threads own the same surface",
  edits=[(C+"vmecpp/vmec/radial_partitioning/radial_partitioning.cc", "    if (thread_id < work_remainder) {\n      nsMinF += thread_id;\n      nsMaxF += thread_id + 1;", "    if (thread_id < work_remainder - 1) {\n      nsMinF += thread_id;\n      nsMaxF += thread_id + 1;")],
  files={"main.cc": r'''
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include <cstdio>
int main(){
  for (int ns=5; ns<60; ++ns) for (int nt=1; nt<=ns/2; ++nt) for (int fb=0; fb<2; ++fb) {
    int next=0;
    for (int t=0;t<nt;++t){ vmecpp::RadialPartitioning r; r.adjustRadialPartitioning(nt,t,ns,fb,false);
      if (r.nsMinF!=next || r.nsMaxF<=r.nsMinF) { std::printf("ns %d nt %d t %d\n",ns,nt,t); return 1; }
      next=r.nsMaxF; }
    if (next != (fb?ns:ns-1)) { std::printf("end ns %d nt %d\n",ns,nt); return 1; }
  }
  return 0; }
'''}, demo=cpp(["vmecpp/vmec/radial_partitioning/radial_partitioning.cc"], ABSL)))
SEEDS.append(dict(id="c23_tridiag_jmin", property="C23", cpp=True,
  needs="a system whose first row is not row 0 (jMin > 0), as for modes with m > 0", breaks="the solution's first row is not back-substituted",
  edits=[(C+"vmecpp/common/util/util.cc", "for (int j = jMax - 2; j > jMin - 1; --j) {\n      c(k, j) -= m_a[j] * c(k, j + 1);", "for (int j = jMax - 2; j > std::max(jMin - 1, jMin * k); --j) {\n      c(k, j) -= m_a[j] * c(k, j + 1);")],
  files={"main.cc": r'''
#include "vmecpp/common/util/util.h"
#include <vector>
#include <cmath>
#include <cstdio>
int main(){
  const int n=7, nr=3;
  for (int jmin=0;jmin<3;++jmin){
    std::vector<double> a(n),d(n),b(n),c(n*nr); 
    for(int j=0;j<n;++j){a[j]=0.3+0.01*j;d[j]=3+0.1*j;b[j]=0.2-0.02*j;for(int k=0;k<nr;++k)c[k*n+j]=1+j+2*k;}
    auto a0=a,d0=d,b0=b,c0=c;
    vmecpp::TridiagonalSolveSerial(a,d,b,c.data(),n,jmin,n,nr);
    for(int k=0;k<nr;++k) for(int j=jmin;j<n;++j){
      double r=d0[j]*c[k*n+j]; if(j>jmin) r+=b0[j]*c[k*n+j-1]; if(j<n-1) r+=a0[j]*c[k*n+j+1];
      if(std::fabs(r-c0[k*n+j])>1e-10){std::printf("jmin %d k %d j %d\n",jmin,k,j);return 1;} }
  } return 0; }
'''}, demo=cpp(["vmecpp/common/util/util.cc"], ABSL)))
SEEDS.append(dict(id="c20_metric_guv", property="C20", cpp=True,
  needs="a 3D (non-axisymmetric) state with a toroidal derivative of R", breaks="the off-diagonal covariant field component uses the transposed weight",
  edits=[(C+"vmecpp/vmec/ideal_mhd_model/bco_kernel.h", "bsubv[i] = guv[i] * bsupu[i] + gvv[i] * bsupv[i];", "bsubv[i] = guv[i] * bsupv[i] + gvv[i] * bsupv[i];")],
  files={"main.cc": r'''
#include "vmecpp/vmec/ideal_mhd_model/bco_kernel.h"
#include <cmath>
int main(){ double guu[2]={1,2},guv[2]={.5,.25},gvv[2]={3,4},bu[2]={2,3},bv[2]={5,7},su[2],sv[2];
 vmecpp::ComputeBCo(guu,guv,gvv,bu,bv,true,2,su,sv);
 for(int i=0;i<2;++i) if(std::fabs(sv[i]-(guv[i]*bu[i]+gvv[i]*bv[i]))>1e-12||std::fabs(su[i]-(guu[i]*bu[i]+guv[i]*bv[i]))>1e-12) return 1;
 return 0; }
'''}, demo=cpp([])))
SEEDS.append(dict(id="c12_netcdf_3d_stride", property="C12", cpp=True,
  needs="a 3D array whose second and third dimension differ", breaks="3D arrays are sliced with the wrong row length",
  edits=[], files={}, demo="") )
SEEDS.pop()
SEEDS.append(dict(id="c14_restart_names", property="C14", cpp=True,
  needs="a restart reason stored as integer 3 or 4", breaks="two restart reasons are exchanged when converted from their codes",
  edits=[(C+"vmecpp/common/flow_control/flow_control.cc", "    case 3:\n      return RestartReason::BAD_PROGRESS;\n    case 4:\n      return RestartReason::HUGE_INITIAL_FORCES;", "    case 4:\n      return RestartReason::BAD_PROGRESS;\n    case 3:\n      return RestartReason::HUGE_INITIAL_FORCES;")],
  files={"main.cc": r'''
#include "vmecpp/common/flow_control/flow_control.h"
int main(){ for(int i=1;i<=4;++i) if ((int)vmecpp::RestartReasonFromInt(i)!=i) return 1; return 0; }
'''}, demo=cpp(["vmecpp/common/flow_control/flow_control.cc"], ABSL)))
