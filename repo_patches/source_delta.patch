From 95392967472ba291d24ad351350f11c5b1ce8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 1/8] fix: write asymmetric axis and boundary arrays, not a
 single element

VmecINDATA::WriteTo and ToJson called Eigen's DenseBase::value() on the
contained array (an assertion failure, or only the first element with NDEBUG)
instead of writing the array itself whenever lasym is set.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..79f60f4 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = *raxis_s;
+    output["zaxis_c"] = *zaxis_c;
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From de305d762ae4b1c46b07feda0f5d6b3f555c4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 2/8] fix: accept asymmetric JSON input without raxis_s or
 zaxis_c

The keys are optional, but leaving one out threw std::bad_optional_access;
their default is a zero-filled axis, like that of the symmetric ones.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 79f60f4..65ebac1 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -949,6 +949,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     }
     if (maybe_raxis_s->has_value()) {
       vmec_indata.raxis_s = maybe_raxis_s->value();
+    } else {
+      vmec_indata.raxis_s.emplace();
     }
 
     if (absl::Status status =
@@ -963,6 +965,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     }
     if (maybe_zaxis_c->has_value()) {
       vmec_indata.zaxis_c = maybe_zaxis_c->value();
+    } else {
+      vmec_indata.zaxis_c.emplace();
     }
 
     if (absl::Status status =
-- 
2.43.0


From ba91b56c2798d3a927b7f13aeac2bb1cea5fe456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 3/8] fix: ignore boundary coefficients with negative m in JSON
 input

Only m > mpol - 1 was filtered out, so m < 0 wrote outside of the coefficient
array. BoundaryFromJson already ignores such entries.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 65ebac1..70b4ae5 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -986,10 +986,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring rbc entry with m = %d, since m is not between 0 and "
+            "(mpol - 1) = %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
@@ -1016,10 +1016,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
-            "= %d",
+            "Ignoring zbs entry with m = %d, since m is not between 0 and "
+            "(mpol - 1) = %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
@@ -1053,10 +1053,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring rbs entry with m = %d, since m is not between 0 and "
+              "(mpol - 1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
@@ -1083,10 +1083,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
-              "1) = %d",
+              "Ignoring zbc entry with m = %d, since m is not between 0 and "
+              "(mpol - 1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-- 
2.43.0


From 478fd323cd337e456238165094b955375833c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 4/8] fix: reject too short ftol_array/niter_array and missing
 asymmetric arrays

IsConsistent indexed ftol_array and niter_array by the length of ns_array and
dereferenced the optional asymmetric arrays without looking whether they are
set.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 70b4ae5..e5d5cac 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1325,6 +1325,11 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // ftol_array
+  if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "length of ftol_array (%ld) does not match length of ns_array (%ld)\n",
+        vmec_indata.ftol_array.size(), vmec_indata.ns_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     double ftol = vmec_indata.ftol_array[idx];
@@ -1337,6 +1342,11 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // niter_array
+  if (vmec_indata.niter_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "length of niter_array (%ld) does not match length of ns_array (%ld)\n",
+        vmec_indata.niter_array.size(), vmec_indata.ns_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     int niter = vmec_indata.niter_array[idx];
@@ -1527,6 +1537,13 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    // all asymmetric arrays are needed when lasym == true
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value() ||
+        !vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s', 'zaxis_c', 'rbs' and 'zbc' need to be "
+          "set when 'lasym' is true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 94190b7e095ed09a22de5c529a58148b7999f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 5/8] fix: keep the magnetic axis when converting JSON input to
 INDATA

The JSON keys are raxis_c, zaxis_s, raxis_s, zaxis_c; only the Fortran names
(raxis_cc, ...) were looked up, so the initial axis was dropped silently.
---
 src/vmecpp/_util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..3907793 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,10 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    indata += _float_array_to_namelist("raxis_c", vmecpp_json, "raxis_cc")
+    indata += _float_array_to_namelist("zaxis_s", vmecpp_json, "zaxis_cs")
+    indata += _float_array_to_namelist("raxis_s", vmecpp_json, "raxis_cs")
+    indata += _float_array_to_namelist("zaxis_c", vmecpp_json, "zaxis_cc")
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
@@ -284,14 +284,16 @@ def _int_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     return ""
 
 
-def _float_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
+def _float_array_to_namelist(
+    varname: str, vmecpp_json: dict[str, Any], namelist_name: str | None = None
+) -> str:
     if (
         varname in vmecpp_json
         and vmecpp_json[varname] is not None
         and len(vmecpp_json[varname]) > 0
     ):
         elements = ", ".join([f"{x:.20e}" for x in vmecpp_json[varname]])
-        return f"  {varname} = {elements}\n"
+        return f"  {namelist_name or varname} = {elements}\n"
     return ""
 
 
-- 
2.43.0


From 965d216b205734ed6183e1b9a44c31c85b2df21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 6/8] fix: do not transpose square Fourier arrays when loading
 a wout from HDF5

The detection of the old (ns, mnmax) layout also matched the current
(mnmax, ns) layout when mnmax == ns, so what was just saved was loaded
transposed.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..bc49577 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1075,7 +1075,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // New layout is (mnmax, ns) where mnmax < ns is not guaranteed,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
-    if (tmp.rows() == m_obj.ns &&
+    // A square array is ambiguous and taken to be in the new layout.
+    if (tmp.rows() == m_obj.ns && tmp.cols() != m_obj.ns &&
         (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
       dest = tmp.transpose();
     } else {
@@ -1090,7 +1091,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize &&
+                   mnsize != m_obj.ns) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
-- 
2.43.0


From 883d243a43bc065f1f511f7dff69f3d63de7fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 7/8] fix: normalize the second axis of
 OrthonormalFrameAroundAxis

Subtracting the projection leaves a vector shorter than one unless the given
axis is a coordinate axis, so the second and third axes were not unit vectors.
---
 .../vmecpp/common/composed_types_lib/composed_types_lib.cc   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
index de1abee..7032ea4 100644
--- a/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/composed_types_lib/composed_types_lib.cc
@@ -132,8 +132,9 @@ std::array<Vector3d, 3> OrthonormalFrameAroundAxis(const Vector3d& axis) {
   const double axis_dot_most_perp =
       DotProduct(orthonormal_frame[0], most_perpendicular_axis);
   orthonormal_frame[1] =
-      Add(most_perpendicular_axis,
-          ScaleTo(orthonormal_frame[0], -axis_dot_most_perp));
+      ScaleTo(Add(most_perpendicular_axis,
+                  ScaleTo(orthonormal_frame[0], -axis_dot_most_perp)),
+              1.0);
 
   // third axis is found from cross product of other two axes
   orthonormal_frame[2] =
-- 
2.43.0


From d11ab7ea55c9588207ea43bbd8191786dc0d7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 8/8] fix: report an incomplete write in file_io::WriteFile

The state of the stream was not looked at after writing, so a full disk went
unnoticed.
---
 src/vmecpp/cpp/util/file_io/file_io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/util/file_io/file_io.cc b/src/vmecpp/cpp/util/file_io/file_io.cc
index 6651fcc..581bc12 100644
--- a/src/vmecpp/cpp/util/file_io/file_io.cc
+++ b/src/vmecpp/cpp/util/file_io/file_io.cc
@@ -41,6 +41,10 @@ absl::Status file_io::WriteFile(const std::filesystem::path& filename,
 
   file_stream.flush();
   file_stream.close();
+  if (!file_stream.good()) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be written completely.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0

